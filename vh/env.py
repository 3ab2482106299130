"""Prepares the process in which the code under test runs."""

import logging
import os
import sys
import warnings

_prepared = False


def prepare():
    global _prepared
    if _prepared:
        return
    _prepared = True
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(100000)
    logging.disable(logging.CRITICAL)
    import numpy
    numpy.seterr(all='ignore')
    logging.getLogger('theano').setLevel(logging.CRITICAL)
    stderr = os.dup(2)
    import theano
    import theanolm
    repo = os.environ.get('VH_REPO', '/repo')
    assert os.path.realpath(theanolm.__file__).startswith(
        os.path.realpath(repo) + os.sep), theanolm.__file__
    os.close(stderr)
    _patch_conv()


def _patch_conv():
    """Theano's NumPy fallback for convolution needs a SciPy that is older than
    the installed one.  Replaces just the inner loop with equivalent NumPy code
    (used only because the checks run Theano without a C compiler)."""
    import numpy as np
    from theano.tensor.nnet import abstract_conv

    def conv(self, img, kern, mode='valid', dilation=1, num_groups=1,
             unshared=False, direction='forward'):
        assert num_groups == 1 and not unshared
        if isinstance(dilation, (tuple, list)):
            assert all(d == 1 for d in dilation)
        else:
            assert dilation == 1
        n, c, h, w = img.shape
        f, c2, kh, kw = kern.shape
        assert c == c2
        if mode == 'full':
            padded = np.zeros((n, c, h + 2 * (kh - 1), w + 2 * (kw - 1)),
                              dtype=img.dtype)
            padded[:, :, kh - 1:kh - 1 + h, kw - 1:kw - 1 + w] = img
            img = padded
            n, c, h, w = img.shape
        else:
            assert mode == 'valid'
        oh, ow = h - kh + 1, w - kw + 1
        out = np.zeros((n, f, max(oh, 0), max(ow, 0)), dtype=img.dtype)
        # mathematical convolution: the kernel is flipped
        flipped = kern[:, :, ::-1, ::-1]
        for i in range(kh):
            for j in range(kw):
                out += np.einsum('nchw,fc->nfhw',
                                 img[:, :, i:i + oh, j:j + ow],
                                 flipped[:, :, i, j])
        return out

    base = getattr(abstract_conv, 'BaseAbstractConv')
    base.conv = conv
