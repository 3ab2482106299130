"""Reference costs and helpers for the training checks."""

import numpy as np

from vh import nets


def connected(spec):
    """The description without the layers that do not lead to the output."""
    needed = {spec['layers'][-1]['name']}
    for layer in reversed(spec['layers']):
        if layer['name'] in needed:
            needed.update(layer['inputs'])
    return dict(spec, layers=[x for x in spec['layers']
                              if x['name'] in needed],
                inputs=[x for x in spec['inputs'] if x['name'] in needed])


def options(method='sgd', **kwargs):
    result = {'method': method, 'epsilon': 1e-6, 'learning_rate': 0.1,
              'weights': np.ones(1), 'max_gradient_norm': 5.0,
              'num_noise_samples': 2, 'noise_sharing': None, 'momentum': 0.9,
              'gradient_decay_rate': 0.9, 'sqr_gradient_decay_rate': 0.999}
    result.update(kwargs)
    return result


def reference_logprobs(spec, params, sequences, class_of, num_classes,
                       preact=False):
    """Log probability of each target of each sequence, or the preactivations
    of all classes at each position."""
    result = []
    for s in sequences:
        out = nets.forward(spec, params, s[:-1], [class_of[x] for x in s[:-1]],
                           num_classes)
        if preact:
            result.append(out['preact'])
        else:
            result.append(np.array([np.log(out['out'][t, class_of[x]])
                                    for t, x in enumerate(s[1:])]))
    return result


def regularization(params, l1, l2):
    cost = 0.0
    if l1 is not None:
        cost += l1 * sum(np.abs(v).sum() for v in params.values())
    if l2 is not None:
        cost += l2 * sum((v ** 2).sum() for v in params.values())
    return cost


def cross_entropy(spec, params, sequences, class_of, num_classes, exclude=None,
                  l1=None, l2=None):
    """Mean negative log probability of the targets, and their number."""
    logprobs = reference_logprobs(spec, params, sequences, class_of,
                                  num_classes)
    total, count = 0.0, 0
    for s, values in zip(sequences, logprobs):
        for x, value in zip(s[1:], values):
            if x != exclude:
                total -= value
                count += 1
    return total / max(count, 1) + regularization(params, l1, l2), count


def values(network):
    return {k: v.get_value() for k, v in network.get_variables().items()}


def assign(network, new):
    for k, v in network.get_variables().items():
        v.set_value(new[k])


def close_files(trainer, state):
    """Closes the in-memory file of an unfinished validation, as the end of the
    process does."""
    import h5py
    for value in list(vars(trainer).values()):
        if isinstance(value, h5py.File) and value != state:
            value.close()
