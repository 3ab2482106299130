"""C02: saving and loading a vocabulary preserves it."""

import os

import h5py
import numpy as np
from hypothesis import strategies as st

from vh import gen
from vh.core import (Part, Violation, close, expect_raises, require,
                     scratch_dir, sut)


def snapshot(vocab):
    """Everything observable about a vocabulary."""
    n = vocab.num_words()
    ids = np.arange(n).reshape(1, n)
    classes, probs = vocab.get_class_memberships(ids)
    snap = {
        'words': [str(w) for w in vocab.id_to_word],
        'types': sorted({type(w).__name__ for w in vocab.id_to_word}),
        'ids': {w: int(i) for w, i in vocab.word_to_id.items()},
        'shortlist': vocab.num_shortlist_words(),
        'num_classes': vocab.num_classes(),
        'classes': [int(c) for c in classes[0]],
        'probs': [float(p) for p in probs[0]],
        'has_unigram': bool(vocab.has_unigram_probs()),
    }
    if snap['has_unigram']:
        snap['oos'] = [float(p) for p in vocab.get_oos_probs()]
        snap['class_probs'] = [float(p) for p in vocab.get_class_probs()]
    return snap


def compare(a, b, what):
    for key in a:
        if key in ('probs', 'oos', 'class_probs'):
            same = key in b and len(a[key]) == len(b[key]) and all(
                close(x, y, 1e-9, 1e-12) or (x != x and y != y)
                for x, y in zip(a[key], b[key]))
        else:
            same = a[key] == b.get(key)
        require(same, '{}: {} was {} and is now {}', what, key, a[key],
                b.get(key))


def run_roundtrip(case, ctx):
    from theanolm import Vocabulary
    spec = gen.grown(case['vocab'], case.get('growth'))
    vocab = gen.build_vocab(spec)
    with scratch_dir() as d:
        path = os.path.join(d, 'model.h5')
        saves = 0
        for step in case['steps']:
            if step['other'] is not None:
                # Another vocabulary with as many words replaces this one.
                n = len(spec['words'])
                shift = step['other']
                turned = [(i + shift) % n for i in range(n)]
                spec = dict(
                    spec, words=[spec['words'][i] for i in turned],
                    classes=spec['classes'] and
                    [min(c, shift) for c in spec['classes']],
                    oos=spec['oos'][::-1],
                    counts=None if shift % 2 else spec['counts'])
                vocab = gen.build_vocab(spec)
            if step['counts'] is not None:
                names = spec['words'] + spec['oos']
                counts = {w: c for w, c in zip(names, step['counts'])}
                vocab.compute_probs(counts, update_class_probs=step['update'])
            before = snapshot(vocab)
            with sut('saving a vocabulary'):
                with h5py.File(path, 'a', driver='core',
                               backing_store=True) as f:
                    vocab.get_state(f)
            saves += 1
            compare(before, snapshot(vocab), 'saving changed the vocabulary')
            with sut('loading a vocabulary'):
                with h5py.File(path, 'r') as f:
                    loaded = Vocabulary.from_state(f)
            compare(before, snapshot(loaded),
                    'after save {} and load'.format(saves))
            if step['continue_with_loaded']:
                vocab = loaded
    model = gen.VocabModel(spec)
    ctx.label('rewritten', saves > 1)
    ctx.label('unigram', vocab.has_unigram_probs())
    ctx.label('oos', bool(model.oos))
    ctx.mark(len(model.classes) < len(model.shortlist) or
             (bool(model.oos) and vocab.has_unigram_probs()) or saves > 1)


def run_missing(case, ctx):
    from theanolm import Vocabulary
    from theanolm.backend import IncompatibleStateError
    vocab = gen.build_vocab(case['vocab'])
    with scratch_dir() as d:
        path = os.path.join(d, 'model.h5')
        with h5py.File(path, 'w', driver='core', backing_store=True) as f:
            vocab.get_state(f)
            target = case['remove']
            if target == 'vocabulary':
                del f['vocabulary']
            elif target == 'resize':
                if 'unigram_probs' not in f['vocabulary']:
                    vocab.compute_probs({'x': 1}, update_class_probs=False)
                    vocab.get_state(f)
                values = f['vocabulary/unigram_probs'][...]
                del f['vocabulary/unigram_probs']
                delta = case['delta'] if case['delta'] != 0 else 1
                size = max(0, len(values) + delta)
                f['vocabulary'].create_dataset(
                    'unigram_probs', data=np.resize(values, size))
            else:
                del f['vocabulary'][target]

        def load():
            with h5py.File(path, 'r') as f:
                Vocabulary.from_state(f)
        expect_raises('a state where {} is broken'.format(target),
                      IncompatibleStateError, load)
    ctx.label(case['remove'])
    ctx.mark()


steps = st.lists(st.fixed_dictionaries({
    'counts': st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=16,
                                            max_size=16)),
    'other': st.one_of(st.none(), st.integers(0, 5)),
    'update': st.booleans(), 'continue_with_loaded': st.booleans()}),
    min_size=1, max_size=4)

PARTS = [
    Part('roundtrip',
         st.fixed_dictionaries({'vocab': gen.vocab_specs(), 'steps': steps}),
         run_roundtrip, quick=700, thorough=15000,
         rule='a vocabulary (three formats, arbitrary spellings, '
              'out-of-shortlist words, counts) and 1-4 steps of re-estimation '
              'or replacement by another of the same size, saving into the same file and loading; non-trivial: a '
              'multi-word class, out-of-shortlist words with counts, or a '
              'rewritten file'),
    Part('large',
         st.fixed_dictionaries({'vocab': gen.vocab_specs(large=False),
                                'growth': gen.growths(), 'steps': steps}),
         run_roundtrip, quick=8, thorough=150,
         rule='as roundtrip, with 120 to 70000 more words, in classes of 1 to '
              '33000'),
    Part('incompatible',
         st.fixed_dictionaries({
             'vocab': gen.vocab_specs(),
             'remove': st.sampled_from(['vocabulary', 'words', 'classes',
                                        'probs', 'resize']),
             'delta': st.integers(-2, 3)}),
         run_missing, quick=200, thorough=3000,
         rule='a saved vocabulary with one dataset removed or of the wrong '
              'length; all non-trivial'),
]
