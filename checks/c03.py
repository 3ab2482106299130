"""C03: class, membership and out-of-shortlist probabilities are normalised."""

import numpy as np
from hypothesis import strategies as st

from vh import gen
from vh.core import Part, close, require, sut


def memberships(vocab):
    n = vocab.num_shortlist_words()
    classes, probs = vocab.get_class_memberships(np.arange(n).reshape(1, n))
    return classes[0], probs[0]


def check_all(vocab, weight, unigram, what):
    """weight: expected relative membership weight of each shortlist word.
    unigram: training count of each word, or None."""
    n = vocab.num_shortlist_words()
    words = list(vocab.id_to_word)
    classes, probs = memberships(vocab)
    for c in range(vocab.num_classes()):
        members = [i for i in range(n) if classes[i] == c]
        require(members, '{}: class {} has no words', what, c)
        total = sum(float(probs[i]) for i in members)
        require(close(total, 1.0, 1e-9),
                '{}: memberships of a class sum to {}', what, total)
        mass = sum(weight[words[i]] for i in members)
        for i in members:
            expected = weight[words[i]] / mass if mass > 0 \
                else 1.0 / len(members)
            require(close(probs[i], expected, 1e-6, 1e-12),
                    '{}: membership of {!r} is {}, expected {}', what,
                    words[i], probs[i], expected)
            require(probs[i] >= 0, '{}: negative membership', what)
    if unigram is None:
        return
    for token in gen.SPECIALS:
        if weight is not None and weight[token] > 0:
            require(vocab.get_word_prob(vocab.word_to_id[token]) > 0,
                    '{}: {} has zero membership probability', what, token)

    oos_total = sum(unigram.get(w, 0) for w in words[n:])
    if not words[n:] or oos_total > 0:
        with sut('out-of-shortlist probabilities'):
            oos = vocab.get_oos_probs()
        require(len(oos) == len(words), '{}: wrong number of OOS factors',
                what)
        for i, w in enumerate(words):
            expected = 1.0 if i < n else unigram.get(w, 0) / oos_total
            require(close(oos[i], expected, 1e-6, 1e-12),
                    '{}: out-of-shortlist factor of {!r} is {}, expected {}',
                    what, w, oos[i], expected)
        if words[n:]:
            require(close(float(np.sum(oos[n:])), 1.0, 1e-9),
                    '{}: out-of-shortlist factors sum to {}', what,
                    float(np.sum(oos[n:])))

    total = sum(unigram.get(w, 0) for w in words[:n])
    with sut('class probabilities'):
        class_probs = vocab.get_class_probs()
    require(len(class_probs) == vocab.num_classes(),
            '{}: wrong number of class probabilities', what)
    if total > 0:
        require(close(float(np.sum(class_probs)), 1.0, 1e-9),
                '{}: class probabilities sum to {}', what,
                float(np.sum(class_probs)))
        for c in range(vocab.num_classes()):
            expected = sum(unigram.get(words[i], 0) for i in range(n)
                           if classes[i] == c) / total
            require(close(class_probs[c], expected, 1e-6, 1e-12),
                    '{}: probability of class {} is {}, expected {}', what, c,
                    class_probs[c], expected)


def run(case, ctx):
    spec = dict(case['vocab'], counts=None)
    if spec['weights'] is not None:
        # wctool writes zero for words that do not occur
        spec['weights'] = [0.0 if c in case['zero'] or i in case['zero'] else w
                           for i, (w, c) in enumerate(zip(spec['weights'],
                                                          spec['classes']))]
    with sut('reading a vocabulary'):
        vocab = gen.build_vocab(spec)
    weight = {w: 1.0 for w in spec['words'] + gen.SPECIALS}
    if spec['weights'] is not None:
        weight.update(zip(spec['words'], spec['weights']))
    check_all(vocab, weight, None, 'from file')
    zero_class = False
    for number, step in enumerate(case['steps']):
        counts = {}
        names = spec['words'] + spec['oos'] + ['unknown-1', 'unknown-2']
        if step['specials']:
            names = names + [t for t in gen.SPECIALS if t not in names]
        for w, c in zip(names, step['counts']):
            if c > 0 or step['keep_zeros']:
                counts[w] = c * step['factor']
        with sut('computing probabilities from counts'):
            vocab.compute_probs(counts, update_class_probs=step['update'])
        if step['update']:
            weight = {w: float(counts.get(w, 0)) for w in weight}
            for token in gen.SPECIALS:
                weight[token] = max(weight[token], 1.0)
        check_all(vocab, weight, counts, 'after estimation %d' % number)
        zero_class = zero_class or any(counts.get(w, 0) == 0
                                       for w in spec['words'])
    model = gen.VocabModel(spec)
    ctx.label(spec['format'])
    ctx.label('zero counts', zero_class)
    ctx.label('oos', bool(model.oos))
    ctx.label('several estimations', len(case['steps']) > 1)
    ctx.mark(bool(case['steps']) and
             (len(model.classes) < len(model.shortlist) or bool(model.oos)))


case_strategy = st.fixed_dictionaries({
    'vocab': gen.vocab_specs(counts=False),
    'zero': st.one_of(st.just([]), st.lists(st.integers(0, 4), max_size=2)),
    'steps': st.lists(st.fixed_dictionaries({
        'counts': st.lists(st.one_of(st.just(0), st.integers(0, 10)),
                           min_size=22, max_size=22),
        'factor': st.sampled_from([1, 1, 7, 1000003, 3000000019]),
        'specials': st.booleans(), 'keep_zeros': st.booleans(),
        'update': st.sampled_from([True, True, False])}), max_size=3)})

PARTS = [
    Part('estimate', case_strategy, run, quick=2000, thorough=40000,
         rule='a vocabulary and up to 3 estimations from count tables with '
              'zero counts, unknown words, large counts and special tokens, '
              'with or without updating memberships; non-trivial: at least '
              'one estimation and a multi-word class or out-of-shortlist '
              'word', workers=1),
]
