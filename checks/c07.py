"""C07: a sentence scores the same in every mini-batch, and only the past counts.

Oracle: metamorphic.  Each sequence evaluated alone, without padding, is
compared with the same sequence among others, with other padding contents, in
another order, and with its later words changed."""

import numpy as np
from hypothesis import strategies as st

from vh import gen, nets
from vh.core import Part, close, require, sut

BIDIRECTIONAL = ('blstm', 'bgru')


def run_network(case, ctx):
    vocab = gen.build_vocab(case['vocab'])
    size = vocab.num_shortlist_words()
    sequences = [[x % size for x in s] for s in case['sequences']]
    spec = case['arch']
    class_of = vocab.word_id_to_class_id
    with sut('network'):
        m = nets.Model(spec, vocab)
        f = m.function()

        def evaluate(seqs, pad, extra):
            ids, mask = nets.make_batch(seqs, [x % size for x in pad], extra)
            out = f(ids, class_of[ids], mask)
            return [out[:len(s), j] for j, s in enumerate(seqs)]

        alone = [evaluate([s], [0], 0)[0] for s in sequences]
        together = evaluate(sequences, case['pad'], case['extra'])
        again = evaluate(sequences, case['pad'], case['extra'])
        order = sorted(range(len(sequences)),
                       key=lambda i: (case['order'] * (i + 7)) % 11)
        permuted = evaluate([sequences[i] for i in order], case['pad2'],
                            case['extra2'])
        changed = []
        for j, s in enumerate(sequences):
            t = case['cut'] % len(s)
            other = s[:t + 1] + [(x + 1 + case['cut']) % size
                                 for x in s[t + 1:]] + \
                [x % size for x in case['suffix']]
            changed.append((t, evaluate([other], [0], 0)[0]))
    for j, s in enumerate(sequences):
        require(np.abs(together[j] - alone[j]).max() < 1e-9,
                'sequence {} alone and in a mini-batch differ by {!r}', j,
                float(np.abs(together[j] - alone[j]).max()))
        require(np.array_equal(together[j], again[j]),
                'sequence {}: evaluating the same mini-batch twice gave '
                'different results', j)
        if not any(l['type'] in BIDIRECTIONAL for l in spec['layers']):
            t, out = changed[j]
            require(np.abs(out[:t + 1] - alone[j][:t + 1]).max() < 1e-9,
                    'sequence {}: words after {} influence the distribution '
                    'before them', j, t)
    for k, i in enumerate(order):
        require(np.abs(permuted[k] - alone[i]).max() < 1e-9,
                'sequence {} in another order differs by {!r}', i,
                float(np.abs(permuted[k] - alone[i]).max()))
    lengths = {len(s) for s in sequences}
    for layer in spec['layers']:
        ctx.label(layer['type'])
    ctx.label('different lengths', len(lengths) > 1)
    ctx.mark(len(lengths) > 1 and
             any(l['type'] in ('lstm', 'gru', 'blstm', 'bgru', 'glu')
                 for l in spec['layers']))


def run_lookahead(case, ctx):
    """In a network with one bidirectional layer the probability of a word does
    not depend on the word itself (documented two-step shift)."""
    vocab = gen.build_vocab(case['vocab'])
    size = vocab.num_shortlist_words()
    spec = nets.simple_arch(case['seed'], case['kind'], 5)
    s = [x % size for x in case['sequence']]
    t = case['cut'] % (len(s) - 1)
    other = list(s)
    other[t + 1] = (s[t + 1] + 1 + case['change'] % (size - 1)) % size
    with sut('network'):
        m = nets.Model(spec, vocab)
        f = m.function()
        out = []
        for seq in (s, other):
            ids, mask = nets.make_batch([seq], [0])
            out.append(f(ids, vocab.word_id_to_class_id[ids], mask)[:, 0])
    require(np.abs(out[0][t] - out[1][t]).max() < 1e-9,
            'the distribution that predicts word {} depends on the word', t + 1)
    ctx.mark(len(s) > 2)


def run_scorer(case, ctx):
    """The same through the text scorer, with the mask and memberships the
    readers produce."""
    from theanolm.scoring import TextScorer
    vocab = gen.build_vocab(case['vocab'])
    total = vocab.num_words()
    sequences = [[x % total for x in s] for s in case['sequences']]
    with sut('text scorer'):
        m = nets.Model(case['arch'], vocab)
        scorer = TextScorer(m.network, use_shortlist=case['shortlist'],
                            exclude_unk=False)

        def evaluate(seqs, pad, extra):
            ids, mask = nets.make_batch(seqs, [x % total for x in pad], extra)
            class_ids, probs = vocab.get_class_memberships(ids)
            return scorer.score_batch(ids, class_ids, probs, mask)

        alone = [evaluate([s], [0], 0)[0] for s in sequences]
        together = evaluate(sequences, case['pad'], case['extra'])
    for j, s in enumerate(sequences):
        require(len(alone[j]) == len(together[j]) == len(s) - 1,
                'sequence of {} words has {} and {} scores', len(s),
                len(alone[j]), len(together[j]))
        for a, b in zip(alone[j], together[j]):
            require((a is None) == (b is None) and
                    (a is None or close(a, b, 1e-9, 1e-9)),
                    'a word scores {} alone and {} in a mini-batch', a, b)
    ctx.label('class model', case['vocab']['format'] != 'words')
    ctx.mark(len({len(s) for s in sequences}) > 1)


def vocabs(**kwargs):
    return gen.vocab_specs(min_words=1, max_words=7, plain=True, **kwargs)


@st.composite
def network_cases(draw):
    return {'vocab': draw(vocabs(counts=False, allow_oos=False,
                                 formats=['words', 'classes'])),
            'arch': draw(nets.arch_specs()),
            'sequences': draw(gen.more_sequences(st.lists(
                st.lists(st.integers(0, 9), min_size=1, max_size=7),
                min_size=2, max_size=4))),
            'pad': draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)),
            'pad2': draw(st.lists(st.integers(0, 9), min_size=1, max_size=3)),
            'extra': draw(st.integers(0, 3)),
            'extra2': draw(st.integers(0, 3)),
            'order': draw(st.integers(1, 10)),
            'cut': draw(st.integers(0, 6)),
            'suffix': draw(st.lists(st.integers(0, 9), max_size=3))}


@st.composite
def scorer_cases(draw):
    spec = draw(vocabs())
    if spec['counts'] is not None:
        spec['counts'] = [c + 1 for c in spec['counts']]
    return {'vocab': spec, 'arch': draw(nets.arch_specs(max_hidden=2)),
            'shortlist': draw(st.booleans()),
            'sequences': draw(gen.more_sequences(st.lists(
                st.lists(st.integers(0, 12), min_size=2, max_size=6),
                min_size=2, max_size=4))),
            'pad': draw(st.lists(st.integers(0, 12), min_size=1, max_size=3)),
            'extra': draw(st.integers(0, 2))}


lookahead_cases = st.fixed_dictionaries({
    'vocab': vocabs(counts=False, allow_oos=False, formats=['words']),
    'kind': st.sampled_from(BIDIRECTIONAL), 'seed': st.integers(0, 10 ** 6),
    'sequence': st.lists(st.integers(0, 9), min_size=2, max_size=7),
    'cut': st.integers(0, 6), 'change': st.integers(0, 9)})

A = ['Theano graphs are evaluated by its NumPy backend in double precision']
PARTS = [
    Part('network', network_cases(), run_network, 500, 9000, workers=5,
         rule='sequences of different lengths and a layer with memory',
         assumptions=A),
    Part('lookahead', lookahead_cases, run_lookahead, 60, 600,
         rule='at least three words', assumptions=A),
    Part('scorer', scorer_cases(), run_scorer, 200, 3000, workers=2,
         rule='sequences of different lengths', assumptions=A),
]
