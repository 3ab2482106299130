"""C20: the training cost is the mean cross-entropy of the real words.

Oracle: log probabilities of the NumPy reference network, averaged over the
words that count; directional derivatives of that average by central
differences; and padding and order of the sequences as metamorphic relations."""

import numpy as np
from hypothesis import strategies as st

from vh import gen, nets, training
from vh.core import Part, Skip, close, require, sut


class Setup:
    def __init__(self, case, devices=True):
        from theanolm.training import CrossEntropyCost
        self.vocab = gen.build_vocab(case['vocab'])
        if self.vocab.num_classes() < 2:
            raise Skip()
        self.spec = training.connected(case['arch'])
        size = self.vocab.num_shortlist_words()
        self.unk = int(self.vocab.word_to_id['<unk>'])
        self.sequences = [[self.unk if x == 0 else x % size for x in s]
                          for s in case['sequences']]
        self.pad = [x % size for x in case['pad']]
        self.exclude = self.unk if case['exclude_unk'] else None
        self.l1, self.l2 = case['l1'], case['l2']
        with sut('network'):
            self.model = nets.Model(self.spec, self.vocab)
            self.network = self.model.network
            self.cost = CrossEntropyCost(self.network, self.exclude, self.l1,
                                         self.l2)
        self.params = self.model.params

    def reference(self, params=None, sequences=None):
        return training.cross_entropy(
            self.spec, params or self.params, sequences or self.sequences,
            self.model.class_of, self.model.num_classes, self.exclude,
            self.l1, self.l2)


def labels(case, s, count, ctx):
    ctx.label('excluded words', s.exclude is not None and
              any(x == s.unk for q in s.sequences for x in q[1:]))
    ctx.label('only excluded words', count == 0)
    ctx.label('regularization', s.l1 is not None or s.l2 is not None)
    ctx.label('different lengths', len({len(q) for q in s.sequences}) > 1)
    ctx.label('class vocabulary', case['vocab']['format'] != 'words')
    ctx.label('hierarchical softmax',
              s.spec['layers'][-1]['type'] == 'hsoftmax')
    ctx.mark(len({len(q) for q in s.sequences}) > 1 or
             s.exclude is not None)


def run_cost(case, ctx):
    import theano
    s = Setup(case)
    n = s.network
    times = case.get('times', 1)
    ids, mask = nets.make_batch(s.sequences * times, s.pad, case['extra'])
    classes = s.vocab.word_id_to_class_id[ids]
    with sut('cost'):
        cost, num_words = s.cost.get_tensor()
        f = theano.function(
            [n.input_word_ids, n.input_class_ids, n.target_word_ids,
             n.target_class_ids, n.mask], [cost, num_words],
            givens=[(n.is_training, np.int8(1))], on_unused_input='ignore')
        got, got_count = f(ids[:-1], classes[:-1], ids[1:], classes[1:],
                           mask[1:])
    # Repeating the sequences does not change the mean.
    want, count = s.reference()
    count *= times
    ctx.label('more than 255 words', count > 255)
    require(int(got_count) == count, 'cost counts {} words of {}, there are '
            '{}', got_count, s.sequences, count)
    require(close(got, want, 1e-7, 1e-9), 'cost of {} is {!r} instead of '
            '{!r}', s.sequences, float(got), want)
    labels(case, s, count, ctx)


def run_gradient(case, ctx):
    from theanolm.training import create_optimizer
    s = Setup(case)
    alpha = case['learning_rate']
    with sut('optimizer'):
        optimizer = create_optimizer(
            training.options('sgd', epsilon=1e-14, learning_rate=alpha,
                             max_gradient_norm=1e12), s.network, s.cost)

    initial = training.values(s.network)

    def update(sequences, pad, extra):
        training.assign(s.network, initial)
        ids, mask = nets.make_batch(sequences, pad, extra)
        with sut('update_minibatch'):
            optimizer.update_minibatch(ids, s.vocab.word_id_to_class_id[ids],
                                       np.zeros_like(ids), mask)
        new = nets.get_params(s.network)
        return {k: (s.params[k] - new[k]) / alpha for k in new}

    gradient = update(s.sequences, s.pad, case['extra'])
    _, count = s.reference()
    for path, g in gradient.items():
        require(np.all(np.isfinite(g)), 'update of {} with {} is not finite',
                path, s.sequences)
    rng = np.random.RandomState(s.spec['seed'])
    for path, g in gradient.items():
        direction = rng.uniform(-1.0, 1.0, size=g.shape)
        value = s.params[path]
        # The penalties are differentiated by hand, |x| has a kink.
        got = float((g * direction).sum())
        for weight, slope in ((s.l1, np.sign(value)), (s.l2, 2.0 * value)):
            if weight is not None:
                got -= weight * float((slope * direction).sum())

        def at(x):
            return training.cross_entropy(
                s.spec, dict(s.params, **{path: value + x * direction}),
                s.sequences, s.model.class_of, s.model.num_classes,
                s.exclude)[0]

        attempts = []
        # Not differentiable where a rectifier changes sides: try several steps.
        for h in (1e-4, 1e-5, 1e-6):
            attempts.append((at(h) - at(-h)) / (2 * h))
            if close(got, attempts[-1], 1e-4, 1e-6):
                break
        else:
            left = (at(0.0) - at(-h)) / h
            right = (at(h) - at(0.0)) / h
            if not close(left, right, 1e-3, 1e-5):
                ctx.label('kink')
                continue
            require(False, 'the derivative of the cross-entropy with respect '
                    'to {} is {!r} in one direction, the update uses {!r}',
                    path, attempts[1], got)
    # The update does not depend on padding and order of sequences.
    other = update(s.sequences[::-1], s.pad[::-1] + [0], case['extra'] + 1)
    for path, g in gradient.items():
        require(np.allclose(g, other[path], 1e-6, 1e-8),
                'update of {} depends on the order of sequences or on padding',
                path)
    labels(case, s, count, ctx)


@st.composite
def cases(draw, max_hidden=2):
    kinds = ['fc', 'tanh', 'lstm', 'gru', 'highway', 'highwaytanh', 'add',
             'blstm', 'bgru', 'glu']
    return {'vocab': draw(gen.vocab_specs(min_words=1, max_words=8, plain=True,
                                          counts=False, allow_oos=False,
                                          formats=['words', 'classes'])),
            'arch': draw(nets.arch_specs(max_hidden=max_hidden, kinds=kinds)),
            'sequences': draw(st.lists(
                st.lists(st.integers(0, 10), min_size=2, max_size=7),
                min_size=1, max_size=4)),
            'pad': draw(st.lists(st.integers(0, 10), min_size=1, max_size=3)),
            'extra': draw(st.integers(0, 2)),
            'times': draw(st.sampled_from([1] * 14 + [20, 60])),
            'exclude_unk': draw(st.booleans()),
            'l1': draw(st.sampled_from([None, None, 0.0, 0.01, 0.3])),
            'l2': draw(st.sampled_from([None, None, 0.0, 0.01, 0.3])),
            'learning_rate': draw(st.sampled_from([1.0, 0.1, 2.0]))}


A = ['Theano graphs are evaluated by its NumPy backend in double precision']
R = 'sequences of different lengths, or unknown words excluded'
EXAMPLES = [
    {'vocab': {'format': 'words', 'words': ['a', 'b'], 'classes': None,
               'weights': None, 'oos': [], 'counts': None},
     'arch': nets.simple_arch(3, 'fc'), 'sequences': [[1, 0]], 'pad': [0],
     'extra': 0, 'exclude_unk': True, 'l1': None, 'l2': None,
     'learning_rate': 1.0}]
PARTS = [
    Part('cost', cases(), run_cost, 600, 8000, workers=4, rule=R,
         assumptions=A),
    Part('gradient', cases(), run_gradient, 220, 4000, workers=4, rule=R,
         assumptions=A, examples=EXAMPLES),
]
