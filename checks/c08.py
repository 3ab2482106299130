"""C08: layers compute their documented functions.

Oracle: the NumPy reference in vh/nets.py, which evaluates each sequence on its
own from the published equations of the layers."""

import numpy as np
from hypothesis import strategies as st

from vh import gen, nets
from vh.core import Part, Skip, close, require, sut


def run_forward(case, ctx):
    import theano
    vocab = gen.build_vocab(case['vocab'])
    size = vocab.num_shortlist_words()
    sequences = [[x % size for x in s] for s in case['sequences']]
    ids, mask = nets.make_batch(sequences, [x % size for x in case['pad']],
                                case['extra'])
    spec = case['arch']
    with sut('network'):
        m = nets.Model(spec, vocab)
        net = m.network
        names = [l['name'] for l in spec['layers'][:-1]]
        f = theano.function(
            [net.input_word_ids, net.input_class_ids, net.mask],
            [net.output_probs()] + [net.layers[x].output for x in names],
            givens=[(net.is_training, np.int8(0))], on_unused_input='ignore')
        out = f(ids, vocab.word_id_to_class_id[ids], mask)
    probs, hidden = out[0], dict(zip(names, out[1:]))
    for j, s in enumerate(sequences):
        reference = nets.forward(spec, m.params, s,
                                 [m.class_of[x] for x in s], m.num_classes)
        for layer in spec['layers']:
            name = layer['name']
            got = probs if name == 'out' else hidden[name]
            got = got[:len(s), j]
            want = reference[name]
            require(got.shape == want.shape,
                    'layer {} of type {} has output of shape {} instead of {}',
                    name, layer['type'], got.shape, want.shape)
            error = np.abs(got - want).max()
            require(error < 1e-8 * max(1.0, np.abs(want).max()),
                    'layer {} of type {} differs from its equations by {!r} '
                    'in sequence {}', name, layer['type'], float(error), j)
    for layer in spec['layers']:
        ctx.label(layer['type'])
        ctx.label(layer['type'] + ' with two inputs',
                  len(layer['inputs']) > 1)
        ctx.label('devices', bool(layer.get('devices')))
    ctx.mark(len(spec['layers']) > len(spec['inputs']) + 1 and
             max(len(s) for s in sequences) > 1)


def run_dropout(case, ctx):
    """In training mode, the output of a dropout layer is its input times a
    scaled random mask."""
    import theano
    vocab = gen.build_vocab(case['vocab'])
    size = vocab.num_shortlist_words()
    rate = case['rate']
    kept = 1.0 - (0.5 if rate is None else rate)
    spec = {'inputs': [{'type': 'word', 'name': 'in0'}],
            'layers': [
                {'name': 'proj0', 'type': 'projection', 'inputs': ['in0'],
                 'size': case['size']},
                {'name': 'h0', 'type': 'dropout', 'inputs': ['proj0']},
                {'name': 'out', 'type': 'softmax', 'inputs': ['h0']}],
            'seed': case['seed'], 'scale': 1.0}
    if rate is not None:
        spec['layers'][1]['dropout_rate'] = rate
    rng = np.random.RandomState(case['seed'])
    ids = rng.randint(0, size, size=(case['steps'], 8))
    mask = np.ones_like(ids).astype(np.int8)
    with sut('network'):
        m = nets.Model(spec, vocab)
        net = m.network
        f = theano.function(
            [net.input_word_ids, net.input_class_ids, net.mask,
             net.is_training],
            [net.layers['proj0'].output, net.layers['h0'].output],
            on_unused_input='ignore')
        classes = vocab.word_id_to_class_id[ids]
        x, y = f(ids, classes, mask, np.int8(1))
        x2, y2 = f(ids, classes, mask, np.int8(1))
        x0, y0 = f(ids, classes, mask, np.int8(0))
    require(np.array_equal(x0, y0), 'dropout changes its input outside '
            'training')
    ratio = y / x
    zero = np.abs(ratio) < 1e-12
    scaled = np.abs(ratio - 1.0 / kept) < 1e-6 / kept
    require(np.all(zero | scaled),
            'dropout with rate {} multiplies by {}', rate,
            sorted(set(np.round(ratio.flatten(), 4)))[:5])
    n = ratio.size
    fraction = 1.0 - zero.mean()
    limit = 6.0 * np.sqrt(kept * (1 - kept) / n) + 1e-9
    require(abs(fraction - kept) <= limit,
            'dropout with rate {} keeps {} of {} units', rate, fraction, n)
    if 0.05 < kept < 0.95:
        require(not np.array_equal(zero, np.abs(y2 / x2) < 1e-12),
                'dropout drops the same units every time')
        # independent over time, sequences and units
        for axis in range(3):
            spread = zero.mean(axis=axis)
            require(0.0 < spread.mean() < 1.0 and
                    (zero.shape[axis] < 2 or
                     not np.all((spread == 0) | (spread == 1))),
                    'dropout treats all elements along axis {} alike', axis)
    ctx.mark(0.0 < kept < 1.0)


def run_initial(case, ctx):
    """A new network: documented initial values of biases and scale of
    weights."""
    vocab = gen.build_vocab(case['vocab'])
    spec = case['arch']
    priors = None
    if case['priors']:
        rng = np.random.RandomState(spec['seed'])
        priors = rng.uniform(0.0, 1.0, size=vocab.num_classes())
        priors /= priors.sum()
    with sut('network'):
        nets.ignore_devices()
        net = nets.build_network(spec, vocab, randomize=False, priors=priors)
        params = nets.get_params(net)
    for layer in spec['layers']:
        kind, name = layer['type'], layer['name']
        for path, value in params.items():
            if not path.startswith(name + '/'):
                continue
            require(np.all(np.isfinite(value)), '{} is not finite', path)
            if path.endswith('/W') and value.ndim == 2:
                require(value.std() > 0 or value.shape[0] < 2,
                        'all weights in {} are equal', path)
            if path.endswith('step_input/W'):
                size = value.shape[0]
                for k in range(value.shape[1] // size):
                    block = value[:, k * size:(k + 1) * size]
                    require(np.allclose(block.T.dot(block), np.eye(size),
                                        atol=1e-8),
                            '{} is not orthogonal', path)
            if path.endswith('/b'):
                if kind in ('lstm', 'blstm'):
                    want = np.repeat([-1.0, 1.0, -1.0, 0.0], len(value) // 4)
                elif kind in ('highway', 'highwaytanh'):
                    want = np.repeat([0.0, -2.0], len(value) // 2)
                elif kind == 'softmax' and priors is not None:
                    want = np.log(priors + 1e-10)
                else:
                    want = np.zeros_like(value)
                require(np.allclose(value, want, atol=1e-9),
                        'initial bias of {} layer is {}', kind, value)
    ctx.mark(len(spec['layers']) > 2)


@st.composite
def forward_cases(draw):
    vocab = draw(gen.vocab_specs(min_words=1, max_words=8, plain=True,
                                 counts=False, allow_oos=False,
                                 formats=['words', 'classes']))
    return {'vocab': vocab, 'arch': draw(nets.arch_specs()),
            'sequences': draw(gen.more_sequences(st.lists(
                st.lists(st.integers(0, 10), min_size=1, max_size=8),
                min_size=1, max_size=4))),
            'pad': draw(st.lists(st.integers(0, 10), min_size=1, max_size=3)),
            'extra': draw(st.integers(0, 2))}


small_vocab = gen.vocab_specs(min_words=1, max_words=6, plain=True,
                              counts=False, allow_oos=False,
                              formats=['words', 'classes'])

dropout_cases = st.fixed_dictionaries({
    'vocab': small_vocab, 'rate': st.sampled_from([None, 0.0, 0.1, 0.25, 0.5,
                                                   0.8]),
    'size': st.integers(4, 9), 'steps': st.integers(12, 20),
    'seed': st.integers(0, 10 ** 6)})

initial_cases = st.fixed_dictionaries({
    'vocab': small_vocab, 'arch': nets.arch_specs(),
    'priors': st.booleans()})

A = ['Theano graphs are evaluated by its NumPy backend in double precision']
PARTS = [
    Part('forward', forward_cases(), run_forward, 1200, 12000, workers=6,
         rule='a hidden layer besides projection and output, and a sequence '
              'longer than one word', assumptions=A),
    Part('dropout', dropout_cases, run_dropout, 40, 600,
         rule='a rate between zero and one', assumptions=A),
    Part('initial', initial_cases, run_initial, 60, 600,
         rule='a hidden layer', assumptions=A),
]
