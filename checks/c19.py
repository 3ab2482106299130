"""C19: noise samples follow their distribution and the sampling-based costs use
it.

Oracle: exact class probabilities (also of pairs drawn without replacement)
with a chi-square test at a significance of 1e-9, and the formulas of the
noise-contrastive and BlackOut costs evaluated with NumPy on the noise classes
that were drawn."""

import itertools

import numpy as np
from hypothesis import strategies as st

from vh import gen, nets, training
from vh.core import Part, Skip, close, require, sut


def random_streams(seed):
    from theano.sandbox.rng_mrg import MRG_RandomStreams
    return MRG_RandomStreams(seed % (2 ** 30) + 1)


def chi_square(counts, expected):
    """Significance of the difference; cells with few expected cases are put
    together."""
    from scipy.stats import chi2
    counts, expected = np.asarray(counts, float), np.asarray(expected, float)
    order = np.argsort(expected)
    cells, c, e = [], 0.0, 0.0
    for i in order:
        c += counts[i]
        e += expected[i]
        if e >= 8.0:
            cells.append((c, e))
            c = e = 0.0
    if c or e:
        if cells:
            cells[-1] = (cells[-1][0] + c, cells[-1][1] + e)
        else:
            return 1.0
    if len(cells) < 2:
        return 1.0
    statistic = sum((a - b) ** 2 / b for a, b in cells)
    return float(chi2.sf(statistic, len(cells) - 1))


def exact(kind, n, weights, dampening=1.0):
    if kind == 'uniform' or (kind == 'unigram' and dampening == 0.0):
        return np.ones(n) / n
    if kind == 'log-uniform':
        k = np.arange(n)
        return np.log((k + 2.0) / (k + 1.0)) / np.log(n + 1.0)
    p = np.asarray(weights[:n], float) ** dampening
    return p / p.sum()


def check_sample(sample, probs, distinct, what):
    require(np.issubdtype(sample.dtype, np.integer), '{} sample is {}', what,
            sample.dtype)
    require(np.all((sample >= 0) & (sample < len(probs))),
            '{} sample has class {} of {}', what,
            sample[(sample < 0) | (sample >= len(probs))][:1], len(probs))
    require(np.all(probs[sample] > 0), '{} sample has a class of probability '
            'zero', what)
    if distinct:
        flat = sample.reshape(-1, sample.shape[-1])
        for row in flat:
            require(len(set(row)) == len(row), '{} sample {} has the same '
                    'class twice', what, row)


def run_distribution(case, ctx):
    import theano
    import theano.tensor as tensor
    from theanolm.backend import (LogUniformDistribution,
                                  MultinomialDistribution, UniformDistribution)
    kind, n = case['kind'], case['n']
    rows, k = case['rows'], case['k']
    weights = (case['weights'] * n)[:n]
    probs = exact(kind, n, weights)
    positive = int((probs > 0).sum())
    if kind == 'unigram':
        k = min(k, positive)
    seed = case['seed']
    with sut('distribution'):
        rng = random_streams(seed)
        if kind == 'uniform':
            d = UniformDistribution(rng, n)
        elif kind == 'log-uniform':
            d = LogUniformDistribution(rng, n)
        else:
            d = MultinomialDistribution(
                rng, theano.shared(probs.astype(theano.config.floatX)))
        ids = tensor.lvector()
        p = d.probs(ids)
        p = np.broadcast_to(np.asarray(
            p.eval({ids: np.arange(n)}) if hasattr(p, 'eval') else p), (n,))
        f = theano.function([], d.sample(rows, k))
        samples = [f() for _ in range(case['calls'])]
    require(np.allclose(p, probs, 1e-9, 1e-12),
            '{} probabilities of {} classes are {}', kind, n, p)
    require(close(p.sum(), 1.0, 1e-9, 1e-9), '{} probabilities sum to {}',
            kind, p.sum())
    for x in samples:
        require(x.shape == (rows, k), '{} sample has shape {}', kind, x.shape)
        check_sample(x, probs, kind == 'unigram', kind)
    everything = np.concatenate(samples)
    # Every draw by itself (the first one where they are not independent)
    draws = everything[:, :1] if kind == 'unigram' and k > 1 else everything
    if kind == 'unigram' and k == 2 and positive > 1 and n <= 12:
        pairs = list(itertools.combinations(range(n), 2))
        index = {x: i for i, x in enumerate(pairs)}
        counts = np.zeros(len(pairs))
        for row in everything:
            counts[index[tuple(sorted(map(int, row)))]] += 1
        want = np.array([probs[i] * probs[j] *
                         (sum(1.0 / (1.0 - probs[x]) for x in (i, j)
                              if probs[x] < 1.0))
                         for i, j in pairs])
        p_value = chi_square(counts, want * len(everything))
        require(p_value > 1e-9, 'pairs drawn from {} have counts {}', probs,
                counts)
    if not (kind == 'unigram' and k > 2):
        # With one or two draws all of them can be judged.
        if kind == 'unigram' and k == 2 and n <= 12:
            pass
        else:
            counts = np.bincount(draws.flatten(), minlength=n)
            p_value = chi_square(counts, probs * draws.size)
            require(p_value > 1e-9, '{} sample of {} draws from {} has counts '
                    '{}', kind, draws.size, probs, counts)
    if len(samples) > 1 and everything.size > 60 and n > 2 and \
            probs.max() < 0.6:
        require(any(not np.array_equal(samples[0], x) for x in samples[1:]),
                'the same {} sample is drawn every time', kind)
    ctx.label(kind)
    ctx.label('zero probability', positive < n)
    ctx.label('pairs without replacement', kind == 'unigram' and k == 2)
    ctx.mark(n > 2)


def softplus(x):
    return np.logaddexp(0.0, x)


def run_cost(case, ctx):
    import theano
    import theano.tensor as tensor
    from theanolm.training import BlackoutCost, NCECost
    vocab = gen.build_vocab(case['vocab'])
    num_classes = vocab.num_classes()
    if num_classes < 3:
        raise Skip()
    spec = training.connected(case['arch'])
    size = vocab.num_shortlist_words()
    unk = int(vocab.word_to_id['<unk>'])
    sequences = [[unk if x == 0 else x % size for x in s]
                 for s in case['sequences']]
    ids, mask = nets.make_batch(sequences, [x % size for x in case['pad']],
                                case['extra'])
    classes = vocab.word_id_to_class_id[ids]
    steps = len(ids) - 1
    kind, sharing, k = case['noise'], case['sharing'], case['k']
    weights = np.array((case['weights'] * num_classes)[:num_classes], float)
    # Classes that do not occur may have no probability.
    weights[np.unique(classes)] += 0.5
    if weights.sum() == 0:
        raise Skip()
    priors = weights / weights.sum()
    k = min(k, num_classes)
    if kind == 'unigram' and case['dampening'] != 0.0:
        positive = int((priors > 0).sum())
        k = min(k, positive)
        if sharing == 'seq':
            # One sample without replacement for all the time steps
            k = min(k, positive // steps)
            if k < 1:
                raise Skip()
    epsilon = case['epsilon']
    exclude = unk if case['exclude_unk'] else None
    with sut('network'):
        nets.ignore_devices()
        network = nets.build_network(spec, vocab, priors=priors)
        model = nets.Model(spec, vocab, network=network)
        network.set_sampling(kind, case['dampening'], sharing)
        cost_class = NCECost if case['cost'] == 'nce' else BlackoutCost
        cost = cost_class(network, exclude, case['l1'], None, epsilon)
        value, num_words = cost.get_tensor()
        sample, sample_logprobs = network.noise_sample()
        n = network
        f = theano.function(
            [n.input_word_ids, n.input_class_ids, n.target_word_ids,
             n.target_class_ids, n.mask, n.num_noise_samples],
            [value, num_words, sample, sample_logprobs],
            givens=[(n.is_training, np.int8(1))], on_unused_input='ignore')
        x = tensor.lvector()
        p = network.noise_distribution.probs(x)
        p = np.broadcast_to(np.asarray(
            p.eval({x: np.arange(num_classes)}) if hasattr(p, 'eval') else p),
            (num_classes,))
        args = (ids[:-1], classes[:-1], ids[1:], classes[1:], mask[1:], k)
        results = [f(*args) for _ in range(case['calls'])]
    probs = exact(kind, num_classes, priors, case['dampening'])
    require(np.allclose(p, probs, 1e-9, 1e-12), 'noise probabilities are {} '
            'instead of {}', p, probs)
    preacts = training.reference_logprobs(spec, model.params, sequences,
                                          model.class_of, num_classes,
                                          preact=True)
    shape = {None: (steps, len(sequences), k), 'seq': (steps, 1, k),
             'batch': (1, 1, k)}[sharing]
    for value, num_words, sample, logprobs in results:
        require(sample.shape == shape, 'noise sample has shape {} instead of '
                '{}', sample.shape, shape)
        check_sample(sample, probs, kind == 'unigram' and
                     case['dampening'] != 0.0, kind)
        sample = np.broadcast_to(sample, (steps, len(sequences), k))
        require(logprobs.shape == sample.shape, 'noise outputs have shape {}',
                logprobs.shape)
        total, count = 0.0, 0
        for j, s in enumerate(sequences):
            for t, target in enumerate(s[1:]):
                out = preacts[j][t]
                noise = sample[t, j]
                require(np.allclose(logprobs[t, j], out[noise], 1e-8, 1e-8),
                        'outputs of noise classes {} are {} instead of {}',
                        noise, logprobs[t, j], out[noise])
                if target == exclude:
                    continue
                c = model.class_of[target]
                count += 1
                if case['cost'] == 'nce':
                    g = out[c] - np.log(probs[c] + epsilon)
                    total += softplus(-g)
                    g = out[noise] - np.log(probs[noise] + epsilon)
                    total += softplus(g).sum()
                else:
                    a = np.exp(out[c]) / probs[c]
                    b = np.exp(out[noise]) / probs[noise]
                    whole = a + b.sum()
                    total -= np.log(a / whole + epsilon)
                    total -= np.log(1.0 - b / whole + epsilon).sum()
        require(int(num_words) == count, 'cost counts {} words instead of {}',
                num_words, count)
        want = total / max(count, 1) + training.regularization(
            model.params, case['l1'], None)
        require(close(value, want, 1e-6, 1e-8), '{} cost of {} with noise {} '
                'is {!r} instead of {!r}', case['cost'], sequences,
                sample.tolist(), float(value), want)
    if sharing == 'batch' and case['calls'] > 20 and k == 1:
        counts = np.bincount([int(r[2].flatten()[0]) for r in results],
                             minlength=num_classes)
        require(chi_square(counts, probs * len(results)) > 1e-9,
                'noise classes are drawn {} times with probabilities {}',
                counts, probs)
    # Noise of different elements is drawn separately.
    rows = [r[2].reshape(-1, k) for r in results]
    repeated = float((probs ** 2).sum()) ** len(rows)
    if len(rows[0]) > 1 and repeated < 1e-12:
        for i in range(len(rows[0])):
            for j in range(i):
                require(any(r[i, 0] != r[j, 0] for r in rows),
                        'elements {} and {} always have the same noise', i, j)
        ctx.label('separate draws, sharing {}'.format(sharing))
    ctx.label('{}, sharing {}'.format(kind, sharing))
    ctx.label(case['cost'])
    ctx.label('excluded words', exclude is not None and
              any(x == unk for s in sequences for x in s[1:]))
    ctx.label('frequencies', case['calls'] > 20)
    ctx.label('class without probability', bool(np.any(probs == 0)))
    ctx.mark(kind != 'uniform' and len(sequences) > 1)


@st.composite
def distribution_cases(draw):
    kind = draw(st.sampled_from(['uniform', 'log-uniform', 'unigram',
                                 'unigram']))
    n = draw(st.integers(1, 12))
    weights = draw(st.lists(st.sampled_from([0, 1, 1, 2, 3, 10, 100]),
                            min_size=n, max_size=n).filter(any))
    if draw(st.integers(0, 3)) == 0:
        # many classes, the weights are repeated
        n = draw(st.sampled_from([33, 130, 400, 3000]))
    k = draw(st.sampled_from([1, 2, 2, 3, 5]))
    rows = draw(st.sampled_from([1, 3, 40, 100]))
    return {'kind': kind, 'n': n, 'weights': weights, 'k': k, 'rows': rows,
            'calls': max(2, 800 // (rows * k)),
            'seed': draw(st.integers(0, 10 ** 6))}


@st.composite
def cost_cases(draw):
    arch = draw(nets.arch_specs(max_hidden=1, outputs=('softmax',),
                                devices=False,
                                kinds=['fc', 'gru', 'highway', 'add', 'blstm']))
    frequencies = draw(st.integers(0, 4)) == 0
    sharing = draw(st.sampled_from([None, 'seq', 'batch']))
    return {'vocab': draw(gen.vocab_specs(min_words=2, max_words=12,
                                          plain=True, counts=False,
                                          allow_oos=False,
                                          formats=['words', 'classes'])),
            'arch': arch,
            'sequences': draw(st.lists(
                st.lists(st.integers(0, 14), min_size=2, max_size=5),
                min_size=1, max_size=3)),
            'pad': draw(st.lists(st.integers(0, 10), min_size=1, max_size=3)),
            'extra': draw(st.integers(0, 1)),
            'exclude_unk': draw(st.booleans()),
            'l1': draw(st.sampled_from([None, None, 0.01])),
            'cost': draw(st.sampled_from(['nce', 'blackout'])),
            'noise': draw(st.sampled_from(['uniform', 'log-uniform',
                                           'unigram', 'unigram'])),
            'dampening': draw(st.sampled_from([0.0, 0.3, 0.75, 1.0])),
            'sharing': sharing,
            'k': 1 if frequencies else draw(st.integers(1, 5)),
            'epsilon': draw(st.sampled_from([1e-6, 1e-3])),
            'weights': draw(st.lists(st.integers(0, 9), min_size=1,
                                     max_size=12)),
            'calls': 150 if frequencies else 2}


A = ['Theano graphs are evaluated by its NumPy backend in double precision']
PARTS = [
    Part('distribution', distribution_cases(), run_distribution, 250, 4000,
         workers=3, rule='more than two classes',
         assumptions=A + ['at least as many classes with positive probability '
                          'as are drawn without replacement']),
    Part('cost', cost_cases(), run_cost, 350, 5000, workers=5,
         rule='noise other than uniform and more than one sequence',
         assumptions=A + ['target classes have positive noise probability',
                          'enough classes for the noise of all time steps when '
                          'unigram noise is shared between sequences']),
]
