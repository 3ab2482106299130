"""C21: optimizers take the published update step, with clipping and weights.

Oracle: the update rules in NumPy, applied to the gradients of the cost at the
parameter values of each step.  The gradients come from Theano's symbolic
differentiation of the cost (their values are checked by C20)."""

import copy

import numpy as np
from hypothesis import strategies as st

from vh import gen, nets, training
from vh.core import Part, Skip, require, sut

METHODS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd',
           'rmsprop-nesterov', 'adam']


class Rule:
    """An optimization method over a dictionary of parameters."""

    def __init__(self, o, params):
        self.o = o
        self.params = {k: v.copy() for k, v in params.items()}

        def filled(x):
            return {k: np.full_like(v, x) for k, v in params.items()}
        self.velocity = filled(0.0)
        self.sum_sqr = filled(0.0)
        self.mean_sqr = filled(1.0 if o['method'].startswith('rmsprop')
                               else 0.0)
        self.mean = filled(0.0)
        self.mean_sqr_delta = filled(0.0)
        self.t = 0

    def clip(self, deltas):
        norm = np.sqrt(sum((v ** 2).sum() for v in deltas.values()))
        scale = min(norm, self.o['max_gradient_norm']) / \
            (norm + self.o['epsilon'])
        return {k: v * scale for k, v in deltas.items()}, norm

    def step(self, gradients, alpha):
        o = self.o
        method, eps = o['method'], o['epsilon']
        gamma, beta = o['gradient_decay_rate'], o['momentum']
        gamma2 = o['sqr_gradient_decay_rate']
        self.t += 1
        deltas = {}
        for k, g in gradients.items():
            if method in ('sgd', 'nesterov'):
                deltas[k] = -g
            elif method == 'adagrad':
                self.sum_sqr[k] = self.sum_sqr[k] + g ** 2
                deltas[k] = -g / np.sqrt(self.sum_sqr[k] + eps)
            elif method == 'adadelta':
                self.mean_sqr[k] = gamma * self.mean_sqr[k] + \
                    (1 - gamma) * g ** 2
                deltas[k] = -g * np.sqrt(self.mean_sqr_delta[k] + eps) / \
                    np.sqrt(self.mean_sqr[k] + eps)
            elif method.startswith('rmsprop'):
                self.mean_sqr[k] = gamma * self.mean_sqr[k] + \
                    (1 - gamma) * g ** 2
                deltas[k] = -g / np.sqrt(self.mean_sqr[k] + eps)
            else:
                self.mean[k] = gamma * self.mean[k] + (1 - gamma) * g
                self.mean_sqr[k] = gamma2 * self.mean_sqr[k] + \
                    (1 - gamma2) * g ** 2
                deltas[k] = -self.mean[k] / (np.sqrt(self.mean_sqr[k]) + eps)
        deltas, norm = self.clip(deltas)
        for k, d in deltas.items():
            if method.endswith('nesterov'):
                self.velocity[k] = beta * self.velocity[k] + alpha * d
                change = beta * self.velocity[k] + alpha * d
            elif method == 'adam':
                change = alpha * np.sqrt(1 - gamma2 ** self.t) / \
                    (1 - gamma ** self.t) * d
            else:
                change = alpha * d
            if method == 'adadelta':
                self.mean_sqr_delta[k] = gamma * self.mean_sqr_delta[k] + \
                    (1 - gamma) * d ** 2
            self.params[k] = self.params[k] + change
        return norm


def run(case, ctx):
    import theano
    import theano.tensor as tensor
    from theanolm.training import CrossEntropyCost, create_optimizer
    vocab = gen.build_vocab(case['vocab'])
    size = vocab.num_shortlist_words()
    if vocab.num_classes() < 2:
        raise Skip()
    unk = int(vocab.word_to_id['<unk>'])
    spec = training.connected(case['arch'])
    weights = np.array(case['weights'])
    o = training.options(case['method'], weights=weights, **case['options'])
    exclude = unk if case['exclude_unk'] else None
    with sut('optimizer'):
        network = nets.build_network(spec, vocab)
        cost = CrossEntropyCost(network, exclude, None, None)
        optimizer = create_optimizer(o, network, cost)
    variables = network.get_variables()
    paths = list(variables)
    value, _ = cost.get_tensor()
    n = network
    gradient_function = theano.function(
        [n.input_word_ids, n.input_class_ids, n.target_word_ids,
         n.target_class_ids, n.mask],
        tensor.grad(value, [variables[k] for k in paths]),
        givens=[(n.is_training, np.int8(1))], on_unused_input='ignore')
    rule = Rule(o, training.values(network))
    alpha = o['learning_rate']
    clipped = weighted = 0
    for i, step in enumerate(case['steps']):
        if step['learning_rate'] is not None:
            alpha = step['learning_rate']
            optimizer.learning_rate = optimizer.float_type(alpha)
        sequences = [[unk if x == 0 else x % size for x in s]
                     for s in step['sequences']]
        ids, mask = nets.make_batch(sequences, [0])
        classes = vocab.word_id_to_class_id[ids]
        file_ids = np.zeros_like(ids)
        for j in range(ids.shape[1]):
            file_ids[:, j] = step['files'][j % len(step['files'])] % \
                len(weights)
            if step['mixed']:
                # File ids of masked elements do not count.
                file_ids[len(sequences[j]):, j] = \
                    (file_ids[0, j] + 1) % len(weights)
        gradients = dict(zip(paths, gradient_function(
            ids[:-1], classes[:-1], ids[1:], classes[1:], mask[1:])))
        words = [weights[file_ids[0, j]] for j, s in enumerate(sequences)
                 for _ in s[1:]]
        scale = float(np.mean(words))
        counted = [weights[file_ids[0, j]] for j, s in enumerate(sequences)
                   for x in s[1:] if x != exclude]
        other = copy.deepcopy(rule)
        norm = rule.step(gradients, alpha * scale)
        with sut('update_minibatch'):
            optimizer.update_minibatch(ids, classes, file_ids, mask)
        now = training.values(network)

        def matches(rule):
            return all(np.allclose(now[k], rule.params[k], 1e-7, 1e-9)
                       for k in paths)

        if counted and len(counted) < len(words) and not matches(rule):
            # The average may be over just the words that have a cost.
            other.step(gradients, alpha * float(np.mean(counted)))
            if matches(other):
                rule = other
        for k in paths:
            require(np.allclose(now[k], rule.params[k], 1e-7, 1e-9),
                    '{}: {} after update {} is {} instead of {}, gradient {}',
                    o['method'], k, i + 1, now[k].flatten()[:6],
                    rule.params[k].flatten()[:6],
                    gradients[k].flatten()[:6])
        clipped += norm > o['max_gradient_norm']
        weighted += scale != 1.0
        # Continue from exactly the same values.
        rule.params = now
    ctx.label(o['method'])
    ctx.label('clipped', clipped > 0)
    ctx.label('clipped and not clipped', 0 < clipped < len(case['steps']))
    ctx.label('file weights', weighted > 0)
    ctx.label('learning rate changed', any(x['learning_rate'] is not None
                                           for x in case['steps'][1:]))
    ctx.mark(len(case['steps']) > 2)


@st.composite
def cases(draw):
    decay = st.sampled_from([0.0, 0.5, 0.9, 0.99])
    num_files = draw(st.integers(1, 3))
    step = st.fixed_dictionaries({
        'sequences': st.lists(st.lists(st.integers(0, 9), min_size=2,
                                       max_size=5), min_size=1, max_size=3),
        'files': st.lists(st.integers(0, 2), min_size=1, max_size=3),
        'mixed': st.booleans(),
        'learning_rate': st.sampled_from([None, None, None, 0.01, 0.5])})
    return {'vocab': draw(gen.vocab_specs(min_words=1, max_words=5, plain=True,
                                          counts=False, allow_oos=False,
                                          formats=['words', 'classes'])),
            'arch': draw(nets.arch_specs(max_hidden=1, devices=False,
                                         kinds=['fc', 'fc', 'highway', 'gru'],
                                         outputs=('softmax', 'softmax',
                                                  'hsoftmax'))),
            'method': draw(st.sampled_from(METHODS)),
            'options': {
                'epsilon': draw(st.sampled_from([1e-6, 1e-3])),
                'learning_rate': draw(st.sampled_from([0.1, 1.0, 0.001])),
                'momentum': draw(decay),
                'gradient_decay_rate': draw(decay),
                'sqr_gradient_decay_rate': draw(st.sampled_from(
                    [0.5, 0.9, 0.999])),
                'max_gradient_norm': draw(st.sampled_from(
                    [5.0, 0.01, 0.2, 1.0, 1.0, 100.0]))},
            'weights': draw(st.lists(st.sampled_from([1.0, 1.0, 0.5, 2.0,
                                                      0.0]),
                                     min_size=num_files, max_size=num_files)),
            'exclude_unk': draw(st.integers(0, 3)) == 0,
            'steps': draw(st.lists(step, min_size=1, max_size=7))}


A = ['Theano graphs are evaluated by its NumPy backend in double precision',
     'gradients are those of the cost function (see C20)']
PARTS = [
    Part('updates', cases(), run, 800, 10000, workers=7,
         rule='a history of more than two updates', assumptions=A),
]
