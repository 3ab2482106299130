"""C10: a saved model is reloaded with identical behaviour.

Oracle: the distributions of the network that was saved, bit for bit; and for
damaged files, that they are rejected."""

import os

import h5py
import numpy as np
from hypothesis import strategies as st

from vh import gen, nets
from vh.core import (Part, Skip, Violation, expect_raises, require,
                     scratch_dir, sut)


def evaluate(model, ids, mask):
    return model.function()(ids, model.vocab.word_id_to_class_id[ids], mask)


def save(path, network, vocab, mode):
    with h5py.File(path, mode) as state:
        vocab.get_state(state)
        network.get_state(state)


def compare_vocabs(a, b):
    require(list(a.id_to_word) == list(b.id_to_word), 'words changed')
    require(a.num_classes() == b.num_classes() and
            list(a.word_id_to_class_id) == list(b.word_id_to_class_id),
            'classes changed')
    ids = np.arange(a.num_words())
    require(np.allclose(a.get_class_memberships(ids)[1],
                        b.get_class_memberships(ids)[1], 1e-12, 0),
            'class membership probabilities changed')
    require(a.has_unigram_probs() == b.has_unigram_probs(),
            'unigram probabilities lost')


def run_roundtrip(case, ctx):
    from theanolm.network import Network
    nets.ignore_devices()
    vocab = gen.build_vocab(case['vocab'])
    size = vocab.num_shortlist_words()
    sequences = [[x % size for x in s] for s in case['sequences']]
    ids, mask = nets.make_batch(sequences, [0])
    with scratch_dir() as d:
        path = os.path.join(d, 'model.h5')
        with sut('saving and loading'):
            spec = dict(case['arch'])
            for round_number, seed in enumerate(case['seeds']):
                spec = dict(case['arch'], seed=seed)
                model = nets.Model(spec, vocab)
                want = evaluate(model, ids, mask)
                save(path, model.network, vocab,
                     'w' if round_number == 0 else 'r+')
                loaded = Network.from_file(path)
                require(loaded.vocabulary is not vocab, 'no new vocabulary')
                compare_vocabs(vocab, loaded.vocabulary)
                copy = nets.Model(spec, loaded.vocabulary, network=loaded)
                for name in model.params:
                    require(name in copy.params and
                            np.array_equal(copy.params[name],
                                           model.params[name]),
                            'parameter {} changed', name)
                got = evaluate(copy, ids, mask)
                require(np.array_equal(got, want),
                        'the loaded network gives other probabilities (by '
                        '{!r})', float(np.abs(got - want).max()))
            # A network that has other parameters takes over the state.
            other = nets.Model(dict(spec, seed=seed + 1), vocab)
            with h5py.File(path, 'r') as state:
                other.network.set_state(state)
            got = evaluate(other, ids, mask)
            require(np.array_equal(got, want), 'restoring the state into an '
                    'existing network gives other probabilities')
            if not any(l['type'] in nets.BIDIRECTIONAL
                       for l in spec['layers']):
                mode = Network.Mode(minibatch=False)
                stepwise = Network.from_file(path, mode=mode)
                require(nets.get_params(stepwise).keys() ==
                        model.params.keys(), 'parameters changed')
    ctx.label('saved over', len(case['seeds']) > 1)
    ctx.label('devices', any(l.get('devices') for l in case['arch']['layers']))
    ctx.mark(len(case['arch']['layers']) > 2)


def all_items(group):
    """Paths of all groups and datasets, and (path, attribute) pairs."""
    items = []
    group.visititems(lambda name, obj: items.append(
        (name, isinstance(obj, h5py.Dataset))))
    attributes = []
    group.visititems(lambda name, obj: attributes.extend(
        (name, a) for a in obj.attrs))
    return items, attributes


def run_damaged(case, ctx):
    """Removing a parameter, the vocabulary or the architecture."""
    from theanolm.network import Network
    from theanolm.backend import IncompatibleStateError
    nets.ignore_devices()
    vocab = gen.build_vocab(case['vocab'])
    with scratch_dir() as d:
        path = os.path.join(d, 'model.h5')
        with sut('saving'):
            model = nets.Model(case['arch'], vocab)
            save(path, model.network, vocab, 'w')
        with h5py.File(path, 'r+') as state:
            candidates = ['layers/' + p for p in sorted(
                x[len('layers/'):] for x in
                model.network.get_variables())]
            candidates += ['vocabulary', 'vocabulary/words',
                           'vocabulary/classes', 'vocabulary/probs',
                           'architecture', 'architecture/inputs',
                           'architecture/layers', 'layers']
            victim = candidates[case['victim'] % len(candidates)]
            require(victim in state, '{} was not saved', victim)
            del state[victim]
        expect_raises('a model file without ' + victim,
                      IncompatibleStateError, lambda: Network.from_file(path))
        ctx.label(victim.split('/')[0])
    ctx.mark()


def mutate(spec, k, how):
    """A description that differs in one respect, or None."""
    import copy
    spec = copy.deepcopy(spec)
    layers = spec['layers']
    layer = layers[k % len(layers)]
    if how == 'size':
        if 'size' not in layer or layer['type'] in (
                'dropout', 'highway', 'highwaytanh', 'blstm', 'bgru'):
            return None
        # sizes of the layers that follow may not allow it: only when nothing
        # with a fixed size depends on it
        layer['size'] += 1
    elif how == 'activation':
        if layer['type'] not in ('fc', 'lstm', 'gru', 'highway', 'tanh'):
            return None
        old = layer.get('activation')
        layer['activation'] = 'relu' if old != 'relu' else 'tanh'
    elif how == 'no activation':
        if 'activation' not in layer:
            return None
        del layer['activation']
    elif how == 'dropout layer':
        hidden = layers[-1]['inputs'][0]
        layers.insert(len(layers) - 1,
                      {'name': 'extra', 'type': 'dropout', 'inputs': [hidden]})
    elif how == 'more inputs':
        layers[-1]['inputs'].append(layers[-2]['name'])
    elif how == 'other inputs':
        names = [l['name'] for l in layers[:-1]]
        current = layers[-1]['inputs'][0]
        others = [x for x in names if x != current]
        if not others:
            return None
        layers[-1]['inputs'][0] = others[k % len(others)]
    elif how == 'rename':
        layers[-1]['name'] = 'output'
    elif how == 'input type':
        x = spec['inputs'][k % len(spec['inputs'])]
        x['type'] = 'class' if x['type'] == 'word' else 'word'
    elif how == 'option':
        if layer['type'] != 'dropout':
            return None
        layer['dropout_rate'] = 0.7
    else:
        raise ValueError(how)
    return spec


MUTATIONS = ['size', 'activation', 'no activation', 'dropout layer',
             'more inputs', 'other inputs', 'rename', 'input type', 'option']


def run_other(case, ctx):
    """The state of a network with another description is rejected."""
    from theanolm.backend import IncompatibleStateError
    nets.ignore_devices()
    other_spec = mutate(case['arch'], case['k'], case['how'])
    if other_spec is None:
        raise Skip()
    first, second = case['arch'], other_spec
    if case['swap']:
        first, second = second, first
    vocab = gen.build_vocab(case['vocab'])
    with scratch_dir() as d:
        path = os.path.join(d, 'model.h5')
        try:
            saved = nets.Model(first, vocab)
            other = nets.Model(second, vocab)
        except ValueError:
            raise Skip()     # sizes do not fit
        with sut('saving'):
            save(path, saved.network, vocab, 'w')

        def restore():
            with h5py.File(path, 'r') as state:
                other.network.set_state(state)
        expect_raises('state of a network that differs in ' + case['how'],
                      IncompatibleStateError, restore)
        after = nets.get_params(other.network)
        for name, value in other.params.items():
            require(np.array_equal(after[name], value),
                    'parameter {} was replaced although the state was '
                    'rejected', name)
    ctx.label(case['how'])
    ctx.mark()


@st.composite
def roundtrip_cases(draw):
    return {'vocab': draw(gen.vocab_specs(min_words=1, max_words=6)),
            'arch': draw(nets.arch_specs()),
            'seeds': draw(st.lists(st.integers(0, 1000), min_size=1,
                                   max_size=2)),
            'sequences': draw(st.lists(
                st.lists(st.integers(0, 9), min_size=1, max_size=5),
                min_size=1, max_size=3))}


small = gen.vocab_specs(min_words=1, max_words=4, plain=True, counts=False,
                        allow_oos=False, formats=['words', 'classes'])
damaged_cases = st.fixed_dictionaries({
    'vocab': small, 'arch': nets.arch_specs(max_hidden=2),
    'victim': st.integers(0, 60)})
other_cases = st.fixed_dictionaries({
    'vocab': small, 'arch': nets.arch_specs(max_hidden=2),
    'k': st.integers(0, 8), 'how': st.sampled_from(MUTATIONS),
    'swap': st.booleans()})

MANY = {'inputs': [{'type': ['word', 'class'][i % 2], 'name': 'in%d' % i}
                   for i in range(12)],
        'layers': [{'name': 'proj%d' % i, 'type': 'projection', 'size': 1 + i % 3,
                    'inputs': ['in%d' % i]} for i in range(12)] +
                  [{'name': 'out', 'type': 'softmax',
                    'inputs': ['proj%d' % i for i in range(12)]}],
        'seed': 5, 'scale': 1.0}

A = ['Theano graphs are evaluated by its NumPy backend in double precision']
PARTS = [
    Part('roundtrip', roundtrip_cases(), run_roundtrip, 160, 3000, workers=4,
         rule='a hidden layer', assumptions=A,
         examples=[{'vocab': {'format': 'words', 'words': ['a', 'b', 'c'],
                              'classes': None, 'weights': None, 'oos': [],
                              'counts': None},
                    'arch': MANY, 'seeds': [3],
                    'sequences': [[0, 1, 2, 3], [4, 0]]}]),
    Part('damaged', damaged_cases, run_damaged, 120, 1500, workers=2,
         rule='every case', assumptions=A),
    Part('other', other_cases, run_other, 200, 3000, workers=2,
         rule='every case', assumptions=A),
]
