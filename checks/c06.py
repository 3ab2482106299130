"""C06: the network output is a probability distribution over words.

Oracle: the axioms of probability, checked on generated networks, and the
entry of the distribution for each target."""

import numpy as np
from hypothesis import strategies as st

from vh import gen, nets
from vh.core import Part, Skip, close, require, sut


def full_hierarchy(n):
    first = int(np.ceil(np.sqrt(n)))
    second = int(np.ceil(n / first))
    return first * second == n


def run(case, ctx):
    import theano
    vocab = gen.build_vocab(case['vocab'])
    model = gen.VocabModel(case['vocab'])
    unk_class = model.class_of['<unk>']
    if case['exclude_unk'] and len(model.classes[unk_class]) > 1:
        raise Skip()   # documented limitation: <unk> needs a class of its own
    spec = case['arch']
    hierarchical = spec['layers'][-1]['type'] == 'hsoftmax'
    n = vocab.num_classes()
    if hierarchical and case['exclude_unk']:
        raise Skip()   # hierarchical softmax cannot exclude a class
    if n < 2:
        raise Skip()
    size = vocab.num_shortlist_words()
    sequences = [[x % size for x in s] for s in case['sequences']]
    ids, mask = nets.make_batch(sequences, [0])
    with sut('network'):
        m = nets.Model(spec, vocab, minibatch=case['minibatch'],
                       exclude_unk=case['exclude_unk'])
        net = m.network
        if case['minibatch']:
            inputs = [net.input_word_ids, net.input_class_ids,
                      net.target_class_ids, net.mask]
        else:
            inputs = [net.input_word_ids, net.input_class_ids,
                      net.target_class_ids] + net.recurrent_state_input
        f = theano.function(inputs, [net.output_probs(), net.target_probs()],
                            givens=[(net.is_training, np.int8(0))],
                            on_unused_input='ignore')
        class_of = vocab.word_id_to_class_id
        rng = np.random.RandomState(case['arch']['seed'])
        targets = rng.randint(0, n, size=ids.shape)
        if case['minibatch']:
            probs, target_probs = f(ids, class_of[ids], targets, mask)
        else:
            ids, mask, targets = ids[:1], mask[:1], targets[:1]
            state = [rng.uniform(-1, 1, size=(1, ids.shape[1], s))
                     for s in net.recurrent_state_size]
            probs, target_probs = f(ids, class_of[ids], targets, *state)
        memberships = np.array([vocab.get_word_prob(i) for i in range(size)])
        oos = vocab.get_oos_probs() if vocab.has_unigram_probs() else None
    require(probs.shape == ids.shape + (n,), 'output has shape {}',
            probs.shape)
    require(target_probs.shape == ids.shape, 'target output has shape {}',
            target_probs.shape)
    unk = int(vocab.word_to_id['<unk>'])
    for t in range(ids.shape[0]):
        for j in range(ids.shape[1]):
            if not mask[t, j]:
                continue
            p = probs[t, j]
            require(np.all(p >= 0.0) and np.all(p <= 1.0 + 1e-9),
                    'probabilities {} are not between 0 and 1', p)
            total = float(p.sum())
            if not hierarchical or full_hierarchy(n):
                require(close(total, 1.0, 1e-9, 1e-9),
                        'probabilities of {} classes sum to {!r}', n, total)
                words = np.array([p[class_of[i]] * memberships[i]
                                  for i in range(size)])
                require(close(words.sum(), 1.0, 1e-6, 1e-6),
                        'word probabilities sum to {!r}', words.sum())
                if oos is not None and model.oos and not case['exclude_unk'] \
                        and len(model.classes[unk_class]) == 1:
                    extended = words.sum() - words[unk] + sum(
                        words[unk] * oos[vocab.word_to_id[w]]
                        for w in model.oos)
                    require(close(extended, 1.0, 1e-6, 1e-6),
                            'probabilities of words including those outside '
                            'the shortlist sum to {!r}', extended)
            else:
                # Slots of the hierarchy without a class keep their share.
                require(0.0 <= total <= 1.0 + 1e-9,
                        'probabilities of {} classes sum to {!r}', n, total)
            require(close(target_probs[t, j], p[targets[t, j]], 1e-9, 1e-300),
                    'target class {} has probability {!r}, in the '
                    'distribution it is {!r}', targets[t, j],
                    target_probs[t, j], p[targets[t, j]])
            if case['exclude_unk']:
                require(p[class_of[unk]] == 0.0,
                        'excluded <unk> has probability {!r}',
                        p[class_of[unk]])
    ctx.label('hierarchical', hierarchical)
    ctx.label('hierarchical, full', hierarchical and full_hierarchy(n))
    ctx.label('exclude unk', case['exclude_unk'])
    ctx.label('one time step', not case['minibatch'])
    ctx.label('classes', case['vocab']['format'] != 'words')
    ctx.label('outside shortlist', oos is not None and bool(model.oos))
    ctx.label('large weights', case['arch']['scale'] > 5)
    ctx.mark(len(sequences) > 1 or case['vocab']['format'] != 'words')


@st.composite
def cases(draw):
    minibatch = draw(st.sampled_from([True, True, False]))
    arch = draw(nets.arch_specs(minibatch_only=minibatch, max_hidden=2))
    arch['scale'] = draw(st.sampled_from([0.5, 1.0, 3.0, 30.0, 1000.0]))
    exclude = draw(st.booleans())
    if exclude:
        arch['layers'][-1]['type'] = 'softmax'
    vocab = draw(gen.vocab_specs(min_words=1, max_words=12, plain=True))
    if exclude:
        # keep <unk> out of the other classes
        if '<unk>' in vocab['words'] and vocab['classes'] is not None:
            i = vocab['words'].index('<unk>')
            vocab['classes'][i] = 50
    return {'vocab': vocab, 'arch': arch, 'exclude_unk': exclude,
            'minibatch': minibatch,
            'sequences': draw(gen.more_sequences(st.lists(
                st.lists(st.integers(0, 14), min_size=1, max_size=5),
                min_size=1, max_size=3)))}


PARTS = [
    Part('distribution', cases(), run, 900, 9000, workers=6,
         rule='more than one sequence, or a class vocabulary',
         assumptions=['Theano graphs are evaluated by its NumPy backend in '
                      'double precision']),
]
