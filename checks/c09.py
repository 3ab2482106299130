"""C09: evaluating word by word gives the same probabilities as whole sequences.

Oracle: differential.  Hypotheses are advanced one word at a time in random
groups, carrying their recurrent states, and compared with the whole sequence
evaluated at once by the mini-batch network and by the NumPy reference."""

import numpy as np
from hypothesis import strategies as st

from vh import decoding, gen, lattices as lat, nets
from vh.core import Part, close, require, sut


def run_steps(case, ctx):
    import theano
    from theanolm.network import RecurrentState
    vocab = gen.build_vocab(case['vocab'])
    size = vocab.num_shortlist_words()
    class_of = vocab.word_id_to_class_id
    sequences = [[x % size for x in s] for s in case['sequences']]
    with sut('network'):
        whole = nets.Model(case['arch'], vocab, minibatch=True)
        step = nets.Model(case['arch'], vocab, minibatch=False)
        require(sorted(whole.params) == sorted(step.params),
                'the two forms of the network have different parameters')
        net = step.network
        f = theano.function(
            [net.input_word_ids, net.input_class_ids,
             net.target_class_ids] + net.recurrent_state_input,
            [net.output_probs(), net.target_probs()] +
            net.recurrent_state_output,
            givens=[(net.is_training, np.int8(0))], on_unused_input='ignore')
        g = whole.function()
        states = [RecurrentState(net.recurrent_state_size)
                  for _ in sequences]
        outputs = [[] for _ in sequences]
        position = [0] * len(sequences)
        k = 0
        sizes = set()
        while any(p < len(s) for p, s in zip(position, sequences)):
            # choose which hypotheses advance, and their order
            pick = case['schedule'][k % len(case['schedule'])]
            k += 1
            order = [(pick * (i + 1) + k) % len(sequences)
                     for i in range(1 + pick % len(sequences))]
            group = []
            for i in order:
                if i not in group and position[i] < len(sequences[i]):
                    group.append(i)
            if not group:
                group = [i for i in range(len(sequences))
                         if position[i] < len(sequences[i])]
            sizes.add(len(group))
            singles = [states[i] for i in group]
            # The states of some hypotheses are put together first.
            parts, rest = [], list(singles)
            while rest:
                size_of_part = 1 + case['schedule'][
                    len(parts) % len(case['schedule'])] % 3 \
                    if case['nested'] else 1
                part, rest = rest[:size_of_part], rest[size_of_part:]
                parts.append(part[0] if len(part) == 1 else
                             RecurrentState.combine_sequences(part))
            state = RecurrentState.combine_sequences(parts)
            ids = np.array([[sequences[i][position[i]] for i in group]])
            targets = np.array([[(7 * position[i] + i) % whole.num_classes
                                 for i in group]])
            result = f(ids, class_of[ids], targets, *state.get())
            probs, target_probs, out_states = result[0], result[1], result[2:]
            for j, i in enumerate(group):
                outputs[i].append(probs[0, j])
                require(close(target_probs[0, j], probs[0, j, targets[0, j]],
                              1e-12, 0),
                        'target probability differs from the distribution')
                states[i] = RecurrentState(
                    net.recurrent_state_size,
                    state_variables=[v[:, j:j + 1] for v in out_states])
                position[i] += 1
        ids, mask = nets.make_batch(sequences, [0])
        batch = g(ids, class_of[ids], mask)
    for j, s in enumerate(sequences):
        got = np.array(outputs[j])
        error = np.abs(got - batch[:len(s), j]).max()
        require(error < 1e-9, 'sequence {}: word by word differs from the '
                'whole sequence by {!r}', j, float(error))
        error = np.abs(got - step.probs(s)).max()
        require(error < 1e-8, 'sequence {}: word by word differs from the '
                'layer equations by {!r}', j, float(error))
    for layer in case['arch']['layers']:
        ctx.label(layer['type'])
    ctx.label('regrouped', len(sizes) > 1)
    ctx.mark(bool(net.recurrent_state_size) and
             max(len(s) for s in sequences) > 2)


def run_lattice(case, ctx):
    """A lattice with one path scores as the sentence does as text."""
    from theanolm.scoring import LatticeDecoder, TextScorer
    vocab = gen.build_vocab(case['vocab'])
    size = vocab.num_shortlist_words()
    words = [vocab.id_to_word[x % size] for x in case['words']]
    words = [w for w in words if w not in ('<s>', '</s>')]
    links = [[i, i + 1, w, -1.0, -1.0, ''] for i, w in enumerate(words)]
    for k in case['nulls']:
        k %= len(links) + 1
        links.insert(k, [0, 0, None, 0.0, 0.0, ''])
    links = links or [[0, 1, None, 0.0, 0.0, '']]
    for i, l in enumerate(links):
        l[:2] = [i, i + 1]
    spec = {'n': len(links) + 1, 'links': links, 'times': None,
            'lm_scale': None, 'wi_penalty': None, 'utterance': 'u'}
    with sut('scoring'):
        whole = nets.Model(case['arch'], vocab, minibatch=True)
        step = nets.Model(case['arch'], vocab, minibatch=False)
        scorer = TextScorer(whole.network, False, False)
        text = scorer.score_line(' '.join(words), vocab) if words else None
        decoder = LatticeDecoder(step.network, decoding.default_options())
        tokens, _ = decoder.decode(lat.object_from_spec(spec))
    require(len(tokens) == 1, '{} hypotheses for one path', len(tokens))
    if words:
        require(close(tokens[0].nn_lm_logprob, text, 1e-7, 1e-7),
                '{} scores {!r} in a lattice and {!r} as text', words,
                float(tokens[0].nn_lm_logprob), float(text))
    ctx.label('recurrent', bool(step.network.recurrent_state_size))
    ctx.label('classes', case['vocab']['format'] != 'words')
    ctx.mark(len(words) > 1)


@st.composite
def lattice_cases(draw):
    return {'vocab': draw(gen.vocab_specs(min_words=2, max_words=7, plain=True,
                                          counts=False, allow_oos=False)),
            'arch': draw(nets.arch_specs(minibatch_only=False, max_hidden=3,
                                         recurrent=True)),
            'words': draw(st.lists(st.integers(0, 9), max_size=6)),
            'nulls': draw(st.lists(st.integers(0, 9), max_size=3))}


@st.composite
def step_cases(draw):
    return {'vocab': draw(gen.vocab_specs(min_words=1, max_words=7, plain=True,
                                          counts=False, allow_oos=False,
                                          formats=['words', 'classes'])),
            'arch': draw(nets.arch_specs(minibatch_only=False, max_hidden=3,
                                         recurrent=True)),
            'sequences': draw(gen.more_sequences(st.lists(
                st.lists(st.integers(0, 9), min_size=1, max_size=7),
                min_size=1, max_size=5))),
            'nested': draw(st.booleans()),
            'schedule': draw(st.lists(st.integers(0, 20), min_size=1,
                                      max_size=6))}


A = ['Theano graphs are evaluated by its NumPy backend in double precision']
PARTS = [
    Part('steps', step_cases(), run_steps, 350, 6000, workers=6,
         rule='a recurrent layer and a sequence of at least three words',
         assumptions=A),
    Part('lattice', lattice_cases(), run_lattice, 80, 1500, workers=2,
         rule='at least two words', assumptions=A),
]
