"""C13: generated text is drawn from the model.

Oracle: the NumPy network reference gives the distribution of the next word
after every generated prefix; counts are compared with it by a chi-square
statistic whose threshold is exceeded with a probability below 1e-9."""

import argparse
import math
import os

import h5py
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vh import gen, nets
from vh.core import (Part, Skip, close, pipes, require, scratch_dir, sut)

P_LIMIT = 1e-10


def word_distribution(spec, params, vocab, model, words):
    """Probability of each shortlist word after the words."""
    ids = [int(vocab.word_to_id[w]) for w in words]
    class_of = {w: int(vocab.word_id_to_class_id[vocab.word_to_id[w]])
                for w in model.shortlist}
    probs = nets.forward(spec, params, ids, [class_of[w] for w in words],
                         vocab.num_classes())['out'][-1]
    return {w: probs[class_of[w]] * model.membership[w]
            for w in model.shortlist}


def chi_square(observed, probs, what):
    """observed: word -> count; probs: word -> probability."""
    n = sum(observed.values())
    total = sum(probs.values())
    cells = []
    rest_o, rest_e = 0, 0.0
    for w, p in probs.items():
        o, e = observed.get(w, 0), n * p / total
        if p == 0:
            require(o == 0, '{}: {} was generated, but has probability zero',
                    what, w)
        elif e < 10:
            # exact test of a rare word
            tail = min(stats.binom.sf(o - 1, n, p / total) if o else 1.0,
                       stats.binom.cdf(o, n, p / total))
            require(tail > P_LIMIT, '{}: {} was generated {} times of {}, with '
                    'probability {!r}', what, w, o, n, p)
            rest_o += o
            rest_e += e
        else:
            cells.append((o, e))
    if rest_e >= 10:
        cells.append((rest_o, rest_e))
    if len(cells) > 1:
        statistic = sum((o - e) ** 2 / e for o, e in cells)
        p = stats.chi2.sf(statistic, len(cells) - 1)
        require(p > P_LIMIT, '{}: frequencies {} differ from the model {} '
                '(chi-square {:.1f})', what, observed,
                {w: round(p, 4) for w, p in probs.items()}, statistic)
    return n


def run_frequencies(case, ctx):
    from theanolm import TextSampler
    vocab = gen.build_vocab(case['vocab'])
    model = gen.VocabModel(case['vocab'])
    if vocab.num_classes() < 2:
        raise Skip()
    seed = [model.shortlist[x % len(model.shortlist)] for x in case['seed']]
    num = case['num']
    with sut('text sampler'):
        m = nets.Model(case['arch'], vocab, minibatch=False)
        sampler = TextSampler(m.network)
        sequences = sampler.generate(case['length'], num,
                                     seed_sequence=' '.join(seed))
    require(len(sequences) == num, '{} sequences instead of {}',
            len(sequences), num)
    prefixes = {}
    start = ['<s>'] + seed
    for s in sequences:
        require(len(s) == len(seed) + case['length'],
                'a sequence of {} tokens instead of {}', len(s),
                len(seed) + case['length'])
        require(s[:len(start)] == start, '{} does not start with {}', s, start)
        for t in range(len(start), len(s)):
            counts = prefixes.setdefault(tuple(s[:t]), {})
            counts[s[t]] = counts.get(s[t], 0) + 1
    tested = 0
    for prefix, counts in sorted(prefixes.items(),
                                 key=lambda x: -sum(x[1].values()))[:25]:
        probs = word_distribution(case['arch'], m.params, vocab, model,
                                  list(prefix))
        for w in counts:
            require(w in probs, '{} was generated, which is not in the '
                    'shortlist', w)
        n = chi_square(counts, probs, 'after ' + ' '.join(prefix))
        tested += n >= 50
    ctx.label('classes', case['vocab']['format'] != 'words')
    ctx.label('seed sequence', bool(seed))
    ctx.label('recurrent', bool(m.network.recurrent_state_size))
    ctx.mark(tested > 1)


def run_certain(case, ctx):
    """A model that leaves no choice (next word is a function of the word)."""
    from theanolm import TextSampler
    words = case['words']
    spec = {'format': 'words', 'words': words, 'classes': None,
            'weights': None, 'oos': [], 'counts': None}
    vocab = gen.build_vocab(spec)
    size = vocab.num_shortlist_words()
    arch = {'inputs': [{'type': 'word', 'name': 'in0'}],
            'layers': [{'name': 'proj0', 'type': 'projection',
                        'inputs': ['in0'], 'size': size},
                       {'name': 'out', 'type': 'softmax',
                        'inputs': ['proj0']}], 'seed': 1, 'scale': 1.0}
    following = [x % size for x in (case['next'] * size)[:size]]
    seed = [words[x % len(words)] for x in case['seed']]
    with sut('text sampler'):
        network = nets.build_network(arch, vocab, minibatch=False)
        table = np.full((size, size), -1000.0)
        for i, j in enumerate(following):
            table[i, j] = 1000.0
        for path, variable in network.get_variables().items():
            if path.endswith('proj0/W'):
                variable.set_value(table)
            elif path.endswith('/W'):
                variable.set_value(np.eye(size))
            else:
                variable.set_value(np.zeros(size))
        sampler = TextSampler(network)
        got = sampler.generate(case['length'], case['num'],
                               seed_sequence=' '.join(seed))
    want = ['<s>'] + seed
    while len(want) < len(seed) + case['length']:
        last = int(vocab.word_to_id[want[-1]])
        want.append(vocab.id_to_word[following[last]])
    require(got == [want] * case['num'], 'generated {} instead of {}', got,
            want)
    ctx.mark(case['length'] > 2)


def run_command(case, ctx):
    from theanolm.commands import sample
    vocab = gen.build_vocab(case['vocab'])
    model = gen.VocabModel(case['vocab'])
    if vocab.num_classes() < 2:
        raise Skip()
    seed = [model.shortlist[x % len(model.shortlist)] for x in case['seed']]
    outputs = []
    with scratch_dir() as d:
        path = os.path.join(d, 'model.h5')
        m = nets.Model(case['arch'], vocab, minibatch=False)
        with h5py.File(path, 'w') as state:
            vocab.get_state(state)
            m.network.get_state(state)
        for k, random_seed in enumerate((case['random_seed'],
                                         case['random_seed'],
                                         case['random_seed'] + 1)):
            out = os.path.join(d, 'out%d' % k)
            parser = argparse.ArgumentParser()
            sample.add_arguments(parser)
            with sut('theanolm sample'), pipes() as piped:
                args = parser.parse_args(
                    [path] + ([] if case['pipe'] else ['--output-file', out]) +
                    ['--num-sentences', str(case['num']),
                     '--sentence-length', str(case['length']),
                     '--random-seed', str(random_seed)] +
                    (['--seed-sequence', ' '.join(seed)] if seed else []))
                sample.sample(args)
                args.output_file.close()
            if case['pipe']:
                outputs.append(piped.getvalue().decode('utf-8'))
            else:
                with open(out, encoding='utf-8') as f:
                    outputs.append(f.read())
    require(outputs[0] == outputs[1], 'the same random seed gives another '
            'text')
    ended = 0
    for output in outputs:
        require(output.endswith('\n'), 'incomplete output')
        rows = output[:-1].split('\n')
        require(len(rows) == case['num'], '{} sentences instead of {}',
                len(rows), case['num'])
        for row in rows:
            tokens = row.split(' ')
            start = ['<s>'] + seed
            full = len(seed) + case['length']
            if '</s>' in start:
                start = start[:start.index('</s>') + 1]
            require(tokens[:len(start)] == start, '{} does not start with {}',
                    row, start)
            require(all(t in model.class_of for t in tokens),
                    'unknown word in {}', row)
            require('</s>' not in tokens[:-1], '{} continues after the '
                    'sentence end', row)
            require(len(tokens) == full or
                    (len(tokens) < full and tokens[-1] == '</s>'),
                    '{} has {} tokens', row, len(tokens))
            ended += tokens[-1] == '</s>'
    ctx.label('ended', ended > 0)
    ctx.label('different', outputs[0] != outputs[2])
    ctx.mark(outputs[0] != outputs[2])


vocabs = gen.vocab_specs(min_words=1, max_words=5, plain=True)


@st.composite
def frequency_cases(draw):
    return {'vocab': draw(vocabs),
            'arch': dict(draw(nets.recurrent_arch_specs()),
                         scale=draw(st.sampled_from([1.0, 2.0, 3.0]))),
            'seed': draw(st.lists(st.integers(0, 9), max_size=2)),
            'length': draw(st.integers(1, 4)),
            'num': draw(st.sampled_from([400, 1000]))}


certain_cases = st.fixed_dictionaries({
    'words': gen.word_lists(1, 6), 'next': st.lists(st.integers(0, 8),
                                                    min_size=1, max_size=9),
    'seed': st.lists(st.integers(0, 5), max_size=3),
    'length': st.integers(1, 8), 'num': st.integers(1, 3)})


@st.composite
def command_cases(draw):
    length = draw(st.sampled_from(list(range(1, 13)) + [150]))
    return {'vocab': draw(gen.vocab_specs(min_words=1, max_words=5)),
            'arch': draw(nets.recurrent_arch_specs()),
            'seed': draw(st.lists(st.integers(0, 9), max_size=2)),
            'length': length,
            'num': draw(st.sampled_from([1, 2, 3, 4, 5] * 2 +
                                        [300 if length < 9 else 2])),
            'random_seed': draw(st.integers(0, 10 ** 6)),
            'pipe': draw(st.booleans())}


A = ['Theano graphs are evaluated by its NumPy backend in double precision']
PARTS = [
    Part('frequencies', frequency_cases(), run_frequencies, 100, 2000,
         workers=4, rule='at least two prefixes that occurred 50 times',
         assumptions=A),
    Part('certain', certain_cases, run_certain, 60, 2000, workers=2,
         rule='at least two generated words', assumptions=A),
    Part('command', command_cases(), run_command, 60, 1500, workers=3,
         rule='two random seeds gave different texts', assumptions=A),
]
