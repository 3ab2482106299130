"""C15: unpruned lattice decoding finds all paths with their exact scores.

Oracle: enumeration of all paths of the lattice, scored with the NumPy network
reference and the documented combination rules."""

import argparse
import gzip
import math
import os

import h5py
from hypothesis import strategies as st

from vh import decoding, gen, lattices as lat, nets
from vh.core import Part, Skip, close, pipes, require, scratch_dir, sut


def same(a, b):
    return close(a, b, 1e-7, 1e-6)


def prepare(case):
    vocab = gen.build_vocab(case['vocab'])
    if vocab.num_classes() < 2:
        raise Skip()
    return vocab


def undefined(hypotheses):
    """Zero probability with zero LM scale."""
    return any(math.isnan(h.total) for h in hypotheses)


def best_by_words(hypotheses):
    result = {}
    for h in hypotheses:
        if h.words not in result or h.total > result[h.words].total:
            result[h.words] = h
    return result


def run_decode(case, ctx):
    from theanolm.scoring import LatticeDecoder
    vocab = prepare(case)
    spec = case['lattice']
    options = dict(decoding.default_options(), **case['options'])
    with sut('lattice decoder'):
        m = nets.Model(case['arch'], vocab, minibatch=False)
    reference = decoding.Reference(case['arch'], case['vocab'], vocab,
                                   m.params, options, spec)
    every = decoding.exhaustive(reference, spec, case.get('max_paths', 120))
    if every is None or undefined(every):
        raise Skip()
    with sut('lattice decoder'):
        decoder = LatticeDecoder(m.network, dict(options))
        for _ in range(2):     # a decoder is used for many lattices
            tokens, _ = decoder.decode(lat.object_from_spec(spec))
            got = [(tuple(t.history_words(vocab)), t) for t in tokens]
    totals = [float(t.total_logprob) for t in tokens]
    require(all(a >= b for a, b in zip(totals, totals[1:])),
            'results are not sorted: {}', totals)
    sequences = [w for w, _ in got]
    require(len(set(sequences)) == len(sequences),
            'a word sequence was returned twice: {}', sequences)
    best = best_by_words(every)
    require(set(sequences) == {('<s>',) + w + ('</s>',) for w in best},
            'decoding returned {} instead of {}', sorted(sequences),
            sorted(best))
    # With linear interpolation the better of two partial hypotheses with the
    # same words is not always the one that is better at the end.
    exact = not options['linear_interpolation'] or len(best) == len(every)
    for words, t in got:
        words = words[1:-1]
        if exact:
            require(same(t.total_logprob, best[words].total),
                    '{} has total {!r} instead of {!r}', words,
                    float(t.total_logprob), best[words].total)
        alternatives = [h for h in every if h.words == words]
        require(any(same(t.ac_logprob, h.ac) and
                    same(t.lat_lm_logprob, h.lat_lm) and
                    same(t.nn_lm_logprob, h.nn_lm) and
                    same(t.total_logprob, h.total) for h in alternatives),
                '{} has acoustic {!r}, lattice LM {!r}, network LM {!r} and '
                'total score {!r}, which no path has: {}', words,
                float(t.ac_logprob), float(t.lat_lm_logprob),
                float(t.nn_lm_logprob), float(t.total_logprob),
                [(h.ac, h.lat_lm, h.nn_lm, h.total)
                 for h in alternatives])
    used = {w for h in every for w in h.words}
    ctx.label('many paths', len(every) > 200)
    ctx.label('long paths', len(every[0].words) > 25)
    ctx.label('null links', any(l[2] is None for l in spec['links']))
    ctx.label('same words on several paths', len(best) < len(every))
    ctx.label('outside shortlist', any(w in vocab and
                                       w not in reference.class_of
                                       for w in used))
    ctx.label('unknown', any(w not in vocab for w in used))
    ctx.label('classes', case['vocab']['format'] != 'words')
    ctx.label('recurrent', bool(m.network.recurrent_state_size))
    ctx.label('zero membership', any(math.isinf(h.nn_lm) for h in every))
    ctx.mark(len(best) > 1)


def run_command(case, ctx):
    from theanolm.commands import decode
    vocab = prepare(case)
    options = dict(decoding.default_options(), **case['options'])
    log_base = case['log_base']
    scale = math.log(log_base) if log_base else 1.0
    m = nets.Model(case['arch'], vocab, minibatch=False)
    specs = [dict(s, utterance='utt-{}'.format(i))
             for i, s in enumerate(case['lattices'])]
    words = sorted({l[2] for s in specs for l in s['links'] if l[2]})
    with scratch_dir() as d:
        model_path = os.path.join(d, 'model.h5')
        with h5py.File(model_path, 'w') as state:
            vocab.get_state(state)
            m.network.get_state(state)
        argv = [model_path, '--output', case['output'],
                '--n-best', str(case['n_best']),
                '--nnlm-weight', repr(options['nnlm_weight'])]
        if case['kaldi']:
            vocab_text, table = lat.kaldi_vocabulary(words)
            vocab_path = os.path.join(d, 'words.txt')
            with open(vocab_path, 'w') as f:
                f.write(vocab_text)
            path = os.path.join(d, 'ark.gz')
            text = '\n'.join(lat.render_kaldi(s, table) for s in specs)
            with gzip.open(path, 'wt') as f:
                f.write(text)
            argv += ['--lattice-format', 'kaldi', '--kaldi-vocabulary',
                     vocab_path]
            # By default the standard input is read.
            argv += [] if case['pipe'] else ['--lattices', path]
            for s in specs:
                s['lm_scale'] = s['wi_penalty'] = None
        else:
            text = ''
            paths = []
            for s in specs:
                paths.append(os.path.join(d, s['utterance'] + '.slf'))
                with open(paths[-1], 'w') as f:
                    f.write(lat.render_slf(s))
            argv += ['--lattices'] + paths
        if options['lm_scale'] is not None:
            argv += ['--lm-scale', repr(options['lm_scale'])]
        if options['wi_penalty'] is not None:
            argv += ['--wi-penalty', repr(options['wi_penalty'] / scale)]
        if options['unk_penalty'] is not None:
            argv += ['--unk-penalty', repr(options['unk_penalty'])]
        if options['use_shortlist']:
            argv += ['--shortlist']
        if options['unk_from_lattice']:
            argv += ['--unk-from-lattice']
        if options['linear_interpolation']:
            argv += ['--linear-interpolation']
        if log_base:
            argv += ['--log-base', str(log_base)]
        out = os.path.join(d, 'out.txt')
        argv += [] if case['pipe'] else ['--output-file', out]
        parser = argparse.ArgumentParser()
        decode.add_arguments(parser)
        with sut('theanolm decode'), pipes(text.encode()) as piped:
            args = parser.parse_args(argv)
            decode.decode(args)
            args.output_file.close()
        if case['pipe']:
            rows = piped.getvalue().decode().splitlines()
        else:
            with open(out, encoding='utf-8') as f:
                rows = f.read().splitlines()
    several = 0
    for s in specs:
        reference = decoding.Reference(case['arch'], case['vocab'], vocab,
                                       m.params, options, s)
        every = decoding.exhaustive(reference, s)
        if undefined(every):
            raise Skip()
        best = sorted(best_by_words(every).values(), key=lambda h: -h.total)
        count = min(case['n_best'], len(best))
        several += len(best) > 1
        mine, rows = rows[:count], rows[count:]
        require(len(mine) == count, 'output has too few lines')
        remaining = {h.words: h for h in best}
        for k, row in enumerate(mine):
            parts = row.split(' ')
            if case['output'] == 'trn':
                require(parts[-1] == '({})'.format(s['utterance']),
                        'output line {!r} for {}', row, s['utterance'])
                sequence = parts[:-1]
            else:
                require(parts[0] == s['utterance'],
                        'output line {!r} for {}', row, s['utterance'])
                sequence = parts[1 if case['output'] == 'ref' else 5:]
            require(sequence[:1] == ['<s>'] and sequence[-1:] == ['</s>'],
                    'output line {!r} has no sentence markers', row)
            h = remaining.pop(tuple(sequence[1:-1]), None)
            require(h is not None, '{!r} is not a hypothesis, or printed '
                    'twice', row)
            require(same(h.total, best[k].total),
                    'hypothesis {} of {} is {!r} with total {!r}, but the '
                    'total should be {!r}', k, s['utterance'], row, h.total,
                    best[k].total)
            if case['output'] == 'full':
                ac, graph, total, num = map(float, parts[1:5])
                require(num == len(sequence), '{!r}: wrong number of words',
                        row)
                require(any(close(ac * scale, x.ac, 1e-6, 1e-5) and
                            close(graph * scale, x.total - x.ac, 1e-6, 1e-5)
                            and close(total * scale, x.total, 1e-6, 1e-5)
                            for x in every if x.words == h.words),
                        '{!r}: wrong scores (log base {}), expected {!r} '
                        '{!r} {!r}', row, log_base, h.ac / scale,
                        (h.total - h.ac) / scale, h.total / scale)
    require(not rows, 'output has {} lines too many', len(rows))
    ctx.label('log base', bool(log_base))
    ctx.label('kaldi', case['kaldi'])
    ctx.label('standard input and output', case['pipe'])
    ctx.mark(several > 0)


@st.composite
def vocabularies(draw):
    spec = draw(gen.vocab_specs(min_words=1, max_words=6, plain=True))
    if spec['oos'] == [] and draw(st.booleans()):
        spec['oos'] = [w for w in ['k', 'l'] if w not in spec['words']]
        if spec['counts'] is not None:
            spec['counts'] += [draw(st.integers(1, 9)) for _ in spec['oos']]
    return spec


def lattice_words(vocab):
    known = [w for w in vocab['words'] + vocab['oos'] * 2
             if w not in ('<s>', '</s>')]
    return st.sampled_from((known or ['oov1']) * 2 + ['oov1', 'oov2'])


@st.composite
def option_sets(draw, linear=True):
    return {
        'nnlm_weight': draw(st.sampled_from([1.0, 1.0, 0.0, 0.5, 0.3])),
        'lm_scale': draw(st.sampled_from([None, None, 1.0, 0.4, 11.0, 0.0])),
        'wi_penalty': draw(st.sampled_from([None, 0.0, -1.5, 0.6])),
        'unk_penalty': draw(st.sampled_from([None, None, -3.25, 0.0])),
        'use_shortlist': draw(st.booleans()),
        'unk_from_lattice': draw(st.booleans()),
        'linear_interpolation': linear and draw(st.booleans())}


@st.composite
def decode_cases(draw):
    vocab = draw(vocabularies())
    lattice = draw(lat.lattices(words=lattice_words(vocab), max_nodes=5,
                                max_extra=3))
    lattice['lm_scale'] = draw(st.sampled_from([None, 2.5, 0.0]))
    lattice['wi_penalty'] = draw(st.sampled_from([None, -0.25]))
    if draw(st.integers(0, 9)) == 0:
        lattice['links'][0][3] = None
        lattice['links'][-1][4] = None
    return {'vocab': vocab, 'lattice': lattice,
            'arch': draw(nets.recurrent_arch_specs()),
            'options': draw(option_sets())}


@st.composite
def large_cases(draw):
    vocab = draw(vocabularies())
    return {'vocab': vocab, 'max_paths': 2500,
            'lattice': draw(lat.large_lattices(lattice_words(vocab))),
            'arch': draw(nets.recurrent_arch_specs()),
            'options': draw(option_sets())}


@st.composite
def command_cases(draw):
    vocab = draw(vocabularies())
    kaldi = draw(st.booleans())
    specs = draw(st.lists(lat.lattices(
        words=lattice_words(vocab), max_nodes=4, max_extra=2, kaldi=kaldi,
        times=False if kaldi else None), min_size=1, max_size=3))
    for s in specs:
        s['lm_scale'] = draw(st.sampled_from([None, 2.5, 0.0]))
        s['wi_penalty'] = draw(st.sampled_from([None, -0.25]))
    return {'vocab': vocab, 'lattices': specs, 'kaldi': kaldi,
            'arch': draw(nets.recurrent_arch_specs()),
            'options': draw(option_sets(linear=False)),
            'output': draw(st.sampled_from(['ref', 'trn', 'full', 'full'])),
            'n_best': draw(st.sampled_from([1, 2, 100])),
            'pipe': draw(st.sampled_from([False, False, True])),
            'log_base': draw(st.sampled_from([None, None, 10, 2]))}


A = ['Theano graphs are evaluated by its NumPy backend in double precision',
     'a lattice has at most 120 paths',
     'the LM scale is not zero when a word has zero probability']
PARTS = [
    Part('decode', decode_cases(), run_decode, 400, 8000, workers=5,
         rule='several distinct word sequences', assumptions=A),
    Part('large', large_cases(), run_decode, 16, 400, workers=3,
         rule='several distinct word sequences; up to 2500 paths of 4 to 6 '
              'words, or up to 81 paths of up to 260 words',
         assumptions=[A[0], 'a lattice has at most 2500 paths', A[2]]),
    Part('command', command_cases(), run_command, 150, 2500, workers=3,
         rule='a lattice with several word sequences', assumptions=A),
]
