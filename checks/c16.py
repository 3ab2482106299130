"""C16: pruning and recombination only ever lose worse hypotheses.

Oracles: enumeration of all paths (every result has to be one of them, with its
exact score), and a reference token passing search."""

import argparse
import io
import os

import h5py
from hypothesis import strategies as st

from vh import decoding, gen, lattices as lat, nets
from vh.core import Part, Skip, close, require, scratch_dir, sut
from checks.c15 import lattice_words, same, vocabularies


def decode(network, options, spec, before=None):
    from theanolm.scoring import LatticeDecoder
    from theanolm.scoring.slflattice import SLFLattice
    decoder = LatticeDecoder(network, options)
    # another order of nodes and links in the file
    text = lat.render_slf(spec, {'perm': spec.get('perm')})
    lattice = SLFLattice(io.StringIO(text))
    if before is not None:
        # The lattice has already been decoded with other options.
        LatticeDecoder(network, dict(options, **before)).decode(lattice)
    return decoder.decode(lattice)[0]


def run(case, ctx):
    vocab = gen.build_vocab(case['vocab'])
    if vocab.num_classes() < 2:
        raise Skip()
    spec = case['lattice']
    options = dict(decoding.default_options(), **case['options'])
    with sut('network'):
        m = nets.Model(case['arch'], vocab, minibatch=False)
    reference = decoding.Reference(case['arch'], case['vocab'], vocab,
                                   m.params, options, spec)
    every = decoding.exhaustive(reference, spec, case.get('max_paths', 120))
    if every is None:
        raise Skip()
    with sut('lattice decoder'):
        tokens = decode(m.network, options, spec, case.get('before'))
        got = [(tuple(t.history_words(vocab)), float(t.ac_logprob),
                float(t.lat_lm_logprob), float(t.nn_lm_logprob),
                float(t.total_logprob)) for t in tokens]
    ctx.label('decoded before', case.get('before') is not None)
    require(got, 'no result')
    totals = [g[4] for g in got]
    require(all(a >= b for a, b in zip(totals, totals[1:])),
            'results are not sorted: {}', totals)
    sequences = [g[0] for g in got]
    require(len(set(sequences)) == len(sequences),
            'a word sequence was returned twice: {}', sequences)
    best = max(h.total for h in every)
    require(same(totals[0], best) or totals[0] < best,
            'the best result scores {!r}, more than any path ({!r})',
            totals[0], best)
    for words, ac, lat_lm, nn_lm, total in got:
        require(words[0] == '<s>' and words[-1] == '</s>',
                'result {} has no sentence markers', words)
        alternatives = [h for h in every if h.words == words[1:-1]]
        require(alternatives, '{} is not a path of the lattice', words)
        require(any(same(ac, h.ac) and same(lat_lm, h.lat_lm) and
                    same(nn_lm, h.nn_lm) and same(total, h.total)
                    for h in alternatives),
                '{} has scores {!r}, which no path has', words,
                (ac, lat_lm, nn_lm, total))
    exact = options['beam'] is None or (
        spec['times'] is not None and
        all(a < b for a, b in zip(spec['times'], spec['times'][1:])))
    if exact:
        try:
            want, dropped = decoding.search(reference, spec)
        except decoding.Ambiguous:
            ctx.label('ambiguous')
        else:
            require(sorted(h.words for h in want) == sorted(sequences),
                    'results are {}, but should be {}',
                    [(g[0], round(g[4], 4)) for g in got],
                    [(h.words, round(h.total, 4)) for h in want])
            for h in want:
                total = got[sequences.index(h.words)][4]
                require(same(total, h.total), '{} has total {!r} instead of '
                        '{!r}', h.words, total, h.total)
            for name, count in dropped.items():
                ctx.label(name, count > 0)
            ctx.mark(any(dropped.values()) and len(every) > 2)
            ctx.label('best lost', not same(totals[0], best))
    else:
        # The first word of the best hypothesis survives only the beam rule:
        # a hypothesis within the beam of all others at all times is never lost.
        worst = min(h.total for h in every)
        ctx.label('beam without times')
        if options['recombination_order'] is None and \
                options['max_tokens_per_node'] is None and \
                options['beam'] > 1000:
            require(len(got) == len({h.words for h in every}),
                    'a beam of {} dropped results (range of totals {!r} to '
                    '{!r})', options['beam'], worst, best)
            ctx.mark(len(got) > 1)


def run_command(case, ctx):
    """The decode command uses the pruning options it is given."""
    from theanolm.commands import decode as command
    vocab = gen.build_vocab(case['vocab'])
    if vocab.num_classes() < 2:
        raise Skip()
    spec = case['lattice']
    options = dict(decoding.default_options(), **case['options'])
    m = nets.Model(case['arch'], vocab, minibatch=False)
    with scratch_dir() as d:
        model_path = os.path.join(d, 'model.h5')
        with h5py.File(model_path, 'w') as state:
            vocab.get_state(state)
            m.network.get_state(state)
        path = os.path.join(d, 'lattice.slf')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(lat.render_slf(spec, {'perm': spec.get('perm')}))
        out = os.path.join(d, 'out.txt')
        argv = [model_path, '--lattices', path, '--output', 'full',
                '--n-best', '1000', '--output-file', out]
        for name, value in options.items():
            if value is True:
                argv.append('--' + name.replace('_', '-'))
            elif value is not None and value is not False:
                name = {'prune_extra_limit': 'prune_relative'}.get(name, name)
                argv += ['--' + name.replace('_', '-'), repr(value)]
        parser = argparse.ArgumentParser()
        command.add_arguments(parser)
        with sut('theanolm decode'):
            args = parser.parse_args(argv)
            command.decode(args)
            args.output_file.close()
        with open(out, encoding='utf-8') as f:
            rows = [row.split(' ') for row in f.read().splitlines()]
    got = [(tuple(r[5:]), float(r[3])) for r in rows]
    results = []
    for pruned in (True, False):
        keep = {} if pruned else {
            'beam': None, 'max_tokens_per_node': None,
            'recombination_order': None, 'prune_extra_limit': None}
        with sut('lattice decoder'):
            tokens = decode(m.network, dict(options, **keep), spec)
        results.append([(tuple(t.history_words(vocab)),
                         float(t.total_logprob)) for t in tokens])
    want = results[0]
    require(len(got) == len(want) and
            all(close(a[1], b[1], 1e-6, 1e-5) for a, b in zip(got, want)),
            'theanolm decode {} printed {}, but should print {}', argv, got,
            want)
    ctx.label('relative', options['prune_extra_limit'] is not None)
    ctx.mark(len(results[0]) < len(results[1]))


@st.composite
def cases(draw):
    vocab = draw(vocabularies())
    beam = draw(st.sampled_from([None, None, 0.5, 3.0, 10.0, 2000.0]))
    distinct = draw(st.integers(0, 3)) > 0
    lattice = draw(lat.lattices(words=lattice_words(vocab), max_nodes=6,
                                max_extra=6, low=-4000,
                                times=True if beam and distinct else None,
                                distinct_times=distinct))
    lattice['perm'] = draw(st.one_of(
        st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=6)))
    return {'vocab': vocab, 'lattice': lattice,
            'arch': draw(nets.recurrent_arch_specs()),
            'before': draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries({
                'lm_scale': st.sampled_from([None, 0.1, 0.4, 3.0]),
                'wi_penalty': st.sampled_from([None, 2.0, -1.5])}))),
            'options': {
                'beam': beam,
                'max_tokens_per_node': draw(st.sampled_from(
                    [None, None, 1, 2, 3, 6, 1000])),
                'recombination_order': draw(st.sampled_from(
                    [None, 1, 2, 3, 20])),
                'prune_extra_limit': draw(st.sampled_from(
                    [None, None, 1, 2, 5, 1000])),
                'abs_min_beam': draw(st.sampled_from([0.0, 1.0, 4.0, 150.0])),
                'abs_min_max_tokens': draw(st.sampled_from([0, 1, 2, 30])),
                'nnlm_weight': draw(st.sampled_from([1.0, 0.5, 0.0])),
                'lm_scale': draw(st.sampled_from([None, 0.4, 3.0])),
                'wi_penalty': draw(st.sampled_from([None, -1.5])),
                'unk_penalty': draw(st.sampled_from([None, -3.25])),
                'linear_interpolation': draw(st.integers(0, 4)) == 0}}


@st.composite
def large_cases(draw):
    case = draw(cases())
    vocab = case['vocab']
    o = case['options']
    case['lattice'] = draw(lat.large_lattices(
        lattice_words(vocab), -4000, o['beam'] is not None))
    case['lattice']['perm'] = None
    case['max_paths'] = 2500
    if o['max_tokens_per_node'] is not None:
        o['max_tokens_per_node'] = draw(st.sampled_from([1, 5, 40, 200]))
    if o['prune_extra_limit'] is not None:
        o['prune_extra_limit'] = draw(st.sampled_from([1, 5, 40, 200]))
    return case


A = ['Theano graphs are evaluated by its NumPy backend in double precision',
     'a lattice has at most 120 paths',
     'the reference search requires distinct node times when a beam is used, '
     'and scores that differ by more than 1e-7 at every decision']
PARTS = [
    Part('search', cases(), run, 700, 12000, workers=8,
         rule='more than two paths, and the reference search drops a '
              'hypothesis', assumptions=A),
    Part('large', large_cases(), run, 24, 500, workers=4,
         rule='up to 2500 paths of 4 to 6 words, or up to 81 paths of up to '
              '260 words; the reference search drops a hypothesis',
         assumptions=[A[0], 'a lattice has at most 2500 paths', A[2]]),
    Part('command', cases(), run_command, 160, 3000, workers=8,
         rule='the pruning options drop a result', assumptions=A[:1]),
]
