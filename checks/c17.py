"""C17: a rescored lattice contains the decoded paths with the right scores.

Oracle: the paths of the original lattice (each word sequence has one path),
and the NumPy network reference for the language model scores."""

import argparse
import gzip
import io
import math
import os

import h5py
from hypothesis import strategies as st

from vh import decoding, gen, lattices as lat, nets
from vh.core import Part, Skip, require, scratch_dir, sut
from checks.c15 import lattice_words, same, vocabularies


def check_paths(what, got, reference, spec, results, bigram, transitions,
                complete=False):
    """Compares the paths of a rescored lattice with those of the original.

    results: word sequences of the decoding results."""
    original = {p.words: p for p in lat.paths(spec, 120)}
    seen = set()
    for p in got:
        require(p.words in original,
                '{}: {} is not a word sequence of the original lattice', what,
                p.words)
        require(p.words not in seen, '{}: {} is there twice', what, p.words)
        seen.add(p.words)
        want = original[p.words]
        require(same(p.ac, want.ac), '{}: acoustic score of {} is {!r} '
                'instead of {!r}', what, p.words, p.ac, want.ac)
        if transitions:
            require(p.trans == want.trans, '{}: transitions of {} are {} '
                    'instead of {}', what, p.words, p.trans, want.trans)
        if p.words in results or bigram:
            nn = reference.path(want.words, want.link_lms)
            require(same(p.lm, want.lm + nn),
                    '{}: LM score of {} is {!r} instead of {!r} (original) + '
                    '{!r} (network)', what, p.words, p.lm, want.lm, nn)
    missing = [w for w in results if w not in seen]
    require(not missing, '{}: decoded {} missing', what, missing)
    if complete:
        missing = [w for w in original if w not in seen]
        require(not missing, '{}: paths {} were only recombined, but are '
                'missing', what, missing)
    return seen


def bigram_arch(arch):
    return not any(l['type'] in ('lstm', 'gru') for l in arch['layers'])


def run_api(case, ctx):
    from theanolm.scoring import LatticeDecoder, RescoredLattice
    from theanolm.scoring.kaldilattice import KaldiLattice
    from theanolm.scoring.slflattice import SLFLattice
    vocab = gen.build_vocab(case['vocab'])
    if vocab.num_classes() < 2:
        raise Skip()
    spec = case['lattice']
    if lat.num_paths(spec) > 120:
        raise Skip()
    options = dict(decoding.default_options(), **case['options'])
    with sut('network'):
        m = nets.Model(case['arch'], vocab, minibatch=False)
    reference = decoding.Reference(case['arch'], case['vocab'], vocab,
                                   m.params, options, spec)
    for p in lat.paths(spec, 120):
        if math.isinf(reference.path(p.words, p.link_lms)):
            raise Skip()      # difference of infinities
    words = sorted({l[2] for l in spec['links'] if l[2]})
    _, table = lat.kaldi_vocabulary(words)
    id_to_word = [w for w, _ in sorted(table.items(), key=lambda x: x[1])]
    with sut('rescoring'):
        if case['kaldi']:
            original = KaldiLattice(
                lat.render_kaldi(spec, table).splitlines(), id_to_word)
        else:
            original = lat.object_from_spec(spec)
        decoder = LatticeDecoder(m.network, options)
        tokens, recombined = decoder.decode(original)
        rescored = RescoredLattice(original, tokens, recombined, vocab)
        results = [tuple(t.history_words(vocab))[1:-1] for t in tokens]
        files = {'slf': io.StringIO(), 'kaldi': io.StringIO()}
        rescored.write_slf(files['slf'])
        rescored.write_kaldi(files['kaldi'], table)
        slf = SLFLattice(io.StringIO(files['slf'].getvalue()))
        kaldi = KaldiLattice(files['kaldi'].getvalue().splitlines(),
                             id_to_word)
    for lattice in (rescored, slf, kaldi):
        require(lattice.utterance_id == spec['utterance'],
                'utterance ID {!r}', lattice.utterance_id)
    bigram = bigram_arch(case['arch'])
    # Recombination alone does not lose paths, if no null links are involved
    # before the last word.
    complete = options['beam'] is None and \
        options['max_tokens_per_node'] is None and \
        all(l[2] is not None or l[1] == spec['n'] - 1 for l in spec['links'])
    for what, lattice in (('rescored lattice', rescored), ('SLF file', slf),
                          ('Kaldi file', kaldi)):
        seen = check_paths(what, lat.from_object(lattice), reference, spec,
                           results, bigram, case['kaldi'] and
                           what != 'SLF file', complete)
    for what, lattice in (('SLF file', slf), ('Kaldi file', kaldi)):
        with sut(what):
            order = lattice.sorted_nodes()
        require(len(order) == len(lattice.nodes), '{} has unreachable nodes',
                what)
    ctx.label('recombined paths', len(seen) > len(results))
    ctx.label('paths dropped', len(seen) < lat.num_paths(spec))
    ctx.label('kaldi', case['kaldi'])
    ctx.label('null links', any(l[2] is None and l[1] < spec['n'] - 1
                                for l in spec['links']))
    ctx.label('complete', complete)
    ctx.mark(len(seen) > 1)


def run_command(case, ctx):
    """The output of "theanolm decode --output slf|kaldi"."""
    from theanolm.commands import decode
    from theanolm.scoring.kaldilattice import KaldiLattice
    from theanolm.scoring.slflattice import SLFLattice
    vocab = gen.build_vocab(case['vocab'])
    if vocab.num_classes() < 2:
        raise Skip()
    log_base = case['log_base']
    scale = math.log(log_base) if log_base else 1.0
    options = dict(decoding.default_options(), **case['options'])
    m = nets.Model(case['arch'], vocab, minibatch=False)
    specs = [dict(s, utterance='utt{}'.format(i))
             for i, s in enumerate(case['lattices'])]
    words = sorted({l[2] for s in specs for l in s['links'] if l[2]})
    vocab_text, table = lat.kaldi_vocabulary(words)
    id_to_word = [w for w, _ in sorted(table.items(), key=lambda x: x[1])]
    references = []
    for s in specs:
        if lat.num_paths(s) > 120:
            raise Skip()
        references.append(decoding.Reference(case['arch'], case['vocab'],
                                             vocab, m.params, options, s))
        for p in lat.paths(s, 120):
            if math.isinf(references[-1].path(p.words, p.link_lms)):
                raise Skip()
    with scratch_dir() as d:
        model_path = os.path.join(d, 'model.h5')
        with h5py.File(model_path, 'w') as state:
            vocab.get_state(state)
            m.network.get_state(state)
        vocab_path = os.path.join(d, 'words.txt')
        with open(vocab_path, 'w') as f:
            f.write(vocab_text)
        out = os.path.join(d, 'out' + ('.gz' if case['gz'] else ''))
        argv = [model_path, '--output', case['output'], '--output-file', out,
                '--kaldi-vocabulary', vocab_path,
                '--nnlm-weight', repr(options['nnlm_weight'])]
        if log_base:
            argv += ['--log-base', str(log_base)]
        if options['lm_scale'] is not None:
            argv += ['--lm-scale', repr(options['lm_scale'])]
        if options['wi_penalty'] is not None:
            argv += ['--wi-penalty', repr(options['wi_penalty'] / scale)]
        if options['recombination_order'] is not None:
            argv += ['--recombination-order',
                     str(options['recombination_order'])]
        if case['kaldi']:
            path = os.path.join(d, 'ark')
            with open(path, 'w') as f:
                f.write('\n'.join(lat.render_kaldi(s, table)
                                  for s in specs))
            argv += ['--lattice-format', 'kaldi', '--lattices', path]
        else:
            argv += ['--lattices']
            specs = specs[:1]
            for s in specs:
                argv.append(os.path.join(d, s['utterance']))
                with open(argv[-1], 'w') as f:
                    f.write(lat.render_slf(s))
        if case['output'] == 'slf':
            specs = specs[:1] if not case['kaldi'] else specs
        parser = argparse.ArgumentParser()
        decode.add_arguments(parser)
        with sut('theanolm decode'):
            args = parser.parse_args(argv)
            decode.decode(args)
            args.output_file.close()
        with (gzip.open(out, 'rt', encoding='utf-8') if case['gz']
              else open(out, encoding='utf-8')) as f:
            text = f.read()
    if case['output'] == 'kaldi':
        blocks = [b for b in text.split('\n\n') if b]
    else:
        blocks = ['# Header' + b for b in text.split('# Header')[1:]]
    require(len(blocks) == len(specs), '{} lattices written instead of {}',
            len(blocks), len(specs))
    count = 0
    for s, block, reference in zip(specs, blocks, references):
        with sut('reading the rescored lattice'):
            if case['output'] == 'kaldi':
                lattice = KaldiLattice(block.splitlines(), id_to_word)
            else:
                lattice = SLFLattice(io.StringIO(block))
        require(lattice.utterance_id == s['utterance'], 'utterance {!r}',
                lattice.utterance_id)
        if case['output'] == 'slf':
            for name in ('lm_scale', 'wi_penalty'):
                want, got = options[name], getattr(lattice, name)
                require((got is None) == (want is None) and
                        (want is None or same(got, want)),
                        '{} in the rescored lattice is {} instead of {}',
                        name, got, want)
        complete = all(l[2] is not None or l[1] == s['n'] - 1
                       for l in s['links'])
        results = {p.words for p in lat.paths(s, 120)} \
            if options['recombination_order'] is None else set()
        seen = check_paths('output', lat.from_object(lattice), reference, s,
                           results, bigram_arch(case['arch']),
                           case['kaldi'] and case['output'] == 'kaldi',
                           complete)
        count += len(seen)
    ctx.label('kaldi', case['kaldi'])
    ctx.mark(count > 1)


@st.composite
def api_cases(draw):
    vocab = draw(vocabularies())
    kaldi = draw(st.booleans())
    lattice = draw(lat.lattices(
        words=lattice_words(vocab), max_nodes=6, max_extra=6, low=-4000,
        kaldi=kaldi, null=not kaldi and draw(st.booleans()),
        times=False if kaldi else None, deterministic=True,
        transitions=kaldi))
    arch = draw(nets.recurrent_arch_specs())
    return {'vocab': vocab, 'lattice': lattice, 'kaldi': kaldi, 'arch': arch,
            'options': {
                'beam': draw(st.sampled_from([None, None, 3.0, 10.0])),
                'max_tokens_per_node': draw(st.sampled_from(
                    [None, None, 1, 3, 10])),
                'recombination_order': draw(st.sampled_from(
                    [None, 1, 1, 2, 3])),
                'nnlm_weight': draw(st.sampled_from([1.0, 0.5])),
                'lm_scale': draw(st.sampled_from([None, 0.4])),
                'wi_penalty': draw(st.sampled_from([None, -1.5])),
                'unk_from_lattice': draw(st.booleans()),
                'unk_penalty': draw(st.sampled_from([None, -3.25]))}}


@st.composite
def command_cases(draw):
    vocab = draw(vocabularies())
    kaldi = draw(st.booleans())
    specs = draw(st.lists(lat.lattices(
        words=lattice_words(vocab), max_nodes=5, max_extra=3, low=-4000,
        kaldi=kaldi, null=False, times=False, deterministic=True,
        transitions=kaldi), min_size=1, max_size=2))
    return {'vocab': vocab, 'lattices': specs, 'kaldi': kaldi,
            'arch': draw(nets.recurrent_arch_specs()),
            'gz': draw(st.booleans()),
            'output': draw(st.sampled_from(['slf', 'kaldi'])),
            'log_base': draw(st.sampled_from([None, 10])),
            'options': {
                'recombination_order': draw(st.sampled_from([None, 1, 2])),
                'nnlm_weight': draw(st.sampled_from([1.0, 0.5])),
                'lm_scale': draw(st.sampled_from([None, 0.4])),
                'wi_penalty': draw(st.sampled_from([None, -1.5]))}}


A = ['Theano graphs are evaluated by its NumPy backend in double precision',
     'each word sequence has one path in the original lattice (determinized)',
     'network scores of recombined paths are compared for networks without '
     'recurrent state, where recombination does not approximate']
PARTS = [
    Part('api', api_cases(), run_api, 600, 10000, workers=6,
         rule='the rescored lattice has at least two paths', assumptions=A),
    Part('command', command_cases(), run_command, 100, 1500, workers=2,
         rule='the rescored lattices have at least two paths', assumptions=A),
]
