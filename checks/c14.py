"""C14: lattice files are read and written without loss.

Oracle: the generated lattice from which the file was rendered."""

import gzip
import io
import os

from hypothesis import strategies as st

from vh import gen, lattices as lat, nets
from vh.core import (Part, close, expect_raises, pipes, require, scratch_dir,
                     sut)


def compare_objects(lattice, spec, ids, what, transitions=False, order=True):
    """Compares a lattice that was read with its description."""
    require(len(lattice.nodes) == spec['n'], '{}: {} nodes instead of {}',
            what, len(lattice.nodes), spec['n'])
    require(len(lattice.links) == len(spec['links']),
            '{}: {} links instead of {}', what, len(lattice.links),
            len(spec['links']))
    for i, node in enumerate(lattice.nodes):
        require(node.id == i, '{}: node {} has ID {}', what, i, node.id)
    node_of = [lattice.nodes[ids[i]] for i in range(spec['n'])]
    require(lattice.initial_node is node_of[0], '{}: initial node is {}',
            what, lattice.initial_node.id)
    for i, node in enumerate(node_of):
        require(bool(node.final) == (i == spec['n'] - 1),
                '{}: node {} final: {}', what, i, node.final)
        time = None if spec['times'] is None else spec['times'][i]
        require((node.time is None) == (time is None) and
                (time is None or close(node.time, time, 1e-9, 1e-12)),
                '{}: node {} has time {} instead of {}', what, i, node.time,
                time)
    want = [(ids[s], ids[e], w, a, l, t) for s, e, w, a, l, t
            in spec['links']]
    got = [(k.start_node.id, k.end_node.id, k.word, k.ac_logprob,
            k.lm_logprob, k.transitions) for k in lattice.links]
    if not order:
        key = (lambda x: (x[0], x[1], x[2] or '', round(float(x[3] or 0), 9),
                          round(float(x[4] or 0), 9)))
        want.sort(key=key)
        got.sort(key=key)
    for w, g in zip(want, got):
        require(w[:3] == g[:3], '{}: link {} instead of {}', what, g, w)
        for i in (3, 4):
            require((w[i] is None) == (g[i] is None) and
                    (w[i] is None or close(g[i], w[i], 1e-9, 1e-9)),
                    '{}: scores of link {} instead of {}', what, g, w)
        if transitions:
            require(g[5] == w[5], '{}: transitions of link {} instead of {}',
                    what, g, w)
    # pointers between links and nodes
    for node in lattice.nodes:
        out = [k for k in lattice.links if k.start_node is node]
        into = [k for k in lattice.links if k.end_node is node]
        require(sorted(map(id, node.out_links)) == sorted(map(id, out)) and
                sorted(map(id, node.in_links)) == sorted(map(id, into)),
                '{}: links of node {} are inconsistent', what, node.id)
    with sut(what + ': sorted nodes'):
        order = lattice.sorted_nodes()
    require(sorted(n.id for n in order) == list(range(spec['n'])),
            '{}: sorted nodes are {}', what, [n.id for n in order])
    position = {n.id: k for k, n in enumerate(order)}
    for k in lattice.links:
        require(position[k.start_node.id] < position[k.end_node.id],
                '{}: nodes are not in topological order', what)
    require(lattice.utterance_id == spec['utterance'],
            '{}: utterance ID {!r} instead of {!r}', what,
            lattice.utterance_id, spec['utterance'])


def compare_header(lattice, spec, what):
    for name in ('lm_scale', 'wi_penalty'):
        want, got = spec[name], getattr(lattice, name)
        require((want is None) == (got is None) and
                (want is None or close(got, want, 1e-9, 1e-9)),
                '{}: {} is {} instead of {}', what, name, got, want)


def run_slf(case, ctx):
    from theanolm.scoring.slflattice import SLFLattice
    spec, style = case['lattice'], case['style']
    text = lat.render_slf(spec, style)
    ids = lat.node_ids(spec, style['perm'])
    with sut('reading SLF'):
        lattice = SLFLattice(io.StringIO(text))
    compare_objects(lattice, spec, ids, 'read')
    compare_header(lattice, spec, 'read')
    with sut('writing SLF'):
        output = io.StringIO()
        lattice.write_slf(output)
    with sut('reading written SLF'):
        again = SLFLattice(io.StringIO(output.getvalue()))
    if spec['utterance'] is None:
        spec = dict(spec, utterance='None')
    compare_objects(again, spec, ids, 'written and read')
    compare_header(again, spec, 'written and read')
    ctx.label('log base', style['base'] is not None)
    ctx.label('words in nodes', style['node_words'])
    special = any(w is not None and any(c in w for c in '"\\# ')
                  for _, _, w, _, _, _ in spec['links'])
    ctx.label('special characters', special)
    ctx.mark(len(spec['links']) > 2)


def run_kaldi(case, ctx):
    from theanolm.scoring.slflattice import SLFLattice
    from theanolm.scoring.kaldilattice import KaldiLattice, \
        read_kaldi_vocabulary
    spec = case['lattice']
    words = sorted({l[2] for l in spec['links'] if l[2] is not None})
    vocab_text, table = lat.kaldi_vocabulary(words)
    with sut('Kaldi vocabulary'):
        word_to_id = read_kaldi_vocabulary(io.StringIO(vocab_text))
    require(word_to_id == table, 'Kaldi vocabulary is {}', word_to_id)
    id_to_word = [None] * len(table)
    for w, i in table.items():
        id_to_word[i] = w
    text = lat.render_kaldi(spec, table, case['style'], case['perm'])
    with sut('reading Kaldi'):
        lattice = KaldiLattice(text.splitlines(), id_to_word)
    ids = lat.kaldi_ids(spec, case['perm'])
    compare_objects(lattice, spec, ids, 'read', transitions=True, order=False)
    with sut('writing Kaldi'):
        output = io.StringIO()
        lattice.write_kaldi(output, word_to_id)
    require(output.getvalue().endswith('\n\n'),
            'a written lattice does not end in an empty line')
    with sut('reading written Kaldi'):
        again = KaldiLattice(output.getvalue().splitlines(), id_to_word)
    compare_objects(again, spec, ids, 'written and read', transitions=True,
                    order=False)
    with sut('writing SLF'):
        output = io.StringIO()
        lattice.write_slf(output)
        again = SLFLattice(io.StringIO(output.getvalue()))
    compare_objects(again, spec, ids, 'written as SLF', order=False)
    if all(len(lattice.nodes[i].out_links) for i in range(spec['n'] - 1)):
        with sut('writing Kaldi from SLF'):
            output = io.StringIO()
            again.write_kaldi(output, word_to_id)
            again = KaldiLattice(output.getvalue().splitlines(), id_to_word)
        compare_objects(again, spec, ids, 'written as SLF and Kaldi',
                        order=False)
    ctx.label('initial state is not 0', ids[0] != 0)
    ctx.label('final weights', sum(l[1] == spec['n'] - 1
                                   for l in spec['links']) > 1)
    ctx.mark(len(spec['links']) > 2)


def run_rejected(case, ctx):
    from theanolm.backend import InputError
    from theanolm.scoring import LatticeDecoder
    from theanolm.scoring.slflattice import SLFLattice
    from theanolm.scoring.kaldilattice import KaldiLattice
    spec, kind = case['lattice'], case['kind']
    k = case['k'] % len(spec['links'])
    text = lat.render_slf(spec)
    lines = text.split('\n')
    at = [i for i, l in enumerate(lines) if l.startswith('J=')]
    if kind == 'cycle':
        # a link back to a node of the same path
        spec = dict(spec, links=spec['links'] + [
            [spec['links'][k][1], spec['links'][k][0], 'a', -1.0, -1.0, '']])
        if spec['links'][k][1] == spec['n'] - 1:
            return             # the last node would not be final
        vocab = gen.build_vocab({'format': 'words', 'words': ['a', 'b'],
                                 'classes': None, 'weights': None, 'oos': [],
                                 'counts': None})
        network = nets.build_network(nets.simple_arch(1), vocab,
                                     minibatch=False)
        decoder = LatticeDecoder(network, {
            'nnlm_weight': 1.0, 'lm_scale': None, 'wi_penalty': None,
            'unk_penalty': None, 'use_shortlist': False,
            'unk_from_lattice': False, 'linear_interpolation': False,
            'max_tokens_per_node': None, 'beam': None,
            'recombination_order': None})
        # The initial node cannot be found from links that form a cycle.
        rendered = lat.render_slf(spec, {'start': True})
        expect_raises('decoding a cyclic lattice', InputError,
                      lambda: decoder.decode(
                          SLFLattice(io.StringIO(rendered))))
        ctx.mark()
        return
    if kind == 'missing link':
        del lines[at[k]]
    elif kind == 'extra link':
        lines.insert(at[k], lines[at[k]].replace(
            'J={}'.format(k), 'J={}'.format(len(at))))
    elif kind == 'no start':
        lines[at[k]] = ' '.join(f for f in lines[at[k]].split(' ')
                                if not f.startswith('S='))
    elif kind == 'no end':
        lines[at[k]] = ' '.join(f for f in lines[at[k]].split(' ')
                                if not f.startswith('E='))
    elif kind == 'no size':
        lines = [l for l in lines if not l.startswith('N=')]
    elif kind == 'no equals sign':
        lines[at[k]] += ' x'
    elif kind == 'sub-lattice':
        lines.insert(1, 'SUBLAT=x')
    elif kind == 'both':
        e = spec['links'][k][1]
        lines = [l + ' W=b' if l == 'I={}'.format(e) or
                 l.startswith('I={} '.format(e)) else l for l in lines]
        if spec['links'][k][2] is None:
            return
    elif kind == 'kaldi':
        table = ['<eps>', 'a', '#0', '<s>', '</s>']
        body = ['utt', '0 1 1 0.5,1.5,1_2', '1 2 0 0.5,1,5,'[:12]]
        body[2] = ['1 2 2 0.5,1.5,', '1 2 3 0.5,1.5,', '1 2 4 0.5,1.5,',
                   '1 2 1 0.5,1.5, 7'][case['k'] % 4]
        body.append('2 0.1,0.2,')
        expect_raises('reading {}'.format(body), InputError,
                      lambda: KaldiLattice(body, table))
        ctx.mark()
        return
    text = '\n'.join(lines)
    expect_raises('reading SLF with ' + kind, InputError,
                  lambda: SLFLattice(io.StringIO(text)))
    ctx.label(kind)
    ctx.mark()


def run_jobs(case, ctx):
    from theanolm.scoring import LatticeBatch
    with scratch_dir() as d:
        files = []
        number = 0
        contents = []
        words = ['a', 'b', 'c', 'd', 'oov1', 'oov2']
        vocab_text, table = lat.kaldi_vocabulary(words)
        for i, group in enumerate(case['files']):
            path = os.path.join(d, 'f{}.lat{}'.format(
                i, '.gz' if group['gz'] else ''))
            rendered = []
            for spec in group['lattices'][:None if case['kaldi'] else 1]:
                spec = dict(spec, utterance='utt{}'.format(number))
                number += 1
                if case['kaldi']:
                    rendered.append(lat.render_kaldi(spec, table))
                else:
                    rendered.append(lat.render_slf(spec))
            names = ['utt{}'.format(n) for n in
                     range(number - len(rendered), number)]
            contents.append((names, group['lattices']))
            text = '\n'.join(rendered) + '\n' * group['newlines']
            with (gzip.open(path, 'wt') if group['gz']
                  else open(path, 'w')) as f:
                f.write(text)
            files.append(path)
        given = [f for i, f in enumerate(files) if i < case['given']]
        listed = [f for i, f in enumerate(files) if i >= case['given']]
        list_text = ''.join(' ' * (i % 2) + f + '\n' * (1 + i % 3)
                            for i, f in enumerate(listed))
        jobs = case['jobs']
        # Without any files, the standard input is read.
        standard_input = case['stdin'] and len(files) == 1
        if standard_input:
            given, listed, jobs = [], [], 1
        seen = []
        for job in range(jobs):
            with sut('lattice batch'), pipes(text.encode()):
                batch = LatticeBatch(
                    list(given), io.StringIO(list_text) if listed else None,
                    'kaldi' if case['kaldi'] else 'slf',
                    io.StringIO(vocab_text) if case['kaldi'] else None,
                    jobs, job)
                got = list(batch)
            for lattice in got:
                i = next(i for i, (names, _) in enumerate(contents)
                         if lattice.utterance_id in names)
                spec = contents[i][1][contents[i][0].index(
                    lattice.utterance_id)]
                spec = dict(spec, utterance=lattice.utterance_id)
                compare_objects(lattice, spec, list(range(spec['n'])),
                                'job {}'.format(job), order=False)
            seen.append([l.utterance_id for l in got])
    every = [u for s in seen for u in s]
    require(sorted(every) == sorted(n for names, _ in contents
                                    for n in names),
            'jobs processed {}', seen)
    for s in seen:
        require(s == sorted(s, key=lambda u: int(u[3:])),
                'a job processed {} out of order', s)
    # all lattices of a file go to the same job, and jobs are balanced
    sizes = [sum(any(n in s for n in names) for names, _ in contents)
             for s in seen]
    require(max(sizes) - min(sizes) <= 1, 'jobs got {} files', sizes)
    ctx.label('kaldi', case['kaldi'])
    ctx.label('standard input', standard_input)
    ctx.mark((jobs > 1 and len(files) > 1) or standard_input)


def run_long(case, ctx):
    """Lattices of thousands of nodes."""
    from theanolm.scoring.slflattice import SLFLattice
    n = case['n']
    links = []
    for i in range(n - 1):
        links.append([i, i + 1, 'w{}'.format(i % 7), -1.0, -2.0, ''])
        if case['extra'] and i % case['extra'] == 0 and i + 2 < n:
            links.append([i, i + 2, 'x', -1.0, -2.0, ''])
    if case['node_words']:
        for l in links:
            l[2] = 'w{}'.format(l[1] % 7)
    spec = {'n': n, 'links': links, 'times': None, 'lm_scale': None,
            'wi_penalty': None, 'utterance': 'long'}
    text = lat.render_slf(spec, {'node_words': case['node_words']})
    with sut('reading a lattice of {} nodes'.format(n)):
        lattice = SLFLattice(io.StringIO(text))
        order = lattice.sorted_nodes()
    require([x.id for x in order] == list(range(n)), 'wrong order')
    require([(k.start_node.id, k.end_node.id, k.word)
             for k in lattice.links] == [tuple(l[:3]) for l in links],
            'links of a lattice of {} nodes differ', n)
    ctx.mark(n > 500)


slf_words = gen.words().filter(lambda w: w[0] not in '!#' and w != '')


@st.composite
def slf_cases(draw):
    spec = draw(lat.lattices(words=slf_words, max_nodes=6,
                             high=draw(st.sampled_from([0, 0, 3000]))))
    spec['utterance'] = draw(st.one_of(
        st.sampled_from(['utt 1', 'a#b', 'x y #z', 'q"r', 'b\\s']),
        gen.words()))
    spec['lm_scale'] = draw(st.sampled_from([None, 0.0, 1.0, 12.5]))
    spec['wi_penalty'] = draw(st.sampled_from([None, 0.0, -0.7]))
    style = {
        'base': draw(st.sampled_from([None, None, 10, 2, 0, 1.0003])),
        'long': draw(st.booleans()), 'quote': draw(st.integers(0, 2)),
        'perm': draw(st.one_of(st.none(), st.lists(st.integers(0, 30),
                                                   min_size=1, max_size=6))),
        'start': draw(st.booleans()), 'end': draw(st.booleans()),
        'tabs': draw(st.booleans()), 'comments': draw(st.booleans()),
        'node_words': draw(st.booleans()),
        'null': draw(st.sampled_from(['!NULL', '!ENTER', '!SENT_START', '#x',
                                      '#', ''])),
        'reverse': draw(st.booleans()),
        'split_header': draw(st.booleans())}
    if style['base'] != 0:
        for l in spec['links']:
            if draw(st.integers(0, 9)) == 0:
                l[draw(st.sampled_from([3, 4]))] = None
    if style['node_words']:
        if not style['null']:
            style['null'] = '!NULL'
        word = {}
        for l in spec['links']:
            l[2] = word.setdefault(l[1], l[2])
    return {'lattice': spec, 'style': style}


kaldi_words = gen.words().filter(lambda w: w not in ('#0', '<eps>'))


@st.composite
def kaldi_cases(draw):
    spec = draw(lat.lattices(words=kaldi_words, max_nodes=6, kaldi=True,
                             times=False, transitions=True,
                             high=draw(st.sampled_from([0, 3000]))))
    for l in spec['links']:
        if draw(st.integers(0, 4)) == 0:
            l[3] = l[4] = 0.0
            l[5] = draw(st.sampled_from(['', '3_4']))
        if l[2] is not None and l[2][0] in '!#':
            l[2] = 'x' + l[2]     # null words in SLF
    spec['utterance'] = draw(st.sampled_from(['utt', 'utt-1 x', 'ä']))
    perm = draw(st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1,
                                              max_size=6)))
    return {'lattice': spec, 'style': draw(st.integers(0, 7)), 'perm': perm}


rejected_cases = st.fixed_dictionaries({
    'lattice': lat.lattices(times=False),
    'kind': st.sampled_from(['cycle', 'missing link', 'extra link',
                             'no start', 'no end', 'no size',
                             'no equals sign', 'sub-lattice', 'both',
                             'kaldi']),
    'k': st.integers(0, 20)})


@st.composite
def job_cases(draw):
    kaldi = draw(st.booleans())
    group = st.fixed_dictionaries({
        'gz': st.booleans(), 'newlines': st.integers(0, 2),
        'lattices': st.lists(lat.lattices(kaldi=kaldi, times=False,
                                          max_nodes=4),
                             min_size=1, max_size=3)})
    return {'kaldi': kaldi,
            'files': draw(st.lists(group, min_size=1, max_size=5)),
            'given': draw(st.integers(0, 5)),
            'stdin': draw(st.booleans()),
            'jobs': draw(st.integers(1, 4))}


long_cases = st.fixed_dictionaries({
    'n': st.sampled_from([300, 900, 1100, 2500, 5000]),
    'extra': st.integers(0, 5), 'node_words': st.booleans()})

A = ['words that begin with "!" or "#" denote null links in SLF',
     'Kaldi vocabulary IDs are consecutive']
PARTS = [
    Part('slf', slf_cases(), run_slf, 1500, 30000, workers=2,
         rule='at least three links', assumptions=A),
    Part('kaldi', kaldi_cases(), run_kaldi, 1500, 30000, workers=2,
         rule='at least three links', assumptions=A),
    Part('rejected', rejected_cases, run_rejected, 300, 5000,
         rule='an invalid lattice was generated'),
    Part('jobs', job_cases(), run_jobs, 300, 5000, workers=2,
         rule='several files and several jobs, or the standard input'),
    Part('long', long_cases, run_long, 20, 60, rule='more than 500 nodes'),
]
