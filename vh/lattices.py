"""Generators, renderers and reference model of word lattices.

A lattice is a JSON value: number of nodes, links as [start, end, word or None,
acoustic log probability, LM log probability, transitions], node times or None,
scale, penalty and utterance ID.  Node 0 is the initial node, the last node is
the only final node, and links go from a smaller to a larger number."""

import io
import math

from hypothesis import strategies as st

from vh.core import Violation

WORDS = ['a', 'b', 'c', 'd', 'oov1', 'oov2']


def scores(low=-12000, high=0):
    return st.integers(low, high).map(lambda x: x / 1000.0)


@st.composite
def lattices(draw, words=st.sampled_from(WORDS), max_nodes=5, max_extra=4,
             kaldi=False, null=True, times=None, distinct_times=False,
             low=-12000, deterministic=False, transitions=False, high=0):
    """A connected acyclic lattice."""
    score = scores(low, high)
    if kaldi:
        inner = draw(st.integers(1, max_nodes - 1))
        n = inner + 1
        last = inner - 1
    else:
        n = draw(st.integers(2, max_nodes))
        last = n - 1
    pairs = []
    # a third of the lattices are confusion networks, where many hypotheses
    # meet in each node
    sausage = last > 1 and draw(st.integers(0, 2)) == 0
    if sausage:
        for i in range(last):
            pairs += [(i, i + 1)] * draw(st.integers(1, 4 if i else 5))
    for i in range(1, last + 1):
        if not sausage:
            pairs.append((draw(st.integers(0, i - 1)), i))
    for i in range(last):
        if not any(s == i for s, _ in pairs):
            pairs.append((i, draw(st.integers(i + 1, last))))
    if last > 0:
        for _ in range(draw(st.integers(0, 1 if sausage else max_extra))):
            s = draw(st.integers(0, last - 1))
            pairs.append((s, draw(st.integers(s + 1, last))))
    trans = st.lists(st.integers(1, 99), max_size=3).map(
        lambda x: '_'.join(map(str, x))) if transitions else st.just('')
    label = st.one_of(st.none(), words, words, words) if null else words
    links = [[s, e, draw(label), draw(score), draw(score), draw(trans)]
             for s, e in pairs]
    if kaldi:
        finals = set(draw(st.lists(st.integers(0, last), max_size=3)))
        finals.update(i for i in range(last + 1)
                      if not any(l[0] == i for l in links))
        for i in sorted(finals):
            links.append([i, n - 1, None, draw(score), draw(score),
                          draw(trans)])
    if deterministic:
        links = determinize(links, n)
    spec = {'n': n, 'links': links, 'times': None, 'lm_scale': None,
            'wi_penalty': None, 'utterance': 'utt'}
    if times is None:
        times = draw(st.booleans())
    if times:
        step = st.integers(1 if distinct_times else 0, 30)
        t, values = 0, []
        for _ in range(n):
            values.append(t / 100.0)
            t += draw(step)
        spec['times'] = values
    return spec


@st.composite
def large_lattices(draw, words, low=-12000, times=False):
    """A confusion network with many paths, or a long one with some."""
    if draw(st.booleans()):
        widths = draw(st.lists(st.integers(2, 4), min_size=4, max_size=6))
    else:
        widths = [1] * draw(st.sampled_from([30, 130, 260]))
        for _ in range(draw(st.integers(1, 4))):
            widths[draw(st.integers(0, len(widths) - 1))] = \
                draw(st.integers(2, 3))
    ac = draw(st.lists(scores(low), min_size=7, max_size=23))
    lm = draw(st.lists(scores(low), min_size=7, max_size=23))
    labels = draw(st.lists(words, min_size=5, max_size=11))
    links = []
    for i, width in enumerate(widths):
        for j in range(width):
            k = len(links)
            word = labels[k % len(labels)]
            if j == 1:
                word = draw(st.one_of(st.none(), words))
            links.append([i, i + 1, word, ac[k % len(ac)], lm[k % len(lm)],
                          ''])
    return {'n': len(widths) + 1, 'links': links, 'lm_scale': None,
            'times': [i / 10.0 for i in range(len(widths) + 1)] if times
                     else None,
            'wi_penalty': None, 'utterance': 'utt'}


def determinize(links, n):
    """Changes words until every word sequence has one path (also through
    null links)."""
    links = [list(l) for l in links]
    changed = 0
    while True:
        reach = {}
        bad = None
        for node in range(n - 1, -1, -1):
            seen = {}
            for i, l in enumerate(links):
                if l[0] != node:
                    continue
                if l[2] is not None:
                    items = [l[2]]
                else:
                    items = list(reach[l[1]])
                    # the end of the lattice counts as a word
                    if l[1] == n - 1:
                        items.append('</final>')
                for w in items:
                    if w in seen:
                        bad = i
                    seen[w] = i
            reach[node] = seen
            if bad is not None:
                break
        if bad is None:
            return links
        changed += 1
        links[bad][2] = 'u%d' % changed
        if links[bad][1] == n - 1 and changed > 100:
            raise AssertionError()


def out_links(spec):
    result = [[] for _ in range(spec['n'])]
    for l in spec['links']:
        result[l[0]].append(l)
    return result


class Path:
    def __init__(self, words, ac, lm, trans, link_lms):
        self.words = words          # tuple
        self.ac = ac
        self.lm = lm
        self.trans = trans          # list of transition IDs
        self.link_lms = link_lms    # LM score of the link of each word


def num_paths(spec):
    count = [0] * spec['n']
    count[-1] = 1
    links = out_links(spec)
    for i in range(spec['n'] - 2, -1, -1):
        count[i] = sum(count[l[1]] for l in links[i])
    return count[0]


def paths(spec, limit=500):
    """All paths, or None if there are too many."""
    if num_paths(spec) > limit:
        return None
    links = out_links(spec)
    result = []
    stack = [(0, (), 0.0, 0.0, (), ())]
    while stack:
        node, words, ac, lm, trans, lms = stack.pop()
        if node == spec['n'] - 1:
            result.append(Path(words, ac, lm, list(trans), lms))
            continue
        for _, e, w, a, l, t in links[node]:
            ids = tuple(x for x in t.split('_') if x)
            stack.append((e, words + (() if w is None else (w,)),
                          ac + (a or 0.0), lm + (l or 0.0), trans + ids,
                          lms + (() if w is None else (l,))))
    return result


def from_object(lattice):
    """Paths of a Lattice object of the code under test, as Path objects."""
    result = []
    steps = 0
    stack = [(lattice.initial_node, (), 0.0, 0.0, (), ())]
    while stack:
        node, words, ac, lm, trans, lms = stack.pop()
        if node.final:
            result.append(Path(words, ac, lm, list(trans), lms))
        for link in node.out_links:
            w = link.word
            ids = tuple(x for x in (link.transitions or '').split('_') if x)
            stack.append((link.end_node, words + (() if w is None else (w,)),
                          ac + float(link.ac_logprob or 0.0),
                          lm + float(link.lm_logprob or 0.0), trans + ids,
                          lms + (() if w is None else (link.lm_logprob,))))
        steps += 1
        if steps > 20000:
            raise Violation('the lattice has a cycle or too many paths')
    return result


def object_from_spec(spec):
    """Reads the lattice with the SLF reader of the code under test."""
    from theanolm.scoring.slflattice import SLFLattice
    return SLFLattice(io.StringIO(render_slf(spec)))


def slf_quote(value, style):
    if style == 0 and not any(c in value for c in ' \t"\\') and value:
        return value
    escaped = value.replace('\\', '\\\\').replace('"', '\\"')
    if style == 2 and value and not any(c in value for c in ' \t'):
        return escaped
    return '"' + escaped + '"'


def default_style():
    return {'base': None, 'long': False, 'quote': 0, 'perm': None,
            'start': False, 'end': False, 'tabs': False, 'comments': False,
            'node_words': False, 'null': '!NULL', 'reverse': False,
            'split_header': False}


def node_ids(spec, perm):
    """IDs of the nodes in the file."""
    if not perm:
        return list(range(spec['n']))
    order = sorted(range(spec['n']),
                   key=lambda i: (perm[i % len(perm)] * 31 + i * 17) % 101)
    return order


def render_slf(spec, style=None):
    style = dict(default_style(), **(style or {}))
    ids = node_ids(spec, style['perm'])
    names = {'t': 'time', 'W': 'WORD', 'S': 'START', 'E': 'END',
             'a': 'acoustic', 'l': 'language', 'N': 'NODES', 'L': 'LINKS'} \
        if style['long'] else {}

    def field(name, value):
        return '{}={}'.format(names.get(name, name), value)

    def number(value):
        base = style['base']
        if base is None:
            return repr(float(value))
        if base == 0:
            return repr(math.exp(value))
        return repr(value / math.log(base))

    sep = '\t' if style['tabs'] else ' '
    lines = []
    if style['comments']:
        lines.append('# a comment with = and "quoted words"')
    lines.append('VERSION=1.1')
    if spec['utterance'] is not None:
        lines.append(('U=' if style['long'] else 'UTTERANCE=') +
                     slf_quote(spec['utterance'], style['quote']))
    if style['base'] is not None:
        lines.append('base={}'.format(style['base']))
    fields = []
    if spec['lm_scale'] is not None:
        fields.append('lmscale={!r}'.format(spec['lm_scale']))
    if spec['wi_penalty'] is not None:
        fields.append('wdpenalty=' + number(spec['wi_penalty']))
    if fields:
        lines.append(sep.join(fields))
    if style['start']:
        lines.append('start={}'.format(ids[0]))
    if style['end']:
        lines.append('end={}'.format(ids[-1]))
    counts = [field('N', spec['n']), field('L', len(spec['links']))]
    if style['split_header']:
        lines.extend(counts)
    else:
        lines.append(sep.join(counts))
    if style['comments']:
        lines.append('# Nodes')
        lines.append('')
    node_lines = []
    for i in range(spec['n']):
        fields = ['I={}'.format(ids[i])]
        if spec['times'] is not None:
            fields.append(field('t', repr(spec['times'][i])))
        if style['node_words'] and i > 0:
            word = next(l[2] for l in spec['links'] if l[1] == i)
            fields.append(field('W', style['null'] if word is None
                                else slf_quote(word, style['quote'])))
        node_lines.append(sep.join(fields))
    link_lines = []
    for j, (s, e, w, a, l, _) in enumerate(spec['links']):
        fields = ['J={}'.format(j), field('S', ids[s]), field('E', ids[e])]
        if not style['node_words']:
            if w is not None:
                fields.append(field('W', slf_quote(w, style['quote'])))
            elif style['null']:
                fields.append(field('W', style['null']))
        if a is not None:
            fields.append(field('a', number(a)))
        if l is not None:
            fields.append(field('l', number(l)))
        if style['reverse']:
            fields[1:] = reversed(fields[1:])
        link_lines.append(sep.join(fields))
    if style['reverse']:
        node_lines.reverse()
    lines += node_lines
    if style['comments']:
        lines.append('#Links')
    lines += link_lines
    return '\n'.join(lines) + '\n'


def kaldi_vocabulary(words):
    """Text of a Kaldi vocabulary with the words."""
    table = ['<eps>'] + [w for w in words] + ['#0', '<s>', '</s>']
    return ''.join('{} {}\n'.format(w, i) for i, w in enumerate(table)), \
        {w: i for i, w in enumerate(table)}


def kaldi_ids(spec, perm):
    """IDs of the nodes in the file.  The final node is not in the file, and
    becomes the last one."""
    if not perm:
        return list(range(spec['n']))
    order = sorted(range(spec['n'] - 1),
                   key=lambda i: (perm[i % len(perm)] * 31 + i * 17) % 101)
    return order + [spec['n'] - 1]


def render_kaldi(spec, word_to_id, style=0, perm=None):
    """The final node becomes final weights.  ``style`` varies spelling."""
    lines = [spec['utterance']]
    ids = kaldi_ids(spec, perm)
    body = []
    for s, e, w, a, l, t in spec['links']:
        weight = '{!r},{!r},{}'.format(0.0 - l, 0.0 - a, t)
        if style % 2 and a == 0 and l == 0:
            weight = (',,' + t) if t else ''
        if e == spec['n'] - 1:
            body.append((s, ('{} {}'.format(ids[s], weight)).rstrip()))
        else:
            body.append((s, '{} {} {} {}'.format(
                ids[s], ids[e], word_to_id[w if w is not None else '<eps>'],
                weight).rstrip()))
    if (style // 2) % 2:
        first = [b for b in body if b[0] == 0]
        body = first + sorted((b for b in body if b[0] != 0),
                              key=lambda b: -b[0])
    else:
        body.sort(key=lambda b: b[0])
    sep = '\t' if (style // 4) % 2 else ' '
    return '\n'.join(lines + [b[1].replace(' ', sep) for b in body]) + '\n'
