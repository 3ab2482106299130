"""C26: corpus statistics count every word and bigram exactly.

Oracle: counts of the token sequences the files were generated from."""

import gzip
import io
import os
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from vh import gen
from vh.core import Part, Skip, require, scratch_dir, sut


def opened(kind, path, data):
    """Writes the text in a file of the given kind and opens it as the
    commands do."""
    from theanolm.backend import TextFileType
    if kind == 'memory':
        return io.StringIO(data.decode())
    if kind == 'bytes':
        return io.BytesIO(data)
    if kind.startswith('gz'):
        path += '.gz'
    if kind in ('written', 'gz-written'):
        with sut('writing a text file'):
            with TextFileType('w')(path) as f:
                f.write(data.decode())
        with open(path, 'rb') as f:
            content = f.read()
        require((gzip.decompress(content) if kind == 'gz-written'
                 else content) == data, 'text is not written as given')
    else:
        with open(path, 'wb') as f:
            f.write(gzip.compress(data) if kind == 'gz' else data)
    with sut('opening a text file'):
        return TextFileType('r')(path)


def text(f):
    return gen.render(f['lines'], f['style'],
                      f['final_newline'] or f['times'] > 1) * f['times']


def run(case, ctx):
    from theanolm.vocabulary import BigramStatistics, compute_word_counts
    files = case['files']
    spec = case['vocab']
    with sut('creating a vocabulary'):
        vocab = gen.build_vocab(spec)
    known = set(spec['words']) | set(spec['oos']) | set(gen.SPECIALS)
    words = Counter()
    unigrams = Counter()
    bigrams = Counter()
    for f in files:
        for line in f['lines']:
            tokens = gen.utterance(line)
            ids = [w if w in known else '<unk>' for w in tokens]
            for counter, items in ((words, tokens), (unigrams, ids),
                                   (bigrams, zip(ids[:-1], ids[1:]))):
                for item in items:
                    counter[item] += f['times']
    with scratch_dir() as directory:
        handles = []
        try:
            for i, f in enumerate(files):
                data = text(f).encode()
                handles.append(opened(f['kind'],
                                      os.path.join(directory, 'f%d' % i),
                                      data))
            for number, step in enumerate(case['steps']):
                if step == 'words':
                    with sut('counting words'):
                        got = compute_word_counts(handles)
                    require(dict(got) == dict(words),
                            'word counts at step {} are {} instead of {}',
                            number, dict(got), dict(words))
                else:
                    with sut('counting bigrams'):
                        got = BigramStatistics(handles, vocab)
                    check_bigrams(got, vocab, unigrams, bigrams)
            for i, handle in enumerate(handles):
                with sut('reading the file'):
                    rest = handle.read()
                if isinstance(rest, bytes):
                    rest = rest.decode()
                want = text(files[i])
                require(rest.split() == want.split() if case['steps'] else True,
                        'file {} is not left at its beginning', i)
        finally:
            for handle in handles:
                handle.close()
    ctx.label('unknown words', any(w not in known for w in words))
    ctx.label('large counts', any(c > 255 for c in unigrams.values()))
    ctx.label('several files', len(files) > 1)
    ctx.label('out-of-shortlist words', bool(spec['oos']))
    for kind in {f['kind'] for f in files}:
        ctx.label(kind)
    ctx.mark(len(bigrams) > 1 and bool(case['steps']))


def check_bigrams(got, vocab, unigrams, bigrams):
    n = vocab.num_words()
    names = [str(w) for w in vocab.id_to_word]
    require(len(got.unigram_counts) == n, '{} unigram counts, {} words',
            len(got.unigram_counts), n)
    for i, w in enumerate(names):
        require(int(got.unigram_counts[i]) == unigrams[w],
                'count of {!r} is {} instead of {}', w, got.unigram_counts[i],
                unigrams[w])
    require(tuple(got.bigram_counts.shape) == (n, n),
            'shape of bigram counts is {}', got.bigram_counts.shape)
    table = np.asarray(got.bigram_counts.todense())
    for i, v in enumerate(names):
        for j, w in enumerate(names):
            require(int(table[i, j]) == bigrams[v, w],
                    'count of {!r} {!r} is {} instead of {}', v, w,
                    table[i, j], bigrams[v, w])


@st.composite
def cases(draw):
    spec = draw(gen.vocab_specs(counts=False))
    known = spec['words'] + spec['oos']
    files = []
    for _ in range(draw(st.integers(1, 4))):
        lines = draw(gen.corpus_lines(known, max_lines=8))
        if lines and draw(st.integers(0, 3)) == 0:
            lines = lines * draw(st.integers(2, 40))
        times = draw(st.integers(0, 299))
        times = 300 if times >= 290 else 33000 if times == 289 else 1
        if times > 1:
            lines = [line[:5] for line in lines[:2]]
        files.append({
            'lines': lines, 'times': times,
            'kind': draw(st.sampled_from(['text', 'gz', 'memory', 'bytes',
                                          'written', 'gz-written'])),
            'style': draw(st.integers(0, 7)),
            'final_newline': draw(st.booleans())})
    return {'vocab': spec, 'files': files,
            'steps': draw(st.lists(st.sampled_from(['words', 'bigrams']),
                                   min_size=1, max_size=3))}


PARTS = [
    Part('counts', cases(), run, 1500, 40000, workers=4,
         rule='text with at least two different bigrams, read from one or '
              'more plain, compressed or binary files, once or repeatedly',
         assumptions=['files are UTF-8 text']),
]
