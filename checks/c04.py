"""C04: every utterance reaches the model exactly once and unaltered.

Oracle: a direct re-implementation of the documented reading rules over the
generated lines (not over the text)."""

import io
import os

import gzip
from hypothesis import strategies as st

from vh import gen
from vh.core import Part, require, scratch_dir, sut


def expected_sequences(files, limit):
    """(words, file index) of each sequence in reading order."""
    result = []
    for index, lines in enumerate(files):
        for tokens in lines:
            words = gen.utterance(tokens)
            if not words:
                continue
            step = limit or len(words)
            for start in range(0, len(words), step):
                piece = words[start:start + step]
                if len(piece) >= 2:
                    result.append((piece, index))
    return result


def open_files(files, case, directory):
    from theanolm.backend import TextFileType
    handles = []
    for index, lines in enumerate(files):
        text = gen.render(lines, case['style'] + index,
                          case['final_newline'])
        kind = case['kinds'][index % len(case['kinds'])]
        if kind == 'memory':
            handles.append(io.StringIO(text))
        elif kind == 'bytes':
            handles.append(io.BytesIO(text.encode('utf-8')))
        else:
            name = os.path.join(directory, 'f%d.txt' % index)
            if kind == 'gzip':
                name += '.gz'
                with gzip.open(name, 'wb') as f:
                    f.write(text.encode('utf-8'))
            else:
                with open(name, 'wb') as f:
                    f.write(text.encode('utf-8'))
            handles.append(TextFileType('r')(name))
    return handles


def word_id(vocab, model, word, map_oos):
    if word in model.class_of:
        return vocab.word_to_id[word]
    if word in model.oos and not map_oos:
        return vocab.word_to_id[word]
    return vocab.word_to_id['<unk>']


def run(case, ctx):
    from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
    spec = case['vocab']
    vocab = gen.build_vocab(spec)
    model = gen.VocabModel(spec)
    files = case['files']
    limit = case['limit']
    batch_size = case['batch_size']
    expected = expected_sequences(files, limit)
    num_batches = -(-len(expected) // batch_size)
    scoring = case['iterator'] == 'scoring'
    cls = ScoringBatchIterator if scoring else LinearBatchIterator
    with scratch_dir() as d:
        handles = open_files(files, case, d)
        for handle in handles:
            if case['preread']:
                handle.read(3)
        with sut('reading mini-batches'):
            iterator = cls(handles if len(handles) > 1 or case['as_list']
                           else handles[0],
                           vocab, batch_size=batch_size,
                           max_sequence_length=limit,
                           map_oos_to_unk=case['map_oos'])
            if case['len_first']:
                require(len(iterator) == num_batches,
                        'announced {} batches, {} expected', len(iterator),
                        num_batches)
            for epoch in range(case['epochs']):
                batches = [tuple(x.copy() if hasattr(x, 'copy') else x
                                 for x in batch) for batch in iterator]
                compare(batches, expected, batch_size, vocab, model, case,
                        scoring, epoch)
                if epoch == 0:
                    require(len(iterator) == num_batches,
                            'announced {} batches after an epoch, expected {}',
                            len(iterator), num_batches)
        for handle in handles:
            handle.close()
    lengths = {len(s) for s, _ in expected}
    ctx.label('split', limit is not None and any(
        len(gen.utterance(l)) > limit for f in files for l in f))
    ctx.label('several files', len(files) > 1)
    ctx.label('many files', len(files) > 100)
    ctx.label('many lines', any(len(f) > 100 for f in files))
    ctx.label('long lines', any(len(l) > 100 for f in files for l in f))
    ctx.label('empty files', len(files) > 1 and any(not f for f in files))
    ctx.label('padding', len(lengths) > 1 and batch_size > 1)
    ctx.label('empty lines', any(not l for f in files for l in f))
    ctx.mark(len(expected) > batch_size and len(lengths) > 1)


def compare(batches, expected, batch_size, vocab, model, case, scoring, epoch):
    what = 'epoch {}'.format(epoch)
    position = 0
    unk = vocab.word_to_id['<unk>']
    for number, batch in enumerate(batches):
        word_ids, second, mask = batch
        require(word_ids.shape == mask.shape, '{}: shapes differ', what)
        length, count = word_ids.shape
        require(1 <= count <= batch_size, '{}: {} sequences in a batch of {}',
                what, count, batch_size)
        if number < len(batches) - 1:
            require(count == batch_size,
                    '{}: batch {} is not full', what, number)
        chunk = expected[position:position + count]
        require(len(chunk) == count, '{}: too many sequences delivered', what)
        position += count
        require(length == max(len(s) for s, _ in chunk),
                '{}: batch {} has length {}', what, number, length)
        for j, (words, file_index) in enumerate(chunk):
            n = len(words)
            ids = [int(x) for x in word_ids[:, j]]
            require(ids[:n] == [word_id(vocab, model, w, case['map_oos'])
                                for w in words],
                    '{}: batch {} sequence {} has ids {} for {}', what,
                    number, j, ids, words)
            require(ids[n:] == [unk] * (length - n),
                    '{}: padding is {}', what, ids[n:])
            require([int(x) for x in mask[:, j]] ==
                    [1] * n + [0] * (length - n),
                    '{}: mask is {} for a sequence of {}', what,
                    list(mask[:, j]), n)
            if scoring:
                require(list(second[j]) == list(words),
                        '{}: words are {} instead of {}', what, second[j],
                        words)
            else:
                require([int(x) for x in second[:n, j]] == [file_index] * n,
                        '{}: file ids are {} instead of {}', what,
                        list(second[:n, j]), file_index)
    require(position == len(expected),
            '{}: {} sequences delivered, {} expected', what, position,
            len(expected))


@st.composite
def cases(draw):
    spec = draw(gen.vocab_specs(max_words=6))
    known = spec['words'] + spec['oos']
    num_files = draw(st.integers(1, 4))
    lines = gen.corpus_lines(known)
    files = [[] if num_files > 1 and draw(st.integers(0, 3)) == 0
             else draw(gen.more_lines(draw(lines), 40))
             for _ in range(num_files)]
    if draw(st.integers(0, 99)) == 99:
        # more files than a byte can count
        files = ([f[:3] for f in files] * 300)[:draw(st.sampled_from(
            [130, 260, 300]))]
    return {
        'vocab': spec,
        'files': files,
        'limit': draw(st.one_of(st.none(), st.integers(1, 12),
                                st.sampled_from([127, 200, 256]))),
        'batch_size': draw(st.one_of(st.integers(1, 5),
                                     st.sampled_from([128, 300]))),
        'iterator': draw(st.sampled_from(['linear', 'scoring'])),
        'map_oos': draw(st.booleans()),
        'kinds': draw(st.lists(st.sampled_from(
            ['memory', 'memory', 'bytes', 'text', 'gzip']),
            min_size=1, max_size=3)),
        'style': draw(st.integers(0, 7)),
        'final_newline': draw(st.booleans()),
        'preread': draw(st.booleans()),
        'as_list': draw(st.booleans()),
        'len_first': draw(st.booleans()),
        'epochs': draw(st.integers(1, 3)),
    }


PARTS = [
    Part('batches', cases(), run, quick=2500, thorough=60000,
         rule='1-4 files, some of them empty, (plain, gzip, memory, bytes) of up to 10 lines (now and then 300) with '
              'empty lines, explicit markers, odd whitespace, unknown words; '
              'batch size 1-5 or hundreds; length limit 1-12, 127-256 or none; 1-3 epochs; '
              'non-trivial: more than one batch and different lengths'),
]
