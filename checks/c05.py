"""C05: shuffled reading: an epoch is a permutation and can be resumed.

Oracle: the multiset of lines per epoch, and, for checkpoints, the batches that
the uninterrupted reader delivered from the same position (replayed with the
same random generator state)."""

import gzip
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from vh import gen
from vh.core import (Part, Skip, Violation, expect_raises, require, scratch_dir,
                     sut)


def write_files(files, case, directory):
    paths = []
    for index, lines in enumerate(files):
        path = os.path.join(directory, 'f%d.txt' % index)
        text = gen.render(lines, case['style'] + index, case['final_newline'])
        if case.get('gz', 0) >> index & 1:
            path += '.gz'
        with (gzip.open if path.endswith('.gz') else open)(path, 'wb') as f:
            f.write(text.encode('utf-8') or b'\n')
        paths.append(path)
    return paths


class Reader:
    def __init__(self, paths, case, vocab):
        from theanolm.backend import TextFileType
        from theanolm.parsing import ShufflingBatchIterator
        self.handles = [TextFileType('r')(p) for p in paths]
        self.iterator = ShufflingBatchIterator(
            self.handles, case['sampling'], vocab,
            batch_size=case['batch_size'],
            max_sequence_length=case['limit'],
            map_oos_to_unk=case['map_oos'])

    def close(self):
        for handle in self.handles:
            handle.close()


def next_batch(iterator):
    """A hashable form of the next batch, or None at the end of an epoch."""
    try:
        word_ids, file_ids, mask = next(iterator)
    except StopIteration:
        return None
    result = []
    for j in range(word_ids.shape[1]):
        n = int(mask[:, j].sum())
        require(list(mask[:, j]) == [1] * n + [0] * (len(mask) - n),
                'mask is not a prefix')
        result.append((tuple(int(x) for x in word_ids[:n, j]),
                       tuple(int(x) for x in file_ids[:n, j])))
    return tuple(result)


def read_epoch(iterator, limit=10000):
    batches = []
    while True:
        batch = next_batch(iterator)
        if batch is None:
            return batches
        batches.append(batch)
        require(len(batches) < limit, 'the epoch does not end')


def ids_of(vocab, model, words, map_oos):
    result = []
    for w in words:
        if w not in model.class_of and (map_oos or w not in model.oos):
            w = '<unk>'
        result.append(int(vocab.word_to_id[w]))
    return tuple(result)


def pieces(ids, limit):
    step = limit or len(ids)
    return [ids[i:i + step] for i in range(0, len(ids), step)
            if len(ids[i:i + step]) >= 2]


def expected_lines(case, vocab, model):
    """Per file, the list of lines, each a tuple of its pieces."""
    result = []
    for lines in case['files']:
        result.append([
            tuple(pieces(ids_of(vocab, model, gen.utterance(l),
                                case['map_oos']), case['limit']))
            if l else () for l in lines])
    return result


def check_epoch(batches, case, lines, what):
    """An epoch delivers each line's pieces consecutively, each line at most
    once unless more lines are sampled than there are."""
    for i, batch in enumerate(batches):
        require(len(batch) <= case['batch_size'], '{}: batch too large', what)
        if i < len(batches) - 1:
            require(len(batch) == case['batch_size'],
                    '{}: batch {} is not full', what, i)
    delivered = [s for batch in batches for s in batch]
    for index, file_lines in enumerate(lines):
        got = [ids for ids, files in delivered if files[0] == index]
        for ids, files in delivered:
            require(len(set(files)) == 1, '{}: mixed file ids', what)
        fraction = case['sampling'][index] \
            if index < len(case['sampling']) else 1.0
        sample = round(fraction * len(file_lines))
        count = {}
        for line in file_lines:
            for piece in line:
                count[piece] = count.get(piece, 0) + 1
        seen = {}
        for piece in got:
            seen[piece] = seen.get(piece, 0) + 1
        for piece in seen:
            require(piece in count, '{}: delivered {}, which is no line of '
                    'file {}', what, piece, index)
        if sample == len(file_lines):
            require(seen == count, '{}: file {} delivered {} instead of {}',
                    what, index, seen, count)
        elif sample < len(file_lines):
            for piece in seen:
                require(seen[piece] <= count[piece],
                        '{}: a line of file {} was delivered {} times', what,
                        index, seen[piece])
        if all(len(line) == 1 for line in file_lines) and file_lines:
            require(len(got) == sample,
                    '{}: {} lines of file {} sampled instead of {}', what,
                    len(got), index, sample)


def run_epochs(case, ctx):
    vocab = gen.build_vocab(case['vocab'])
    model = gen.VocabModel(case['vocab'])
    lines = expected_lines(case, vocab, model)
    with scratch_dir() as d:
        paths = write_files(case['files'], case, d)
        with sut('shuffled reading'):
            reader = Reader(paths, case, vocab)
            iterator = reader.iterator
            orders = []
            for epoch in range(case['epochs']):
                announced = None
                if case['ask_length']:
                    announced = len(iterator)
                batches = read_epoch(iterator)
                if announced is not None:
                    require(announced == len(batches),
                            'epoch {}: announced {} batches, delivered {}',
                            epoch, announced, len(batches))
                check_epoch(batches, case, lines, 'epoch {}'.format(epoch))
                orders.append(batches)
            reader.close()
    total = sum(1 for f in lines for l in f if l)
    ctx.label('sampled', any(abs(x - 1) > 1e-9 for x in case['sampling']))
    ctx.label('split', any(len(l) > 1 for f in lines for l in f))
    ctx.label('several files', len(lines) > 1)
    ctx.label('compressed file', bool(case.get('gz', 0) & 1))
    ctx.mark(total > case['batch_size'])


def run_order(case, ctx):
    """Lines really are shuffled: with many different lines the order of two
    epochs and the file order all differ (probability of a false alarm below
    1 / 20!)."""
    vocab = gen.build_vocab(case['vocab'])
    word = [w for w in case['vocab']['words'] if w not in gen.SPECIALS][0]
    files = [[[word] * (1 + i + 20 * f) for i in range(20)]
             for f in range(case['num_files'])]
    sub = dict(case, files=files, limit=None, sampling=[], map_oos=True,
               style=0, final_newline=True)
    with scratch_dir() as d:
        paths = write_files(files, sub, d)
        with sut('shuffled reading'):
            reader = Reader(paths, sub, vocab)
            epochs = [[len(s) for b in read_epoch(reader.iterator)
                       for s, _ in b] for _ in range(3)]
            reader.close()
    n = 20 * case['num_files']
    for epoch in epochs:
        require(sorted(epoch) == list(range(3, 3 + n)),
                'lines lost or repeated: {}', epoch)
        require(epoch != sorted(epoch), 'lines were not shuffled')
    require(epochs[0] != epochs[1] and epochs[1] != epochs[2],
            'the order is the same in different epochs')
    if case['num_files'] > 1:
        for epoch in epochs:
            first = [x < 23 for x in epoch]
            require(first != sorted(first) and first != sorted(first)[::-1],
                    'files were not mixed')
    ctx.mark()


def run_resume(case, ctx):
    """Model: a list of the batches of the current epoch from an uninterrupted
    reader.  Operations read, save, restore into the same or a new reader."""
    vocab = gen.build_vocab(case['vocab'])
    model = gen.VocabModel(case['vocab'])
    lines = expected_lines(case, vocab, model)
    fractions = case['sampling'] + [1.0] * len(lines)
    if sum(round(x * len(f)) for x, f in zip(fractions, lines)) == 0:
        raise Skip()    # nothing to read
    with scratch_dir() as d:
        paths = write_files(case['files'], case, d)
        state_path = os.path.join(d, 'state.h5')
        readers = []
        with sut('shuffled reading with checkpoints'):
            reader = Reader(paths, case, vocab)
            readers.append(reader)
            iterator = reader.iterator
            # saved: the batches that followed the saved position
            current = []          # batches read since the epoch started
            saved = None          # number of batches read at the checkpoint
            future = None         # what has to follow the checkpoint
            pending = None        # batches that are still expected, in order
            restores = 0
            position_kinds = set()
            for op in case['ops']:
                kind = op['op']
                if kind == 'read':
                    for _ in range(op['n']):
                        batch = next_batch(iterator)
                        if pending is not None:
                            require(batch == pending[0],
                                    'after restoring, batch {} was delivered '
                                    'instead of {}', batch, pending[0])
                            pending = pending[1:] or None
                        if batch is None:
                            check_epoch(current, case, lines, 'epoch')
                            current = []
                            # the order of the next epoch is random
                            pending = None
                        else:
                            current = current + [batch]
                elif kind == 'save':
                    if os.path.exists(state_path) and op['fresh']:
                        os.remove(state_path)
                    with h5py.File(state_path, 'a', driver='core',
                                   backing_store=True) as f:
                        iterator.get_state(f)
                    saved = list(current)
                    # What follows, according to a reader that simply goes on:
                    # finish the epoch in this reader, then come back.
                    rest = []
                    if op['lookahead']:
                        rest = [next_batch(iterator)]
                        while rest[-1] is not None:
                            rest.append(next_batch(iterator))
                        future = rest
                        # The reader is now in the next epoch: go on from the
                        # saved state with a restore, in the way asked.
                        kind = 'restore'
                        op = dict(op, into=op['into'])
                    else:
                        future = None
                if kind == 'restore' and saved is not None:
                    if op['into'] == 'new':
                        reader = Reader(paths, case, vocab)
                        readers.append(reader)
                        iterator = reader.iterator
                        if op['advance']:
                            for _ in range(op['advance']):
                                next_batch(iterator)
                    elif op['advance']:
                        for _ in range(op['advance']):
                            next_batch(iterator)
                    with h5py.File(state_path, 'r') as f:
                        iterator.set_state(f)
                    current = list(saved)
                    pending = list(future) if future is not None else None
                    restores += 1
                    position_kinds.add(
                        'restore at start' if not saved else
                        'restore in the middle' if
                        (future or [None])[0] is not None else
                        'restore at end')
            # Finish the epoch.
            for _ in range(10000):
                batch = next_batch(iterator)
                if pending is not None:
                    require(batch == pending[0], 'after restoring, batch {} '
                            'was delivered instead of {}', batch, pending[0])
                    pending = pending[1:] or None
                if batch is None:
                    break
                current = current + [batch]
            check_epoch(current, case, lines, 'last epoch')
            batches = read_epoch(iterator)
            check_epoch(batches, case, lines, 'the epoch after it')
            for reader in readers:
                reader.close()
    for name in position_kinds:
        ctx.label(name)
    ctx.label('split', any(len(l) > 1 for f in lines for l in f))
    ctx.mark(restores > 0 and sum(1 for f in lines for l in f if l) >
             case['batch_size'])


def run_missing(case, ctx):
    from theanolm.backend import IncompatibleStateError
    vocab = gen.build_vocab(case['vocab'])
    with scratch_dir() as d:
        paths = write_files(case['files'], case, d)
        reader = Reader(paths, case, vocab)
        path = os.path.join(d, 's.h5')
        with h5py.File(path, 'w') as f:
            reader.iterator.get_state(f)
            if case['remove'] == 'group':
                del f['iterator']
            elif case['remove'] == 'order':
                del f['iterator/order']
            else:
                del f['iterator'].attrs['next_line']

        def restore():
            with h5py.File(path, 'r') as f:
                reader.iterator.set_state(f)
        expect_raises('restoring a state without ' + case['remove'],
                      IncompatibleStateError, restore)
        reader.close()
    ctx.mark()


@st.composite
def corpora(draw, full=False):
    spec = draw(gen.vocab_specs(max_words=5, counts=False))
    known = spec['words'] + spec['oos']
    num_files = draw(st.integers(1, 3))
    files = [draw(gen.corpus_lines(known, max_lines=8, max_tokens=7)) or
             [[known[0]]] for _ in range(num_files)]
    # an empty file cannot be mapped to memory; a last line without a newline
    # has to have content
    sampling = [] if full else draw(st.one_of(
        st.just([]),
        st.lists(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0, 1.0, 1.5, 2.0]),
                 max_size=num_files)))
    for lines in files:
        if not lines[-1]:
            lines[-1] = [known[0]]
    large = draw(st.integers(0, 59))
    if large == 59:
        # more files than a byte can count
        files = ([f[-2:] for f in files] * 150)[:150]
    elif large == 58:
        # more and longer lines
        files[0] = [l * (40 if i == 3 and not {'<s>', '</s>'} & set(l) else 1)
                    for i, l in enumerate(files[0])] * 50
    return {
        'vocab': spec, 'files': files, 'sampling': sampling,
        'batch_size': draw(st.one_of(st.integers(1, 4),
                                     st.sampled_from([1, 3, 150]))),
        'limit': draw(st.one_of(st.none(), st.integers(2, 6),
                                st.sampled_from([4, 130]))),
        'map_oos': draw(st.booleans()),
        'style': draw(st.integers(0, 7)),
        'final_newline': draw(st.booleans()),
        'gz': draw(st.sampled_from([0, 0, 0, 1, 2, 5, 7])),
    }


@st.composite
def epoch_cases(draw):
    case = draw(corpora())
    case['epochs'] = draw(st.integers(1, 3))
    case['ask_length'] = draw(st.booleans())
    return case


ops = st.lists(st.one_of(
    st.fixed_dictionaries({'op': st.just('read'), 'n': st.integers(1, 5)}),
    st.fixed_dictionaries({'op': st.just('save'), 'fresh': st.booleans(),
                           'lookahead': st.sampled_from([True, True, False]),
                           'into': st.sampled_from(['same', 'new']),
                           'advance': st.integers(0, 4)}),
    st.fixed_dictionaries({'op': st.just('restore'),
                           'into': st.sampled_from(['same', 'new']),
                           'advance': st.integers(0, 4)})),
    min_size=2, max_size=8)


@st.composite
def resume_cases(draw):
    case = draw(corpora())
    case['ops'] = draw(ops)
    return case


@st.composite
def missing_cases(draw):
    case = draw(corpora(full=True))
    case['remove'] = draw(st.sampled_from(['group', 'order', 'position']))
    return case


PARTS = [
    Part('epochs', epoch_cases(), run_epochs, quick=1200, thorough=25000,
         rule='1-3 files of up to 8 lines, sampling fractions 0-2, batch size '
              '1-4, length limit 2-6 or none, 1-3 epochs; non-trivial: more '
              'lines than fit in one batch'),
    Part('order',
         st.fixed_dictionaries({'vocab': gen.vocab_specs(max_words=2,
                                                         counts=False),
                                'num_files': st.integers(1, 2),
                                'batch_size': st.integers(1, 7)}),
         run_order, quick=40, thorough=300,
         rule='20 or 40 lines of different lengths; all non-trivial'),
    Part('resume', resume_cases(), run_resume, quick=1500, thorough=30000,
         rule='operation sequences (read n batches, save the position, '
              'restore it into the same or a new, possibly advanced reader); '
              'non-trivial: at least one restore and more than one batch'),
    Part('incompatible', missing_cases(), run_missing, quick=60, thorough=300,
         rule='a saved position with one element removed; all non-trivial'),
]
