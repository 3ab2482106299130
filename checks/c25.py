"""C25: word classes written by wctool form a valid vocabulary.

The command is run on generated text; what it wrote is parsed here.

Oracle: the counts of the words in the text and the class bigram model
computed from scratch; the vocabulary that the language model trainer reads."""

import contextlib
import gc
import gzip
import io
import os
import sys
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from vh import gen, wordclasses as wc
from vh.core import Part, Skip, close, require, scratch_dir, sut


def command(arguments):
    """Runs wctool in this process."""
    from wordclasses.wctool import main
    output = io.StringIO()
    with mock.patch.object(sys, 'argv', ['wctool'] + arguments), \
            contextlib.redirect_stdout(output), sut('wctool'):
        main()
    gc.collect()       # the output file is not closed explicitly


def parse(path, fmt):
    result = {}
    with (gzip.open if path.endswith('.gz') else open)(path, 'rb') as f:
        text = f.read().decode('utf-8')
    require(text.endswith('\n'), 'the file does not end in a newline')
    for line in text[:-1].split('\n'):
        fields = line.split(' ')
        if fmt == 'classes':
            require(len(fields) == 2, 'line {!r} in classes format', line)
            word, name, prob = fields[0], int(fields[1]), None
        else:
            require(len(fields) == 3, 'line {!r} in SRILM format', line)
            name, prob, word = fields[0], float(fields[1]), fields[2]
        require(word not in result, 'word {!r} is written twice', word)
        result[word] = name, prob
    return result


def run(case, ctx):
    lines = case['lines']
    if not any(lines):
        raise Skip()
    # in the order in which they will be read
    parts = [lines[i::case['files']] for i in range(case['files'])]
    lines = [x for part in parts for x in part]
    fmt = case['format']
    with scratch_dir() as directory:
        paths = []
        for i in range(case['files']):
            part = parts[i]
            path = os.path.join(directory, 'text%d' % i)
            data = gen.render(part, case['style']).encode()
            if case['gzip']:
                path += '.gz'
                data = gzip.compress(data)
            with open(path, 'wb') as f:
                f.write(data)
            paths.append(path)
        arguments = ['--log-level', 'warn', '--log-interval',
                     str(case['interval']), '--method', case['method'],
                     '--output-frequency', str(case['frequency'])]
        partition = case['partition']
        vocabulary = []
        if partition['kind'] == 'corpus':
            vocabulary = ['--num-classes', str(partition['num_classes'])]
        else:
            path = os.path.join(directory, 'vocabulary')
            with open(path, 'w', encoding='utf-8') as f:
                for w, c in zip(partition['words'], partition['ids']):
                    f.write('{} {}\n'.format(w, c))
            vocabulary = ['--vocabulary', path, '--vocabulary-format',
                          'classes']
        suffix = '.gz' if case['gzip_out'] else ''
        output = os.path.join(directory, 'output' + suffix)
        command(arguments + vocabulary + ['--training-set'] + paths +
                ['--output-file', output, '--output-format', fmt])
        written = parse(output, fmt)
        with sut('preparing the classes'):
            initial = wc.vocabulary(partition, lines)

        words = [str(w) for w in initial.id_to_word]
        require(set(written) == set(words), 'the words written are {} instead '
                'of {}', sorted(written), sorted(words))
        model = wc.Model(lines, words)
        class_of = {w: written[w][0] for w in words}
        if fmt == 'srilm-classes':
            for w in words:
                want = model.probability(w, class_of)
                require(close(written[w][1], want, 1e-6, 1e-12),
                        'probability of {!r} is {} instead of {}', w,
                        written[w][1], want)
        start = {w: int(initial.word_id_to_class_id[i])
                 for i, w in enumerate(words)}
        require(len(set(class_of.values())) == len(set(start.values())),
                '{} classes are written instead of {}',
                len(set(class_of.values())), len(set(start.values())))
        # words that were never moved
        for w in words:
            if w.startswith('<') and w.endswith('>'):
                for v in words:
                    if v.startswith('<') and v.endswith('>'):
                        require((class_of[v] == class_of[w]) ==
                                (start[v] == start[w]), 'class of special '
                                'token {} or {} has changed', v, w)
        tolerance = 1e-9 * sum(model.unigrams.values())
        before = model.log_likelihood(start)
        after = model.log_likelihood(class_of)
        require(after >= before - tolerance, 'the log likelihood decreases '
                'from {} to {}', before, after)
        # No word could still be moved for the better.  The classes of only
        # special tokens, in the end, are not targets.
        special = {class_of[w] for w in words
                   if w.startswith('<') and
                   start[w] >= initial.num_normal_classes}
        for w in words:
            if w.startswith('<') and w.endswith('>') or \
                    sum(c == class_of[w] for c in class_of.values()) < 2:
                continue
            for c in set(class_of.values()) - special:
                gain = model.log_likelihood(dict(class_of, **{w: c})) - after
                require(gain <= tolerance, 'moving {!r} to class {} would '
                        'still increase the log likelihood by {}', w, c, gain)

        read_back(output, fmt, words, class_of, written)

        if case['again'] and partition['kind'] == 'corpus':
            # The classes are the initial classes of another run.
            second = os.path.join(directory, 'second' + suffix)
            other = case['second_format']
            command(arguments + ['--vocabulary', output,
                                 '--vocabulary-format', fmt,
                                 '--training-set'] + paths[::-1] +
                    ['--output-file', second, '--output-format', other])
            repeated = parse(second, other)
            require(set(repeated) == set(words), 'words after another run are '
                    '{}', sorted(repeated))
            again = model.log_likelihood({w: repeated[w][0] for w in words})
            require(abs(again - after) <= tolerance, 'optimizing the classes '
                    'again changes the log likelihood from {} to {}', after,
                    again)
            read_back(second, other, words,
                      {w: repeated[w][0] for w in words}, repeated)
            ctx.label('optimized again')
    moved = sum(1 for v in words for w in words
                if (start[v] == start[w]) != (class_of[v] == class_of[w]))
    ctx.label(fmt)
    ctx.label(case['method'])
    ctx.label('compressed', case['gzip'])
    ctx.label('compressed output', case['gzip_out'])
    ctx.label('vocabulary given', partition['kind'] != 'corpus')
    ctx.label('words that do not occur',
              any(w not in model.unigrams for w in words))
    ctx.mark(moved > 0)


def read_back(path, fmt, words, class_of, written):
    from theanolm.backend import TextFileType
    from theanolm.vocabulary import Vocabulary
    with sut('reading the classes'), TextFileType('r')(path) as f:
        vocab = Vocabulary.from_file(f, fmt)
    require(sorted(vocab.words()) == sorted(words), 'the words read back are '
            '{}', sorted(vocab.words()))
    ids = {w: int(vocab.word_id_to_class_id[vocab.word_to_id[w]])
           for w in words}
    for v in words:
        for w in words:
            require((ids[v] == ids[w]) == (class_of[v] == class_of[w]),
                    '{!r} and {!r} are written in classes {} and {}, read in '
                    '{} and {}', v, w, class_of[v], class_of[w], ids[v],
                    ids[w])
    for c in set(ids.values()):
        members = [w for w in words if ids[w] == c]
        probs = [float(vocab.get_word_prob(vocab.word_to_id[w]))
                 for w in members]
        require(close(sum(probs), 1.0), 'probabilities in the class {} sum to '
                '{}', members, sum(probs))
        if fmt == 'srilm-classes' and sum(written[w][1] for w in members) > 0:
            for w, p in zip(members, probs):
                require(close(p, written[w][1], 1e-6, 1e-9), 'probability of '
                        '{!r} is written as {}, read as {}', w, written[w][1],
                        p)


@st.composite
def cases(draw, method):
    words = wc.WORDS
    if draw(st.integers(0, 3)) == 0:
        words = draw(st.lists(gen.odd_words(), min_size=2, max_size=7,
                              unique=True))
    return {'lines': draw(wc.corpora(words=words)),
            'partition': draw(wc.partitions(words=words)),
            'files': draw(st.integers(1, 3)), 'gzip': draw(st.booleans()),
            'gzip_out': draw(st.sampled_from([False, False, True])),
            'style': draw(st.integers(0, 7)),
            'interval': draw(st.sampled_from([0, 1, 1000])),
            'frequency': draw(st.sampled_from([0, 1, 1, 2, 5])),
            'format': draw(st.sampled_from(['classes', 'srilm-classes'])),
            'second_format': draw(st.sampled_from(['classes',
                                                   'srilm-classes'])),
            'again': draw(st.booleans()),
            'method': method}


A = ['Theano graphs are evaluated by its NumPy backend',
     'words do not contain white space']
PARTS = [
    Part('numpy', cases('bigram-numpy'), run, 800, 20000, workers=4,
         rule='at least one word ends in another class', assumptions=A),
    Part('theano', cases('bigram-theano'), run, 150, 3000, workers=3,
         rule='at least one word ends in another class', assumptions=A),
]
