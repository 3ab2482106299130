"""C12: the score command reports every word and utterance correctly.

Oracle: the NumPy network reference and an independent model of subword merging
and of the report.  The command function is run in this process on generated
model and text files."""

import argparse
import functools
import gzip
import math
import os
import re

import h5py
import numpy as np
from hypothesis import strategies as st

from vh import gen, nets
from vh.core import (Part, Skip, close, pipes, require, scratch_dir, sut)
from checks.c11 import Reference, prepare, total


def merge(words, logprobs, marking):
    """Words as lists of pieces, and their log probabilities from the second
    word on."""
    if marking is None:
        return [[w] for w in words], list(logprobs)
    groups = []           # (pieces, list of log probabilities)
    if marking == 'word-boundary':
        segments = [[]]
        for word, lp in zip(words[1:], logprobs):
            segments[-1].append((word, lp))
            if word == '<w>':
                segments.append([])
        for segment in segments:
            pieces = [w for w, _ in segment if w != '<w>']
            if pieces:
                if '<unk>' in pieces:
                    pieces = ['<unk>']
                groups.append((pieces, [lp for _, lp in segment]))
    else:
        for word, lp in zip(words[1:], logprobs):
            if groups and groups[-1][0][-1].endswith('+') and \
                    word.startswith('+'):
                groups[-1][0].append(word)
                groups[-1][1].append(lp)
            else:
                groups.append(([word], [lp]))
    merged = [None if None in lps else sum(lps) for _, lps in groups]
    return [[words[0]]] + [pieces for pieces, _ in groups], merged


def run_command(args_list):
    from theanolm.commands import score
    parser = argparse.ArgumentParser()
    score.add_arguments(parser)
    args = parser.parse_args(args_list)
    try:
        score.score(args)
    finally:
        args.output_file.close()
        args.input_file.close()


def run(case, ctx):
    vocab, _ = prepare(case)
    lines = case['lines']
    sentences = [gen.utterance(l) for l in lines if l]
    text = gen.render(lines, case['style'])
    marking = case['subwords']
    with scratch_dir() as d:
        model_path = os.path.join(d, 'model.h5')
        text_path = os.path.join(d, 'text.txt' + ('.gz' if case['gzip_in']
                                                  else ''))
        out_path = os.path.join(d, 'out.txt' + ('.gz' if case['gzip_out']
                                                else ''))
        opener = gzip.open if case['gzip_in'] else open
        with opener(text_path, 'wb') as f:
            f.write(text.encode('utf-8'))
        m = nets.Model(case['arch'], vocab)
        with h5py.File(model_path, 'w') as state:
            vocab.get_state(state)
            m.network.get_state(state)
        reference = Reference(case['arch'], case['vocab'], vocab, m.params,
                              case['shortlist'], case['exclude_unk'])
        words_of = functools.lru_cache(None)(reference.words)
        word_scores = [words_of(tuple(s)) for s in sentences]
        merged = [merge(s, w, marking)
                  for s, w in zip(sentences, word_scores)]
        sums = [total(w) for _, w in merged]
        if case['output'] != 'utterance-scores' and \
                any(n == 0 for _, n in sums):
            raise Skip()    # a sentence in which nothing is predicted
        pipe = case['pipe']
        arguments = [model_path, '-' if pipe else text_path,
                     '--output', case['output']]
        if not pipe:
            arguments += ['--output-file', out_path]
        if case['log_base'] is not None:
            arguments += ['--log-base', str(case['log_base'])]
        if case['exclude_unk']:
            arguments += ['--exclude-unk']
        if case['shortlist']:
            arguments += ['--shortlist']
        if marking is not None:
            arguments += ['--subwords', marking]
        with sut('theanolm score'), pipes(text.encode('utf-8')) as piped:
            run_command(arguments)
        opener = gzip.open if case['gzip_out'] else open
        if pipe:
            output = piped.getvalue()
        else:
            with opener(out_path, 'rb') as f:
                output = f.read()
        output = output.decode('utf-8')
    scale = 1.0 if case['log_base'] is None else math.log(case['log_base'])
    rows = output.split('\n')
    require(rows.pop() == '', 'the last line of the output is not complete')

    def number(row, prefix):
        require(row.startswith(prefix), 'line {!r} instead of {!r}', row,
                prefix)
        try:
            return float(row[len(prefix):])
        except ValueError:
            require(False, 'no number in line {!r}', row)

    if case['output'] == 'utterance-scores':
        require(len(rows) == len(sentences),
                '{} scores for {} utterances', len(rows), len(sentences))
        for row, w in zip(rows, word_scores):
            require(close(number(row, ''), total(w)[0] / scale, 1e-6, 1e-6),
                    'utterance score {} instead of {!r}', row,
                    total(w)[0] / scale)
    else:
        if case['output'] == 'word-scores':
            for i, (words, logprobs) in enumerate(merged):
                require(rows.pop(0) == '# Sentence {}'.format(i + 1),
                        'sentence {} is missing', i + 1)
                names = [' '.join(w) for w in words]
                for t, lp in enumerate(logprobs):
                    history = names[max(0, t - 2):t + 1]
                    if t - 2 > 0:
                        history = ['...'] + history
                    context = '{} | {}'.format(names[t + 1],
                                               ' '.join(history))
                    info = ' '.join('{}:{}'.format(p, {
                        'shortlist': 'shortlist', 'oos': 'OOS',
                        'unk': 'shortlist' if p == '<unk>' else 'OOV'}[
                            reference.kind(p)]) for p in words[t + 1])
                    row = rows.pop(0)
                    end = '  [' + info + ']'
                    require(row.endswith(end), 'line {!r} does not end in {!r}',
                            row, end)
                    row = row[:-len(end)]
                    if lp is None:
                        require(row == 'p({}) is not predicted'
                                .format(context), 'line {!r} for {}', row,
                                context)
                    else:
                        value = number(row, 'log(p({})) = '.format(context))
                        require(close(value, lp / scale, 1e-6, 1e-6),
                                'log probability {!r} instead of {!r} for {}',
                                value, lp / scale, context)
                value = number(rows.pop(0), 'Sentence perplexity: ')
                s, n = sums[i]
                require(close(value, math.exp(-s / n), 1e-5, 0),
                        'perplexity of sentence {} is {!r} instead of {!r}',
                        i + 1, value, math.exp(-s / n))
                require(rows.pop(0) == '', 'no empty line after a sentence')
        all_scores = [x for _, w in merged for x in w]
        expected = [
            ('Number of sentences: ', len(sentences)),
            ('Number of words: ', sum(len(w) for w, _ in merged)),
            ('Number of tokens: ', sum(len(s) for s in sentences)),
            ('Number of predicted probabilities: ',
             sum(n for _, n in sums)),
            ('Number of excluded (OOV) words: ',
             sum(x is None for x in all_scores)),
            ('Number of zero probabilities: ',
             sum(x == -math.inf for x in all_scores))]
        if sentences:
            entropy = -sum(s for s, _ in sums) / sum(n for _, n in sums)
            expected.append(('Cross entropy (base e): ', entropy))
            if case['log_base'] is not None:
                expected.append(('Cross entropy (base {}): '.format(
                    case['log_base']), entropy / scale))
            expected.append(('Perplexity: ', math.exp(entropy)))
        require(len(rows) == len(expected), 'the summary is {}', rows)
        for row, (prefix, value) in zip(rows, expected):
            got = number(row, prefix)
            require(close(got, value, 1e-5, 1e-6), '{!r}: expected {!r}', row,
                    value)
    ctx.label(case['output'])
    ctx.label('subwords ' + str(marking))
    ctx.label('merged', any(len(p) > 1 for w, _ in merged for p in w))
    ctx.label('zero probability', any(x == -math.inf for _, w in merged
                                      for x in w))
    ctx.label('excluded', any(x is None for _, w in merged for x in w))
    ctx.label('gzip', not pipe and (case['gzip_in'] or case['gzip_out']))
    ctx.label('standard input and output', pipe)
    ctx.label('many or long sentences',
              len(sentences) > 30 or any(len(s) > 30 for s in sentences))
    ctx.mark(len(sentences) > 1 and
             (marking is None or any(len(p) > 1 for w, _ in merged
                                     for p in w)))


def run_merge(case, ctx):
    """Subword merging alone, on arbitrary scores."""
    from theanolm.commands.score import _merge_subwords
    words = ['<s>'] + case['words']
    logprobs = case['scores'][:len(case['words'])]
    logprobs = [None if x is None else float(x) for x in logprobs]
    with sut('merging of subwords'):
        got_words, got_scores = _merge_subwords(list(words), list(logprobs),
                                                case['marking'])
    want_words, want_scores = merge(words, logprobs, case['marking'])
    got_words = [w if isinstance(w, list) else [w] for w in got_words]
    require(got_words == want_words, '{} was merged to {} instead of {}',
            words, got_words, want_words)
    require(len(got_scores) == len(want_scores) and
            all((a is None) == (b is None) and
                (a is None or close(a, b, 1e-9, 1e-9))
                for a, b in zip(got_scores, want_scores)),
            '{} with {} was merged to {} instead of {}', words, logprobs,
            got_scores, want_scores)
    ctx.mark(len(got_words) < len(words))


PIECES = ['a', 'b', 'a+', '+b', '+b+', 'c+', '+c', '<w>']


@st.composite
def cases(draw):
    marking = draw(st.sampled_from([None, 'word-boundary', 'prefix-affix']))
    if marking is None:
        vocab = draw(gen.vocab_specs(min_words=1, max_words=6))
    else:
        vocab = draw(gen.vocab_specs(min_words=1, max_words=3, plain=True,
                                     allow_oos=True))
        pieces = draw(st.lists(st.sampled_from(PIECES), unique=True,
                               min_size=3))
        if marking == 'word-boundary' and '<w>' not in pieces:
            pieces.append('<w>')
        pieces = [p for p in pieces if p not in vocab['words'] and
                  p not in vocab['oos']]
        vocab['words'] = vocab['words'] + pieces
        if vocab['classes'] is not None:
            vocab['classes'] += [draw(st.integers(0, 4)) for _ in pieces]
        if vocab['weights'] is not None:
            vocab['weights'] += [0.5] * len(pieces)
        if vocab['counts'] is not None:
            n = len(vocab['words']) - len(pieces)
            vocab['counts'] = vocab['counts'][:n] + [3] * len(pieces) + \
                vocab['counts'][n:]
    exclude = draw(st.booleans())
    if vocab['classes'] is not None and '<unk>' in vocab['words']:
        vocab['classes'][vocab['words'].index('<unk>')] = 50
    known = vocab['words'] + vocab['oos']
    if draw(st.integers(0, 2)) == 0:
        zero = draw(gen.with_zero_membership(vocab))
        known = known + [zero] * (zero is not None)
    if marking == 'word-boundary':
        known = known + ['<w>', '<w>']
    if marking == 'prefix-affix':
        known = known + [p for p in known if p.endswith('+')] * 2 + \
            [p for p in known if p.startswith('+')] * 2
    lines = draw(gen.more_lines(draw(gen.corpus_lines(known, max_lines=4,
                                                      max_tokens=8))))
    arch = nets.simple_arch(draw(st.integers(0, 1000)),
                            draw(st.sampled_from(['lstm', 'fc', 'gru'])), 2)
    return {'vocab': vocab, 'arch': arch, 'exclude_unk': exclude,
            'shortlist': draw(st.booleans()), 'lines': lines,
            'style': draw(st.integers(0, 7)), 'subwords': marking,
            'output': draw(st.sampled_from(
                ['perplexity', 'word-scores', 'word-scores',
                 'utterance-scores'])),
            'log_base': draw(st.sampled_from([None, 2, 10])),
            'gzip_in': draw(st.booleans()), 'gzip_out': draw(st.booleans()),
            'pipe': draw(st.sampled_from([False, False, True]))}


merge_cases = st.fixed_dictionaries({
    'words': st.lists(st.sampled_from(PIECES + ['<w>', '<w>', '<unk>', '</s>']),
                      max_size=12),
    'scores': st.lists(st.one_of(st.none(), st.integers(-50, 0),
                                 st.integers(-50, 0)),
                       min_size=12, max_size=12),
    'marking': st.sampled_from([None, 'word-boundary', 'prefix-affix'])})

PARTS = [
    Part('command', cases(), run, 400, 6000, workers=7,
         rule='at least two sentences, with merged words if a subword marking '
              'is used',
         assumptions=['Theano graphs are evaluated by its NumPy backend in '
                      'double precision',
                      'every sentence has at least one predicted word']),
    Part('merge', merge_cases, run_merge, 1500, 20000,
         rule='a word made of several pieces'),
]
