"""C11: text scores are the exact sums of the word log probabilities.

Oracle: the NumPy network reference, the vocabulary model, and the documented
rules for unknown, out-of-shortlist and never-seen words."""

import functools
import io
import math

import numpy as np
from hypothesis import strategies as st

from vh import gen, nets
from vh.core import Part, Skip, close, require, sut


class Reference:
    """Log probabilities of the words of a sentence."""

    def __init__(self, spec, vocab_spec, vocab, params, shortlist,
                 exclude_unk, network_excludes=None):
        self.model = gen.VocabModel(vocab_spec) \
            if isinstance(vocab_spec, dict) else vocab_spec
        self.network_excludes = exclude_unk if network_excludes is None \
            else network_excludes
        self.spec = spec
        self.vocab = vocab
        self.params = params
        self.exclude_unk = exclude_unk
        self.shortlist = shortlist and self.model.unigram is not None
        self.class_of = {w: int(vocab.word_id_to_class_id[vocab.word_to_id[w]])
                         for w in self.model.shortlist}

    def kind(self, word):
        if word in self.model.class_of:
            return 'unk' if word == '<unk>' else 'shortlist'
        return 'oos' if word in self.model.oos else 'unk'

    def words(self, words):
        """List of log probabilities of words[1:]; None when excluded.
        ``-inf`` when the membership probability is zero."""
        stand_in = [self.model.shortlist_word(w) for w in words]
        ids = [int(self.vocab.word_to_id[w]) for w in stand_in]
        classes = [self.class_of[w] for w in stand_in]
        unk_class = self.class_of['<unk>'] if self.network_excludes else None
        probs = nets.forward(self.spec, self.params, ids[:-1], classes[:-1],
                             self.vocab.num_classes(), unk_class)['out']
        result = []
        for t, word in enumerate(words[1:]):
            kind = self.kind(word)
            excluded = False
            factor = 1.0
            if self.shortlist:
                excluded = kind == 'unk' or (kind == 'oos' and
                                             self.exclude_unk)
                if kind == 'oos':
                    factor = self.model.oos_prob(word)
            elif self.exclude_unk:
                excluded = kind != 'shortlist'
            if excluded:
                result.append(None)
                continue
            p = probs[t, classes[t + 1]] * factor
            m = self.model.membership[stand_in[t + 1]]
            result.append(math.log(p) + math.log(m) if m > 0 else -math.inf)
        return result


def total(logprobs):
    kept = [x for x in logprobs if x is not None and x != -math.inf]
    return sum(kept), len(kept)


def prepare(case):
    vocab = gen.build_vocab(case['vocab'])
    model = gen.VocabModel(case['vocab'])
    if case['exclude_unk'] and \
            len(model.classes[model.class_of['<unk>']]) > 1:
        raise Skip()   # documented: <unk> has to have its own class
    if vocab.num_classes() < 2:
        raise Skip()
    return vocab, model


def compare(got, want, what):
    require(len(got) == len(want), '{}: {} scores instead of {}', what,
            len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        require((g is None) == (w is None),
                '{}: word {} has score {} instead of {}', what, i + 1, g, w)
        if w is not None:
            require(close(g, w, 1e-6, 1e-6),
                    '{}: word {} has score {!r} instead of {!r}', what, i + 1,
                    g, w)


def run(case, ctx):
    from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
    from theanolm.scoring import TextScorer
    vocab, vmodel = prepare(case)
    lines = [l for l in case['lines']]
    sentences = [gen.utterance(l) for l in lines if l]
    text = gen.render(lines, case['style'])
    with sut('text scorer'):
        m = nets.Model(case['arch'], vocab, exclude_unk=case['exclude_unk'])
        scorer = TextScorer(m.network, case['shortlist'], case['exclude_unk'])
    reference = Reference(case['arch'], case['vocab'], vocab, m.params,
                          case['shortlist'], case['exclude_unk'])
    words_of = functools.lru_cache(None)(reference.words)
    want = [words_of(tuple(s)) for s in sentences]
    with sut('text scorer'):
        # Mini-batches
        iterator = ScoringBatchIterator(io.StringIO(text), vocab,
                                        batch_size=case['batch_size'],
                                        max_sequence_length=None,
                                        map_oos_to_unk=False)
        got = []
        for word_ids, words, mask in iterator:
            class_ids, probs = vocab.get_class_memberships(word_ids)
            got.extend(scorer.score_batch(word_ids, class_ids, probs, mask))
        require(len(got) == len(want), '{} sentences scored instead of {}',
                len(got), len(want))
        for i in range(len(want)):
            compare(got[i], want[i], 'sentence {}'.format(i))
        # Perplexity
        sums = [total(w) for w in want]
        logprob = sum(s for s, _ in sums)
        count = sum(n for _, n in sums)
        iterator = LinearBatchIterator(
            io.StringIO(text), vocab, batch_size=case['batch_size'],
            max_sequence_length=None, map_oos_to_unk=False)
        if count > 0:
            perplexity = scorer.compute_perplexity(iterator)
            require(close(perplexity, math.exp(-logprob / count), 1e-5, 0),
                    'perplexity is {!r} instead of {!r} (log probability {!r} '
                    'of {} words)', perplexity, math.exp(-logprob / count),
                    logprob, count)
        # One line at a time
        num_words = 0
        num_unks = 0
        rendered = text.split('\n')[:len(lines)]
        for line, line_text in zip(lines, rendered):
            score = scorer.score_line(line_text, vocab)
            if not line:
                require(score is None, 'an empty line has score {}', score)
                continue
            words = gen.utterance(line)
            value, _ = total(words_of(tuple(words)))
            require(close(score, value, 1e-6, 1e-6),
                    'line {} has score {!r} instead of {!r}', line, score,
                    value)
            num_words += len(words)
            num_unks += sum(reference.kind(w) == 'unk' for w in words)
        require(scorer.num_words == num_words and
                scorer.num_unks == num_unks,
                'counted {} words with {} unknown, instead of {} with {}',
                scorer.num_words, scorer.num_unks, num_words, num_unks)
        # A sequence
        for s, w in list(zip(sentences, want))[:2]:
            ids = np.array([vocab.word_to_id[x] if x in vocab else
                            vocab.word_to_id['<unk>'] for x in s])
            class_ids, probs = vocab.get_class_memberships(ids)
            value = scorer.score_sequence(ids, class_ids, probs)
            require(close(value, total(w)[0], 1e-6, 1e-6),
                    'sequence {} has score {!r} instead of {!r}', s, value,
                    total(w)[0])
    kinds = {reference.kind(w) for s in sentences for w in s}
    ctx.label('outside shortlist', 'oos' in kinds)
    ctx.label('unknown', 'unk' in kinds)
    ctx.label('shortlist', reference.shortlist)
    ctx.label('exclude unk', case['exclude_unk'])
    ctx.label('classes', case['vocab']['format'] != 'words')
    ctx.label('zero membership',
              any(x == -math.inf for w in want for x in w))
    ctx.label('excluded words', any(x is None for w in want for x in w))
    ctx.label('many or long sentences',
              len(sentences) > 30 or any(len(s) > 30 for s in sentences))
    ctx.mark(len(sentences) > 1 and len(kinds) > 1)


@st.composite
def cases(draw, plain=True):
    vocab = draw(gen.vocab_specs(min_words=1, max_words=6, plain=plain))
    exclude = draw(st.booleans())
    if vocab['classes'] is not None and '<unk>' in vocab['words'] and \
            (exclude or draw(st.booleans())):
        vocab['classes'][vocab['words'].index('<unk>')] = 50
    known = vocab['words'] + vocab['oos'] * 2
    arch = draw(nets.arch_specs(max_hidden=1, devices=False))
    if exclude:
        arch['layers'][-1]['type'] = 'softmax'
    return {'vocab': vocab, 'arch': arch, 'exclude_unk': exclude,
            'shortlist': draw(st.booleans()),
            'lines': draw(gen.more_lines(draw(gen.corpus_lines(
                known, max_lines=5, max_tokens=6)))),
            'style': draw(st.integers(0, 7)),
            'batch_size': draw(st.sampled_from([1, 2, 3, 4, 200]))}


PARTS = [
    Part('scores', cases(), run, 400, 7000, workers=7,
         rule='at least two sentences and words of two kinds (shortlist, '
              'outside the shortlist, unknown)',
         assumptions=['Theano graphs are evaluated by its NumPy backend in '
                      'double precision',
                      '<unk> has its own class when it is excluded']),
]
