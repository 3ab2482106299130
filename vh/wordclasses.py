"""Corpora for word class optimisation, and the class bigram model computed
from the text from scratch."""

import io
import math
from collections import Counter

from hypothesis import strategies as st

from vh import gen

WORDS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']


@st.composite
def corpora(draw, max_lines=12, words=WORDS):
    known = words[:draw(st.integers(2, len(words)))]
    lines = draw(gen.corpus_lines(known, max_lines=max_lines, max_tokens=7))
    # Words in varying contexts are what classes are formed of.
    token = st.sampled_from(known)
    lines += draw(st.lists(st.lists(token, min_size=2, max_size=6),
                           min_size=1, max_size=6))
    return lines


@st.composite
def partitions(draw, words=WORDS):
    """How the initial vocabulary is made: from the corpus with a number of
    classes, or from a list of words and classes."""
    kind = draw(st.sampled_from(['corpus', 'corpus', 'classes']))
    if kind == 'corpus':
        return {'kind': kind, 'num_classes': draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6]))}
    listed = draw(st.lists(st.sampled_from(words + ['z']), unique=True,
                           min_size=2, max_size=8))
    if draw(st.booleans()):
        listed += ['<foo>']
    ids = draw(st.lists(st.integers(0, 4), min_size=len(listed),
                        max_size=len(listed)))
    return {'kind': kind, 'words': listed, 'ids': ids}


def vocabulary(partition, lines):
    """Creates the vocabulary with the code under test."""
    from theanolm.vocabulary import Vocabulary, compute_word_counts
    if partition['kind'] == 'corpus':
        counts = compute_word_counts([io.StringIO(gen.render(lines))])
        return Vocabulary.from_word_counts(counts, partition['num_classes'])
    text = ''.join('{} {}\n'.format(w, c) for w, c in
                   zip(partition['words'], partition['ids']))
    return Vocabulary.from_file(io.StringIO(text), 'classes')


class Model:
    """Counts of a corpus, with other words taken as <unk>."""

    def __init__(self, lines, words, factor=1):
        words = set(words)
        self.unigrams = Counter()
        self.bigrams = Counter()
        for line in lines:
            tokens = [w if w in words else '<unk>'
                      for w in gen.utterance(line)]
            for w in tokens:
                self.unigrams[w] += factor
            for pair in zip(tokens[:-1], tokens[1:]):
                self.bigrams[pair] += factor

    def log_likelihood(self, class_of):
        classes = Counter()
        pairs = Counter()
        for w, n in self.unigrams.items():
            classes[class_of[w]] += n
        for (a, b), n in self.bigrams.items():
            pairs[class_of[a], class_of[b]] += n
        return math.fsum([n * math.log(n) for n in pairs.values()] +
                         [n * math.log(n) for n in self.unigrams.values()] +
                         [-2 * n * math.log(n) for n in classes.values()])

    def probability(self, word, class_of):
        total = sum(n for w, n in self.unigrams.items()
                    if class_of[w] == class_of[word])
        return self.unigrams[word] / total if total else 0.0
