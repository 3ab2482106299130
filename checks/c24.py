"""C24: word class optimisation never lowers the likelihood.

Oracle: the class bigram model computed from the corpus from scratch for the
classes before a move, after it, and for every other class the word could have
been moved to."""

import io

from hypothesis import strategies as st

from vh import gen, wordclasses as wc
from vh.core import Part, Skip, close, require, sut


def create(name, lines, vocab, factor):
    from theanolm.vocabulary import BigramStatistics
    from wordclasses import NumpyBigramOptimizer, TheanoBigramOptimizer
    statistics = BigramStatistics([io.StringIO(gen.render(lines))], vocab)
    if factor != 1:
        # as if the text was repeated
        statistics.unigram_counts *= factor
        statistics.bigram_counts = statistics.bigram_counts.tocsc()
        statistics.bigram_counts.data *= factor
    cls = {'numpy': NumpyBigramOptimizer, 'theano': TheanoBigramOptimizer}
    return cls[name](statistics, vocab)


class Checker:
    def __init__(self, name, lines, vocab, factor):
        self.name = name
        self.vocab = vocab
        self.words = [str(w) for w in vocab.id_to_word]
        self.model = wc.Model(lines, self.words, factor)
        self.tolerance = 1e-11 * max(
            1.0, sum(n * 30 for n in self.model.unigrams.values()))
        self.moves = 0
        self.ties = 0
        self.optimizer = create(name, lines, vocab, factor)
        self.num_normal = vocab.num_normal_classes
        self.compare('initially')

    def classes(self):
        return {w: int(self.optimizer.get_word_class(i))
                for i, w in enumerate(self.words)}

    def compare(self, when):
        """The maintained statistics are those of the current classes."""
        with sut('reading the classes'):
            class_of = self.classes()
            listed = list(self.optimizer.words())
            value = float(self.optimizer.log_likelihood())
        want = self.model.log_likelihood(class_of)
        require(close(value, want, 1e-9, self.tolerance),
                '{}: log likelihood {} is {} instead of {}', self.name, when,
                value, want)
        require(sorted(w for w, _, _ in listed) == sorted(self.words),
                '{}: words {} are {}', self.name, when, listed)
        for w, c, p in listed:
            require(int(c) == class_of[w], '{}: {} is listed in class {}, but '
                    'belongs to {}', self.name, w, c, class_of[w])
            require(close(p, self.model.probability(w, class_of), 1e-6, 1e-12),
                    '{}: probability of {} {} is {} instead of {}', self.name,
                    w, when, p, self.model.probability(w, class_of))
        return class_of, want

    def best(self, word, what):
        before, likelihood = self.compare('before ' + what)
        fixed = word.startswith('<') and word.endswith('>') or \
            sum(c == before[word] for c in before.values()) < 2
        gains = {}
        for c in range(self.num_normal):
            if c != before[word]:
                gains[c] = self.model.log_likelihood(
                    dict(before, **{word: c})) - likelihood
        with sut('moving a word to the best class'):
            moved = self.optimizer.move_to_best_class(word)
        after, _ = self.compare('after ' + what)
        for w in self.words:
            if w != word:
                require(after[w] == before[w], '{}: {} changes the class of '
                        '{}', self.name, what, w)
        require(bool(moved) == (after[word] != before[word]),
                '{}: {} returns {}, but the class was {} and is {}', self.name,
                what, moved, before[word], after[word])
        if fixed:
            require(not moved, '{}: {} is moved although it is special or '
                    'alone in its class', self.name, word)
            return False
        best = max(gains.values()) if gains else float('-inf')
        if moved:
            gain = gains.get(after[word])
            require(gain is not None, '{}: {} is moved to class {}, which is '
                    'not a normal class', self.name, word, after[word])
            require(gain >= -self.tolerance, '{}: {} decreases the log '
                    'likelihood by {}', self.name, what, -gain)
            require(gain >= best - self.tolerance, '{}: {} increases the log '
                    'likelihood by {}, another class would by {}', self.name,
                    what, gain, best)
            self.moves += 1
        else:
            require(best <= self.tolerance, '{}: {} does nothing, but it '
                    'could increase the log likelihood by {}', self.name, what,
                    best)
        self.ties += abs(best) <= self.tolerance
        return bool(moved)

    def force(self, word, target):
        """Any other move keeps the statistics right too."""
        before = self.classes()
        if word not in self.model.unigrams or word.startswith('<') or \
                sum(c == before[word] for c in before.values()) < 2:
            return
        target %= self.num_normal
        if target == before[word]:
            return
        with sut('moving a word'):
            self.optimizer._move(self.optimizer.get_word_id(word), target)
        after, _ = self.compare('after moving {} to class {}'.format(word,
                                                                     target))
        require(after == dict(before, **{word: target}),
                '{}: moving {} to class {} gives {}', self.name, word, target,
                after)

    def converge(self):
        """Iterates until no word moves, as the command does."""
        count = 0
        while True:
            moves = 0
            for w in self.vocab.words():
                moves += self.best(str(w), 'moving ' + str(w))
            count += 1
            if not moves:
                return count
            require(count < 60, '{}: words are still moved after {} '
                    'iterations', self.name, count)


def run(case, ctx):
    lines = case['lines'] * case['repeat']
    if not any(lines):
        raise Skip()
    with sut('preparing the classes'):
        vocab = wc.vocabulary(case['partition'], lines)
    words = [str(w) for w in vocab.id_to_word]
    moves = 0
    ends = []
    for name in case['implementations']:
        with sut('creating the optimizer'):
            checker = Checker(name, lines, vocab, case['factor'])
        for op, w, c in case['operations']:
            word = words[w % len(words)]
            if op == 'best':
                checker.best(word, 'moving ' + word)
            else:
                checker.force(word, c)
        if case['converge']:
            checker.converge()
        ends.append(checker.classes())
        moves += checker.moves
        ctx.label(name)
        ctx.label('ties', checker.ties > 0)
    if len(ends) == 2 and not checker.ties:
        require(ends[0] == ends[1], 'the implementations give different '
                'classes: {} and {}', *ends)
    ctx.label('words that do not occur',
              any(w not in checker.model.unigrams for w in words[:-1]))
    ctx.label('until convergence', case['converge'])
    ctx.label('large counts', case['factor'] > 1)
    ctx.mark(moves > 0)


@st.composite
def cases(draw, implementations):
    return {'lines': draw(wc.corpora()),
            'repeat': draw(st.sampled_from([1, 1, 2])),
            'factor': draw(st.sampled_from([1, 1, 1, 1000, 1000000])),
            'partition': draw(wc.partitions()),
            'converge': draw(st.booleans()),
            'implementations': implementations,
            'operations': draw(st.lists(st.tuples(
                st.sampled_from(['best', 'best', 'move']),
                st.integers(0, 20), st.integers(0, 20)).map(list),
                max_size=8))}


A = ['counts fit in 32 bits', 'Theano graphs are evaluated by its NumPy '
     'backend']
PARTS = [
    Part('numpy', cases(['numpy']), run, 2500, 60000, workers=3,
         examples=[{
             'converge': True, 'factor': 1000000, 'implementations': ['numpy'],
             'lines': [['<s>', 'b', 'c', 'a', 'b', '<unk>', 'a', 'd'],
                       ['b', 'c', 'a']], 'operations': [], 'repeat': 1,
             'partition': {'kind': 'corpus', 'num_classes': 3}}],
         rule='at least one word is moved by the optimizer', assumptions=A),
    Part('both', cases(['numpy', 'theano']), run, 250, 5000, workers=4,
         rule='at least one word is moved by the optimizer', assumptions=A),
]
