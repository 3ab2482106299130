"""Generators of vocabularies and corpora, as JSON-serialisable values."""

import io

from hypothesis import strategies as st

PLAIN = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l']
ODD_CHARS = list("abxyzÄé漢ß_-'\"\\#.,;:!?<>()[]{}*&%$=+|/0123456789") + \
    ['\u0301', '\U0001f600', 'Ω', 'ı']
SPECIALS = ['<s>', '</s>', '<unk>']


def odd_words():
    """Words with characters that a tokenizer or a file format may trip on."""
    return st.text(alphabet=st.sampled_from(ODD_CHARS), min_size=1,
                   max_size=6).filter(lambda w: w not in SPECIALS)


def words():
    return st.one_of(st.sampled_from(PLAIN), odd_words())


def word_lists(min_size=1, max_size=10, plain=False):
    element = st.sampled_from(PLAIN) if plain else words()
    return st.lists(element, min_size=min_size, max_size=max_size,
                    unique=True)


def probs():
    """Positive class membership weights."""
    return st.one_of(st.integers(1, 1000), st.integers(1, 1000),
                     st.sampled_from([0.01, 0.001, 1e-6])).map(
                         lambda x: x / 1000.0)


@st.composite
def vocab_specs(draw, min_words=1, max_words=9, plain=False,
                allow_specials=True, allow_oos=True, formats=None,
                counts=True, large=True):
    """A description of a vocabulary: what a vocabulary file contains, which
    other words occur in training text, and word counts."""

    vocab_words = draw(word_lists(min_words, max_words, plain))
    fmt = draw(st.sampled_from(formats or
                               ['words', 'classes', 'srilm-classes']))
    if allow_specials:
        vocab_words += draw(st.lists(st.sampled_from(SPECIALS), unique=True,
                                     max_size=3))
        vocab_words = draw(st.permutations(vocab_words))
    n = len(vocab_words)
    num_classes = draw(st.integers(1, max(1, n)))
    classes = draw(st.lists(st.integers(0, num_classes - 1),
                            min_size=n, max_size=n))
    weights = draw(st.lists(probs(), min_size=n, max_size=n))
    oos = []
    if allow_oos:
        oos = [w for w in draw(word_lists(0, 4, plain))
               if w not in vocab_words and w not in SPECIALS]
    spec = {'format': fmt, 'words': vocab_words,
            'classes': classes if fmt != 'words' else None,
            'weights': weights if fmt == 'srilm-classes' else None,
            'oos': oos, 'counts': None,
            'names': draw(st.sampled_from(['spread', 'plain', 'reverse',
                                           'huge'])),
            'space': draw(st.sampled_from(['', ' ', '\t']))}
    if counts and draw(st.booleans()):
        large = [3000, 10 ** 6] if draw(st.booleans()) else [1, 0]
        spec['counts'] = [draw(st.one_of(st.integers(0, 20),
                                         st.sampled_from(large)))
                          for _ in vocab_words] + \
                         [draw(st.one_of(st.integers(1, 20),
                                         st.sampled_from([1] + large[:1])))
                          for _ in oos]
    if large and max_words > 4 and draw(st.integers(0, 39)) == 39:
        # more words, and perhaps classes, than a byte can count
        add_words(spec, draw(st.sampled_from([150, 300])),
                  draw(st.sampled_from([1, 2, 7])))
    return spec


def grown(spec, growth):
    """The vocabulary with so many more words, in classes of such a size."""
    if growth is None:
        return spec
    spec = dict(spec)
    add_words(spec, *growth)
    return spec


def growths():
    """Sizes around the ranges of 8 and 16-bit numbers."""
    return st.tuples(st.sampled_from([120, 250, 32760, 33000, 65530, 70000]),
                     st.sampled_from([1, 2, 300, 33000]))


def add_words(spec, count, class_size):
    """Adds words in classes of the given size."""
    position = len(spec['words'])
    spec['words'] = spec['words'] + ['zz%d' % i for i in range(count)]
    if spec['classes'] is not None:
        first = max(spec['classes'], default=0) + 1
        spec['classes'] = spec['classes'] + \
            [first + i // class_size for i in range(count)]
    if spec['weights'] is not None:
        spec['weights'] = spec['weights'] + [1.0 / (1 + i % 5)
                                             for i in range(count)]
    if spec['counts'] is not None:
        spec['counts'] = spec['counts'][:position] + \
            [(i * 37 + 5) % 11 for i in range(count)] + \
            spec['counts'][position:]


@st.composite
def with_zero_membership(draw, spec):
    """Makes the membership probability of a word zero, if possible.  Returns
    the word or None."""
    plain = [i for i, w in enumerate(spec['words']) if w not in SPECIALS]
    if spec['format'] != 'classes' or len(plain) < 2:
        return None
    if spec['counts'] is None:
        spec['counts'] = [draw(st.integers(0, 20)) for _ in spec['words']] + \
                         [draw(st.integers(1, 20)) for _ in spec['oos']]
    zero = draw(st.sampled_from(plain))
    other = draw(st.sampled_from([i for i in plain if i != zero]))
    spec['classes'][other] = spec['classes'][zero]
    spec['counts'][zero] = 0
    spec['counts'][other] = draw(st.integers(1, 20))
    return spec['words'][zero]


def class_name(spec, index):
    """What the class is called in the vocabulary file."""
    style = spec.get('names', 'spread')
    if spec['format'] == 'classes':
        return {'spread': 10 * index + 3, 'plain': index,
                'reverse': 999 - index, 'huge': index * 10 ** 12}[style]
    return {'spread': 'CLASS-{}'.format(index), 'plain': str(index),
            'reverse': spec['words'][-1 - index % len(spec['words'])]
                       if index < len(spec['words']) else index,
            'huge': 'CLASS-0000000000000{}'.format(index)}[style]


def vocab_file_text(spec, blanks=()):
    lines = []
    space = spec.get('space', '')
    for i, word in enumerate(spec['words']):
        if spec['format'] == 'words':
            lines.append(word)
        elif spec['format'] == 'classes':
            lines.append('{}\t{}{}{}'.format(
                word, space, class_name(spec, spec['classes'][i]), space))
        else:
            lines.append('{} {}{!r} {}'.format(
                class_name(spec, spec['classes'][i]), space,
                spec['weights'][i], word))
    for position in blanks:
        lines.insert(position % (len(lines) + 1), '  ')
    return ''.join(line + '\n' for line in lines)


def build_vocab(spec):
    """Creates the vocabulary with the code under test."""
    from theanolm import Vocabulary
    vocab = Vocabulary.from_file(io.StringIO(vocab_file_text(spec)),
                                 spec['format'], spec['oos'] or None)
    if spec.get('counts') is not None:
        vocab.compute_probs(vocab_counts(spec),
                            update_class_probs=spec['format'] != 'srilm-classes')
    return vocab


def vocab_counts(spec):
    return {w: c for w, c in zip(spec['words'] + spec['oos'], spec['counts'])
            if c > 0}


class VocabModel:
    """What the vocabulary should be: an independent model built from the
    description alone."""

    def __init__(self, spec):
        self.shortlist = list(spec['words'])
        if spec['classes'] is None:
            self.class_of = {w: ('w', i) for i, w in enumerate(spec['words'])}
        else:
            self.class_of = {w: ('c', c) for w, c in
                             zip(spec['words'], spec['classes'])}
        for token in SPECIALS:
            if token not in self.shortlist:
                self.shortlist.append(token)
                self.class_of[token] = ('s', token)
        self.oos = [w for w in spec['oos'] if w not in self.shortlist]
        self.classes = {}
        for w in self.shortlist:
            self.classes.setdefault(self.class_of[w], []).append(w)
        weight = {w: 1.0 for w in self.shortlist}
        if spec['weights'] is not None:
            weight.update(zip(spec['words'], spec['weights']))
        self.unigram = None
        if spec.get('counts') is not None:
            counts = vocab_counts(spec)
            total = float(sum(counts.get(w, 0)
                              for w in self.shortlist + self.oos))
            self.unigram = {w: (counts.get(w, 0) / total if total else 0.0)
                            for w in self.shortlist + self.oos}
            if spec['format'] != 'srilm-classes':
                weight = {w: float(counts.get(w, 0)) for w in self.shortlist}
                for token in SPECIALS:
                    weight[token] = max(weight[token], 1.0)
        self.membership = {}
        for members in self.classes.values():
            total = sum(weight[w] for w in members)
            for w in members:
                self.membership[w] = (weight[w] / total if total > 0
                                      else 1.0 / len(members))

    def shortlist_word(self, word):
        """The shortlist word that stands for the word in network input."""
        return word if word in self.class_of else '<unk>'

    def oos_prob(self, word):
        """Fraction of <unk> mass that belongs to an out-of-shortlist word."""
        if word in self.class_of:
            return 1.0
        total = sum(self.unigram[w] for w in self.oos)
        return self.unigram[word] / total


def sentences(vocab_words, min_size=0, max_size=8):
    return st.lists(st.sampled_from(vocab_words), min_size=min_size,
                    max_size=max_size)


# Corpora --------------------------------------------------------------------

def corpus_lines(known, max_lines=10, max_tokens=9, allow_empty=True):
    """Lines of text: lists of tokens.  An empty list is an empty line."""
    token = st.one_of(st.sampled_from(known),
                      st.sampled_from(known + ['oov-word', '<unk>']))

    @st.composite
    def line(draw):
        tokens = draw(st.lists(token, min_size=0 if allow_empty else 1,
                               max_size=max_tokens))
        kind = draw(st.integers(0, 9))
        if kind == 0:
            tokens = ['<s>'] + tokens
        elif kind == 1:
            tokens = tokens + ['</s>']
        elif kind == 2:
            tokens = ['<s>'] + tokens + ['</s>']
        elif kind == 3 and tokens:
            # markers where they are just words
            tokens = tokens + ['<s>']
        return tokens
    return st.lists(line(), max_size=max_lines)


@st.composite
def more_lines(draw, lines, often=15):
    """Now and then more lines, or longer lines, than a byte can count."""
    kind = draw(st.integers(0, often - 1))
    if lines and kind == often - 1:
        times = -(-draw(st.sampled_from([40, 300])) // len(lines))
        return lines * times
    if lines and kind == often - 2:
        i = draw(st.integers(0, len(lines) - 1))
        tokens = lines[i]
        if tokens and '<s>' not in tokens and '</s>' not in tokens:
            times = -(-draw(st.sampled_from([40, 300])) // len(tokens))
            return lines[:i] + [tokens * times] + lines[i + 1:]
    return lines


@st.composite
def more_sequences(draw, sequences, often=25):
    """Now and then many sequences, or a long one."""
    sequences = draw(sequences)
    kind = draw(st.integers(0, often - 1))
    if kind == often - 1:
        return sequences * -(-draw(st.sampled_from([20, 140]))
                             // len(sequences))
    if kind == often - 2:
        i = draw(st.integers(0, len(sequences) - 1))
        s = sequences[i]
        return sequences[:i] + [
            s * -(-draw(st.sampled_from([40, 140])) // len(s))] + \
            sequences[i + 1:]
    return sequences


def utterance(tokens):
    """Reference tokenisation of a line."""
    if not tokens:
        return []
    result = list(tokens)
    if result[0] != '<s>':
        result = ['<s>'] + result
    if result[-1] != '</s>':
        result = result + ['</s>']
    return result


def render(lines, style=0, final_newline=True):
    """Text of a file with the given lines."""
    rendered = []
    for i, tokens in enumerate(lines):
        k = (style * 7 + i * 3) % 8
        sep = [' ', ' ', '  ', '\t'][k % 4]
        pre = ['', '', ' ', '\t '][(k // 2) % 4]
        post = ['', ' ', '\r', '\t'][(style + i) % 4]
        rendered.append(pre + sep.join(tokens) + post)
    text = '\n'.join(rendered)
    if final_newline and rendered:
        text += '\n'
    return text
