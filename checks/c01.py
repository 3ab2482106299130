"""C01: a vocabulary is a consistent partition of exactly the given words."""

import io

import numpy as np
from hypothesis import strategies as st

from vh import gen
from vh.core import Part, Violation, close, expect_raises, require, sut


def check_structure(vocab, shortlist, oos, class_of, what):
    """Checks every lookup of the vocabulary against the expected words."""

    expected = list(shortlist) + list(oos)
    require(vocab.num_words() == len(expected),
            '{}: {} words, expected {}', what, vocab.num_words(), len(expected))
    require(vocab.num_shortlist_words() == len(shortlist),
            '{}: {} shortlist words, expected {}', what,
            vocab.num_shortlist_words(), len(shortlist))
    require(sorted(vocab.words()) == sorted(expected),
            '{}: words() gives {}', what, sorted(vocab.words()))
    ids = {}
    for word in expected:
        require(word in vocab, '{}: word {!r} is missing', what, word)
        ids[word] = int(vocab.word_to_id[word])
        require(vocab.id_to_word[ids[word]] == word,
                '{}: id {} of {!r} maps back to {!r}', what, ids[word], word,
                vocab.id_to_word[ids[word]])
    require(sorted(ids.values()) == list(range(len(expected))),
            '{}: word ids {} are not 0..n-1', what, ids)
    for word in expected:
        require(bool(vocab.in_shortlist(ids[word])) == (word in class_of),
                '{}: in_shortlist({!r}) is wrong', what, word)
    # The classes partition the shortlist in the given way.
    class_ids = {w: int(vocab.word_id_to_class_id[ids[w]]) for w in shortlist}
    mapping = {}
    for word in shortlist:
        c = class_of[word]
        require(mapping.setdefault(c, class_ids[word]) == class_ids[word],
                '{}: words of class {} got different class ids', what, c)
    require(len(set(mapping.values())) == len(mapping),
            '{}: different classes were merged: {}', what, class_ids)
    require(vocab.num_classes() == len(mapping),
            '{}: {} classes, expected {}', what, vocab.num_classes(),
            len(mapping))
    require(sorted(mapping.values()) == list(range(len(mapping))),
            '{}: class ids are not 0..n-1', what)
    return ids, class_ids


def check_memberships(vocab, ids, class_ids, membership, what):
    for word, prob in membership.items():
        got = vocab.get_word_prob(ids[word])
        require(close(got, prob), '{}: p({!r} | class) = {}, expected {}',
                what, word, got, prob)
    all_ids = np.array([[i for i in range(vocab.num_words())]], dtype='int64')
    before = all_ids.copy()
    got_classes, got_probs = vocab.get_class_memberships(all_ids)
    require((all_ids == before).all(), '{}: the id matrix was modified', what)
    for word_id in range(vocab.num_words()):
        word = vocab.id_to_word[word_id]
        if word not in membership:
            word = '<unk>'
        require(int(got_classes[0, word_id]) == class_ids[word],
                '{}: class of id {} is wrong', what, word_id)
        require(close(got_probs[0, word_id], membership[word]),
                '{}: membership of id {} is wrong', what, word_id)


def run_file(case, ctx):
    from theanolm import Vocabulary
    spec = gen.grown(case['vocab'], case.get('growth'))
    model = gen.VocabModel(spec)
    text = gen.vocab_file_text(spec, case['blanks'])
    oos = list(spec['oos'])
    # Words that are in the file, the special tokens, and repetitions must not
    # be added again.
    for index in case['oos_repeats']:
        candidates = model.shortlist + model.oos
        oos.insert(index % (len(oos) + 1), candidates[index % len(candidates)])
    with sut('reading a vocabulary file'):
        vocab = Vocabulary.from_file(io.StringIO(text), spec['format'], oos)
    ids, class_ids = check_structure(vocab, model.shortlist, model.oos,
                                     model.class_of, 'from file')
    check_memberships(vocab, ids, class_ids, gen.VocabModel(
        dict(spec, counts=None)).membership, 'from file')
    require(not vocab.has_unigram_probs(),
            'unigram probabilities exist before they are computed')

    with sut('translating words to ids'):
        unknown = ['never-seen', '<S>'] + [w + 'x!' for w in model.shortlist]
        unknown = [w for w in unknown if w not in model.class_of and
                   w not in model.oos]
        sentence = model.shortlist + unknown + model.oos
        result = vocab.words_to_ids(sentence)
    expected = [ids[w] if w in ids else ids['<unk>'] for w in sentence]
    require(list(result) == expected, 'words_to_ids({}) = {}, expected {}',
            sentence, list(result), expected)
    for w in unknown:
        require(w not in vocab, 'unknown word {!r} is in vocabulary', w)

    # Membership sampling stays inside the class and hits only words with
    # positive probability.
    with sut('sampling words from classes'):
        for class_id in range(vocab.num_classes()):
            for word_id in vocab.class_ids_to_word_ids([class_id] * 3):
                word = vocab.id_to_word[word_id]
                require(class_ids.get(word) == class_id,
                        'sampled {!r} from a class it is not in', word)
                require(model.membership[word] > 0,
                        'sampled {!r}, which has zero probability', word)

    ctx.label(spec['format'])
    ctx.label('oos', bool(model.oos))
    ctx.label('multiword class', len(model.classes) < len(model.shortlist))
    ctx.mark(len(model.shortlist) > 4 and
             (len(model.classes) < len(model.shortlist) or bool(model.oos)))


def run_counts(case, ctx):
    from theanolm import Vocabulary
    counts = dict(case['counts'])
    with sut('creating a vocabulary from word counts'):
        before = dict(counts)
        vocab = Vocabulary.from_word_counts(counts, case['num_classes'])
    require(counts == before, 'from_word_counts modified its argument')
    normal = [w for w in counts if w not in gen.SPECIALS]
    shortlist = normal + gen.SPECIALS
    ids = {w: vocab.word_to_id.get(w) for w in shortlist}
    require(None not in ids.values(), 'some word is missing: {}', ids)
    got = {w: int(vocab.word_id_to_class_id[ids[w]]) for w in shortlist}
    class_of = {w: got[w] for w in shortlist}
    check_structure(vocab, shortlist, [], class_of, 'from counts')
    for token in gen.SPECIALS:
        require([w for w in shortlist if got[w] == got[token]] == [token],
                'special token {} shares a class', token)
    n = len(normal) if case['num_classes'] is None else case['num_classes']
    sizes = {}
    for w in normal:
        sizes[got[w]] = sizes.get(got[w], 0) + 1
    if normal:
        require(len(sizes) == min(n, len(normal)),
                '{} normal classes instead of {}', len(sizes), n)
        require(max(sizes.values()) - min(sizes.values()) <= 1,
                'class sizes are not balanced: {}', sizes)
    weights = {w: float(counts[w]) for w in normal}
    membership = {}
    for w in normal:
        members = [v for v in normal if got[v] == got[w]]
        total = sum(weights[v] for v in members)
        membership[w] = weights[w] / total if total else 1.0 / len(members)
    membership.update({t: 1.0 for t in gen.SPECIALS})
    check_memberships(vocab, ids, got, membership, 'from counts')
    ctx.label('classes', case['num_classes'] is not None)
    ctx.label('specials counted', any(t in counts for t in gen.SPECIALS))
    ctx.mark(len(normal) > 2)


def run_bad(case, ctx):
    """A malformed vocabulary file is rejected instead of silently producing a
    different vocabulary."""
    from theanolm import Vocabulary
    from theanolm.backend import InputError
    spec = case['vocab']
    lines = gen.vocab_file_text(spec).splitlines()
    position = case['position'] % len(lines)
    kind = case['kind']
    word = spec['words'][position]
    if kind == 'duplicate':
        if spec['format'] == 'words':
            bad = word
        elif spec['format'] == 'classes':
            bad = '{} {}'.format(word, case['number'])
        else:
            bad = 'OTHER {} {}'.format(0.5, word)
        lines.insert((position + 1 + case['number']) % (len(lines) + 1), bad)
    elif kind == 'extra field':
        lines[position] += ' 1'
    else:
        fields = lines[position].split()
        if len(fields) == 1:
            lines[position] += ' x'
        else:
            lines[position] = ' '.join(fields[:-1])
    text = ''.join(line + '\n' for line in lines)
    expect_raises('a vocabulary file with {}: {!r}'.format(kind, text),
                  InputError,
                  lambda: Vocabulary.from_file(io.StringIO(text),
                                               spec['format']))
    ctx.label(kind)
    ctx.mark(len(lines) > 1)


count_items = st.lists(
    st.tuples(st.one_of(gen.words(), st.sampled_from(gen.SPECIALS)),
              st.integers(0, 50)),
    max_size=12, unique_by=lambda x: x[0]).map(
        lambda items: [list(x) for x in items])

PARTS = [
    Part('file',
         st.fixed_dictionaries({
             'vocab': gen.vocab_specs(counts=False),
             'blanks': st.lists(st.integers(0, 20), max_size=3),
             'oos_repeats': st.lists(st.integers(0, 20), max_size=4)}),
         run_file, quick=1500, thorough=40000,
         rule='a vocabulary file in one of the three formats with 1-9 words, '
              'special tokens anywhere, blank lines, out-of-shortlist words '
              'with repetitions; non-trivial: more than 4 shortlist words and '
              'a multi-word class or an out-of-shortlist word'),
    Part('large',
         st.fixed_dictionaries({
             'vocab': gen.vocab_specs(counts=False, large=False),
             'growth': gen.growths(),
             'blanks': st.lists(st.integers(0, 20), max_size=3),
             'oos_repeats': st.lists(st.integers(0, 20), max_size=4)}),
         run_file, quick=8, thorough=150,
         rule='as file, with 120 to 70000 more words, in classes of 1 to '
              '33000'),
    Part('counts',
         st.fixed_dictionaries({
             'counts': count_items,
             'num_classes': st.one_of(st.none(), st.integers(1, 6))}),
         run_counts, quick=800, thorough=20000,
         rule='word counts incl. zero and special tokens, 1-6 or unlimited '
              'classes; non-trivial: more than 2 normal words'),
    Part('malformed',
         st.fixed_dictionaries({
             'vocab': gen.vocab_specs(counts=False, allow_oos=False),
             'position': st.integers(0, 20), 'number': st.integers(0, 9),
             'kind': st.sampled_from(['duplicate', 'extra field',
                                      'missing field'])}),
         run_bad, quick=600, thorough=10000,
         rule='a valid vocabulary file with one line repeated (also in another '
              'class), extended or shortened; non-trivial: more than one line'),
]
