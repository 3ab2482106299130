"""Reference scores of lattice paths and a reference lattice decoder."""

import math

from vh import gen, lattices as lat, nets


def default_options():
    return {'nnlm_weight': 1.0, 'lm_scale': None, 'wi_penalty': None,
            'unk_penalty': None, 'use_shortlist': False,
            'unk_from_lattice': False, 'linear_interpolation': False,
            'max_tokens_per_node': None, 'beam': None,
            'recombination_order': None}


def log(x):
    return math.log(x) if x > 0 else -math.inf


class Reference:
    """Scores hypotheses with the NumPy network and the documented rules."""

    def __init__(self, arch, vocab_spec, vocab, params, options, lattice):
        self.model = gen.VocabModel(vocab_spec)
        self.arch = arch
        self.vocab = vocab
        self.params = params
        self.options = options
        self.class_of = {w: int(vocab.word_id_to_class_id[vocab.word_to_id[w]])
                         for w in self.model.shortlist}
        self.oos = options['use_shortlist'] and self.model.unigram is not None
        self.cache = {}
        self.lm_scale = options['lm_scale']
        if self.lm_scale is None:
            self.lm_scale = lattice['lm_scale']
        if self.lm_scale is None:
            self.lm_scale = 1.0
        self.wi_penalty = options['wi_penalty']
        if self.wi_penalty is None:
            self.wi_penalty = lattice['wi_penalty']
        if self.wi_penalty is None:
            self.wi_penalty = 0.0

    def network(self, history):
        """Class probabilities after the history (a tuple of words)."""
        if history not in self.cache:
            stand_in = [self.model.shortlist_word(w) for w in history]
            ids = [int(self.vocab.word_to_id[w]) for w in stand_in]
            self.cache[history] = nets.forward(
                self.arch, self.params, ids,
                [self.class_of[w] for w in stand_in],
                self.vocab.num_classes())['out'][-1]
        return self.cache[history]

    def word(self, history, word, lattice_lm):
        """Network LM log probability of a word after the history."""
        stand_in = self.model.shortlist_word(word)
        network = log(self.network(history)[self.class_of[stand_in]] *
                      self.model.membership[stand_in])
        if self.options['unk_from_lattice']:
            penalty = lattice_lm
        else:
            penalty = self.options['unk_penalty']
        in_shortlist = word in self.model.class_of
        in_vocabulary = in_shortlist or word in self.model.oos
        if self.oos and in_vocabulary:
            return network + log(self.model.oos_prob(word))
        if not in_shortlist and penalty is not None:
            return penalty
        return network

    def path(self, words, link_lms):
        """Network LM log probability of a path, including sentence end."""
        history = ('<s>',)
        result = 0.0
        for w, l in zip(words, link_lms):
            result += self.word(history, w, l)
            history += (w,)
        return result + self.word(history, '</s>', None)

    def total(self, ac, lat_lm, nn_lm, num_words):
        """Total of a hypothesis; num_words includes the sentence end."""
        weight = self.options['nnlm_weight']
        if self.options['linear_interpolation']:
            a, b = math.log(weight) if weight > 0 else -math.inf, \
                math.log(1 - weight) if weight < 1 else -math.inf
            terms = [x for x in (a + nn_lm if weight > 0 else -math.inf,
                                 b + lat_lm if weight < 1 else -math.inf)]
            top = max(terms)
            lm = top if top == -math.inf else \
                top + math.log(sum(math.exp(t - top) for t in terms))
        else:
            lm = 0.0
            if weight != 0:
                lm += weight * nn_lm
            if weight != 1:
                lm += (1 - weight) * lat_lm
        return ac + self.lm_scale * lm + self.wi_penalty * num_words


class Hypothesis:
    def __init__(self, words, ac, lat_lm, nn_lm, total):
        self.words, self.ac, self.lat_lm = words, ac, lat_lm
        self.nn_lm, self.total = nn_lm, total


def exhaustive(reference, spec, limit=120):
    """All complete hypotheses, or None if there are too many paths."""
    paths = lat.paths(spec, limit)
    if paths is None:
        return None
    result = []
    for p in paths:
        nn = reference.path(p.words, p.link_lms)
        result.append(Hypothesis(p.words, p.ac, p.lm, nn, reference.total(
            p.ac, p.lm, nn, len(p.words) + 1)))
    return result


class Ambiguous(Exception):
    """Two hypotheses are so close that rounding decides."""


def search(reference, spec, time_order=None):
    """Token passing as documented.  Returns final hypotheses, best first.

    Raises Ambiguous when a decision is within rounding error."""
    options = reference.options
    order = options['recombination_order']
    beam = options['beam']
    limit = options['max_tokens_per_node']
    relative = options.get('prune_extra_limit')
    eps = 1e-7
    tokens = [[] for _ in range(spec['n'])]
    best = [None] * spec['n']
    start = Hypothesis(('<s>',), 0.0, 0.0, 0.0,
                       reference.total(0.0, 0.0, 0.0, 0))
    tokens[0].append(start)
    best[0] = start.total
    links = lat.out_links(spec)
    dropped = {'recombined': 0, 'beam': 0, 'limit': 0, 'relative': 0}

    def recombine(hypotheses):
        hypotheses = sorted(hypotheses, key=lambda h: -h.total)
        seen = {}
        result = []
        for h in hypotheses:
            key = h.words if order is None else h.words[-order:]
            if key in seen:
                other = seen[key]
                dropped['recombined'] += 1
                if close_scores(other.total, h.total, eps) and \
                        (other.words != h.words or
                         abs(other.ac - h.ac) > eps):
                    raise Ambiguous()
            else:
                seen[key] = h
                result.append(h)
        return result

    full_beam, full_limit = beam, limit
    for node in range(spec['n']):
        if relative is not None and len(tokens[node]) > relative:
            # Limits are divided by the number of tokens and multiplied by the
            # given number.
            count = len(tokens[node])
            if full_beam is not None:
                beam = max(full_beam * relative / count,
                           min(full_beam, options['abs_min_beam']))
            if full_limit is not None:
                if count > 2 * full_limit or \
                        full_limit * relative % count == 0:
                    # The decoder prunes already before all the tokens have
                    # reached the node, or rounding decides.
                    raise Ambiguous()
                limit = max(full_limit * relative // count,
                            min(full_limit, options['abs_min_max_tokens']), 1)
            dropped['relative'] += beam != full_beam or limit != full_limit
        else:
            beam, limit = full_beam, full_limit
        hypotheses = recombine(tokens[node])
        if beam is not None:
            top = max(b for b in best[node:] if b is not None)
            kept = [h for i, h in enumerate(hypotheses)
                    if i == 0 or h.total > top - beam]
            for h in hypotheses[1:]:
                if close_scores(h.total, top - beam, eps):
                    raise Ambiguous()
            dropped['beam'] += len(hypotheses) - len(kept)
            hypotheses = kept
        if limit is not None:
            if len(hypotheses) > limit and close_scores(
                    hypotheses[limit - 1].total, hypotheses[limit].total,
                    eps):
                raise Ambiguous()
            dropped['limit'] += max(0, len(hypotheses) - limit)
            hypotheses = hypotheses[:limit]
        if node == spec['n'] - 1:
            final = []
            for h in hypotheses:
                nn = h.nn_lm + reference.word(h.words, '</s>', None)
                words = h.words + ('</s>',)
                final.append(Hypothesis(
                    words, h.ac, h.lat_lm, nn, reference.total(
                        h.ac, h.lat_lm, nn, len(words) - 1)))
            return recombine(final), dropped
        for _, end, word, ac, lm, _ in links[node]:
            for h in hypotheses:
                nn, words = h.nn_lm, h.words
                if word is not None:
                    nn = nn + reference.word(h.words, word, lm)
                    words = h.words + (word,)
                new_ac, new_lm = h.ac + (ac or 0.0), h.lat_lm + (lm or 0.0)
                new = Hypothesis(words, new_ac, new_lm, nn, reference.total(
                    new_ac, new_lm, nn, len(words) - 1))
                tokens[end].append(new)
                if best[end] is None or new.total > best[end]:
                    best[end] = new.total


def close_scores(a, b, eps):
    if a == b:
        return True
    return abs(a - b) <= eps * max(1.0, min(abs(a), abs(b)))
