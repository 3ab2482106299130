"""C28: the train command trains the model that its options describe.

The command runs in this process, with real files and command lines.  To make
the result predictable without knowing the random order of the data, either all
of the data fits in one mini-batch, or all the lines are the same.

Oracle: the update rules of the optimization methods in NumPy (as in C21), with
the documented default values of the options, applied to the gradients of the
cost that the options ask for; a model of the training schedule (as in C23);
the reference network for validation perplexities (as in C11)."""

import argparse
import contextlib
import gc
import gzip
import io
import itertools
import logging
import math
import os

import h5py
import numpy as np
from hypothesis import strategies as st

from checks import c04, c11, c19, c21, c23
from vh import gen, nets, training
from vh.core import Part, Skip, Violation, close, require, scratch_dir, sut

DEFAULTS = {'optimization-method': 'adagrad', 'learning-rate': 0.1,
            'l1-regularization': None, 'l2-regularization': None,
            'momentum': 0.9, 'gradient-decay-rate': 0.9,
            'sqr-gradient-decay-rate': 0.999,
            'numerical-stability-term': 1e-6, 'gradient-normalization': 5.0,
            'cost': 'cross-entropy', 'noise-distribution': 'uniform',
            'noise-dampening': 0.5, 'noise-sharing': None,
            'sequence-length': 100, 'batch-size': 16,
            'validation-frequency': 5, 'patience': 4,
            'stopping-criterion': 'annealing-count', 'min-epochs': 1,
            'max-epochs': 100, 'max-annealing-count': 0}


def clean(function):
    """Files that a previous training process left open have the same name."""
    def wrapper(case, ctx):
        import theanolm
        if not gc.get_freeze_count():
            gc.collect()
            gc.freeze()
        try:
            function(case, ctx)
        finally:
            gc.collect()
    return wrapper


def command(argv):
    """Runs the command and returns what it printed."""
    import theano
    from theanolm.commands import train
    parser = argparse.ArgumentParser()
    train.add_arguments(parser)
    args = parser.parse_args(argv)
    out = io.StringIO()
    handlers = logging.root.handlers[:]
    level = logging.root.level
    try:
        logging.root.handlers[:] = []
        with contextlib.redirect_stdout(out):
            train.train(args)
    finally:
        for handler in logging.root.handlers:
            handler.close()
        logging.root.handlers[:] = handlers
        logging.root.setLevel(level)
        theano.config.profile = False
        for f in list(args.training_set) + [args.validation_file]:
            if f is not None:
                f.close()
        gc.collect()
    return out.getvalue()


def train(argv):
    with sut('train'):
        try:
            return command(argv)
        except SystemExit as e:
            raise Violation('train {} exits with {}'.format(argv, e.code))


def write_text(path, text):
    with (gzip.open if path.endswith('.gz') else open)(path, 'wb') as f:
        f.write(text.encode('utf-8'))
    return path


class Job:
    """The files and the command line of a case."""

    def __init__(self, case, directory):
        self.case = case
        self.directory = directory
        self.options = dict(DEFAULTS, **case['options'])
        self.paths = []
        self.counts = {}
        for i, lines in enumerate(case['files']):
            name = 'train%d.txt' % i + ('.gz' if case['gz'] >> i & 1 else '')
            self.paths.append(write_text(
                os.path.join(directory, name),
                gen.render(lines, case['style'] + i, case['final_newline'])))
            for line in lines:
                for word in gen.utterance(line):
                    self.counts[word] = self.counts.get(word, 0) + 1
        with open(os.path.join(directory, 'arch'), 'w') as f:
            f.write(nets.description(training.connected(case['arch'])))
        argv = ['--training-set'] + self.paths + \
            ['--architecture', os.path.join(directory, 'arch'),
             '--random-seed', str(case['seed']),
             '--log-file', os.path.join(directory, 'log')] + case['extra']
        if case['exclude_unk']:
            argv.append('--exclude-unk')
        if case['weights']:
            argv += ['--weights'] + [repr(x) for x in case['weights']]
        if case['sampling']:
            argv += ['--sampling'] + [repr(x) for x in case['sampling']]
        if case['vocab'] is not None:
            path = os.path.join(directory, 'vocab')
            write_text(path, gen.vocab_file_text(case['vocab']))
            argv += ['--vocabulary', path]
            if case['vocab']['format'] != 'words' or case['style'] % 2:
                argv += ['--vocabulary-format', case['vocab']['format']]
        elif case['num_classes'] is not None:
            argv += ['--num-classes', str(case['num_classes'])]
        self.argv = argv
        self.set_vocab_model()

    def set_vocab_model(self):
        """What the vocabulary should be."""
        from theanolm import Vocabulary
        spec = self.case['vocab']
        if spec is not None:
            oos = [w for w in self.counts if w not in spec['words']]
            self.vocab_model = gen.VocabModel(dict(
                spec, oos=oos, counts=[self.counts.get(w, 0)
                                       for w in spec['words'] + oos]))
            self.num_classes = len(self.vocab_model.classes)
            return
        with sut('vocabulary'):
            v = Vocabulary.from_word_counts(dict(self.counts),
                                            self.case['num_classes'])
        self.num_classes = v.num_classes()
        words = list(v.id_to_word)
        model = gen.VocabModel({
            'format': 'classes', 'words': words, 'weights': None, 'oos': [],
            'classes': [int(v.word_id_to_class_id[i])
                        for i in range(len(words))],
            'counts': [self.counts.get(w, 0) for w in words]})
        self.vocab_model = model

    def arguments(self, name, **options):
        """Command line, with the model file first."""
        options = dict(self.case['options'], **options)
        argv = [os.path.join(self.directory, name)] + list(self.argv)
        for key, value in sorted(options.items()):
            argv += ['--' + key, value if isinstance(value, str)
                     else repr(value)]
        return argv

    def read(self, name):
        path = os.path.join(self.directory, name)
        result = {}
        with h5py.File(path, 'r') as state:
            if 'layers' not in state:
                return None
            state['layers'].visititems(
                lambda k, v: result.__setitem__('layers/' + k, v[()])
                if isinstance(v, h5py.Dataset) else None)
        return result

    def check_model_file(self, name):
        """The vocabulary and the architecture in the model file."""
        from theanolm import Architecture, Vocabulary
        with sut('reading the model file'), \
                h5py.File(os.path.join(self.directory, name), 'r') as state:
            v = Vocabulary.from_state(state)
            architecture = Architecture.from_state(state)
        want = nets.build_architecture(training.connected(self.case['arch']))
        for got, kind in ((architecture.inputs, want.inputs),
                          (architecture.layers, want.layers)):
            require(len(got) == len(kind) and
                    all(a.get(k) == v for a, b in zip(got, kind)
                        for k, v in b.items()),
                    'saved architecture has {} instead of {}', got, kind)
        m = self.vocab_model
        size = v.num_shortlist_words()
        require(sorted(v.id_to_word[:size]) == sorted(m.shortlist),
                'shortlist is {} instead of {}', list(v.id_to_word[:size]),
                m.shortlist)
        require(sorted(v.id_to_word[size:]) == sorted(m.oos),
                'words outside the shortlist are {} instead of {}',
                list(v.id_to_word[size:]), m.oos)
        classes = {}
        for w in m.shortlist:
            i = v.word_to_id[w]
            classes.setdefault(int(v.word_id_to_class_id[i]), set()).add(w)
            p = float(v.get_word_prob(i))
            require(close(p, m.membership[w], 1e-5, 1e-7), 'class membership '
                    'probability of {} is {} instead of {}', w, p,
                    m.membership[w])
        require(sorted(map(sorted, classes.values())) ==
                sorted(map(sorted, m.classes.values())),
                'classes are {} instead of {}', classes, m.classes)
        return v

    def pieces(self):
        return c04.expected_sequences(self.case['files'],
                                      self.options['sequence-length'])

    def rule_options(self):
        o = self.options
        return {'method': o['optimization-method'],
                'epsilon': o['numerical-stability-term'],
                'gradient_decay_rate': o['gradient-decay-rate'],
                'sqr_gradient_decay_rate': o['sqr-gradient-decay-rate'],
                'momentum': o['momentum'],
                'max_gradient_norm': o['gradient-normalization']}


class Gradients:
    """Gradients of the cost that the options ask for, of all the data."""

    def __init__(self, job, vocab, sequences):
        import theano
        import theano.tensor as tensor
        from theanolm.training import CrossEntropyCost
        o = job.options
        spec = training.connected(job.case['arch'])
        unk = int(vocab.word_to_id['<unk>'])
        exclude = unk if job.case['exclude_unk'] else None
        with sut('reference'):
            n = self.network = nets.build_network(
                spec, vocab, priors=vocab.get_class_probs())
        variables = n.get_variables()
        self.paths = list(variables)
        inputs = [n.input_word_ids, n.input_class_ids, n.target_word_ids,
                  n.target_class_ids, n.mask]
        ids, mask = nets.make_batch(
            [[int(vocab.word_to_id[w]) for w in s] for s in sequences], [0])
        classes = vocab.word_id_to_class_id[ids]
        self.batch = [ids[:-1], classes[:-1], ids[1:], classes[1:], mask[1:]]
        self.noise = [()]
        if o['cost'] == 'cross-entropy':
            with sut('reference'):
                value, _ = CrossEntropyCost(
                    n, exclude, o['l1-regularization'],
                    o['l2-regularization']).get_tensor()
        else:
            noise = tensor.ltensor3()
            inputs.append(noise)
            self.noise = self.samples_of(job, vocab, mask[1:])
            value = self.sampling_cost(job, vocab, noise, exclude)
        gradients = tensor.grad(value, [variables[k] for k in self.paths])
        self.function = theano.function(
            inputs, gradients, givens=[(n.is_training, np.int8(1))],
            on_unused_input='ignore')

    def sampling_cost(self, job, vocab, noise, exclude):
        """Noise-contrastive or BlackOut cost with given noise classes for each
        element of the mini-batch."""
        import theano
        import theano.tensor as tensor
        o = job.options
        n = self.network
        eps = o['numerical-stability-term']
        probs = theano.shared(self.noise_probs(job, vocab))
        output = n.unnormalized_logprobs()
        target = output, probs[n.target_class_ids]
        others = [(theano.clone(output, {n.target_class_ids: noise[:, :, k]}),
                   probs[noise[:, :, k]])
                  for k in range(o['num-noise-samples'])]
        if o['cost'] == 'nce':
            cost = tensor.nnet.softplus(tensor.log(target[1] + eps) -
                                        target[0])
            for x, p in others:
                cost += tensor.nnet.softplus(x - tensor.log(p + eps))
        else:
            a = tensor.exp(target[0]) / target[1]
            b = [tensor.exp(x) / p for x, p in others]
            whole = a + sum(b)
            cost = -tensor.log(a / whole + eps)
            for x in b:
                cost -= tensor.log(1.0 - x / whole + eps)
        mask = tensor.cast(n.mask, 'float64')
        if exclude is not None:
            mask *= tensor.neq(n.target_word_ids, exclude)
        value = (cost * mask).sum() / tensor.maximum(mask.sum(), 1)
        for x in n.get_variables().values():
            if o['l1-regularization'] is not None:
                value += o['l1-regularization'] * abs(x).sum()
            if o['l2-regularization'] is not None:
                value += o['l2-regularization'] * (x ** 2).sum()
        return value

    def noise_probs(self, job, vocab):
        return np.asarray(c19.exact(
            job.options['noise-distribution'], vocab.num_classes(),
            np.asarray(vocab.get_class_probs(), float),
            job.options['noise-dampening']))

    def samples_of(self, job, vocab, mask):
        """All the noise samples that could be drawn."""
        o = job.options
        num_classes = vocab.num_classes()
        k = o['num-noise-samples']
        steps, count = mask.shape
        kind = o['noise-distribution']
        probs = self.noise_probs(job, vocab)
        possible = [c for c in range(num_classes) if probs[c] > 0]
        shape = {None: (steps, count), 'seq': (steps, 1),
                 'batch': (1, 1)}[o['noise-sharing']]
        if kind == 'unigram' and o['noise-dampening'] != 0.0:
            if k > len(possible):
                raise Skip()
            one = list(itertools.combinations(possible, k))
            if o['noise-sharing'] == 'seq' and (k * steps > len(possible)):
                raise Skip()
        else:
            one = list(itertools.combinations_with_replacement(possible, k))
        # Noise of masked elements does not count.
        free = [(t, j) for t in range(shape[0]) for j in range(shape[1])
                if mask[t, j] or shape[1] == 1]
        if len(one) ** len(free) > 300:
            raise Skip()
        result = []
        for choice in itertools.product(one, repeat=len(free)):
            sample = np.zeros(shape + (k,), dtype=np.int64)
            for (t, j), x in zip(free, choice):
                sample[t, j] = x
            result.append((np.broadcast_to(sample, mask.shape + (k,)),))
        return result

    def select(self, params):
        require(set(params) >= set(self.paths), 'saved parameters are {} '
                'instead of {}', sorted(params), sorted(self.paths))
        return {k: params[k] for k in self.paths}

    def __call__(self, params):
        training.assign(self.network, params)
        for noise in self.noise:
            yield dict(zip(self.paths, self.function(*self.batch, *noise)))


def difference(got, want):
    # Parameters of the optimization method may be next to them.
    require(set(got) >= set(want), 'saved parameters are {} instead of '
            '{}', sorted(got), sorted(want))
    worst, where = 0.0, None
    for k in want:
        require(got[k].shape == want[k].shape, '{} has shape {}', k,
                got[k].shape)
        d = np.max(np.abs(got[k] - want[k]) / (1.0 + np.abs(want[k])))
        if not d <= worst:
            worst, where = float(d), k
    return worst, where


def usable(params):
    return all(np.all(np.isfinite(v)) and np.all(np.abs(v) < 1e6)
               for v in params.values())


@clean
def run_options(case, ctx):
    import copy
    with scratch_dir() as directory:
        job = Job(case, directory)
        pieces = job.pieces()
        if not pieces or job.num_classes < 2:
            raise Skip()
        o = job.options
        case_options = case['options']
        o['num-noise-samples'] = min(case['num_noise'], job.num_classes)
        if o['cost'] != 'cross-entropy' or job.num_classes < 5:
            case_options = dict(case_options, **{
                'num-noise-samples': o['num-noise-samples']})
        job.case = dict(case, options=dict(
            case_options, **{'batch-size': len(pieces) + case['spare']}))
        train(job.arguments('initial', **{'learning-rate': 0.0,
                                          'stopping-criterion': 'epoch-count',
                                          'max-epochs': 1}))
        initial = job.read('initial')
        require(initial is not None, 'no model was saved')
        vocab = job.check_model_file('initial')
        sequences = [[w if w in job.vocab_model.class_of else '<unk>'
                      for w in s] for s, _ in pieces]
        gradients = Gradients(job, vocab, sequences)
        o_rule = job.rule_options()
        # The states that explain what was seen: different noise may lead to
        # (almost) the same parameters.
        rules = [c21.Rule(o_rule, gradients.select(initial))]
        weights = dict(enumerate(case['weights']))
        words = [weights.get(i, 1.0) for s, i in pieces for _ in s[1:]]
        alpha = o['learning-rate'] * float(np.mean(words))
        done = 0
        several = len(gradients.noise) > 1
        for stage, epochs in enumerate(case['stages']):
            if several:
                epochs = min(epochs, done + 1)
            train(job.arguments('model', **{
                'stopping-criterion': 'epoch-count', 'max-epochs': epochs}))
            got = job.read('model')
            if epochs <= done:
                d = difference(got, rules[0].params)
                require(d[0] < 2e-6, 'training for {} epochs changes the '
                        'model of {} epochs', epochs, done)
                continue
            for _ in range(done, epochs - 1):
                rules[0].step(next(gradients(rules[0].params)), alpha)
            best, matching = None, []
            for rule in rules:
                for g in gradients(rule.params):
                    other = copy.deepcopy(rule)
                    other.step(g, alpha)
                    if not usable(other.params):
                        raise Skip()
                    d = difference(got, other.params)
                    if best is None or d[0] < best[0]:
                        best = d
                    if d[0] < 1e-6:
                        matching.append(other)
            require(matching, 'after {} epochs (stage {}), {} differs by {} '
                    'from training with {}', epochs, stage, best[1], best[0],
                    o)
            done = epochs
            rules = matching
            if len(rules) > 20:
                break
        job.check_model_file('model')
    ctx.label(o['optimization-method'])
    ctx.label('{} cost'.format(o['cost']))
    ctx.label('{} noise'.format(o['noise-distribution']),
              o['cost'] != 'cross-entropy')
    ctx.label('several possible noise samples', several)
    ctx.label('weights', bool(case['weights']))
    ctx.label('continued', len(case['stages']) > 1)
    ctx.label('exclude unk', case['exclude_unk'] and
              any('<unk>' in s[1:] for s in sequences))
    ctx.label('split', o['sequence-length'] < 20 and any(
        len(gen.utterance(x)) > o['sequence-length']
        for f in case['files'] for x in f))
    ctx.label('compressed', case['gz'] & 1 == 1)
    ctx.label('vocabulary file', case['vocab'] is not None)
    ctx.label('generated classes', case['vocab'] is None and
              case['num_classes'] is not None)
    ctx.mark(len(case_options) > 1 and done > 0 and len(pieces) > 1)


class Uncertain(Exception):
    """A decision depends on a difference that is within rounding errors."""


class Schedule(c23.Model):
    """The model of the training schedule, with real parameters."""

    def __init__(self, o, updates, rule, gradients, perplexity, alpha_scale):
        super().__init__(o, updates)
        self.rule, self.gradients = rule, gradients
        self.perplexity, self.scale = perplexity, alpha_scale

    def snapshot(self):
        import copy
        return dict(super().snapshot(), rule=copy.deepcopy(self.rule))

    def step(self):
        if self.counter >= c23.CAP:
            raise c23.Enough()
        self.rule.step(next(self.gradients(self.rule.params)),
                       self.lr * self.scale)
        if not usable(self.rule.params):
            raise Uncertain()
        super().step()

    def validate(self):
        d = self.distance()
        self.o['costs'] = [None]
        if d <= self.o['samples'] - 1:
            cost = self.perplexity(self.rule.params)
            if not cost < 1e8:
                raise Uncertain()
            self.o['costs'] = [cost]
            if d == 0 and len(self.samples) == self.o['samples'] - 1 and \
                    self.best_cost() is not None:
                value = np.median(self.samples + [cost])
                if abs(value / (0.999 * self.best_cost()) - 1.0) < 1e-7 or \
                        abs(value / self.best_cost() - 1.0) < 1e-9:
                    raise Uncertain()
        super().validate()

    def anneal(self):
        import copy
        super().anneal()
        self.rule = copy.deepcopy(self.candidate['rule'])

    def resume(self):
        """A new process continues from the saved model."""
        import copy
        result = Schedule(self.o, self.U, copy.deepcopy(
            self.candidate['rule']), self.gradients, self.perplexity,
            self.scale)
        c = self.candidate
        result.epoch, result.update = c['epoch'], c['update']
        result.history, result.lr = list(c['history']), c['lr']
        result.candidate = c
        return result


@clean
def run_schedule(case, ctx):
    with scratch_dir() as directory:
        job = Job(case, directory)
        o = job.options
        pieces = job.pieces()
        if len(set(map(repr, pieces))) != 1 or job.num_classes < 2 or \
                len(pieces) != len(case['files'][0]):
            raise Skip()
        if job.num_classes < 5:
            job.case = dict(case, options=dict(case['options'], **{
                'num-noise-samples': job.num_classes}))
        n = len(pieces)
        for x in case['sampling'][:1]:
            n = round(x * n)
        if n < 1:
            raise Skip()
        updates = -(-n // o['batch-size'])
        train(job.arguments('initial', **{'learning-rate': 0.0,
                                          'stopping-criterion': 'epoch-count',
                                          'max-epochs': 1}))
        initial = job.read('initial')
        require(initial is not None, 'no model was saved')
        vocab = job.check_model_file('initial')
        sequences = [[w if w in job.vocab_model.class_of else '<unk>'
                      for w in s] for s, _ in pieces[:1]]
        gradients = Gradients(job, vocab, sequences)
        name = 'valid' + ('.gz' if case['gz'] >> 1 & 1 else '')
        path = write_text(os.path.join(directory, name),
                          gen.render(case['validation'], case['style']))
        validation = [s for s, _ in c04.expected_sequences(
            [case['validation']], o['sequence-length'])]
        spec = training.connected(case['arch'])
        if not validation:
            raise Skip()

        def perplexity(params):
            reference = c11.Reference(
                spec, job.vocab_model, vocab,
                {k[len('layers/'):]: v for k, v in params.items()}, True,
                case['exclude_unk'], network_excludes=False)
            sums = [c11.total(reference.words(s)) for s in validation]
            count = sum(c for _, c in sums)
            if not count:
                raise Skip()
            return math.exp(-sum(s for s, _ in sums) / count)

        schedule = {'validation': True, 'samples': 7, 'statistic': None,
                    'costs': [None],
                    'validation_frequency': o['validation-frequency'],
                    'patience': o['patience'],
                    'stopping': o['stopping-criterion'],
                    'min_epochs': o['min-epochs'],
                    'max_annealing_count': o['max-annealing-count'],
                    'learning_rate': o['learning-rate']}
        model = Schedule(schedule, updates,
                         c21.Rule(job.rule_options(),
                                  gradients.select(initial)), gradients,
                         perplexity, (case['weights'] or [1.0])[0])
        annealings = total = 0
        for stage, epochs in enumerate(case['stages']):
            schedule['max_epochs'] = epochs
            try:
                model.run()
            except (Uncertain, c23.Enough):
                if stage == 0:
                    raise Skip()
                break
            out = train(job.arguments('model', **{'max-epochs': epochs}) +
                        ['--validation-file', path])
            got = job.read('model')
            c = model.candidate
            annealings += model.annealings
            total += model.counter
            if c is None:
                require(got is None, 'a model was saved without validation')
                require('has not been trained' in out, 'the message is {!r}',
                        out)
                break
            require(got is not None, 'no model was saved')
            d = difference(got, c['rule'].params)
            require(d[0] < 1e-6, 'stage {}: {} differs by {} from the model '
                    'of epoch {}, update {} (validations {})', stage, d[1],
                    d[0], c['epoch'], c['update'], c['history'])
            with h5py.File(os.path.join(directory, 'model'), 'r') as state:
                history = state['trainer/cost_history'][()].tolist()
                position = [int(state['trainer'].attrs[x]) for x in
                            ('epoch_number', 'update_number')]
                rate = float(state['optimizer'].attrs['learning_rate'])
            require(len(history) == len(c['history']) and
                    np.allclose(history, c['history'], 1e-6, 0.0),
                    'stage {}: cost history is {} instead of {}', stage,
                    history, c['history'])
            require(position == [c['epoch'], c['update']], 'stage {}: '
                    'position is {} instead of {}', stage, position,
                    [c['epoch'], c['update']])
            require(close(rate, c['lr'], 1e-12, 0.0), 'stage {}: learning '
                    'rate is {} instead of {}', stage, rate, c['lr'])
            printed = [float(x.rsplit(' ', 1)[1]) for x in out.splitlines()
                       if x.startswith('Best validation set perplexity:')]
            want = perplexity(c['rule'].params)
            require(len(printed) == 1 and close(printed[0], want, 1e-5, 0.0),
                    'perplexity of the best model is {}, printed {}', want,
                    printed)
            model = model.resume()
    ctx.label('stopping ' + o['stopping-criterion'])
    ctx.label('annealing', annealings > 0)
    ctx.label('never validated', c is None)
    ctx.label('continued', stage > 0)
    ctx.label('sampling', n != len(pieces))
    ctx.label('several validations', c is not None and len(c['history']) > 1)
    ctx.label('exclude unk', case['exclude_unk'])
    ctx.label('compressed', bool(case['gz'] & 2))
    ctx.mark(c is not None and total > 7)


@clean
def run_refused(case, ctx):
    """Command lines that do not describe any training."""
    with scratch_dir() as directory:
        job = Job(case, directory)
        if not job.pieces():
            raise Skip()
        kind = case['kind']
        if kind != 'noise' and job.num_classes < 5:
            job.argv += ['--num-noise-samples', '1']
        if kind == 'noise':
            job.argv += ['--num-noise-samples', str(job.num_classes +
                                                    case['spare'])]
        elif kind == 'weights':
            job.argv += ['--weights'] + ['0.5'] * (len(job.paths) +
                                                   case['spare'])
        elif kind == 'sampling':
            job.argv += ['--sampling'] + ['0.5'] * (len(job.paths) +
                                                    case['spare'])
        else:
            with open(os.path.join(directory, 'arch'), 'a') as f:
                f.write('layer type=fc name=loose input={}\n'.format(
                    training.connected(case['arch'])['layers'][0]['name']))
            # The last layer is the output: put it there.
            lines = open(os.path.join(directory, 'arch')).read().splitlines()
            lines = lines[:-2] + [lines[-1], lines[-2]]
            with open(os.path.join(directory, 'arch'), 'w') as f:
                f.write('\n'.join(lines) + '\n')
        with sut('train'):
            try:
                out = command(job.arguments('model', **{'max-epochs': 1}))
            except SystemExit as e:
                require(e.code not in (0, None), 'train exits with {}',
                        e.code)
            else:
                raise Violation('train {} succeeds: {}'.format(job.argv, out))
        require(job.read('model') is None, 'a model was saved')
    ctx.label(kind)
    ctx.mark()


# Generators ----------------------------------------------------------------

ARCH_KINDS = ['fc', 'tanh', 'lstm', 'gru', 'highway', 'add', 'bgru']


@st.composite
def base(draw, max_lines, sampled_cost=False):
    """Everything but the data."""
    kind = draw(st.sampled_from(['none', 'none', 'classes', 'file', 'file',
                                 'file']))
    vocab = None
    if kind == 'file':
        vocab = draw(gen.vocab_specs(max_words=5, plain=True, counts=False,
                                     allow_oos=False))
    options = {}

    def option(name, strategy):
        if draw(st.booleans()):
            options[name] = draw(strategy)
    if draw(st.integers(0, 4)):
        options['optimization-method'] = draw(st.sampled_from(c21.METHODS))
    option('learning-rate', st.sampled_from([0.003, 0.05, 0.1, 0.5, 1.0]))
    option('momentum', st.sampled_from([0.0, 0.5, 0.99]))
    option('gradient-decay-rate', st.sampled_from([0.1, 0.5, 0.95]))
    option('sqr-gradient-decay-rate', st.sampled_from([0.5, 0.99]))
    option('numerical-stability-term', st.sampled_from([1e-8, 1e-3, 0.1]))
    option('gradient-normalization', st.sampled_from([0.01, 0.3, 5, 100.0]))
    if draw(st.integers(0, 3)) == 0:
        options['l1-regularization'] = draw(st.sampled_from([0.1, 0.01]))
    if draw(st.integers(0, 3)) == 0:
        options['l2-regularization'] = draw(st.sampled_from([0.1, 0.01]))
    if draw(st.booleans()):
        options['sequence-length'] = draw(st.sampled_from([2, 3, 4, 6, 50]))
    outputs = ('softmax',) if sampled_cost else ('softmax', 'softmax',
                                                  'hsoftmax')
    extra = draw(st.sampled_from([[], [], ['--log-level', 'debug'],
                                  ['--log-interval', '1'],
                                  ['--log-level', 'warn'],
                                  ['--print-graph']]))
    return {'vocab': vocab, 'options': options, 'extra': extra,
            'num_classes': draw(st.integers(1, 4))
            if kind == 'classes' else None,
            'arch': draw(nets.arch_specs(max_hidden=1, outputs=outputs,
                                         devices=False, kinds=ARCH_KINDS)),
            'exclude_unk': draw(st.integers(0, 3)) == 0,
            'weights': [], 'sampling': [], 'gz': 0,
            'seed': draw(st.integers(0, 1000)),
            'style': draw(st.integers(0, 7)),
            'final_newline': draw(st.booleans())}


def draw_files(draw, case, max_files, max_lines, max_tokens):
    known = gen.PLAIN[:6] if case['vocab'] is None else \
        case['vocab']['words'] + gen.PLAIN[:2]
    files = [draw(gen.corpus_lines(known, max_lines=max_lines,
                                   max_tokens=max_tokens)) or [[known[0]]]
             for _ in range(draw(st.integers(1, max_files)))]
    for lines in files:
        if not lines[-1]:
            lines[-1] = [known[0]]
    return files


@st.composite
def option_cases(draw):
    cost = draw(st.sampled_from([None, None, None, 'cross-entropy', 'nce',
                                 'nce', 'blackout', 'blackout']))
    sampled = cost in ('nce', 'blackout')
    case = draw(base(4, sampled))
    o = case['options']
    small = False
    if cost is not None:
        o['cost'] = cost
    case['num_noise'] = draw(st.integers(1, 5))
    if sampled:
        sharing = draw(st.sampled_from([None, 'seq', 'batch', 'batch',
                                        'batch']))
        if sharing is not None:
            o['noise-sharing'] = sharing
        kind = draw(st.sampled_from([None, 'uniform', 'log-uniform',
                                     'unigram', 'unigram']))
        if kind is not None:
            o['noise-distribution'] = kind
        if kind == 'unigram' and draw(st.booleans()):
            o['noise-dampening'] = draw(st.sampled_from([0.0, 0.3, 1.0]))
        if sharing != 'batch':
            case['num_noise'] = 1
            small = True
    case['files'] = draw_files(draw, case, 1 if small else 3,
                               1 if small else 4, 1 if small else 6)
    case['gz'] = draw(st.sampled_from([0, 0, 0, 1, 2, 7]))
    if not case['exclude_unk'] and draw(st.integers(0, 2)) == 0:
        case['weights'] = draw(st.lists(
            st.sampled_from([0.1, 0.5, 1.0, 2.0]), min_size=1,
            max_size=len(case['files'])))
    case['spare'] = draw(st.integers(0, 2))
    stages = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    case['stages'] = sorted(stages) if draw(st.integers(0, 4)) else stages
    return case


@st.composite
def schedule_cases(draw):
    case = draw(base(3))
    o = case['options']
    known = gen.PLAIN[:6] if case['vocab'] is None else \
        case['vocab']['words'] + gen.PLAIN[:2]
    limit = o.get('sequence-length', 100)
    line = draw(st.lists(st.sampled_from(known), min_size=1,
                         max_size=max(1, min(6, limit - 2))))
    line = [x for x in line if x not in ('<s>', '</s>')] or ['a']
    if limit < 3:
        line = ['<s>']
    batch = draw(st.integers(1, 3))
    frequency = draw(st.integers(1, 3))
    updates = draw(st.integers(7, 24))
    if draw(st.integers(0, 5)):
        updates = max(updates, 7 * frequency)
    n = updates * batch - draw(st.integers(0, batch - 1))
    if draw(st.integers(0, 3)) == 0:
        fraction = draw(st.sampled_from([0.5, 0.75]))
        case['sampling'] = [fraction]
        n = int(n / fraction)
    case['files'] = [[line] * n]
    o['batch-size'] = batch
    o['validation-frequency'] = frequency
    if draw(st.integers(0, 2)):
        o['stopping-criterion'] = draw(st.sampled_from(
            ['epoch-count', 'no-improvement', 'annealing-count']))
    o['patience'] = draw(st.sampled_from([0, 0, 0, 0, -1, 1, 2]))
    if draw(st.booleans()):
        o['min-epochs'] = draw(st.integers(0, 3))
    if draw(st.integers(0, 2)):
        o['max-annealing-count'] = draw(st.sampled_from([1, 2, 1, 0]))
    o['learning-rate'] = draw(st.sampled_from([0.003, 0.1, 0.1, 1.0]))
    if draw(st.integers(0, 3)) == 0:
        case['weights'] = [draw(st.sampled_from([0.1, 0.5, 2.0]))]
    others = [x for x in known if x not in line] or known
    kind = draw(st.sampled_from(['different', 'different', 'mixed', 'like']))
    # Different data is predicted worse and worse.
    case['validation'] = draw(gen.corpus_lines(
        others if kind == 'different' else known + line, max_lines=3,
        max_tokens=4)) or [[others[0]]]
    if not case['validation'][-1]:
        case['validation'][-1] = [others[0]]
    if kind == 'like':
        # somewhat like the training data: the best model is not the first
        case['validation'].append(line)
    case['gz'] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    case['stages'] = draw(st.sampled_from([[3], [4], [2], [1], [1, 2], [2, 4],
                                           [3, 3], [3, 6]]))
    return case


@st.composite
def refused_cases(draw):
    case = draw(base(2))
    case['options'] = {}
    case['files'] = draw_files(draw, case, 2, 2, 3)
    case['kind'] = draw(st.sampled_from(['noise', 'weights', 'sampling',
                                         'architecture']))
    case['spare'] = draw(st.integers(1, 2))
    return case


A = ['Theano graphs are evaluated by its NumPy backend in double precision']
PARTS = [
    Part('options', option_cases(), run_options, 120, 3000, workers=4,
         rule='at least two options besides the files, more than one sequence '
              'and at least one epoch',
         assumptions=A + ['all the data fits in one mini-batch',
                          'no more than 300 possible noise samples']),
    Part('schedule', schedule_cases(), run_schedule, 70, 2000, workers=4,
         rule='a model was saved, after more than 7 updates',
         assumptions=A + ['all training lines are the same',
                          'no decision depends on a difference of less than '
                          '1e-7']),
    Part('refused', refused_cases(), run_refused, 24, 200,
         rule='all'),
]
