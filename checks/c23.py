"""C23: training keeps the best validated model, anneals and stops as specified.

The real trainer and data iterators run with a network that is just a number
(every update gives it a new one), an optimizer that records what it is told,
and a scorer that returns a generated sequence of costs.

Oracle: a model of the training schedule, written from the documentation."""

import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from vh import training
from vh.core import Part, Skip, require, scratch_dir, sut

CAP = 400


class Enough(Exception):
    """The number of updates reached the limit of the check."""


class StubNetwork:
    def __init__(self):
        self.value = 0

    def get_state(self, state):
        group = state.require_group('layers')
        group.attrs['value'] = self.value

    def set_state(self, state):
        self.value = int(state['layers'].attrs['value'])


class StubOptimizer:
    def __init__(self, network, learning_rate):
        self.network = network
        self.learning_rate = learning_rate
        self.trainer = None
        self.counter = 0
        self.trace = []
        self.validations = []

    def get_state(self, state):
        state.require_group('optimizer').attrs['learning_rate'] = \
            self.learning_rate

    def set_state(self, state):
        self.learning_rate = float(state['optimizer'].attrs['learning_rate'])

    def update_minibatch(self, word_ids, class_ids, file_ids, mask):
        if self.counter >= CAP:
            raise Enough()
        self.counter += 1
        self.network.value = self.counter
        self.trace.append({
            'epoch': int(self.trainer.epoch_number),
            'update': int(self.trainer.update_number),
            'lr': float(self.learning_rate),
            'num_validations': int(self.trainer.num_validations()),
            'candidate_cost': self.trainer.candidate_cost(),
            'data': np.asarray(word_ids).tolist()})


class StubScorer:
    def __init__(self, costs):
        self.costs = costs
        self.calls = 0

    def compute_perplexity(self, batch_iter):
        cost = cost_of(self.costs, self.calls)
        self.calls += 1
        return cost


def cost_of(costs, call):
    return float(costs[call % len(costs)])


STATISTICS = {None: None, 'mean': lambda x: float(np.mean(x)),
              'min': lambda x: float(np.min(x))}


class Model:
    """What training should do."""

    def __init__(self, o, updates_per_epoch, observed=None):
        self.o = o
        self.U = updates_per_epoch
        # When the number of updates varies, the end of an epoch is seen in the
        # observed history.
        self.observed = observed
        self.f = o['validation_frequency']
        self.epoch, self.update = 1, 0
        self.value, self.counter = 0, 0
        self.lr = o['learning_rate']
        self.history = []
        self.candidate = None      # the saved state
        self.samples, self.center = [], None
        self.calls = 0
        self.trace = []
        self.annealings = 0
        self.order = 0             # identifies the shuffling of the data
        self.orders = 0
        self.improved, self.previous_cost = True, None

    def distance(self):
        """Number of updates to the next validation point."""
        u = self.update
        while (u * self.f) // self.U == ((u - 1) * self.f) // self.U:
            u += 1
        return u - self.update

    def snapshot(self):
        return {'epoch': self.epoch, 'update': self.update, 'lr': self.lr,
                'value': self.value, 'history': list(self.history),
                'order': self.order}

    def best_cost(self):
        if self.candidate is None or not self.candidate['history']:
            return None
        return self.candidate['history'][-1]

    def step(self):
        if self.counter >= CAP:
            raise Enough()
        self.update += 1
        self.counter += 1
        self.value = self.counter
        self.trace.append({'epoch': self.epoch, 'update': self.update,
                           'lr': self.lr,
                           'num_validations': len(self.history),
                           'candidate_cost': self.best_cost(),
                           'order': self.order})
        if self.o['validation']:
            self.validate()

    def validate(self):
        o = self.o
        S = o['samples']
        d = self.distance()
        if d > S - 1:
            return
        self.samples.append(cost_of(o['costs'], self.calls))
        self.calls += 1
        if d <= S // 2 and self.center is None:
            self.center = self.snapshot()
        if d > 0:
            return
        if len(self.samples) == S:
            statistic = {None: np.median, 'mean': np.mean,
                         'min': np.min}[o['statistic']](self.samples)
            self.history.append(float(statistic))
            if self.best_cost() is None or \
                    statistic < 0.999 * self.best_cost():
                self.candidate = dict(self.center,
                                      history=list(self.history))
            since = len(self.history) - len(self.candidate['history'])
            if o['patience'] >= 0 and since > o['patience']:
                self.anneal()
        self.samples, self.center = [], None

    def anneal(self):
        c = self.candidate
        lr = self.lr / 2
        self.epoch, self.update = c['epoch'], c['update']
        self.value, self.history = c['value'], list(c['history'])
        self.order = c['order']
        self.lr = lr
        self.annealings += 1
        if self.previous_cost is not None:
            self.improved = self.best_cost() < self.previous_cost
        self.previous_cost = self.best_cost()

    def go_on(self):
        o = self.o
        if o['stopping'] == 'epoch-count':
            return True
        if self.epoch <= o['min_epochs']:
            return True
        if o['stopping'] == 'annealing-count':
            return self.annealings <= o['max_annealing_count']
        if not self.improved and self.best_cost() < self.previous_cost:
            self.improved = True
        return self.improved

    def more_data(self):
        if self.observed is None:
            return self.update < self.U
        i = len(self.trace)
        return i < len(self.observed) and \
            self.observed[i]['epoch'] == self.epoch and \
            self.observed[i]['update'] == self.update + 1

    def run(self):
        o = self.o
        while self.epoch <= o['max_epochs'] and self.go_on():
            while self.more_data():
                self.step()
                if not self.go_on():
                    break
            self.samples, self.center = [], None
            self.orders += 1
            self.order = self.orders
            self.epoch += 1
            self.update = 0
            if not o['validation']:
                self.candidate = self.snapshot()


def run(case, ctx):
    # States that a previous trainer left open have the same name.
    import gc
    import theanolm
    if not gc.get_freeze_count():
        gc.collect()
        gc.freeze()
    try:
        run_case(case, ctx)
    finally:
        gc.collect()


def run_case(case, ctx):
    import h5py
    from theanolm import Vocabulary
    from theanolm.training import Trainer
    o = case
    fractions = o['sampling']
    sizes = [round(n * (fractions[i] if i < len(fractions) else 1.0))
             for i, n in enumerate(o['lines'])]
    if sum(sizes) == 0:
        sizes[0] = o['lines'][0]
        fractions = [1.0] + fractions[1:]
    updates = -(-sum(sizes) // o['batch_size'])
    uneven = bool(o['long'])
    with scratch_dir() as directory, contextlib.ExitStack() as stack:
        files = []
        words = ['w%d' % i for i in range(7)]
        for i, n in enumerate(o['lines']):
            path = os.path.join(directory, 'train%d' % i)
            with open(path, 'w') as f:
                for j in range(n):
                    # every line is different
                    digits = np.base_repr(1000 * (i + 1) + j, 7)
                    if uneven:
                        digits *= o['long'][j % len(o['long'])]
                    f.write(' '.join(words[int(x)] for x in digits) + '\n')
            files.append(stack.enter_context(open(path)))
        vocab = Vocabulary.from_word_counts({w: 1 for w in words})
        state = stack.enter_context(h5py.File(
            os.path.join(directory, 'model.h5'), 'w'))
        training_options = {
            'batch_size': o['batch_size'], 'sequence_length': 20,
            'validation_frequency': o['validation_frequency'],
            'patience': o['patience'], 'stopping_criterion': o['stopping'],
            'max_epochs': o['max_epochs'], 'min_epochs': o['min_epochs'],
            'max_annealing_count': o['max_annealing_count']}
        cut = False
        network = StubNetwork()
        optimizer = StubOptimizer(network, o['learning_rate'])
        scorer = StubScorer(o['costs'])
        with sut('trainer'), contextlib.redirect_stdout(io.StringIO()):
            trainer = Trainer(training_options, vocab, files, fractions)
            optimizer.trainer = trainer
            trainer.initialize(network, state, optimizer)
            if o['validation']:
                trainer.set_validation(['validation data'], scorer,
                                       o['samples'],
                                       STATISTICS[o['statistic']])
            try:
                trainer.train()
            except Enough:
                cut = True
            finally:
                training.close_files(trainer, state)
        got = optimizer.trace
        if uneven:
            if not hasattr(trainer, '_updates_per_epoch'):
                raise Skip()
            model = Model(o, trainer._updates_per_epoch, got)
        else:
            model = Model(o, updates)
        model_cut = False
        try:
            model.run()
        except Enough:
            model_cut = True
        if uneven and cut:
            model_cut = True
        for i, (a, b) in enumerate(zip(got, model.trace)):
            for key in ('epoch', 'update', 'num_validations'):
                require(a[key] == b[key], '{} of update {} is {} instead of '
                        '{} (epoch {}, update {})', key, i + 1, a[key],
                        b[key], b['epoch'], b['update'])
            require(np.isclose(a['lr'], b['lr'], 1e-12, 0.0),
                    'learning rate of update {} is {} instead of {}', i + 1,
                    a['lr'], b['lr'])
            require((a['candidate_cost'] is None) ==
                    (b['candidate_cost'] is None) and
                    (b['candidate_cost'] is None or
                     np.isclose(a['candidate_cost'], b['candidate_cost'])),
                    'best cost before update {} is {} instead of {}', i + 1,
                    a['candidate_cost'], b['candidate_cost'])
        require(len(got) == len(model.trace) and cut == model_cut,
                'training stops after {} updates instead of {}', len(got),
                len(model.trace))
        # The data of the same shuffling is the same again after going back.
        seen = {}
        for i, (a, b) in enumerate(zip(got, model.trace)):
            key = (b['order'], b['update'])
            require(seen.setdefault(key, a['data']) == a['data'],
                    'update {} goes back to epoch {}, update {}, but uses '
                    'other data', i + 1, b['epoch'], b['update'])
        c = model.candidate
        if c is None:
            require('layers' not in state, 'a model was saved without '
                    'validation')
        else:
            require('layers' in state, 'no model was saved')
            require(int(state['layers'].attrs['value']) == c['value'],
                    'the model of update {} was saved instead of {}',
                    int(state['layers'].attrs['value']), c['value'])
            history = state['trainer/cost_history'][()].tolist()
            require(np.allclose(history, c['history']) and
                    len(history) == len(c['history']),
                    'saved cost history is {} instead of {}', history,
                    c['history'])
            require(np.isclose(state['optimizer'].attrs['learning_rate'],
                               c['lr'], 1e-12),
                    'saved learning rate is {} instead of {}',
                    state['optimizer'].attrs['learning_rate'], c['lr'])
            require(int(state['trainer'].attrs['epoch_number']) == c['epoch']
                    and int(state['trainer'].attrs['update_number']) ==
                    c['update'], 'saved position is epoch {}, update {} '
                    'instead of {}, {}',
                    state['trainer'].attrs['epoch_number'],
                    state['trainer'].attrs['update_number'], c['epoch'],
                    c['update'])
        if not cut and o['validation']:
            require(trainer.num_validations() == len(model.history),
                    'number of validations is {} instead of {}',
                    trainer.num_validations(), len(model.history))
    ctx.label('stopping ' + o['stopping'])
    ctx.label('no validation', not o['validation'])
    ctx.label('annealing', model.annealings > 0)
    ctx.label('several annealings', model.annealings > 1)
    ctx.label('update limit', model_cut)
    ctx.label('epochs of different length', uneven and
              len({x['update'] for x, y in zip(got, got[1:])
                   if y['update'] == 1}) > 1)
    ctx.label('sampling', any(x != 1.0 for x in fractions))
    ctx.label('candidate replaced', c is not None and len(c['history']) > 1)
    ctx.label('too few updates between validations',
              o['validation'] and not model.history)
    ctx.mark(model.annealings > 0 or (c is not None and
                                      len(c['history']) > 1))


@st.composite
def cases(draw):
    samples = draw(st.sampled_from([1, 1, 2, 3, 4, 7]))
    frequency = draw(st.integers(1, 6))
    batch = draw(st.integers(1, 4))
    # mostly enough updates for the validations to take place
    updates = draw(st.integers(1, 40))
    if draw(st.integers(0, 4)):
        updates = max(updates, samples * frequency)
    total = max(1, updates * batch - draw(st.integers(0, batch - 1)))
    lines = [total]
    if draw(st.booleans()) and total > 1:
        first = draw(st.integers(1, total - 1))
        lines = [first, total - first]
    sampling = draw(st.one_of(st.just([]), st.just([]), st.lists(
        st.sampled_from([0.1, 0.3, 0.5, 0.9, 1.0, 1.7]),
        min_size=1, max_size=len(lines))))
    cost = st.one_of(st.integers(50, 150).map(float),
                     st.sampled_from([100.0, 99.95, 99.89, 99.0, 1000.0]))
    costs = draw(st.lists(cost, min_size=1, max_size=40))
    if draw(st.booleans()):
        costs = sorted(costs, reverse=draw(st.booleans()))
    # Lines that are read in several parts: the number of mini-batches depends
    # on the sample.
    long = []
    if sampling and draw(st.booleans()):
        long = draw(st.lists(st.integers(1, 9), min_size=1, max_size=5))
    return {'lines': lines, 'batch_size': batch, 'long': long, 'sampling': sampling,
            'validation': draw(st.sampled_from([True] * 7 + [False])),
            'samples': samples, 'validation_frequency': frequency,
            'statistic': draw(st.sampled_from([None, None, 'mean', 'min'])),
            'costs': costs,
            'patience': draw(st.sampled_from([-1, 0, 0, 1, 1, 2, 3])),
            'stopping': draw(st.sampled_from(
                ['epoch-count', 'no-improvement', 'annealing-count'])),
            'max_epochs': draw(st.integers(0, 6)),
            'min_epochs': draw(st.integers(0, 4)),
            'max_annealing_count': draw(st.integers(0, 3)),
            'learning_rate': draw(st.sampled_from([1.0, 0.1]))}


PARTS = [
    Part('schedule', cases(), run, 1400, 20000, workers=6,
         rule='the learning rate is annealed, or a better model is found '
              'after the first validation',
         assumptions=['runs of at most {} updates'.format(CAP),
                      'validation costs are finite']),
]
