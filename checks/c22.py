"""C22: interrupted training continues as if it had not been interrupted.

A real trainer, network, optimizer and data iterator are interrupted after any
number of updates; the model file as it is on disk at that moment is given to
new objects that continue.

Oracle: the history of the uninterrupted run, from the state that was saved."""

import contextlib
import gc
import io
import os
import shutil
import zlib

import numpy as np
from hypothesis import strategies as st

from vh import nets, training
from vh.core import Part, Skip, Violation, expect_raises, require, \
    scratch_dir, sut

CAP = 45
METHODS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd',
           'rmsprop-nesterov', 'adam']
WORDS = ['a', 'b', 'c', 'd', 'e']


class Interrupted(Exception):
    pass


class Scorer:
    """Validation cost that depends on nothing but the parameters."""

    def __init__(self, network):
        self.network = network

    def compute_perplexity(self, batch_iter):
        total = sum(float(v.get_value().sum())
                    for v in self.network.get_variables().values())
        return 100.0 + 50.0 * np.sin(300.0 * total)


class Run:
    """One process that trains a model."""

    def __init__(self, case, directory, stack, model_path, method=None,
                 arch=None):
        import h5py
        from theanolm import Vocabulary
        from theanolm.training import (CrossEntropyCost, Trainer,
                                       create_optimizer)
        o = case['options']
        self.case = case
        self.trace = []
        self.model_path = model_path
        np.random.seed(4711)
        files = [stack.enter_context(open(os.path.join(directory,
                                                       'train%d' % i)))
                 for i in range(len(case['files']))]
        vocab = Vocabulary.from_word_counts({w: i + 1 for i, w
                                             in enumerate(WORDS)})
        self.state = stack.enter_context(
            h5py.File(model_path, 'a', driver='core'))
        with contextlib.redirect_stdout(io.StringIO()):
            self.trainer = Trainer({
                'batch_size': o['batch_size'],
                'sequence_length': o['sequence_length'],
                'validation_frequency': o['validation_frequency'],
                'patience': o['patience'],
                'stopping_criterion': 'epoch-count',
                'max_epochs': o['max_epochs'], 'min_epochs': 1,
                'max_annealing_count': 0}, vocab, files, o['sampling'])
            self.network = nets.build_network(
                training.connected(arch or case['arch']), vocab)
            cost = CrossEntropyCost(self.network)
            self.optimizer = create_optimizer(
                training.options(method or case['method'],
                                 learning_rate=o['learning_rate'],
                                 weights=np.array(o['weights'])),
                self.network, cost)
            self.trainer.initialize(self.network, self.state, self.optimizer)
            if o['validation']:
                self.trainer.set_validation(['data'], Scorer(self.network),
                                            o['samples'])
        self.seed()
        self.original = self.optimizer.update_minibatch
        self.optimizer.update_minibatch = self.update

    def seed(self):
        """The order of data on the next epoch is random: both runs draw the
        same numbers after the same update."""
        np.random.seed(zlib.crc32('{}/{}'.format(
            int(self.trainer.epoch_number),
            int(self.trainer.update_number)).encode()))

    def params(self):
        return {k: v.tolist()
                for k, v in training.values(self.network).items()}

    def update(self, word_ids, class_ids, file_ids, mask):
        if len(self.trace) >= self.limit:
            raise Interrupted()
        t = self.trainer
        entry = {'epoch': int(t.epoch_number), 'update': int(t.update_number),
                 'learning rate': float(self.optimizer.learning_rate),
                 'number of validations': int(t.num_validations()),
                 'best cost': t.candidate_cost(),
                 'data': [np.asarray(x).tolist()
                          for x in (word_ids, file_ids, mask)]}
        self.seed()
        self.original(word_ids, class_ids, file_ids, mask)
        entry['parameters'] = self.params()
        entry['saved'] = 'trainer' in self.state
        self.trace.append(entry)

    def train(self, limit):
        """Trains until it is finished, or interrupted before the update after
        ``limit``."""
        self.limit = limit
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.trainer.train()
            return True
        except Interrupted:
            return False
        finally:
            training.close_files(self.trainer, self.state)


def write_files(case, directory):
    for i, lines in enumerate(case['files']):
        with open(os.path.join(directory, 'train%d' % i), 'w') as f:
            for line in lines:
                f.write(' '.join(WORDS[x % len(WORDS)] for x in line) + '\n')


def run(case, ctx):
    if not gc.get_freeze_count():
        gc.collect()
        gc.freeze()
    try:
        run_case(case, ctx)
    finally:
        gc.collect()


def read_saved(path):
    import h5py
    with h5py.File(path, 'r') as f:
        if 'trainer' not in f:
            return None
        params = {}

        def visit(name, item):
            if isinstance(item, h5py.Dataset) and name.startswith('layers/'):
                params[name] = item[()].tolist()
        f.visititems(visit)
        return {'epoch': int(f['trainer'].attrs['epoch_number']),
                'update': int(f['trainer'].attrs['update_number']),
                'learning rate': float(f['optimizer'].attrs['learning_rate']),
                'history': f['trainer/cost_history'][()].tolist(),
                'parameters': params}


def find(saved, trace, validation):
    """Number of updates in the trace before the saved state."""
    for i, entry in enumerate(trace):
        if all(entry['parameters'][k] == saved['parameters'].get(k)
               for k in entry['parameters']):
            if (entry['epoch'], entry['update']) == \
                    (saved['epoch'], saved['update']):
                return i + 1
            if not validation and saved['update'] == 0 and \
                    saved['epoch'] == entry['epoch'] + 1:
                return i + 1
    return None


def run_case(case, ctx):
    if not any(any(f) for f in case['files']):
        raise Skip()
    validation = case['options']['validation']
    with scratch_dir() as directory:
        write_files(case, directory)
        path = os.path.join(directory, 'model.h5')
        # The uninterrupted run; copies of the file at the interruptions.
        copies = []
        with contextlib.ExitStack() as stack, sut('training'):
            reference = Run(case, directory, stack, path)
            lines = sum(bool(x) for f in case['files'] for x in f)
            o = case['options']
            estimate = (lines + o['batch_size'] - 1) // o['batch_size'] \
                * o['max_epochs']
            points = [case['interruptions'][0] % max(1, min(CAP, estimate))]
            original = reference.update

            def update(*args):
                if len(reference.trace) in points:
                    copy = os.path.join(directory, 'copy.h5')
                    shutil.copy(path, copy)
                    copies.append(copy)
                original(*args)
            reference.optimizer.update_minibatch = update
            finished = reference.train(CAP)
        trace = reference.trace
        final = read_saved(path)
        if not all(np.isfinite(v).all() for x in trace
                   for v in x['parameters'].values()):
            raise Skip()        # training diverges
        if not copies:
            raise Skip()        # training was finished before
        current = copies[0]
        before = trace[:points[0]]
        resumed = 0
        for i in range(len(case['interruptions'])):
            saved = read_saved_or_none(current, before)
            if saved is None:
                start = 0
            else:
                start = find(saved, trace, validation)
                require(start is not None, 'the saved state (epoch {}, update '
                        '{}) is not one that training went through',
                        saved['epoch'], saved['update'])
                resumed += 1
            last = i == len(case['interruptions']) - 1
            limit = CAP - start if last else \
                min(CAP - start, case['interruptions'][i + 1] % 25)
            with contextlib.ExitStack() as stack, sut('continued training'):
                again = Run(case, directory, stack, current)
                # as the process was killed
                done = again.train(limit)
                following = os.path.join(directory, 'next%d.h5' % i)
                shutil.copy(current, following)
            for j, entry in enumerate(again.trace):
                require(start + j < len(trace), 'continued training goes on '
                        'after update {} where training ended',
                        start + j)
                want = trace[start + j]
                # The state is saved when the validation is finished, with its
                # result, but it is the state in the middle of the validation.
                known = saved is not None and \
                    want['number of validations'] < len(saved['history'])
                for key in ('epoch', 'update', 'learning rate',
                            'number of validations', 'best cost', 'data',
                            'parameters'):
                    if known and key in ('number of validations',
                                         'best cost'):
                        equal = True
                    elif key == 'parameters':
                        equal = all(np.allclose(entry[key][k], want[key][k],
                                                1e-9, 1e-12)
                                    for k in want[key])
                    elif key == 'best cost' and want[key] is not None \
                            and entry[key] is not None:
                        equal = np.isclose(entry[key], want[key], 1e-9)
                    else:
                        equal = entry[key] == want[key]
                    require(equal, '{}: {} at update {} after continuing from '
                            'update {} is {} instead of {}', case['method'],
                            key, j + 1, start, brief(entry[key], want[key]),
                            brief(want[key], entry[key]))
            if done:
                require(finished and start + len(again.trace) == len(trace),
                        'continued training ends after {} updates instead of '
                        '{}', start + len(again.trace), len(trace))
                now = read_saved(current)
                require((now is None) == (final is None), 'model saved: {}, '
                        'without interruption: {}', now is not None,
                        final is not None)
                if now is not None:
                    for key in ('epoch', 'update'):
                        require(now[key] == final[key],
                                '{} of the final model is {} instead of {}',
                                key, now[key], final[key])
                    require(all(np.allclose(now['parameters'][k],
                                            final['parameters'][k], 1e-9)
                                for k in final['parameters']),
                            'the final model differs')
                break
            require(len(again.trace) == limit, 'continued training stops after '
                    '{} updates', len(again.trace))
            current = following
            if saved is None:
                before = again.trace
    ctx.label(case['method'])
    ctx.label('validation', validation)
    ctx.label('continued from a saved state', resumed > 0)
    ctx.label('continued more than once', resumed > 1)
    ctx.label('annealing', len({x['learning rate'] for x in trace}) > 1)
    ctx.label('sentences in parts',
              any(len(x) > case['options']['sequence_length']
                  for f in case['files'] for x in f))
    ctx.mark(resumed > 0)


def read_saved_or_none(path, trace):
    """The saved state, if there is any.  Before the first state is saved, the
    file may be incomplete: then training starts again with a new file."""
    try:
        return read_saved(path)
    except OSError as e:
        if any(x['saved'] for x in trace):
            raise Violation('the file on disk is not readable: {}'.format(e))
        os.remove(path)
        return None


def brief(a, b):
    if isinstance(a, dict):
        for k in a:
            if not np.allclose(a[k], b.get(k), 1e-9, 1e-12):
                return k, np.array(a[k]).flatten()[:4].tolist()
    return a


def run_incompatible(case, ctx):
    """States that lack something that the training setup needs."""
    import h5py
    from theanolm.backend import IncompatibleStateError
    if not any(any(f) for f in case['files']):
        raise Skip()
    damage = case['damage']
    method = arch = None
    with scratch_dir() as directory:
        write_files(case, directory)
        path = os.path.join(directory, 'model.h5')
        with contextlib.ExitStack() as stack, sut('training'):
            first = Run(case, directory, stack, path)
            first.train(case['interruptions'][0] % 5)
            first.trainer.get_state(first.state)
        if damage == 'method':
            order = {'sgd': METHODS[1:], 'nesterov': ['adam', 'adagrad'],
                     'adagrad': ['nesterov', 'adam', 'adadelta'],
                     'adadelta': ['nesterov', 'adam', 'rmsprop-nesterov'],
                     'rmsprop-sgd': ['nesterov', 'adadelta', 'adam'],
                     'rmsprop-nesterov': ['adam', 'adadelta'],
                     'adam': ['nesterov', 'adadelta', 'adagrad']}
            choices = order[case['method']]
            method = choices[case['choice'] % len(choices)]
        elif damage == 'architecture':
            arch = {k: v for k, v in case['arch'].items()}
            arch['layers'] = [dict(x) for x in arch['layers']]
            x = arch['layers'][0]
            x['size'] = x['size'] + 1 + case['choice'] % 3
            for x in arch['layers']:
                if x['type'] == 'highway':
                    x.pop('size', None)
        else:
            with h5py.File(path, 'a') as f:
                names = []
                f.visit(names.append)
                if damage == 'parameter':
                    names = sorted(x for x in names
                                   if x.startswith('layers/') and
                                   isinstance(f[x], h5py.Dataset))
                    del f[names[case['choice'] % len(names)]]
                elif '@' in damage:
                    group, attribute = damage.split('@')
                    del f[group].attrs[attribute]
                else:
                    del f[damage]
        with contextlib.ExitStack() as stack:
            expect_raises(
                'continuing {} training with {} after removing {}'.format(
                    case['method'], method or 'it', damage),
                IncompatibleStateError,
                lambda: Run(case, directory, stack, path, method, arch))
    ctx.label(damage)
    ctx.mark()


def contents(path):
    """Everything that is in a model file."""
    import h5py
    result = {}

    def visit(name, item):
        if isinstance(item, h5py.Dataset):
            result[name] = np.asarray(item[()]).tolist()
        for key, value in item.attrs.items():
            result[name + '@' + key] = np.asarray(value).tolist()
    with h5py.File(path, 'r') as f:
        f.visititems(visit)
    return result


def run_replace(case, ctx):
    """A state saved over that of another run is as one saved in a new file."""
    import h5py
    if not any(any(f) for f in case['files']):
        raise Skip()
    with scratch_dir() as directory:
        write_files(case, directory)
        paths = [os.path.join(directory, 'model%d.h5' % i) for i in range(3)]
        other = dict(case, options=dict(case['options'], **case['other']))
        with contextlib.ExitStack() as stack, sut('training'):
            first = Run(case, directory, stack, paths[0])
            first.train(case['updates'][0])
            first.trainer.get_state(first.state)
        with contextlib.ExitStack() as stack, sut('training'):
            second = Run(other, directory, stack, paths[1])
            second.train(case['updates'][1])
            with h5py.File(paths[0], 'a') as f:
                second.trainer.get_state(f)
            with h5py.File(paths[2], 'w') as f:
                second.trainer.get_state(f)
        replaced, fresh = contents(paths[0]), contents(paths[2])
    for key in sorted(set(replaced) | set(fresh)):
        a, b = replaced.get(key), fresh.get(key)
        require(repr(a) == repr(b), '{} is {} when saved over another state, '
                'and {} in a new file', key, a, b)
    history = [x for x in fresh if x.endswith('cost_history')]
    ctx.label(case['method'])
    ctx.label('costs', any(fresh[x] for x in history))
    ctx.mark(len(first.trace) > 0 and len(second.trace) > 0)


@st.composite
def replace_cases(draw):
    case = draw(cases())
    case['options']['validation'] = draw(st.sampled_from([True, True, False]))
    case['other'] = {'learning_rate': draw(st.sampled_from([0.2, 0.05, 0.01])),
                     'batch_size': draw(st.integers(1, 3)),
                     'validation_frequency': draw(st.integers(1, 3))}
    case['updates'] = [draw(st.integers(0, 20)), draw(st.integers(0, 20))]
    return case


@st.composite
def cases(draw):
    line = st.lists(st.integers(0, 4), min_size=1, max_size=7)
    files = draw(st.lists(st.lists(line, min_size=1, max_size=9), min_size=1,
                          max_size=2))
    samples = draw(st.sampled_from([1, 1, 2, 3]))
    kinds = ['fc', 'gru', 'lstm', 'highway']
    return {'files': files,
            'arch': draw(nets.arch_specs(max_hidden=1, kinds=kinds,
                                         devices=False,
                                         outputs=('softmax', 'softmax',
                                                  'hsoftmax'))),
            'method': draw(st.sampled_from(METHODS)),
            'options': {
                'batch_size': draw(st.integers(1, 3)),
                'sequence_length': draw(st.sampled_from([4, 20, 20])),
                'sampling': draw(st.sampled_from([[], [], [], [0.6]])),
                'validation': draw(st.sampled_from([True, True, True, False])),
                'validation_frequency': draw(st.integers(1, 3)),
                'samples': samples,
                'patience': draw(st.sampled_from([-1, 0, 1, 2])),
                'max_epochs': draw(st.integers(2, 6)),
                'learning_rate': draw(st.sampled_from([0.1, 0.1, 0.03,
                                                       0.004])),
                'weights': draw(st.lists(st.sampled_from([1.0, 0.5]),
                                         min_size=len(files),
                                         max_size=len(files)))},
            'interruptions': draw(st.lists(st.integers(0, CAP - 1),
                                           min_size=1, max_size=3))}


@st.composite
def incompatible_cases(draw):
    case = draw(cases())
    case['damage'] = draw(st.sampled_from(
        ['method', 'method', 'architecture', 'parameter', 'iterator',
         'iterator/order', 'iterator@next_line', 'optimizer@learning_rate',
         'trainer@epoch_number', 'trainer@update_number']))
    case['choice'] = draw(st.integers(0, 50))
    return case


A = ['Theano graphs are evaluated by its NumPy backend in double precision',
     'the network does not use dropout and the cost is not sampling-based '
     '(the state of their random number generator is not saved)',
     'the random order of later epochs is drawn from equally seeded generators',
     'the training files are the same']
PARTS = [
    Part('interruption', cases(), run, 90, 3000, workers=7, assumptions=A,
         rule='training continues from a state that was saved'),
    Part('incompatible', incompatible_cases(), run_incompatible, 25, 400,
         assumptions=A, rule='every case'),
    Part('replace', replace_cases(), run_replace, 40, 600, assumptions=A,
         workers=2, rule='both runs update the parameters'),
]
