"""Generated networks and a NumPy reference implementation of them.

The reference handles one sequence at a time, without padding or mask, and is
written from the published equations of each layer and from the documentation,
not from the Theano graph."""

import zlib

import numpy as np
from hypothesis import strategies as st

from vh.core import Violation

HIDDEN = ['fc', 'tanh', 'lstm', 'gru', 'highway', 'highwaytanh', 'add',
          'dropout', 'projection-none']
BIDIRECTIONAL = ['blstm', 'bgru', 'glu']


@st.composite
def arch_specs(draw, minibatch_only=True, outputs=('softmax', 'hsoftmax'),
               max_hidden=3, devices=True, kinds=None, dropout=True,
               recurrent=False):
    """A network description.  With ``minibatch_only`` also layers that cannot
    be evaluated one time step at a time."""
    inputs = []
    layers = []
    sizes = {}
    num_inputs = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    for i in range(num_inputs):
        inputs.append({'type': draw(st.sampled_from(['word', 'class'])),
                       'name': 'in%d' % i})
    available = []
    for i in range(num_inputs):
        size = draw(st.integers(1, 4))
        name = 'proj%d' % i
        layers.append({'name': name, 'type': 'projection',
                       'inputs': ['in%d' % i], 'size': size})
        sizes[name] = size
        available.append(name)
    if kinds is None:
        kinds = ['fc', 'tanh', 'lstm', 'lstm', 'gru', 'gru', 'highway',
                 'highwaytanh', 'add'] + (['dropout'] if dropout else [])
        if minibatch_only:
            kinds = kinds + BIDIRECTIONAL
    hidden_counts = [x for x in (1, 2, 3, 2, 1, 0) if x <= max_hidden]
    if recurrent and draw(st.integers(0, 2)):
        # several recurrent layers
        kinds = ['gru', 'lstm', 'gru', 'lstm', 'gru', 'lstm'] + kinds
        hidden_counts = [max_hidden, max_hidden, 2]
    for i in range(draw(st.sampled_from(hidden_counts))):
        kind = draw(st.sampled_from(kinds))
        name = 'h%d' % i
        least, most = (1, 1) if kind == 'glu' else \
            draw(st.sampled_from([(1, 2), (1, 2), (2, 4), (3, 4)]
                                 if kind == 'add' else
                                 [(1, 2), (1, 2), (1, 2), (1, 4)]))
        chosen = draw(st.lists(st.sampled_from(available), min_size=least,
                               max_size=most,
                               unique=kind != 'add' and draw(st.booleans())))
        # the newest layer is used most of the time, so that layers stack
        if draw(st.integers(0, 3)) and available[-1] not in chosen:
            chosen[-1] = available[-1]
        layer = {'name': name, 'type': kind, 'inputs': chosen}
        total = sum(sizes[x] for x in chosen)
        default = sizes[chosen[0]] if kind == 'add' else total
        size = draw(st.one_of(st.none(), st.integers(1, 4),
                              st.sampled_from([1, 2, 3, 4, 9, 17])))
        if kind in ('highway', 'highwaytanh', 'dropout'):
            size = draw(st.sampled_from([None, total]))
        # Theano cannot iterate over states of one element.
        least = {'lstm': 2, 'gru': 2, 'blstm': 4, 'bgru': 4}.get(kind, 1)
        if (size or default) < least:
            size = least + (size or 0)
        if size is not None:
            layer['size'] = size
        sizes[name] = size or default
        if kind in ('fc', 'lstm', 'highway', 'tanh', 'highwaytanh', 'gru',
                    'blstm', 'bgru'):
            activation = draw(st.sampled_from(
                [None, None, 'tanh', 'relu', 'leakyrelu']))
            if activation is not None:
                layer['activation'] = activation
        if kind == 'glu':
            filter_size = draw(st.one_of(st.none(), st.integers(1, 6)))
            if filter_size is not None:
                layer['filter_size'] = filter_size
        if kind == 'dropout':
            rate = draw(st.sampled_from([None, 0.0, 0.3, 0.9]))
            if rate is not None:
                layer['dropout_rate'] = rate
        if devices and kind in ('fc', 'lstm', 'gru', 'highway') and \
                sizes[name] > 1 and draw(st.integers(0, 7)) == 0:
            layer['devices'] = ['dev0', 'dev1']
        layers.append(layer)
        available.append(name)
    chosen = [available[-1]]
    if draw(st.integers(0, 3)) == 0:
        chosen += draw(st.lists(st.sampled_from(available), min_size=1,
                                max_size=3))
    layers.append({'name': 'out', 'type': draw(st.sampled_from(outputs)),
                   'inputs': chosen})
    return {'inputs': inputs, 'layers': layers,
            'seed': draw(st.integers(0, 10 ** 6)),
            'scale': draw(st.sampled_from([0.3, 1.0, 1.0, 2.0]))}


def simple_arch(seed=1, kind='lstm', size=3, output='softmax'):
    return {'inputs': [{'type': 'word', 'name': 'in0'}],
            'layers': [{'name': 'proj0', 'type': 'projection',
                        'inputs': ['in0'], 'size': size},
                       {'name': 'h0', 'type': kind, 'inputs': ['proj0'],
                        'size': size},
                       {'name': 'out', 'type': output, 'inputs': ['h0']}],
            'seed': seed, 'scale': 1.0}


def recurrent_arch_specs(max_hidden=2, outputs=('softmax',)):
    """Networks that can be used step by step."""
    return arch_specs(minibatch_only=False, outputs=outputs,
                      max_hidden=max_hidden, devices=False)


def description(spec):
    """The text of an architecture description file."""
    lines = []
    for x in spec['inputs']:
        lines.append('input type={} name={}'.format(x['type'], x['name']))
    for layer in spec['layers']:
        fields = ['type=' + layer['type'], 'name=' + layer['name']]
        fields += ['input=' + x for x in layer['inputs']]
        for key in ('size', 'activation', 'filter_size', 'dropout_rate'):
            if key in layer:
                fields.append('{}={}'.format(key, layer[key]))
        fields += ['device=' + x for x in layer.get('devices', [])]
        lines.append('layer ' + ' '.join(fields))
    return ''.join(line + '\n' for line in lines)


def build_architecture(spec):
    import io
    from theanolm.network import Architecture
    return Architecture.from_description(io.StringIO(description(spec)))


def param_value(spec, path, shape):
    rng = np.random.RandomState(
        (zlib.crc32(path.encode()) ^ spec['seed']) & 0x7fffffff)
    return rng.uniform(-1.0, 1.0, size=shape) * spec['scale']


def build_network(spec, vocab, minibatch=True, exclude_unk=False,
                  randomize=True, priors=None):
    """Creates the network with the code under test and gives its parameters
    values that depend on the spec only."""
    from theanolm.network import Network
    network = Network(build_architecture(spec), vocab, class_prior_probs=priors,
                      mode=Network.Mode(minibatch=minibatch),
                      exclude_unk=exclude_unk)
    if randomize:
        for path, variable in network.get_variables().items():
            value = variable.get_value()
            variable.set_value(
                param_value(spec, path, value.shape).astype(value.dtype))
    return network


def get_params(network):
    """Values of all parameters; the parts that were divided between devices
    are put together."""
    result = {}
    parts = {}
    for path, variable in network.get_variables().items():
        path = path[len('layers/'):]
        if path.rsplit('/', 1)[-1].startswith('dev'):
            base, device = path.rsplit('/', 1)
            parts.setdefault(base, {})[device] = variable.get_value()
        else:
            result[path] = variable.get_value()
    for base, values in parts.items():
        result[base] = np.concatenate([values[x] for x in sorted(values)],
                                      axis=-1)
    return result


def ignore_devices():
    """Lets layers be assigned to devices that do not exist: the parameters of
    each device stay in main memory."""
    import theano
    if getattr(theano.shared, 'vh', False):
        return
    original = theano.shared

    def shared(value, name=None, strict=False, allow_downcast=None, **kwargs):
        kwargs.pop('target', None)
        return original(value, name, strict, allow_downcast, **kwargs)
    shared.vh = True
    theano.shared = shared


# The reference -------------------------------------------------------------

def sigmoid(x):
    return 0.5 * (1.0 + np.tanh(0.5 * x))


ACTIVATIONS = {
    'tanh': np.tanh,
    'relu': lambda x: np.where(x > 0, x, 0.0),
    'leakyrelu': lambda x: np.where(x > 0, x, 0.3 * x),
}


def softmax(x):
    e = np.exp(x - x.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


def lstm(preacts, W, activation):
    size = W.shape[0]
    c = np.zeros(size)
    h = np.zeros(size)
    out = []
    for x in preacts:
        z = x + h.dot(W)
        i, f, o = (sigmoid(z[k * size:(k + 1) * size]) for k in range(3))
        g = np.tanh(z[3 * size:])
        c = f * c + i * g
        h = o * activation(c)
        out.append(h)
    return np.array(out).reshape(len(preacts), size)


def gru(preacts, W, activation):
    size = W.shape[0]
    h = np.zeros(size)
    out = []
    for x in preacts:
        r = sigmoid(x[:size] + h.dot(W[:, :size]))
        u = sigmoid(x[size:2 * size] + h.dot(W[:, size:2 * size]))
        g = np.tanh(x[2 * size:] + r * h.dot(W[:, 2 * size:]))
        h = (1.0 - u) * h + u * g
        out.append(h)
    return np.array(out).reshape(len(preacts), size)


def forward(spec, params, word_ids, class_ids, num_classes, unk_class=None):
    """Outputs of every layer; parameters of other shapes than the described
    sizes need are a violation."""
    try:
        return forward_layers(spec, params, word_ids, class_ids, num_classes,
                              unk_class)
    except (ValueError, IndexError, KeyError) as e:
        raise Violation('the parameters {} do not fit the network\n{}: {}: {}'
                        .format({k: v.shape for k, v in sorted(params.items())},
                                description(spec), type(e).__name__, e))


def forward_layers(spec, params, word_ids, class_ids, num_classes,
                   unk_class=None):
    """Outputs of every layer for one sequence, each (time, size).  The output
    layer's entry is the class probabilities; ``unk_class`` is the class whose
    probability is forced to zero."""
    outputs = {}
    for x in spec['inputs']:
        outputs[x['name']] = np.array(
            word_ids if x['type'] == 'word' else class_ids, dtype=int)
    steps = len(word_ids)
    for layer in spec['layers']:
        name, kind = layer['name'], layer['type']
        ins = [outputs[x] for x in layer['inputs']]
        activation = ACTIVATIONS[layer.get('activation', 'tanh')]

        def p(path):
            return params[name + '/' + path]

        if kind == 'projection':
            outputs[name] = p('W')[ins[0]]
            continue
        x = np.concatenate(ins, axis=1)
        if kind in ('fc', 'tanh'):
            out = activation(x.dot(p('input/W')) + p('input/b'))
        elif kind in ('highway', 'highwaytanh'):
            z = x.dot(p('input/W')) + p('input/b')
            size = x.shape[1]
            t = sigmoid(z[:, size:])
            out = activation(z[:, :size]) * t + x * (1.0 - t)
        elif kind == 'add':
            size = layer.get('size', ins[0].shape[1])
            out = np.zeros((steps, size))
            for i, v in enumerate(ins):
                out = out + (v if v.shape[1] == size
                             else v.dot(p('input%d/W' % i)))
        elif kind == 'dropout':
            out = x
        elif kind in ('lstm', 'gru'):
            z = x.dot(p('layer_input/W')) + p('layer_input/b')
            out = (lstm if kind == 'lstm' else gru)(z, p('step_input/W'),
                                                    activation)
        elif kind in ('blstm', 'bgru'):
            f = lstm if kind == 'blstm' else gru
            z = x.dot(p('forward/layer_input/W')) + p('forward/layer_input/b')
            fwd = f(z, p('forward/step_input/W'), activation)
            z = x.dot(p('backward/layer_input/W')) + p('backward/layer_input/b')
            shifted = np.zeros_like(z)
            if steps > 2:
                shifted[:-2] = z[2:]
            bwd = f(shifted[::-1], p('backward/step_input/W'),
                    activation)[::-1]
            out = np.concatenate([fwd, bwd], axis=1)
        elif kind == 'glu':
            W = p('input/W')
            k = W.shape[0]
            padded = np.concatenate([np.zeros((k - 1, x.shape[1])), x])
            z = np.array([np.einsum('ki,kio->o', padded[t:t + k], W)
                          for t in range(steps)]) + p('input/b')
            size = W.shape[2] // 2
            out = z[:, :size] * sigmoid(z[:, size:])
        elif kind == 'softmax':
            z = x.dot(p('input/W')) + p('input/b')
            outputs['preact'] = z
            if unk_class is not None:
                z = z.copy()
                z[:, unk_class] = -np.inf
            out = softmax(z)
        elif kind == 'hsoftmax':
            first = softmax(x.dot(p('input/W')) + p('input/b'))
            W, b = p('level1/W'), p('level1/b')
            second = [softmax(x.dot(W[i]) + b[i]) for i in range(len(W))]
            out = np.concatenate([first[:, i:i + 1] * second[i]
                                  for i in range(len(W))], axis=1)
            out = out[:, :num_classes]
        else:
            raise ValueError(kind)
        outputs[name] = out
    return outputs


class Model:
    """A generated network together with what it should compute."""

    def __init__(self, spec, vocab, minibatch=True, exclude_unk=False,
                 network=None):
        ignore_devices()
        self.spec = spec
        self.vocab = vocab
        self.exclude_unk = exclude_unk
        self.network = network or build_network(spec, vocab, minibatch,
                                                exclude_unk)
        self.params = get_params(self.network)
        self.num_classes = vocab.num_classes()
        self.unk_id = int(vocab.word_to_id['<unk>'])
        self.unk_class = int(vocab.word_id_to_class_id[self.unk_id])
        self.class_of = [int(vocab.word_id_to_class_id[i])
                         for i in range(vocab.num_shortlist_words())]

    def probs(self, word_ids):
        """Reference: class distribution after each of the words."""
        unk_class = self.unk_class if self.exclude_unk else None
        ids = [int(x) for x in word_ids]
        return forward(self.spec, self.params, ids,
                       [self.class_of[x] for x in ids], self.num_classes,
                       unk_class)['out']

    def function(self):
        """Theano function word_ids, class_ids, mask -> class distribution."""
        import theano
        n = self.network
        return theano.function(
            [n.input_word_ids, n.input_class_ids, n.mask],
            n.output_probs(), givens=[(n.is_training, np.int8(0))],
            on_unused_input='ignore')

    def target_function(self):
        import theano
        n = self.network
        return theano.function(
            [n.input_word_ids, n.input_class_ids, n.target_class_ids, n.mask],
            n.target_probs(), givens=[(n.is_training, np.int8(0))],
            on_unused_input='ignore')


def make_batch(sequences, pad, extra=0):
    """Mini-batch arrays from sequences of word IDs; ``pad`` are the IDs that
    fill the rest of the matrix."""
    steps = max(len(s) for s in sequences) + extra
    ids = np.zeros((steps, len(sequences)), dtype=np.int64)
    mask = np.zeros((steps, len(sequences)), dtype=np.int8)
    k = 0
    for j, s in enumerate(sequences):
        for t in range(steps):
            if t < len(s):
                ids[t, j] = s[t]
                mask[t, j] = 1
            else:
                ids[t, j] = pad[k % len(pad)]
                k += 1
    return ids, mask
