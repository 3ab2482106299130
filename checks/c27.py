"""C27: network descriptions are parsed completely and survive the model file.

Oracle: the list of elements that the text of the description was rendered
from."""

import copy
import os

from hypothesis import strategies as st

from vh import gen, nets
from vh.core import Part, expect_raises, require, scratch_dir, sut

# Elements -----------------------------------------------------------------

NAME = st.text(alphabet=st.sampled_from('abcxyz019_-.:/#=Ä漢'), min_size=1,
               max_size=8)
OPTIONS = ['activation', 'dropout_rate', 'filter_size', 'foo']
VALUE = st.one_of(st.sampled_from(['tanh', 'relu', 'leakyrelu', '0.5', '3']),
                  NAME)
TYPES = ['projection', 'fc', 'tanh', 'add', 'lstm', 'gru', 'blstm', 'bgru',
         'highway', 'highwaytanh', 'glu', 'softmax', 'hsoftmax', 'dropout']


@st.composite
def elements(draw):
    """An arbitrary description; the network need not make sense."""
    names = draw(st.lists(NAME, min_size=2, max_size=26, unique=True))
    k = draw(st.integers(1, len(names) - 1))
    if draw(st.booleans()):
        k = min(k, 2)
    inputs = [{'type': draw(st.sampled_from(['word', 'class'])), 'name': x}
              for x in names[:k]]
    layers = []
    for i, name in enumerate(names[k:]):
        many = draw(st.integers(0, 9)) == 0
        layer = {'type': draw(st.sampled_from(TYPES)), 'name': name,
                 'inputs': draw(st.lists(
                     st.sampled_from(names[:k + i]), min_size=1,
                     max_size=13 if many else 3)),
                 'devices': draw(st.one_of(st.just([]), st.just([]), st.lists(
                     st.sampled_from(['dev0', 'dev1', 'cuda0']),
                     max_size=12 if many else 2)))}
        if draw(st.booleans()):
            layer['size'] = draw(st.integers(1, 5000))
        for option in draw(st.lists(st.sampled_from(OPTIONS), unique=True,
                                    max_size=2)):
            layer[option] = draw(VALUE)
        layers.append(layer)
    return {'inputs': inputs, 'layers': layers}


def fields(element):
    result = []
    for key, value in element.items():
        if key in ('inputs', 'devices'):
            result += ['{}={}'.format(key[:-1], x) for x in value]
        else:
            result.append('{}={}'.format(key, value))
    return result


def render(description, layout):
    """Text of the description.  The order of fields, white space and comments
    do not matter; the order of the inputs of a layer does."""
    lines = []
    style = layout['style']
    for kind in ('inputs', 'layers'):
        for i, x in enumerate(description[kind]):
            parts = fields(x)
            # Move one field; repeated fields stay in order.
            single = [f for f in parts
                      if f.split('=')[0] not in ('input', 'device')]
            repeated = [f for f in parts if f not in single]
            if (style + i) % 3 == 0:
                parts = repeated + single
            elif (style + i) % 3 == 1:
                parts = single[::-1] + repeated
            sep = [' ', '  ', '\t', ' \t'][(style + i) % 4]
            lead = ['', '', '  ', '\t'][(style // 3 + i) % 4]
            trail = ['', ' ', '\r', '\t'][(style // 5 + i) % 4]
            lines.append(lead + sep.join([kind[:-1]] + parts) + trail)
    for position, text in layout['comments']:
        lines.insert(position % (len(lines) + 1), text)
    return '\n'.join(lines) + ('\n' if layout['newline'] else '')


def read(text, directory):
    from theanolm.network import Architecture
    path = os.path.join(directory, 'network.arch')
    with open(path, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    with open(path, encoding='utf-8') as f:
        return Architecture.from_description(f)


def plain(value):
    if isinstance(value, list):
        return [plain(x) for x in value]
    if isinstance(value, bytes):
        return value.decode()
    if isinstance(value, str):
        return str(value)
    return int(value)


def compare(architecture, description, what):
    for kind in ('inputs', 'layers'):
        got = getattr(architecture, kind)
        want = description[kind]
        require([plain(x['name']) for x in got] == [x['name'] for x in want],
                '{}: {} are {} instead of {}', what, kind,
                [plain(x['name']) for x in got], [x['name'] for x in want])
        for g, w in zip(got, want):
            g = {k: plain(v) for k, v in g.items()}
            if kind == 'layers':
                # no devices and an empty list of devices are the same
                g.setdefault('devices', [])
            require(g == w, '{}: description of {} is {} instead of {}', what,
                    w['name'], g, w)
    last = description['layers'][-1]['name']
    require(plain(architecture.output_layer) == last,
            '{}: output layer is {} instead of {}', what,
            architecture.output_layer, last)


def mutate(description, how, k):
    """One difference, or None if it does not apply."""
    d = copy.deepcopy(description)
    layers = d['layers']
    layer = layers[k % len(layers)]
    names = [x['name'] for x in d['inputs'] + layers]
    if how == 'type':
        layer['type'] = 'gru' if layer['type'] != 'gru' else 'lstm'
    elif how == 'name':
        layer['name'] += '2'
    elif how == 'size':
        layer['size'] = layer.get('size', 10) + 1
    elif how == 'no size':
        if 'size' not in layer:
            return None
        del layer['size']
    elif how == 'option':
        present = [x for x in OPTIONS if x in layer]
        if not present:
            return None
        layer[present[k % len(present)]] += 'x'
    elif how == 'new option':
        absent = [x for x in OPTIONS if x not in layer]
        layer[absent[k % len(absent)]] = '1'
    elif how == 'no option':
        present = [x for x in OPTIONS if x in layer]
        if not present:
            return None
        del layer[present[k % len(present)]]
    elif how == 'input':
        i = k % len(layer['inputs'])
        layer['inputs'][i] = names[(names.index(layer['inputs'][i]) + 1 +
                                    k % (len(names) - 1)) % len(names)]
    elif how == 'more inputs':
        layer['inputs'].append(names[k % len(names)])
    elif how == 'fewer inputs':
        if len(layer['inputs']) < 2:
            return None
        del layer['inputs'][k % len(layer['inputs'])]
    elif how == 'input order':
        if layer['inputs'] == layer['inputs'][::-1]:
            return None
        layer['inputs'].reverse()
    elif how == 'device':
        if not layer['devices']:
            return None
        layer['devices'][k % len(layer['devices'])] = 'other'
    elif how == 'more devices':
        layer['devices'].append('other')
    elif how == 'fewer devices':
        if not layer['devices']:
            return None
        layer['devices'].pop()
    elif how == 'more layers':
        layers.append(dict(copy.deepcopy(layer), name='new'))
    elif how == 'layer inserted':
        layers.insert(k % len(layers), dict(copy.deepcopy(layer), name='new'))
    elif how == 'fewer layers':
        if len(layers) < 2:
            return None
        layers.pop(k % len(layers))
    elif how == 'layer order':
        if len(layers) < 2:
            return None
        i = k % (len(layers) - 1)
        layers[i], layers[i + 1] = layers[i + 1], layers[i]
    elif how == 'input type':
        x = d['inputs'][k % len(d['inputs'])]
        x['type'] = 'class' if x['type'] == 'word' else 'word'
    elif how == 'input name':
        d['inputs'][k % len(d['inputs'])]['name'] += '2'
    elif how == 'more network inputs':
        d['inputs'].append({'type': 'word', 'name': 'new'})
    elif how == 'fewer network inputs':
        if len(d['inputs']) < 2:
            return None
        d['inputs'].pop()
    else:
        raise ValueError(how)
    return None if d == description else d


MUTATIONS = ['type', 'name', 'size', 'no size', 'option', 'new option',
             'no option', 'input', 'more inputs', 'fewer inputs',
             'input order', 'device', 'more devices', 'fewer devices',
             'more layers', 'layer inserted', 'fewer layers', 'layer order',
             'input type', 'input name', 'more network inputs',
             'fewer network inputs']


def run_parse(case, ctx):
    import h5py
    from theanolm.backend import IncompatibleStateError
    from theanolm.network import Architecture
    description = case['description']
    with scratch_dir() as directory:
        with sut('reading a description'):
            architecture = read(render(description, case['layout']),
                                directory)
        compare(architecture, description, 'description')
        path = os.path.join(directory, 'model.h5')
        with sut('saving the description'):
            with h5py.File(path, 'w') as f:
                architecture.get_state(f)
                if case['twice']:
                    architecture.get_state(f)
        with h5py.File(path, 'r') as f:
            with sut('restoring the description'):
                restored = Architecture.from_state(f)
            compare(restored, description, 'restored description')
            with sut('checking the same description'):
                architecture.check_state(f)
                restored.check_state(f)
            for how, k in case['differences']:
                other = mutate(description, how, k)
                if other is None:
                    continue
                with sut('reading a description'):
                    other_arch = read(render(other, case['layout']), directory)
                expect_raises('checking a description with a different ' + how,
                              IncompatibleStateError,
                              lambda: other_arch.check_state(f))
                ctx.label(how)
        # A restored description can be saved again.
        with sut('saving a restored description'):
            with h5py.File(os.path.join(directory, 'm2.h5'), 'w') as f:
                restored.get_state(f)
                again = Architecture.from_state(f)
        compare(again, description, 'description saved twice')
    ctx.label('more than ten layers', len(description['layers']) > 10)
    ctx.label('more than ten inputs', len(description['inputs']) > 10 or
              any(len(x['inputs']) > 10 for x in description['layers']))
    ctx.mark(len(description['layers']) > 1)


def run_invalid(case, ctx):
    from theanolm.backend import InputError
    layout = case['layout']
    description = copy.deepcopy(case['description'])
    how, k = case['how'], case['k']
    layer = description['layers'][k % len(description['layers'])]
    x = description['inputs'][k % len(description['inputs'])]
    extra = None
    if how == 'layer without type':
        del layer['type']
    elif how == 'layer without name':
        del layer['name']
    elif how == 'layer without input':
        layer['inputs'] = []
    elif how == 'input without type':
        del x['type']
    elif how == 'input without name':
        del x['name']
    elif how == 'no inputs':
        description['inputs'] = []
    elif how == 'no layers':
        description['layers'] = []
    elif how == 'unknown element':
        extra = ['output type=softmax name=x', 'Layer type=fc name=x input=y',
                 'inputs type=word name=x', 'layer: type=fc name=x input=y',
                 'type=word name=x'][k % 5]
    elif how == 'field without value':
        extra = ['layer type=fc name=x input=y size', 'input word',
                 'input type=word name', 'layer x', 'layer type=fc name=x '
                 'input y'][k % 5]
    lines = render(description, dict(layout, newline=True)).split('\n')
    if extra is not None:
        lines.insert(k % len(lines), extra)
    with scratch_dir() as directory:
        expect_raises('a description with ' + how, InputError,
                      lambda: read('\n'.join(lines), directory))
    ctx.label(how)
    ctx.mark()


INVALID = ['layer without type', 'layer without name', 'layer without input',
           'input without type', 'input without name', 'no inputs',
           'no layers', 'unknown element', 'field without value']


# Networks -----------------------------------------------------------------

def sizes(spec, vocab):
    """Documented sizes: as given, or the number of input connections."""
    result = {}
    for x in spec['inputs']:
        result[x['name']] = vocab.num_shortlist_words() \
            if x['type'] == 'word' else vocab.num_classes()
    for layer in spec['layers']:
        size = layer.get('size')
        if size is None:
            # a sum is not larger than its terms
            size = result[layer['inputs'][0]] if layer['type'] == 'add' \
                else sum(result[x] for x in layer['inputs'])
        if layer is spec['layers'][-1]:
            size = vocab.num_classes()
        result[layer['name']] = size
    return result


def run_network(case, ctx):
    from theanolm.backend import InputError
    from theanolm.network import Network
    nets.ignore_devices()
    spec = case['arch']
    vocab = gen.build_vocab(case['vocab'])
    with scratch_dir() as directory:
        with sut('reading a description'):
            architecture = read(nets.description(spec), directory)
        with sut('creating the network'):
            network = Network(architecture, vocab)
        want = sizes(spec, vocab)
        names = [x['name'] for x in spec['inputs'] + spec['layers']]
        require(list(network.layers) == names, 'elements of the network are {} '
                'instead of {}', list(network.layers), names)
        require(network.output_layer is network.layers[names[-1]],
                'output layer is {}', network.output_layer.name)
        for name in names:
            got = int(network.layers[name].output_size)
            require(got == want[name], 'size of {} is {} instead of {}',
                    name, got, want[name])
        # Mistakes are not accepted.
        how = case['mistake']
        wrong = copy.deepcopy(spec)
        k = case['k'] % len(wrong['layers'])
        layer = wrong['layers'][k]
        later = [x['name'] for x in wrong['layers'][k:]]
        errors = InputError
        if how == 'undefined input':
            layer['inputs'][-1] = 'undefined'
        elif how == 'later input':
            layer['inputs'][-1] = later[case['k'] % len(later)]
        elif how == 'layer type':
            layer['type'] = 'unknown'
            errors = (InputError, ValueError)
        elif how == 'input type':
            wrong['inputs'][0]['type'] = 'letter'
            errors = (InputError, ValueError)
        elif how == 'activation':
            layer['activation'] = 'sigmoid-x'
        with sut('reading a description'):
            bad = read(nets.description(wrong), directory)
        expect_raises('a network with invalid ' + how, errors,
                      lambda: Network(bad, vocab))
    ctx.label(how)
    ctx.label('default sizes', any('size' not in x
                                   for x in spec['layers'][:-1]))
    ctx.mark(len(spec['layers']) > 2)


LAYOUT = st.fixed_dictionaries({
    'style': st.integers(0, 60), 'newline': st.booleans(),
    'comments': st.lists(st.tuples(
        st.integers(0, 30),
        st.sampled_from(['', '   ', '# comment', '#layer type=fc', '\t',
                         '  # layer type=fc name=x input=y',
                         '#input type=word name=x'])).map(list), max_size=4)})
parse_cases = st.fixed_dictionaries({
    'description': elements(), 'layout': LAYOUT, 'twice': st.booleans(),
    'differences': st.lists(st.tuples(st.sampled_from(MUTATIONS),
                                      st.integers(0, 60)).map(list),
                            min_size=1, max_size=4)})
invalid_cases = st.fixed_dictionaries({
    'description': elements(), 'layout': LAYOUT, 'k': st.integers(0, 60),
    'how': st.sampled_from(INVALID)})
network_cases = st.fixed_dictionaries({
    'arch': nets.arch_specs(), 'vocab': gen.vocab_specs(max_words=6,
                                                        counts=False),
    'k': st.integers(0, 60),
    'mistake': st.sampled_from(['undefined input', 'later input',
                                'layer type', 'input type', 'activation'])})

PARTS = [
    Part('parse', parse_cases, run_parse, 1500, 30000, workers=3,
         rule='more than one layer'),
    Part('invalid', invalid_cases, run_invalid, 500, 8000, rule='every case'),
    Part('network', network_cases, run_network, 200, 3000, workers=4,
         rule='at least one layer between projection and output',
         assumptions=['parameters on different devices are all in main '
                      'memory']),
]
