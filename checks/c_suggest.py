"""C55: what the errors of missing attributes say and suggest."""
import re
from difflib import SequenceMatcher
from itertools import permutations

from hypothesis import strategies as st

from scarletio.utils import RichAttributeErrorBaseType, render_exception_into

from vharness import Property, check, check_eq

C55 = Property('C55', rule = (
    'A class with up to 7 generated attributes (of the class, of its instances, slots set or not, listed by its own __dir__) whose missing attribute is accessed, by a plain or a rich type, '
    'in a function with up to 5 local and 4 global variables which have the attribute or not. '
    'Non-trivial = at least two attributes or variables were suggested.'
))

WORDS = ['hello', 'world', 'sit', 'Name', 'HTTP', 'x', 'item', 'items', 'client', 'open', '2', '22', 'koishi', 'komeiji', 'satori']
MAXIMUM = 25


def _joined(words, form):
    if form == 0:
        return '_'.join(words)
    if form == 1:
        return '_'.join(words).lower()
    if form == 2:
        return '_'.join(word.capitalize() for word in words)
    if form == 3:
        return '_'.join(words).upper()
    if form == 4:
        return words[0].lower() + ''.join(word.capitalize() for word in words[1 :])
    return '_' + '_'.join(words)


def _plain(name):
    # two leading underscores are mangled
    name = re.sub('^__+', '_', name)
    return name if name.isidentifier() else 'n_' + name


def _names():
    return st.builds(
        _joined, st.lists(st.sampled_from(WORDS), min_size = 1, max_size = 4), st.integers(0, 5),
    ).map(_plain)


def _vary(name, kind, position):
    """A name near to the given one."""
    position %= len(name)
    words = [word for word in name.split('_') if word]
    if kind == 0:
        name = name[: position] + name[position + 1 :]
    elif kind == 1:
        name = name[: position] + 'e' + name[position :]
    elif kind == 2:
        name = '_'.join(reversed(words))
    elif kind == 3:
        name = name.upper()
    elif kind == 4:
        name = '_'.join(words[1 :] + words[: 1])
    elif kind == 5:
        name = name + 's'
    elif kind == 6:
        name = '_' + name
    return _plain(name)


def _strategy():
    def build(name, near, others, picks, kinds, variables, rich, own, many):
        attributes = []
        for index, (kind, position) in enumerate(near):
            attributes.append(_vary(name, kind, position))
        attributes.extend(others)
        attributes = [*dict.fromkeys(attributes)][: 7]
        if many:
            # more of the same words than what is shown
            attributes.extend(_cased(name, index) for index in range(30))
            attributes = [*dict.fromkeys(attributes)]
        attributes = [(attribute, kinds[index % len(kinds)]) for index, attribute in enumerate(attributes)]
        return name, attributes, picks, variables, rich, own

    kinds = st.lists(st.sampled_from(['class', 'instance', 'slot', 'unset', 'unset', 'dir', 'class']), min_size = 1, max_size = 7)
    # None: has no such attribute, else it has, the name is either given or the name of what is missing
    variable = st.tuples(st.sampled_from(['a', 'b', 'value', 'other', '', 'zed']), st.sampled_from(['has', 'has', 'not', 'raises', 'type', 'odd']))
    return st.builds(
        build, _names(), st.lists(st.tuples(st.integers(0, 7), st.integers(0, 30)), max_size = 4), st.lists(_names(), max_size = 4),
        st.integers(0, 3), kinds, st.tuples(st.lists(variable, max_size = 5), st.lists(variable, max_size = 4)), st.booleans(), st.sampled_from([0, 0, 0, 1, 2]), st.sampled_from([False] * 7 + [True]),
    )


def _cased(name, bits):
    return ''.join(character.upper() if bits >> (index % 5) & 1 else character.lower() for index, character in enumerate(name))


def words_of(name):
    """The words of a name: parts of letters or digits, cut by underscores and casing."""
    return [word.casefold() for word in re.findall(r'[A-Z]+(?![a-z])|[A-Z]?[a-z]+|[0-9]+', name)]


def nearness(name, other):
    """How near two names are, whichever order their words are in."""
    words = words_of(name)
    orders = permutations(words) if len(words) <= 5 else [words]
    second = '_'.join(words_of(other))
    out = []
    for order in set(orders):
        first = '_'.join(order)
        out.append(SequenceMatcher(None, first, second).ratio())
        out.append(SequenceMatcher(None, second, first).ratio())
    return min(out), max(out)


class _Has:
    pass


class _Raises:
    def __getattr__(self, name):
        raise ValueError(name)


class _Odd:
    """Its attributes exist, but cannot be listed."""
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return 1

    def __dir__(self):
        raise RuntimeError


def _value(kind, name):
    if kind == 'has':
        value = _Has()
        setattr(value, name, 1)
        return value
    if kind == 'type':
        return type('Type', (), {name: 1})
    if kind == 'raises':
        return _Raises()
    if kind == 'odd':
        return _Odd()
    return _Has()


QUOTED = re.compile('`([^`]*)`')


@C55.case('attributes', _strategy, quick = 1800, thorough = 60000, shards = 4)
def run_attributes(case, ctx):
    name, attributes, form, (local_variables, global_variables), rich, own = case
    # the attribute accessed is never one which can be got
    attributes = [(attribute, 'unset' if attribute == name and kind != 'dir' else kind) for attribute, kind in attributes]
    namespace = {}
    slots = [attribute for attribute, kind in attributes if kind in ('slot', 'unset')]
    if any(kind == 'instance' for attribute, kind in attributes):
        slots.append('__dict__')
    namespace['__slots__'] = tuple(slots)
    for attribute, kind in attributes:
        if kind == 'class':
            namespace[attribute] = 1
    listed = [attribute for attribute, kind in attributes if kind == 'dir']
    if own == 1 or listed:
        namespace['__dir__'] = lambda self: [*listed, 'extra_listed']
        listed.append('extra_listed')
    elif own == 2:
        def fail(self):
            raise LookupError
        namespace['__dir__'] = fail
        listed = []
    try:
        Type = type('Sample', (RichAttributeErrorBaseType,) if rich else (), namespace)
    except ValueError:
        # names used twice
        return
    instance = Type()
    for attribute, kind in attributes:
        if kind in ('slot', 'instance'):
            setattr(instance, attribute, 1)
    if name in dir(object) or hasattr(Type, '__slots__') and not all(isinstance(attribute, str) for attribute in slots):
        return

    # variables
    visible = {}
    lines = []
    scope = {'__builtins__': {}}
    visible['__builtins__'] = 'has' if hasattr({}, name) else 'not'
    for variable, kind in global_variables:
        variable = variable or name
        value = _value(kind, name)
        scope[variable] = value
        visible[variable] = kind
    parameters = {}
    for variable, kind in local_variables:
        variable = variable or name
        parameters[variable] = _value(kind, name)
        visible[variable] = kind
    scope['instance_'] = instance
    scope['function_'] = None
    source = f'def function_({", ".join(parameters)}):\n    return instance_.{name}\n'
    exec(compile(source, '<suggestion sample>', 'exec'), scope)
    try:
        scope['function_'](*parameters.values())
    except AttributeError as exception:
        error = exception
    else:
        raise AssertionError('not missing')
    error.__traceback__ = error.__traceback__.tb_next
    text = ''.join(render_exception_into(error, []))
    error.__traceback__ = None
    lines = text.splitlines()
    start = next(index for index, line in enumerate(lines) if line.startswith('AttributeError: '))
    head, *rest = lines[start :]

    declared = {*object.__dir__(instance), *listed}
    is_unset = name in declared
    if is_unset:
        check_eq(head, f'AttributeError: `Sample` does not have its attribute `.{name}` set.', 'message of an attribute not set', text)
    else:
        check_eq(head, f'AttributeError: `Sample` has no attribute `.{name}`.', 'message of a missing attribute', text)
    rest = [line for line in rest if line]

    suggested = []
    variables = []
    mentioned = None
    for line in rest:
        quoted = QUOTED.findall(line)
        if quoted and quoted[0].startswith('.'):
            check(not suggested, 'attributes are suggested twice', text)
            suggested = [item[1 :] for item in quoted]
        elif quoted and '.' in quoted[0]:
            check(not variables, 'variables are suggested twice', text)
            variables = [tuple(item.split('.')) for item in quoted]
        elif quoted:
            check(mentioned is None and len(quoted) == 1, 'a variable is mentioned twice', text)
            mentioned = quoted[0]
        else:
            check(is_unset and 'constructors' in line, 'an unexpected line', text)
    ctx.nontrivial(len(suggested) > 1 or len(variables) > 1)

    # a variable of the same name
    is_visible = name in visible
    check_eq(mentioned, name if is_visible else None, 'variable having the name of the missing attribute', text, case)

    # attributes
    others = declared - {name}
    nears = {other: nearness(name, other) for other in others}
    check(len(set(suggested)) == len(suggested), 'an attribute is suggested twice', text)
    for item in suggested:
        check(item in others, 'an attribute is suggested which does not exist', item, text)
        check(nears[item][1] >= 0.6 - 1e-9, 'an attribute is suggested which is nothing like the missing one', item, text)
    certain = {other for other, (low, high) in nears.items() if low >= 0.8}
    # the ones of the same words are shown together
    groups = {tuple(words_of(other)) for other, (low, high) in nears.items() if high >= 0.6}
    if not is_unset:
        if len(groups) <= MAXIMUM:
            for other in certain:
                check(other in suggested, 'an attribute named alike is not suggested', other, text)
        same = {other for other in others if sorted(words_of(other)) == sorted(words_of(name)) and len(words_of(name)) <= 5}
        check_eq({*suggested[: len(same)]} if len(groups) <= MAXIMUM else same, same, 'attributes of the same words come first', text)
    else:
        check(not suggested, 'attributes are suggested instead of an existing one', text)

    # variables having it
    having = sorted(variable for variable, kind in visible.items() if kind in ('has', 'type', 'odd'))
    if variables:
        check({attribute for variable, attribute in variables} == {name}, 'attributes of suggested variables', text)
        got = [variable for variable, attribute in variables]
        if is_unset:
            # the type of it has it
            check(not set(got) & {'Sample'}, 'variable which does not exist', text)
        check_eq(got, having, 'variables which have the attribute', text, case)
        check(not certain, 'variables are suggested though there is an attribute named alike', text)
    elif having:
        # only if there were attributes named alike
        check(suggested or any(high >= 0.6 - 1e-9 for low, high in nears.values()), 'variables which have the attribute are not suggested', having, text)
