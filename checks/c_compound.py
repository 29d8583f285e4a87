"""C53: types built from compound components."""
import itertools
from hypothesis import strategies as st
from scarletio.utils.compound_type import Compound, CompoundMetaType, Theory
from vharness import Property, Violation, check, check_eq

C53 = Property('C53', rule = (
    'Case = components, a body and maybe a base type, each defining some of a few attributes (slots, methods, theories, constants, ...). Non-trivial = an attribute is mentioned '
    'by at least two of them.'
))

# (parameters, coroutine?, how it is called)
SIGNATURES = [
    ('', False, (), {}),
    ('a', False, (1,), {}),
    ('a, b', False, (1, 2), {}),
    ('a, *, b', False, (1,), {'b': 2}),
    ('a', True, (1,), {}),
    ('*a', False, (1, 2), {}),
    ('a, b = 2', False, (1,), {}),
    ('**a', False, (), {'z': 1}),
]


def function_of(name, signature, tag):
    parameters, coroutine, positional, keyword = SIGNATURES[signature]
    space = {}
    exec(
        f'{"async " if coroutine else ""}def {name}({", ".join(filter(None, ["self", parameters]))}):\n'
        f'    return {tag!r}, self, {{**locals(), "self": None}}\n',
        space,
    )
    return space[name]


def call(instance, name, signature):
    parameters, coroutine, positional, keyword = SIGNATURES[signature]
    result = getattr(instance, name)(*positional, **keyword)
    if coroutine:
        try:
            result.send(None)
        except StopIteration as exception:
            result = exception.value
        else:
            raise Violation('coroutine did not end')
    return result


def value_of(name, attribute, tag):
    kind, detail = attribute
    if kind == 'method':
        return function_of(name, detail, tag)
    if kind == 'theory':
        return Theory(function_of(name, detail, tag))
    if kind == 'constant':
        return detail
    if kind == 'missing':
        return NotImplemented
    if kind == 'property':
        return property(lambda self: (tag, self))
    if kind == 'class':
        return classmethod(lambda cls: (tag, cls))
    if kind == 'static':
        return staticmethod(lambda *positional: (tag, positional))
    raise RuntimeError(kind)


def space_of(definition, tag):
    space = {'__module__': __name__, '__qualname__': tag}
    slots = [name for name, attribute in definition.items() if attribute[0] == 'slot']
    space['__slots__'] = slots[0] if len(slots) == 1 and definition[slots[0]][1] else tuple(slots)
    for name, attribute in definition.items():
        if name == '__doc__':
            space[name] = attribute[1]
        elif attribute[0] != 'slot':
            space[name] = value_of(name, attribute, tag)
    return space


_SLOT = st.tuples(st.just('slot'), st.booleans())
_METHOD = st.tuples(st.just('method'), st.sampled_from([0, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7]))
_THEORY = st.tuples(st.just('theory'), st.sampled_from([0, 1, 1, 1, 1, 2, 3, 4, 5, 6, 7]))
_CONSTANT = st.tuples(st.just('constant'), st.sampled_from([1, 1, 1, 2, None, 'x', ()]))
_MISSING = st.just(('missing', None))
_DOC = st.tuples(st.just('doc'), st.sampled_from(['doc', 'other doc']))


def _definition(which):
    theory = [] if which == 'base' else [_THEORY, _THEORY, _THEORY]
    missing = [] if which == 'base' else [_MISSING]
    fields = {
        's': _SLOT, 'tt': _SLOT, 'f': st.one_of(_METHOD, *theory), 'g': st.one_of(_METHOD, *theory, *theory), '__call__': st.one_of(_METHOD, *theory), 'c': st.one_of(_CONSTANT, *missing), 'd': st.one_of(_CONSTANT, *missing), '__doc__': _DOC, 'm': st.one_of(_SLOT, _SLOT, _METHOD, _CONSTANT),
    }
    return st.lists(
        st.sampled_from([*fields, 's', 's', 'f', 'c', '__doc__']).flatmap(lambda name: st.tuples(st.just(name), fields[name])), max_size = 4,
    ).map(dict)


@st.composite
def _built_strategy(draw):
    components = draw(st.lists(_definition('component'), min_size = 1, max_size = 4))
    body = draw(_definition('body'))
    base = draw(st.one_of(st.none(), _definition('base')))
    # attributes of only one
    for name, kind in (('p', 'property'), ('k', 'class'), ('l', 'static')):
        if draw(st.integers(0, 3)) == 0:
            draw(st.sampled_from([*components, body, *([base] if base is not None else [])]))[name] = (kind, None)
    return components, body, base, draw(st.sampled_from(['plain', 'plain', 'dictionary', 'inherited', 'overridden', 'overridden', 'meta', 'built'])), draw(st.integers(0, 100))


class Merged(Exception):
    """The model cannot decide it."""


def expected_of(components, body, base):
    """Returns the expected `{name: (attribute, source)}`, or `None` if it must be refused. Sources are `-1` for the body, `-2` for the base."""
    names = {*body, *(base or ()), *itertools.chain.from_iterable(components)} - {'__doc__'}
    result = {}
    refused = False
    for name in names:
        sources = [(body.get(name), -1), ((base or {}).get(name), -2), *((component.get(name), index) for index, component in enumerate(components))]
        sources = [source for source in sources if source[0] is not None]
        kinds = {attribute[0] for attribute, source in sources}
        if 'slot' in kinds:
            if len(kinds) > 1:
                refused = True
                continue
            result[name] = (sources[0][0], -2 if any(source == -2 for _, source in sources) else -1)
            continue
        if kinds & {'method', 'theory'}:
            if kinds & {'constant', 'missing'}:
                raise Merged
            if name in body and name in (base or ()):
                if body[name][0] == 'theory':
                    raise Merged
                # the body overwrites
                sources = [item for item in sources if item[1] != -2]
            if len({attribute[1] for attribute, source in sources}) > 1:
                refused = True
                continue
            methods = [item for item in sources if item[0][0] == 'method']
            if len(methods) != 1:
                refused = True
                continue
            result[name] = methods[0]
            continue
        if kinds & {'constant', 'missing'}:
            values = [attribute[1] for attribute, source in sources if attribute[0] == 'constant']
            if not values or any(value != values[0] for value in values):
                refused = True
                continue
            result[name] = (('constant', values[0]), None)
            continue
        result[name] = sources[0]
    return None if refused else result


def make_base(base, how):
    """Returns the base type."""
    if base is None:
        return None
    space = space_of(base, 'base')
    if how == 'dictionary':
        del space['__slots__']
        slots = [name for name, attribute in base.items() if attribute[0] == 'slot']
        return type('Base', (type('Base', (), {'__slots__': tuple(slots)}),), space)
    if how == 'inherited':
        return type('Base', (type('Parent', (), space),), {'__slots__': ()})
    if how == 'overridden':
        # what the parent of the base defines too is not what it has
        hidden = {}
        for name, attribute in base.items():
            if name == '__doc__' or attribute[0] == 'slot':
                continue
            hidden[name] = 'hidden' if attribute[0] == 'constant' else value_of(name, attribute, 'hidden')
        return type('Base', (type('Parent', (), {'__slots__': (), **hidden}),), space)
    if how == 'meta':
        return Meta('Base', (), space)
    if how == 'built':
        parts = {name: value for name, value in space.items()}
        return CompoundMetaType('Base', (Compound,), parts, build = True)
    return type('Base', (), space)


class Meta(type):
    def __new__(cls, name, bases, space, **keyword):
        self = type.__new__(cls, name, bases, space)
        self.keyword = keyword
        return self

    def __init__(self, name, bases, space, **keyword):
        pass

    def hello(cls):
        return 'hello'


@C53.case('built', _built_strategy, quick = 3000, thorough = 120000, shards = 3, fixed = [
    ([{'__doc__': ('doc', 'doc')}, {'__doc__': ('doc', 'other doc')}], {}, None, 'plain', 0),
    ([{'__doc__': ('doc', 'doc')}], {'__doc__': ('doc', 'other doc')}, None, 'plain', 0),
    ([{'f': ('method', 1)}], {'c': ('constant', 1)}, {'k': ('class', None), 'l': ('static', None)}, 'inherited', 0),
    ([{'f': ('method', 1)}], {'c': ('constant', 1)}, {'k': ('class', None), 'l': ('static', None)}, 'built', 0),
    ([{'f': ('method', 1), 's': ('slot', False)}], {}, {'s': ('slot', False)}, 'meta', 0),
])
def c53_built(case, ctx):
    components, body, base, how, order = case
    components = [dict(component) for component in components]
    mentioned = [name for definition in (*components, body, base or {}) for name in definition]
    ctx.nontrivial(len(mentioned) != len({*mentioned}))
    try:
        expected = expected_of(components, body, base)
    except Merged:
        return
    ctx.label('refused', expected is None)
    ctx.label(f'base {how}', base is not None)

    types = []
    for index, component in enumerate(components):
        type_ = CompoundMetaType(f'Component{index}', (Compound,), space_of(component, f'component{index}'))
        types.append(type_)
        check_component(type_, component, index)

    built = None
    permutations = [*itertools.permutations(range(len(types)))]
    for permutation in {permutations[0], permutations[order % len(permutations)], permutations[-1]}:
        base_type = make_base(base, how)
        meta = CompoundMetaType
        keyword = {}
        if base_type is not None and how == 'meta':
            meta = CompoundMetaType.with_(base_type)
            check(meta is CompoundMetaType.with_(base_type) is CompoundMetaType.with_(Meta), 'merged meta types are not reused')
            keyword = {'other': order}
        bases = [*((base_type,) if base_type is not None else ()), *(types[index] for index in permutation)]
        try:
            built = meta('Built', tuple(bases), space_of(body, 'body'), build = True, **keyword)
        except TypeError as exception:
            check(expected is None, 'refused', str(exception), permutation)
            continue
        check(expected is not None, 'conflicting components are merged', permutation)
        verify(built, expected, base_type, body, base, how, keyword, ctx)
    for index, component in enumerate(components):
        check_component(types[index], component, index)


def check_component(type_, definition, index):
    """Components can be inspected, but not used."""
    for name, attribute in definition.items():
        if name == '__doc__':
            check_eq(type_.__doc__, attribute[1], 'documentation of the component')
            continue
        if name == '__call__':
            # every type has it
            continue
        check(name in dir(type_), 'attribute is not listed', name)
        got = getattr(type_, name)
        if attribute[0] in ('slot', 'missing'):
            check(got is NotImplemented, 'value of a not implemented attribute', got)
        elif attribute[0] in ('method', 'theory'):
            check_eq(got.__name__, name, 'function of the component')
        elif attribute[0] == 'constant':
            check_eq(got, attribute[1], 'constant of the component')
    check(not hasattr(type_, 'nope'), 'has an attribute which was not given')
    try:
        type_()
    except RuntimeError:
        pass
    else:
        raise Violation('component instanced')


def verify(built, expected, base_type, body, base, how, keyword, ctx):
    check_eq(built.__name__, 'Built', 'name')
    check_eq((built.__module__, built.__qualname__), (__name__, 'body'), 'module and qualname')
    check_eq(built.__mro__, (built, *(base_type.__mro__ if base_type is not None else (object,))), 'mro')
    if '__doc__' in body:
        check_eq(built.__doc__, body['__doc__'][1], 'documentation')
    new_slots = sorted(name for name, (attribute, source) in expected.items() if attribute[0] == 'slot' and source != -2)
    check_eq(tuple(built.__slots__), tuple(new_slots), 'slots')
    instance = built()
    check_eq(hasattr(instance, '__dict__'), base_type is not None and how == 'dictionary', 'instance dictionary')
    listed = dir(built)
    for name, (attribute, source) in expected.items():
        tag = 'body' if source == -1 else 'base' if source == -2 else f'component{source}'
        kind, detail = attribute
        check(name in listed, 'attribute is not listed', name)
        if kind == 'slot':
            try:
                getattr(instance, name)
            except AttributeError:
                pass
            else:
                raise Violation('slot has a value')
            setattr(instance, name, (name, 1))
            check_eq(getattr(instance, name), (name, 1), 'value of a slot')
        elif kind == 'method':
            got_tag, got_self, got_locals = call(instance, name, detail)
            check_eq(got_tag, tag, 'the method called', name)
            check(got_self is instance, 'instance passed')
            if name == '__call__':
                check_eq(instance(*SIGNATURES[detail][2], **SIGNATURES[detail][3])[0], tag, 'calling it') if not SIGNATURES[detail][1] else None
        elif kind == 'constant':
            check_eq((getattr(instance, name), getattr(built, name)), (detail, detail), 'constant', name)
        elif kind == 'property':
            check_eq(getattr(instance, name), (tag, instance), 'property')
        elif kind == 'class':
            check_eq((getattr(built, name)(), getattr(instance, name)()), ((tag, built),) * 2, 'class method')
        elif kind == 'static':
            check_eq((getattr(built, name)(1), getattr(instance, name)(1)), ((tag, (1,)),) * 2, 'static method')
    check(not hasattr(built, 'nope') and not hasattr(instance, 'nope'), 'has an attribute which was not given')
    for name in ('s', 'tt', 'f', 'g', 'c', 'd', 'm', 'p', 'k', 'l'):
        check_eq(hasattr(built, name), name in expected, 'attribute', name)
    if base_type is not None and how == 'meta':
        check(type(built) is Meta, 'meta type', type(built))
        check_eq((built.keyword, built.hello()), (keyword, 'hello'), 'meta type used')

    # it is a type as any other
    class Sub(built):
        __slots__ = ('new',)

        def extra(self):
            return 'extra'

    sub = Sub()
    sub.new = 1
    check_eq((sub.extra(), sub.new, Sub.__mro__), ('extra', 1, (Sub, *built.__mro__)), 'subclass')
    for name, (attribute, source) in expected.items():
        if attribute[0] == 'method':
            check(call(sub, name, attribute[1])[1] is sub, 'inherited method')
        elif attribute[0] == 'class':
            check_eq(getattr(Sub, name)()[1], Sub, 'inherited class method')



@C53.case('refused', lambda: st.integers(0, 5), quick = 40, thorough = 60, fixed = [*range(6)])
def c53_refused(case, ctx):
    """What cannot be a component or built."""
    ctx.nontrivial()
    component = CompoundMetaType('Component', (Compound,), {'x': 1})
    other = type('Other', (), {})
    more = type('More', (), {})
    for name, (expression, accepted) in enumerate([
        ((lambda: CompoundMetaType('New', (Compound, other), {})), False),
        ((lambda: CompoundMetaType('New', (Compound,), {}, keyword = 1)), False),
        ((lambda: CompoundMetaType('New', (other, more, component), {}, build = True)), False),
        ((lambda: CompoundMetaType('New', (component,), {}, build = True)), True),
        ((lambda: CompoundMetaType('New', (object, Compound), {})), True),
        ((lambda: CompoundMetaType.with_(5)), False),
    ]):
        if name != case:
            continue
        try:
            expression()
        except TypeError:
            check(not accepted, 'refused')
        else:
            check(accepted, 'accepted')


@C53.case('body', lambda: st.integers(0, 3), quick = 20, thorough = 30, fixed = [*range(4)])
def c53_body(case, ctx):
    """Class statements."""
    ctx.nontrivial()
    class Base:
        __slots__ = ()
        def name(self):
            return 'base'

    class First(Compound):
        """First."""
        __slots__ = ('value',)
        value : int
        @Theory
        def name(self):
            """Theory."""
        def greet(self):
            return 'hello ' + self.name()

    class Second(Compound):
        """Second."""
        def __repr__(self):
            return 'second'

    if case == 0:
        class Built(First, Second, Base, build = True):
            def __init__(self, value):
                self.value = value
            def type_of(self):
                return __class__
            def parent(self):
                return super().name()

        built = Built(5)
        check_eq((built.value, built.greet(), repr(built), built.parent()), (5, 'hello base', 'second', 'base'), 'built')
        check(built.type_of() is Built, 'its own type')
    elif case == 1:
        class Built(First, Second, build = True):
            def name(self):
                return 'body'

        check_eq(Built().greet(), 'hello body', 'built')
    elif case == 2:
        try:
            class Built(First, Second, build = True):
                pass
        except TypeError:
            pass
        else:
            raise Violation('a theory not implemented')
        check_eq((First.name(First), First.name.__doc__), (None, 'Theory.'), 'theory used')
    elif case == 3:
        class Third(Compound):
            def type_of(self):
                return __class__
        class Built(First, Base, Third, build = True):
            pass
        check_eq(Built().greet(), 'hello base', 'built')
        check_eq(Built().type_of(), Third, 'type a method was defined in')
