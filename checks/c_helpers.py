"""C49: helpers of lists, descriptors and modules. C50: function kinds, copies and proxies."""
import bisect, functools, inspect, linecache, sys, types, warnings
from hypothesis import strategies as st
import scarletio
from scarletio.utils import (
    any_to_any, change_on_switch, is_hashable, is_iterable, list_difference, relative_index, un_map_pack, where,
    cached_property, class_property, docs_property, module_property, name_property, methodize, RemovedDescriptor, KeepType,
    modulize, BaseMethodDescriptor, MethodLike, export, include, include_with_callback, check_satisfaction,
    alchemy_incendiary, call, copy_func, is_awaitable, is_coroutine, is_coroutine_function, is_coroutine_generator,
    is_coroutine_generator_function, is_generator, is_generator_function, to_coroutine,
)
from scarletio.utils import export_include
from scarletio.utils.type_proxies import CoroutineFunctionTypeProxy, CoroutineTypeProxy
from vharness import Property, Violation, check, check_eq

C49 = Property('C49', rule = (
    'Lists (or sets, or nothing) of up to 9 integers or words and moves in them; classes built from generated members, histories of up to 14 accesses on them and on their instances; '
    'classes turned to modules, extended in place, and histories of exports and includes in up to 4 modules. '
    'Non-trivial = something changed position or differs, a cached value was read again, an attribute was set or refused, a class had static, class and plain functions, or an include waited for its export.'
))

C50 = Property('C50', rule = (
    'Functions of each kind (plain, generator, coroutine, coroutine generator, generator based coroutine) with generated signatures, closures and bodies of yields, tries and raises; '
    'called, copied, bound, proxied and driven with generated sends, throws and closes against the plain function. '
    'Non-trivial = the object driven was suspended at least twice, or a call of a function with at least two kinds of parameters succeeded.'
))


# ---------------------------------------------------------------------------------------------------------------------
# C49 lists
# ---------------------------------------------------------------------------------------------------------------------

WORDS = ['a', 'b', 'bb', 'c', 'ca', 'd', 'e', 'é', 'z', '']


def _values():
    return st.one_of(
        st.lists(st.integers(-4, 9), max_size = 9),
        st.lists(st.sampled_from(WORDS), max_size = 9),
    )


def _lists_strategy():
    return st.one_of(
        st.tuples(st.just('relative'), st.lists(st.integers(-4, 9), max_size = 9), st.integers(-6, 11)),
        st.tuples(st.just('switch'), _values(), st.integers(0, 9), st.integers(-3, 12), st.booleans()),
        st.tuples(
            st.just('difference'), st.lists(st.integers(-4, 9), max_size = 9), st.lists(st.integers(-4, 9), max_size = 9),
            st.sampled_from(['list', 'set', 'none']), st.sampled_from(['list', 'set', 'none']),
        ),
        st.tuples(st.just('keyed'), *(st.dictionaries(st.integers(0, 5), st.sampled_from('ab'), max_size = 5) for _ in range(2))),
        st.tuples(st.just('pack'), st.lists(st.tuples(st.sampled_from(WORDS), st.integers(0, 5)), max_size = 6)),
        st.tuples(st.just('search'), st.lists(st.integers(0, 5), max_size = 6), st.lists(st.integers(0, 5), max_size = 6), st.integers(0, 6)),
        st.tuples(st.just('kinds'), st.integers(0, 13)),
    )


class _Keyed:
    def __init__(self, key, tag):
        self.key = key
        self.tag = tag

    def __eq__(self, other):
        return (self.key, self.tag) == (other.key, other.tag)

    def __lt__(self, other):
        return self.key < other.key

    def __gt__(self, other):
        return self.key > other.key


class _Unhashable:
    __hash__ = None


class _BadHash:
    def __hash__(self):
        raise TypeError('no')


class _NoHash:
    def __hash__(self):
        raise NotImplementedError


class _Iterates:
    def __iter__(self):
        return iter(())


KINDS = [
    lambda: 1, lambda: 'a', lambda: [], lambda: {}, lambda: (1, []), lambda: (1, 'a'), lambda: frozenset((1,)), set, _Unhashable, _BadHash,
    _NoHash, _Iterates, lambda: (lambda: None), lambda: _Iterates,
]


@C49.case('lists', _lists_strategy, quick = 2500, thorough = 60000)
def run_lists(case, ctx):
    kind = case[0]
    if kind == 'relative':
        list_ = sorted(case[1])
        ctx.nontrivial(len(list_) > 2)
        check_eq(relative_index(list_, case[2]), bisect.bisect_left(list_, case[2]), 'relative index', list_, case[2])
    elif kind == 'switch':
        list_ = sorted(set(case[1]))
        new_position = case[3]
        if not list_:
            return
        copy = list_.copy()
        value = list_[case[1].__len__() and case[2] % len(list_)]
        if case[4] and case[2] == 9:
            value = 100 if isinstance(list_[0], int) else 'zzz'
            try:
                change_on_switch(list_, value, new_position)
            except ValueError:
                return
            raise Violation(f'a missing value can be moved: {value!r} in {list_!r}')
        moved = list_.copy()
        moved.remove(value)
        moved.insert(min(max(new_position, 0), len(list_) - 1), value)
        expected = [(element, index) for index, element in enumerate(moved) if list_[index] != element]
        ctx.nontrivial(len(expected) > 1)
        calls = []
        if case[4]:
            result = change_on_switch(list_, value, new_position, key = lambda element, position: {'element': element, 'position': position})
            result = [(item['element'], item['position']) for item in result]
        else:
            result = change_on_switch(list_, value, new_position)
        check_eq(list_, copy, 'list after asking for the changes of a move')
        check_eq(sorted(result, key = lambda item: item[1]), expected, 'changes of positions when moving an element', list_, value, new_position)
    elif kind == 'difference':
        given = []
        for values, type_ in zip(case[1 : 3], case[3 : 5]):
            given.append(sorted(values) if type_ == 'list' else set(values) if type_ == 'set' else None)
        copies = [None if item is None else item.copy() for item in given]
        result = list_difference(*given)
        check_eq(given, copies, 'lists after asking for their difference')
        expected = []
        for mine, other in ((given[0], given[1]), (given[1], given[0])):
            left = sorted(mine or ())
            for value in (other or ()):
                if value in left:
                    left.remove(value)
            expected.append(left)
        ctx.nontrivial(bool(expected[0] and expected[1]))
        result = [sorted(item) for item in result]
        check_eq(result, expected, 'difference of lists', given)
        for item in result:
            item.append(None)
        check_eq(given, copies, 'lists after changing their difference')
    elif kind == 'keyed':
        # neither is less, though they are not equal
        given = [[_Keyed(*item) for item in sorted(values.items())] for values in case[1 :]]
        result = list_difference(*given)
        expected = [
            [(value.key, value.tag) for value in mine if not any(value == item for item in other)] for mine, other in ((given[0], given[1]), (given[1], given[0]))
        ]
        ctx.nontrivial(bool({item[0] for item in expected[0]} & {item[0] for item in expected[1]}))
        check_eq([[(value.key, value.tag) for value in item] for item in result], expected, 'difference of lists of records')
    elif kind == 'pack':
        items = case[1]
        plain = dict(items)
        ctx.nontrivial(len(plain) > 1)
        check_eq(dict(un_map_pack(iter(items))), plain, 'dictionary of a packed generator')
        if len(plain) == len(items):
            check_eq((lambda **keywords: keywords)(**un_map_pack((item for item in items))), plain, 'keyword parameters from a packed generator')
    elif kind == 'search':
        first, second, limit = case[1:]
        check_eq(any_to_any(first, second), bool(set(first) & set(second)), 'any to any', first, second)
        found = [value for value in first if value > limit]
        try:
            result = where(first, lambda value: value > limit)
        except LookupError:
            check(not found, 'an element is not found', first, limit)
        else:
            ctx.nontrivial(result is not first[0])
            check(found, 'an element is found which does not fit', first, limit, result)
            check_eq(result, found[0], 'element found')
    else:
        object_ = KINDS[case[1]]()
        try:
            hash(object_)
        except (TypeError, NotImplementedError):
            expected = False
        else:
            expected = True
        check_eq(is_hashable(object_), expected, 'is hashable', object_)
        try:
            iter(object_)
        except TypeError:
            expected = False
        else:
            expected = True
        check_eq(is_iterable(object_), expected, 'is iterable', object_)


# ---------------------------------------------------------------------------------------------------------------------
# C49 descriptors
# ---------------------------------------------------------------------------------------------------------------------

MEMBERS = ['class_property', 'cached_property', 'name_property', 'module_property', 'docs_property', 'methodize', 'removed', 'base_method']


def _descriptors_strategy():
    access = st.tuples(
        st.sampled_from(['get', 'get', 'get', 'set', 'set', 'del', 'has', 'fail']), st.integers(0, 3), st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5]), st.integers(0, 3),
    )
    # what was accessed is often looked at again
    accesses = st.one_of(
        access.map(lambda operation: [operation]),
        access.map(lambda operation: [operation, ('get', *operation[1 :])]),
    )
    return st.tuples(
        st.lists(st.one_of(
            st.tuples(st.sampled_from(MEMBERS), st.integers(0, 7)),
            st.tuples(st.sampled_from(['cached_property', 'class_property']), st.integers(0, 7)),
            st.tuples(st.just('cached_property'), st.integers(4, 7)),
        ), min_size = 1, max_size = 4),
        st.lists(accesses, min_size = 2, max_size = 8).map(lambda lists: [operation for operations in lists for operation in operations]),
    )


class _Made:
    def __init__(self, *positional, **keyword):
        self.positional = positional
        self.keyword = keyword


class _Failure(Exception):
    pass


def _build_member(kind, variant, name, log, state):
    """Returns the member and its model: callable(operation, owner (class), instance or None, value)."""
    def refuse(operation, owner, instance, value):
        return ('error', AttributeError)

    if kind == 'class_property':
        def getter(cls):
            """getter docs"""
            log.append(('get', name, cls))
            if state['fail']:
                raise _Failure
            return ('got', name, cls)

        def setter(cls, value):
            log.append(('set', name, cls, value))

        def deleter(cls):
            log.append(('del', name, cls))

        if variant & 4:
            member = class_property(getter if variant & 1 else None, setter if variant & 2 else None, deleter)
            has = (variant & 1, variant & 2, True)
        else:
            member = class_property(getter)
            has = [True, False, False]
            if variant & 1:
                member = member.setter(setter)
                has[1] = True
            if variant & 2:
                old = member
                member = member.deleter(deleter)
                has[2] = True
                if (old.fdel is not None) or (member is old):
                    raise Violation('adding a deleter changed the property it was added to')

        def model(operation, owner, instance, value):
            if operation == 'get':
                if not has[0]:
                    return ('error', AttributeError)
                if state['fail']:
                    return ('error', _Failure, [('get', name, owner)])
                return ('value', ('got', name, owner), [('get', name, owner)])
            if operation == 'set':
                if not has[1]:
                    return ('error', AttributeError)
                return ('value', None, [('set', name, owner, value)])
            if not has[2]:
                return ('error', AttributeError)
            return ('value', None, [('del', name, owner)])

        return member, model
    if kind == 'cached_property':
        def getter(self):
            log.append(('get', name, self.index))
            if state['fail']:
                raise _Failure
            return [None, 0, False, ('got', name, self.index)][variant & 3]
        getter.__name__ = name
        member = cached_property(getter)
        if variant & 4:
            member = member.setter(lambda value: (log.append(('set', name, value)), ('set', value))[1])
        cache = {}

        def model(operation, owner, instance, value):
            if operation == 'get':
                if instance is None:
                    return ('value', member)
                if instance.index in cache:
                    return ('value', cache[instance.index])
                if state['fail']:
                    return ('error', _Failure, [('get', name, instance.index)])
                cache[instance.index] = [None, 0, False, ('got', name, instance.index)][variant & 3]
                return ('value', cache[instance.index], [('get', name, instance.index)])
            if operation == 'set' and variant & 4:
                cache[instance.index] = ('set', value)
                return ('value', None, [('set', name, value)])
            return ('error', AttributeError)

        return member, model
    if kind == 'name_property':
        member = name_property('Name_' + name, lambda self: ('instance name', self.index))

        def model(operation, owner, instance, value):
            if operation == 'get':
                return ('value', 'Name_' + name if instance is None else ('instance name', instance.index))
            return ('error', AttributeError)

        return member, model
    if kind == 'module_property':
        def fget(self):
            return ('instance module', self.index)
        fget.__module__ = 'module.of.' + name
        member = module_property(fget)

        def model(operation, owner, instance, value):
            if operation == 'get':
                return ('value', 'module.of.' + name if instance is None else ('instance module', instance.index))
            if operation == 'set':
                return None
            return ('error', AttributeError)

        return member, model
    if kind == 'docs_property':
        def model(operation, owner, instance, value):
            if operation == 'get':
                return ('value', 'type docs' if instance is None else ('instance docs', instance.index))
            return ('error', AttributeError)

        return docs_property(), model
    if kind == 'methodize':
        def model(operation, owner, instance, value):
            if operation == 'get':
                return ('class', instance)
            return ('error', AttributeError)

        return methodize(_Made), model
    if kind == 'removed':
        return RemovedDescriptor(), refuse

    def function(cls, base, *positional, **keyword):
        """base docs"""
        return (cls, base, positional, keyword)
    function.extra = name

    def model(operation, owner, instance, value):
        if operation == 'get':
            return ('base', owner, instance)
        return ('error', AttributeError)

    return BaseMethodDescriptor(function), model


@C49.case('descriptors', _descriptors_strategy, quick = 1200, thorough = 30000)
def run_descriptors(case, ctx):
    definitions, operations = case
    log = []
    state = {'fail': False}

    class Parent:
        pass

    namespace = {'__type_doc__': 'type docs', '__instance_doc__': property(lambda self: ('instance docs', self.index))}
    models = []
    for index, (kind, variant) in enumerate(definitions):
        name = f'member_{index}'
        setattr(Parent, name, 'of the parent')
        namespace[name], model = _build_member(kind, variant, name, log, state)
        models.append((name, kind, model))
    slotted = definitions[0][1] & 1
    if slotted:
        namespace['__slots__'] = ('_cache', 'index')
    Main = type(Parent)('Main', (Parent,), namespace)
    Sub = type('Sub', (Main,), {})
    Other = type('Other', (Parent,), {})
    instances = []
    for index, klass in enumerate((Main, Main, Sub)):
        instance = klass()
        instance.index = index
        instance._cache = None if index else {}
        instances.append(instance)
    seen = set()
    for operation, member_index, target_index, value in operations:
        name, kind, model = models[member_index % len(models)]
        if target_index < 3:
            instance = instances[target_index]
            owner = type(instance)
            target = instance
        else:
            instance = None
            target = owner = (Main, Sub, Main)[target_index - 3]
        if operation == 'fail':
            state['fail'] = not state['fail']
            continue
        log.clear()
        if operation == 'has':
            if state['fail']:
                continue
            expected = model('get', owner, instance, None)
            check_eq(hasattr(target, name), expected[0] != 'error', 'hasattr', kind, target)
            if kind == 'removed':
                check_eq(getattr(target, name, value), value, 'default of a removed attribute')
                check_eq(getattr(Other, name), 'of the parent', 'attribute of a type it was not removed from')
            continue
        if operation != 'get' and instance is None:
            continue
        expected = model(operation, owner, instance, value)
        if expected is None:
            continue
        try:
            if operation == 'get':
                result = ('value', getattr(target, name))
            elif operation == 'set':
                result = ('value', setattr(target, name, value))
            else:
                result = ('value', delattr(target, name))
        except (AttributeError, _Failure) as exception:
            result = ('error', type(exception))
        where_ = (kind, operation, 'class' if instance is None else 'instance')
        if operation != 'get' or (target_index, name) in seen:
            ctx.nontrivial()
        seen.add((target_index, name))
        if expected[0] == 'class':
            check_eq(result[0], 'value', 'getting a methodized type')
            got = result[1]
            if instance is None:
                check(got is _Made, 'a methodized type accessed from the class is not the type', got)
            else:
                made = got(1, value, key = value)
                check(type(made) is _Made and made.positional == (instance, 1, value) and made.keyword == {'key': value}, 'a methodized type is not called with its parent', made)
            continue
        if expected[0] == 'base':
            check_eq(result[0], 'value', 'getting a base method')
            got = result[1]
            check_eq(got(1, value, key = value), (owner, instance, (1, value), {'key': value}), 'parameters of the function of a base method')
            check(isinstance(got, MethodLike), 'a base method is not method like')
            check_eq(MethodLike.get_reserved_parameter_count(got), 2, 'reserved parameters of a base method')
            check_eq((got.extra, got.__name__, got.__doc__), (name, 'function', 'base docs'), 'attributes of a base method')
            continue
        check_eq(result, expected[: 2], 'result of an access', *where_)
        check_eq(log, expected[2] if len(expected) > 2 else [], 'calls of the accessors', *where_)


# ---------------------------------------------------------------------------------------------------------------------
# C49 types: KeepType and modulize
# ---------------------------------------------------------------------------------------------------------------------

NAMES = ['alpha', 'beta', 'gamma', 'Delta', 'epsilon']


def _members():
    return st.lists(st.tuples(
        st.sampled_from(NAMES), st.sampled_from(['plain', 'plain', 'static', 'class', 'property', 'value', 'keyword', 'type', 'special']), st.integers(0, 3)
    ), max_size = 6, unique_by = lambda item: item[0])


def _types_strategy():
    return st.one_of(
        st.tuples(st.just('keep'), _members(), _members(), _members(), st.integers(0, 7)),
        st.tuples(st.just('modulize'), _members(), _members(), st.lists(st.integers(0, 4), max_size = 4), st.integers(0, 3)),
    )


def _source_of(members, tag, indent, based = False):
    """Members as source; each returns what it was called with, and its tag."""
    lines = []
    for name, kind, variant in members:
        calls = f'{tag}.{name}'
        if kind == 'plain':
            lines.append(f'def {name}(*args): return ({calls!r}, args)')
        elif kind == 'static':
            lines.append(f'@staticmethod\ndef {name}(*args): return ({calls!r}, args)')
        elif kind == 'class':
            lines.append(f'@classmethod\ndef {name}(*args): return ({calls!r}, args)')
        elif kind == 'property':
            lines.append(f'@property\ndef {name}(*args): return ({calls!r}, args)')
        elif kind == 'value':
            lines.append(f'{name} = ({calls!r}, {variant})')
        elif kind == 'keyword':
            lines.append(f'def {name}(*args, a = {variant}, b: int = 2) -> str:\n    "docs of {name}"\n    return ({calls!r}, args, a, b)')
        elif kind == 'type':
            lines.append(
                f'class {name}{"(HostBase)" if based and variant & 1 else ""}:\n    tag = {calls!r}\n    def plain(self): return ({calls!r}, self)\n    @staticmethod\n    def static(*args): return ({calls!r}, args)\n'
                f'    @classmethod\n    def class_(*args): return ({calls!r}, args)\n    @property\n    def property_(self): return ({calls!r}, self)\n'
                f'    def keyword(self, *, a = {variant}): return ({calls!r}, a)'
            )
        else:
            lines.append(f'def __len__(self): return {variant}')
    if not lines:
        lines.append('pass')
    return '\n'.join(' ' * indent + line for line in '\n'.join(lines).split('\n'))


def _observe_type(value, name, calls):
    """What a nested type does."""
    instance = value()
    check_eq(instance.plain(), (calls, instance), 'method of a nested type', name)
    check_eq(value.static(1), (calls, (1,)), 'static method of a nested type', name)
    check_eq(instance.static(1), (calls, (1,)), 'static method of an instance of a nested type', name)
    check_eq(value.class_(1), (calls, (value, 1)), 'class method of a nested type', name)
    check_eq(instance.class_(1), (calls, (value, 1)), 'class method of an instance of a nested type', name)
    check_eq(instance.property_, (calls, instance), 'property of a nested type', name)


def _check_keep(case, ctx):
    _, old_members, new_members, base_members, variant = case
    namespace = {'__name__': 'keeping', 'log': []}
    source = 'class Old:\n' + _source_of(old_members, 'Old', 4)
    if variant & 1:
        source += '\n    def __init_subclass__(cls): log.append(cls.__name__)'
    if variant & 4:
        source += '\n    "docs"\n    __slots__ = ("only",)'
    source += '\nclass Base:\n' + _source_of(base_members if variant & 2 else [], 'Base', 4)
    source += '\nclass New(Base):\n' + _source_of(new_members, 'New', 4)
    exec(source, namespace)
    Old = namespace['Old']
    existing = Old()
    identity = (Old.__name__, Old.__qualname__, Old.__module__, Old.__mro__)
    if variant & 1:
        result = KeepType(Old)(namespace['New'])
    else:
        result = KeepType(Old, new_class = namespace['New'])
    check(result is Old, 'extending a type gives an other one', result)
    check_eq((Old.__name__, Old.__qualname__, Old.__module__, Old.__mro__), identity, 'identity of an extended type')
    expected = {name: ('Old', kind, value) for name, kind, value in old_members}
    if variant & 2:
        expected.update({name: ('Base', kind, value) for name, kind, value in base_members})
    expected.update({name: ('New', kind, value) for name, kind, value in new_members})
    kinds = {item[1] for item in expected.values()}
    ctx.nontrivial(len(kinds & {'plain', 'static', 'class', 'property'}) > 1 and len({item[0] for item in expected.values()}) > 1)
    lengths = [item[2] for item in reversed((*old_members, *(base_members if variant & 2 else ()), *new_members)) if item[1] == 'special']
    length = lengths[0] if lengths else None
    for instance in (existing, Old()):
        for name, (tag, kind, value) in expected.items():
            calls = f'{tag}.{name}'
            if kind == 'plain':
                check_eq(getattr(instance, name)(1), (calls, (instance, 1)), 'method of an extended type', name)
            elif kind == 'static':
                check_eq(getattr(instance, name)(1), (calls, (1,)), 'static method of an extended type', name)
                check_eq(getattr(Old, name)(1), (calls, (1,)), 'static method of an extended type', name)
            elif kind == 'class':
                check_eq(getattr(instance, name)(1), (calls, (Old, 1)), 'class method of an extended type', name)
                check_eq(getattr(Old, name)(1), (calls, (Old, 1)), 'class method of an extended type', name)
            elif kind == 'property':
                check_eq(getattr(instance, name), (calls, (instance,)), 'property of an extended type', name)
            elif kind == 'value':
                check_eq(getattr(instance, name), (calls, value), 'value of an extended type', name)
            elif kind == 'keyword':
                check_eq(getattr(instance, name)(1, b = 3), (calls, (instance, 1), value, 3), 'method of an extended type', name)
            elif kind == 'type':
                _observe_type(getattr(instance, name), name, calls)
        if length is not None:
            same_tag = [tag for tag, members in (('New', new_members), ('Base', base_members if variant & 2 else []), ('Old', old_members)) if any(item[1] == 'special' for item in members)]
            members = {'New': new_members, 'Base': base_members, 'Old': old_members}[same_tag[0]]
            check_eq(len(instance), [item[2] for item in members if item[1] == 'special'][-1], 'special method of an extended type')
    namespace['log'].clear()
    Child = type('Child', (Old,), {})
    check_eq(namespace['log'], ['Child'] if variant & 1 else [], 'calls of the __init_subclass__ of an extended type')
    check(issubclass(Child, Old) and isinstance(Child(), Old), 'subclass check of an extended type')
    check(not isinstance(namespace['New'](), Old), 'subclass check of an extended type')


MODULE_NAME = 'verif_modulized_host'


def _check_module(module, path, members, tag, references, previous):
    check(isinstance(module, types.ModuleType), 'modulizing does not give a module', module)
    check_eq(module.__name__, path, 'name of a modulized class')
    check(sys.modules.get(path) is module, 'a modulized class cannot be imported')
    for name, kind, variant in members:
        if kind in ('special', 'property'):
            continue
        calls = f'{tag}.{name}'
        value = getattr(module, name)
        if kind in ('plain', 'static'):
            check_eq(value(1, 2), (calls, (1, 2)), 'function of a modulized class', name)
        elif kind == 'value':
            check_eq(value, (calls, variant), 'value of a modulized class', name)
        elif kind == 'keyword':
            check_eq(value(1, b = 5), (calls, (1,), variant, 5), 'function with keyword parameters of a modulized class', name)
            check_eq((value.__doc__, value.__annotations__), (f'docs of {name}', {'b': int, 'return': str}), 'docs and annotations of a function of a modulized class', name)
        elif kind == 'type':
            _observe_type(value, name, calls)
            check_eq(value().keyword(), (calls, variant), 'keyword parameters of a method of a nested type', name)
            check_eq((value.__module__, value.__qualname__), (path, name), 'place of a nested type')
            if variant & 1:
                check_eq(value().inherited(), 'of the host', 'method of a nested type inherited from outside', name)
                check_eq(value.inherited_static(), 'of the host', 'static method of a nested type inherited from outside', name)
        if kind in ('plain', 'static', 'keyword'):
            check_eq((value.__module__, value.__qualname__, value.__name__), (path, name, name), 'place of a function of a modulized class')
    names = {item[0] for item in members}
    for name in previous - names:
        check(not hasattr(module, name), 'a name of the previous class stays in the module', name)
    # functions see each other
    for index, name in references:
        check_eq(getattr(module, f'see_{index}')(), getattr(module, name), 'name seen by a function of a modulized class', name)


def _check_modulize(case, ctx):
    _, members, again, references, variant = case
    host = types.ModuleType(MODULE_NAME)
    path = f'{MODULE_NAME}.Host'
    sys.modules[MODULE_NAME] = host
    exec(
        'HOST_VALUE = "of the host"\nclass HostBase:\n    def inherited(self): return HOST_VALUE\n    @staticmethod\n    def inherited_static(): return HOST_VALUE',
        host.__dict__,
    )
    try:
        previous = set()
        last = None
        for round_, current in enumerate((members, again) if variant & 1 else (members,)):
            usable = [item for item in current if item[1] not in ('special', 'property', 'class')]
            source = f'class Host:\n    "docs of the host"\n' + _source_of([item for item in current if item[1] not in ('special', 'property', 'class')], f'Host{round_}', 4, True)
            seen = []
            for index, reference in enumerate(references):
                if usable:
                    name = usable[reference % len(usable)][0]
                    source += f'\n    def see_{index}(): return {name}'
                    seen.append((index, name))
            exec(source, host.__dict__)
            module = modulize(host.Host)
            check_eq(module.__doc__, 'docs of the host', 'docs of a modulized class')
            _check_module(module, path, usable, f'Host{round_}', seen, previous)
            if last is not None:
                ctx.nontrivial()
                check(module is last, 'modulizing the same class again gives an other module')
            last = module
            previous = {item[0] for item in usable}
            kinds = {item[1] for item in usable}
            ctx.nontrivial(len(kinds) > 2 and bool(seen))
    finally:
        sys.modules.pop(MODULE_NAME, None)
        sys.modules.pop(path, None)


@C49.case('types', _types_strategy, quick = 900, thorough = 20000)
def run_types(case, ctx):
    if case[0] == 'keep':
        _check_keep(case, ctx)
    else:
        _check_modulize(case, ctx)


# ---------------------------------------------------------------------------------------------------------------------
# C49 exports
# ---------------------------------------------------------------------------------------------------------------------

EXPORTED = ['verif_export_a', 'verif_export_b', 'verif_export_c']


def _exports_strategy():
    return st.lists(st.one_of(
        st.tuples(st.just('include'), st.integers(0, 3), st.integers(0, 2)),
        st.tuples(st.just('callback'), st.booleans(), st.integers(0, 2)),
        st.tuples(st.just('export'), st.sampled_from(['name', 'function', 'class', 'instance', 'module']), st.integers(0, 2)),
        st.tuples(st.just('check'), st.just(0), st.just(0)),
        st.tuples(st.just('script'), st.just(0), st.integers(0, 2)),
    ), min_size = 2, max_size = 12)


@C49.case('exports', _exports_strategy, quick = 700, thorough = 15000)
def run_exports(case, ctx):
    saved = (dict(export_include.CALLBACKS), dict(export_include.SATISFIED))
    modules = []
    try:
        for index in range(4):
            name = f'verif_export_module_{index}'
            module = types.ModuleType(name)
            module.__spec__ = type(sys.__spec__)(name, None)
            sys.modules[name] = module
            modules.append(module)
        satisfied = {}
        pending = {}
        log = []
        expected_log = []
        values = [{} for _ in modules]
        counter = 0
        for operation, variant, index in case:
            name = EXPORTED[index]
            if operation == 'include':
                exec(f'from scarletio.utils import include\n{name} = include({name!r})', modules[variant].__dict__)
                if name in satisfied:
                    values[variant][name] = satisfied[name]
                    check(modules[variant].__dict__[name] is satisfied[name], 'an exported object is not included', name)
                else:
                    ctx.label('waits')
                    check(modules[variant].__dict__[name] is NotImplemented, 'a not yet exported object is included', name)
                    pending.setdefault(name, []).append(('module', variant))
            elif operation == 'script':
                with warnings.catch_warnings(record = True) as caught:
                    warnings.simplefilter('always')
                    namespace = {}
                    exec(f'from scarletio.utils import include\nresult = include({name!r})', namespace)
                if name in satisfied:
                    check(namespace['result'] is satisfied[name], 'an exported object is not included in a script', name)
                check_eq(len(caught), 0 if name in satisfied else 1, 'warnings of an include outside of modules')
            elif operation == 'callback':
                counter += 1
                callback = functools.partial(lambda key, value: log.append((key, value)), counter)
                if variant:
                    include_with_callback(name, callback)
                else:
                    include_with_callback(name)(callback)
                if name in satisfied:
                    expected_log.append((counter, satisfied[name]))
                else:
                    pending.setdefault(name, []).append(('callback', counter))
            elif operation == 'export':
                counter += 1
                if variant == 'name':
                    value = [counter]
                    result = export(value, name)
                elif variant == 'function':
                    value = types.FunctionType((lambda: None).__code__, {}, name)
                    result = export(value)
                elif variant == 'class':
                    value = type(name, (), {})
                    result = export(value)
                elif variant == 'instance':
                    value = type(name, (), {})()
                    result = export(value)
                else:
                    value = types.ModuleType(f'package.sub.{name}')
                    result = export(value)
                check(result is value, 'exporting gives an other object', value, result)
                satisfied[name] = value
                for kind, key in pending.pop(name, ()):
                    ctx.nontrivial()
                    if kind == 'module':
                        values[key][name] = value
                    else:
                        expected_log.append((key, value))
            else:
                try:
                    check_satisfaction()
                except AssertionError as exception:
                    check(pending, 'exports are required which are not', exception)
                    for name in EXPORTED:
                        check_eq(name in str(exception), name in pending, 'name missing', name)
                else:
                    check(not pending, 'missing exports are not noticed', pending)
            check_eq(log, expected_log, 'calls of the callbacks')
            for module, expected in zip(modules, values):
                for name, value in expected.items():
                    check(module.__dict__[name] is value, 'an included name has an other object as the exported one', name)
    finally:
        for module in modules:
            sys.modules.pop(module.__name__, None)
        for target, old in zip((export_include.CALLBACKS, export_include.SATISFIED), saved):
            target.clear()
            target.update(old)


# ---------------------------------------------------------------------------------------------------------------------
# C50
# ---------------------------------------------------------------------------------------------------------------------

FUNCTION_KINDS = ['plain', 'generator', 'coroutine', 'coroutine_generator', 'iterable_coroutine']


def _signature():
    return st.fixed_dictionaries({
        'positional_only': st.integers(0, 2), 'positional': st.integers(0, 2), 'defaults': st.integers(0, 3), 'args': st.booleans(),
        'keyword_only': st.integers(0, 2), 'keyword_defaults': st.integers(0, 2), 'keywords': st.booleans(), 'annotated': st.booleans(),
    })


def _body():
    return st.lists(st.sampled_from(['yield', 'yield', 'yield', 'try', 'finally', 'raise', 'return', 'from', 'local', 'closure', 'loop']), max_size = 5)


def _call():
    return st.tuples(st.lists(st.integers(0, 9), max_size = 5), st.dictionaries(st.sampled_from(['p0', 'p1', 'q0', 'q1', 'k0', 'k1', 'x']), st.integers(10, 19), max_size = 3))


def _fit(call, signature):
    """A call with parameters missing (None) gets those which fit."""
    if call is not None:
        return call
    plain = signature['positional_only'] + signature['positional']
    return (
        [*range(plain + 2 * signature['args'])],
        {f'k{index}': 10 + index for index in range(signature['keyword_only'])} | ({'x': 15} if signature['keywords'] else {}),
    )


def _drive():
    return st.lists(st.one_of(
        st.tuples(st.sampled_from(['next', 'next', 'next']), st.just(0)), st.tuples(st.just('send'), st.integers(0, 3)),
        st.tuples(st.just('throw'), st.sampled_from(['ValueError', 'KeyError', 'GeneratorExit'])), st.tuples(st.just('close'), st.just(0)),
    ), max_size = 6)


def _functions_strategy():
    return st.tuples(st.sampled_from(FUNCTION_KINDS), _signature(), _body(), st.lists(st.one_of(st.none(), _call()), min_size = 1, max_size = 3), _drive(), st.integers(0, 63))


class Await:
    """Yields a value to who drives the coroutine."""
    def __init__(self, value):
        self.value = value

    def __await__(self):
        return (yield self.value)


def _build_function(kind, signature, body):
    """Source of a function which records its parameters and is suspended at places."""
    parts = []
    names = []
    positional = [f'p{index}' for index in range(signature['positional_only'])]
    others = [f'q{index}' for index in range(signature['positional'])]
    plain = positional + others
    defaults = min(signature['defaults'], len(plain))
    for index, name in enumerate(plain):
        text = name
        if signature['annotated']:
            text += ': int'
        if index >= len(plain) - defaults:
            text += f' = {100 + index}'
        parts.append(text)
        names.append(name)
        if index + 1 == len(positional):
            parts.append('/')
    if signature['args']:
        parts.append('*args')
        names.append('args')
    elif signature['keyword_only']:
        parts.append('*')
    for index in range(signature['keyword_only']):
        text = f'k{index}'
        if signature['annotated']:
            text += ': "key"'
        if index >= signature['keyword_only'] - signature['keyword_defaults']:
            text += f' = {200 + index}'
        parts.append(text)
        names.append(f'k{index}')
    if signature['keywords']:
        parts.append('**keywords')
        names.append('keywords')
    is_async = kind in ('coroutine', 'coroutine_generator')
    lines = [f'log.append((({"".join(name + ", " for name in names)}), cell))']

    def suspend(value):
        if kind in ('generator', 'iterable_coroutine'):
            return f'(yield {value})'
        if kind == 'coroutine_generator':
            return f'(yield {value})'
        if kind == 'coroutine':
            return f'await Await({value})'
        return f'{value}'

    for index, item in enumerate(body):
        if item == 'yield':
            lines.append(f'log.append(("sent", {suspend(repr(("at", index)))}))')
        elif item == 'try':
            lines.append(f'try:\n    log.append(("sent", {suspend(repr(("try", index)))}))\nexcept ValueError as exception:\n    log.append(("caught", {index}))')
        elif item == 'finally':
            lines.append(f'try:\n    log.append(("sent", {suspend(repr(("in", index)))}))\nfinally:\n    log.append(("finally", {index}))')
        elif item == 'raise':
            lines.append(f'if cell == 1: raise LookupError({index})')
        elif item == 'return':
            lines.append('if cell == 2: return' + ('' if kind == 'coroutine_generator' else f' ("early", {index})'))
        elif item == 'from':
            if kind in ('generator', 'iterable_coroutine'):
                lines.append('log.append(("from", (yield from inner())))')
            elif is_async:
                lines.append(f'log.append(("from", await Await({index})))')
        elif item == 'local':
            lines.append(f'local_{index} = lambda: {(names or ["cell"])[0]}\nlog.append(local_{index}())')
        elif item == 'closure':
            lines.append('cell = cell + 1')
        else:
            lines.append(f'for loop in range(2):\n    log.append({suspend("loop")})')
    if kind in ('generator', 'iterable_coroutine', 'coroutine_generator'):
        lines.append('if False: yield')
    if kind != 'coroutine_generator':
        lines.append('return ("done", cell)')
    inner = '\n'.join(lines)
    source = (
        'def maker(cell, log):\n'
        '    def inner():\n        got = yield "inner"\n        return ("inner", got)\n'
        f'    {"async " if is_async else ""}def function({", ".join(parts)}){" -> tuple" if signature["annotated"] else ""}:\n'
        '        "docs of it"\n' +
        ('        nonlocal cell\n') +
        '\n'.join('        ' + line for line in inner.split('\n')) + '\n'
        '    return function\n'
    )
    return source


def _make(source, cell, kind):
    log = []
    namespace = {'__name__': 'made_functions', 'Await': Await}
    exec(source, namespace)
    function = namespace['maker'](cell, log)
    if kind == 'iterable_coroutine':
        pass
    return function, log


def _drive_object(object_, steps, log, kind):
    """Drives a generator / coroutine, gives back what is seen."""
    outcomes = []
    if kind == 'coroutine_generator':
        for operation, value in steps:
            if operation == 'next':
                method = object_.__anext__()
            elif operation == 'send':
                method = object_.asend(value or None)
            elif operation == 'throw':
                method = object_.athrow(__builtins__[value] if isinstance(__builtins__, dict) else getattr(__builtins__, value))
            else:
                method = object_.aclose()
            try:
                try:
                    outcomes.append(('suspended', method.send(None)))
                    method.close()
                except StopIteration as exception:
                    outcomes.append(('value', exception.value))
            except BaseException as exception:
                outcomes.append((type(exception).__name__, exception.args))
        return outcomes
    for operation, value in steps:
        try:
            if operation == 'next':
                outcomes.append(('value', object_.send(None)))
            elif operation == 'send':
                outcomes.append(('value', object_.send(value or None)))
            elif operation == 'throw':
                outcomes.append(('value', object_.throw(__builtins__[value] if isinstance(__builtins__, dict) else getattr(__builtins__, value))))
            else:
                outcomes.append(('value', object_.close()))
        except StopIteration as exception:
            outcomes.append(('return', exception.value))
        except BaseException as exception:
            outcomes.append((type(exception).__name__, exception.args))
    return outcomes


def _observe(function, log, positional, keyword, steps, kind):
    """Calls the function and drives what it returned to."""
    log.clear()
    try:
        result = function(*positional, **keyword)
    except TypeError as exception:
        return ('TypeError', str(exception), log.copy())
    except LookupError as exception:
        return ('LookupError', exception.args, log.copy())
    if kind == 'plain':
        return ('value', result, log.copy())
    outcomes = _drive_object(result, steps, log, kind)
    if hasattr(result, 'close'):
        try:
            result.close()
        except BaseException as exception:
            outcomes.append((type(exception).__name__, exception.args))
    return ('driven', outcomes, log.copy())


def _metadata(function):
    return (
        function.__name__, function.__qualname__, function.__module__, function.__doc__, function.__defaults__, function.__kwdefaults__,
        function.__annotations__, function.__dict__, str(inspect.signature(function)),
    )


def _check_kinds(function, kind, ctx):
    """is_* against inspect."""
    class Callable:
        def __call__(self):
            pass

        async def method(self):
            pass

    bound = types.MethodType(function, 1)
    objects = [function, bound, types.MethodType(bound, 2), types.MethodType(Callable(), 1), types.MethodType(len, ()), types.MethodType(functools.partial(function), 1), Callable(), Callable, Callable().method, Callable.method, len, None, 1]
    for object_ in objects:
        flagged = bool(getattr(getattr(object_, '__code__', None), 'co_flags', 0) & inspect.CO_ITERABLE_COROUTINE) if isinstance(object_, (types.FunctionType, types.MethodType)) else False
        # the standard library unwraps partial functions too
        skip = isinstance(getattr(object_, '__func__', None), functools.partial)
        for got, expected, name in (
            (is_coroutine_function(object_), inspect.iscoroutinefunction(object_) or flagged, 'coroutine function'),
            (is_generator_function(object_), inspect.isgeneratorfunction(object_), 'generator function'),
            (is_coroutine_generator_function(object_), inspect.isasyncgenfunction(object_), 'coroutine generator function'),
        ):
            if skip:
                expected = False
            check_eq(got, expected, f'whether an object is a {name}', object_, type(object_).__name__, kind)


def _check_object_kinds(object_, kind):
    is_coroutine_ = kind in ('coroutine', 'iterable_coroutine')
    check_eq(is_coroutine(object_), is_coroutine_, 'whether an object is a coroutine', kind)
    check_eq(is_awaitable(object_), inspect.isawaitable(object_), 'whether an object is awaitable', kind)
    check_eq(is_coroutine_generator(object_), inspect.isasyncgen(object_), 'whether an object is a coroutine generator', kind)
    check_eq(is_generator(object_), inspect.isgenerator(object_), 'whether an object is a generator', kind)


@C50.case('functions', _functions_strategy, quick = 1200, thorough = 30000, shards = 2)
def run_functions(case, ctx):
    kind, signature, body, calls, steps, variant = case
    source = _build_function(kind, signature, body)
    cell = variant & 3
    calls = [_fit(call, signature) for call in calls]
    drive_kind = kind
    filename = '<made>'

    def make():
        function, log = _make(source, cell, kind)
        if variant & 4:
            function.attribute = ['mark']
        if variant & 8:
            function.__doc__ = 'other docs'
            function.__qualname__ = 'Other.place'
            function.__module__ = 'other.module'
        return function, log

    def make_reference():
        function, log = make()
        if kind == 'iterable_coroutine':
            function = types.coroutine(function)
        return function, log

    def make_target():
        function, log = make()
        if kind == 'iterable_coroutine':
            check(to_coroutine(function) is function, 'a function turned to coroutine function is not itself')
        return function, log

    # conversions
    function, log = make_target()
    _check_kinds(function, kind, ctx)
    if kind in ('plain', 'coroutine_generator'):
        try:
            to_coroutine(function)
        except TypeError:
            pass
        else:
            raise Violation(f'a function of kind {kind!r} can be turned to a coroutine function')
    elif kind == 'coroutine':
        check(to_coroutine(function) is function, 'a coroutine function is changed when turned to one')
    reference, _ = make_reference()
    check_eq(_metadata(function), _metadata(reference), 'metadata of a function', kind)

    # copies
    copied = copy_func(function)
    check(copied is not function, 'a copied function is the original one')
    check_eq(_metadata(copied), _metadata(function), 'metadata of a copied function', kind)
    before = _metadata(function)
    before = (*before[: 5], dict(before[5] or {}), dict(before[6]), dict(before[7]))
    copied.other = 1
    copied.__defaults__ = (1,)
    if copied.__kwdefaults__:
        copied.__kwdefaults__['k0'] = 'changed'
    copied.__annotations__['p0'] = 'changed'
    after = _metadata(function)
    check_eq((*after[: 5], dict(after[5] or {}), dict(after[6]), dict(after[7])), before, 'a function after its copy was changed')

    called = False
    for positional, keyword in calls:
        reference, reference_log = make_reference()
        expected = _observe(reference, reference_log, positional, keyword, steps, drive_kind)
        if expected[0] != 'TypeError':
            called = True
            if kind == 'plain':
                ctx.nontrivial(sum(bool(signature[key]) for key in ('positional_only', 'positional', 'args', 'keyword_only', 'keywords')) > 1)
            else:
                ctx.nontrivial(expected[0] == 'driven' and len([item for item in expected[1] if item[0] == 'value']) > 1)
        ctx.label(expected[0])
        targets = []
        function, log = make_target()
        targets.append(('function', function, log))
        function, log = make_target()
        targets.append(('copy', copy_func(function), log))
        function, log = make_target()
        targets.append(('postponed', (lambda function: lambda *positional, **keyword: alchemy_incendiary(function, positional, keyword if (keyword or variant & 16) else None)())(function), log))
        if is_coroutine_function(function):
            function, log = make_target()
            proxy = CoroutineFunctionTypeProxy(function)
            targets.append(('proxy', proxy, log))
            function, log = make_target()
            targets.append(('proxy of proxy', CoroutineFunctionTypeProxy(CoroutineFunctionTypeProxy(function)), log))
            if kind == 'coroutine' or kind == 'iterable_coroutine':
                function, log = make_target()
                targets.append(('awaited', functools.partial(_await_through, CoroutineFunctionTypeProxy(function)), log))
        for name, target, log in targets:
            if name == 'awaited':
                if expected[0] != 'driven' or any(item[0] in ('throw', 'close') for item in steps):
                    # being awaited shows in how errors are thrown in
                    continue
            got = _observe(target, log, positional, keyword, steps, drive_kind)
            if name == 'awaited':
                # what a finished one does further differs
                if any(item[0] == 'TypeError' for item in expected[1]):
                    continue
                got, wanted = ((item[0], _until_end(item[1]), item[2]) for item in (got, expected))
            else:
                wanted = expected
            check_eq(got, wanted, f'what a {name} does', kind, positional, keyword, steps)
    # objects
    for positional, keyword in calls:
        function, log = make_target()
        try:
            object_ = function(*positional, **keyword)
        except (TypeError, LookupError):
            continue
        if kind != 'plain':
            _check_object_kinds(object_, kind)
            if hasattr(object_, 'close'):
                object_.close()
        # bound
        function, log = make_target()
        reference, reference_log = make_reference()
        if positional and is_coroutine_function(function):
            holder = type('Holder', (), {'proxy': CoroutineFunctionTypeProxy(function), 'plain': reference, '__eq__': lambda self, other: True})
            if variant & 32:
                got = _observe(functools.partial(holder().proxy), log, positional[1:], keyword, steps, drive_kind)
                expected = _observe(functools.partial(holder().plain), reference_log, positional[1:], keyword, steps, drive_kind)
            else:
                got = _observe(holder.proxy, log, positional, keyword, steps, drive_kind)
                expected = _observe(holder.plain, reference_log, positional, keyword, steps, drive_kind)
            check_eq(got[: 2], expected[: 2], 'what a proxy set on a class does', kind)


def _until_end(outcomes):
    for index, item in enumerate(outcomes):
        if item[0] != 'value':
            return outcomes[: index + 1]
    return outcomes


async def _await_through(function, *positional, **keyword):
    return await function(*positional, **keyword)


def _proxies_strategy():
    return st.tuples(
        st.booleans(),
        st.lists(st.tuples(
            st.sampled_from(['set', 'get', 'get', 'del', 'copy', 'copy', 'unknown']), st.integers(0, 2), st.integers(0, 3), st.integers(0, 3),
        ), max_size = 12),
    )


FUNCTION_ATTRIBUTES = ['__name__', '__doc__', '__defaults__', '__annotations__']
COROUTINE_ATTRIBUTES = ['__name__', 'cr_code', 'cr_running', '__doc__']


@C50.case('proxies', _proxies_strategy, quick = 500, thorough = 10000)
def run_proxies(case, ctx):
    of_coroutine, operations = case

    async def function(a = 1):
        """docs"""
        return a

    attributes = COROUTINE_ATTRIBUTES if of_coroutine else FUNCTION_ATTRIBUTES
    proxy_type = CoroutineTypeProxy if of_coroutine else CoroutineFunctionTypeProxy
    proxied = function() if of_coroutine else function
    try:
        proxies = [proxy_type(proxied)]
        models = [{}]
        for operation, target_index, attribute_index, value in operations:
            target_index %= len(proxies)
            proxy = proxies[target_index]
            model = models[target_index]
            name = attributes[attribute_index]
            if operation == 'set':
                ctx.nontrivial()
                setattr(proxy, name, ('set', value))
                model[name] = ('set', value)
            elif operation == 'del':
                delattr(proxy, name)
                model.pop(name, None)
            elif operation == 'copy' and len(proxies) < 3:
                if value == 0:
                    proxies.append(proxy._copy_self_clean())
                    models.append({})
                else:
                    proxies.append(proxy_type(proxy))
                    models.append(model.copy())
            elif operation == 'unknown':
                try:
                    proxy.unknown_attribute
                except AttributeError:
                    pass
                else:
                    raise Violation('an unknown attribute of a proxy')
            for proxy, model in zip(proxies, models):
                for name in attributes:
                    got = getattr(proxy, name)
                    expected = model[name] if name in model else getattr(proxied, name)
                    check(got is expected or got == expected, 'attribute of a proxy', name, got, expected)
                check(isinstance(proxy, type(proxied)), 'a proxy is not like what it proxies')
                check_eq(hash(proxy), hash(proxied), 'hash of a proxy')
                check(proxy == proxied and proxied == proxy and proxy == proxies[0] and not (proxy != proxied), 'a proxy does not equal what it proxies')
                check(not (proxy == 1) and proxy != 1 and proxy != function.__code__, 'a proxy equals something else')
    finally:
        if of_coroutine:
            proxied.close()
