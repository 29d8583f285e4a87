"""C43: analysing callables."""
import inspect, types
from hypothesis import strategies as st
import vsim
from scarletio import (
    CallableAnalyzer, RichAnalyzer, is_awaitable, is_coroutine, is_coroutine_function, is_coroutine_generator, is_coroutine_generator_function, is_generator,
    is_generator_function, to_coroutine
)
from vharness import Property, Violation, check, check_eq

C43 = Property('C43', rule = (
    'Callables of any signature and kind: functions, methods, class and static methods, instances with `__call__`, types with `__new__` / `__init__`, all plain, async or generators. '
    'Non-trivial = at least two parameters.'
))

# name index order is the order of the parameters
def _signature_strategy():
    return st.tuples(
        st.integers(0, 2), st.integers(0, 3), st.integers(0, 4), st.booleans(),
        st.lists(st.tuples(st.booleans(), st.booleans()), max_size = 3), st.booleans(), st.integers(0, 255),
    )


KINDS = ['plain', 'plain', 'async', 'async_generator', 'generator']
FORMS = ['function', 'as_method', 'method', 'classmethod', 'staticmethod', 'instance', 'type_init', 'type_new', 'type_both', 'type_none', 'lambda', 'inherited', 'closure', 'instance_method_call']


def _strategy():
    return st.tuples(st.sampled_from(FORMS), _signature_strategy(), st.sampled_from(KINDS), st.sampled_from([None, *KINDS]))


class Signature:
    def __init__(self, case, reserved):
        positional_only, positional, defaults, args, keyword_only, kwargs, annotations = case
        self.parameters = []
        names = iter('abcdefghijk')
        total = positional_only + positional
        for index in range(total):
            name = next(names)
            self.parameters.append((name, 'positional_only' if index < positional_only else 'positional', index >= total - defaults))
        if args:
            self.parameters.append(('args', 'args', False))
        for has_default, swap in keyword_only:
            self.parameters.append(('k' + next(names), 'keyword_only', has_default))
        if kwargs:
            self.parameters.append(('kwargs', 'kwargs', False))
        self.annotated = {name for index, (name, *_) in enumerate(self.parameters) if annotations >> index & 1}
        self.reserved = reserved
        self.positional_only = positional_only

    def source(self, first, annotate):
        parts = list(first)
        seen_args = False
        for index, (name, kind, has_default) in enumerate(self.parameters):
            if kind == 'keyword_only' and not seen_args and not any(part.startswith('*') for part in parts):
                parts.append('*')
            text = {'args' : '*', 'kwargs' : '**'}.get(kind, '') + name
            if annotate and name in self.annotated:
                text += f' : "annotation of {name}"'
            if has_default:
                text += f' = {"default of " + name!r}'
            parts.append(text)
            if kind == 'positional_only' and index + 1 == self.positional_only:
                parts.append('/')
        return ', '.join(parts)


BODIES = {'plain' : ('def', 'return locals()'), 'async' : ('async def', 'return locals()'), 'async_generator' : ('async def', 'yield locals()'), 'generator' : ('def', 'yield locals()')}


def function_source(name, kind, signature, first, indent = ''):
    keyword, body = BODIES[kind]
    return f'{indent}{keyword} {name}({signature.source(first, True)}):\n{indent}    {body}\n'


def build(form, signature, kind, call_kind):
    """-> (callable, underlying function or None, reserved parameters, kind when called, kind of calling its instances)"""
    namespace = {}
    if form == 'lambda':
        namespace['thing'] = eval(f'lambda {signature.source([], False)} : locals()')
        return namespace['thing'], namespace['thing'], 0, 'plain', None
    if form in ('function', 'as_method'):
        exec(function_source('thing', kind, signature, ['self'] if form == 'as_method' else []), namespace)
        return namespace['thing'], namespace['thing'], int(form == 'as_method'), kind, None
    if form == 'closure':
        exec('def outer(x):\n' + function_source('thing', kind, signature, [], '    ').replace('locals()', '(x, locals())') + '    return thing\nthing = outer(1)', namespace)
        return namespace['thing'], namespace['thing'], 0, kind, None
    call = '' if call_kind is None else f'    {BODIES[call_kind][0]} __call__(self, ignored = 1):\n        {BODIES[call_kind][1]}\n'
    if form in ('method', 'classmethod', 'staticmethod', 'inherited'):
        decorator = {'classmethod' : '    @classmethod\n', 'staticmethod' : '    @staticmethod\n'}.get(form, '')
        first = {'classmethod' : ['cls'], 'staticmethod' : []}.get(form, ['self'])
        exec(f'class Type:\n{decorator}{function_source("thing", kind, signature, first, "    ")}\nclass Sub(Type): pass', namespace)
        owner = namespace['Sub' if form == 'inherited' else 'Type']
        thing = getattr(owner(), 'thing')
        return thing, getattr(thing, '__func__', thing), len(first), kind, None
    if form == 'instance':
        exec('class Type:\n' + function_source('__call__', kind, signature, ['self'], '    '), namespace)
        return namespace['Type'](), namespace['Type'].__call__, 1, kind, None
    if form == 'instance_method_call':
        exec('class Type:\n' + function_source('__call__', kind, signature, ['self'], '    '), namespace)
        instance = namespace['Type']()
        return instance.__call__, namespace['Type'].__call__, 1, kind, None
    if form == 'type_none':
        exec('class Type:\n    x = 1\n' + call, namespace)
        return namespace['Type'], None, 0, 'plain', call_kind
    if form == 'type_init':
        exec('class Type:\n' + function_source('__init__', 'plain', signature, ['self'], '    ').replace('return locals()', 'self.got = locals()') + call, namespace)
        return namespace['Type'], namespace['Type'].__init__, 1, 'plain', call_kind
    if form == 'type_new':
        if kind == 'generator':
            kind = 'plain'
        exec('class Type:\n' + function_source('__new__', kind, signature, ['cls'], '    ').replace('return locals()', 'return object.__new__(cls)' if kind == 'plain' else 'return locals()') + call, namespace)
        return namespace['Type'], namespace['Type'].__new__, 1, kind, call_kind
    exec(
        'class Type:\n    def __init__(self, *args, **kwargs): pass\n' + function_source('__new__', 'plain', signature, ['cls'], '    ').replace('return locals()', 'return object.__new__(cls)') + call, namespace
    )
    return namespace['Type'], namespace['Type'].__new__, 1, 'plain', call_kind


KIND_NAMES = {
    inspect.Parameter.POSITIONAL_ONLY : 'positional_only', inspect.Parameter.POSITIONAL_OR_KEYWORD : 'positional', inspect.Parameter.VAR_POSITIONAL : 'args',
    inspect.Parameter.KEYWORD_ONLY : 'keyword_only', inspect.Parameter.VAR_KEYWORD : 'kwargs',
}


@C43.case('callables', _strategy, quick = 6000, thorough = 200000, shards = 2)
def c43_callables(case, ctx):
    form, shape, kind, call_kind = case
    signature = Signature(shape, 0)
    ctx.nontrivial(len(signature.parameters) > 1)
    ctx.label(form)
    thing, function, reserved, kind, call_kind = build(form, signature, kind, call_kind)
    analyzer = CallableAnalyzer(thing, as_method = form == 'as_method')
    expected = [] if function is None else list(inspect.signature(function).parameters.values())
    parameters = analyzer.parameters
    check_eq([parameter.name for parameter in parameters], [parameter.name for parameter in expected], 'names of the parameters')
    for index, (parameter, wanted) in enumerate(zip(parameters, expected)):
        name = KIND_NAMES[wanted.kind]
        check_eq(
            (parameter.is_positional_only(), parameter.is_positional(), parameter.is_keyword(), parameter.is_keyword_only(), parameter.is_args(), parameter.is_kwargs()),
            (name == 'positional_only', name in ('positional_only', 'positional'), name in ('positional', 'keyword_only'), name == 'keyword_only', name == 'args', name == 'kwargs'),
            'kind of a parameter', parameter,
        )
        check_eq((parameter.has_default, parameter.default), (False, None) if wanted.default is wanted.empty else (True, wanted.default), 'default of a parameter', parameter)
        check_eq((parameter.has_annotation, parameter.annotation), (False, None) if wanted.annotation is wanted.empty else (True, wanted.annotation), 'annotation of a parameter', parameter)
        check_eq(bool(parameter.reserved), index < reserved, 'whether a parameter is reserved', parameter)
        repr(parameter)
        check(analyzer.get_parameter(parameter.name) is parameter and analyzer.has_parameter(parameter.name), 'looking up a parameter by its name')
        check(parameter == CallableAnalyzer(thing, as_method = form == 'as_method').get_parameter(parameter.name), 'a parameter is not equal to the same parameter')
    check(not analyzer.has_parameter('missing') and analyzer.get_parameter('missing') is None, 'looking up a missing parameter')

    free = expected[reserved :]
    positional = [item for item in free if KIND_NAMES[item.kind] in ('positional_only', 'positional')]
    keyword_only = [item for item in free if KIND_NAMES[item.kind] == 'keyword_only']
    required = sum(item.default is item.empty for item in positional)
    names = lambda items: [item.name for item in items]
    check_eq(names(analyzer.iter_non_reserved_parameters()), names(free), 'parameters which are not reserved')
    check_eq(names(analyzer.get_non_reserved_positional_parameters()), names(positional), 'positional parameters')
    check_eq(analyzer.get_non_reserved_positional_parameter_count(), len(positional), 'amount of positional parameters')
    check_eq(analyzer.get_non_reserved_non_default_parameter_count(), required, 'amount of required positional parameters')
    check_eq(tuple(analyzer.get_non_reserved_positional_parameter_range()), (required, len(positional)), 'range of positional parameters')
    check_eq(names(analyzer.get_non_reserved_keyword_only_parameters()), names(keyword_only), 'keyword only parameters')
    check_eq(analyzer.get_non_default_keyword_only_parameter_count(), sum(item.default is item.empty for item in keyword_only), 'amount of required keyword only parameters')
    check_eq(analyzer.accepts_args(), any(KIND_NAMES[item.kind] == 'args' for item in expected), 'accepts args')
    check_eq(analyzer.accepts_kwargs(), any(KIND_NAMES[item.kind] == 'kwargs' for item in expected), 'accepts kwargs')
    check_eq(analyzer.is_async(), kind == 'async', 'is async')
    check_eq(analyzer.is_async_generator(), kind == 'async_generator', 'is async generator')

    # Calling it agrees
    minimum, maximum = analyzer.get_non_reserved_positional_parameter_range()
    keyword = {parameter.name : 0 for parameter in analyzer.get_non_reserved_keyword_only_parameters() if not parameter.has_default}
    given = [None] if form == 'as_method' else []
    for amount in range(0, maximum + 3):
        if function is None and amount:
            break
        try:
            result = thing(*given, *range(amount), **keyword)
        except TypeError:
            called = False
        else:
            called = True
            if inspect.iscoroutine(result):
                result.close()
        check_eq(called, amount >= minimum and (amount <= maximum or analyzer.accepts_args()), 'calling it with', amount, 'positional parameters')
    if keyword:
        keyword.popitem()
        try:
            result = thing(*given, *range(minimum), **keyword)
        except TypeError:
            pass
        else:
            raise Violation('called without a required keyword only parameter')

    instanceable = form.startswith('type_') and kind == 'plain' and required == 0 and all(item.default is not item.empty for item in keyword_only)
    check_eq(analyzer.can_instance_to_async_callable(), instanceable and call_kind == 'async', 'can be instanced to an async callable')
    check_eq(analyzer.can_instance_to_async_generator(), instanceable and call_kind == 'async_generator', 'can be instanced to an async generator')
    if instanceable:
        instance = analyzer.instance()
        check(type(instance) is thing, 'instance')
        if call_kind is not None:
            check_eq(CallableAnalyzer(instance).is_async(), call_kind == 'async', 'instance is async')
    check(analyzer == CallableAnalyzer(thing), 'not equal to the analyzer of the same callable')
    check(analyzer % CallableAnalyzer(thing, as_method = form == 'as_method'), 'does not match itself')
    check_eq(analyzer != CallableAnalyzer(build), True, 'equal to the analyzer of an other callable')
    repr(analyzer)
    rich = RichAnalyzer(thing, as_method = form == 'as_method')
    if form != 'instance':
        check_eq(rich.name, thing.__name__, 'name')
    if expected:
        check(getattr(rich.parameters, expected[-1].name) == parameters[-1], 'rich access to a parameter')
    check(not hasattr(rich.parameters, 'missing'), 'rich access to a missing parameter')


NOT_SUPPORTED = [5, 'text', None, type, print, len, int, object(), [], types.SimpleNamespace()]


def _predicate_strategy():
    return st.tuples(st.sampled_from(FORMS), _signature_strategy(), st.sampled_from(KINDS), st.booleans())


@C43.case('predicates', _predicate_strategy, quick = 2000, thorough = 50000)
def c43_predicates(case, ctx):
    form, shape, kind, convert = case
    if form.startswith('type_') or form == 'instance':
        form = 'method'
    shape = (shape[0], shape[1], 9, shape[3], [(True, False) for _ in shape[4]], shape[5], shape[6])
    thing, function, reserved, kind, call_kind = build(form, Signature(shape, 0), kind, None)
    ctx.nontrivial(kind != 'plain')
    given = [None] if form == 'as_method' else []
    converted = False
    if convert and isinstance(thing, types.FunctionType):
        plain_result = thing(*given)
        try:
            same = to_coroutine(thing)
        except TypeError:
            check(kind in ('plain', 'async_generator'), 'a generator could not be converted to coroutine', kind)
        else:
            check(kind in ('async', 'generator'), 'a function was converted to coroutine', kind)
            check(same is thing, 'to_coroutine does not return its function')
            converted = kind == 'generator'
        if inspect.iscoroutine(plain_result):
            plain_result.close()
    check_eq(is_coroutine_function(thing), kind == 'async' or converted, 'is_coroutine_function')
    check_eq(is_coroutine_generator_function(thing), kind == 'async_generator', 'is_coroutine_generator_function')
    check_eq(is_generator_function(thing), kind == 'generator', 'is_generator_function')
    result = thing(*given)
    check_eq(is_coroutine(result), kind == 'async' or converted, 'is_coroutine')
    check_eq(is_awaitable(result), inspect.isawaitable(result), 'is_awaitable')
    check_eq(is_coroutine_generator(result), kind == 'async_generator', 'is_coroutine_generator')
    check_eq(is_generator(result), kind == 'generator', 'is_generator')
    if converted:
        async def use():
            return await result
        coroutine = use()
        check(type(coroutine.send(None)) is dict or form == 'closure', 'a converted generator can not be awaited')
        coroutine.close()
    elif inspect.iscoroutine(result):
        result.close()
    for value in NOT_SUPPORTED:
        for predicate in (is_coroutine_function, is_coroutine_generator_function, is_generator_function, is_coroutine, is_awaitable, is_coroutine_generator, is_generator):
            check_eq(predicate(value), False, predicate.__name__, value)
