"""C45: rendering of exceptions."""
import contextlib, io, os, re, shutil, sys, tempfile, threading, traceback, warnings
from builtins import AttributeError as PlainAttributeError
from hypothesis import strategies as st
import vsim
from scarletio import ExceptionWriterContextManager, write_exception_sync
from scarletio.utils import CauseGroup, DEFAULT_ANSI_HIGHLIGHTER, RichAttributeErrorBaseType, render_exception_into, render_frames_into
from scarletio.utils.trace.exception_proxy import ExceptionProxyRich, ExceptionProxyVirtual
from scarletio.utils.trace.frame_grouping import group_frames
from scarletio.utils.trace.frame_proxy import FrameProxyVirtual
from vharness import Property, Violation, check, check_eq

C45 = Property('C45', rule = (
    'Generated programs raising chains and groups of exceptions through recursive calls; broken sources; exceptions and variables with hostile hooks; sequences of frames; histories of a file. '
    'Non-trivial = at least two exceptions or a repeated block, a syntax error with a line, an attribute error with a hostile object, a file that changed.'
))

# ---- chains ----

KINDS = ['ValueError', 'KeyError', 'Plain', 'WithInit', 'WithRepr', 'OSError', 'Number']
MESSAGES = ['', 'message', 'two\nlines', '\u65e5\u672c', 'with "quotes" and `graves`', "it's"]
PRELUDE = '''class Plain(Exception): pass
class WithInit(Exception):
    def __init__(self, value, *others): Exception.__init__(self, value)
class WithRepr(Exception):
    def __init__(self, value): self.value = value
    def __repr__(self): return f'<WithRepr value = {self.value!r}>'
def identity(*parameters): return parameters
'''


def _chain_strategy():
    step = st.tuples(st.integers(0, 6), st.sampled_from([0, 0, 0, 1, 2, 3, 5]), st.booleans())
    def node(children):
        return st.tuples(
            st.lists(step, max_size = 3), st.integers(0, len(KINDS) - 1), st.integers(0, len(MESSAGES) - 1), st.sampled_from(['cause', 'context', 'none', 'group']), children, st.integers(0, 1),
        )
    leaf = node(st.just([]))
    tree = st.recursive(leaf, lambda children: node(st.lists(children, min_size = 1, max_size = 3)), max_leaves = 5)
    return st.tuples(tree, st.sampled_from(['plain', 'plain', 'plain', 'filter', 'threads', 'write', 'proxy']), st.integers(0, 3))


class Source:
    def __init__(self):
        self.lines = PRELUDE.splitlines()
        self.extents = {}
        self.counter = 0

    def add(self, indentation, *lines):
        """Adds a statement of the given lines."""
        start = len(self.lines)
        for line in lines:
            self.lines.append(' ' * indentation + line if line else line)
        # a line with all of its brackets around it is shown alone
        self.extents[start] = (start, len(self.lines))

    def add_raw(self, indentation, first, *lines):
        start = len(self.lines)
        self.lines.append(' ' * indentation + first)
        self.lines.extend(lines)
        self.extents[start] = (start, len(self.lines))

    def call(self, indentation, layout, name):
        if layout == 0:
            self.add(indentation, f'{name}()')
        elif layout == 1:
            self.add(indentation, f'value = {name}()  # comment \xe9 (')
        elif layout == 2:
            self.add(indentation, 'identity(', f'    {name}(),', ')')
        elif layout == 3:
            self.add(indentation, 'if True:')
            self.add(indentation + 4, f'{name}()')
        elif layout == 4:
            self.add(indentation, f'for _ in range(1): {name}(); pass')
        elif layout == 5:
            self.add_raw(indentation, f'identity({name}(), """', ' ' * (indentation + 4) + 'text', '', ' ' * (indentation + 2) + 'more', ' ' * indentation + '""",', ' ' * indentation + ')')
        else:
            self.add_raw(indentation, 'identity(', ' ' * indentation + '    """', ' text', '   """,', ' ' * indentation + f'    {name}(),', ' ' * indentation + ')')

    def node(self, node):
        path, kind, message, link, children, multi = node
        child_names = [self.node(child) for child in children]
        self.counter += 1
        identifier = self.counter
        names = [f'function_{identifier}_{index}' for index in range(len(path) + 1)]
        for index, (layout, recursion, mutual) in enumerate(path):
            self.lines.append('')
            if not recursion:
                self.add(0, f'def {names[index]}():')
            else:
                self.add(0, f'def {names[index]}(count = {recursion}):')
                self.add(4, 'if count:')
                if mutual:
                    self.add(8, f'return other_{names[index]}(count)')
                else:
                    self.add(8, f'return {names[index]}(count - 1)')
            self.call(4, layout, names[index + 1])
            if recursion and mutual:
                self.lines.append('')
                self.add(0, f'def other_{names[index]}(count):')
                self.add(4, f'return {names[index]}(count - 1)')
        self.lines.append('')
        self.add(0, f'def {names[-1]}():')
        name = KINDS[kind]
        value = repr(MESSAGES[message])
        if name == 'OSError':
            created = f'OSError(2, {value})'
        elif name == 'Number':
            created = f'Plain({message})'
        elif name == 'Plain':
            created = 'Plain()' if message == 0 else f'Plain({value})'
        else:
            created = f'{name}({value})'

        def throw(indentation, suffix):
            if multi:
                self.add(indentation, f'raise {created[:created.index("(")]}(', f'    {created[created.index("(") + 1 : -1]}', f'){suffix}')
            else:
                self.add(indentation, f'raise {created}{suffix}')

        if not children:
            throw(4, '')
        elif link == 'group':
            self.add(4, 'errors = []')
            self.add(4, f'for function in ({", ".join(child_names)},):')
            self.add(8, 'try:')
            self.add(12, 'function()')
            self.add(8, 'except BaseException as exception:')
            self.add(12, 'errors.append(exception)')
            throw(4, ' from CauseGroup(*errors)')
        else:
            self.add(4, 'try:')
            self.add(8, f'{child_names[0]}()')
            self.add(4, 'except BaseException as exception:')
            throw(8, {'cause' : ' from exception', 'context' : '', 'none' : ' from None'}[link])
        return names[0]


def dedent(lines):
    lines = [line.rstrip() for line in lines]
    removed = min(len(line) - len(line.lstrip(' ')) for line in lines if line)
    return [line[removed:] for line in lines]


def expected_representation(exception):
    name = type(exception).__name__
    if name in ('WithInit', 'WithRepr') or len(exception.args) > 1:
        return repr(exception)
    if not exception.args:
        return name
    value = exception.args[0]
    return f'{name}: {value if isinstance(value, str) else repr(value)}'


def expected_frames(exception, source, filter_ = None):
    for frame, line_number in traceback.walk_tb(exception.__traceback__):
        file_name = frame.f_code.co_filename
        name = frame.f_code.co_name
        if filter_ is not None and not filter_(name):
            continue
        start, end = source.extents.get(line_number - 1, (line_number - 1, line_number))
        yield file_name, end - start > 1, line_number, name, tuple(dedent(source.lines[start : end]))


def expected_events(exception, source, filter_ = None):
    chain = []
    link = None
    while True:
        chain.append((exception, link))
        if exception.__cause__ is not None:
            exception = exception.__cause__
            link = 'group' if isinstance(exception, CauseGroup) else 'cause'
        elif exception.__context__ is not None and not exception.__suppress_context__:
            exception = exception.__context__
            link = 'context'
        else:
            break
    for exception, link in reversed(chain):
        if link == 'group':
            yield 'group', len(exception.causes)
            for index, cause in enumerate(exception.causes, 1):
                yield 'item', index
                yield from expected_events(cause, source, filter_)
        else:
            yield 'exception', list(expected_frames(exception, source, filter_)), expected_representation(exception)
        if link is not None:
            yield 'link', link


HEADER = re.compile(r'  File "(.*)", (around )?line (\d+), in (\S+)\Z')
REPEATED = re.compile(r'\[Following (\d+) frames? (?:was|were) repeated (\d+) times\]\Z')


def parse_frames(lines, index):
    """Returns the frames, how many were displayed, and where they end."""
    frames = []
    displayed = []
    group = None
    while index < len(lines):
        line = lines[index]
        matched = REPEATED.match(line)
        if matched is not None:
            check(group is None, 'repeated block in a repeated block', lines)
            group = (int(matched[1]), int(matched[2]), [])
            index += 1
            continue
        if line == '[End of repeated frames]':
            check(group is not None, 'end of no repeated block', lines)
            size, count, collected = group
            check_eq(len(collected), size, 'size of the repeated block', lines)
            check(count > 1, 'block repeated once', lines)
            frames.extend(collected * count)
            displayed.append(count)
            group = None
            index += 1
            continue
        matched = HEADER.match(line)
        if matched is None:
            break
        index += 1
        source = []
        while index < len(lines) and (lines[index].startswith('    ') or (not lines[index].strip() and index + 1 < len(lines) and lines[index + 1].startswith('    '))):
            source.append(lines[index][4:].rstrip())
            index += 1
        frame = (matched[1].replace('\\"', '"'), matched[2] is not None, int(matched[3]), matched[4], tuple(source))
        if group is None:
            frames.append(frame)
            displayed.append(frame)
        else:
            group[2].append(frame)
    check(group is None, 'repeated block without an end', lines)
    return frames, displayed, index


def parse_events(text, representations):
    lines = text.split('\n')
    check_eq(lines.pop(), '', 'the output does not end with a line break')
    index = 0
    groups = []
    while index < len(lines):
        line = lines[index]
        matched = re.match(r'\[Exception (\d+)\] ', line)
        if matched is not None:
            yield 'item', int(matched[1])
            line = line[matched.end():]
            lines[index] = line
        matched = re.match(r'The following (\d+) exceptions', line)
        if matched is not None:
            yield 'group', int(matched[1])
            index += 1
            continue
        if line == 'Traceback (most recent call last):':
            frames, displayed, index = parse_frames(lines, index + 1)
            for position in range(len(displayed) - 2):
                check(len({*displayed[position : position + 3]}) > 1, 'the same frame shown three times', displayed[position])
            # the representation can be of more lines
            remaining = '\n'.join(lines[index:]) + '\n'
            fits = [item for item in representations if remaining.startswith(item + '\n')]
            check(fits, 'unknown representation', remaining)
            representation = max(fits, key = len)
            index += representation.count('\n') + 1
            yield 'exception', frames, representation
            continue
        if 'direct cause of the following' in line:
            yield 'link', 'group' if re.match(r'The above \d+ exception', line) else 'cause'
        elif line.startswith('During handling'):
            yield 'link', 'context'
        else:
            check(not line, 'unexpected line', line, text)
        index += 1


def iter_exceptions(exception, seen):
    if exception is None or id(exception) in seen:
        return
    seen.add(id(exception))
    yield exception
    yield from iter_exceptions(exception.__cause__, seen)
    yield from iter_exceptions(exception.__context__, seen)
    if isinstance(exception, CauseGroup):
        for cause in exception.causes:
            yield from iter_exceptions(cause, seen)


ANSI = re.compile('\x1b\\[[0-9;]*m')


def render(exception, **keyword):
    return ''.join(render_exception_into(exception, **keyword))


@contextlib.contextmanager
def folder():
    path = tempfile.mkdtemp(prefix = 'c45-')
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors = True)


def capture(function):
    try:
        function()
    except BaseException as exception:
        # without the frame of ours
        return exception.with_traceback(exception.__traceback__.tb_next)
    raise Violation('nothing was raised')


@C45.case('chains', _chain_strategy, quick = 900, thorough = 40000, shards = 3)
def c45_chains(case, ctx):
    tree, mode, argument = case
    source = Source()
    name = source.node(tree)
    with folder() as path:
        file_name = os.path.join(path, 'pro "gram.py' if argument == 3 else 'program.py')
        text = '\n'.join(source.lines) + '\n'
        with open(file_name, 'w', encoding = 'utf-8') as file:
            file.write(text)
        space = {'CauseGroup' : CauseGroup}
        exec(compile(text, file_name, 'exec'), space)
        exception = capture(space[name])
        everything = list(iter_exceptions(exception, set()))
        representations = {expected_representation(item) for item in everything if not isinstance(item, CauseGroup)}
        filter_ = None
        keyword = {}
        if mode == 'filter':
            filter_ = lambda name_: hash_of(name_) % (argument + 2) != 0
            keyword['filter'] = lambda frame: filter_(frame.name)
        expected = list(expected_events(exception, source, filter_))
        ctx.nontrivial(len(expected) > 1 or any(step[1] > 1 for step in tree[0]))
        if mode == 'threads':
            ctx.label('threads')
            outputs = []
            errors = []
            def run():
                try:
                    outputs.append(render(exception))
                except BaseException as error:
                    errors.append(error)
            threads = [threading.Thread(target = run) for _ in range(4)]
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            try:
                for thread in threads:
                    thread.start()
                for thread in threads:
                    thread.join()
            finally:
                sys.setswitchinterval(old)
            if errors:
                raise errors[0]
            check_eq(len({*outputs}), 1, 'outputs of the threads')
            output = outputs[0]
        elif mode == 'write':
            ctx.label('write')
            file = io.StringIO()
            before = [None, 'before\n', ['be', 'fore', '\n', 'x'], '\n\n'][argument]
            after = [None, 'after', [], 'two\nlines\n\n'][argument]
            write_exception_sync(exception, before, after, file)
            output = file.getvalue()
            head = ['', 'before\n', 'before\nx\n', ''][argument]
            tail = ['', 'after\n', '', 'two\nlines\n'][argument]
            check(output.startswith(head) and output.endswith(tail), 'before and after', output)
            output = output[len(head) : len(output) - len(tail)]
        else:
            extend = ['prefix']
            result = render_exception_into(exception, extend, **keyword)
            check(result is extend and extend[0] == 'prefix', 'extend')
            output = ''.join(extend[1:])
        check_eq(list(parse_events(output, representations)), expected, 'rendered exception')
        check_eq(ANSI.sub('', render(exception, highlighter = DEFAULT_ANSI_HIGHLIGHTER, **keyword)), output, 'highlighted output')
        # frames alone
        frames = []
        traceback_ = exception.__traceback__
        while traceback_ is not None:
            frames.append(traceback_)
            traceback_ = traceback_.tb_next
        lines = ''.join(render_frames_into(frames, **keyword)).split('\n')
        parsed, displayed, index = parse_frames(lines, 0)
        check_eq(lines[index:], [''], 'rendered frames')
        check_eq(parsed, list(expected_frames(exception, source, filter_)), 'rendered frames')
        if mode == 'proxy':
            ctx.label('proxy')
            rich = ExceptionProxyRich(exception)
            virtual = ExceptionProxyVirtual(rich)
            check_eq((len(rich), len(virtual)), (len(frames), len(frames)), 'length of the proxies')
            check(rich % virtual and virtual % rich and rich % ExceptionProxyRich(exception), 'proxies are not alike')
            check(rich == rich and virtual == ExceptionProxyVirtual(ExceptionProxyRich(exception)), 'proxies are not equal')
            check(rich.has_variables() and not virtual.has_variables(), 'variables')
            rich.drop_variables()
            check(not rich.has_variables() and rich % virtual and rich == virtual, 'dropped variables')
            check_eq(render(exception), output, 'second rendering')


def hash_of(name):
    return sum(map(ord, name))


# ---- groups of frames ----

def _group_strategy():
    block = st.lists(st.integers(0, 4), min_size = 1, max_size = 4)
    return st.lists(st.tuples(block, st.sampled_from([1, 1, 1, 2, 3, 4, 7])), min_size = 0, max_size = 6)


@C45.case('grouping', _group_strategy, quick = 4000, thorough = 150000)
def c45_grouping(case, ctx):
    names = [letter for block, count in case for letter in block * count]
    frames = [FrameProxyVirtual.from_fields(file_name = 'a.py', line_index = letter, name = f'f{letter}', instruction_index = letter & 1) for letter in names]
    groups = group_frames(list(frames)) or []
    got = [frame.line_index for group in groups for frame in group.iter_frames()]
    check_eq(got, names, 'frames of the groups')
    check_eq(sum(len(group) for group in groups), len(names), 'length of the groups')
    shown = []
    stretch = []
    for group in groups:
        check(group.frames and group.repeat_count >= 1, 'empty group')
        letters = [frame.line_index for frame in group.iter_frames_no_repeat()]
        check_eq(letters * group.repeat_count, [frame.line_index for frame in group.iter_frames()], 'group')
        shown.extend(letters)
        if group.repeat_count > 1:
            ctx.nontrivial()
            check(len(letters) * (group.repeat_count - 1) >= 2, 'too short block')
            stretch = []
        else:
            stretch.extend(letters)
            for size in range(1, len(stretch) // 2 + 1):
                for start in range(len(stretch) - size * 2 + 1):
                    block = stretch[start : start + size]
                    if size == 1:
                        repeated = stretch[start : start + 3] == block * 3
                    else:
                        repeated = stretch[start : start + size * 2] == block * 2
                    check(not repeated, 'repeated block left', stretch, block)


# ---- syntax errors ----

SOURCES = [
    'def f(a, b):\n    return a + b * (2 - 1)\n', 'x = {\n    "a": 1,\n    "b": [2, 3],\n}\n', 'class A:\n\tdef f(self):\n\t\tif self.x == 3:\n\t\t\tyield 4\n',
    'for i in range(3):\n    print(f"{i!r:>{5}}", \'\xe9\', "\u65e5\u672c\u8a9e", i)\n', 'try:\n    pass\nexcept (A, B) as e:\n    raise X from e\n', 'x = """a\nb\n"""\ny = 1\n',
    'with a as b, c as d: pass\nasync def g():\n    await x; return 1\n', 'match a:\n    case [b, *c]:\n        pass\n',
]
PIECES = [
    *'()[]{}:,.=+*"\'\\ \n\t#@!0a$\xe9\x0c', 'def ', 'return ', 'import ', ' if ', 'lambda ', 'None', '0x', '1_', 'f"{', '"""', 'await ', ' = ', 'global a', 'nonlocal b\n', 'del f()', '*',
]


def _syntax_strategy():
    edit = st.tuples(st.integers(0, 2), st.integers(0, 80), st.integers(0, len(PIECES) - 1))
    made = st.tuples(
        st.sampled_from(['msg', '', None]), st.sampled_from(['file.py', '', None]), st.integers(-1, 4), st.integers(-1, 12),
        st.sampled_from(['line one', '  line\n', '', None, '\t\n']), st.one_of(st.none(), st.tuples(st.one_of(st.none(), st.integers(-1, 4)), st.one_of(st.none(), st.integers(-1, 14)))),
    )
    return st.one_of(
        st.tuples(st.just('compiled'), st.integers(0, len(SOURCES) - 1), st.lists(edit, min_size = 1, max_size = 3)), st.tuples(st.just('compiled'), st.integers(0, len(SOURCES) - 1), st.lists(edit, min_size = 1, max_size = 3)),
        st.tuples(st.just('made'), made, st.just([])),
    )


@C45.case('syntax', _syntax_strategy, quick = 3000, thorough = 100000)
def c45_syntax(case, ctx):
    kind, argument, edits = case
    if kind == 'made':
        message, file_name, line_number, offset, line, end = argument
        error = SyntaxError(message, (file_name, line_number, offset, line, *(end or ())))
    else:
        content = SOURCES[argument]
        for operation, position, piece in edits:
            position %= len(content) + 1
            content = content[:position] + (PIECES[piece] if operation else '') + content[position + (operation != 1):]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                compile(content, 'the file.py', 'exec')
        except SyntaxError as exception:
            error = exception
        except ValueError:
            return
        else:
            return
        error.__traceback__ = None
    output = render(error)
    check_eq(ANSI.sub('', render(error, highlighter = DEFAULT_ANSI_HIGHLIGHTER)), output, 'highlighted output')
    lines = output.split('\n')
    check_eq((lines.pop(0), lines.pop()), ('Traceback (most recent call last):', ''), 'first and last line')
    if len(error.args) != 2:
        check(lines[0].startswith(f'{type(error).__name__}: '), 'title', lines)
        return
    if kind == 'made' and end is not None and None in end:
        # generic representation
        check('SyntaxError' in output, 'title', output)
        return
    location = lines.pop(0)
    name = f'"{error.filename}"' if error.filename else 'unknown location'
    check_eq(location, f'  File {name}, line {error.lineno}', 'location')
    check_eq(lines.pop().split(': ')[0] if not error.msg else lines.pop(), type(error).__name__ if not error.msg else f'{type(error).__name__}: {error.msg}', 'title')
    line = error.text
    stripped = line.strip(' \n\t\f') if line else ''
    if not stripped:
        check(not ''.join(lines).strip(' ^'), 'a line appeared', lines)
        return
    ctx.nontrivial()
    if '\n' in stripped:
        # the interpreter gives all the lines of a token
        check('    ' + stripped in output, 'lines', output)
        return
    check_eq(lines.pop(0).rstrip(), ('    ' + stripped).rstrip(), 'line')
    # the pointer, as the interpreter means it
    shift = len(line.rstrip()) - len(line.rstrip().lstrip(' \n\t\f'))
    start = error.offset - 1
    if error.end_offset is None or error.end_lineno is None:
        stop = start + 1
    elif error.end_lineno == error.lineno:
        stop = max(error.end_offset - 1, start + 1)
    elif kind == 'compiled':
        stop = max(len(line.rstrip()), start + 1)
    else:
        return
    start -= shift
    stop -= shift
    if start < 0:
        # before the text, does not matter how much is kept of it
        return
    check_eq(lines, [' ' * (4 + start) + '^' * (stop - start)], 'pointer')


# ---- hostile objects ----

# Not defined here, so rendering their frames does not parse this file.
HOSTILE = """
class Oops(Exception):
    pass


def _raise(*parameters, **keyword):
    raise Oops('hostile')


class Hostile0:
    __getattr__ = _raise


class Hostile1:
    def __dir__(self):
        return None


class Hostile2:
    def __dir__(self):
        return [1, None, 'attribute', ('a', 'b')]


class Hostile3:
    __dir__ = _raise


class Hostile4:
    __class__ = property(_raise)


class Hostile5:
    __dict__ = property(_raise)


class Hostile6:
    __slots__ = ('attribute', 'attribute_name')


class Hostile7:
    attribute = property(_raise)
    def __hash__(self):
        raise Oops
    __eq__ = _raise
    __repr__ = _raise
    __bool__ = _raise


class Meta(type):
    __name__ = property(_raise)
    __repr__ = _raise
    __getattr__ = _raise


class Hostile8(metaclass = Meta):
    pass


class Hostile9(RichAttributeErrorBaseType):
    one_two_three = one_three_two = three_one_two = None


for _index in range(60):
    setattr(Hostile9, f'item_{_index}_of_the_class', None)


class Hostile10:
    def __getattribute__(self, name):
        raise PlainAttributeError(name = name, obj = self)


class BadStr(str):
    __str__ = _raise
    __repr__ = _raise
    __format__ = _raise


class ReprBadStr:
    def __repr__(self):
        return BadStr('shown')


class BadMapping:
    def __getitem__(self, key):
        raise KeyError(key)

    def __setitem__(self, key, value):
        pass


class ArgsException(Exception):
    args = property(_raise)


class NameException(Exception, metaclass = Meta):
    pass


class ReprException(Exception):
    def __init__(self, *parameters):
        pass
    __str__ = __repr__ = _raise


class ReprException2(Exception):
    def __init__(self, *parameters):
        pass
    def __repr__(self):
        return BadStr('shown')


class SyntaxErrorArgs(SyntaxError):
    args = 5


class AttributeErrorSub(PlainAttributeError):
    def __getattribute__(self, name):
        if name.startswith('__'):
            return PlainAttributeError.__getattribute__(self, name)
        raise Oops
"""

exec(compile(HOSTILE, '<hostile>', 'exec'))

OBJECTS = [object, int, Hostile0, Hostile1, Hostile2, Hostile3, Hostile4, Hostile5, Hostile6, Hostile7, Hostile8, Hostile9, Hostile10, lambda: Hostile8, lambda: None, lambda: sys]
NAMES = ['attribute', 'a', 'attribut', '_', '__', '', 'a b', '1', 'item_1_of_class', 'one_two_three_four_five_six_seven_eight_nine_ten', 'aBCdEFgHI1J2k3l4m5n6', '\xe9', 'real', BadStr('attribute')]


EXCEPTIONS = [
    lambda value: ValueError(value), lambda value: ValueError(value, value), lambda value: ArgsException(value), lambda value: NameException(value), lambda value: ReprException(value),
    lambda value: ReprException2(value), lambda value: SyntaxError(value, (value, value, value, value)), lambda value: SyntaxErrorArgs(value), lambda value: PlainAttributeError(value),
    lambda value: PlainAttributeError(value, name = value), lambda value: PlainAttributeError('x', name = 'attribute', obj = value), lambda value: ImportError('x', name = value), lambda value: CauseGroup(ValueError(1), KeyError(value)),
    lambda value: ExceptionGroup('group', [ValueError(value)]), lambda value: KeyboardInterrupt(value), lambda value: SyntaxError('message', ('f', 1, 2, 'line', value, value)), lambda value: AttributeErrorSub(value, name = 'attribute', obj = value),
]
VALUES = [None, 1, 'text', BadStr('text'), ReprBadStr(), Hostile7(), Hostile8(), Hostile0(), Hostile8, (), b'\xff', Hostile5(), Hostile4(), Hostile10(), '\udc80', 'nul \x00 \x1b[0m']


def _hostile_strategy():
    return st.one_of(
        st.tuples(st.just('attribute'), st.integers(0, len(OBJECTS) - 1), st.integers(0, len(NAMES) - 1), st.lists(st.integers(0, len(OBJECTS) - 1), max_size = 3), st.integers(0, 3)),
        st.tuples(st.just('exception'), st.integers(0, len(EXCEPTIONS) - 1), st.integers(0, len(VALUES) - 1), st.just([]), st.integers(0, 5)),
    )


@C45.case('hostile', _hostile_strategy, quick = 1200, thorough = 20000)
def c45_hostile(case, ctx):
    kind, index, argument, others, mode = case
    seeds = {}
    if kind == 'attribute':
        ctx.nontrivial(index > 1 or len(others) > 0)
        instance = OBJECTS[index]()
        name = NAMES[argument]
        space = {'instance' : instance, 'name' : name, 'getattr' : getattr}
        for position, other in enumerate(others):
            space[f'variable_{position}'] = OBJECTS[other]()
        if mode == 1:
            space[1] = 2
            space[(1, 2)] = 3
            space[None] = OBJECTS[0]()
        try:
            if mode == 2:
                exec('getattr(instance, name)', space, BadMapping())
            elif mode == 3:
                exec('def function(instance, name, one_two, *, one_three = 1):\n    getattr(instance, name)', space)
                space['function'](instance, name, *[item for key, item in space.items() if isinstance(key, str) and key.startswith('variable_')][:1] or [None])
            else:
                exec('getattr(instance, name)', space)
        except BaseException as caught:
            exception = caught.with_traceback(caught.__traceback__.tb_next)
        else:
            return
    else:
        ctx.nontrivial()
        exception = EXCEPTIONS[index](VALUES[argument])
        if mode == 1:
            exception.__cause__ = exception
        elif mode == 2:
            other = ValueError('the other')
            other.__cause__ = exception
            exception.__context__ = other
            exception.__suppress_context__ = False
        elif mode == 3:
            other = ValueError('the other')
            group = CauseGroup(exception, other)
            exception.__cause__ = group
            seeds['the other'] = 1
        elif mode == 4:
            exception.__traceback__ = None
            exception.__cause__ = ReprException()
    name = type.__dict__['__name__'].__get__(type(exception))
    output = render(exception)
    check(isinstance(output, str), 'output', output)
    if type(exception) not in (ReprException2, CauseGroup):
        check(name in output, 'the type is not told', output)
        if mode in (1, 2, 3) and kind == 'exception':
            check_eq(output.count('Traceback (most recent'), 1 if mode == 1 else 2, 'exceptions of a cycle', output)
    for seed, count in seeds.items():
        check_eq(output.count(seed), count, 'rendered part')
    check_eq(ANSI.sub('', render(exception, highlighter = DEFAULT_ANSI_HIGHLIGHTER)), ANSI.sub('', output), 'highlighted output')
    if kind == 'attribute' and type(exception).__name__ == 'AttributeError' and type(NAMES[argument]) is str:
        check(f'`.{NAMES[argument]}`' in output, 'the attribute is not told', output)


# ---- files ----

def _file_strategy():
    operation = st.one_of(
        st.tuples(st.just('write'), st.integers(0, 6), st.integers(0, 3)), st.tuples(st.just('write'), st.integers(4, 6), st.integers(0, 3)), st.tuples(st.just('remove'), st.just(0), st.just(0)), st.tuples(st.just('render'), st.booleans(), st.just(0)),
        st.tuples(st.just('render'), st.booleans(), st.just(0)), st.tuples(st.just('release'), st.just(0), st.just(0)), st.tuples(st.just('weird'), st.integers(0, 4), st.just(0)),
    )
    return st.lists(operation, min_size = 4, max_size = 10)


@C45.case('files', _file_strategy, quick = 1500, thorough = 30000)
def c45_files(case, ctx):
    with folder() as path:
        file_name = os.path.join(path, 'file.py')
        space = {}
        exec(compile('\n\ndef function():\n    raise ValueError("message")\n', file_name, 'exec'), space)
        retained = []
        current = None
        version = 0
        rendered = None
        missing = False
        for operation, argument, shift in case:
            if operation == 'write':
                version += 1
                lines = [f'line {index} of version {version}' for index in range(argument)]
                if argument > 3 and shift:
                    lines[3] = ['', '    indented()', '', '    \x0c x']  [shift]
                content = '\n'.join(lines) + '\n' * (shift & 1)
                current = content
                if os.path.islink(file_name):
                    os.remove(file_name)
                with open(file_name, 'w') as file:
                    file.write(content)
                # every version has its own time
                os.utime(file_name, (1000000000 + version * 10, 1000000000 + version * 10))
            elif operation == 'weird':
                current = None
                if os.path.lexists(file_name):
                    os.remove(file_name)
                if argument == 0:
                    with open(file_name, 'wb') as file:
                        file.write(b'\xff\xfe\x00\n"""\n(((\n\x80\n')
                    current = ...
                elif argument == 1:
                    os.symlink(file_name, file_name)
            elif operation == 'remove':
                current = None
                if os.path.lexists(file_name):
                    os.remove(file_name)
            elif operation == 'release':
                retained.clear()
                missing = False
            elif operation == 'render':
                exception = capture(space['function'])
                proxy = ExceptionProxyRich(exception)
                output = render(exception)
                lines = output.split('\n')
                check_eq(lines[0], 'Traceback (most recent call last):', 'output')
                check_eq(lines[1], f'  File "{file_name}", line 4, in function', 'output')
                check_eq(lines[-2:], ['ValueError: message', ''], 'output')
                if current is ... or missing:
                    pass
                elif current is None:
                    check_eq(lines[2:-2], [], 'source of a file that does not exist')
                else:
                    sources = current.split('\n')
                    source = sources[3].strip() if len(sources) > 3 else ''
                    check_eq([line.strip() for line in lines[2:-2] if line.strip()], [source] if source else [], 'source line')
                if rendered is not None and rendered != current:
                    ctx.nontrivial()
                rendered = current
                if argument:
                    from scarletio.utils.trace.frame_proxy import populate_frame_proxies
                    populate_frame_proxies(list(proxy.iter_frames_no_repeat()))
                    retained.append(ExceptionProxyVirtual(proxy))
                    if current is None:
                        # what could not be read is not looked for again till it is held
                        missing = True
                del proxy


# ---- the writer ----

WRITER_EXCEPTIONS = [ValueError, UnicodeDecodeError, KeyError, GeneratorExit, KeyboardInterrupt, LookupError]
SELECTIONS = [None, ValueError, (KeyError, ValueError), LookupError, BaseException, ()]


def _writer_strategy():
    return st.tuples(
        st.sampled_from(['thread', 'task', 'async']), st.one_of(st.none(), st.integers(0, len(WRITER_EXCEPTIONS) - 1)), st.integers(0, len(SELECTIONS) - 1), st.integers(0, len(SELECTIONS) - 1), st.sampled_from([None, 'there']),
    )


def make_exception(index):
    if WRITER_EXCEPTIONS[index] is UnicodeDecodeError:
        return UnicodeDecodeError('utf-8', b'', 0, 1, 'x')
    return WRITER_EXCEPTIONS[index]('value')


async def _writer_task(sim, manager, exception, asynchronous):
    try:
        if asynchronous:
            async with manager:
                if exception is not None:
                    raise exception
        else:
            with manager:
                if exception is not None:
                    raise exception
    except BaseException as error:
        return error


@C45.case('writer', _writer_strategy, quick = 400, thorough = 4000)
def c45_writer(case, ctx):
    mode, index, include, exclude, location = case
    include = SELECTIONS[include]
    exclude = SELECTIONS[exclude]
    exception = None if index is None else make_exception(index)
    manager = ExceptionWriterContextManager(include, exclude, location = location)
    before = len(vsim.RECORDED)
    if mode == 'thread':
        coroutine = _writer_task(None, manager, exception, False)
        try:
            coroutine.send(None)
        except StopIteration as stop:
            escaped = stop.value
        else:
            raise Violation('sync context manager waited')
    else:
        escaped = vsim.run(_writer_task, manager, exception, mode == 'async')
    written = vsim.RECORDED[before:]
    captured = exception is not None and (include is None or isinstance(exception, include)) and (exclude is None or not isinstance(exception, exclude))
    if captured and mode != 'thread' and isinstance(exception, GeneratorExit):
        captured = False
    if captured:
        ctx.nontrivial()
        check_eq(escaped, None, 'escaped exception')
        check_eq(len(written), 1, 'count of the written exceptions')
        check(written[0][0] is exception, 'written exception')
        if location is not None:
            check(location in written[0][1], 'location', written)
    else:
        check(escaped is exception, 'exception that should pass', escaped)
        check_eq(written, [], 'written exceptions')
