"""C51: the line editor of the console on a pseudo terminal. C52: the asynchronous console."""
import errno, gc, os, pty, re, select, sys, termios, threading, time, tty
from hypothesis import strategies as st
import scarletio
from scarletio.utils import DEFAULT_ANSI_HIGHLIGHTER, get_highlight_streamer
from scarletio.utils.highlight import iter_highlight_code_token_types_and_values
from scarletio.tools.asynchronous_interactive_console import console as console_module
from scarletio.tools.asynchronous_interactive_console.auto_completer import AutoCompleter
from scarletio.tools.asynchronous_interactive_console.history import History
from scarletio.tools.asynchronous_interactive_console.editors.editor_advanced import EditorAdvanced
from vharness import Property, Violation, check, check_eq

C51 = Property('C51', rule = (
    'Up to 3 inputs in a row sharing their history, each of up to 14 actions: typed text, single keys, pastes with and without prompts of consoles, garbage, text printed meanwhile and resizes of a terminal of 14 to 50 columns. '
    'Non-trivial = a line was wrapped over more rows, text was printed while editing, the history was used, or the input compiled.'
))

KEYS = {
    'left': '\x1b[D', 'right': '\x1b[C', 'up': '\x1b[A', 'down': '\x1b[B', 'home': '\x1b[H', 'end': '\x1b[F',
    'backspace': '\x7f', 'delete': '\x1b[3~', 'tab': '\t', 'back tab': '\x1b[Z', 'enter': '\r',
}
COMMAND_RP = re.compile('\x1b\\[([0-9;]*)([A-Za-z])')


class Terminal:
    """A terminal with endless rows."""
    def __init__(self, columns):
        self.columns = columns
        self.rows = {}
        self.row = 0
        self.column = 0
        self.pending = False
        self.format = frozenset()
        self.rest = ''
        self.data = b''

    def feed(self, data):
        data = self.data + data
        try:
            text = data.decode()
        except UnicodeDecodeError as exception:
            if exception.end < len(data):
                raise Violation(f'not unicode output: {data[-100:]!r}')
            text = data[: exception.start].decode()
            self.data = data[exception.start :]
        else:
            self.data = b''
        text = self.rest + text
        self.rest = ''
        index = 0
        while index < len(text):
            character = text[index]
            if character == '\x1b':
                match = COMMAND_RP.match(text, index)
                if match is None:
                    if len(text) - index > 30:
                        raise Violation(f'not known terminal command: {text[index : index + 30]!r}')
                    self.rest = text[index :]
                    return
                index = match.end()
                self.command(match[1], match[2])
                continue
            index += 1
            if character == '\n':
                self.row += 1
                self.pending = False
            elif character == '\r':
                self.column = 0
                self.pending = False
            elif character == '\x08':
                self.column = max(self.column - 1, 0)
                self.pending = False
            elif character == '\x07':
                pass
            elif character < ' ':
                raise Violation(f'control character written: {character!r}')
            else:
                if self.pending:
                    self.row += 1
                    self.column = 0
                    self.pending = False
                row = self.rows.setdefault(self.row, {})
                row[self.column] = (character, self.format)
                if self.column == self.columns - 1:
                    self.pending = True
                else:
                    self.column += 1

    def command(self, parameters, kind):
        if kind == 'm':
            self.format = apply_format(self.format, parameters)
            return
        amount = int(parameters) if parameters else None
        if kind in 'ABCDEF':
            self.pending = False
            amount = max(amount or 1, 1)
            if kind in 'AF':
                self.row -= amount
            elif kind in 'BE':
                self.row += amount
            elif kind == 'C':
                self.column = min(self.column + amount, self.columns - 1)
            else:
                self.column = max(self.column - amount, 0)
            if kind in 'EF':
                self.column = 0
            if self.row < 0:
                raise Violation('the cursor is moved over what was there before the editor')
        elif kind == 'G':
            self.pending = False
            self.column = min(max((amount or 1) - 1, 0), self.columns - 1)
        elif kind == 'K':
            row = self.rows.setdefault(self.row, {})
            for column in [*row]:
                if (amount or 0) == 2 or ((amount or 0) == 0 and column >= self.column) or (amount == 1 and column <= self.column):
                    del row[column]
        elif kind == 'J' and (amount or 0) == 0:
            for row_index in [*self.rows]:
                if row_index > self.row:
                    del self.rows[row_index]
            row = self.rows.setdefault(self.row, {})
            for column in [*row]:
                if column >= self.column:
                    del row[column]
        else:
            raise Violation(f'not known terminal command: {parameters!r} {kind!r}')

    def text_of(self, row_index):
        row = self.rows.get(row_index, {})
        if not row:
            return ''
        return ''.join(row.get(column, (' ', None))[0] for column in range(max(row) + 1)).rstrip(' ')

    def lines(self):
        last = max((index for index in self.rows if self.text_of(index)), default = -1)
        return [self.text_of(index) for index in range(last + 1)]

    def resize(self, columns):
        """Resizes the terminal. Rows which do not fit anymore are continued in a new one."""
        if columns < self.columns:
            rows = {}
            position = 0
            cursor = None
            for row_index in range(max([*self.rows, self.row]) + 1):
                row = self.rows.get(row_index, {})
                length = max(row, default = -1) + 1
                if row_index == self.row:
                    length = max(length, self.column + self.pending)
                count = max(1, -(-length // columns))
                for column, cell in row.items():
                    if column // columns < count:
                        rows.setdefault(position + column // columns, {})[column % columns] = cell
                if row_index == self.row:
                    cursor = (position + min(self.column // columns, count - 1), self.column % columns if self.column // columns < count else columns - 1)
                position += count
            self.rows = rows
            self.row, self.column = cursor
        self.pending = False
        self.columns = columns


def apply_format(format_, parameters):
    """Formats are frozensets of (kind, value)."""
    codes = [int(item or 0) for item in parameters.split(';')]
    current = dict(format_)
    index = 0
    while index < len(codes):
        code = codes[index]
        index += 1
        if code == 0:
            current.clear()
        elif code in (38, 48):
            size = 2 if codes[index : index + 1] == [5] else 4
            current[code] = tuple(codes[index : index + size])
            index += size
        elif 30 <= code <= 37 or 90 <= code <= 97:
            current[38] = code
        elif 40 <= code <= 47 or 100 <= code <= 107:
            current[48] = code
        elif code == 39:
            current.pop(38, None)
        elif code == 49:
            current.pop(48, None)
        else:
            current[('style', code)] = True
    return frozenset(current.items())


def highlighted(lines):
    """The characters of the lines with their format."""
    streamer = get_highlight_streamer(DEFAULT_ANSI_HIGHLIGHTER)
    parts = []
    for item in iter_highlight_code_token_types_and_values('\n'.join(lines)):
        parts.extend(streamer.asend(item))
    parts.extend(streamer.asend(None))
    format_ = frozenset()
    output = [[]]
    text = ''.join(parts)
    index = 0
    while index < len(text):
        match = COMMAND_RP.match(text, index)
        if match is not None:
            format_ = apply_format(format_, match[1])
            index = match.end()
            continue
        if text[index] == '\n':
            output.append([])
        else:
            output[-1].append((text[index], format_))
        index += 1
    return output


LINES = [
    'x = 1', 'x', 'y = x + 2', 'x; 3', '"text"', 'None', 'def f():', 'if 1:', 'for i in range(3):', '    x = 2', '    return x', '    pass', 'return', 'pass', 'x = (', '1)', 'x = [', ']', '',
    '    ', '# comment', '"""a', 'b"""', 'print_ = "a long string which is wrapped over more rows for sure, is it?"', 'élan = "őű"', 'f(x, y=1, *a)  # c', 'class A:', '  in [ 0 ]', 'In [1]', 'in[7]', 'x = )', 'await x', 'alpha', 'alph', 'impo', 'x.real',
    "f'{x!r:>{w}} a'", 'lambda: 1', 'while  True :  ', '\\', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa', '...', '>>',
]
TYPED = [line for line in LINES if line and len(line) < 12]
STYLES = ['plain', 'scarletio', 'cpython', 'pypy', 'late scarletio', 'late cpython', 'late pypy']
VARIABLES = {'alpha': 1, 'alphabet': 2, 'alphabetic': 3, 'xenon': 4, 'x': 5, 'élan': 6, '_private': 7}
PRINTED = ['a\n', 'line\nother line\n', 'no end', '\n', 'őű\n', 'end\n', 'wide ' * 12 + '\n', 'é' * 700 + '\n', 'tail', 'x' + 'é' * 700 + '\n', '€' * 400 + '\n', 'é' * 600]


def _actions():
    return st.one_of(
        st.tuples(st.just('type'), st.sampled_from(TYPED)),
        st.tuples(st.just('type'), st.sampled_from(TYPED)),
        st.tuples(st.just('chunk'), st.sampled_from(LINES)),
        st.tuples(st.just('key'), st.sampled_from([*KEYS])),
        st.tuples(st.just('key'), st.sampled_from([*KEYS])),
        st.tuples(st.just('keys'), st.lists(st.sampled_from([*KEYS, 'char']), min_size = 2, max_size = 6)),
        st.tuples(st.just('repeat'), st.sampled_from(['left', 'up', 'enter', 'right', 'backspace', 'tab', 'down']), st.integers(2, 9)),
        st.tuples(st.just('top'), st.booleans()),
        st.tuples(st.just('history'), st.lists(st.sampled_from(['up', 'down']), min_size = 2, max_size = 7)),
        st.tuples(st.just('key'), st.just('enter')),
        st.tuples(
            st.just('indented'), st.integers(0, 11), st.sampled_from(['', 'x', 'x  y', 'pass', 'return', 'return x', 'return(x)', 'passed', 'break ', 'continue', 'if x:', 'if x:  ', 'x\té', 'x = {1: ']),
            st.integers(0, 9), st.sampled_from(['back tab', 'back tab', 'tab', 'tab', 'enter', 'enter', 'backspace', 'delete', 'home', 'end']),
        ),
        st.tuples(st.just('paste'), st.sampled_from(STYLES), st.lists(st.sampled_from(LINES), min_size = 1, max_size = 4), st.booleans()),
        st.tuples(st.just('garbage'), st.sampled_from(['\x00', '\x1b', '\x1b[', '\x1b[9~', '\x1b[3', '\x01a', '\x7f\x00', '\x1bOP', '\x80'])),
        st.tuples(st.just('print'), st.sampled_from(PRINTED), st.booleans(), st.sampled_from(['left', 'enter', 'char', 'home'])),
        st.tuples(st.just('resize'), st.integers(14, 50)),
    )


def _editing_strategy():
    return st.tuples(
        st.integers(14, 50),
        st.lists(st.tuples(
            st.integers(0, 3), st.lists(_actions(), max_size = 14), st.sampled_from(['enter', 'enter', 'interrupt', 'destroy']), st.booleans(),
        ), min_size = 1, max_size = 3),
    )


class Model:
    """What an editor is to show."""
    def __init__(self, lines, history):
        self.lines = lines or ['']
        self.row = len(self.lines) - 1
        self.column = len(self.lines[-1])
        self.modified = False
        self.history = history
        self.outcome = None

    def line(self):
        return self.lines[self.row]

    def blank(self):
        return not ''.join(self.lines).strip(' \t\r\n')

    # history

    def in_history(self):
        if self.row or self.column:
            return False
        if not self.modified:
            return True
        if self.blank():
            self.modified = False
            return True
        return False

    def process(self, content):
        tokens = tokenize(content)
        formatted = True
        if len(tokens) > 1:
            trimmed = trim(content)
            if trimmed is None:
                formatted = False
            else:
                tokens = tokenize(trimmed)
                formatted = len(tokens) < 2
        for token in tokens:
            self.apply(token, formatted)

    def apply(self, token, formatted):
        line = self.line()
        before = line[: self.column]
        after = line[self.column :]
        if token == 'enter':
            if formatted and self.enter():
                return
            indent = 0
            if formatted:
                indent = len(line) - len(line.lstrip(' '))
                if before.rstrip(' ').endswith(':'):
                    indent += 4
                elif re.match('\\s*(pass|return|continue|break)( |$)', before):
                    indent = max(0, indent - 4)
            self.lines[self.row : self.row + 1] = [before, ' ' * indent + after]
            self.row += 1
            self.column = indent
            self.modified = True
        elif token == 'left':
            if self.column:
                self.column -= 1
            elif self.row:
                self.row -= 1
                self.column = len(self.line())
        elif token == 'right':
            if after:
                self.column += 1
            elif self.row + 1 < len(self.lines):
                self.row += 1
                self.column = 0
        elif token == 'home':
            self.column = 0
        elif token == 'end':
            self.column = len(line)
        elif token in ('up', 'down'):
            if formatted and self.in_history():
                self.lines = [*(self.history.move(-1 if token == 'up' else 1) or [''])]
                self.column = self.row = 0
                return 
            if token == 'up':
                if self.row:
                    self.row -= 1
                    self.column = min(self.column, len(self.line()))
                else:
                    self.column = 0
            else:
                if self.row + 1 < len(self.lines):
                    self.row += 1
                    self.column = min(self.column, len(self.line()))
                else:
                    self.column = len(line)
        elif token == 'back tab':
            spaces = len(line) - len(line.lstrip(' '))
            if spaces:
                removed = spaces % 4 or 4
                self.lines[self.row] = line[removed :]
                self.column = max(0, self.column - removed)
                self.modified = True
        elif token == 'tab':
            self.tab(line, before, after, formatted)
        elif token == 'delete':
            if after:
                self.lines[self.row] = before + after[1 :]
            elif self.row + 1 < len(self.lines):
                self.lines[self.row : self.row + 2] = [line + self.lines[self.row + 1]]
            else:
                return
            self.modified = True
        elif token == 'backspace':
            if before:
                self.lines[self.row] = before[: -1] + after
                self.column -= 1
            elif self.row:
                self.row -= 1
                self.column = len(self.line())
                self.lines[self.row : self.row + 2] = [self.line() + line]
            else:
                return
            self.modified = True
        else:
            self.lines[self.row] = before + token[1] + after
            self.column += 1
            self.modified = True

    def tab(self, line, before, after, formatted):
        if formatted:
            match = re.search('[^\\s"#%&\'()*+,\\-./:;<=>@\\[\\\\\\]{|}~]+\\Z', before)
            if (
                match and match[0].isidentifier() and (not after or after[0] in ' "#%&\'()*+,-./:;<=>@[\\]{|}~') and
                not before[: match.start()].rstrip(' ').endswith('.')
            ):
                word = match[0]
                options = {name for name in (*VARIABLES, *console_builtins()) if name.startswith(word) and name != word}
                common = os.path.commonprefix([*options])
                if len(common) > len(word):
                    self.lines[self.row] = before + common[len(word) :] + after
                    self.column += len(common) - len(word)
                    self.modified = True
                return
            add = 4 - self.column % 4
            while add and self.column < len(line) and line[self.column] == ' ':
                self.column += 1
                add -= 1
        else:
            add = 4
        if add:
            self.lines[self.row] = line[: self.column] + ' ' * add + line[self.column :]
            self.column += add
            self.modified = True

    def enter(self):
        """Returns whether the enter key did not make a new line."""
        filled = [line for line in self.lines if line.strip(' \t\n')]
        if len(filled) == 1:
            match = re.fullmatch('\\s*in\\s*\\[\\s*(\\d+)\\s*\\]\\s*', filled[0], re.I)
            if match:
                self.lines = [*(self.history.elements.get(int(match[1])) or [''])]
                self.row = len(self.lines) - 1
                self.column = len(self.lines[-1])
                return True
        if len(self.lines) == 1:
            line = self.lines[0]
            if not line[: self.column].strip(' \t') or line[self.column :].strip(' \t'):
                return False
        elif len(self.lines) == 2:
            return False
        else:
            if any(line.strip(' \t') for line in self.lines[self.row - 1 if self.row else 0 :]):
                return False
            if not any(line.strip(' \t') for line in self.lines[: self.row]):
                return False
        source = '\n'.join(line.rstrip() for line in self.lines)
        status = complete(source)
        if status == 'incomplete':
            return False
        self.outcome = (status, source)
        return True


def console_builtins():
    import scarletio.tools.asynchronous_interactive_console.auto_completer as module
    return module.BUILTINS


def complete(source):
    """Whether the source is complete, incomplete or wrong."""
    import ast, warnings
    if not ''.join(line.split('#')[0] for line in source.split('\n')).strip():
        return 'incomplete'
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        try:
            compile(source, '<model>', 'exec', ast.PyCF_ALLOW_TOP_LEVEL_AWAIT | 0x4000)
        except SyntaxError as exception:
            return 'incomplete' if 'incomplete input' in str(exception) else 'error'
    return 'complete'


def tokenize(content):
    tokens = []
    index = 0
    inverse = sorted(((value, key) for key, value in KEYS.items()), key = lambda item: -len(item[0]))
    while index < len(content):
        for value, key in inverse:
            if content.startswith(value, index):
                tokens.append(key)
                index += len(value)
                break
        else:
            character = content[index]
            index += 1
            if character == '\n':
                tokens.append('enter')
            elif character.isprintable():
                tokens.append(('char', character))
    return tokens


PROMPTS = {
    'scarletio': ('In [3]: ', '   ...: '), 'cpython': ('>>> ', '... '), 'pypy': ('>>>> ', '.... '),
}
PROMPT_RPS = [('In \\[\\d+\\]: ', ' +\\.\\.\\.: ', ' +\\.\\.\\.: ?'), ('>>> ', '\\.\\.\\. ', '\\.\\.\\. ?'), ('>>>> ', '\\.\\.\\.\\. ', '\\.\\.\\.\\. ?')]


def trim(content):
    """Removes the prompts of a paste. Every line after the first has to have one."""
    lines = content.splitlines()
    for index, (initial, continuous, last) in enumerate(PROMPT_RPS):
        if index == 1 and content == '...':
            continue
        if len(lines) == 1:
            if not (re.match(initial, lines[0]) or re.match(continuous, lines[0]) or re.fullmatch(last, lines[0])):
                continue
        elif not (all(re.match(continuous, line) for line in lines[1 : -1]) and (re.match(continuous, lines[-1]) or re.fullmatch(last, lines[-1]))):
            continue
        output = []
        for line_index, line in enumerate(lines):
            for pattern in ((initial, continuous) if not line_index else (continuous,)):
                match = re.match(pattern, line)
                if match:
                    line = line[match.end() :]
                    break
            else:
                if line_index == len(lines) - 1 and re.fullmatch(last, line):
                    line = ''
            output.append(line)
        if not any(output):
            return ''
        return '\n'.join(output)
    return None


class HistoryModel:
    def __init__(self):
        self.elements = {}
        self.size = 0
        self.position = 0

    def add(self, index, lines):
        lines = [line.rstrip() for line in lines]
        while lines and not lines[0]:
            del lines[0]
        while lines and not lines[-1]:
            del lines[-1]
        if lines:
            self.elements[index] = lines
        self.size = index
        self.position = index + 1

    def move(self, by):
        """Goes to the previous / next input which differs."""
        current = self.elements.get(self.position)
        while True:
            position = self.position + by
            if position < -1 or position > self.size + 1:
                return None
            self.position = position
            element = self.elements.get(position)
            if element is not None and element != current:
                return element


def paste_of(style, lines, unix):
    if style == 'plain':
        text = lines
    elif style.startswith('late '):
        # the first prompt is not where the line starts
        initial, continuous = PROMPTS[style[5 :]]
        text = [(continuous if index else 'x ' + initial) + line for index, line in enumerate(lines)]
    else:
        initial, continuous = PROMPTS[style]
        text = [(continuous if index else initial) + line for index, line in enumerate(lines)]
    return ('\n' if unix else '\r').join(text)


class Steps:
    """Feeds an editor, and checks what it shows."""
    def __init__(self, chunks, model, terminal, master, editor_box, prefix_initial, prefix_continuous, prefix_length, ctx, top):
        self.chunks = chunks
        self.index = 0
        self.model = model
        self.terminal = terminal
        self.master = master
        self.box = editor_box
        self.prefixes = (strip(prefix_initial), strip(prefix_continuous))
        self.prefix_length = prefix_length
        self.ctx = ctx
        self.top = top
        self.printed = ''
        self.surely_read = 0
        self.shown_text = ''
        self.fixed = 0

    def read(self):
        while True:
            try:
                data = os.read(self.master, 1 << 16)
            except BlockingIOError:
                return
            except OSError as exception:
                if exception.errno == errno.EIO:
                    return
                raise
            if not data:
                return
            self.terminal.feed(data)

    def expected_rows(self):
        """(cells) of each row, and the position of the cursor."""
        model = self.model
        width = self.terminal.columns - self.prefix_length - 1
        rows = []
        cursor = None
        for index, (line, cells) in enumerate(zip(model.lines, highlighted(model.lines))):
            check_eq(''.join(item[0] for item in cells), line, 'highlighted text')
            prefix = [(character, None) for character in self.prefixes[1 if index else 0]]
            pieces = [cells[position : position + width] for position in range(0, max(len(cells), 1), width)]
            start = len(rows)
            for piece_index, piece in enumerate(pieces):
                if piece_index:
                    prefix = [(' ', None)] * self.prefix_length
                    self.ctx.nontrivial()
                rows.append([*prefix, *piece, *([('\\', None)] if piece_index + 1 < len(pieces) else [])])
            if index == model.row:
                cursor_index = model.column
                if cursor_index:
                    cursor = (start + (cursor_index - 1) // width, self.prefix_length + (cursor_index - 1) % width + 1)
                else:
                    cursor = (start, self.prefix_length)
        return rows, cursor

    def above_rows(self, text):
        """Rows over the editor when the text was shown."""
        rows = [*self.top]
        text = text[self.fixed :]
        if text:
            lines = text.split('\n')
            for line in lines:
                # a finished line leaves an empty row before the editor
                rows.extend(line[position : position + self.terminal.columns].rstrip(' ') for position in range(0, max(len(line), 1), self.terminal.columns))
        elif self.fixed:
            rows.append('')
        return rows

    def possible_aboves(self, ended):
        """What the editor could show of the printed text. Lines are shown when they are finished."""
        if ended:
            yield self.printed
            return
        read = len(self.printed.encode()[: self.surely_read].decode(errors = 'ignore'))
        position = max(self.printed.rfind('\n', 0, read) + 1, self.fixed)
        while True:
            yield self.printed[: position]
            position = self.printed.find('\n', position) + 1
            if not position:
                return

    def check_display(self, ended = False):
        self.read()
        rows, cursor = self.expected_rows()
        shown = self.terminal.lines()
        detail = (self.model.lines, self.terminal.columns, self.printed[-50:])
        first = None
        for text in self.possible_aboves(ended):
            above = self.above_rows(text)
            expected = above + [''.join(cell[0] for cell in row).rstrip(' ') for row in rows]
            while expected and not expected[-1]:
                del expected[-1]
            if shown == expected:
                break
            if first is None:
                first = expected
        else:
            check_eq(shown, first, 'rows shown by the terminal', *detail)
        base = len(above)
        self.shown_text = text
        if ended:
            check_eq((self.terminal.row, self.terminal.column), (base + len(rows), 0), 'position of the cursor after the input', *detail)
            check_eq(self.terminal.format, frozenset(), 'format left on', *detail)
            return
        check_eq((self.terminal.row - base, self.terminal.column), cursor, 'position of the cursor', *detail)
        for row_index, row in enumerate(rows):
            got = self.terminal.rows.get(base + row_index, {})
            for column, (character, format_) in enumerate(row):
                if format_ is None or character == ' ':
                    continue
                check_eq(got[column][1], format_, 'format of a character', row_index, column, character, *detail)

    def step(self, poll):
        """Called when the editor wants input."""
        editor = self.box[0]
        check_eq(editor.get_buffer(), self.model.lines, 'text in the editor', self.index and self.chunks[self.index - 1])
        check_eq(editor.is_empty(), self.model.blank(), 'emptiness of the editor')
        self.check_display()
        if self.index >= len(self.chunks):
            raise Violation('the editor did not end')
        kind, content, extra = self.chunks[self.index]
        self.index += 1
        if kind == 'resize':
            column = self.terminal.column
            above_fits = all(max(self.terminal.rows.get(row, ()), default = 0) < extra for row in range(self.terminal.row - self.expected_rows()[1][0]))
            width = self.terminal.columns - self.prefix_length - 1
            # known finding: resize-full-row
            known = any(length and length % width == 0 and length > width for length in (*map(len, self.model.lines), self.model.column))
            if extra < self.terminal.columns and (column % extra == 0 and column or not above_fits or known):
                # depends on the terminal
                pass
            else:
                self.ctx.label('resized')
                if self.shown_text:
                    # these stay as they are
                    self.top = self.above_rows(self.shown_text)[: -1]
                    self.fixed = len(self.shown_text)
                self.terminal.resize(extra)
                set_size(self.master, extra)
        if kind == 'print':
            text, late = extra
            self.ctx.nontrivial()
            if not late:
                self.print(text)
        if self.model.row == self.model.column == 0 and content in (KEYS['up'], KEYS['down']) and len(self.model.history.elements):
            self.ctx.nontrivial()
        self.model.process(content)
        os.write(self.master, content.encode())
        got = poll()
        content = content.replace('\r', '\n')
        # what was printed before could be read too
        self.surely_read = min(len(self.printed.encode()), self.surely_read + 1024)
        while len(got) < len(content) and content.startswith(got):
            # arrived in more pieces
            got += poll()
        check_eq(got, content, 'keys read')
        if kind == 'print' and late:
            self.print(text)
        return got

    def print(self, text):
        sys.stdout.write(text)
        self.printed += text


def strip(text):
    return COMMAND_RP.sub('', text)


def set_size(master, columns):
    import fcntl, struct
    fcntl.ioctl(master, termios.TIOCSWINSZ, struct.pack('HHHH', 1000, columns, 0, 0))


class SteppedEditor(EditorAdvanced):
    __slots__ = ('steps',)

    def poll(self):
        steps = self.steps
        # lines printed late are seen now
        return steps.step(super().poll)


def chunks_of(actions, end):
    chunks = []
    for action in actions:
        kind = action[0]
        if kind == 'type':
            chunks.extend(('keys', character, None) for character in action[1])
        elif kind == 'chunk':
            if action[1]:
                chunks.append(('keys', action[1], None))
        elif kind == 'key':
            chunks.append(('keys', KEYS[action[1]], None))
        elif kind == 'keys':
            chunks.append(('keys', ''.join(KEYS.get(key, 'q') for key in action[1]), None))
        elif kind == 'repeat':
            chunks.extend([('keys', KEYS[action[1]], None)] * action[2])
        elif kind == 'indented':
            if action[1] or action[2]:
                chunks.append(('keys', ' ' * action[1] + action[2] + KEYS['left'] * action[3], None))
            chunks.append(('keys', KEYS[action[4]], None))
            chunks.append(('keys', 'q', None))
        elif kind == 'history':
            chunks.extend(('keys', KEYS[key], None) for key in action[1])
        elif kind == 'top':
            chunks.extend([('keys', KEYS['up'], None)] * 6)
            chunks.append(('keys', KEYS['up' if action[1] else 'down'], None))
        elif kind == 'paste':
            content = paste_of(*action[1:])
            if content:
                chunks.append(('keys', content, None))
        elif kind == 'garbage':
            chunks.append(('keys', action[1], None))
        elif kind == 'print':
            chunks.append(('print', KEYS.get(action[3], 'p'), (action[1], action[2])))
        else:
            chunks.append(('resize', 'r', action[1]))
    if end == 'enter':
        chunks.extend([('keys', KEYS['down'], None)] * 3 + [('keys', KEYS['enter'], None)] * 3)
    chunks.append(('keys', '\x04' if end == 'destroy' else '\x03', None))
    return chunks


def _check_executed(code, source):
    """The code has to do what the source does."""
    if 'await' in source:
        return
    import ast

    def execute(code):
        shown = []
        old = sys.displayhook
        sys.displayhook = lambda value: shown.append(value) if isinstance(value, (int, str)) else shown.append(type(value).__name__)
        namespace = {'x': 5, 'alpha': 1, 'i': 0, 'a': (), 'w': 1, 'y': 0}
        try:
            exec(code, namespace)
        except Exception as exception:
            outcome = (type(exception).__name__, str(exception))
        else:
            outcome = None
        finally:
            sys.displayhook = old
        namespace.pop('__builtins__')
        namespace.pop('__doc__', None)
        return {key: value if isinstance(value, (int, str)) else type(value).__name__ for key, value in namespace.items()}, shown, outcome

    statements = ast.parse(source).body
    expected = execute(compile(source + '\n', '<model>', 'exec'))
    got = execute(code)
    check_eq((got[0], got[2]), (expected[0], expected[2]), 'what the compiled input does', source)
    if len(statements) == 1 and isinstance(statements[0], ast.Expr):
        single = execute(compile(source + '\n\n', '<model>', 'single'))
        check_eq(got[1], single[1], 'values shown by the compiled input', source)


EDITING_FIXED = [
    (14, [(0, [('print', 'a\n', False, 'char'), ('key', 'tab'), ('key', 'left')], 'enter', False)]),
    (14, [(2, [('type', 'x = 1'), ('top', False), ('keys', ['backspace', 'char'])], 'enter', False)]),
    (14, [(0, [('type', 'x = 1'), ('key', 'left'), ('type', '"text"')], 'enter', False)]),
    (14, [(0, [('type', 'x = 1'), ('print', 'a\n', True, 'enter')], 'enter', False)]),
    (14, [(0, [('type', 'x = 1')], 'enter', False), (0, [('history', ['up', 'down', 'up'])], 'enter', False)]),
]


@C51.case('editing', _editing_strategy, quick = 1000, thorough = 20000, shards = 8, fixed = EDITING_FIXED)
def run_editing(case, ctx):
    columns, sessions = case
    master, slave = pty.openpty()
    saved = (sys.stdin, sys.stdout, sys.__stdout__)
    terminal = Terminal(columns)
    streams = []
    terminal_size = os.get_terminal_size

    def get_terminal_size(*_):
        return terminal_size(slave)

    from scarletio.tools.asynchronous_interactive_console.editors import display_state, editor_advanced
    patched = [(module, module.get_terminal_size) for module in (os, display_state, editor_advanced) if hasattr(module, 'get_terminal_size')]
    try:
        for module, _ in patched:
            module.get_terminal_size = get_terminal_size
        set_size(master, columns)
        os.set_blocking(master, False)
        settings = termios.tcgetattr(slave)
        sys.stdin = open(os.dup(slave), 'r')
        sys.stdout = open(os.dup(slave), 'w')
        streams.extend((sys.stdin, sys.stdout))
        terminal_output = sys.stdout
        history = History()
        history_model = HistoryModel()
        top = []
        for index, (initial_lines, actions, end, opened) in enumerate(sessions):
            lines = [LINES[(initial_lines * 7 + position) % 12] for position in range(initial_lines)]
            model = Model([*lines], history_model)
            prefix_initial = f'\x1b[38;2;1;2;3mIn [{index}]\x1b[0m: '
            prefix_continuous = '   ...: '
            box = []
            chunks = chunks_of(actions, end)
            steps = Steps(chunks, model, terminal, master, box, prefix_initial, prefix_continuous, 8, ctx, top)
            file_name = f'<verif in[{index}]>'
            editor = SteppedEditor([*lines] if lines or opened else None, file_name, prefix_initial, prefix_continuous, 8, None, history, AutoCompleter(dict(VARIABLES)))
            editor.steps = steps
            box.append(editor)
            outcome = None
            kept = None
            stderr = sys.stderr
            try:
                code = editor()
            except (KeyboardInterrupt, SystemExit) as exception:
                kept = exception
                outcome = type(exception).__name__
            except SyntaxError as exception:
                kept = exception
                outcome = 'error'
            else:
                outcome = 'complete'
            check(sys.stdout is terminal_output and sys.stderr is stderr, 'the output streams are not put back')
            check_eq(termios.tcgetattr(slave), settings, 'settings of the terminal after an input')
            check(os.get_blocking(sys.stdin.fileno()), 'the terminal stays non-blocking after an input')
            # files opened now are not those of the editor
            probes = [os.open(os.devnull, os.O_RDONLY) for _ in range(6)] if opened else []
            kept = None
            gc.collect()
            for probe in probes:
                try:
                    os.close(probe)
                except OSError:
                    raise Violation('an ended editor closed a file which is not its own')
            if model.outcome is None:
                check_eq(outcome, 'SystemExit' if end == 'destroy' else 'KeyboardInterrupt', 'how an input ended', model.lines)
            else:
                ctx.nontrivial()
                ctx.label(model.outcome[0])
                check_eq(outcome, model.outcome[0], 'how an input ended', model.lines)
                if outcome == 'complete':
                    check_eq(code.co_filename, file_name, 'file name of the compiled input')
                    _check_executed(code, model.outcome[1])
            check_eq(editor.get_buffer(), model.lines, 'text in the ended editor')
            steps.check_display(ended = True)
            check_eq(editor.get_stripped_buffer(), _stripped(model.lines), 'stripped text of an editor')
            history.maybe_add_buffer_of(index, editor)
            history_model.add(index, model.lines)
            editor = None
            box.clear()
            steps = None
            # the next one starts here
            top = [terminal.text_of(row) for row in range(terminal.row)]
    finally:
        sys.stdin, sys.stdout, sys.__stdout__ = saved
        for module, function in patched:
            module.get_terminal_size = function
        for stream in streams:
            try:
                stream.close()
            except OSError:
                pass
        os.close(master)
        os.close(slave)


def _stripped(lines):
    lines = [line.rstrip() for line in lines]
    while lines and not lines[0]:
        del lines[0]
    while lines and not lines[-1]:
        del lines[-1]
    return lines


@C51.known('resize-full-row')
def c51_known_resize():
    """existing tests expect too many rows if a line fills more rows wholly when the terminal is made narrower"""
    from scarletio.tools.asynchronous_interactive_console.editors.display_state import _get_line_line_count_reduced
    # 2 rows of 107 characters at most, both continued once over 58 columns
    check_eq(_get_line_line_count_reduced(200, 100, 50, 7), 4, 'rows of a line after making the terminal narrower')


# ---------------------------------------------------------------------------------------------------------------------
# C52

C52 = Property('C52', rule = (
    'Inputs of up to 8 sources: expressions, definitions, awaits, failures, interruptions and exits ran after each other in a console. '
    'Non-trivial = something was awaited, failed, got interrupted, or ended the console.'
))

SOURCES = [
    'a = {0}', 'a', 'a; b', 'b = a + {0}', 'a + b', 'print(a, b)', 'a += {0}; a', 'del a', '"text"', 'None', '[a, b]', 'a = {0}  # set', 'import math\nmath.floor({0}.5)',
    'def f(x):\n    return x * {0}\n', 'f(b)', 'async def g(x):\n    c = await get(x)\n    return c + {0}\n', 'await g(b)', 'g.__name__', 'for i in range({0}):\n    a += i\n', 'if a:\n    b\n',
    'await get({0})', 'a = await get({0})', 'await get(await get(a)) + b', '[await get(i) for i in range({0})]', 'async for i in iterate({0}):\n    b += i\n', 'async with hold() as x:\n    b = x\n',
    'await fail({0})', 'await fail_late({0})', 'raise ValueError({0})', '1 / 0', 'try:\n    await fail({0})\nexcept LookupError as exception:\n    b = repr(exception)\n', 'undefined', 'a = {0}\nraise KeyError(a)',
    'def h():\n    raise OSError({0})\n', 'h()', 'x = )', 'x = (', 'if a:', '"""', 'return', 'await', '  a', 'def f(x):\nreturn', 'a = "\\ud800"; len(a)',
    'task = create({0})', 'await task', 'await cancelled()', 'await block()', 'get({0}).close()', 'raise SystemExit({0})', 'await leave({0})', 'raise KeyboardInterrupt', 'await interrupt()',
    'b = 1\nb\nb = 2', 'class A:\n    value = {0}\n', 'A.value', 'await (lambda: get({0}))()', 'print("out", end = "")', 'c = [a]\nc\n', '(await get({0}), await get(1))', 'x = yield 1', 'yield_ = lambda: (yield)',
]
HARMLESS = [source for source in SOURCES if 'SystemExit' not in source and 'leave' not in source]


def _running_strategy():
    return st.tuples(
        st.lists(st.tuples(st.sampled_from(HARMLESS), st.integers(0, 4)), max_size = 8),
        st.sampled_from(['end', 'end', 'raise SystemExit({0})', 'await leave({0})', 'interrupt']),
        st.booleans(),
        st.booleans(),
    )


def _helpers(suspend, events):
    """What the ran code may use. `suspend` returns an awaitable."""
    async def get(value):
        await suspend()
        return value

    async def fail(value):
        raise LookupError(value)

    async def fail_late(value):
        await suspend()
        raise LookupError(value)

    async def iterate(count):
        for value in range(count):
            await suspend()
            yield value

    class hold:
        async def __aenter__(self):
            await suspend()
            return 7

        async def __aexit__(self, *_):
            events.append('released')
            await suspend()

    async def leave(value):
        await suspend()
        raise SystemExit(value)

    async def interrupt():
        await suspend()
        raise KeyboardInterrupt

    return {'get': get, 'fail': fail, 'fail_late': fail_late, 'iterate': iterate, 'hold': hold, 'leave': leave, 'interrupt': interrupt}


class _Suspend:
    def __await__(self):
        yield


def _expected_runs(sources):
    """Runs the sources one by one. Yields what they write, how they end and on which lines."""
    import builtins, io, warnings
    events = []
    namespace = _helpers(_Suspend, events)

    class CancelledError(BaseException):
        pass

    async def cancelled():
        raise CancelledError

    class Task:
        def __init__(self, value):
            self.value = value

        def __await__(self):
            yield
            return self.value

    async def block():
        try:
            await _Suspend()
            raise KeyboardInterrupt
        finally:
            events.append('unblocked')

    namespace.update(cancelled = cancelled, block = block, create = Task, a = 1, b = 2)
    for source in sources:
        output = io.StringIO()
        flags = 1 << 13
        outcome = None
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = None
            try:
                try:
                    code = compile(source, '<model>', 'single', flags | 0x200)
                except SyntaxError as exception:
                    if isinstance(exception, IndentationError) or 'multiple statements' not in str(exception) and '\n' not in source:
                        raise
                    code = compile(source, '<model>', 'exec', flags | 0x200)
            except SyntaxError as exception:
                yield '', ('syntax', type(exception).__name__), [], namespace, events
                continue
        displayed = sys.displayhook
        old = sys.stdout
        sys.stdout = output
        sys.displayhook = sys.__displayhook__
        try:
            coroutine = eval(code, namespace)
            if coroutine is not None:
                while True:
                    try:
                        coroutine.send(None)
                    except StopIteration:
                        break
        except BaseException as exception:
            lines = []
            traceback = exception.__traceback__
            while traceback is not None:
                if traceback.tb_frame.f_code.co_filename == '<model>':
                    lines.append(traceback.tb_lineno)
                traceback = traceback.tb_next
            outcome = (type(exception).__name__, str(exception))
        else:
            lines = []
        finally:
            sys.stdout = old
            sys.displayhook = displayed
        yield output.getvalue(), outcome, lines, namespace, events


def _comparable(namespace):
    return {key: value for key, value in namespace.items() if isinstance(value, (int, str, list)) and not key.startswith('__')}


@C52.case('running', _running_strategy, quick = 320, thorough = 10000, shards = 4)
def run_running(case, ctx):
    import io, signal
    from scarletio import CancelledError, EventThread, Future, Task, sleep
    from scarletio.core import create_event_loop
    from scarletio.tools.asynchronous_interactive_console.console import AsynchronousInteractiveConsole
    from scarletio.tools.asynchronous_interactive_console.editors.compilation import maybe_compile
    from scarletio.tools.asynchronous_interactive_console.editors.editor_base import EditorBase
    inputs, end, stop_on_interruption, blank = case
    sources = [source.format(value) if '{0}' in source else source for source, value in inputs]
    if end not in ('end', 'interrupt'):
        sources.append(end.format(4))
    # incomplete inputs stay in the editor
    sources = [source for source in sources if complete(source.rstrip('\n') + ('\n\n' if '\n' in source else '')) != 'incomplete']
    loop = create_event_loop(daemon = True)
    events = []
    old = sys.stdout
    old_displayhook = sys.displayhook
    output = io.StringIO()
    segments = []
    file_names = []
    interrupted = []

    blocked = 0
    main = threading.get_ident()

    def interrupt_main(count):
        # when it waits
        if count < 500 and not sys._current_frames()[main].f_code.co_filename.endswith('threading.py'):
            count += 1
            loop.call_after(0.002, interrupt_main, count)
            return
        os.kill(os.getpid(), signal.SIGINT)

    async def block():
        nonlocal blocked
        blocked += 1
        future = Future(loop)
        loop.call_after(0.002, interrupt_main, 0)
        try:
            await future
        finally:
            events.append('unblocked')

    async def cancelled():
        raise CancelledError

    def create(value):
        return Task(loop, namespace['get'](value))

    namespace = _helpers(lambda: sleep(0.0, loop), events)
    namespace.update(cancelled = cancelled, block = block, create = create, a = 1, b = 2)

    class Editor(EditorBase):
        __slots__ = ('buffer',)

        def __call__(self):
            segments.append(output.getvalue())
            index = len(segments) - 1
            if index == len(sources):
                self.buffer = []
                if end == 'interrupt' and not interrupted:
                    interrupted.append(None)
                    self.buffer = ['' if blank else 'a']
                    # once more
                    sources.append('a')
                    raise KeyboardInterrupt
                raise SystemExit
            source = sources[index]
            file_names.append(self.file_name)
            check_eq(strip(self.prefix_initial), f'In [{index}]: ', 'prefix of an input')
            self.buffer = source.split('\n')
            if '\n' in source:
                self.buffer.extend(['', ''])
            return maybe_compile(self.buffer, self.file_name)

        def get_buffer(self):
            return self.buffer

        @classmethod
        def has_history_support(cls):
            return True

    old_handler = signal.signal(signal.SIGINT, signal.default_int_handler)
    ended = None
    sys.stdout = output
    sys.displayhook = sys.__displayhook__
    try:
        console = AsynchronousInteractiveConsole(
            banner = 'hello\n', editor_type = Editor, event_loop = loop, exit_message = 'good bye', highlighter = None,
            local_variables = namespace, stop_on_interruption = stop_on_interruption,
        )
        try:
            console.interact()
        except SystemExit as exception:
            ended = exception
        # interrupted tasks are cancelled
        wait_till = time.monotonic() + 5.0
        while events.count('unblocked') < blocked and time.monotonic() < wait_till:
            time.sleep(0.001)
    finally:
        sys.stdout = old
        sys.displayhook = old_displayhook
        signal.signal(signal.SIGINT, old_handler)
        loop.stop()
        loop.join(10.0)
    segments.append(output.getvalue())
    check_eq(segments[0], 'hello\n', 'banner')
    written = [strip(after[len(before) :]) for before, after in zip(segments, segments[1 :])]
    plain = sources[: -1] if interrupted else sources
    count = 0
    expected_namespace = expected_events = None
    for index, (text, outcome, lines, expected_namespace, expected_events) in enumerate(_expected_runs(plain)):
        source = plain[index]
        check(index < len(written), f'the console ended before {source!r}')
        got = written[index]
        count += 1
        detail = (source, plain[: index])
        if 'await' in source or outcome is not None:
            ctx.nontrivial()
        if outcome is None:
            if index + 1 == len(written):
                got = got.removesuffix('good bye\n')
            check_eq(got, text, 'what an input wrote', *detail)
            continue
        ctx.label(outcome[0])
        if outcome[0] == 'SystemExit':
            check_eq(got, text + 'good bye\n', 'what was written when the console was exited', *detail)
            check_eq((type(ended), str(ended)), (SystemExit, outcome[1]), 'how the console ended', *detail)
            check_eq(len(written), index + 1, 'inputs ran', *detail)
            count -= 1
            break
        check(got.startswith(text), f'what an input wrote: got {got!r}, expected {text!r} before the traceback')
        got = got[len(text) :]
        if outcome[0] == 'KeyboardInterrupt' and stop_on_interruption:
            check('await' not in source or got.endswith('[Interrupt again to exit]\n'), f'no note about exiting: {got!r}')
            got = got.removesuffix('[Interrupt again to exit]\n')
        last = got.rstrip('\n').split('\n')[-1]
        if outcome[0] == 'syntax':
            check(last.startswith(outcome[1]), f'syntax error of {source!r} shown as {got!r}')
        else:
            name, message = outcome
            check_eq(last.strip().removesuffix('()'), f'{name}: {message}' if message else name, 'last line of a traceback', *detail)
            shown = [int(line) for line in re.findall('File "<console(?:\\[\\d+\\])? in\\[%d\\]>", line (\\d+)' % index, got)]
            if name != 'CancelledError' and 'h()' not in source and 'await g(' not in source and 'f(' not in source:
                if name != 'KeyboardInterrupt' or 'block' not in source:
                    check_eq(shown, lines, 'lines of the input in its traceback', *detail, got)
            check(name == 'KeyboardInterrupt' or '/scarletio/' not in got.replace('/c_console.py', ''), f'internal frames are shown: {got}')
    check_eq(namespace['a'] if 'a' in namespace else None, expected_namespace['a'] if expected_namespace and 'a' in expected_namespace else (None if expected_namespace else 1), 'variable of the console')
    if expected_namespace is not None:
        check_eq(_comparable(namespace), _comparable(expected_namespace), 'variables of the console', plain)
        check_eq(events, expected_events, 'clean ups done', plain)
    for index, file_name in enumerate(file_names):
        check(re.fullmatch('<console(\\[\\d+\\])? in\\[%d\\]>' % index, file_name), f'file name of input {index}: {file_name!r}')
    check(ended is not None, 'the console did not end with SystemExit')
    check(output.getvalue().endswith('good bye\n'), f'no exit message: {output.getvalue()[-100:]!r}')
    # history
    for index in range(count):
        check_eq(console.history.get_at(index), _stripped(plain[index].split('\n')) or None, 'history of an input', index)


@C52.case('prefixes', lambda: st.integers(0, 12000), quick = 60, thorough = 600, fixed = [9, 10, 99, 100, 999, 1000, 9999, 10000])
def run_prefixes(case, ctx):
    from scarletio.tools.asynchronous_interactive_console.console import AsynchronousInteractiveConsole
    console = AsynchronousInteractiveConsole(banner = '', event_loop = object(), editor_type = EditorAdvanced)
    for _ in range(case):
        console.increment_input_counter()
    ctx.nontrivial()
    initial = strip(console.get_prefix_initial())
    check_eq(initial, f'In [{case}]: ', 'prefix')
    check_eq(console.get_prefix_length(), len(initial), 'length of the prefix', case)
    check_eq(strip(console.get_prefix_continuous()), '...: '.rjust(len(initial)), 'prefix of the other lines', case)
