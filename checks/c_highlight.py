"""C44: highlighting."""
import builtins, html, io, keyword, re, tokenize
from hypothesis import strategies as st
import vsim
from scarletio.utils.highlight import (
    ANSITextDecoration, FormatterDetailANSI, FormatterDetailHTML, HIGHLIGHT_TOKEN_TYPES as T, HighlightFormatterContext, get_highlight_parse_result,
    get_highlight_streamer, iter_highlight_code_token_types_and_values, iter_split_ansi_format_codes, search_layer_index, search_line_end_index_in_tokens,
    search_line_start_index_in_tokens, stream_split_ansi_format_codes
)
from scarletio.utils.trace.expression_parsing import add_console_input
from scarletio.utils.trace.expression_parsing.expression_info import get_expression_info
from scarletio.utils.trace.expression_parsing.expression_key import ExpressionKey
from scarletio.utils.trace.expression_parsing.file_info import get_file_info
from vharness import Property, Violation, check, check_eq

C44 = Property('C44', rule = (
    'Arbitrary text out of the characters and words the parser treats specially; generated code out of every kind of python token; formatters with every kind of detail. '
    'Non-trivial = nested or unbalanced brackets or strings / several tokens with different details.'
))

NAMES = {value : name[len('TOKEN_TYPE_'):] for name, value in vars(T).items() if name.startswith('TOKEN_TYPE_') and isinstance(value, int)}

ATOMS = [
    'f', 'r', 'b', '"', "'", '"""', "'''", '{', '}', '{{', '}}', '!r', '!r}', ':', '\n', '\\', '\\\n', ' ', '(', ')', '[', ']', 'a', 'if', '0x1', '1.2', '1e', '#', '>>> ',
    '... ', '.', '..', '...', '\xe9', '\r', '\t', ';', ',', '==', 'f"', "f'", 'f"""', 'In [1]: ', '\x00', '\u2028', '   ...: ', '0b1', '1j', '__init__', '=', '\x1b[0m', '\U0001f600',
]
OPEN = {'(' : ')', '[' : ']', '{' : '}'}


def _text_strategy():
    return st.one_of(
        st.lists(st.integers(0, len(ATOMS) - 1), max_size = 30),
        st.lists(st.sampled_from([0, 3, 4, 5, 7, 8, 13, 14, 16, 18, 19, 20, 41, 42, 43]), max_size = 30),
    )


def check_tokens(content):
    layers, tokens = get_highlight_parse_result(content)
    position = line = column = 0
    for token in tokens:
        check(token.length >= 0, 'negative length', token)
        check(token.type in NAMES, 'token of an unknown type', token)
        if not token.length:
            check(0 <= token.content_character_index <= len(content), 'token out of the content', token)
            check(0 <= token.line_index <= line, 'empty token on a line that is not there', token)
            continue
        check_eq((token.content_character_index, token.line_index, token.line_character_index), (position, line, column), 'position of a token', token, content)
        value = content[position : position + token.length]
        if token.type == T.TOKEN_TYPE_LINE_BREAK:
            check_eq(value, '\n', 'value of a line break')
            line += 1
            column = 0
        else:
            check('\n' not in value, 'token over more lines', value)
            column += token.length
        position += token.length
    check_eq(position, len(content), 'the tokens do not cover the content')
    previous = -1
    for index, layer in enumerate(layers):
        check(previous < layer.token_start_index < layer.token_end_index < len(tokens), 'bad layer', index, layer, content)
        previous = layer.token_start_index
        # the outer one is exactly the inner most one around it
        outer = -1
        for other_index in range(index):
            if layers[other_index].token_end_index > layer.token_start_index:
                outer = other_index
        check_eq(layer.layer_outer_index, outer, 'outer layer', index, content)
        if outer != -1:
            check(layers[outer].token_end_index > layer.token_end_index, 'layers overlap', layers[outer], layer, content)
        kinds = [NAMES[tokens[token_index].type] for token_index in (layer.token_start_index, layer.token_end_index)]
        check(kinds[0].endswith('_OPEN') and kinds[1].endswith('_CLOSE'), 'layer is not between brackets', kinds, content)
    return layers, tokens


def check_searches(layers, tokens):
    for line in range(-1, (tokens[-1].line_index if tokens else 0) + 3):
        start = next((index for index, token in enumerate(tokens) if token.line_index >= line), len(tokens))
        end = next((index for index, token in enumerate(tokens) if token.line_index > line), len(tokens))
        check_eq(search_line_start_index_in_tokens(tokens, line), start, 'line start', line)
        check_eq(search_line_end_index_in_tokens(tokens, line), end, 'line end', line)
    for token_index in range(len(tokens) + 1):
        expected = -1
        for index, layer in enumerate(layers):
            if layer.token_start_index <= token_index <= layer.token_end_index:
                expected = index
        check_eq(search_layer_index(layers, token_index), expected, 'layer of a token', token_index)


@C44.case('tokens', _text_strategy, quick = 5000, thorough = 200000)
def c44_tokens(case, ctx):
    content = ''.join([ATOMS[index] for index in case])
    layers, tokens = check_tokens(content)
    ctx.nontrivial(len(layers) > 1)
    check_eq(
        [*iter_highlight_code_token_types_and_values(content)],
        [(token.type, content[token.content_character_index : token.content_character_index + token.length]) for token in tokens if token.length],
        'iterated tokens',
    )
    if len(tokens) < 60:
        check_searches(layers, tokens)
    parse_result = get_highlight_parse_result(content)
    check(parse_result == get_highlight_parse_result(content), 'parsing again gives something else')


# ---- code

WORDS = [
    *keyword.kwlist, 'NotImplemented', 'Ellipsis', 'name', '_', 'x1', 'n\xe1m', 'print', 'int', 'len', 'ValueError', 'OSError', '__init__', '__name__', '__dict__', '__iter__', 'match', 'rb',
    'f', 'r', 'b', 'forx', 'Truee', 'none', 'j', 'e5', 'oct', 'super', 'KeyboardInterrupt', 'shrimp',
]
NUMBERS = [
    '0', '00', '1', '1_000', '0x1F', '0XaB_c', '0o17', '0O7_1', '0b1_01', '0B11', '1.5', '.5', '5.', '1e5', '1E-5', '1_0e+1_0', '1.5e5', '5.e1', '.5e-1', '1j', '0J', '1.5j', '1e5j', '.5J', '5.e-1j', '0e0',
]
OPERATORS = [
    '+', '-', '*', '/', '//', '%', '**', '@', '<<', '>>', '&', '|', '^', '~', '<', '>', '<=', '>=', '==', '!=', '=', '+=', '-=', '*=', '/=', '//=', '%=', '**=', '@=', '<<=', '>>=', '&=', '|=', '^=', '->', ':=',
    '.', '...', ',', ':', ';',
]
PREFIXES = ['', '', 'r', 'R', 'b', 'B', 'u', 'U', 'rb', 'bR', 'Rb', 'BR']
FORMAT_PREFIXES = ['f', 'F', 'rf', 'fR', 'Fr']
QUOTES = ['"', "'", '"""', "'''"]
CHUNKS = ['', 'text', ' ', '\\\\', '\\n', '#', '{', '}', '(', "\\'", '\\"', '"', "'", '\n', '\\\n', 'b"', '>>> ', '\xe9', '1', '\\x41', 'a.b']
FORMAT_CHUNKS = ['', 'text', ' ', '{{', '}}', '#', '\n', "\\'", '\\\\', '(', '\\\n']
COMMENTS = ['#', '# comment', '# "text" (', '#\xe9 if 1.5', '#!{']


def _code_strategy():
    leaf = st.one_of(
        st.tuples(st.just('word'), st.integers(0, len(WORDS) - 1)),
        st.tuples(st.just('number'), st.integers(0, len(NUMBERS) - 1)),
        st.tuples(st.just('operator'), st.integers(0, len(OPERATORS) - 1)),
        st.tuples(st.just('string'), st.integers(0, len(PREFIXES) - 1), st.integers(0, 3), st.lists(st.integers(0, len(CHUNKS) - 1), max_size = 4)),
        st.tuples(st.just('line'), st.sampled_from(['\n', '\n', '\n  ', ' # c\n', '#"\n', '\n\n'])),
        st.tuples(st.just('join'), st.sampled_from(['\\\n', ' \\\n  ', '\t'])),
        st.tuples(st.just('attribute'), st.integers(0, len(WORDS) - 1)),
    )
    def extend(inner):
        return st.one_of(
            st.tuples(st.just('brackets'), st.sampled_from('([{'), st.lists(inner, max_size = 6)),
            st.tuples(
                st.just('format'), st.integers(0, len(FORMAT_PREFIXES) - 1), st.integers(0, 3),
                st.lists(st.one_of(
                    st.integers(0, len(FORMAT_CHUNKS) - 1),
                    st.tuples(st.sampled_from(['name', 'a.b', 'f(x)', 'x[1]', '(a, b)', "'v'", '1.5', ' a + b ', '(lambda: 1)', '{1 : 2}[1]', "'z' 'y'"]), st.sampled_from(['', '!r', '!s', '!a', '=']), st.sampled_from(['', ':', ':>5', ':{width}', ':.{a}f']))
                ), max_size = 4)
            ),
        )
    return st.lists(st.recursive(leaf, extend, max_leaves = 25), max_size = 10)


def build_code(items, nested = False):
    parts = []
    for item in items:
        kind = item[0]
        if kind == 'word':
            parts.append(WORDS[item[1]])
        elif kind == 'attribute':
            parts.append('x.' + WORDS[item[1]])
        elif kind == 'number':
            parts.append(NUMBERS[item[1]])
        elif kind == 'operator':
            operator = OPERATORS[item[1]]
            parts.append('x' + operator if operator in ('...', '.') else operator)
        elif kind == 'string':
            quote = QUOTES[item[2]]
            content = ''
            for index in item[3]:
                chunk = CHUNKS[index]
                if 'b' in PREFIXES[item[1]].lower() and not chunk.isascii():
                    continue
                if len(quote) == 1 and (chunk == '\n' or quote in chunk and chunk[0] != '\\'):
                    continue
                if len(quote) == 3 and quote[0] in chunk:
                    continue
                if len(quote) == 1 and chunk == 'b"' and quote == '"':
                    continue
                content += chunk
            parts.append(PREFIXES[item[1]] + quote + content + quote)
        elif kind == 'line':
            if nested:
                parts.append(item[1])
            else:
                parts.append(item[1].rstrip(' '))
        elif kind == 'join':
            parts.append(item[1] + 'x')
        elif kind == 'brackets':
            parts.append(item[1] + build_code(item[2], True) + OPEN[item[1]])
        else:
            quote = QUOTES[item[2]]
            if nested is None:
                continue
            content = ''
            for chunk in item[3]:
                if isinstance(chunk, int):
                    chunk = FORMAT_CHUNKS[chunk]
                    if len(quote) == 1 and (chunk == '\n' or quote in chunk and chunk[0] != '\\'):
                        continue
                    # the parser takes `}}` as an escaped one in format code
                    if chunk == '}}' and content.endswith('}'):
                        continue
                    content += chunk
                else:
                    if 'r' in FORMAT_PREFIXES[item[1]].lower() and '\\' in ''.join(chunk):
                        continue
                    content += '{' + ''.join(chunk) + '}'
            parts.append(FORMAT_PREFIXES[item[1]] + quote + content + quote)
    return ' '.join(parts)


def expected_type(kind, text, previous):
    if kind == tokenize.COMMENT:
        return {'COMMENT'}
    if kind == tokenize.NUMBER:
        text = text.lower()
        if text.startswith('0x'):
            return {'NUMERIC_INTEGER_HEXADECIMAL'}
        if text.startswith('0o'):
            return {'NUMERIC_INTEGER_OCTAL'}
        if text.startswith('0b'):
            return {'NUMERIC_INTEGER_BINARY'}
        if text.endswith('j'):
            return {'NUMERIC_FLOAT_COMPLEX'}
        if '.' in text or 'e' in text:
            return {'NUMERIC_FLOAT'}
        return {'NUMERIC_INTEGER_DECIMAL'}
    if kind == tokenize.NAME:
        if text in ('None', 'True', 'False', 'NotImplemented', 'Ellipsis'):
            return {'IDENTIFIER_BUILTIN_CONSTANT'}
        if text in ('and', 'or', 'in', 'is', 'not'):
            return {'SPECIAL_OPERATOR_WORD'}
        if keyword.iskeyword(text):
            return {'IDENTIFIER_KEYWORD'}
        if previous == '.':
            if text == '__init__' or text == '__iter__':
                return {'IDENTIFIER_MAGIC_FUNCTION'}
            if text == '__name__' or text == '__dict__':
                return {'IDENTIFIER_MAGIC_VARIABLE'}
            return {'IDENTIFIER_ATTRIBUTE'}
        value = getattr(builtins, text, None)
        if isinstance(value, type) and issubclass(value, BaseException):
            return {'IDENTIFIER_BUILTIN_EXCEPTION'}
        if value is not None and not text.startswith('__') and text != '_':
            return {'IDENTIFIER_BUILTIN_VARIABLE'}
        return {'IDENTIFIER_VARIABLE'}
    if text == '.':
        return {'SPECIAL_OPERATOR_ATTRIBUTE'}
    if text == '...':
        return {'IDENTIFIER_BUILTIN_CONSTANT'}
    for index, name in enumerate(('ROUND', 'SQUARE', 'CURLY')):
        if text == '([{'[index]:
            return {f'SPECIAL_PUNCTUATION_BRACE_{name}_OPEN'}
        if text == ')]}'[index]:
            return {f'SPECIAL_PUNCTUATION_BRACE_{name}_CLOSE'}
    if text in ',:;':
        return {{',' : 'SPECIAL_PUNCTUATION_COMMA', ':' : 'SPECIAL_PUNCTUATION_COLON', ';' : 'SPECIAL_PUNCTUATION_SEMI_COLON'}[text]}
    return {'SPECIAL_OPERATOR'}


@C44.case('python code', _code_strategy, quick = 2000, thorough = 80000)
def c44_python(case, ctx):
    content = build_code(case)
    try:
        python_tokens = [*tokenize.generate_tokens(io.StringIO(content).readline)]
    except (tokenize.TokenError, SyntaxError, IndentationError):
        ctx.label('not tokenizable')
        return
    if any(token.type == tokenize.ERRORTOKEN for token in python_tokens):
        ctx.label('not tokenizable')
        return
    layers, tokens = check_tokens(content)
    ctx.nontrivial(len(layers) > 1 and len({token.type for token in tokens}) > 4)
    offsets = [0]
    for line in content.split('\n'):
        offsets.append(offsets[-1] + len(line) + 1)
    starts = {token.content_character_index : index for index, token in enumerate(tokens) if token.length}
    ends = {layer.token_start_index : layer.token_end_index for layer in layers}
    opened = []
    format_depth = 0
    brace_depths = []
    previous = None
    skip_name = False
    for token in python_tokens:
        start = offsets[token.start[0] - 1] + token.start[1]
        end = offsets[token.end[0] - 1] + token.end[1]
        text = token.string
        kind = token.type
        if kind == tokenize.FSTRING_START:
            format_depth += 1
            brace_depths.append(len(opened))
            index = starts.get(start)
            check(index is not None and NAMES[tokens[index].type].startswith('STRING_UNICODE_SPECIAL'), 'a format string is not recognised', text, content)
            if not NAMES[tokens[index].type].endswith('_OPEN'):
                index += 1
            opened.append(('f', index))
            continue
        if kind == tokenize.FSTRING_END:
            format_depth -= 1
            brace_depths.pop()
            _, open_index = opened.pop()
            index = starts.get(start)
            check_eq(ends.get(open_index), index, 'a format string is not closed at its end', content)
            check_eq(tokens[index].length, end - start, 'a format string is not closed at its end', content)
            previous = None
            continue
        if kind == tokenize.FSTRING_MIDDLE:
            previous = None
            continue
        if kind == tokenize.OP and text == '=' and opened and opened[-1][0] == '{f':
            previous = text
            continue
        if kind == tokenize.OP and text == '{' and opened and (opened[-1][0] == 'f' or opened[-1][0] == '{f' and opened[-1][2]):
            index = starts.get(start)
            check(index is not None and NAMES[tokens[index].type] == 'STRING_FORMAT_MARK_BRACE_OPEN', 'a replacement field is not recognised', content)
            opened.append(['{f', index, False])
            previous = None
            continue
        if opened and opened[-1][0] == '{f' and kind == tokenize.OP and text in ':!}':
            if text == ':':
                opened[-1][2] = True
                expected, length = 'STRING_FORMAT_MARK_CODE_BEGIN', 1
            elif text == '!':
                skip_name = True
                expected, length = 'STRING_FORMAT_POSTFIX', 2
            else:
                expected, length = 'STRING_FORMAT_MARK_BRACE_CLOSE', 1
            index = starts.get(start)
            check(index is not None, 'a replacement field is not recognised', text, content)
            check_eq((NAMES[tokens[index].type], tokens[index].length), (expected, length), 'a replacement field is not recognised', text, content)
            if text == '}':
                check_eq(ends.get(opened.pop()[1]), index, 'a replacement field is not closed at its end', content)
            previous = None
            continue
        if skip_name:
            skip_name = False
            continue
        if kind == tokenize.STRING:
            index = starts.get(start)
            check(index is not None, 'a string is not recognised', text, content)
            binary = 'b' in text[:text.index(text[-1])].lower()
            family = 'STRING_BINARY' if binary else 'STRING_UNICODE'
            if not text[0] in '\'"':
                check_eq(NAMES[tokens[index].type], family + '_SPECIAL_PREFIX', 'type of a string prefix', text, content)
                check_eq(tokens[index].length, text.index(text[-1]), 'length of a string prefix', text)
                index += 1
            check_eq(NAMES[tokens[index].type], family + '_SPECIAL_QUOTE_OPEN', 'type of a quote', text, content)
            close = ends.get(index)
            check(close is not None, 'a string is not closed', text, content)
            check_eq(tokens[close].content_character_index + tokens[close].length, end, 'a string is not closed at its end', text, content)
            for inner in tokens[index + 1 : close]:
                check(NAMES[inner.type] in (family, 'LINE_BREAK'), 'token in a string', NAMES[inner.type], text, content)
            previous = None
            continue
        if kind not in (tokenize.NAME, tokenize.NUMBER, tokenize.OP, tokenize.COMMENT):
            continue
        index = starts.get(start)
        check(index is not None, 'a token is not recognised', text, content)
        check_eq(tokens[index].length, end - start, 'length of a token', text, content)
        check(NAMES[tokens[index].type] in expected_type(kind, text, previous), 'type of a token', text, NAMES[tokens[index].type], content)
        if kind == tokenize.OP:
            if text in OPEN:
                opened.append((text, index))
            elif text in OPEN.values():
                check_eq(ends.get(opened.pop()[1]), index, 'a bracket is not closed by its pair', text, content)
        if kind != tokenize.COMMENT:
            previous = text


# ---- expressions

_counter = [0]


@C44.case('expression of a line', _code_strategy, quick = 800, thorough = 40000)
def c44_expression(case, ctx):
    content = build_code(case)
    if not content.strip():
        return
    _counter[0] += 1
    file_name = f'<verif {_counter[0]}>'
    add_console_input(file_name, content)
    file_info = get_file_info(file_name)
    check_eq(file_info.content, content, 'content of the file')
    layers, tokens = file_info.parse_result
    lines = content.split('\n')
    ctx.nontrivial(len(layers) > 1 and len(lines) > 2)
    spans = [(tokens[layer.token_start_index].line_index, tokens[layer.token_end_index].line_index) for layer in layers]
    for line_index, line in enumerate(lines):
        keep_end = '\n' if line_index + 1 < len(lines) else ''
        hit, value = file_info.get_line(line_index)
        check_eq(value, line + keep_end, 'line', line_index)
        check_eq(hit, bool(line + keep_end), 'line hit', line_index)
        info = get_expression_info(ExpressionKey(file_name, line_index, 'name', 0))
        if not line + keep_end:
            check_eq(info.line, '', 'line after the end')
            continue
        first = min([line_index, *(start for start, end in spans if end == line_index)])
        last = max([line_index, *(end for start, end in spans if start == line_index)])
        check_eq((info.expression_line_start_index, info.expression_line_end_index), (first, last), 'lines of the expression', line_index, content)
        check_eq(
            content[info.expression_character_start_index : info.expression_character_end_index],
            ''.join([part + '\n' for part in lines[first : last + 1]]) if last + 1 < len(lines) else '\n'.join(lines[first : last + 1]), 'content of the expression', line_index,
        )
        removed = info.removed_indentation_characters
        expected = [part.rstrip() for part in content[info.expression_character_start_index : info.expression_character_end_index].splitlines()]
        check_eq(info.line.split('\n'), [part[removed:] for part in expected] or [''], 'shown lines', line_index)
        indented = [part for part in expected if part]
        check(all(not part[:removed].strip(' \t') for part in indented), 'not only indentation was removed', content)
        if indented:
            check_eq(removed, min(len(part) - len(part.lstrip(' \t')) for part in indented), 'removed indentation', content)


# ---- formatting

TYPES = sorted(NAMES)
COLORS = [None, None, (1, 2, 3), (0, 0, 0), (255, 254, 253)]
DECORATIONS = [None, None, ANSITextDecoration.bold, ANSITextDecoration.italic, ANSITextDecoration.underline]
CLASSES = [None, 'a', 'b c', '']


def _format_strategy():
    return st.tuples(
        st.sampled_from(['ansi', 'html', 'none', 'mixed']),
        st.lists(st.tuples(st.integers(0, len(TYPES) - 1), st.one_of(st.none(), st.tuples(st.integers(0, 4), st.integers(0, 4), st.integers(0, 4)))), min_size = 1, max_size = 12),
        st.lists(st.tuples(st.integers(0, 15), st.sampled_from(['a', '\n', '<b>', '&', ' ', 'x y', '\xe9"', '0;1m'])), min_size = 2, max_size = 12),
    )


def structure_parents():
    parents = {}
    def walk(parent, dictionary):
        for key, value in dictionary.items():
            parents[key] = parent
            if value is not None:
                walk(key, value)
    from scarletio.utils.highlight.token_types import TOKEN_STRUCTURE
    walk(None, TOKEN_STRUCTURE)
    return parents


def terminal(output):
    """Yields every character shown by a terminal with its style."""
    style = (frozenset(), None, None)
    position = 0
    while position < len(output):
        matched = re.compile('\x1b\\[([0-9;]*)m').match(output, position)
        if matched is None:
            check(output[position] != '\x1b', 'broken format code', output)
            yield output[position], style
            position += 1
            continue
        position = matched.end()
        codes = [int(code or 0) for code in matched.group(1).split(';')]
        decorations, background, foreground = style
        while codes:
            code = codes.pop(0)
            if code == 0:
                decorations, background, foreground = frozenset(), None, None
            elif code in (38, 48):
                check_eq(codes.pop(0), 2, 'color format')
                color = tuple([codes.pop(0) for _ in range(3)])
                if code == 38:
                    foreground = color
                else:
                    background = color
            else:
                decorations = decorations | {code}
        style = (decorations, background, foreground)
    yield None, style


@C44.case('formatting', _format_strategy, quick = 3000, thorough = 80000)
def c44_formatting(case, ctx):
    mode, settings, items = case
    parents = structure_parents()
    formatter = HighlightFormatterContext()
    check_eq(set(formatter.formatter_nodes), set(parents), 'nodes')
    direct = {}
    used = []
    for type_index, setting in settings:
        token_type = TYPES[type_index]
        if setting is None:
            detail = None
            direct.pop(token_type, None)
        else:
            if mode == 'html' or mode == 'mixed' and setting[0] & 1:
                detail = FormatterDetailHTML(CLASSES[setting[1] % 4])
            else:
                detail = FormatterDetailANSI(DECORATIONS[setting[0]], COLORS[setting[1]], COLORS[setting[2]])
            direct[token_type] = detail
        used.append(token_type)
        formatter.set_highlight_detail(token_type, detail)
    def expected_detail(token_type):
        while token_type is not None:
            if token_type in direct:
                return direct[token_type]
            token_type = parents[token_type]
        return None
    for token_type, node in formatter.formatter_nodes.items():
        check(node.detail is expected_detail(token_type) or node.detail == expected_detail(token_type), 'detail of a token type', NAMES[token_type], node.detail, expected_detail(token_type))
    tokens = []
    for index, value in items:
        # use the types that are set or are under them
        token_type = TYPES[index * 7 % len(TYPES)] if not used or index > 11 else used[index % len(used)]
        tokens.append((token_type, value))
    ctx.nontrivial(len({str(expected_detail(token_type)) for token_type, _ in tokens}) > 2)
    streamer = get_highlight_streamer(None if mode == 'none' else formatter)
    output = []
    for token in tokens:
        output.extend(streamer.asend(token))
    output.extend(streamer.asend(None))
    output = ''.join(output)
    if mode == 'none':
        check_eq(output, ''.join([value for _, value in tokens]), 'output without highlighter')
        return
    if mode == 'ansi':
        expected = []
        for token_type, value in tokens:
            detail = expected_detail(token_type)
            style = (frozenset(), None, None) if detail is None else (frozenset([detail.text_decoration] if detail.text_decoration is not None else []), detail.background_color, detail.foreground_color)
            expected.extend([(character, style) for character in value])
        expected.append((None, (frozenset(), None, None)))
        check_eq([*terminal(output)], expected, 'what a terminal would show')
        return
    if mode == 'html':
        expected = []
        for token_type, value in tokens:
            detail = expected_detail(token_type)
            expected.extend([(character, None if detail is None else detail.html_class) for character in (value if detail is None else '\x00' if value == '\n' else html.escape(value))])
        shown = []
        opened = []
        # the values which are not formatted are not escaped
        for matched in re.finditer('<span class="([^"]*)">|(</span>)|(<br>)|(.)', output, re.DOTALL):
            if matched.group(1) is not None:
                check(not opened, 'nested span', output)
                opened.append(matched.group(1))
            elif matched.group(2) is not None:
                check(opened, 'span closed twice', output)
                opened.pop()
            else:
                shown.append(('\x00' if matched.group(3) else matched.group(4), opened[-1] if opened else None))
        check(not opened, 'span is not closed', output)
        check_eq(shown, expected, 'what a browser would show', output)
        return
    # mixed, check only what is kept
    stripped = re.sub('\x1b\\[[0-9;]*m|<span class="[^"]*">|</span>', '', output)
    check_eq(
        stripped,
        ''.join(['<br>' if value == '\n' and isinstance(expected_detail(token_type), FormatterDetailHTML) else html.escape(value) if isinstance(expected_detail(token_type), FormatterDetailHTML) else value for token_type, value in tokens]),
        'content of the output',
    )


ANSI_ATOMS = ['\x1b', '[', '0', ';', '38', 'm', 'K', 'a', ' ', '\x1b[', '\x1b[0m', '\x1b[1;2', 'text', '\xe9', '\n', '\x1b\x1b', '[m']


def _ansi_strategy():
    return st.tuples(st.lists(st.lists(st.integers(0, len(ANSI_ATOMS) - 1), max_size = 5), max_size = 6), st.booleans())


@C44.case('format codes', _ansi_strategy, quick = 4000, thorough = 100000)
def c44_format_codes(case, ctx):
    parts = [''.join([ANSI_ATOMS[index] for index in part]) for part in case[0]]
    if case[1]:
        parts = [character for part in parts for character in part]
    else:
        parts = [part for part in parts if part]
    content = ''.join(parts)
    expected = []
    for matched in re.finditer('(\x1b(?:\\[[0-9;]*[a-zA-Z]?)?)|([^\x1b])', content):
        expected.extend([(character, matched.group(1) is not None) for character in matched.group(0)])
    ctx.nontrivial(len({flag for _, flag in expected}) > 1 and len(parts) > 1)
    check_eq([(character, flag) for flag, part in iter_split_ansi_format_codes(content) for character in part], expected, 'split string', content)
    streamed = [*stream_split_ansi_format_codes(iter(parts))]
    check_eq([(character, flag) for flag, part in streamed for character in part], expected, 'split stream', parts)
