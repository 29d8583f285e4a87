"""
Deterministic thread switches: a thread is stopped right at its k-th point where the interpreter could switch away from it,
till the driver did something else, then it continues.

CPython hands the interpreter over when it enters a function, jumps back in a loop, continues a generator, or after it called
something which is not a plain python function; so these are the points (never between two arbitrary instructions).

The points are put into the functions of `scarletio.core` when they are imported: every call `f(x)` becomes
`_vp_call(f, x)`, and functions, loops and awaits are marked with `_vp_point()`. (Opcode tracing would not need this, but it
crashes the interpreter when there are more threads.) Has to be imported before `scarletio`.
"""
import ast, builtins, importlib.abc, importlib.machinery, os, sys, threading
from _thread import get_ident
from types import FunctionType, MethodType

AVAILABLE = not any(name.startswith('scarletio.core') for name in sys.modules)

PAUSES = {}
NOT_WRAPPED = frozenset(('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '_vp_call', '_vp_point', '_vp_after'))


def _vp_point():
    pause = PAUSES.get(get_ident())
    if pause is not None:
        pause.point(1)


def _vp_after(value):
    pause = PAUSES.get(get_ident())
    if pause is not None:
        pause.point(1)
    return value


def _vp_call(function, /, *positional, **keyword):
    value = function(*positional, **keyword)
    pause = PAUSES.get(get_ident())
    if pause is not None:
        type_ = type(function)
        if type_ is not FunctionType and not (type_ is MethodType and type(function.__func__) is FunctionType):
            pause.point(1)
    return value


builtins._vp_point = _vp_point
builtins._vp_after = _vp_after
builtins._vp_call = _vp_call


class Transformer(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.loops = 0

    def make(self, source, node):
        statements = ast.parse(source).body
        for statement in statements:
            for sub_node in ast.walk(statement):
                ast.copy_location(sub_node, node)
        return statements

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = [self.visit(statement) for statement in node.body]
        node.body = self.flatten(node.body)
        self.depth -= 1
        index = 0
        first = node.body[0]
        if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) and isinstance(first.value.value, str):
            index = 1
        # `global` and `nonlocal` are before everything
        while index < len(node.body) and isinstance(node.body[index], (ast.Global, ast.Nonlocal)):
            index += 1
        node.body[index : index] = self.make('_vp_point()', first)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def flatten(self, statements):
        result = []
        for statement in statements:
            if isinstance(statement, list):
                result.extend(statement)
            else:
                result.append(statement)
        return result

    def visit_ClassDef(self, node):
        depth = self.depth
        self.depth = 0
        node.body = self.flatten([self.visit(statement) for statement in node.body])
        self.depth = depth
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in NOT_WRAPPED:
            return node
        node.args.insert(0, node.func)
        node.func = ast.copy_location(ast.Name('_vp_call', ast.Load()), node)
        return node

    def visit_after(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name('_vp_after', ast.Load()), node), [node], []), node)

    visit_Yield = visit_YieldFrom = visit_Await = visit_after

    def visit_loop(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        name = f'_vp_loop_{self.loops}'
        self.loops += 1
        node.body[0 : 0] = self.make(f'if {name}: _vp_point()\n{name} = True', node)
        return [*self.make(f'{name} = False', node), node]

    visit_While = visit_For = visit_loop


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        path = self.get_filename(name)
        tree = ast.parse(self.get_data(path), path)
        tree = Transformer().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit = True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target = None):
        if not name.startswith('scarletio.core.') or '.tests' in name:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


if AVAILABLE:
    sys.meta_path.insert(0, Finder())


class Pause:
    """
    `at` is the index of the point to stop at, or `None` to just count them.
    """
    def __init__(self, at, hold = 0.05):
        if not AVAILABLE:
            raise RuntimeError('`vpreempt` has to be imported before scarletio')
        self.at = at
        self.hold = hold
        self.count = 0
        self.reached = threading.Event()
        self.go = threading.Event()
        self.where = None
        self.ident = None

    def install(self):
        """Starts watching the current thread."""
        self.ident = get_ident()
        PAUSES[self.ident] = self

    def uninstall(self):
        if PAUSES.get(self.ident) is self:
            del PAUSES[self.ident]

    def point(self, depth):
        index = self.count
        self.count = index + 1
        if index == self.at:
            frame = sys._getframe(depth + 1)
            self.where = f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno} {frame.f_code.co_name}'
            self.uninstall()
            self.reached.set()
            self.go.wait(self.hold)
