"""
AST instrumentation of the code under analysis.

Only value-level hooks are inserted (membership, subscripts, %-formatting,
f-strings, ** unpacking, method calls that exist on native str/dict) plus
`except EngineAbort: raise` in front of every handler, so that path steering
is never swallowed.  Control flow is left to the interpreter.
"""
import ast
from . import core

METHODS = set(core._STRM) | {'get', 'pop', 'setdefault'}
METHODS -= {'copy'}


class T(ast.NodeTransformer):
    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=self.name('S__in'), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, (int, str)):
                return node
            return ast.copy_location(ast.Call(func=self.name('S__sub'), args=[node.value, node.slice], keywords=[]), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
            if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                return node
            t.value.ctx = ast.Load()
            c = ast.Call(func=self.name('S__set'), args=[node.value, t.value, t.slice], keywords=[])
            return ast.copy_location(ast.Expr(value=ast.copy_location(c, node)), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or any(k is None for k in node.keys) or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        items = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(ast.Call(func=self.name('S__dict'), args=items, keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=self.name('S__mod'), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            v = ast.Call(func=self.name('S__mod'), args=[ast.Name(id=node.target.id, ctx=ast.Load()), node.value], keywords=[])
            return ast.copy_location(ast.Assign(targets=[node.target], value=v), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                conv = {115: 's', 114: 'r', 97: 'a'}.get(v.conversion, '')
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(func=self.name('S__fstr'), args=parts, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        kws = []
        for k in node.keywords:
            if k.arg is None:
                k = ast.keyword(arg=None, value=ast.Call(func=self.name('S__kw'), args=[k.value], keywords=[]))
            kws.append(k)
        node.keywords = kws
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and not (
                isinstance(f.value, ast.Name) and f.value.id in ('os', 're', 'sys', 'str', 'dict', 'list')):
            return ast.copy_location(ast.Call(
                func=self.name('S__callm'), args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords), node)
        return node

    def _try(self, node):
        self.generic_visit(node)
        if node.handlers:
            h = ast.ExceptHandler(type=self.name('S__Abort'), name=None, body=[ast.Raise(exc=None, cause=None)])
            ast.copy_location(h, node)
            node.handlers.insert(0, h)
        return node

    visit_Try = _try
    visit_TryStar = _try

    def visit_While(self, node):
        self.generic_visit(node)
        t = ast.Expr(value=ast.Call(func=self.name('S__tick'), args=[], keywords=[]))
        ast.copy_location(t, node)
        node.body.insert(0, t)
        return node


def compile_source(src, filename):
    tree = ast.parse(src, filename)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
