"""Instrumented import of the real source.

The modules under test (mdpo from /repo/src, and polib) are compiled, on every
run, from an AST in which the operations that CPython performs in C on strings,
dicts and sets go through hooks (symx.hooks) that accept symbolic values.  With
concrete values every hook does what the original operation does.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys

METHODS = frozenset(n for t in (str, dict, set, re.Pattern) for n in dir(t) if not n.startswith('_'))
# pure Python modules of the standard library that are executed symbolically too
TWINS = {'pathlib', 'fnmatch', 'shlex', 'difflib', 'bisect', 'heapq'}
TWIN = 'symx_twin_'
NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__import__', 'breakpoint'}


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.cls = []

    # -- helpers
    def hook(self, name, *args, node=None):
        return ast.Call(ast.Attribute(ast.Name('_sx_', ast.Load()), name, ast.Load()), list(args), [])

    def mangle(self, attr):
        if self.cls and attr.startswith('__') and not attr.endswith('__'):
            return '_' + self.cls[-1].lstrip('_') + attr
        return attr

    def generic_body(self, node):
        return super().generic_visit(node)

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        self.cls.append(node.name)
        self.generic_visit(node)
        self.cls.pop()
        self.scope.pop()
        return node

    def _func(self, node):
        self.scope.append(node.name)
        # annotations are left alone
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [x for s in node.body for x in self._stmts(s)]
        q = f'{self.mod}:{".".join(self.scope)}'
        enter = ast.Expr(self.hook('enter', ast.Constant(q)))
        i = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
                and isinstance(node.body[0].value.value, str):
            i = 1
        node.body.insert(i, enter)
        self.scope.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def _stmts(self, s):
        r = self.visit(s)
        if r is None:
            return []
        return r if isinstance(r, list) else [r]

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit_JoinedStr(v.format_spec) if v.format_spec is not None else ast.Constant('')
                conv = chr(v.conversion) if v.conversion != -1 else ''
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(conv), spec], ast.Load()))
        return ast.copy_location(self.hook('fstr', *parts), node)

    def visit_Call(self, node):
        f = node.func
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        if isinstance(f, ast.Name):
            if f.id in NOCALL:
                return ast.copy_location(ast.Call(f, args, kws), node)
            new = self.hook('call', f, *args)
        elif isinstance(f, ast.Attribute):
            new = self.hook('mcall', self.visit(f.value), ast.Constant(self.mangle(f.attr)), *args)
        else:
            new = self.hook('call', self.visit(f), *args)
        new.keywords = kws
        return ast.copy_location(new, node)

    def visit_Import(self, node):
        for a in node.names:
            if a.name in TWINS:
                a.name, a.asname = TWIN + a.name, a.asname or a.name
        return node

    def visit_ImportFrom(self, node):
        if node.module in TWINS and not node.level:
            node.module = TWIN + node.module
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in METHODS:
            return ast.copy_location(self.hook('attr', node.value, ast.Constant(node.attr)), node)
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and self.scope and self.scope[-1] == '__bool__':
            node.value = self.hook('pybool', node.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op, l, r = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(self.hook('contains', l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(self.hook('notcontains', l, r), node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                for a, b in ((l, r), (r, l)):
                    if isinstance(a, ast.Constant) and isinstance(a.value, bool):
                        return ast.copy_location(
                            self.hook('is_' if isinstance(op, ast.Is) else 'isnot', b, a), node)
                return node
            if not isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
                return ast.copy_location(self.hook('cmp', ast.Constant(type(op).__name__), l, r), node)
            return node
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            # split the chain (operands are evaluated once through a helper)
            items = [ast.Constant(type(o).__name__) for o in node.ops]
            lams = [ast.Lambda(ast.arguments([], [], None, [], [], None, []), c) for c in node.comparators]
            return ast.copy_location(
                self.hook('chain', node.left, ast.Tuple(items, ast.Load()), *lams), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.hook('mod', node.left, node.right), node)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
            return ast.copy_location(
                self.hook('setop', ast.Constant(type(node.op).__name__), node.left, node.right), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice) \
                and not isinstance(node.slice, ast.Constant):
            return ast.copy_location(self.hook('getitem', node.value, node.slice), node)
        if isinstance(node.ctx, ast.Load) and isinstance(node.slice, ast.Constant) \
                and isinstance(node.slice.value, str):
            return ast.copy_location(self.hook('getitem', node.value, node.slice), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            # value is evaluated before target, as in the original statement
            return ast.copy_location(ast.Expr(self.hook('setitem', node.value, t.value, t.slice)), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(node.op, ast.Mod) and isinstance(t, ast.Name):
            return ast.copy_location(
                ast.Assign([t], self.hook('mod', ast.Name(t.id, ast.Load()), node.value)), node)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)) and (
                isinstance(t, ast.Name) or isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name)):
            cur = ast.Name(t.id, ast.Load()) if isinstance(t, ast.Name) else ast.Attribute(t.value, t.attr, ast.Load())
            return ast.copy_location(
                ast.Assign([t], self.hook('iset', ast.Constant(type(node.op).__name__), cur, node.value)), node)
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            lam = ast.Lambda(ast.arguments([], [ast.arg('_v')], None, [], [], None, []),
                             self.hook('iset', ast.Constant(type(node.op).__name__), ast.Name('_v', ast.Load()), node.value)
                             if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)) else
                             ast.BinOp(ast.Name('_v', ast.Load()), node.op, node.value))
            return ast.copy_location(ast.Expr(self.hook('augitem', t.value, t.slice, lam)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(self.hook('delitem', t.value, t.slice)), node))
            else:
                out.append(ast.copy_location(ast.Delete([t]), node))
        return out

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.Tuple([k if k is not None else ast.Constant(None), v,
                            ast.Constant(k is None)], ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(self.hook('mkdict', *pairs), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(self.hook('dictof', gen), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return ast.copy_location(self.hook('setof', ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.hook('setof', ast.ListComp(node.elt, node.generators)), node)

    # patterns and type parameters are left alone
    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = [x for s in node.body for x in self._stmts(s)]
        return node


def transform(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Tr(modname).visit(tree)
    # the hook object, after the docstring and __future__ imports
    i = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.ImportFrom) and s.module == '__future__':
            continue
        break
    tree.body.insert(i, ast.ImportFrom('symx', [ast.alias('hooks', '_sx_')], 0))
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        if module.__name__.startswith(TWIN):  # without the C versions
            src = re.sub(r'^( *)from _(?:bisect|heapq) import', r'\1from _absent import', src, flags=re.M)
        exec(transform(src, self.path, module.__name__), module.__dict__)
        if not module.__name__.startswith('harness'):
            from . import state
            state.save(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # top level name -> directory containing it
        self.loaded = []

    def find_spec(self, name, path, target=None):
        if name.startswith(TWIN):
            p = importlib.machinery.PathFinder.find_spec(name[len(TWIN):]).origin
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, False))
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p, pkg = os.path.join(base, '__init__.py'), True
        elif os.path.isfile(base + '.py'):
            p, pkg = base + '.py', False
        else:
            return None
        self.loaded.append(name)
        return importlib.util.spec_from_file_location(
            name, p, loader=Loader(p, pkg),
            submodule_search_locations=[base] if pkg else None)


def site_packages():
    for c in ('/opt/venv/lib/python3.12/site-packages',):
        if os.path.isdir(c):
            return c
    return None


def setup_paths(repo):
    sys.path.insert(0, os.path.join(repo, 'src'))
    sp = site_packages()
    if sp and sp not in sys.path:
        sys.path.append(sp)


def install(repo, harness_dir):
    setup_paths(repo)
    roots = {'mdpo': os.path.join(repo, 'src'), 'harness': os.path.dirname(harness_dir)}
    spec = importlib.machinery.PathFinder.find_spec('polib')
    if spec and spec.origin:
        roots['polib'] = os.path.dirname(spec.origin)
    f = Finder(roots)
    sys.meta_path.insert(0, f)
    return f
