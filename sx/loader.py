"""Imports udapi (and the harnesses) from source, rewritten so that symbolic values can flow through.

The rewriting is done on the AST at import time, from the current content of /repo, on every run.
It keeps the meaning for ordinary values: calls, subscripts, `in`, `%`, f-strings and dict or set
displays go through functions that fall back to the original operation.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import types
from . import models
from .core import CTX

SKIP_NAMES = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir', '__import__', 'len', 'range',
              'enumerate', 'zip', 'list', 'tuple', 'hasattr', 'any', 'all', 'iter', 'next', 'callable', 'id',
              'setattr', 'reversed', 'property', 'ValueError', 'TypeError', 'KeyError'}
ENTERED = {}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, track):
        self.modname, self.track = modname, track
        self.depth = 0
        self.n = 0
        self.qual = []

    # ---- only the bodies of functions and lambdas are rewritten
    def _func(self, node):
        self.qual.append(node.name)
        for d in node.decorator_list:
            pass
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        if self.track:
            label = self.modname + ':' + '.'.join(self.qual)
            stmt = ast.Expr(ast.Call(func=_name('_sx_enter'), args=[ast.Constant(label)], keywords=[]))
            pos = 1 if (node.body and isinstance(node.body[0], ast.Expr)
                        and isinstance(node.body[0].value, ast.Constant)
                        and isinstance(node.body[0].value.value, str)) else 0
            node.body.insert(pos, stmt)
        self.qual.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        old, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = old
        self.qual.pop()
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if not self.depth:
            return node
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in SKIP_NAMES or f.id.startswith('_sx_'):
                return node
            node.func = _call('_sx_c', f)
        elif isinstance(f, ast.Attribute):
            if f.attr.startswith('__') and not f.attr.endswith('__'):
                return node
            v = f.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                return node
            node.func = _call('_sx_m', v, ast.Constant(f.attr))
        return node

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return _call('_sx_f', *parts)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if not self.depth:
            return node
        if isinstance(node.op, ast.Mod):
            return _call('_sx_mod', node.left, node.right)
        op = {ast.Sub: '-', ast.BitAnd: '&', ast.BitOr: '|'}.get(type(node.op))
        if op:
            return _call('_sx_setop', ast.Constant(op), node.left, node.right)
        return node

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if self.depth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = _call('_sx_in', node.left, node.comparators[0])
            return r if isinstance(node.ops[0], ast.In) else _call('_sx_not', r)
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if not self.depth or isinstance(node.slice, ast.Slice):
            return node
        if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int):
            pass
        if isinstance(node.ctx, ast.Load):
            return _call('_sx_get', node.value, node.slice)
        self.n += 1
        t = '_sx_t%d' % self.n
        node.value = ast.NamedExpr(target=ast.Name(id=t, ctx=ast.Store()), value=node.value)
        node.slice = _call('_sx_key', _name(t), node.slice)
        return node

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        if not self.depth:
            return node
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return _call('_sx_mkdict', ast.GeneratorExp(elt=pair, generators=node.generators))

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        if not self.depth:
            return node
        return _call('_sx_mkset', ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if not self.depth or None in node.keys or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        return _call('_sx_mkdict', ast.List(
            elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)], ctx=ast.Load()))

    def visit_Set(self, node):
        node = self.generic_visit(node)
        if not self.depth or all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return _call('_sx_mkset', ast.List(elts=node.elts, ctx=ast.Load()))


def _enter(label):
    ENTERED[label] = ENTERED.get(label, 0) + 1


def rewrite(source, filename, modname, track):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


def _own_hash(cls):
    h = cls.__dict__.get('__hash__', cls.__hash__)
    return cls.__hash__ is object.__hash__


class Loader(importlib.machinery.SourceFileLoader):
    track = True

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return rewrite(self.get_data(path), path, fullname, self.track)

    def exec_module(self, module):
        module.__dict__.update(models.INJECT)
        module.__dict__['_sx_enter'] = _enter
        super().exec_module(module)
        for v in list(module.__dict__.values()):
            if isinstance(v, type) and v.__module__ == module.__name__ and not issubclass(v, BaseException):
                if v.__hash__ is object.__hash__:
                    try:
                        v.__hash__ = models.det_hash
                    except TypeError:
                        pass


class HarnessLoader(Loader):
    track = False


STDLIB = {'difflib': 'difflib', 'textwrap': 'textwrap'}


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, verif):
        self.repo, self.verif = repo, verif

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top == 'udapi':
            cls, base = Loader, [self.repo]
        elif top == 'harness':
            cls, base = HarnessLoader, [self.verif]
        else:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path if path is not None else base)
        if spec is None or spec.origin is None or not spec.origin.endswith('.py'):
            return spec
        return importlib.util.spec_from_file_location(
            name, spec.origin, loader=cls(name, spec.origin),
            submodule_search_locations=spec.submodule_search_locations)


def install(repo='/repo', verif='/verif'):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(repo, verif))
    # an instrumented copy of difflib replaces the original for everybody
    import difflib
    import re
    for name in ('difflib',):
        src = open(sys.modules[name].__file__, encoding='utf-8').read()
        mod = types.ModuleType(name)
        mod.__file__ = sys.modules[name].__file__
        mod.__dict__.update(models.INJECT)
        code = rewrite(src, mod.__file__, name, False)
        sys.modules[name] = mod
        exec(code, mod.__dict__)
    # path functions: instrumented copies are called when an argument is symbolic
    import os
    import posixpath
    import genericpath
    models.reg(os.fspath, lambda p: p if type(p) is models.SymStr else os.fspath(p))
    gen = types.ModuleType('genericpath')
    gen.__dict__.update(models.INJECT)
    exec(rewrite(open(genericpath.__file__, encoding='utf-8').read(), genericpath.__file__, 'genericpath', False), gen.__dict__)
    pos = types.ModuleType('posixpath')
    pos.__dict__.update(models.INJECT)
    exec(rewrite(open(posixpath.__file__, encoding='utf-8').read(), posixpath.__file__, 'posixpath', False), pos.__dict__)
    pos.genericpath = gen
    for name in ('join', 'split', 'splitext', 'dirname', 'basename', 'isabs'):
        models.reg(getattr(posixpath, name), getattr(pos, name))
