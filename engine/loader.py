"""Loads jpt.* from the current source tree for symbolic execution: .pyx through cy2py, .py through
an AST pass; the modules see symbolic-aware builtins, numpy and math."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types
import warnings

import crt
import cy2py
import fgstub
import snp
import sym

SHIM = {'numpy': snp.snumpy, 'math': snp.smath, 'cmath': snp.scmath, 'factorgraph': fgstub}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in SHIM:
            return SHIM[name]
        if name.startswith('numpy.') and not fromlist:
            builtins.__import__(name)
            return SHIM['numpy']
        if name == 'pyximport':
            raise ModuleNotFoundError(name)
    return builtins.__import__(name, globals, locals, fromlist, level)


def _type(x):
    t = type(x)
    if t is snp.np.ndarray:
        return snp.ndarray
    return snp.sfloat if t is float or t is sym.SymFloat else snp.sint if t is int or t is sym.SymInt else t


def make_builtins():
    d = dict(builtins.__dict__)
    d.update(__import__=_import, float=snp.sfloat, int=snp.sint, round=snp._round, hash=snp._hash)
    return d


BUILTINS = make_builtins()


class _Mod(ast.NodeTransformer):
    """'literal' % args must not fail on symbolic arguments; f-strings likewise"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return ast.copy_location(ast.Call(ast.Name('_crt_fmt', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod) and not isinstance(n.left, ast.Constant):
            return ast.copy_location(ast.Call(ast.Name('_crt_mod', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_FormattedValue(self, n):
        self.generic_visit(n)
        v = n.value
        if n.conversion == 115:
            v = ast.Call(ast.Name('str', ast.Load()), [v], [])
        elif n.conversion == 114:
            v = ast.Call(ast.Name('repr', ast.Load()), [v], [])
        elif n.conversion == 97:
            v = ast.Call(ast.Name('ascii', ast.Load()), [v], [])
        call = ast.Call(ast.Name('_crt_format', ast.Load()), [v] + ([n.format_spec] if n.format_spec is not None else []), [])
        return ast.copy_location(ast.FormattedValue(ast.fix_missing_locations(ast.copy_location(call, n)), -1, None), n)


class _Arr(ast.NodeTransformer):
    """conversions of arrays that may hold symbolic values"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and not n.keywords:
            n.func = ast.copy_location(ast.Name('_crt_type', ast.Load()), n.func)
            return n
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'astype':
            c = ast.Call(ast.Name('_crt_astype', ast.Load()), [n.func.value] + n.args, n.keywords)
            return ast.fix_missing_locations(ast.copy_location(c, n))
        return n


class _Aug(ast.NodeTransformer):
    """in-place operators on arrays with symbolic operands"""

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Constant):
            return n
        op = ast.Constant(type(n.op).__name__)
        t = n.target
        if isinstance(t, ast.Attribute) and not t.attr.startswith('__'):
            e = ast.Call(ast.Name('_crt_augattr', ast.Load()), [t.value, ast.Constant(t.attr), n.value, op], [])
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(e), n))
        if isinstance(t, ast.Subscript) and not any(isinstance(x, ast.Slice) for x in ast.walk(t.slice)):
            e = ast.Call(ast.Name('_crt_augitem', ast.Load()), [t.value, t.slice, n.value, op], [])
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(e), n))
        if not isinstance(t, ast.Name):
            return n
        call = ast.Call(ast.Name('_crt_aug', ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value,
                                                           ast.Constant(type(n.op).__name__)], [])
        return ast.fix_missing_locations(ast.copy_location(ast.Assign([n.target], call), n))


class Loader(importlib.abc.Loader):
    def __init__(self, finder, path, ispkg):
        self.finder, self.path, self.ispkg = finder, path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        g = module.__dict__
        g['__builtins__'] = BUILTINS
        g['__file__'] = self.path
        g['_crt_fmt'] = crt._fmt
        g['_crt_type'] = _type
        g['_crt_mod'] = crt._pymod
        g['_crt_format'] = crt._format
        g['_crt_aug'] = crt._aug
        g['_crt_astype'] = snp.astype
        g['_crt_augattr'] = crt._augattr
        g['_crt_augitem'] = crt._augitem
        if self.path.endswith('.pyx'):
            src = self.finder.translate(module.__name__)
            code = compile(_Aug().visit(_Arr().visit(ast.parse(src))), '<cy2py %s>' % module.__name__, 'exec')
        else:
            with open(self.path) as f:
                tree = ast.parse(f.read(), self.path)
            tree = ast.fix_missing_locations(_Aug().visit(_Arr().visit(_Mod().visit(tree))))
            code = compile(tree, self.path, 'exec')
        exec(code, g)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, src):
        self.src = src
        self.infos = {}
        self.failed = {}

    def pyx(self, name):
        p = os.path.join(self.src, name.replace('.', '/') + '.pyx')
        return p if os.path.exists(p) else None

    def lookup(self, name):
        p = self.pyx(name)
        if p is None:
            return None
        if name not in self.infos:
            self.infos[name] = None
            self.infos[name] = cy2py.module_info(name, p, p[:-4] + '.pxd', self.lookup)
        return self.infos[name]

    def translate(self, name):
        p = self.pyx(name)
        return cy2py.Translator(name, p, p[:-4] + '.pxd', self.lookup).translate()

    def find_spec(self, name, path, target=None):
        if name != 'jpt' and not name.startswith('jpt.'):
            return None
        base = os.path.join(self.src, name.replace('.', '/'))
        for p, pkg in ((base + '.pyx', False), (os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.exists(p):
                spec = importlib.machinery.ModuleSpec(name, Loader(self, p, pkg), origin=p, is_package=pkg)
                if pkg:
                    spec.submodule_search_locations = [base]
                return spec
        return None


_finder = None


def install(src='/repo/src'):
    global _finder
    if _finder is None:
        warnings.simplefilter('ignore')
        _finder = Finder(src)
        sys.meta_path.insert(0, _finder)
    return _finder
