"""Cython -> Python translator.

Parses the *current* .pyx/.pxd text of the code under test with Cython's own parser and emits
plain Python source with the C-level semantics made explicit through helpers of ``crt`` (typed
assignments coerce, C casts truncate, C division does not raise, pointers are objects, C-typed
returns swallow exceptions unless declared ``except``).  The emitted source is executed by the
symbolic engine; nothing in here knows the code under test.
"""
import os

from Cython.Compiler import Errors, Symtab
from Cython.Compiler import Nodes, ExprNodes, ModuleNode
from Cython.Compiler.Main import Context, CompilationOptions, default_options
from Cython.Compiler.Scanning import FileSourceDescriptor


class Untranslatable(Exception):
    pass


def parse(path, modname, pxd=False):
    opts = CompilationOptions(default_options, language_level=3)
    ctx = opts.create_context()
    Errors.init_thread() if hasattr(Errors, 'init_thread') else None
    sd = FileSourceDescriptor(path)
    sc = Symtab.ModuleScope(modname, None, ctx)
    return ctx.parse(sd, sc, pxd=pxd, full_module_name=modname)


FLOATS = {'double', 'float', 'float64_t', 'npy_float64', 'float32_t', 'DTYPE_t', 'DOUBLE_t'}
INTS = {'int', 'long', 'short', 'char', 'int32_t', 'int64_t', 'npy_int32', 'npy_uint32', 'npy_int64',
        'Py_ssize_t', 'bint', 'size_t', 'ssize_t', 'uint32_t', 'uint64_t', 'SIZE_t', 'INT32_t', 'UINT32_t',
        'intp_t', 'int8_t', 'int16_t', 'uint8_t', 'bool'}
PYTYPES = {'object', 'list', 'dict', 'tuple', 'str', 'set', 'bytes', 'unicode', 'type', 'frozenset'}
CPP = {'deque', 'priority_queue', 'queue', 'vector', 'stack'}

BINOPS = {'__add__', '__sub__', '__mul__', '__truediv__', '__and__', '__or__', '__xor__', '__mod__',
          '__floordiv__', '__pow__'}


class Ext(str):
    """name of an extension type"""


class ModInfo:
    """Everything known about one module: classes' typed attributes and function return types."""

    def __init__(self):
        self.classes = {}      # name -> {'bases': [...], 'attrs': {name: type}, 'methods': {name: rettype}}
        self.funcs = {}        # name -> rettype
        self.globals = {}      # name -> type
        self.typedefs = {}
        self.enum = set()


class Translator:

    def __init__(self, modname, pyx, pxd=None, lookup=None):
        self.modname = modname
        self.pyx_path, self.pxd_path = pyx, pxd
        self.lookup = lookup or (lambda m: None)   # module name -> ModInfo
        self.info = ModInfo()
        self.lines = []
        self.ind = 0
        self.known_ext = {}
        self.cdivision = False
        self.tmp = 0
        self.cimported = set()

    # ------------------------------------------------------------------ output
    def put(self, s):
        self.lines.append('    ' * self.ind + s)

    def fresh(self, p='t'):
        self.tmp += 1
        return '__cy_%s%d' % (p, self.tmp)

    # ------------------------------------------------------------------ types
    def ctype(self, base, decl=None):
        if decl is not None:
            d = decl
            while d is not None:
                if isinstance(d, Nodes.CPtrDeclaratorNode):
                    return 'ptr'
                if isinstance(d, Nodes.CArrayDeclaratorNode):
                    return 'carr'
                d = getattr(d, 'base', None)
        if base is None:
            return None
        if isinstance(base, Nodes.MemoryViewSliceTypeNode):
            return 'mv'
        if isinstance(base, Nodes.TemplatedTypeNode):
            n = base.base_type_node.name
            if n in CPP:
                return 'cpp:' + n
            if n == 'ndarray':
                return 'obj'
            return 'obj'
        if isinstance(base, Nodes.CTupleBaseTypeNode):
            return ('ctuple',) + tuple(self.ctype(c) if not hasattr(c, 'base_type') else self.ctype(c.base_type, getattr(c, 'declarator', None))
                                       for c in base.components)
        if isinstance(base, Nodes.CComplexBaseTypeNode):
            return self.ctype(base.base_type, base.declarator)
        if isinstance(base, (Nodes.CConstTypeNode,)) if hasattr(Nodes, 'CConstTypeNode') else False:
            return self.ctype(base.base_type)
        if isinstance(base, Nodes.CSimpleBaseTypeNode):
            n = base.name
            if n is None:
                return None
            if n in self.info.typedefs:
                return self.info.typedefs[n]
            if base.is_basic_c_type:
                if n == 'void':
                    return 'void'
                return 'f' if n in ('double', 'float') else 'i'
            if n in FLOATS:
                return 'f'
            if n in INTS:
                return 'i'
            if n == 'void':
                return 'void'
            if n in PYTYPES or n == 'ndarray':
                return 'obj'
            if n in self.info.classes or n in self.known_ext:
                return Ext(n)
            return 'obj'
        raise Untranslatable('type %r' % base)

    def is_untyped_arg(self, arg):
        """``def f(x)`` parses as CSimpleBaseTypeNode(name='x') with an empty declarator."""
        return isinstance(arg.declarator, Nodes.CNameDeclaratorNode) and not arg.declarator.name

    def argname(self, arg):
        d = arg.declarator
        while not isinstance(d, Nodes.CNameDeclaratorNode):
            d = d.base
        if d.name:
            return d.name
        return arg.base_type.name

    def declname(self, d):
        while not isinstance(d, Nodes.CNameDeclaratorNode):
            d = d.base
        return d.name

    def coerce(self, t, expr):
        if t == 'f':
            return '_cf(%s)' % expr
        if t == 'i':
            return '_ci(%s)' % expr
        if t == 'mv':
            return '_mv(%s)' % expr
        if isinstance(t, Ext):
            return '_chk(%s, %s)' % (expr, t)
        if isinstance(t, tuple) and t[0] == 'ctuple':
            return '_ctup(%s, %r)' % (expr, [c if c in ('f', 'i') else None for c in t[1:]])
        return expr

    # ------------------------------------------------------------------ collection passes
    def collect(self, tree):
        for n in self.stats(tree.body):
            if isinstance(n, Nodes.CClassDefNode):
                self.info.classes.setdefault(n.class_name, {'bases': [], 'attrs': {}, 'methods': {}})
            elif isinstance(n, Nodes.CEnumDefNode):
                if n.name:
                    self.info.typedefs[n.name] = 'i'
                for it in n.items or []:
                    self.info.enum.add(it.name)
            elif isinstance(n, Nodes.CTypeDefNode):
                self.info.typedefs[self.declname(n.declarator)] = self.ctype(n.base_type, n.declarator)
            elif isinstance(n, (Nodes.FromCImportStatNode,)):
                self.cimport_types(n)
        for n in self.stats(tree.body):
            if isinstance(n, Nodes.CClassDefNode):
                c = self.info.classes[n.class_name]
                for b in (n.bases.args if getattr(n, 'bases', None) is not None else []):
                    if isinstance(b, ExprNodes.NameNode) and b.name not in c['bases']:
                        c['bases'].append(b.name)
                if getattr(n, 'base_class_name', None) and n.base_class_name not in c['bases']:
                    c['bases'].append(n.base_class_name)
                if n.body is not None:
                    for m in self.stats(n.body):
                        if isinstance(m, Nodes.CVarDefNode):
                            for d in m.declarators:
                                if self.is_func_decl(d):
                                    c['methods'][self.declname(d)] = self.rettype(m.base_type, d)
                                else:
                                    c['attrs'][self.declname(d)] = self.ctype(m.base_type, d)
                        elif isinstance(m, Nodes.CFuncDefNode):
                            c['methods'][self.declname(m.declarator)] = self.rettype(m.base_type, m.declarator)
            elif isinstance(n, Nodes.CVarDefNode):
                for d in n.declarators:
                    if self.is_func_decl(d):
                        self.info.funcs[self.declname(d)] = self.rettype(n.base_type, d)
                    else:
                        self.info.globals[self.declname(d)] = self.ctype(n.base_type, d)
            elif isinstance(n, Nodes.CFuncDefNode):
                self.info.funcs[self.declname(n.declarator)] = self.rettype(n.base_type, n.declarator)

    def is_func_decl(self, d):
        while d is not None:
            if isinstance(d, Nodes.CFuncDeclaratorNode):
                return True
            d = getattr(d, 'base', None)
        return False

    def rettype(self, base, d):
        t = self.ctype(base, d if isinstance(d, Nodes.CPtrDeclaratorNode) else None)
        return t

    def absmod(self, name, level):
        name = str(name or '')
        if level and level > 0:
            parts = self.modname.split('.')[:-level]
            return '.'.join(parts + ([name] if name else []))
        return name

    def cimport_types(self, n):
        mod = self.absmod(n.module_name, n.relative_level if n.relative_level is not None else 0)
        mi = self.lookup(mod)
        for item in n.imported_names:
            name, as_name = item[1], item[2]
            if mi is not None:
                if name in mi.classes:
                    self.known_ext[as_name or name] = mi.classes[name]
                if name in mi.typedefs:
                    self.info.typedefs[as_name or name] = mi.typedefs[name]
                if name in mi.funcs:
                    self.info.funcs[as_name or name] = mi.funcs[name]
                if name in mi.globals:
                    self.info.globals[as_name or name] = mi.globals[name]
                    self.cimported.add(as_name or name)

    def classinfo(self, name):
        return self.info.classes.get(name) or self.known_ext.get(name)

    def attr_type(self, cls, attr):
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            ci = self.classinfo(c)
            if ci is None:
                continue
            if attr in ci['attrs']:
                return ci['attrs'][attr]
            if attr in ci['methods']:
                return ('meth', ci['methods'][attr])
            todo.extend(ci['bases'])
        return None

    def stats(self, node):
        if node is None:
            return []
        if isinstance(node, Nodes.StatListNode):
            out = []
            for s in node.stats:
                out.extend(self.stats(s))
            return out
        return [node]

    # ------------------------------------------------------------------ module
    def translate(self):
        trees = []
        if self.pxd_path and os.path.exists(self.pxd_path):
            t = parse(self.pxd_path, self.modname, pxd=True)
            self.collect(t)
            trees.append((t, True))
        t = parse(self.pyx_path, self.modname)
        self.collect(t)
        trees.append((t, False))
        self.put('from __future__ import annotations')
        self.put('from crt import *')
        self.put('from crt import _cf, _ci, _mv, _chk, _ctup, _trunc, _cdivf, _cdivi, _fmt, _CAttr, _cret, _Ptr, _Ref, '
                 '_fix_binops, _cmod, _forfrom, _Unsupported')
        # 1. imports, 2. C globals, 3. cdef classes, 4. everything else in order
        imports, classes, rest = [], [], []
        for tree, ispxd in trees:
            for n in self.stats(tree.body):
                if isinstance(n, (Nodes.CImportStatNode, Nodes.FromCImportStatNode, Nodes.FromImportStatNode)) or \
                        self.is_import(n):
                    imports.append((n, tree, ispxd))
                elif isinstance(n, Nodes.CClassDefNode):
                    if not ispxd:
                        classes.append((n, tree, ispxd))
                else:
                    rest.append((n, tree, ispxd))
        self.env = Env(self, None)
        for n, tree, ispxd in imports:
            self.enter(tree, ispxd)
            self.stat(n)
        for name, t in self.info.globals.items():
            if t in ('i', 'f') and name not in self.cimported:
                self.put('%s = %s' % (name, {'i': '0', 'f': '0.0'}[t]))
        for n, tree, ispxd in classes:
            self.enter(tree, ispxd)
            self.stat(n)
        for n, tree, ispxd in rest:
            self.enter(tree, ispxd)
            if isinstance(n, Nodes.CVarDefNode):
                for d in n.declarators:
                    if not self.is_func_decl(d) and d.default is not None:
                        self.put('%s = %s' % (d.name, self.coerce(self.info.globals.get(d.name), self.ex(d.default))))
                continue
            if isinstance(n, Nodes.CTypeDefNode):
                continue
            self.stat(n)
        return '\n'.join(self.lines) + '\n'

    def enter(self, tree, ispxd):
        dc = tree.directive_comments or {}
        self.cdivision = bool(dc.get('cdivision', False)) or ispxd
        self.int_true_div = not ispxd

    def is_import(self, n):
        return isinstance(n, Nodes.SingleAssignmentNode) and isinstance(n.rhs, ExprNodes.ImportNode)

    # ------------------------------------------------------------------ statements
    def body(self, node):
        self.ind += 1
        k = len(self.lines)
        for s in self.stats(node):
            self.stat(s)
        if len(self.lines) == k:
            self.put('pass')
        self.ind -= 1

    def stat(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Untranslatable('%s line %s: statement %s' % (self.modname, n.pos[1], type(n).__name__))
        m(n)

    def s_PassStatNode(self, n):
        self.put('pass')

    def s_CImportStatNode(self, n):
        mod = str(n.module_name)
        as_name = n.as_name
        if mod == 'numpy':
            self.put('import numpy as %s' % (as_name or 'numpy'))
        elif mod == 'cython':
            self.put('from crt import cython%s' % (' as %s' % as_name if as_name else ''))
        else:
            raise Untranslatable('cimport %s' % mod)

    def s_FromCImportStatNode(self, n):
        mod = self.absmod(n.module_name, n.relative_level if n.relative_level is not None else 0)
        if mod.startswith('libc') or mod.startswith('libcpp') or mod.startswith('numpy') or mod.startswith('cython') \
                or mod.startswith('cpython'):
            for item in n.imported_names:
                name, as_name = item[1], item[2]
                if name in FLOATS | INTS:
                    continue
                self.put('from crt import c_%s as %s' % (name, as_name or name))
            return
        mi = self.lookup(mod)
        for item in n.imported_names:
            name, as_name = item[1], item[2]
            if (mi is not None and name in mi.typedefs) or name in FLOATS | INTS:
                continue
            self.put('from %s import %s%s' % (mod, name, ' as %s' % as_name if as_name else ''))

    def s_FromImportStatNode(self, n):
        mod = n.module
        level = mod.level if mod.level is not None else 0
        name = mod.module_name.value if hasattr(mod.module_name, 'value') else ''
        name = str(name)
        prefix = '.' * max(level, 0)
        for nm, target in n.items:
            if nm == '*':
                self.put('from %s%s import *' % (prefix, name))
            else:
                t = self.ex(target)
                self.put('from %s%s import %s%s' % (prefix, name, nm, '' if t == nm else ' as %s' % t))

    def s_SingleAssignmentNode(self, n):
        if isinstance(n.rhs, ExprNodes.ImportNode):
            mod = str(n.rhs.module_name.value)
            name = n.lhs.name
            if '.' in mod and mod.split('.')[0] == name:
                self.put('import %s' % mod)
            elif mod == name:
                self.put('import %s' % mod)
            else:
                self.put('import %s as %s' % (mod, name))
            return
        self.assign(n.lhs, self.ex(n.rhs))

    def assign(self, lhs, rhs):
        if isinstance(lhs, ExprNodes.NameNode):
            t = self.env.type_of_name(lhs.name)
            if self.env.declared(lhs.name):
                rhs = self.coerce(t, rhs)
            self.put('%s = %s' % (lhs.name, rhs))
        elif isinstance(lhs, (ExprNodes.TupleNode, ExprNodes.ListNode)):
            self.put('%s = %s' % (self.ex(lhs), rhs))
            self.coerce_targets(lhs)
        else:
            self.put('%s = %s' % (self.ex(lhs), rhs))

    def coerce_targets(self, lhs):
        if isinstance(lhs, ExprNodes.NameNode):
            if self.env.declared(lhs.name):
                t = self.env.type_of_name(lhs.name)
                c = self.coerce(t, lhs.name)
                if c != lhs.name:
                    self.put('%s = %s' % (lhs.name, c))
        elif isinstance(lhs, (ExprNodes.TupleNode, ExprNodes.ListNode)):
            for a in lhs.args:
                self.coerce_targets(a)

    def s_CascadedAssignmentNode(self, n):
        t = self.fresh()
        self.put('%s = %s' % (t, self.ex(n.rhs)))
        for l in n.lhs_list:
            self.assign(l, t)

    def s_InPlaceAssignmentNode(self, n):
        lhs, op, rhs = n.lhs, n.operator, self.ex(n.rhs)
        if op == '/':
            tl, tr = self.ty(lhs), self.ty(n.rhs)
            if tl in ('f', 'i') and tr in ('f', 'i'):
                cl = self.ex(lhs)
                e = self.div(cl, rhs, tl, tr)
                if isinstance(lhs, ExprNodes.NameNode):
                    self.assign(lhs, e)
                else:
                    self.put('%s = %s' % (cl, e))
                return
        if isinstance(lhs, ExprNodes.NameNode) and self.env.declared(lhs.name) and \
                self.env.type_of_name(lhs.name) in ('f', 'i', 'ptr'):
            self.assign(lhs, '%s %s (%s)' % (lhs.name, op, rhs))
        else:
            self.put('%s %s= %s' % (self.ex(lhs), op, rhs))

    def s_ExprStatNode(self, n):
        if isinstance(n.expr, (ExprNodes.UnicodeNode, ExprNodes.StringNode)):
            return
        self.put(self.ex(n.expr))

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.put('return')
        else:
            self.put('return %s' % self.ex(n.value))

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.put('raise')
            return
        s = 'raise %s' % self.ex(n.exc_type)
        if n.exc_value is not None:
            s = 'raise %s(%s)' % (self.ex(n.exc_type), self.ex(n.exc_value))
        if getattr(n, 'cause', None) is not None:
            s += ' from %s' % self.ex(n.cause)
        self.put(s)

    def s_ReraiseStatNode(self, n):
        self.put('raise')

    def s_IfStatNode(self, n):
        for k, c in enumerate(n.if_clauses):
            self.put('%s %s:' % ('if' if k == 0 else 'elif', self.ex(c.condition)))
            self.body(c.body)
        if n.else_clause is not None:
            self.put('else:')
            self.body(n.else_clause)

    def s_WhileStatNode(self, n):
        self.put('while %s:' % self.ex(n.condition))
        self.body(n.body)
        if n.else_clause is not None:
            self.put('else:')
            self.body(n.else_clause)

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        self.put('for %s in %s:' % (self.ex(n.target), self.ex(it)))
        self.ind += 1
        if not (isinstance(it, ExprNodes.SimpleCallNode) and isinstance(it.function, ExprNodes.NameNode)
                and it.function.name == 'range'):
            self.coerce_targets(n.target)
        self.ind -= 1
        self.body(n.body)
        if n.else_clause is not None:
            self.put('else:')
            self.body(n.else_clause)

    def s_ForFromStatNode(self, n):
        self.put('for %s in _forfrom(%s, %r, %r, %s, %s):' % (self.ex(n.target), self.ex(n.bound1), n.relation1, n.relation2,
                                                             self.ex(n.bound2), self.ex(n.step) if n.step is not None else '1'))
        self.body(n.body)
        if n.else_clause is not None:
            self.put('else:')
            self.body(n.else_clause)

    def s_CEnumDefNode(self, n):
        prev = None
        for it in n.items or []:
            if it.value is not None:
                self.put('%s = %s' % (it.name, self.ex(it.value)))
            else:
                self.put('%s = %s' % (it.name, '0' if prev is None else '%s + 1' % prev))
            prev = it.name

    def s_BreakStatNode(self, n):
        self.put('break')

    def s_ContinueStatNode(self, n):
        self.put('continue')

    def s_AssertStatNode(self, n):
        cond = n.condition if hasattr(n, 'condition') else n.cond
        self.put('assert %s%s' % (self.ex(cond), (', %s' % self.ex(n.value)) if n.value is not None else ''))

    def s_DelStatNode(self, n):
        for a in n.args:
            self.put('del %s' % self.ex(a))

    def s_GILStatNode(self, n):
        self.put('if True:')
        self.body(n.body)

    def s_GlobalNode(self, n):
        self.put('global %s' % ', '.join(n.names))

    def s_NonlocalNode(self, n):
        self.put('nonlocal %s' % ', '.join(n.names))

    def s_WithStatNode(self, n):
        self.put('with %s%s:' % (self.ex(n.manager), (' as %s' % self.ex(n.target)) if n.target is not None else ''))
        self.body(n.body)

    def s_TryExceptStatNode(self, n):
        self.put('try:')
        self.body(n.body)
        for c in n.except_clauses:
            if c.pattern is None:
                self.put('except Exception:')
            else:
                pat = ', '.join(self.ex(p) for p in c.pattern)
                if len(c.pattern) > 1:
                    pat = '(%s)' % pat
                self.put('except %s%s:' % (pat, (' as %s' % self.ex(c.target)) if c.target is not None else ''))
            self.body(c.body)
        if n.else_clause is not None:
            self.put('else:')
            self.body(n.else_clause)

    def s_TryFinallyStatNode(self, n):
        self.put('try:')
        self.body(n.body)
        self.put('finally:')
        self.body(n.finally_clause)

    def s_CVarDefNode(self, n):
        for d in n.declarators:
            nm = self.declname(d)
            t = self.ctype(n.base_type, d)
            dd = d
            while not isinstance(dd, Nodes.CNameDeclaratorNode):
                dd = dd.base
            default = dd.default
            if default is not None:
                self.put('%s = %s' % (nm, self.coerce(t, self.ex(default))))
            elif isinstance(t, str) and t.startswith('cpp:'):
                self.put('%s = c_%s()' % (nm, t[4:]))
            elif t == 'carr':
                dims, q = [], d
                while q is not None:
                    if isinstance(q, Nodes.CArrayDeclaratorNode):
                        dims.append(self.ex(q.dimension))
                    q = getattr(q, 'base', None)
                e = '[%s for __cy_i in range(%s)]' % ('0.0' if self.ctype(n.base_type) == 'f' else '0', dims[0])
                for x in dims[1:]:
                    e = '[%s for __cy_i in range(%s)]' % (e, x)
                self.put('%s = %s' % (nm, e))
            elif t in ('obj', 'mv') or isinstance(t, Ext):
                if nm not in self.env.nonlocals:
                    self.put('%s = None' % nm)

    def s_CTypeDefNode(self, n):
        pass

    # ---- functions
    def argspec(self, args, star, starstar, nkw=0):
        parts, kinds = [], []
        npos = len(args) - nkw
        for k, a in enumerate(args):
            if k == npos and nkw and star is None:
                parts.append('*')
            name = self.argname(a)
            if self.is_untyped_arg(a):
                t = None
            else:
                t = self.ctype(a.base_type, a.declarator)
            kinds.append((name, t))
            if a.default is not None:
                dv = '...' if isinstance(a.default, ExprNodes.NoneNode) and False else self.ex(a.default)
                parts.append('%s=%s' % (name, dv))
            else:
                parts.append(name)
            if k == npos - 1 and star is not None:
                parts.append('*' + star.name)
        if not args and star is not None:
            parts.append('*' + star.name)
        if starstar is not None:
            parts.append('**' + starstar.name)
        return ', '.join(parts), kinds

    def function(self, n, name, args, star, starstar, nkw, ret, propagate, decorators, cls, isgen=False):
        env = Env(self, self.env)
        spec, kinds = self.argspec(args, star, starstar, nkw)
        static = any(isinstance(d.decorator, ExprNodes.NameNode) and d.decorator.name in ('staticmethod', 'classmethod')
                     for d in (decorators or []))
        for k, (nm, t) in enumerate(kinds):
            if t is not None:
                env.types[nm] = t
            elif k == 0 and cls and not static:
                env.types[nm] = Ext(cls)
        env.selfname = kinds[0][0] if (cls and kinds and not static) else None
        if star is not None:
            env.types[star.name] = 'obj'
        if starstar is not None:
            env.types[starstar.name] = 'obj'
        for d in (decorators or []):
            self.put('@%s' % self.ex(d.decorator))
        if ret in ('f', 'i', 'void') or isinstance(ret, Ext):
            self.put('@_cret(%r, %r)' % ('ext' if isinstance(ret, Ext) else ret, propagate))
        self.put('def %s(%s):' % (name, spec))
        old = self.env
        ind, k00 = self.ind, len(self.lines)
        try:
            self.env = env
            env.collect(n.body)
            self.ind += 1
            k0 = len(self.lines)
            for nm, t in kinds:
                if nm == env.selfname:
                    continue
                c = self.coerce(t, nm)
                if c != nm:
                    self.put('%s = %s' % (nm, c))
            for v in sorted(env.addressed):
                self.put('%s = None' % v) if v not in [x for x, _ in kinds] else None
                self.put('def __cy_set_%s(__v):' % v)
                self.ind += 1
                self.put('nonlocal %s' % v)
                self.put('%s = __v' % v)
                self.ind -= 1
            for s in self.stats(n.body):
                self.stat(s)
            if len(self.lines) == k0:
                self.put('pass')
        except Untranslatable as e:
            # only this function is outside the encodable subset: paths that call it are reported as unsupported
            del self.lines[k00:]
            self.ind = ind + 1
            self.put('raise _Unsupported(%r)' % ('untranslatable: %s' % e))
        self.ind = ind
        self.env = old
        self.put('')

    def s_CFuncDefNode(self, n):
        d = n.declarator
        fd = d
        while not isinstance(fd, Nodes.CFuncDeclaratorNode):
            fd = fd.base
        name = self.declname(d)
        ret = self.rettype(n.base_type, d)
        if self.is_untyped_ret(n):
            ret = None
        propagate = fd.exception_value is not None or bool(fd.exception_check)
        args = fd.args
        self.function(n, name, args, None, None, 0, ret, propagate, getattr(n, 'decorators', None), self.env.cls)

    def is_untyped_ret(self, n):
        return isinstance(n.base_type, Nodes.CSimpleBaseTypeNode) and n.base_type.name is None

    def s_DefNode(self, n):
        self.function(n, n.name, n.args, n.star_arg, n.starstar_arg, n.num_kwonly_args if hasattr(n, 'num_kwonly_args') else 0,
                      None, True, n.decorators, self.env.cls)

    # ---- classes
    def s_CClassDefNode(self, n):
        name = n.class_name
        ci = self.info.classes[name]
        self.put('class %s(%s):' % (name, ', '.join(ci['bases'])))
        self.ind += 1
        self.put('__cy_ext__ = True')
        for a, t in ci['attrs'].items():
            tt = t if isinstance(t, str) and not isinstance(t, Ext) else ('ext:%s' % t if isinstance(t, Ext) else 'obj')
            self.put('%s = _CAttr(%r, %r)' % (a, a, tt))
        old = self.env
        self.env = Env(self, old)
        self.env.cls = name
        self.env.is_class = True
        later = []
        props = []
        for s in self.stats(n.body):
            if isinstance(s, Nodes.CVarDefNode):
                continue
            if isinstance(s, Nodes.SingleAssignmentNode):
                later.append(s)
                continue
            self.stat(s)
        self.put('pass')
        self.env = old
        self.ind -= 1
        for s in later:
            self.put('%s.%s = %s' % (name, s.lhs.name, self.ex(s.rhs)))
        self.put('_fix_binops(%s)' % name)
        self.put('')

    def s_PyClassDefNode(self, n):
        for d in (n.decorators or []):
            self.put('@%s' % self.ex(d.decorator))
        bases = []
        if getattr(n, 'bases', None) is not None and hasattr(n.bases, 'args'):
            bases = [self.ex(b) for b in n.bases.args]
        self.put('class %s(%s):' % (n.name, ', '.join(bases)))
        old = self.env
        self.env = Env(self, old)
        self.env.is_class = True
        self.body(n.body)
        self.env = old
        self.put('')

    # ------------------------------------------------------------------ expressions
    def ex(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Untranslatable('%s line %s: expression %s' % (self.modname, n.pos[1], type(n).__name__))
        return m(n)

    def e_NameNode(self, n):
        return n.name

    def e_NoneNode(self, n):
        return 'None'

    def e_EllipsisNode(self, n):
        return '...'

    def e_BoolNode(self, n):
        return 'True' if n.value else 'False'

    def e_IntNode(self, n):
        v = str(n.value)
        return '(%s)' % v if v.startswith('-') else v   # (-1) ** k

    def e_FloatNode(self, n):
        v = repr(float(n.value))
        return '(%s)' % v if v.startswith('-') else v

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    def e_StringNode(self, n):
        v = n.unicode_value if getattr(n, 'unicode_value', None) is not None else n.value
        return repr(str(v) if not isinstance(v, bytes) else v.decode())

    def e_IdentifierStringNode(self, n):
        return repr(str(n.value))

    def e_BytesNode(self, n):
        return repr(bytes(n.value, 'latin1') if isinstance(n.value, str) else bytes(n.value))

    def e_AttributeNode(self, n):
        o = self.ex(n.obj)
        if isinstance(n.obj, (ExprNodes.IntNode, ExprNodes.FloatNode)):
            o = '(%s)' % o
        return '%s.%s' % (o, n.attribute)

    def e_SimpleCallNode(self, n):
        return '%s(%s)' % (self.ex(n.function), ', '.join(self.ex(a) for a in n.args))

    def e_GeneralCallNode(self, n):
        parts = []
        pos = n.positional_args
        self.call_args(pos, parts)
        kw = n.keyword_args
        if kw is not None:
            self.call_kwargs(kw, parts)
        return '%s(%s)' % (self.ex(n.function), ', '.join(parts))

    def call_args(self, pos, parts):
        if isinstance(pos, ExprNodes.TupleNode):
            for a in pos.args:
                parts.append(self.ex(a))
        elif isinstance(pos, ExprNodes.AsTupleNode):
            parts.append('*%s' % self.ex(pos.arg))
        elif isinstance(pos, ExprNodes.AddNode):
            self.call_args(pos.operand1, parts)
            self.call_args(pos.operand2, parts)
        elif hasattr(ExprNodes, 'MergedSequenceNode') and isinstance(pos, ExprNodes.MergedSequenceNode):
            for a in pos.args:
                self.call_args(a, parts)
        else:
            parts.append('*%s' % self.ex(pos))

    def call_kwargs(self, kw, parts):
        if isinstance(kw, ExprNodes.DictNode):
            for it in kw.key_value_pairs:
                parts.append('%s=%s' % (it.key.value, self.ex(it.value)))
        elif hasattr(ExprNodes, 'MergedDictNode') and isinstance(kw, ExprNodes.MergedDictNode):
            for it in kw.keyword_args:
                self.call_kwargs(it, parts)
        else:
            parts.append('**%s' % self.ex(kw))

    def e_AsTupleNode(self, n):
        return 'tuple(%s)' % self.ex(n.arg)

    def e_MergedSequenceNode(self, n):
        parts = []
        for a in n.args:
            self.call_args(a, parts)
        t = getattr(n, 'type', None)
        return '[%s]' % ', '.join(parts)

    def e_IndexNode(self, n):
        return '%s[%s]' % (self.ex(n.base), self.index(n.index))

    def index(self, i):
        if isinstance(i, ExprNodes.TupleNode):
            if not i.args:
                return '()'
            return ', '.join(self.ex(a) for a in i.args) + (',' if len(i.args) == 1 else '')
        return self.ex(i)

    def e_SliceNode(self, n):
        f = lambda x: '' if x is None or isinstance(x, ExprNodes.NoneNode) else self.ex(x)
        s = '%s:%s' % (f(n.start), f(n.stop))
        if f(n.step):
            s += ':' + f(n.step)
        return s

    def e_SliceIndexNode(self, n):
        f = lambda x: '' if x is None or isinstance(x, ExprNodes.NoneNode) else self.ex(x)
        return '%s[%s:%s]' % (self.ex(n.base), f(n.start), f(n.stop))

    def e_TupleNode(self, n):
        if not n.args:
            return '()'
        return '(%s%s)' % (', '.join(self.ex(a) for a in n.args), ',' if len(n.args) == 1 else '')

    def e_ListNode(self, n):
        return '[%s]' % ', '.join(self.ex(a) for a in n.args)

    def e_SetNode(self, n):
        return '{%s}' % ', '.join(self.ex(a) for a in n.args)

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.ex(i.key), self.ex(i.value)) for i in n.key_value_pairs)

    def e_MergedDictNode(self, n):
        parts = []
        for it in n.keyword_args:
            if isinstance(it, ExprNodes.DictNode):
                parts.extend('%s: %s' % (self.ex(i.key), self.ex(i.value)) for i in it.key_value_pairs)
            else:
                parts.append('**%s' % self.ex(it))
        return '{%s}' % ', '.join(parts)

    def e_StarredUnpackingNode(self, n):
        return '*%s' % self.ex(n.target)

    e_StarredTargetNode = e_StarredUnpackingNode

    def div(self, a, b, ta, tb):
        if ta in ('f', 'i') and tb in ('f', 'i'):
            if ta == tb == 'i' and not self.int_true_div:
                return '_cdivi(%s, %s)' % (a, b)
            if self.cdivision:
                return '_cdivf(%s, %s)' % (a, b)
        return '(%s / %s)' % (a, b)

    def e_DivNode(self, n):
        a, b = self.ex(n.operand1), self.ex(n.operand2)
        if n.operator == '//':
            ta, tb = self.ty(n.operand1), self.ty(n.operand2)
            if ta == tb == 'i' and self.cdivision:
                return '_cdivi(%s, %s)' % (a, b)
            return '(%s // %s)' % (a, b)
        return self.div(a, b, self.ty(n.operand1), self.ty(n.operand2))

    def binop(self, n):
        return '(%s %s %s)' % (self.ex(n.operand1), n.operator, self.ex(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_PowNode = e_BitwiseOrNode = binop
    e_IntBinopNode = e_NumBinopNode = e_MatMultNode = binop

    def e_ModNode(self, n):
        if isinstance(n.operand1, (ExprNodes.UnicodeNode, ExprNodes.StringNode, ExprNodes.CondExprNode)) or \
                type(n.operand1).__name__ in ('UnicodeNode', 'StringNode', 'IdentifierStringNode'):
            return '_fmt(%s, %s)' % (self.ex(n.operand1), self.ex(n.operand2))
        if self.ty(n.operand1) == self.ty(n.operand2) == 'i' and self.cdivision:
            return '_cmod(%s, %s)' % (self.ex(n.operand1), self.ex(n.operand2))
        return '_pymod(%s, %s)' % (self.ex(n.operand1), self.ex(n.operand2))

    def e_UnaryMinusNode(self, n):
        return '(-%s)' % self.ex(n.operand)

    def e_UnaryPlusNode(self, n):
        return '(+%s)' % self.ex(n.operand)

    def e_TildeNode(self, n):
        return '(~%s)' % self.ex(n.operand)

    def e_NotNode(self, n):
        return '(not %s)' % self.ex(n.operand)

    def e_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.ex(n.operand1), n.operator, self.ex(n.operand2))

    def e_CondExprNode(self, n):
        return '(%s if %s else %s)' % (self.ex(n.true_val), self.ex(n.test), self.ex(n.false_val))

    def e_PrimaryCmpNode(self, n):
        ops = {'not_in': 'not in', 'is_not': 'is not'}
        s = '%s %s %s' % (self.ex(n.operand1), ops.get(n.operator, n.operator), self.ex(n.operand2))
        c = n.cascade
        while c is not None:
            s += ' %s %s' % (ops.get(c.operator, c.operator), self.ex(c.operand2))
            c = c.cascade
        return '(%s)' % s

    def e_TypecastNode(self, n):
        if getattr(n, 'base_type', None) is None:
            t = None
        else:
            t = self.ctype(n.base_type, n.declarator)
        o = self.ex(n.operand)
        if t == 'f':
            return '_cf(%s)' % o
        if t == 'i':
            return '_trunc(%s)' % o
        return o

    def e_AmpersandNode(self, n):
        o = n.operand
        if isinstance(o, ExprNodes.IndexNode):
            return '_Ptr(%s, %s)' % (self.ex(o.base), self.index(o.index))
        if isinstance(o, ExprNodes.AttributeNode):
            ob = self.ex(o.obj)
            return '_Ref(lambda: %s.%s, lambda __v: setattr(%s, %r, __v))' % (ob, o.attribute, ob, str(o.attribute))
        if isinstance(o, ExprNodes.NameNode):
            return '_Ref(lambda: %s, __cy_set_%s)' % (o.name, o.name)
        raise Untranslatable('& of %s' % type(o).__name__)

    def e_LambdaNode(self, n):
        spec, _ = self.argspec(n.args, n.star_arg, n.starstar_arg,
                               n.num_kwonly_args if hasattr(n, 'num_kwonly_args') else 0)
        body = n.result_expr
        return '(lambda %s: %s)' % (spec, self.ex(body))

    def e_YieldExprNode(self, n):
        return '(yield %s)' % (self.ex(n.arg) if n.arg is not None else '')

    def e_YieldFromExprNode(self, n):
        return '(yield from %s)' % self.ex(n.arg)

    def e_JoinedStrNode(self, n):
        return "''.join([%s])" % ', '.join(self.ex(v) for v in n.values)

    def e_FormattedValueNode(self, n):
        conv = {'s': 'str(%s)', 'r': 'repr(%s)', 'a': 'ascii(%s)'}.get(n.conversion_char, '%s') % self.ex(n.value)
        spec = self.ex(n.format_spec) if n.format_spec is not None else "''"
        return '_format(%s, %s)' % (conv, spec)

    # comprehensions and generators
    def comp_clauses(self, loop):
        """returns (clauses string, innermost append/yield node)"""
        out = []
        n = loop
        while True:
            if isinstance(n, Nodes.StatListNode) and len(n.stats) == 1:
                n = n.stats[0]
            elif isinstance(n, Nodes.ForInStatNode):
                out.append('for %s in %s' % (self.ex(n.target), self.ex(n.iterator.sequence)))
                n = n.body
            elif isinstance(n, Nodes.IfStatNode):
                out.append('if %s' % self.ex(n.if_clauses[0].condition))
                n = n.if_clauses[0].body
            else:
                return ' '.join(out), n

    def e_ComprehensionNode(self, n):
        clauses, inner = self.comp_clauses(n.loop)
        name = n.type.name if hasattr(n.type, 'name') else 'list'
        if isinstance(inner, ExprNodes.DictComprehensionAppendNode):
            return '{%s: %s %s}' % (self.ex(inner.key_expr), self.ex(inner.value_expr), clauses)
        e = self.ex(inner.expr)
        if name == 'set':
            return '{%s %s}' % (e, clauses)
        return '[%s %s]' % (e, clauses)

    def e_GeneratorExpressionNode(self, n):
        clauses, inner = self.comp_clauses(n.loop)
        if isinstance(inner, Nodes.ExprStatNode):
            inner = inner.expr
        return '(%s %s)' % (self.ex(inner.arg), clauses)

    def e_InlinedGeneratorExpressionNode(self, n):
        return self.e_GeneratorExpressionNode(n.gen)

    def e_ImportNode(self, n):
        raise Untranslatable('import expr')

    # ------------------------------------------------------------------ static types (for C division)
    def ty(self, n):
        E = ExprNodes
        if isinstance(n, E.IntNode):
            return 'i'
        if isinstance(n, E.FloatNode):
            return 'f'
        if isinstance(n, E.BoolNode):
            return 'i'
        if isinstance(n, E.NameNode):
            return self.env.type_of_name(n.name)
        if isinstance(n, E.TypecastNode):
            return self.ctype(n.base_type, n.declarator)
        if isinstance(n, (E.AddNode, E.SubNode, E.MulNode)):
            a, b = self.ty(n.operand1), self.ty(n.operand2)
            if a in ('f', 'i') and b in ('f', 'i'):
                return 'f' if 'f' in (a, b) else 'i'
            return None
        if isinstance(n, E.DivNode):
            a, b = self.ty(n.operand1), self.ty(n.operand2)
            if a in ('f', 'i') and b in ('f', 'i'):
                return 'i' if a == b == 'i' and not self.int_true_div else 'f'
            return None
        if isinstance(n, E.PowNode):
            a, b = self.ty(n.operand1), self.ty(n.operand2)
            if a == 'f' and b in ('f', 'i'):
                return 'f'
            return None
        if isinstance(n, (E.UnaryMinusNode, E.UnaryPlusNode)):
            return self.ty(n.operand)
        if isinstance(n, E.CondExprNode):
            a, b = self.ty(n.true_val), self.ty(n.false_val)
            return a if a == b else ('f' if {a, b} == {'f', 'i'} else None)
        if isinstance(n, E.AttributeNode):
            o = self.ty(n.obj)
            if isinstance(o, Ext):
                t = self.attr_type(o, n.attribute)
                return t
            if o == 'mv' and n.attribute == 'shape':
                return 'mvshape'
            return None
        if isinstance(n, E.IndexNode):
            b = self.ty(n.base)
            if b == 'mvshape':
                return 'i'
            if b in ('mv', 'ptr'):
                idx = n.index.args if isinstance(n.index, E.TupleNode) else [n.index]
                if any(isinstance(i, (E.SliceNode, E.EllipsisNode)) for i in idx):
                    return 'mv'
                return 'f'     # element type double or int: only matters together with another C number
            return None
        if isinstance(n, E.SimpleCallNode):
            f = n.function
            if isinstance(f, E.NameNode):
                if f.name in self.info.classes or f.name in self.known_ext:
                    return Ext(f.name)
                if f.name == 'abs' and n.args:
                    t = self.ty(n.args[0])
                    return t if t in ('f', 'i') else None
                if f.name in ('max', 'min') and n.args:
                    ts = [self.ty(a) for a in n.args]
                    if all(t in ('f', 'i') for t in ts):
                        return 'f' if 'f' in ts else 'i'
                    return None
                if f.name == 'len':
                    return 'i'
                return self.info.funcs.get(f.name)
            if isinstance(f, E.AttributeNode):
                t = self.ty(f)
                if isinstance(t, tuple) and t and t[0] == 'meth':
                    return t[1]
        return None


class Env:

    def __init__(self, tr, parent):
        self.tr, self.parent = tr, parent
        self.types = {}
        self.inferred = {}
        self.addressed = set()
        self.nonlocals = set()
        self.cls = None
        self.is_class = False
        self.selfname = None

    def declared(self, name):
        if name in self.types:
            return True
        if self.parent is None:
            return name in self.tr.info.globals
        return False

    def type_of_name(self, name):
        if name in self.types:
            return self.types[name]
        if name in self.inferred:
            return self.inferred[name]
        if self.parent is not None and not self.is_class:
            p = self.parent
            while p is not None and p.is_class:
                p = p.parent
            if p is not None:
                return p.type_of_name(name)
        if self.parent is None:
            return self.tr.info.globals.get(name)
        return None

    def collect(self, body):
        tr = self.tr
        assigns = {}

        def walk(n, depth=0):
            if n is None:
                return
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if isinstance(n, (Nodes.DefNode, Nodes.PyClassDefNode, ExprNodes.LambdaNode)):
                return
            if isinstance(n, Nodes.NonlocalNode):
                self.nonlocals.update(n.names)
            if isinstance(n, Nodes.CVarDefNode):
                for d in n.declarators:
                    self.types[tr.declname(d)] = tr.ctype(n.base_type, d)
            if isinstance(n, Nodes.SingleAssignmentNode) and isinstance(n.lhs, ExprNodes.NameNode):
                assigns.setdefault(n.lhs.name, []).append(n.rhs)
            elif isinstance(n, Nodes.InPlaceAssignmentNode) and isinstance(n.lhs, ExprNodes.NameNode):
                assigns.setdefault(n.lhs.name, []).append(n.rhs)
            elif isinstance(n, Nodes.ForInStatNode):
                for t in self.names(n.target):
                    seq = n.iterator.sequence
                    if isinstance(seq, ExprNodes.SimpleCallNode) and isinstance(seq.function, ExprNodes.NameNode) \
                            and seq.function.name == 'range' and isinstance(n.target, ExprNodes.NameNode):
                        assigns.setdefault(t, []).append('i')
                    else:
                        assigns.setdefault(t, []).append(None)
            elif isinstance(n, (Nodes.SingleAssignmentNode,)):
                for t in self.names(n.lhs):
                    assigns.setdefault(t, []).append(None)
            if isinstance(n, ExprNodes.AmpersandNode) and isinstance(n.operand, ExprNodes.NameNode):
                self.addressed.add(n.operand.name)
            for a in (n.child_attrs or []):
                walk(getattr(n, a, None))

        walk(body)
        for _ in range(3):
            for nm, rhss in assigns.items():
                if nm in self.types:
                    continue
                ts = set()
                for r in rhss:
                    t = r if r is None or isinstance(r, str) else tr.ty(r)
                    ts.add(t)
                if ts == {'i', 'f'}:
                    ts = {'f'}
                if len(ts) == 1:
                    t = ts.pop()
                    if t in ('f', 'i', 'mv') or isinstance(t, Ext):
                        self.inferred[nm] = t

    def names(self, t):
        if isinstance(t, ExprNodes.NameNode):
            return [t.name]
        if isinstance(t, (ExprNodes.TupleNode, ExprNodes.ListNode)):
            return [x for a in t.args for x in self.names(a)]
        return []


def module_info(modname, pyx, pxd, lookup):
    tr = Translator(modname, pyx, pxd, lookup)
    if pxd and os.path.exists(pxd):
        tr.collect(parse(pxd, modname, pxd=True))
    tr.collect(parse(pyx, modname))
    return tr.info


if __name__ == '__main__':
    import sys
    src = sys.argv[1]
    infos = {}

    def lookup(m):
        p = os.path.join(src, m.replace('.', '/') + '.pyx')
        if not os.path.exists(p):
            return None
        if m not in infos:
            infos[m] = None
            infos[m] = module_info(m, p, p[:-1] + 'd' if False else p[:-4] + '.pxd', lookup)
        return infos[m]

    p = os.path.join(src, sys.argv[2].replace('.', '/') + '.pyx')
    print(Translator(sys.argv[2], p, p[:-4] + '.pxd', lookup).translate())
