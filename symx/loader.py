"""Loads the real avb package from /repo/src/avb with the environment model.

The sources are parsed on every run; a semantics-preserving rewrite makes the
few operations CPython hard-wires to built-in types dispatchable:
  a % b -> __symx_mod__(a, b);  f'..' -> __symx_fstr__(..)
  {k: v} -> __symx_dict__([(k, v)]);  {a, b} -> __symx_set__([a, b])
  x.join(..) (and other str/bytes methods) -> __symx_method__(x, 'join')(..)
"""
import ast
import os
import sys
import types
from . import shims

METHODS = {'join', 'startswith', 'endswith', 'find', 'index', 'count', 'replace', 'strip', 'lstrip', 'rstrip',
           'split', 'partition', 'format', 'ljust', 'rjust', 'zfill'}


class Rewrite(ast.NodeTransformer):
    msg = ''

    def _in_msg(self, node):
        """Text built inside a raise, an assert message or a print/log call is only informative."""
        old, self.msg = self.msg, '_msg'
        try:
            return self.generic_visit(node)
        finally:
            self.msg = old

    def visit_Raise(self, node):
        return self._in_msg(node)

    def visit_Assert(self, node):
        node.test = self.visit(node.test)
        if node.msg is not None:
            old, self.msg = self.msg, '_msg'
            node.msg = self.visit(node.msg)
            self.msg = old
        return node

    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, ast.Call):
            f = v.func
            base = f.value if isinstance(f, ast.Attribute) else f
            if isinstance(base, ast.Name) and base.id in ('print', 'warnings', 'logging', 'logger', 'log'):
                return self._in_msg(node)
        return self.generic_visit(node)

    def _call(self, node, fn, args):
        return ast.copy_location(ast.Call(ast.Name(fn, ast.Load()), args, []), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call(node, '__symx_mod%s__' % self.msg, [node.left, node.right])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                conv = ast.Constant({-1: None, 115: 's', 114: 'r', 97: 'r'}[v.conversion])
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([val, conv, spec], ast.Load()))
        return self._call(node, '__symx_fstr%s__' % self.msg, parts)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            els = [ast.Tuple([v] if k is None else [k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
            return self._call(node, '__symx_dictparts__', [ast.List(els, ast.Load())])
        els = [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]
        return self._call(node, '__symx_dict__', [ast.List(els, ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self._call(node, '__symx_dict__', [gen])

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, '__symx_set__', [ast.List(node.elts, ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, '__symx_set__', [ast.ListComp(node.elt, node.generators)])

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self._call(node, '__symx_in__', [node.left, node.comparators[0]])
            return c if isinstance(node.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), c), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1 and not node.keywords and \
                not isinstance(node.args[0], ast.Starred):
            return self._call(node, '__symx_type__', node.args)
        if isinstance(f, ast.Attribute) and f.attr in METHODS:
            node.func = ast.copy_location(
                ast.Call(ast.Name('__symx_method%s__' % self.msg, ast.Load()), [f.value, ast.Constant(f.attr)], []), f)
        return node


class Package(object):
    """One fresh copy of the package."""

    def __init__(self, srcdir='/repo/src/avb', ext=None, pkg='avb'):
        self.dir = srcdir
        self.pkg = pkg
        self.mods = {}
        self.shim_mods = shims.make_modules()
        self.ext = ext
        self.builtins = shims.make_builtins(self._import)
        self.files = []
        self._compiled = _CODE
        self.load(pkg)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == self.pkg + '._ext':
            if self.ext is None:
                raise ImportError(name)
            m = self.ext(self)
            self.mods[name] = m
            setattr(self.mods[self.pkg], '_ext', m)
            return m
        rel = name.split('.')[1:]
        path = os.path.join(self.dir, *rel) + '.py' if rel else os.path.join(self.dir, '__init__.py')
        is_pkg = not rel
        if not os.path.exists(path):
            alt = os.path.join(self.dir, *(rel + ['__init__.py']))
            if not os.path.exists(alt):
                raise ImportError('No module named %r' % name)
            path, is_pkg = alt, True
        code = self._compiled.get(path)
        if code is None:
            with open(path, 'rb') as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = ast.fix_missing_locations(Rewrite().visit(tree))
            code = compile(tree, path, 'exec', dont_inherit=True)
            self._compiled[path] = code
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition('.')[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        self.files.append(path)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        parent, _, leaf = name.rpartition('.')
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get('__package__') or self.pkg
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            full = base + '.' + name if name else base
        else:
            full = name
        if full == self.pkg or full.startswith(self.pkg + '.'):
            m = self.load(self.pkg)
            parts = full.split('.')
            for i in range(2, len(parts) + 1):
                m = self.load('.'.join(parts[:i]))
            if fromlist:
                for n in fromlist:
                    if n != '*' and not hasattr(m, n):
                        try:
                            self.load(full + '.' + n)
                        except ImportError:
                            raise ImportError('cannot import name %r from %r' % (n, full))
                return m
            return self.mods[self.pkg]
        top = full.split('.')[0]
        if full in self.shim_mods:
            return self.shim_mods[full]
        import importlib
        m = importlib.import_module(full)
        if fromlist:
            return m
        return self.shim_mods.get(top) or sys.modules[top]

    @property
    def avb(self):
        return self.mods[self.pkg]

    def mod(self, name):
        return self.load(self.pkg + '.' + name)


_CODE = {}
