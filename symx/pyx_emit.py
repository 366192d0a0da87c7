"""Runs under the interpreter that has Cython: translates a .pyx module to Python.

    python pyx_emit.py MODULE.pyx QUALIFIED.NAME INCLUDE_ROOT > out.json

Cython's own front end parses the module and analyses its types; in the tree it
leaves behind every conversion between C and Python values is an explicit node.
Each function is written out as Python over a small run-time (__pyx_rt__, see
extload.py) that gives C values their C semantics.  Constructs outside the
supported subset make the function raise Unsupported when it is called.
"""
import json
import sys
from Cython.Compiler import Pipeline, PyrexTypes as PT
from Cython.Compiler.Main import CompilationOptions, default_options, CompilationSource, create_default_resultobj
from Cython.Compiler.Scanning import FileSourceDescriptor

R = '__pyx_rt__.'
KNOWN = {
    'int8_t': ('int', 8, True), 'uint8_t': ('int', 8, False), 'int16_t': ('int', 16, True),
    'uint16_t': ('int', 16, False), 'int32_t': ('int', 32, True), 'uint32_t': ('int', 32, False),
    'int64_t': ('int', 64, True), 'uint64_t': ('int', 64, False), 'size_t': ('int', 64, False),
    'ssize_t': ('int', 64, True), 'Py_ssize_t': ('int', 64, True), 'ptrdiff_t': ('int', 64, True),
    'size_type': ('int', 64, False), 'difference_type': ('int', 64, True),
}
RANKS = {'char': 8, 'short': 16, 'int': 32, 'long': 64, 'PY_LONG_LONG': 64, 'long long': 64}


class No(Exception):
    pass


def ty(t):
    """Run-time type of a C type; None for a Python object."""
    if t is None:
        raise No('no type')
    if getattr(t, 'is_const', 0) and hasattr(t, 'const_base_type'):
        return ty(t.const_base_type)
    if t.is_pyobject:
        return None
    if t.is_void:
        return ('void',)
    if t is PT.c_bint_type:
        return ('int', 32, True)
    if t is PT.c_size_t_type:
        return ('int', 64, False)
    if t is PT.c_py_ssize_t_type or t is PT.c_ssize_t_type:
        return ('int', 64, True)
    if t.is_typedef:
        return KNOWN.get(t.typedef_name) or ty(t.typedef_base_type)
    if getattr(t, 'is_memoryviewslice', 0):
        return ('mv', ty(t.dtype))
    if t.is_enum:
        return ('int', 32, False)
    if t.is_int:
        s = t.sign_and_name()
        u = s.startswith('unsigned ')
        base = s.replace('unsigned ', '').replace('signed ', '')
        if base in KNOWN:
            return KNOWN[base]
        if base in RANKS:
            return ('int', RANKS[base], not u)
        raise No('integer type %s' % s)
    if t.is_float:
        return ('double',)
    if t.is_reference:
        return ty(t.ref_base_type)
    if t.is_ptr:
        b = t.base_type
        if b.is_cfunction:
            raise No('function pointer')
        return ('ptr', ty(b))
    if t.is_cpp_class:
        if t.name == 'vector':
            return ('vec', ty(t.templates[0]))
        raise No('class %s' % t.name)
    if t.is_struct_or_union:
        return ('rec', t.name)
    raise No('type %s' % t)


def classy(t):
    return t is not None and t[0] in ('rec', 'vec')


def kind(n):
    return type(n).__name__


class Emit(object):
    def __init__(self):
        self.out = []
        self.ind = 0
        self.cfuncs = {}
        self.tmp = 0
        self.ret = None

    def w(self, line):
        self.out.append('    ' * self.ind + line)

    # ------------------------------------------------------------ expressions
    def T(self, n):
        return ty(n.type)

    def e(self, n):
        f = getattr(self, 'e_' + kind(n), None)
        if f is None:
            if hasattr(n, 'operand1') and hasattr(n, 'operand2') and hasattr(n, 'operator'):
                return self.binop(n)
            raise No('expression %s' % kind(n))
        return f(n)

    def e_NoneNode(self, n):
        return 'None'

    def e_NullNode(self, n):
        return 'None'

    def e_BoolNode(self, n):
        return repr(bool(n.value))

    def e_IntNode(self, n):
        v = n.value
        if isinstance(v, str):
            v = v.rstrip('uUlL')
            v = int(v, 0)
        return '(%d)' % v

    def e_CharNode(self, n):
        return '(%d)' % ord(n.value)

    def e_FloatNode(self, n):
        return 'float(%r)' % str(n.value)

    def string(self, n):
        b = n.value
        if isinstance(b, str):
            b = b.encode(getattr(n.value, 'encoding', None) or 'utf-8') if not hasattr(b, 'byteencode') else b.byteencode()
        return bytes(b)

    def e_BytesNode(self, n):
        t = self.T(n)
        if t is not None:
            return R + 'cstr(%r)' % self.string(n)
        return repr(self.string(n))

    def e_UnicodeNode(self, n):
        if self.T(n) is not None:
            return R + 'cstr(%r)' % str(n.value).encode('utf-8')
        return repr(str(n.value))

    def e_StringNode(self, n):
        if self.T(n) is not None:
            return R + 'cstr(%r)' % str(n.value).encode('utf-8')
        return repr(str(n.value))

    e_IdentifierStringNode = e_StringNode

    def e_TupleNode(self, n):
        if self.T(n) is not None:
            raise No('C tuple')
        return '(%s)' % ''.join(self.e(a) + ', ' for a in n.args)

    def e_ListNode(self, n):
        return '[%s]' % ', '.join(self.e(a) for a in n.args)

    def e_SetNode(self, n):
        return '{%s}' % ', '.join(self.e(a) for a in n.args)

    def e_DictNode(self, n):
        return '{%s}' % ', '.join('%s: %s' % (self.e(i.key), self.e(i.value)) for i in n.key_value_pairs)

    def e_NameNode(self, n):
        ent = n.entry
        if ent is None:
            return n.name
        t = n.type
        if t is not None and t.is_enum and (ent.is_const or getattr(ent, 'enum_int_value', None) is not None
                                            or ent.scope.is_module_scope and not ent.is_variable):
            return R + 'enum(%r)' % ent.name
        return n.name

    def e_ResultRefNode(self, n):
        if getattr(n, 'expression', None) is not None:
            return self.e(n.expression)
        raise No('temporary')

    def through(self, n):
        return self.e(n.arg)

    e_CoerceToTempNode = e_ProxyNode = e_CloneNode = e_CMethodSelfCloneNode = through
    e_NoneCheckNode = e_BoolBinopResultNode = e_CoerceToComplexNode = through

    def e_PyTypeTestNode(self, n):
        return self.e(n.arg)

    def e_CoerceToPyTypeNode(self, n):
        t = self.T(n.arg)
        if t is None:
            return self.e(n.arg)
        want = str(n.type).split()[0]
        bint = n.arg.type is PT.c_bint_type
        return R + 'to_py(%s, %r, %r)' % (self.e(n.arg), ('bool',) if bint else t, want)

    def e_CoerceIntToBytesNode(self, n):
        return R + 'to_py(%s, %r, "byte")' % (self.e(n.arg), self.T(n.arg))

    def e_CoerceFromPyTypeNode(self, n):
        if n.type is PT.c_bint_type:
            return R + 'truth(%s)' % self.e(n.arg)
        return R + 'from_py(%s, %r)' % (self.e(n.arg), self.T(n))

    def e_CoerceToBooleanNode(self, n):
        t = self.T(n.arg)
        return self.e(n.arg) if t is None else R + 'as_bool(%s)' % self.e(n.arg)

    def e_NotNode(self, n):
        return '(not %s)' % self.e(n.operand)

    def e_BoolBinopNode(self, n):
        return '(%s %s %s)' % (self.e(n.operand1), n.operator, self.e(n.operand2))

    def comprehension(self, n, kinds):
        loops, body = [], n.loop
        while True:
            k = kind(body)
            if k == 'StatListNode' and len(body.stats) == 1:
                body = body.stats[0]
            elif k == 'ForInStatNode':
                seq, tgt = body.iterator.sequence, body.target
                ts = self.T(seq)
                if kind(tgt) != 'NameNode' or body.else_clause is not None:
                    raise No('comprehension target')
                tt = self.T(tgt)
                self.tmp += 1
                v = '__t%d' % self.tmp
                if ts is not None and ts[0] == 'vec':
                    x = v if tt is not None else R + 'to_py(%s, %r, "object")' % (v, ts[1])
                    loops.append('for %s in %siterate(%s)' % (v, R, self.e(seq)))
                elif ts is None:
                    x = v if tt is None else R + 'from_py(%s, %r)' % (v, tt)
                    loops.append('for %s in %s' % (v, self.e(seq)))
                else:
                    raise No('comprehension over %s' % (ts,))
                loops.append('for %s in [%s]' % (tgt.name, x))
                body = body.body
            elif k == 'IfStatNode' and len(body.if_clauses) == 1 and body.else_clause is None:
                loops.append('if %s' % self.cond(body.if_clauses[0].condition))
                body = body.if_clauses[0].body
            else:
                break
        if kind(body) != 'ComprehensionAppendNode':
            if kind(body) == 'DictComprehensionAppendNode':
                return '{%s: %s %s}' % (self.py(body.key_expr), self.py(body.value_expr), ' '.join(loops))
            raise No('comprehension of %s' % kind(body))
        return '%s%s %s%s' % (kinds[0], self.py(body.expr), ' '.join(loops), kinds[1])

    def e_ComprehensionNode(self, n):
        t = str(n.type)
        return self.comprehension(n, '{}' if t.startswith(('set', 'dict')) else '[]')

    def e_InlinedGeneratorExpressionNode(self, n):
        raise No('generator expression')

    def e_CondExprNode(self, n):
        return '(%s if %s else %s)' % (self.e(n.true_val), self.e(n.test), self.e(n.false_val))

    def c_common(self, a, b):
        for t in (a, b):
            if t[0] == 'double':
                return ('double',)
        if a[0] != 'int' or b[0] != 'int':
            return None
        a, b = [x if x[1] >= 32 else ('int', 32, True) for x in (a, b)]
        if a[1] == b[1]:
            return a if not a[2] else b
        return max(a, b, key=lambda x: x[1])

    def e_PrimaryCmpNode(self, n):
        if n.cascade:
            raise No('chained comparison')
        a, b = n.operand1, n.operand2
        op = {'is_not': 'is not', 'not_in': 'not in'}.get(n.operator, n.operator)
        ta, tb = self.T(a), self.T(b)
        if ta is not None and tb is not None and not op.startswith('is') and 'in' not in op:
            return R + 'cmp(%r, %s, %s, %r)' % (op, self.e(a), self.e(b), self.c_common(ta, tb))
        if ta is not None or tb is not None:
            if op in ('is', 'is not') and (ta is None or tb is None or ta[0] == tb[0] == 'ptr'):
                return '(%s %s %s)' % (self.e(a), op, self.e(b))
            raise No('mixed comparison')
        return '(%s %s %s)' % (self.e(a), op, self.e(b))

    def binop(self, n):
        ta, tb, t = self.T(n.operand1), self.T(n.operand2), self.T(n)
        if ta is None and tb is None:
            return '(%s %s %s)' % (self.e(n.operand1), n.operator, self.e(n.operand2))
        if ta is None or tb is None:
            raise No('mixed arithmetic')
        if ta[0] == 'ptr' or tb[0] == 'ptr':
            return R + 'ptr_arith(%r, %s, %s)' % (n.operator, self.e(n.operand1), self.e(n.operand2))
        return R + 'arith(%r, %s, %s, %r, %r)' % (n.operator, self.e(n.operand1), self.e(n.operand2), t,
                                                   bool(getattr(n, 'cdivision', None)))

    def e_UnaryMinusNode(self, n):
        t = self.T(n)
        x = '(-%s)' % self.e(n.operand)
        return x if t is None else R + 'wrap(%s, %r)' % (x, t)

    def e_UnaryPlusNode(self, n):
        return self.e(n.operand)

    def e_TypecastNode(self, n):
        t, ta = self.T(n), self.T(n.operand)
        if t is None and ta is None:
            return self.e(n.operand)
        if t is None or ta is None:
            raise No('cast between C and Python')
        return R + 'cast(%s, %r, %r)' % (self.e(n.operand), ta, t)

    def e_SizeofTypeNode(self, n):
        return R + 'sizeof(%r)' % (ty(n.arg_type),)

    def e_AmpersandNode(self, n):
        o = n.operand
        k = kind(o)
        while k in ('CoerceToTempNode', 'ProxyNode', 'NoneCheckNode'):
            o = o.arg
            k = kind(o)
        t = self.T(o)
        if k == 'MemoryViewIndexNode':
            return R + 'addr_mv(%s, %s, %r)' % (self.e(o.base), self.index(o), bool(self.boundscheck))
        if k == 'IndexNode' and self.T(o.base) is not None:
            return R + 'addr_elem(%s, %s, %r)' % (self.e(o.base), self.index(o), t)
        if k in ('NameNode', 'AttributeNode') and classy(t):
            return R + 'addr(%s, %r)' % (self.e(o), t)
        if k == 'AttributeNode':
            return R + 'addr_field(%s, %r, %r)' % (self.e(o.obj), o.attribute, t)
        raise No('address of %s' % k)

    boundscheck = True

    def index(self, o):
        if hasattr(o, 'indices') and o.indices:
            if len(o.indices) != 1:
                raise No('several indices')
            i = o.indices[0]
        else:
            i = o.index
        x = self.e(i)
        if self.T(i) is None and self.T(o.base) is not None:
            x = R + 'from_py(%s, ("int", 64, True))' % x
        return x

    def e_MemoryViewIndexNode(self, n):
        return R + 'load_mv(%s, %s, %r)' % (self.e(n.base), self.index(n), bool(self.boundscheck))

    def e_IndexNode(self, n):
        tb = self.T(n.base)
        if tb is None:
            i = self.e(n.index)
            if self.T(n.index) is not None:
                i = R + 'to_py(%s, %r, "int")' % (i, self.T(n.index))
            return '%s[%s]' % (self.e(n.base), i)
        return R + 'elem(%s, %s)' % (self.e(n.base), self.index(n))

    def e_SliceIndexNode(self, n):
        tb = self.T(n.base)
        a = self.e(n.start) if n.start is not None else None
        b = self.e(n.stop) if n.stop is not None else None
        if tb is None:
            return '%s[%s:%s]' % (self.e(n.base), a or '', b or '')
        want = str(n.type).split()[0]
        return R + 'slice(%s, %s, %s, %r)' % (self.e(n.base), a or 0, b, want)

    def e_AttributeNode(self, n):
        o = n.obj
        if self.is_py(o):
            return '%s.%s' % (self.e(o), n.attribute)
        return R + 'field(%s, %r, %r)' % (self.e(o), n.attribute, self.T(n))

    def is_py(self, o):
        t = getattr(o, 'type', None)
        if t is None:
            return True
        try:
            return ty(t) is None
        except No:
            if kind(o) == 'NameNode':
                return True
            raise

    def args(self, n):
        if getattr(n, 'arg_tuple', None) is not None and n.args is None:
            return n.arg_tuple.args
        return n.args

    def e_SimpleCallNode(self, n):
        f = n.function
        args = list(self.args(n) or [])
        if kind(f) == 'NameNode' and f.entry is not None and f.entry.is_cfunction and not f.entry.is_builtin \
                and not getattr(f.entry.scope, 'is_builtin_scope', 0):
            name = f.entry.name
            ft = f.type
            if ft.is_ptr:
                ft = ft.base_type
            vals = [self.conv(a, p.type) for a, p in zip(args, ft.args)]
            vals += [self.e(a) for a in args[len(ft.args):]]
            if name in self.cfuncs:
                return '%s(%s)' % (name, ', '.join(vals))
            return R + 'ccall(%r, [%s])' % (name, ', '.join(vals))
        if kind(f) == 'AttributeNode' and not self.is_py(f.obj):
            return R + 'method(%s, %r, [%s])' % (self.e(f.obj), f.attribute, ', '.join(self.e(a) for a in args))
        if kind(f) == 'AttributeNode' and getattr(n, 'self', None) is not None:
            return '%s.%s(%s)' % (self.e(n.self), f.attribute, ', '.join(self.py(a) for a in args[1:]))
        return '%s(%s)' % (self.e(f), ', '.join(self.py(a) for a in args))

    def py(self, a):
        """Value for a Python-level call."""
        t = self.T(a)
        return self.e(a) if t is None else R + 'to_py(%s, %r, "object")' % (self.e(a), t)

    def e_GeneralCallNode(self, n):
        parts = []
        p = n.positional_args
        if kind(p) in ('TupleNode', 'ListNode'):
            parts += [self.e(a) for a in p.args]
        else:
            parts.append('*%s' % self.e(p))
        k = n.keyword_args
        if k is not None:
            if kind(k) == 'DictNode' and all(kind(i.key) in ('IdentifierStringNode', 'UnicodeNode', 'StringNode')
                                             for i in k.key_value_pairs):
                parts += ['%s=%s' % (i.key.value, self.e(i.value)) for i in k.key_value_pairs]
            else:
                parts.append('**%s' % self.e(k))
        return '%s(%s)' % (self.e(n.function), ', '.join(parts))

    def e_MergedDictNode(self, n):
        parts = []
        for a in n.keyword_args:
            parts.append('**%s' % self.e(a))
        return '{%s}' % ', '.join(parts)

    def e_AsTupleNode(self, n):
        return 'tuple(%s)' % self.e(n.arg)

    def e_YieldExprNode(self, n):
        return '(yield %s)' % (self.e(n.arg) if n.arg is not None else '')

    def conv(self, n, t):
        """Value of n converted to C type t (an assignment or an argument)."""
        want, have = ty(t), self.T(n)
        x = self.e(n)
        if want is None and have is not None:
            return R + 'to_py(%s, %r, "object")' % (x, have)
        if want is None:
            return x
        if have is None:
            if kind(n) in ('NoneNode',):
                return 'None'
            return R + 'from_py(%s, %r)' % (x, want)
        if want[0] == 'int' or want[0] == 'double':
            return R + 'cast(%s, %r, %r)' % (x, have, want)
        return x

    # ------------------------------------------------------------- statements
    def s(self, n):
        f = getattr(self, 's_' + kind(n), None)
        if f is None:
            raise No('statement %s' % kind(n))
        return f(n)

    def s_StatListNode(self, n):
        for x in n.stats:
            self.s(x)

    def s_CompilerDirectivesNode(self, n):
        old = self.boundscheck
        self.boundscheck = n.directives.get('boundscheck', old)
        self.s(n.body)
        self.boundscheck = old

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        if n is not None:
            self.s(n)
        if len(self.out) == k:
            self.w('pass')
        self.ind -= 1

    def nothing(self, n):
        pass

    s_PassStatNode = s_CImportStatNode = s_CDefExternNode = s_CVarDefNode = s_GlobalNode = nothing
    s_CStructOrUnionDefNode = s_CEnumDefNode = s_CTypeDefNode = s_FromCImportStatNode = nothing
    s_CppClassNode = s_GILExitNode = s_PropertyNode = nothing

    def s_ExprStatNode(self, n):
        self.w(self.e(n.expr))

    def s_SingleAssignmentNode(self, n):
        if kind(n.rhs) in ('PyCFunctionNode', 'CyFunctionNode'):
            return
        if kind(n.rhs) == 'ProxyNode' and kind(n.rhs.arg) in ('PyCFunctionNode', 'CyFunctionNode'):
            return
        if kind(n.rhs) == 'ImportNode':
            m = str(n.rhs.module_name.value)
            self.w('import %s%s' % (m, '' if n.lhs.name == m.partition('.')[0] else ' as ' + n.lhs.name))
            return
        self.assign(n.lhs, n.rhs)

    def assign(self, lhs, rhs, value=None):
        k = kind(lhs)
        t = self.T(lhs) if k != 'TupleNode' else None
        x = value if value is not None else self.conv(rhs, lhs.type) if k != 'TupleNode' else self.e(rhs)
        if k == 'NameNode':
            if classy(t):
                self.w(R + 'assign(%s, %s)' % (lhs.name, x))
            else:
                self.w('%s = %s' % (lhs.name, x))
        elif k == 'AttributeNode':
            if self.is_py(lhs.obj):
                self.w('%s.%s = %s' % (self.e(lhs.obj), lhs.attribute, x))
            else:
                self.w(R + 'set_field(%s, %r, %r, %s)' % (self.e(lhs.obj), lhs.attribute, t, x))
        elif k == 'IndexNode':
            if self.T(lhs.base) is None:
                i = self.e(lhs.index)
                if self.T(lhs.index) is not None:
                    i = R + 'to_py(%s, %r, "int")' % (i, self.T(lhs.index))
                self.w('%s[%s] = %s' % (self.e(lhs.base), i, x))
            else:
                self.w(R + 'set_elem(%s, %s, %s)' % (self.e(lhs.base), self.index(lhs), x))
        elif k in ('TupleNode', 'ListNode') and value is None and all(kind(a) == 'NameNode' for a in lhs.args):
            self.w('%s = %s' % (', '.join(a.name for a in lhs.args), x))
        else:
            raise No('assignment to %s' % k)

    def s_CascadedAssignmentNode(self, n):
        self.tmp += 1
        v = '__t%d' % self.tmp
        rhs = n.rhs
        while kind(rhs) in ('CoerceToTempNode', 'ProxyNode', 'CloneNode'):
            rhs = rhs.arg
        self.w('%s = %s' % (v, self.e(rhs)))
        have = self.T(rhs)
        for lhs in n.lhs_list:
            t = self.T(lhs)
            x = v
            if t is None and have is not None:
                x = R + 'to_py(%s, %r, "object")' % (v, have)
            elif t is not None and have is None:
                x = R + 'from_py(%s, %r)' % (v, t)
            elif t is not None and t[0] in ('int', 'double'):
                x = R + 'cast(%s, %r, %r)' % (v, have, t)
            self.assign(lhs, rhs, x)

    def s_ParallelAssignmentNode(self, n):
        for x in n.stats:
            self.s(x)

    def s_InPlaceAssignmentNode(self, n):
        t, tr = self.T(n.lhs), self.T(n.rhs)
        cur = self.e(n.lhs)
        if t is None:
            self.w('%s %s= %s' % (cur, n.operator, self.py(n.rhs)))
            return
        if t[0] == 'ptr':
            x = R + 'ptr_arith(%r, %s, %s)' % (n.operator, cur, self.e(n.rhs))
        else:
            r = self.e(n.rhs) if tr is not None else R + 'from_py(%s, %r)' % (self.e(n.rhs), t)
            c = self.c_common(t, tr or t)
            x = R + 'cast(%sarith(%r, %s, %s, %r, False), %r, %r)' % (R, n.operator, cur, r, c, c, t)
        self.assign(n.lhs, n.rhs, x)

    def s_IfStatNode(self, n):
        for i, c in enumerate(n.if_clauses):
            self.w('%s %s:' % ('elif' if i else 'if', self.cond(c.condition)))
            self.block(c.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def cond(self, n):
        t = self.T(n)
        return R + 'truth(%s)' % self.e(n) if t is not None else self.e(n)

    def s_WhileStatNode(self, n):
        self.w('while %s:' % (self.cond(n.condition) if n.condition is not None else 'True'))
        self.block(n.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        seq = n.iterator.sequence
        ts = self.T(seq)
        tgt = n.target
        if kind(tgt) in ('TupleNode', 'ListNode'):
            names = ', '.join(a.name for a in tgt.args)
            if any(self.T(a) is not None for a in tgt.args):
                raise No('loop target')
            self.w('for %s in %s:' % (names, self.e(seq)))
            self.block(n.body)
        else:
            if kind(tgt) != 'NameNode':
                raise No('loop target')
            t = self.T(tgt)
            self.tmp += 1
            v = '__t%d' % self.tmp
            if ts is not None:
                if ts[0] != 'vec':
                    raise No('iteration over %s' % (ts,))
                self.w('for %s in %siterate(%s):' % (v, R, self.e(seq)))
                x = v if t is not None else R + 'to_py(%s, %r, "object")' % (v, ts[1])
            else:
                self.w('for %s in %s:' % (v, self.e(seq)))
                x = v if t is None else R + 'from_py(%s, %r)' % (v, t)
            self.ind += 1
            if classy(t):
                self.w(R + 'assign(%s, %s)' % (tgt.name, x))
            elif t is not None and t[0] == 'int':
                self.w('%s = %swrap(%s, %r)' % (tgt.name, R, x, t))
            else:
                self.w('%s = %s' % (tgt.name, x))
            self.s(n.body)
            self.ind -= 1
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_BreakStatNode(self, n):
        self.w('break')

    def s_ContinueStatNode(self, n):
        self.w('continue')

    def s_ReturnStatNode(self, n):
        if n.value is None:
            self.w('return')
        else:
            self.w('return %s' % (self.conv(n.value, n.return_type) if n.return_type is not None else self.e(n.value)))

    def s_RaiseStatNode(self, n):
        if n.exc_type is None:
            self.w('raise')
            return
        x = self.e(n.exc_type)
        if n.exc_value is not None:
            x = '%s(%s)' % (x, self.e(n.exc_value))
        self.w('raise %s' % x)

    def s_GILStatNode(self, n):
        self.s(n.body)

    def s_TryFinallyStatNode(self, n):
        self.w('try:')
        self.block(n.body)
        self.w('finally:')
        self.block(n.finally_clause)

    def s_TryExceptStatNode(self, n):
        self.w('try:')
        self.block(n.body)
        for c in n.except_clauses:
            pats = c.pattern
            p = '(%s)' % ''.join(self.e(x) + ', ' for x in pats) if pats else 'Exception'
            tgt = ' as %s' % c.target.name if c.target is not None else ''
            self.w('except %s%s:' % (p, tgt))
            self.block(c.body)
        if n.else_clause is not None:
            self.w('else:')
            self.block(n.else_clause)

    def s_FromImportStatNode(self, n):
        m = n.module
        dots = '.' * max(0, int(m.level or 0))
        name = str(m.module_name.value)
        for imported, target in n.items:
            self.w('from %s%s import %s as %s' % (dots, name, imported, target.name))

    def s_AssertStatNode(self, n):
        self.w('assert %s' % self.cond(n.cond if hasattr(n, 'cond') else n.condition))

    # -------------------------------------------------------------- functions
    def scope_locals(self, n, params):
        for name, ent in sorted(n.local_scope.entries.items()):
            if name in params or not ent.is_variable:
                continue
            try:
                t = ty(ent.type)
            except No:
                continue
            if t is None:
                continue
            self.w('%s = %snew(%r)' % (name, R, t))

    def function(self, n, name, params, header, body):
        mark, ind = len(self.out), self.ind
        self.w(header)
        try:
            self.ind += 1
            body()
            self.ind -= 1
        except No as x:
            self.ind = ind
            del self.out[mark:]
            self.w('def %s(*a, **k):' % name)
            self.w('    %sunsupported(%r)' % (R, 'accelerator function %s: %s' % (name, x)))

    def s_DefNode(self, n):
        name = str(n.entry.name if n.entry is not None else n.name)
        params, texts = [], []
        for a in n.args:
            params.append(str(a.name))
            texts.append(str(a.name) + ('=%s' % self.e(a.default) if a.default is not None else ''))
        if n.star_arg is not None:
            texts.append('*%s' % n.star_arg.name)
            params.append(str(n.star_arg.name))
        if n.starstar_arg is not None:
            texts.append('**%s' % n.starstar_arg.name)
            params.append(str(n.starstar_arg.name))

        def body():
            for a in n.args:
                t = ty(a.type)
                if t is None:
                    continue
                if t[0] == 'mv':
                    self.w('%s = %smemview(%s)' % (a.name, R, a.name))
                else:
                    self.w('%s = %sfrom_py(%s, %r)' % (a.name, R, a.name, t))
            self.scope_locals(n, params)
            k = len(self.out)
            self.s(n.gbody.body if hasattr(n, 'gbody') else n.body)
            if len(self.out) == k:
                self.w('pass')
        self.function(n, name, params, 'def %s(%s):' % (name, ', '.join(texts)), body)

    s_GeneratorDefNode = s_DefNode

    def s_CFuncDefNode(self, n):
        name = str(n.entry.name)
        t = n.type
        params = [str(a.name) for a in n.type.args]
        ret = ty(t.return_type)
        swallow = ret is not None and not t.exception_check and t.exception_value is None
        copies = [(p, ty(a.type)) for p, a in zip(params, t.args)]

        def body():
            if swallow:
                self.w('try:')
                self.ind += 1
            for p, pt in copies:
                if classy(pt) and not [a for a in t.args if a.name == p and a.type.is_reference]:
                    self.w('%s = %scopy(%s)' % (p, R, p))
            self.scope_locals(n, params)
            self.s(n.body)
            self.w('pass')
            if swallow:
                self.ind -= 1
                self.w('except Exception as __e:')
                self.w('    return %sunraisable(__e, %r)' % (R, ret))
        self.function(n, name, params, 'def %s(%s):' % (name, ', '.join(params)), body)

    def s_CClassDefNode(self, n):
        base = 'object'
        bt = n.entry.type.base_type
        if bt is not None:
            base = str(bt.name)
        self.w('class %s(%s):' % (n.class_name, base))
        self.block(n.body)

    def s_PyClassDefNode(self, n):
        raise No('class %s' % n.name)


def find_cfuncs(n, out):
    if kind(n) == 'CFuncDefNode':
        out[str(n.entry.name)] = n
    for a in n.child_attrs or ():
        c = getattr(n, a, None)
        if isinstance(c, list):
            for x in c:
                find_cfuncs(x, out)
        elif c is not None and hasattr(c, 'child_attrs'):
            find_cfuncs(c, out)


def main(path, full, root):
    opts = CompilationOptions(default_options, language_level=3, cplus=1, include_path=[root])
    ctx = opts.create_context()
    src = CompilationSource(FileSourceDescriptor(path), full, root)
    res = create_default_resultobj(src, opts)
    pl = Pipeline.create_pyx_pipeline(ctx, opts, res)
    names = [p.__class__.__name__ for p in pl]
    cut = names.index('AnalyseExpressionsTransform')
    pl = [p for p in pl[:cut + 1] if p.__class__.__name__ != 'FlattenInListTransform']
    err, tree = Pipeline.run_pipeline(pl, src)
    if err:
        raise err
    m = Emit()
    m.boundscheck = tree.directives.get('boundscheck', True)
    find_cfuncs(tree, m.cfuncs)
    body = tree.body
    stats = []

    def flat(x):
        if kind(x) == 'StatListNode':
            for y in x.stats:
                flat(y)
        elif kind(x) == 'CompilerDirectivesNode':
            flat(x.body)
        else:
            stats.append(x)
    flat(body)
    for x in stats:
        k = len(m.out)
        try:
            m.ind = 0
            m.s(x)
        except No as err:
            del m.out[k:]
            m.w('%sunsupported(%r)' % (R, 'accelerator module: %s' % err))
    return '\n'.join(m.out) + '\n'


if __name__ == '__main__':
    text = main(*sys.argv[1:4])
    sys.stdout.write(text)
