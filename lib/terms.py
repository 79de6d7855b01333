"""Evaluation of abstract values and path conditions for chosen atom values, and
a canonical text of the generator-level values."""
import json, os
from flow import *
from facts import VERIF


def evalt(t, atom):
    """Value of a term: atom(t) gives the values of the atoms (None: unknown)."""
    v = atom(t)
    if v is not None:
        return v
    k = t[0]
    if k == 'c':
        c = t[1]
        if c in ('true', 'false'):
            return c == 'true'
        try:
            return int(c)
        except ValueError:
            return None
    if k == 'enum':
        try:
            return int(t[2])
        except ValueError:
            return None
    if k == 'as':
        return evalt(t[2], atom)
    if k == 'not':
        v = evalt(t[1], atom)
        return None if v is None else (not v)
    if k in ('and', 'or'):
        a, b = evalt(t[1], atom), evalt(t[2], atom)
        if k == 'and':
            if a is not None and not a or b is not None and not b:
                return False
            return None if a is None or b is None else True
        if a or b:
            return True
        return None if a is None or b is None else False
    if k == 'eq':
        a, b = evalt(t[1], atom), evalt(t[2], atom)
        return None if a is None or b is None else a == b
    if k == 'lt':
        a, b = evalt(t[1], atom), evalt(t[2], atom)
        return None if a is None or b is None or isinstance(a, tuple) else a < b
    if k == 'cond':
        c = evalt(t[1], atom)
        return None if c is None else evalt(t[2] if c else t[3], atom)
    if k == 'bin':
        a, b = evalt(t[2], atom), evalt(t[3], atom)
        if a is None or b is None or isinstance(a, tuple):
            return None
        try:
            op = t[1]
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b,
                    '&': lambda: a & b, '|': lambda: a | b, '<<': lambda: a << b, '>>': lambda: a >> b,
                    '^': lambda: a ^ b}[op]()
        except (KeyError, ZeroDivisionError):
            return None
    if k == 'inc' or k == 'dec':
        a = evalt(t[1], atom)
        return None if a is None else a + (1 if k == 'inc' else -1)
    return None


def consistent(facts, atom):
    for p, v in facts.items():
        x = evalt(p, atom)
        if x is not None and bool(x) != bool(v):
            return False
    return True


class PathIndex:
    """Fast selection among many paths: the paths each fact is on, as bit sets."""

    def __init__(self, outs):
        self.outs = outs
        self.on = {}
        for i, o in enumerate(outs):
            for p, v in o.facts.items():
                k = (p, bool(v))
                self.on[k] = self.on.get(k, 0) | 1 << i
        terms = {}
        for (p, v), bits in self.on.items():
            terms.setdefault(p, {})[v] = bits
        self.terms = list(terms.items())
        self.all = (1 << len(outs)) - 1

    def select(self, atom):
        left = self.all
        for p, by in self.terms:
            if not any(b & left for b in by.values()):
                continue
            x = evalt(p, atom)
            if x is not None:
                left &= ~by.get(not x, 0)
                if not left:
                    return []
        return [self.outs[i] for i in range(len(self.outs)) if left >> i & 1]


def select(outs, atom):
    return [o for o in outs if consistent(o.facts, atom)]


def callargs(t):
    return t[2]


_names = []


def param_names(fn):
    """The names the parameters of a function have in the base revision (a
    parameter may be renamed without changing anything)."""
    if not _names:
        _names.append(json.load(open(os.path.join(VERIF, 'lib', 'baseline_params.json'))))
    now = [p['d'].split('#')[0] for p in fn.params]
    for old in _names[0].get(fn.q, ()):
        if len(old) == len(now):
            return old
    return now


class EgNorm:
    """Canonical text of the values the generators hand around.
    T0, V0, T1, V1: the operand types and values of an operator helper;
    val(x)/ref(x): x after automatic dereferencing; cast(v:A>B); tg(T)."""

    def __init__(self, fn, roles=None):
        self.names = {}
        base = param_names(fn)
        # parameters that are known to be types
        self.typeparams = {('v', p['d'], 0) for p in fn.params if 'Ast::Type *' in p.get('t', '')}
        for i, p in enumerate(fn.params):
            self.names[('v', p['d'], 0)] = (roles or {}).get(i, base[i])

    def t(self, t, d=0):
        if d > 40:
            return '..'
        if t in self.names:
            return self.names[t]
        k = t[0]
        T = lambda x: self.t(x, d + 1)
        if k == 'as':
            return T(t[2])
        if k in ('addr', 'deref'):
            return T(t[1])
        if k == 'c':
            return {'true': '1', 'false': '0'}.get(t[1], t[1])
        if k == 's':
            return '"%s"' % t[1]
        if k == 'this':
            return 'self'
        if k == 'enum':
            return t[1].split('::')[-1]
        if k in ('g', 'fn'):
            return t[1].split('::')[-1]
        if k == 'f':
            b = t[1]
            fld = t[2].split('::')[-1]
            if b[0] == 'out' and b[1][0] == 'call':
                c = b[1]
                n = c[1].split('::')[-1]
                a = c[2]
                if n == 'dereferenceIfNeeded' and len(a) >= 5:
                    flags = (T(a[3]), T(a[4]))
                    w = {('1', '0'): 'val', ('0', '0'): 'ref', ('0', '1'): 'iref', ('1', '1'): 'ival'}.get(flags, '?')
                    return '%s(%s)' % (w, T(a[1] if fld == 'astType' else a[2]))
                if n == 'generateCast' and len(a) >= 7:
                    src, dst, v = T(a[2]), T(a[3]), T(a[5])
                    if fld == 'astType':
                        return dst
                    if src == dst:
                        return v
                    return 'cast%s(%s:%s>%s)' % ('' if T(a[6]) == '0' else '!', v, src, dst)
                return '%s.%s' % (T(b), fld)
            return T(b) + '.' + fld
        if k == 'out':
            c = t[1]
            if c[0] == 'call':
                n = c[1].split('::')[-1]
                a = c[2]
                if n == 'getGeneratedType' and len(a) >= 2:
                    if t[2] == len(a) - 2 and len(a) >= 5:
                        return T(a[1]) if a[1] in self.typeparams else 'astTypeOf(%s)' % T(a[1])
                    return 'tg(%s)' % T(a[1])
                if n == 'castLogicalOperand' and len(a) >= 6:
                    return 'bool(%s:%s)' % (T(a[5]), T(a[4]))
                return 'out%s(%s)' % (t[2], self.call(c, d))
            return 'out'
        if k == 'call':
            return self.call(t, d)
        if k == 'not':
            return '!' + T(t[1])
        if k == 'lt':
            return '(%s<%s)' % (T(t[1]), T(t[2]))
        if k == 'eq':
            return '(%s==%s)' % tuple(sorted((T(t[1]), T(t[2]))))
        if k in ('and', 'or'):
            return '(%s %s %s)' % (T(t[1]), k, T(t[2]))
        if k == 'cond':
            return '(%s?%s:%s)' % (T(t[1]), T(t[2]), T(t[3]))
        if k == 'bin':
            return '(%s%s%s)' % (T(t[2]), t[1], T(t[3]))
        if k == 'isa':
            return 'isa<%s>(%s)' % (t[1].split('::')[-1], T(t[2]))
        if k == 'v':
            return '_'
        if k in ('obj', 'new'):
            return '%s(%s)' % (t[1].split('::')[-1], ','.join(T(x) for x in t[2]))
        if k == 'init':
            return '[%s]' % ','.join(T(x) for x in t[1])
        return show(t)

    def call(self, t, d=0):
        n = t[1].split('::')[-1]
        a = t[2]
        T = lambda x: self.t(x, d + 1)
        if n in ('get', 'getElement') and len(a) == 2 and a[1][0] == 'c':
            b = T(a[0])
            i = T(a[1])
            if b in ('Ts', 'Vs'):
                return b[0] + i
            return '%s[%s]' % (b, i)
        if n == 'getCodeGenData' and len(a) >= 2:
            return 'tg(%s)' % T(a[-1])
        if n == 'getSharedPtr' and len(a) == 1:
            return T(a[0])
        if n == 'getTgContext':
            return 'ctx' if T(a[0]) == 'session' else 'ctx(%s)' % T(a[0])
        if n == 'getBitCount' and a:
            return 'bits(%s)' % T(a[0])
        if n in ('getBoolType', 'getIntType', 'getWordType', 'getFloatType', 'getCharType', 'getVoidType', 'getInt64Type',
                 'getWord64Type') and a:
            return n[3:-4].lower() + '(%s)' % ','.join(T(x) for x in a[1:])
        if len(a) == 1 and n.startswith(('get', 'is', 'has')):
            return T(a[0]) + '.' + n
        return '%s(%s)' % (n, ','.join(T(x) for x in a))


import re

KINDS = {'i': 'IntegerType', 'w': 'IntegerType', 'n': 'IntegerType', 'f': 'FloatType', 'p': 'PointerType', 'a': 'ArrayType',
         'u': 'UserType', 'r': 'ReferenceType', 'v': 'VoidType'}


def ty_bits(t):
    return int(t[1:])


class CaseNorm(EgNorm):
    """EgNorm for one choice of operand types.  types: canonical text of a type
    value -> type token ('i32' signed, 'w8' unsigned, 'n1'.. null literal,
    'f64', 'p1', 'a1', 'u1', 'v'); equal tokens are equal types."""

    def __init__(self, fn, roles, types, extra=None):
        EgNorm.__init__(self, fn, roles)
        self.types = types
        self.extra = extra or {}
        self.cache = {}

    def t(self, t, d=0):
        if d > 40:
            return '..'
        k = t[0]
        if k == 'cond':
            v = evalt(t[1], self.atom)
            if v is not None:
                return self.t(t[2] if v else t[3], d + 1)
        if k in ('bin', 'inc', 'dec', 'un'):
            v = evalt(t, self.atom)
            if v is not None and not isinstance(v, (bool, tuple)):
                return str(v)
        r = self.cache.get(t)
        if r is None:
            r = EgNorm.t(self, t, d)
            if r in self.types:
                r = self.types[r]
            else:
                m = re.match(r'^(int|word|float)\((\d+)\)$', r)
                if m:
                    r = m.group(1)[0] + m.group(2)
                elif r == 'bool()':
                    r = 'w1'
                else:
                    m = re.match(r'^bits\(([a-z])(\d+)\)$', r)
                    if m:
                        r = m.group(2)
            self.cache[t] = r
        return r

    def atom(self, t):
        """Truth/number of the atoms this case fixes."""
        k = t[0]
        if k not in ('isa', 'call', 'f', 'out', 'v', 'eq', 'idx', 'deref'):
            return None
        s = self.t(t)
        if s in self.extra:
            return self.extra[s]
        if s.isdigit():
            return int(s)
        m = re.match(r'^isa<(\w+)>\(([a-z])\d+\)$', s)
        if m:
            c = m.group(1)
            if c == 'Type' or c == 'Node':
                return True
            if c in ('DataType',):
                return None
            return KINDS.get(m.group(2)) == c
        m = re.match(r'^([a-z])(\d+)\.(isSigned|isNullLiteral)$', s)
        if m:
            if m.group(3) == 'isSigned':
                return m.group(1) in 'in'
            return m.group(1) == 'n'
        m = re.match(r'^\((\w\d+)==(\w\d+)\)$', s)
        if m:
            return m.group(1) == m.group(2)
        return None
