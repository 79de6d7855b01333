"""Path-sensitive dataflow over the extracted control flow graphs.

A function is walked over its control flow graph with an abstract state made of
  env    local variable -> abstract value
  heap   access path    -> abstract value
  facts  predicate over abstract values -> truth value (finite: the branch
         conditions met so far; no arithmetic reasoning and no solver)
  events the rule-relevant calls and writes met so far, in order
Branches whose predicate is already decided follow one side only; loops are
followed a bounded number of times; callees a rule asks for are walked in place
(so a rule does not depend on whether code sits in a function or in a helper it
was moved to).  The result of a walk is the set of (events, facts, return value)
of the ways through the function.
"""
import os, sys
from facts import Broken, CALLS, VERIF

sys.setrecursionlimit(20000)

IDENTITY_MEMBERS = {'get', 'operator->', 'operator*', 's_cast_get', 'getSharedPtr'}
SMART = ('SharedPtr', 'WeakPtr', 'SrdRef', 'WkRef', 'UnqPtr', 'Srl::SrdRef', 'Srl::WkRef', 'UniquePtr', 'unique_ptr',
         'shared_ptr', 'PlainPtr')


def is_smart(cls):
    if not cls:
        return False
    return cls.split('::')[-1] in ('SharedPtr', 'WeakPtr', 'SrdRef', 'WkRef', 'UnqRef', 'UniquePtr', 'unique_ptr',
                                   'shared_ptr', 'BindingCache')


def C(v):
    return ('c', v)


ZERO = C('0')
NULL = ZERO
TRUE = C('true')
FALSE = C('false')


def strip_as(t):
    while t[0] == 'as':
        t = t[2]
    return t


def const_of(t):
    if t[0] == 'c':
        return t[1]
    if t[0] == 'enum':
        return t[2]
    return None


def is_zero(t):
    return t[0] == 'c' and t[1] in ('0', 'null', 'false')


class Ev:
    __slots__ = ('kind', 'name', 'obj', 'args', 'res', 'fn', 'node', 'x')

    def __init__(self, kind, name, obj, args, res, fn, node, x=None):
        self.kind = kind
        self.name = name
        self.obj = obj
        self.args = args
        self.res = res
        self.fn = fn
        self.node = node
        self.x = x

    def key(self):
        return (self.kind, self.name, self.obj, self.args)

    def loc(self):
        return self.fn.loc(self.node)

    def __repr__(self):
        return '%s %s(%s)%s' % (self.kind, self.name, ', '.join(show(a) for a in self.args),
                                ' on ' + show(self.obj) if self.obj else '')


def show(t, d=0):
    if t is None:
        return '-'
    if not isinstance(t, tuple):
        return str(t)
    if d > 6:
        return '..'
    if not t:
        return '()'
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if k == 'new':
        return 'new ' + t[1].split('::')[-1] + show(t[2], d + 1)
    if k == 'obj':
        return t[1].split('::')[-1] + '#%d' % t[3]
    if k == 'c':
        return repr(t[1])
    if k == 'v':
        return t[1].split('#')[0]
    if k == 'g' or k == 'fn':
        return t[1].split('::')[-1]
    if k == 'enum':
        return t[1].split('::')[-1]
    if k == 'this':
        return 'this'
    if k == 'f':
        return show(t[1], d + 1) + '.' + t[2].split('::')[-1]
    if k == 'call':
        return t[1].split('::')[-1] + '(' + ', '.join(show(x, d + 1) for x in t[2]) + ')'
    if k == 'as':
        return show(t[2], d + 1)
    if k == 'isa':
        return 'isa<%s>(%s)' % (t[1].split('::')[-1], show(t[2], d + 1))
    return k + '(' + ', '.join(show(x, d + 1) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


class State:
    __slots__ = ('env', 'heap', 'facts', 'events', 'typ')

    def __init__(self, env=None, heap=None, facts=None, events=(), typ=None):
        self.env = env or {}
        self.heap = heap or {}
        self.facts = facts or {}
        self.events = events
        self.typ = typ

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.events, self.typ)


class Outcome:
    __slots__ = ('kind', 'ret', 'state', 'fn', 'node')

    def __init__(self, kind, ret, state, fn, node):
        self.kind = kind      # 'return' or 'throw'
        self.ret = ret
        self.state = state
        self.fn = fn
        self.node = node

    @property
    def events(self):
        return self.state.events

    @property
    def facts(self):
        return self.state.facts


_base = []


def baseline_functions():
    if not _base:
        _base.append(set(open(os.path.join(VERIF, 'lib', 'baseline_functions.txt')).read().split('\n')))
    return _base[0]


class Config:
    """What a rule wants from the walk.

    event(name, node, fn) -> truthy when the call is to be recorded
    inline(callee Fn, name) -> walk the callee in place
    pure(name) -> equal arguments give equal results
    """
    max_paths = 60000
    keep = ()               # names never walked in place
    loop_bound = 2
    inline_depth = 5
    record_writes = False
    record_updates = False
    track_locals = True
    value_classes = ()      # classes whose objects are fixed by their constructor arguments
    copies = ()             # plain structures of which copies are objects of their own

    def event(self, name, node, fn):
        return False

    def inline(self, callee, name, node):
        return False

    def target(self, w, st, callee, node, own):
        """The function that a call of a virtual function reaches."""
        return callee

    def stop(self, name, node):
        """Return 'throw' for calls that never return."""
        return None

    def pure(self, name, node):
        n = name.split('::')[-1]
        return n.startswith(('get', 'is', 'has', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator&',
                             'operator|', 'find', 'S', 'toString', 'traceType')) or n in ('count', 'size', 'empty', 'c_str')

    def on_call(self, w, st, name, node, obj, args, res):
        """Hook: may update st.facts / st.typ."""
        return

    def on_return(self, w, st, fn, node):
        return

    def unchanged(self, name, ai):
        """Hook: the call leaves the object given as this argument as it was."""
        return False

    def moved(self, v, src, dst):
        """Hook: the value of a field of a copied structure."""
        return v

    def global_value(self, w, name):
        """Hook: the value of a variable that is no local one."""
        return None

    def decide(self, p):
        """Hook: the truth of a predicate in the situation the walk is about."""
        return None

    def call_value(self, w, st, name, node, obj, args):
        """Hook: a rule may give a call's value."""
        return None


_counters = {}
POSITIONAL = ('<', '>', '<=', '>=', '==', '!=', '%', '&')


def counters(fn):
    """local variables a function counts with"""
    r = _counters.get(fn.u)
    if r is None:
        r = set()
        for i, n in fn.walk():
            if (n['k'] == 'UnaryOperator' and n['op'] in ('++', '--') or n['k'] == 'CompoundAssign') and n['c']:
                m = fn.nodes[n['c'][0]]
                while m['k'] == 'Cast' and m['c']:
                    m = fn.nodes[m['c'][0]]
                if m['k'] == 'DeclRefExpr' and m.get('dk') in ('local', 'param'):
                    r.add(m['d'])
        _counters[fn.u] = r
    return r


class Walk:
    def __init__(self, prog, cfg):
        self.prog = prog
        self.cfg = cfg
        self.uniq = 0
        self.npaths = 0
        self.visited_fns = set()
        self.nsteps = 0

    # ------------------------------------------------------------ calls ----
    def callee_name(self, fn, n):
        """Qualified name of the called operation.  A call through a binding
        cache is named after the field that holds it."""
        if n['k'] == 'OpCall' and n.get('op') == '()' and n['c']:
            o = fn.nodes[n['c'][0]]
            while o['k'] in ('Cast',) and o['c']:
                o = fn.nodes[o['c'][0]]
            if o['k'] == 'MemberExpr' and o.get('dk') == 'field':
                return o['d'], o['c'][0] if o['c'] else None, n['c'][1:]
            return n.get('fn', '?'), n['c'][0], n['c'][1:]
        if n['k'] == 'MCall':
            return n.get('fn', '?'), n['c'][0], n['c'][1:]
        if n['k'] == 'OpCall':
            if n.get('cls'):
                return n.get('fn', '?'), n['c'][0], n['c'][1:]
            return n.get('fn', '?'), None, n['c']
        if n['k'] == 'ICall':
            return '?indirect', n['c'][0] if n['c'] else None, n['c'][1:]
        return n.get('fn', '?'), None, n['c']

    @staticmethod
    def through(fn, n, objn, obj):
        """The object of p->f(), however it is written: (*p).f(), or r.f() with a reference r to *p."""
        while n['k'] == 'MCall' and obj is not None and obj[0] == 'deref' and not fn.nodes[objn].get('t', '*').rstrip().endswith(('*', '*const')):
            obj = strip_as(obj[1])
        return obj

    # ------------------------------------------------------- evaluation ----
    def ev(self, st, fr, i):
        if i is None or i < 0:
            return C('?none')
        if i in fr.memo:
            return fr.memo[i]
        return self.compute(st, fr, i)

    def fresh(self, what):
        self.uniq += 1
        return ('u', what, self.uniq)

    def lookup(self, st, t):
        return st.heap.get(t, t)

    def compute(self, st, fr, i):
        fn = fr.fn
        n = fn.nodes[i]
        k = n['k']
        if k == 'DeclRefExpr':
            dk = n.get('dk')
            if dk in ('local', 'param'):
                return st.env.get((fr.id, n['d']), ('v', n['d'], fr.id))
            if dk == 'enum':
                return ('enum', n['d'], n['v'])
            if dk == 'func':
                return ('fn', n['d'])
            return self.cfg.global_value(self, n['d']) or ('g', n['d'])
        if k in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral', 'FloatingLiteral'):
            if k == 'FloatingLiteral' and n.get('t') == 'float':
                return C(n['v'] + 'f')
            return C(n['v'])
        if k == 'StringLiteral':
            return ('s', n['v'])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            return ZERO
        if k == 'CXXThisExpr':
            return fr.this
        if k == 'MemberExpr':
            base = self.ev(st, fr, n['c'][0]) if n['c'] else fr.this
            base = strip_as(base)
            if n.get('dk') == 'func':
                return ('mfn', n['d'], base)
            if n.get('dk') == 'global':
                return ('g', n['d'])
            return self.lookup(st, ('f', base, n.get('d', n.get('n'))))
        if k == 'Cast':
            v = self.ev(st, fr, n['c'][0]) if n['c'] else C('?')
            if v[0] == 'c' and n.get('t') in ('float', 'double') and v[1].lstrip('-').isdigit():
                return C(v[1] + ('f' if n['t'] == 'float' else '.0'))
            return v
        if k == 'UnaryExprOrTypeTraitExpr':
            return ('sizeof', n.get('at', ''))
        if k == 'UnaryOperator':
            a = self.ev(st, fr, n['c'][0])
            op = n['op']
            if op == '!':
                return neg(a)
            if op in ('&', '*', '__extension__', '+'):
                if op == '&':
                    return ('addr', a) if a[0] not in ('fn', 'mfn') else a
                if a[0] == 'addr':
                    return a[1]
                if op == '*' and unstr(a)[0] == 's' and unstr(a)[1]:
                    return C(str(ord(unstr(a)[1][0])))
                return a if op != '*' else ('deref', a)
            if op in ('++', '--'):
                new = ('inc' if op == '++' else 'dec', a)
                if a[0] == 'c':
                    try:
                        new = C(str(int(a[1]) + (1 if op == '++' else -1)))
                    except ValueError:
                        pass
                self.assign(st, fr, n['c'][0], new, i)
                return a if n.get('post') else new
            if op == '-' and a[0] == 'c':
                return C('-' + a[1])
            return ('un', op, a)
        if k == 'BinaryOperator':
            op = n['op']
            if op == '=':
                v = self.ev(st, fr, n['c'][1])
                self.assign(st, fr, n['c'][0], v, i)
                return v
            if op == ',':
                self.ev(st, fr, n['c'][0])
                return self.ev(st, fr, n['c'][1])
            a = self.ev(st, fr, n['c'][0])
            if op in ('&&', '||'):
                ta = self.truth(st, a)
                if ta is not None:
                    if op == '&&':
                        return FALSE if ta is False else self.ev(st, fr, n['c'][1])
                    return TRUE if ta is True else self.ev(st, fr, n['c'][1])
                b = self.ev(st, fr, n['c'][1])
                return ('and' if op == '&&' else 'or', a, b)
            b = self.ev(st, fr, n['c'][1])
            if op in POSITIONAL:
                a, b = self.positional(fn, n['c'][0], a, n['c'][1], b)
            return binop(op, a, b)
        if k == 'CompoundAssign':
            a = self.ev(st, fr, n['c'][0])
            b = self.ev(st, fr, n['c'][1])
            v = binop(n['op'][:-1], a, b)
            self.assign(st, fr, n['c'][0], v, i)
            return v
        if k in ('ConditionalOperator', 'BinaryConditionalOperator'):
            c = self.ev(st, fr, n['c'][0])
            t = self.truth(st, c)
            if t is True:
                return self.ev(st, fr, n['c'][1])
            if t is False:
                return self.ev(st, fr, n['c'][2])
            return ('cond', c, self.ev(st, fr, n['c'][1]), self.ev(st, fr, n['c'][2]))
        if k == 'DeclStmt':
            for v in n['vars']:
                if v.get('static'):
                    continue
                val = self.ev(st, fr, v['i']) if v['i'] >= 0 else ('v', v['d'], fr.id)
                if self.cfg.copies and v['t'].replace('const ', '').strip() in self.cfg.copies:
                    cls = v['t'].replace('const ', '').strip()
                    base = ('v', v['d'], fr.id)
                    st.env.pop((fr.id, v['d']), None)
                    self.copyobj(st, base, strip_as(val) if v['i'] >= 0 and val != base and val[0] != 'new' else None, cls)
                    continue
                if v['i'] >= 0:
                    st.env[(fr.id, v['d'])] = self.bindval(fr, v, val)
                else:
                    st.env.pop((fr.id, v['d']), None)
                    # forget what was known about an earlier incarnation
                    base = ('v', v['d'], fr.id)
                    for key in [x for x in st.heap if x[0] == 'f' and x[1] == base]:
                        del st.heap[key]
            return C('decl')
        if k == 'Construct':
            args = [self.ev(st, fr, c) for c in n['c']]
            if n.get('copy') and len(args) >= 1:
                return args[0]
            if is_smart(n.get('cls')) and len(args) >= 1:
                return args[0]
            if is_smart(n.get('cls')) and not args:
                return ZERO
            cls = n['cls']
            if len(args) == 1 and args[0][0] == 'enum':
                return args[0]
            return ('new', cls, tuple(args), self.site(fr, i) if not args else 0)
        if k == 'CXXNewExpr':
            a = ()
            if n['c'] and fn.nodes[n['c'][-1]]['k'] == 'Construct':
                a = tuple(self.ev(st, fr, c) for c in fn.nodes[n['c'][-1]]['c'])
            self.uniq += 1
            return ('new', n['ty'], a, self.site(fr, i) + (self.uniq,))
        if k == 'InitListExpr':
            return ('init', tuple(self.ev(st, fr, c) for c in n['c']))
        if k == 'LambdaExpr':
            return ('lam', n['lam'], fr.id)
        if k == 'ArraySubscriptExpr':
            a, b = unstr(self.ev(st, fr, n['c'][0])), self.ev(st, fr, n['c'][1])
            if a[0] == 's' and b[0] == 'c' and b[1].isdigit() and int(b[1]) <= len(a[1]):
                return C(str(ord((a[1] + '\0')[int(b[1])])))
            return self.lookup(st, ('idx', a, b))
        if k in CALLS:
            return self.call(st, fr, i, n)
        if k == 'ReturnStmt':
            return self.ev(st, fr, n['c'][0]) if n['c'] else C('void')
        if k == 'PredefinedExpr':
            return ('s', '__func__')
        if len(n['c']) == 1:
            return self.ev(st, fr, n['c'][0])
        return ('node', k, tuple(self.ev(st, fr, c) for c in n['c'][:4]))

    def positional(self, fn, i, a, j, b):
        """Loops are taken to a few rounds only.  Where the code compares its
        round counter with a literal beyond them, both answers are explored, so
        that what it does in later rounds is seen too."""
        if a[0] != 'c' or b[0] != 'c':
            return a, b
        x, y = fn.nodes[i], fn.nodes[j]
        while x['k'] == 'Cast' and x['c']:
            x = fn.nodes[x['c'][0]]
        while y['k'] == 'Cast' and y['c']:
            y = fn.nodes[y['c'][0]]
        if x['k'] == 'IntegerLiteral' and y['k'] == 'DeclRefExpr':
            b, a = self.positional(fn, j, b, i, a)
            return a, b
        if x['k'] != 'DeclRefExpr' or y['k'] != 'IntegerLiteral' or not b[1].isdigit() or int(b[1]) < self.cfg.loop_bound:
            return a, b
        if x.get('d') in counters(fn):
            a = ('call', 'positionOf', (a,))
        return a, b

    def copyobj(self, st, dst, src, cls):
        """dst becomes a copy of src (None: a default one)."""
        vals = {}
        ctor = next((f for f in self.prog.byq.get(cls + '::' + cls.split('::')[-1], ()) if not f.params), None)
        for q in [cls] + sorted(self.prog.bases(cls)):
            c = self.prog.classes.get(q)
            for f in c['fields'] if c else ():
                if f.get('static'):
                    continue
                name = c['q'] + '::' + f['n']
                vals[name] = self.lookup(st, ('f', src, name)) if src is not None else self.default(f)
        if src is None and ctor is not None:
            for x in ctor.o.get('inits') or ():
                v = self.default({'nodes': ctor.nodes, 'init': x['i'], 't': ''}) if x.get('m') and x.get('i', -1) >= 0 else None
                if v is not None:
                    vals[x['m']] = v
        for name, v in vals.items():
            if v is None:
                st.heap.pop(('f', dst, name), None)
            else:
                st.heap[('f', dst, name)] = self.cfg.moved(v, src, dst)

    def default(self, f):
        if 'nodes' in f:
            n = f['nodes'][f['init']]
            while n['k'] in ('Construct', 'Cast') and n['c']:
                n = f['nodes'][n['c'][0]]
            if n['k'] in ('UnaryOperator', 'UnOp', 'Un') and n.get('op') == '-' and 'v' in f['nodes'][n['c'][0]]:
                return C('-' + f['nodes'][n['c'][0]]['v'])
            if n['k'] == 'DeclRefExpr' and n.get('dk') == 'enum':
                return ('enum', n['d'], n['v'])
            return C(n['v']) if 'v' in n else None
        if is_smart(f['t'].replace('const ', '').split('<')[0].strip()):
            return ZERO
        return None

    def bindval(self, fr, v, val):
        t = v['t']
        if val == ('v', v['d'], fr.id):
            return val
        # an object constructed without arguments is its own identity
        if val[0] == 'new' and not t.rstrip().endswith('*'):
            if val[1] in self.cfg.value_classes or len(val[2]) == 1 and val[1].split('::')[-1] in BOXES:
                return val
            return ('v', v['d'], fr.id)
        return val

    def site(self, fr, i):
        return (fr.fn.u, i)

    def assign(self, st, fr, lhs, v, at):
        fn = fr.fn
        n = fn.nodes[lhs]
        while n['k'] == 'Cast' and n['c']:
            lhs = n['c'][0]
            n = fn.nodes[lhs]
        if n['k'] == 'DeclRefExpr' and n.get('dk') in ('local', 'param'):
            key = (fr.id, n['d'])
            cur = st.env.get(key)
            if cur is not None and cur[0] == 'ref':
                self.write(st, cur[1], v, fr, at)
            else:
                # assigning a whole object forgets its fields
                base = ('v', n['d'], fr.id)
                st.env[key] = v
                for hk in [x for x in st.heap if x[0] == 'f' and x[1] == base]:
                    del st.heap[hk]
                if fr.refs.get(n['d']) is not None:
                    self.write(st, fr.refs[n['d']], v, fr, at)
        elif n['k'] == 'MemberExpr':
            base = strip_as(self.ev(st, fr, n['c'][0])) if n['c'] else fr.this
            self.write(st, ('f', base, n.get('d', n.get('n'))), v, fr, at)
        elif n['k'] == 'DeclRefExpr':
            self.write(st, ('g', n.get('d', '?')), v, fr, at)
        elif n['k'] == 'UnaryOperator' and n['op'] == '*':
            a = self.ev(st, fr, n['c'][0])
            self.write(st, a[1] if a[0] == 'addr' else ('deref', a), v, fr, at)
        elif n['k'] == 'ArraySubscriptExpr':
            self.write(st, ('idx', self.ev(st, fr, n['c'][0]), self.ev(st, fr, n['c'][1])), v, fr, at)
        elif self.cfg.record_updates:
            st.events = st.events + (Ev('update', 'update', None, (v,), None, fr.fn, at),)

    def write(self, st, path, v, fr, at):
        if path[0] == 'v':
            st.env[(path[2], path[1])] = v
        else:
            st.heap[path] = v
            for key in [x for x in st.heap if x[0] == 'f' and x[1] == path]:
                del st.heap[key]
        if self.cfg.record_writes:
            st.events = st.events + (Ev('write', path[2] if path[0] == 'f' else str(path[1]),
                                        path[1] if path[0] == 'f' else None, (v,), None, fr.fn, at),)

    def call(self, st, fr, i, n):
        fn = fr.fn
        name, objn, argn = self.callee_name(fn, n)
        obj = strip_as(self.ev(st, fr, objn)) if objn is not None and objn >= 0 else None
        obj = self.through(fn, n, objn, obj)
        args = tuple(self.ev(st, fr, a) for a in argn)
        short = name.split('::')[-1]
        # identities
        if n['k'] == 'MCall' and is_smart(n.get('cls')) and short in ('get', 's_cast_get', 'operator->', 'operator*', 'ti_cast_get', 's_cast', 'lock'):
            if short == 'ti_cast_get':
                return ('as', n.get('ta', '').split(',')[0], obj)
            return obj
        if n['k'] == 'OpCall' and n.get('op') in ('->', '*') and len(n['c']) == 1:
            return obj if obj is not None else args[0]
        if n['k'] == 'OpCall' and n.get('op') == '!' and len(n['c']) == 1:
            return neg(obj if obj is not None else args[0])
        if short.startswith('operator ') and n['k'] == 'MCall' and not args:
            # conversion operator
            if fn.nodes[objn].get('t', '').split('::')[-1].startswith(('SharedPtr', 'WeakPtr', 'SrdRef', 'Str', 'TiStr')) or True:
                return obj
        if self.cfg.copies and n['k'] == 'OpCall' and n.get('op') == '=' and n.get('cls') in self.cfg.copies and obj is not None and len(args) >= 1:
            self.copyobj(st, obj, None if args[-1][0] == 'new' else strip_as(args[-1]), n['cls'])
            if self.cfg.event(name, n, fn):
                st.events = st.events + (Ev('call', name, obj, args, obj, fn, i),)
            return obj
        if self.cfg.copies and short == 'reset' and not args and objn is not None and objn >= 0 and is_smart(n.get('cls')):
            self.assign(st, fr, objn, ZERO, i)
            return ZERO
        if n['k'] == 'OpCall' and n.get('op') == '=' and len(n['c']) == 2 and n['c'][0] >= 0:
            v = self.ev(st, fr, n['c'][1])
            self.assign(st, fr, n['c'][0], v, i)
            if self.cfg.event(name, n, fn):
                st.events = st.events + (Ev('call', name, obj, args, v, fn, i),)
            return v
        if short in ('getSharedPtr', 'getWeakPtr') and args or short in ('move', 'forward', 'addressof') and len(args) == 1:
            return args[0]
        if short in ('ti_cast', 's_ti_cast', 'tii_cast') and len(args) == 1:
            return ('as', n.get('ta', '').split(',')[0], args[0])
        if n['k'] == 'OpCall' and n.get('op') in ('|=', '&=') and n.get('cls') and objn is not None and objn >= 0 and len(args) == 1:
            v = binop(n['op'][0], obj, args[0])
            self.assign(st, fr, objn, v, i)
            return v
        if n['k'] == 'OpCall' and n.get('op') == '+=' and objn is not None and objn >= 0 and len(args) == 1 and name.split('::')[-2:-1] and \
                name.split('::')[-2].split('<')[0] in STRCLS:
            a, b = unstr(obj), unstr(args[0])
            if a[0] == 's' and b[0] in ('s', 'c'):
                v = ('s', a[1] + b[1])
            else:
                v = ('bin', '+', a, b)
            self.assign(st, fr, objn, v, i)
            return v
        if n['k'] == 'OpCall' and n.get('op') in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '&', '|') :
            a = args if obj is None else (obj,) + args
            if len(a) == 2:
                v = binop(n['op'], a[0], a[1])
                return v
        if short in ('isDerivedFrom', 'isA') and obj is not None and not args and n.get('ta'):
            return ('isa', n['ta'].split(',')[0], strip_as(obj))
        if short in ('tii_cast',):
            pass
        if obj is not None and unstr(obj)[0] == 's' and not args:
            if short in ('get', 'getBuf', 'getStr', 'c_str', 'data'):
                return unstr(obj)
            if short in ('getLength', 'size', 'length', 'getCount'):
                return C(str(len(unstr(obj)[1])))
        cv = self.cfg.call_value(self, st, name, n, obj, args)
        if cv is None and short == 'newSrdObj' and n.get('ta'):
            cv = self.newobj(st, n['ta'].split(',')[0].strip(), args)
        if cv is not None:
            res = cv
        elif self.cfg.pure(name, n):
            res = ('call', name, ((obj,) if obj is not None else ()) + args)
            if n.get('ta'):
                res = res + (n['ta'],)
            res = self.lookup(st, res)
        else:
            self.uniq += 1
            res = ('call', name, ((obj,) if obj is not None else ()) + args, ('#', i, fr.id, self.uniq))
        if self.cfg.event(name, n, fn):
            st.events = st.events + (Ev('call', name, obj, args, res, fn, i),)
        self.cfg.on_call(self, st, name, n, obj, args, res)
        # out parameters
        off = len(n['c']) - len(argn)
        for ri in n.get('rp', []):
            ai = ri - (1 if (n['k'] == 'MCall' or (n['k'] == 'OpCall' and n.get('cls'))) else 0)
            if 0 <= ai < len(argn) and not self.cfg.unchanged(name, ai):
                self.havoc(st, fr, argn[ai], ('out', res, ai))
        for ai, a in enumerate(argn):
            an = fn.nodes[a]
            if an['k'] == 'UnaryOperator' and an['op'] == '&':
                self.havoc(st, fr, an['c'][0], ('out', res, ai))
        return res

    def havoc(self, st, fr, i, v):
        """The object designated by node i may have been changed to v."""
        n = fr.fn.nodes[i]
        while n['k'] == 'Cast' and n['c']:
            i = n['c'][0]
            n = fr.fn.nodes[i]
        if n['k'] == 'DeclRefExpr' and n.get('dk') in ('local', 'param'):
            t = n.get('t', '')
            cls = t.replace('const ', '').strip()
            base = st.env.get((fr.id, n['d']), ('v', n['d'], fr.id))
            if cls in self.prog.classes and not self.isenum(cls) and \
                    not cls.split('<')[0].split('::')[-1] in ('SharedPtr', 'SrdRef', 'WeakPtr', 'Str'):
                # an object: its fields become unknown
                for key in [x for x in st.heap if x[0] == 'f' and x[1] == base]:
                    del st.heap[key]
                for f in self.allfields(cls):
                    st.heap[('f', base, f)] = ('f', v, f)
            else:
                st.env[(fr.id, n['d'])] = v
                if fr.refs.get(n['d']) is not None:
                    self.write(st, fr.refs[n['d']], v, fr, i)
        elif n['k'] == 'MemberExpr' and n['c']:
            base = strip_as(self.ev(st, fr, n['c'][0]))
            st.heap[('f', base, n.get('d', n.get('n')))] = v

    def isenum(self, cls):
        """A class that only wraps an enumeration."""
        c = self.prog.classes.get(cls)
        return c is not None and len(c['fields']) == 1 and c['fields'][0]['n'] == 'val' and '::_' in c['fields'][0]['t']

    def newobj(self, st, cls, args):
        """A new object of a class of the repository; its fields get the values
        the constructor's initialisers give them."""
        self.uniq += 1
        o = ('obj', cls, args, self.uniq)
        c = self.prog.classes.get(cls)
        if c is None or len(cls) == 0:
            return o
        ctors = [f for f in self.prog.byq.get(c['q'] + '::' + c['q'].split('::')[-1], []) if f.o.get('inits') is not None]
        ctors = [f for f in ctors if len(f.params) == len(args)] or \
                [f for f in ctors if len(f.params) > len(args) and all(x.get('def') for x in f.params[len(args):])]
        if len(ctors) == 1:
            f = ctors[0]
            self.uniq += 1
            fr = Frame(self, f, o, 1)
            for p, a in zip(f.params, args):
                st.env[(fr.id, p['d'])] = a
            for it in f.o['inits']:
                if it.get('m') and it['i'] is not None and it['i'] >= 0:
                    st.heap[('f', o, it['m'])] = self.ev(st, fr, it['i'])
        for x in c['fields']:
            k = ('f', o, c['q'] + '::' + x['n'])
            if k not in st.heap and is_smart(x['t'].replace('const ', '').split('<')[0].strip()):
                st.heap[k] = ZERO
        return o

    def allfields(self, cls):
        r = []
        for q in [cls] + sorted(self.prog.bases(cls)):
            c = self.prog.classes.get(q)
            if c:
                r += [c['q'] + '::' + f['n'] for f in c['fields'] if not f.get('static')]
        return r

    # ------------------------------------------------------------ truth ----
    def truth(self, st, t):
        p, pol = pred(t)
        if p is True or p is False:
            return p if pol else (not p)
        v = st.facts.get(p)
        if v is None:
            if p[0] == 'and':
                a, b = self.truth(st, p[1]), self.truth(st, p[2])
                v = False if (a is False or b is False) else (True if a and b else None)
            elif p[0] == 'or':
                a, b = self.truth(st, p[1]), self.truth(st, p[2])
                v = True if (a is True or b is True) else (False if a is False and b is False else None)
            elif p[0] == 'eq':
                v = self.eqtruth(st, p)
        if v is None:
            v = self.cfg.decide(p)
        if v is None:
            return None
        return v if pol else (not v)

    def eqtruth(self, st, p):
        # x == K1 is false when x == K2 is already known for another constant
        a, b = p[1], p[2]
        for x, c in ((a, b), (b, a)):
            if c[0] in ('c', 'enum', 's'):
                for f, v in st.facts.items():
                    if v and f[0] == 'eq':
                        if f[1] == x and f[2][0] in ('c', 'enum', 's') and f[2] != c:
                            return False
                        if f[2] == x and f[1][0] in ('c', 'enum', 's') and f[1] != c:
                            return False
        return None

    def assume(self, st, t, val):
        p, pol = pred(t)
        if p is True or p is False:
            return
        v = val if pol else (not val)
        st.facts[p] = v
        if p[0] == 'and' and v:
            self.assume(st, p[1], True)
            self.assume(st, p[2], True)
        if p[0] == 'or' and not v:
            self.assume(st, p[1], False)
            self.assume(st, p[2], False)

    # ------------------------------------------------------------- walk ----
    def run(self, fn, this=('this',), args=None, state=None):
        st = state or State()
        fr = Frame(self, fn, this, 0)
        for i, p in enumerate(fn.params):
            if args and i < len(args) and args[i] is not None:
                st.env[(fr.id, p['d'])] = args[i]
        self.npaths = 0
        return self.walk(fn, fr, st)

    def walk(self, fn, fr, st):
        self.visited_fns.add(fn.u)
        blocks = fn.blk()
        if not blocks:
            raise Broken('no control flow graph for %s' % fn.q)
        out = []
        stack = [(fn.cfg['entry'], 0, st, fr, {})]
        while stack:
            bid, idx, st, fr, visits = stack.pop()
            b = blocks[bid]
            self.nsteps += 1
            if idx == 0:
                c = visits.get(bid, 0)
                if c > self.cfg.loop_bound:
                    continue
                visits = dict(visits)
                visits[bid] = c + 1
            e = b['e']
            ended = False
            while idx < len(e):
                i = e[idx]
                n = fn.nodes[i]
                k = n['k']
                if k in CALLS:
                    tgt = self.inline_target(st, fr, i, n)
                    if tgt is not None:
                        callee, this, cargs, refmap, fid = tgt
                        res = self.do_inline(st, fr, i, n, callee, this, cargs, refmap, fid)
                        for o in res:
                            if o.kind == 'throw':
                                out.append(o)
                                continue
                            fr2 = fr.fork()
                            fr2.memo[i] = o.ret
                            stack.append((bid, idx + 1, o.state, fr2, visits))
                        ended = True
                        break
                if k == 'CXXThrowExpr':
                    self.npaths += 1
                    out.append(Outcome('throw', None, st, fn, i))
                    ended = True
                    break
                if k == 'ReturnStmt':
                    v = self.ev(st, fr, n['c'][0]) if n['c'] else C('void')
                    if n['c'] and fn.nodes[n['c'][0]]['k'] in ('BinaryOperator',) and v[0] in ('and', 'or'):
                        pass
                    self.cfg.on_return(self, st, fn, i)
                    self.npaths += 1
                    out.append(Outcome('return', v, st, fn, i))
                    ended = True
                    break
                fr.memo.pop(i, None)
                v = self.compute(st, fr, i)
                fr.memo[i] = v
                if k in CALLS:
                    name = self.callee_name(fn, n)[0]
                    if self.cfg.stop(name, n) == 'throw':
                        self.npaths += 1
                        out.append(Outcome('throw', None, st, fn, i))
                        ended = True
                        break
                idx += 1
            if ended:
                self.check_limit(fn)
                continue
            succs = b['s']
            if bid == fn.cfg['exit']:
                self.npaths += 1
                out.append(Outcome('return', C('void'), st, fn, fn.body))
                self.check_limit(fn)
                continue
            if b.get('noret') and succs == [fn.cfg['exit']]:
                out.append(Outcome('throw', None, st, fn, e[-1] if e else fn.body))
                continue
            tk = b.get('tk')
            if tk == 'SwitchStmt':
                self.switch(fn, fr, b, st, visits, stack)
                continue
            if len(succs) == 2 and 'tc' in b and tk not in ('CXXTryStmt', 'CXXForRangeStmt'):
                c = self.ev(st, fr, b['tc'])
                t = self.truth(st, c)
                live = [s for s in succs if s >= 0]
                for val, s in ((True, succs[0]), (False, succs[1])):
                    if s < 0:
                        continue
                    if t is not None and t != val:
                        continue
                    if t is None:
                        s2 = st.copy()
                        self.assume(s2, c, val)
                        fr2 = fr.fork()
                    else:
                        s2 = st.copy()
                        fr2 = fr.fork()
                    stack.append((s, 0, s2, fr2, visits))
            else:
                live = [s for s in succs if s >= 0]
                for s in live:
                    if len(live) > 1:
                        stack.append((s, 0, st.copy(), fr.fork(), visits))
                    else:
                        stack.append((s, 0, st, fr, visits))
        return out

    def check_limit(self, fn):
        if self.npaths > self.cfg.max_paths:
            raise Broken('too many ways through %s' % fn.q)

    def switch(self, fn, fr, b, st, visits, stack):
        blocks = fn.blk()
        c = self.ev(st, fr, b['tc'])
        cases = []
        default = None
        for s in b['s']:
            if s < 0:
                continue
            sb = blocks[s]
            if 'lc' in sb:
                cases.append((s, self.ev(st, fr, sb['lc'])))
            else:
                default = s
        for s, v in cases:
            p = binop('==', c, v)
            t = self.truth(st, p)
            if t is False:
                continue
            s2 = st.copy()
            self.assume(s2, p, True)
            stack.append((s, 0, s2, fr.fork(), visits))
            if t is True:
                return
        if default is not None:
            s2 = st.copy()
            for s, v in cases:
                self.assume(s2, binop('==', c, v), False)
            stack.append((default, 0, s2, fr.fork(), visits))

    # ----------------------------------------------------------- inline ----
    def want_inline(self, callee, name, n):
        """A function the sources did not have when the rules were written is
        walked in place: code moved to a helper is judged as if it had stayed."""
        if callee.n in self.cfg.keep:
            return False
        if callee.q not in baseline_functions() and not callee.o.get('ctor'):
            return True
        return self.cfg.inline(callee, name, n)

    def inline_target(self, st, fr, i, n):
        fn = fr.fn
        name, objn, argn = self.callee_name(fn, n)
        callee = None
        if n['k'] == 'OpCall' and n.get('op') == '()' and n['c']:
            o = self.ev(st, fr, n['c'][0])
            if o[0] == 'lam':
                callee = self.prog.fns.get(o[1])
                if callee is None or fr.depth >= self.cfg.inline_depth:
                    return None
                args = [self.ev(st, fr, a) for a in argn]
                return callee, fr.this, (args, argn), True, o[2]
        if n.get('u'):
            callee = self.prog.fns.get(n['u'])
        if n['k'] == 'OpCall' and n.get('op') == '()' and n['c'] and (callee is None or 'operator()' in callee.q):
            b = [x[0] for x in self.prog.bindings().get(name, []) if x[0]]
            if len({x[1] for x in b}) == 1:
                callee = self.prog.fns.get(b[0][1])
                if callee is None or fr.depth >= self.cfg.inline_depth or callee.u in fr.chain:
                    return None
                if not callee.cfg.get('blocks') or not self.want_inline(callee, name, n):
                    return None
                obj = strip_as(self.ev(st, fr, objn)) if objn is not None and objn >= 0 else None
                args = [self.ev(st, fr, a) for a in argn]
                if len(callee.params) == len(args) + 1:
                    # a static implementation takes the object as its first parameter
                    return callee, fr.this, ([obj or fr.this] + args, [-1] + list(argn)), False, None
                return callee, obj or fr.this, (args, argn), False, None
        if n.get('u'):
            callee = self.cfg.target(self, st, callee, n, objn is None or objn < 0 or self.ev(st, fr, objn) == ('this',))
        if callee is None or fr.depth >= self.cfg.inline_depth or callee.u in fr.chain:
            return None
        if not callee.cfg.get('blocks'):
            return None
        if not self.want_inline(callee, name, n):
            return None
        obj = strip_as(self.ev(st, fr, objn)) if objn is not None and objn >= 0 else None
        obj = self.through(fn, n, objn, obj)
        args = [self.ev(st, fr, a) for a in argn]
        return callee, obj or fr.this, (args, argn), False, None

    def do_inline(self, st, fr, i, n, callee, this, cargs, is_lam, fid):
        args, argn = cargs
        self.uniq += 1
        f2 = Frame(self, callee, this, fr.depth + 1, fr.chain | {fr.fn.u}, fid)
        s2 = st.copy()
        for j, p in enumerate(callee.params):
            if j >= len(args):
                break
            t = p['t']
            if t.rstrip().endswith('&') and not constref(t) and argn[j] >= 0:
                an = fr.fn.nodes[argn[j]]
                path = self.lvalue(s2, fr, argn[j])
                if path is not None:
                    cls = t.rstrip('& ').strip()
                    if cls in self.prog.classes and not is_smart(cls.split('<')[0]):
                        # object identity is shared
                        s2.env[(f2.id, p['d'])] = args[j] if args[j][0] != 'v' else path
                    else:
                        s2.env[(f2.id, p['d'])] = args[j]
                        f2.refs[p['d']] = path
                    continue
            s2.env[(f2.id, p['d'])] = args[j]
        return self.walk(callee, f2, s2)

    def lvalue(self, st, fr, i):
        n = fr.fn.nodes[i]
        while n['k'] == 'Cast' and n['c']:
            i = n['c'][0]
            n = fr.fn.nodes[i]
        if n['k'] == 'DeclRefExpr' and n.get('dk') in ('local', 'param'):
            if n['d'] in fr.refs:
                return fr.refs[n['d']]
            v = st.env.get((fr.id, n['d']))
            if v is not None and v[0] == 'v':
                return v
            return ('v', n['d'], fr.id)
        if n['k'] == 'MemberExpr' and n.get('dk') == 'field':
            base = strip_as(self.ev(st, fr, n['c'][0])) if n['c'] else fr.this
            return ('f', base, n['d'])
        return None


_fid = [0]


class Frame:
    __slots__ = ('fn', 'this', 'depth', 'chain', 'memo', 'id', 'refs')

    def __init__(self, w, fn, this, depth, chain=frozenset(), fid=None):
        self.fn = fn
        self.this = this
        self.depth = depth
        self.chain = chain
        self.memo = {}
        if fid is None:
            _fid[0] += 1
            fid = _fid[0] if depth else 0
        self.id = fid
        self.refs = {}

    def fork(self):
        f = Frame.__new__(Frame)
        f.fn, f.this, f.depth, f.chain, f.id, f.refs = self.fn, self.this, self.depth, self.chain, self.id, self.refs
        f.memo = dict(self.memo)
        return f


def constref(t):
    """Whether what a reference of this type refers to cannot be assigned through it."""
    t = t.rstrip('& ').rstrip()
    if t.endswith('*'):
        return False
    return t.endswith('const') or t.startswith('const ') and '*' not in t


def neg(t):
    if t[0] == 'not':
        return t[1]
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    return ('not', t)


def binop(op, a, b):
    if op in ('==', '!='):
        a, b = unstr(a), unstr(b)
        if a[0] == 's' and b[0] == 's':
            r = TRUE if a[1] == b[1] else FALSE
            return r if op == '==' else neg(r)
        ca, cb = const_of(a), const_of(b)
        if a[0] in ('c',) and b[0] in ('c',):
            r = TRUE if norm_c(ca) == norm_c(cb) else FALSE
            return r if op == '==' else neg(r)
        if a[0] == 'enum' and b[0] == 'enum':
            r = TRUE if a[2] == b[2] else FALSE
            return r if op == '==' else neg(r)
        if is_zero(b) or is_zero(a):
            x = a if is_zero(b) else b
            z = b if is_zero(b) else a
            r = neg(x)
            return r if op == '==' else neg(r)
        if b == TRUE or a == TRUE:
            x = a if b == TRUE else b
            return x if op == '==' else neg(x)
        if repr(a) > repr(b):
            a, b = b, a
        r = ('eq', strip_as(a), strip_as(b))
        return r if op == '==' else neg(r)
    if op == '>':
        return ('lt', b, a)
    if op == '<':
        return ('lt', a, b)
    if op == '>=':
        return neg(('lt', a, b))
    if op == '<=':
        return neg(('lt', b, a))
    if a[0] == 'c' and b[0] == 'c' and op in ('+', '-', '*'):
        try:
            x, y = int(a[1]), int(b[1])
            return C(str(x + y if op == '+' else x - y if op == '-' else x * y))
        except ValueError:
            pass
    return ('bin', op, a, b)


BOXES = ('TiStrBase', 'TiWStrBase', 'TiIntBase', 'TiBoolBase', 'TiNumber')
STRCLS = ('Str', 'TiStr', 'String', 'StringBase', 'basic_string', 'string')


def unstr(t):
    """A string object made from a literal is that literal."""
    while t[0] == 'new' and len(t[2]) >= 1 and t[1].split('<')[0].split('::')[-1] in STRCLS:
        t = t[2][0]
    return t


def norm_c(v):
    return {'true': '1', 'false': '0'}.get(v, v)


def pred(t):
    """(predicate, polarity) of a truth test of t."""
    pol = True
    while True:
        if t[0] == 'not':
            pol = not pol
            t = t[1]
            continue
        if t[0] == 'as':
            # a checked cast is non-null iff the object has the type
            return ('isa', t[1], strip_as(t[2])), pol
        break
    if t[0] == 'c':
        return (t[1] not in ('0', 'false', 'null')), pol
    if t[0] == 'new' or t[0] == 'obj' or t[0] == 'addr' or t[0] == 's' or t[0] == 'lam':
        return True, pol
    if t[0] == 'lt' and t[1][0] == 'c' and t[2][0] == 'c':
        try:
            return int(t[1][1]) < int(t[2][1]), pol
        except ValueError:
            pass
    return t, pol


def has_atom(t, f):
    if f(t):
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and has_atom(x, f):
                return True
    return False
