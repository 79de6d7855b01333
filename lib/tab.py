"""Functions compared with a small reference function, situation by situation.

A situation names what the function sees (kinds, values, lists); the calls in
`steps` are recorded and give outcomes S1, S2, ... in order; the reference asks
for the outcomes and facts it depends on.  A way that has not asked for
something the reference depends on must be right for both answers."""
from world import *


class Open(Exception):
    pass


def alternatives(reference, facts):
    todo = [{}]
    out = []
    while todo:
        fixed = todo.pop()
        asked = []

        def ask(k):
            v = facts(k)
            if v is None:
                v = fixed.get(k)
            if v is None:
                asked.append(k)
                raise Open
            return v
        try:
            out.append((reference(ask), fixed))
        except Open:
            for v in (True, False):
                todo.append(dict(fixed, **{asked[0]: v}))
    return out


SELF = ('Helper', 'TemplateGenerator', 'Seeker')


class Tab(World):
    loop_bound = 6
    keep = ('strToInt',)

    def __init__(self, norm, steps, get=None, kinds=None, lists=None, values=None, inline=(), show=None, outs=None, clears=(), status=False, hook=None, whole=()):
        World.__init__(self, norm, steps, values, dict({'self': SELF}, **(kinds or {})), {k: v if callable(v) else [el(x) if isinstance(x, str) else x for x in v] for k, v in (lists or {}).items()}, hook, inline)
        self.get = get or {}
        self.show = show
        self.outs = outs or {}
        self.clears = clears
        self.value_classes = whole
        if status:
            self.value_classes = ('Spp::Ast::TypeMatchStatus',)

    def unchanged(self, name, ai):
        return sname(name) in self.steps and (sname(name), ai) not in self.clears

    def give(self, v):
        if v is None or v is False:
            return ZERO if v is None else FALSE
        if v is True:
            return TRUE
        if isinstance(v, int):
            return C(str(v))
        return el(v) if isinstance(v, str) else v

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        n = self.norm
        o = n.t(strip_ref(obj)) if obj is not None else None
        if self.hook:
            v = self.hook(w, st, s, obj, args)
            if v is not None:
                return v
        for k in ((o, s) + tuple(n.t(strip_ref(a)) for a in args), (o, s) + tuple(n.t(strip_ref(a)) for a in args[:1]), (o, s), '::'.join(name.split('::')[-2:]), s):
            if k in self.get:
                v = self.get[k]
                return self.give(v(obj, args) if callable(v) else v)
        if s in ('ti_cast', 's_cast', 'ti_cast_get') and obj is not None and not args:
            x = n.t(strip_ref(obj))
            if x in self.kinds and s != 's_cast':
                c = self.kinds[x]
                return obj if c is not None and sname(node.get('ta', '?')) in (c if isinstance(c, tuple) else (c,)) else ZERO
            return obj
        if s in self.steps:
            return ('val', 'S%d' % (1 + len(st.events)))
        if s in ('get', 'c_str', 'getBuf', 'getStr') and not args and obj is not None and (strip_ref(obj)[0] in ('el', 'val', 's', 'c', 'enum') or s == 'get' and obj[0] in ('c', 'enum')):
            return obj
        return World.call_value(self, w, st, name, node, obj, args)

    def on_call(self, w, st, name, node, obj, args, res):
        if sname(name) in self.steps:
            n = self.norm
            t = self.show(sname(name), None if obj is None else n.t(strip_ref(obj)), [self.arg(w, st, a) for a in args], node) if self.show else None
            st.events[-1].x = t or '%s(%s)' % (sname(name), ', '.join(self.arg(w, st, a) for a in args))

    def arg(self, w, st, a):
        t = self.norm.t(strip_ref(a))
        return '_' if 'lam(' in t else t

    def decide(self, p):
        if p[0] in ('eq', 'lt') and self.plain(p[1]) is not None and self.plain(p[2]) is not None:
            a, b = self.plain(p[1]), self.plain(p[2])
            return a == b if p[0] == 'eq' else a < b
        if p[0] == 'eq' and strip_as(p[1])[0] == strip_as(p[2])[0] == 'el':
            return strip_as(p[1]) == strip_as(p[2])
        if p[0] == 'isa':
            if self.norm.t(p[2]) == '0':
                return False
        return World.decide(self, p)

    def plain(self, t):
        t = unwrap(t)
        if t[0] in ('new', 'obj') and sname(t[1]) == 'TypeMatchStatus' and t[2] and len(t[2]) <= 2:
            t = unwrap(t[2][0])
        if t[0] == 'bin' and t[1] in ('|', '&', '+', '-'):
            a, b = self.plain(t[2]), self.plain(t[3])
            return None if a is None or b is None else a | b if t[1] == '|' else a & b if t[1] == '&' else a + b if t[1] == '+' else a - b
        if t[0] == 'f':
            b = strip_ref(t[1])
            if b[0] in ('new', 'obj') and sname(b[1]) == 'TypeMatchStatus' and len(b[2]) in (1, 2) and sname(t[2]) in ('value', 'derefs'):
                i = ('value', 'derefs').index(sname(t[2]))
                return self.plain(b[2][i]) if i < len(b[2]) else 0
        if t[0] in ('inc', 'dec'):
            v = self.plain(t[1])
            return None if v is None else v + 1 if t[0] == 'inc' else v - 1
        if t[0] == 'enum':
            return int(t[2])
        if t[0] == 'c' and t[1].lstrip('-').isdigit():
            return int(t[1])
        return None


def unwrap(t):
    t = strip_as(t)
    while t[0] in ('new', 'obj') and len(t[2]) == 1 and not isinstance(t[2][0], str):
        t = strip_as(t[2][0])
    return t


def gone(w, t):
    """A cast to a class the object is not of."""
    return t[0] == 'as' and w.atom(('isa', t[1], strip_as(t))) is False


def shown(n, t):
    t = strip_as(t)
    if t[0] in ('new', 'obj') and sname(t[1]) == 'TypeMatchStatus':
        a = [n.t(x) for x in t[2]]
        if len(a) == 2 and a[1] == '0':
            a = a[:1]
        return a[0] if len(a) == 1 else 'status(%s)' % ', '.join(a)
    return n.t(unwrap(t))


def table(chk, prog, key, fn, what, args, reference, counted='situations', env=None, heap=None, keep=None, ret=None, **kw):
    fn = prog.fn(fn) if isinstance(fn, str) else fn
    chk.count(counted)
    w = Tab(WNorm(fn), **kw)
    st = State()
    for k, v in (env or {}).items():
        st.env[(0, k)] = el(v) if isinstance(v, str) else v
    for k, v in (heap or {}).items():
        st.heap[k] = v
    args = [el(a) if isinstance(a, str) else ZERO if a is False else a for a in args]
    outs = [o for o in Walk(prog, w).run(fn, args=args, state=st) if keep is not None and keep(o) or keep is None and o.kind != 'throw']
    if not outs:
        chk.violation(key, fn.loc(), '%s: no way through' % what)
    n = w.norm
    for o in outs:
        chk.count('ways through')
        f = {n.t(k): v for k, v in o.facts.items()}

        def facts(k):
            if k in f:
                return f[k]
            if isinstance(w.values.get(k), bool):
                return w.values[k]
            if k.startswith('(') and '==' in k:
                a, b = k[1:-1].split('==')
                return f.get('(%s==%s)' % (b, a))
            return None
        r = '?' if o.ret is None else ret(o.ret, w, o) if ret else shown(n, o.ret)
        if o.ret is not None and gone(w, o.ret):
            r = '0'
        for want, fixed in alternatives(reference, facts):
            ev, end = want[0], want[1]
            got = [e.x for e in o.events]
            flat = []
            for x in ev:
                if isinstance(x, tuple):        # in any order
                    i = len(flat)
                    got[i:i + len(x)] = sorted(got[i:i + len(x)])
                    flat += sorted(x)
                else:
                    flat.append(x)
            ev = flat
            rest = want[2] if len(want) > 2 else {}
            why = ', '.join('%s: %s' % (k, v) for k, v in f.items())
            msg = None
            at = o.node
            if got != ev:
                i = next((i for i in range(len(ev)) if i >= len(got) or got[i] != ev[i]), len(ev))
                if i < len(got):
                    at = o.events[i].node if o.events[i].fn is fn else at
                msg = 'step %d is %s; it must be %s' % (i + 1, got[i] if i < len(got) else 'the end', ev[i] if i < len(ev) else 'the end')
            elif end is not None and r != end and not (end in ('0', '1') and truth(o.ret, facts, fixed, n, w) == (end == '1')):
                msg = 'it gives %s; it must give %s' % (r, end)
            else:
                for k, v in rest.items():
                    x = next(('0' if gone(w, y) else n.t(strip_ref(y)) for (d, z), y in ((kk, yy) for kk, yy in o.state.env.items() if len(kk) == 2) if d == 0 and str(z).split('#')[0] == k), None)
                    if x is None:
                        x = next((n.t(strip_ref(y)) for z, y in o.state.heap.items() if n.t(z) == k), None)
                    if x != v:
                        msg = '%s is %s; it must be %s' % (k, x, v)
            if msg:
                chk.violation(key, fn.loc(at), '%s%s: %s' % (what, ' (%s)' % why[:200] if why else '', msg))
                break


def enum(prog, q, name):
    """A value of an enumeration, as the source has it."""
    e = prog.enums.get(q)
    v = [c['v'] for c in e['consts'] if c['n'] == name] if e else None
    if not v:
        raise Broken('%s::%s is not found' % (q, name))
    return ('enum', q + '::' + name, v[0])


def truth(t, facts, fixed, n, w=None):
    if t is None:
        return None

    def known(k):
        v = facts(k)
        if v is None:
            v = fixed.get(k)
            if v is None and k.startswith('(') and '==' in k:
                a, b = k[1:-1].split('==')
                v = fixed.get('(%s==%s)' % (b, a))
        return v

    def atom(x):
        v = known(n.t(x))
        if v is None and w:
            v = w.decide(x) if x[0] in ('eq', 'lt') else w.atom(x) if x[0] == 'isa' else None
        return v
    v = atom(t)
    if v is None:
        v = evalt(t, atom)
    return None if v is None else bool(v)
