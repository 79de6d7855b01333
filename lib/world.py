"""Protocols: the ordered steps of a function in one situation.

A World fixes what the lists, kinds and states a function looks at are; the
steps that can fail stay open, and every combination of their outcomes is a way
of its own.  `protocol` compares the recorded steps of each way with the steps
that must happen given the outcomes."""
from eg import *
from terms import *

MAYBE = object()


class World(Config):
    loop_bound = 9
    inline_depth = 3

    def __init__(self, norm, steps, values=None, kinds=None, lists=None, hook=None, inline=(), record=()):
        self.norm = norm
        self.steps = steps          # short names of the recorded calls
        self.values = values or {}  # canonical text -> truth, number or string
        self.kinds = kinds or {}    # canonical text -> class there (None: nothing)
        self.lists = lists or {}    # canonical text -> items (terms); or a function of the state
        self.hook = hook
        self.inl = inline
        self.record = record        # fields of which the values are recorded with every step
        self.memo = {}

    def event(self, name, node, fn):
        return sname(name) in self.steps

    def inline(self, callee, name, node):
        return callee.n in self.inl or callee.n.lstrip('_') in self.inl

    def on_call(self, w, st, name, node, obj, args, res):
        if self.record and sname(name) in self.steps:
            x = {}
            for k, v in st.heap.items():
                if k[0] == 'f' and sname(k[2]) in self.record:
                    x[sname(k[2])] = v
            st.events[-1].x = x

    def listof(self, st, t):
        l = self.lists.get(self.norm.t(strip_ref(t)))
        return l(st) if callable(l) else l

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        if self.hook:
            v = self.hook(w, st, s, obj, args)
            if v is not None:
                return v
        if s == 'operator<<' and len(args) + (obj is not None) == 2:
            # text put together in a stream
            r = stream(obj if obj is not None else args[0])
            st.heap[('text', r)] = st.heap.get(('text', r), ()) + (args[-1],)
            return None
        if obj is not None and s == 'str' and not args and ('text', stream(obj)) in st.heap:
            return ('text',) + st.heap[('text', stream(obj))]
        if obj is not None and s in ('c_str', 'getBuf') and not args and strip_as(obj)[0] == 'text':
            return strip_as(obj)
        if obj is None:
            return None
        if s in ('getCount', 'getLength', 'getElementCount', 'size', 'getMemberCount', 'getInstanceCount', 'length') and not args:
            l = self.listof(st, obj)
            if l is not None:
                return C(str(len(l)))
        if s in ('get', 'getElement', 'at', 'operator[]', 'getMember', 'getInstance') and len(args) == 1 and args[0][0] == 'c' and args[0][1].isdigit():
            l = self.listof(st, obj)
            if l is not None:
                i = int(args[0][1])
                return l[i] if i < len(l) else C('?outside')
        if s == 'remove' and len(args) == 1 and args[0][0] == 'c' and args[0][1].isdigit():
            k = self.norm.t(strip_ref(obj))
            l = self.listof(st, obj)
            if l is not None and callable(self.lists.get(k)):
                st.heap[('list', k)] = tuple(x for i, x in enumerate(l) if i != int(args[0][1]))
        return None

    def atom(self, t):
        k = t[0]
        if k == 'el':
            return True
        if k == 'isa':
            x = self.norm.t(t[2])
            if x in self.kinds:
                c = self.kinds[x]
                return c is not None and (sname(t[1].split('<')[0]) in (c if isinstance(c, tuple) else (c,)))
            return self.values.get(self.norm.t(t))
        if k in ('c', 'not', 'and', 'or', 'cond', 'inc', 'dec'):
            return None
        if k == 'eq':
            a, b = self.norm.t(t[1]), self.norm.t(t[2])
            for s in ('(%s==%s)' % (a, b), '(%s==%s)' % (b, a)):
                if s in self.values:
                    return self.values[s]
            return None
        s = self.norm.t(t)
        if s in self.values:
            return self.values[s]
        if s in self.kinds:
            return self.kinds[s] is not None
        return None

    def decide(self, p):
        if p not in self.memo:
            v = evalt(p, self.atom)
            self.memo[p] = None if v is None else bool(v)
        return self.memo[p]


def live(key, items):
    """A list that the function takes items from."""
    return lambda st: st.heap.get(('list', key), items)


def stream(t):
    while True:
        t = strip_ref(t)
        if t[0] == 'out':
            t = t[1]
        elif t[0] == 'call' and sname(t[1]) == 'operator<<' and t[2]:
            t = t[2][0]
        else:
            return t


def strip_ref(t):
    t = strip_as(t)
    while t[0] in ('addr', 'deref'):
        t = strip_as(t[1])
    return t


class WNorm(EgNorm):
    alias = {}

    def t(self, t, d=0):
        if t[0] in ('el', 'val'):
            return t[1]
        if t[0] == 'out' and t[1][0] in ('el', 'val'):
            return 'out%s(%s)' % (t[2], t[1][1])
        if t[0] == 's':
            r = '"%s"' % t[1]
        elif t[0] == 'text':
            r = '<%s>' % '+'.join(self.t(x, d + 1) for x in t[1:])
        elif t[0] in ('new', 'obj') and t[1].split('<')[0].split('::')[-1] in STRCLS and len(t[2]) >= 1:
            return self.t(t[2][0], d + 1)
        else:
            r = EgNorm.t(self, t, d)
        for a, b in self.alias.items():
            r = r.replace(a, b)
        return r


def el(n):
    return ('el', n)


def ways(prog, fn, world, args=None):
    return Walk(prog, world).run(fn, args=args)


def truth_of(o, t):
    """Whether a call succeeded on this way, as far as the way has asked."""
    p, pol = pred(t)
    if p in (True, False):
        return p if pol else not p
    v = o.facts.get(p)
    return None if v is None else (v if pol else not v)


def protocol(chk, fn, outs, n, key, what, steps, ret=True, any_order=(), quiet=(), text=None, counted='situations'):
    """steps: (text, gate) or (text, gate, fallible).
    gate: ''     always
          'ok'   only if every fallible step before it succeeded, and then always
          'stop' like '', and nothing follows if it fails
    ret: True: the function gives the conjunction of the fallible steps; None: nothing is asked;
    any_order: steps that must happen exactly once at any time before the function ends."""
    chk.count(counted)
    some = False
    show_ = text or (lambda e: '%s%s(%s)' % ('' if e.obj is None else n.t(e.obj) + '.', sname(e.name), ', '.join(n.t(a) for a in e.args)))
    for o in outs:
        if o.kind == 'throw':
            continue
        some = True
        chk.count('ways through steps')
        got = [(show_(e), e) for e in o.events]
        rest = list(any_order)
        seq = []
        for x, e in got:
            if x in rest:
                rest.remove(x)
            elif x not in quiet:
                seq.append((x, e))

        def bad(msg, e=None):
            chk.violation(key, fn.loc(e.node if e is not None and e.fn is fn else o.node), '%s: %s' % (what, msg))

        i = 0
        oks = []        # (text, truth) of the fallible steps
        stopped = False
        fail = False
        for s in steps:
            tx, gate, fallible = s if len(s) == 3 else (s[0], s[1], s[1] == 'stop')
            if stopped:
                break
            if gate == 'ok':
                unk = [x for x, v in oks if v is None]
                if any(v is False for x, v in oks):
                    continue
                if unk and i < len(seq) and seq[i][0] == tx:
                    bad('%s happens whether or not %s succeeds' % (tx, unk[0]), seq[i][1])
                    fail = True
                    break
            if i >= len(seq) or seq[i][0] != tx:
                bad('%s%s; %s must come here' % ('it does ' + seq[i][0] if i < len(seq) else 'it ends',
                                                 '' if not oks else ' when ' + ', '.join('%s %s' % (x, {True: 'succeeded', False: 'failed', None: 'is done'}[v]) for x, v in oks[-3:]), tx),
                    seq[i][1] if i < len(seq) else None)
                fail = True
                break
            if fallible:
                v = truth_of(o, seq[i][1].res)
                oks.append((tx, v, seq[i][1].res))
                oks[-1] = (tx, v)
                if v is None:
                    oks[-1] = (tx, None)
                if gate == 'stop' and v is False:
                    stopped = True
            i += 1
        if fail:
            continue
        if i < len(seq):
            bad('it also does %s%s' % (seq[i][0], ' although %s failed' % [x for x, v in oks if v is False][0] if any(v is False for x, v in oks) else ''), seq[i][1])
            continue
        if rest and not stopped:
            bad('%s is missing' % rest[0])
            continue
        if ret is True and o.ret is not None:
            res = {}
            for x, e in seq:
                res[e.res] = truth_of(o, e.res)
            want = all(v for x, v in oks if v is not None)
            unk = [e.res for x, e in seq if any(x == a and v is None for a, v in oks)]
            import itertools
            for vs in itertools.product((True, False), repeat=len(unk)):
                m = dict(zip(unk, vs))

                def atom(t):
                    if t in m:
                        return m[t]
                    if t in res and res[t] is not None:
                        return res[t]
                    return o.facts.get(t)
                v = evalt(o.ret, atom)
                w = want and all(vs)
                if v is None or bool(v) != w:
                    bad('it reports %s when %s' % ('nothing' if v is None else 'success' if v else 'failure',
                        ', '.join([x for x, v in oks if v is False][:1] + [n.t(k) for k, v in m.items() if not v][:1]) + ' failed' if not w else 'every step succeeded'))
                    break
        elif ret in (0, 1) and ret is not True:
            v = evalt(o.ret, lambda t: o.facts.get(t))
            if v is None or bool(v) != bool(ret):
                bad('it returns %s; it must return %s' % (n.t(o.ret), bool(ret)))
    if not some:
        chk.violation(key, fn.loc(), '%s: no way through' % what)
