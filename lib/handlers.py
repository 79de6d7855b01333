"""What the handlers of the parser make of the parsed text: the effects of each
way through a handler, compared with the expected ones."""
from eg import *
from terms import *
from facts import Broken
from gram import split_ta

QUIET = ('setSourceLocation', 'setProdId', 'setData')


class HConfig(Config):
    inline_depth = 3
    loop_bound = 2

    def __init__(self, prog):
        self.prog = prog

    def inline(self, callee, name, node):
        return callee.n in ('createInfixObj', 'createPrefixObj', 'createPostfixObj', 'createListWithItems')

    def event(self, name, node, fn):
        s = sname(name)
        return s.startswith(('set', 'add', 'insert', 'remove', 'on', 'flagUnused', 'clear', 'dropState', 'update', 'push'))


class SConfig(HConfig):
    """The ways of a handler in one situation."""
    loop_bound = 8

    def __init__(self, prog, norm, whole=None):
        HConfig.__init__(self, prog)
        self.norm = norm
        self.memo = {}
        self.whole = whole      # class whose own functions are followed into
        if whole:
            self.inline_depth = 8

    def inline(self, callee, name, node):
        if self.whole and callee.q.rsplit('::', 1)[0] == self.whole:
            return True
        return HConfig.inline(self, callee, name, node)

    def call_value(self, w, st, name, node, obj, args):
        # an item removed from a list shifts the ones after it; what was given is what is got
        s = sname(name)
        if s == 'setData' and obj is not None and args and (len(args) == 1 or self.norm.t(args[1]) == '-1'):
            st.heap[('data', strip_as(obj))] = args[0]
            return None
        if s == 'getData' and obj is not None and (not args or self.norm.t(args[0]) == '-1'):
            return st.heap.get(('data', strip_as(obj)))
        if s.startswith('get') and obj is not None and not args:
            o = strip_as(obj)
            if o[0] == 'call' and sname(o[1]) == 'create':
                return created(o).get(s[3].lower() + s[4:])
        if obj is None or s not in ('add', 'remove', 'get', 'getElement', 'getCount', 'getElementCount'):
            return None
        obj = strip_as(obj)
        while obj[0] in ('addr', 'deref'):
            obj = strip_as(obj[1])
        i = int(args[0][1]) if len(args) == 1 and args[0][0] == 'c' and re.match(r'^\d+$', str(args[0][1])) else None
        if self.norm.own(obj):
            # a list of the function's own
            items = st.heap.get(('items', obj), ())
            if s == 'add' and len(args) == 1:
                st.heap[('items', obj)] = items + (args[0],)
            elif s.endswith('Count'):
                return C(str(len(items)))
            elif s in ('get', 'getElement') and i is not None and i < len(items):
                return items[i]
            return None
        key = ('removed', obj)
        gone = st.heap.get(key, ())
        if s == 'remove' and i is not None:
            st.heap[key] = gone + (i,)
        elif s in ('get', 'getElement') and i is not None and gone:
            for g in reversed(gone):
                i += g <= i
            return ('call', name, (obj, C(str(i))))
        elif s.endswith('Count') and gone and not args:
            return binop('-', ('call', name, (obj,)), C(str(len(gone))))
        return None

    def decide(self, p):
        if p not in self.memo:
            v = evalt(p, self.norm.atom)
            self.memo[p] = None if v is None else bool(v)
        return self.memo[p]


def created(t):
    """The fields an object is created with."""
    r = {}
    for a in t[2]:
        for x in (a[1] if a[0] == 'init' else ()):
            if x[0] in ('obj', 'new') and len(x[2]) == 2 and x[1].split('::')[-1] == 'Argument':
                k = unstr(x[2][0])
                if k[0] == 's':
                    r[k[1]] = x[2][1]
    return r


class HNorm(EgNorm):
    """EgNorm in which a created object is Class(fields), without its location and production."""

    def __init__(self, fn, roles=None, names=None, truth=None):
        EgNorm.__init__(self, fn, roles)
        self.alias = names or {}
        self.truth = truth or {}

    def t(self, t, d=0):
        r = EgNorm.t(self, t, d)
        return self.alias.get(r, r)

    def call(self, t, d=0):
        n = t[1].split('::')
        if n[-1] == 'create' and len(n) > 1 and '__' not in n[-2]:
            fields = []
            for a in t[2]:
                for x in (a[1] if a[0] == 'init' else ()):
                    if x[0] in ('obj', 'new') and len(x[2]) == 2:
                        k = self.t(x[2][0], d + 1).strip('"')
                        if k not in ('prodId', 'sourceLocation'):
                            fields.append('%s:%s' % (k, self.t(x[2][1], d + 1)))
            return '%s(%s)' % (n[-2], ','.join(sorted(fields)))
        return EgNorm.call(self, t, d)

    def atom(self, t):
        if t[0] in ('isa', 'call', 'f', 'out', 'v', 'eq', 'idx', 'deref', 'lt', 'bin', 'and'):
            s = self.t(t)
            if s in self.truth:
                return self.truth[s]
        return None


def pick(prog, q):
    """The definition of a handler function; of a template, the instance."""
    fs = [f for f in prog.byq.get(q, ()) if f.cfg.get('blocks')]
    fs = [f for f in fs if f.o.get('inst')] or fs
    if not fs:
        raise Broken('no definition of ' + q)
    return fs[0]


def ways(prog, fn):
    return [o for o in Walk(prog, HConfig(prog)).run(fn) if o.kind == 'return']


def effects(o, n, quiet=QUIET):
    r = []
    for e in o.events:
        s = sname(e.name)
        if s in quiet:
            continue
        base = ''
        if e.obj is not None:
            base = n.t(e.obj)
            if base == 'self' and e.name.rsplit('::', 1)[0] != '':
                base = e.name.split('::')[-2] if s in ('addData',) or s.startswith('on') else 'self'
        r.append('%s.%s(%s)' % (base, s, ','.join(n.t(a) for a in e.args)))
    return r


def hcase(chk, fn, outs, key, what, truth, want, ret=None, names=None, quiet=(), roles=None, some=True):
    """On every way consistent with truth the effects are those wanted (in any order)."""
    n = HNorm(fn, roles, names, truth)
    quiet = tuple(quiet) + ('setSourceLocation', 'setProdId')
    sel = [o for o in outs if consistent(o.facts, n.atom)]
    chk.count('ways through handlers', len(sel))
    if not sel and some:
        chk.violation(key, fn.loc(), '%s is not handled' % what)
    for o in sel:
        got = effects(o, n, quiet)
        if sorted(got) != sorted(want):
            chk.violation(key, fn.loc(o.node), '%s: does %s; it must do %s' % (what, '; '.join(got) or 'nothing', '; '.join(want) or 'nothing'))
            return
        if ret is not None and n.t(o.ret) != ret:
            chk.violation(key + ':ret', fn.loc(o.node), '%s: gives %s; it must give %s' % (what, n.t(o.ret), ret))
            return


def ancestors(prog, q):
    """Short names of all base classes, also those a class template has through its arguments."""
    cache = prog.__dict__.setdefault('_ancestors', {})
    if q not in cache:
        cache[q] = r = set()
        todo = [q]
        while todo:
            t = todo.pop()
            name, _, args = t.partition('<')
            c = prog.classes.get(name)
            args = split_ta(args[:-1]) if args else []
            for b in (c or {}).get('bases', ()):
                x = re.sub(r'type-parameter-0-(\d+)', lambda m: args[int(m.group(1))] if int(m.group(1)) < len(args) else '?', b.get('t') or b.get('q'))
                n = x.split('<')[0].split('::')[-1]
                if n not in r:
                    r.add(n)
                    todo.append(x)
    return cache[q]


class PCase(HNorm):
    """One situation a handler meets: what the parsed parts are.

    kinds: canonical text -> class of the object there (None: nothing there);
    vals: canonical text -> number, string or truth."""

    def __init__(self, prog, fn, kinds=None, vals=None, roles=None, names=None, calls=None):
        HNorm.__init__(self, fn, roles, names)
        self.fn = fn
        self.prog = prog
        self.calls = calls or {}    # function -> what it gives here ('f#2': what it leaves in argument 2)
        self.kinds = kinds or {}
        self.vals = vals or {}
        self.fields = {}

    def own(self, t):
        """A variable, not a parameter, of the function."""
        return t[0] == 'v' and t[1] not in [p['d'] for p in self.fn.params]

    def isa(self, cls, want):
        short = lambda q: q.split('<')[0].split('::')[-1]
        w = short(want)
        qs = [x for x in self.prog.classes if x.split('::')[-1] == cls and '::Ast::' in x]
        return cls == w or w in ('TiObject', 'Node') or any(w in ancestors(self.prog, q) for q in qs)

    def atom(self, t):
        k = t[0]
        if k == 's':
            return ('str', t[1])
        if k == 'isa':
            x = self.t(t[2])
            if x in self.kinds:
                c = self.kinds[x]
                return c is not None and self.isa(c, t[1])
            m = re.match(r'^(\w+)\(', x)
            if m and self.cls(m.group(1)):
                return self.isa(m.group(1), t[1])
            s = self.t(t)
            return self.vals.get(s)
        if k in ('c', 'enum', 'not', 'and', 'or', 'lt', 'cond', 'inc', 'dec', 'bin', 'un', 'init'):
            return None
        s = self.t(t)
        if k == 'eq':
            return self.vals.get(s)
        for x in (s, s.replace('getElementCount', 'getCount')):
            if x in self.vals:
                v = self.vals[x]
                return ('str', v) if isinstance(v, str) else v
        c = t[1] if k == 'out' else t
        if c[0] == 'call':
            v = self.calls.get(c[1].split('::')[-1] + ('#%s' % t[2] if k == 'out' else ''))
            if v is not None:
                return v
        if s in self.kinds:
            return self.kinds[s] is not None
        if k in ('obj', 'new') or re.match(r'^[A-Z]\w+\(', s) and self.cls(s.split('(')[0]):
            return True
        if s.startswith('get(') or s.startswith('ti_cast('):
            return None
        return None

    def cls(self, name):
        if not hasattr(self.prog, '_shortnames'):
            self.prog._shortnames = {c.split('::')[-1] for c in self.prog.classes}
        return name in self.prog._shortnames

    def t(self, t, d=0):
        if d < 40 and t[0] == 'cond':
            v = evalt(t[1], self.atom)
            if v is not None:
                return self.t(t[2] if v else t[3], d + 1)
        if t[0] in ('obj', 'new') and d:
            f = self.fields.get(t)
            if f:
                return '%s(%s)' % (t[1].split('::')[-1], ','.join('%s:%s' % x for x in sorted(f.items())))
        if t[0] == 'out' and t[1][0] == 'call' and t[1][1].split('::')[-1].startswith('parse'):
            c = t[1]
            a = [self.t(x, d + 1) for x in c[2]]
            k = t[2] + (1 if a and a[0] == 'self' else 0)
            return '%s(%s)' % (c[1].split('::')[-1], ','.join(x for i, x in enumerate(a) if i != k and x not in ('self', 'state', '_')))
        if t[0] in ('bin', 'inc', 'dec'):
            v = evalt(t, self.atom)
            if isinstance(v, int) and not isinstance(v, bool):
                return str(v)
        if t[0] in ('obj', 'new') and len(t[2]) == 1 and t[1].split('::')[-1] in ('TiStrBase', 'TiBoolBase', 'TiIntBase'):
            # a value in a box
            if t[1].endswith('TiBoolBase'):
                v = evalt(t[2][0], self.atom)
                if v is not None:
                    return str(int(bool(v)))
            r = self.t(t[2][0], d + 1)
            return r[:-4] if r.endswith('.getValue.get') else r
        return HNorm.t(self, t, d)

    def call(self, t, d=0):
        n = t[1].split('::')[-1]
        a = t[2]
        if n in ('get', 'getElement') and len(a) == 2 and a[1][0] in ('bin', 'c', 'inc', 'dec'):
            return '%s[%s]' % (self.t(a[0], d + 1), self.t(a[1], d + 1))
        if n in ('ti_cast', 'ti_cast_get', 's_cast', 's_cast_get') and a:
            return self.t(a[0], d + 1)
        if n == 'clone' and a and t[1].split('::')[-2] == 'Ast':
            return 'clone(%s)' % self.t(a[0], d + 1)
        if n == 'create' and '__' not in t[1].split('::')[-2]:
            fields, items = {}, []
            for a in t[2]:
                for x in (a[1] if a[0] == 'init' else ()):
                    if x[0] in ('obj', 'new') and len(x[2]) == 2 and x[1].split('::')[-1] == 'Argument':
                        k = self.t(x[2][0], d + 1).strip('"')
                        if k not in ('prodId', 'sourceLocation'):
                            fields[k] = self.t(x[2][1], d + 1)
                    else:
                        items.append(self.t(x, d + 1))
            f = self.fields.get(t)
            if f:
                fields.update(f)
            return '%s(%s)' % (t[1].split('::')[-2], ','.join(['%s:%s' % x for x in sorted(fields.items())] + items))
        return HNorm.call(self, t, d)


def result(o, n, quiet=(), known=None):
    """The effects of a way, with the fields set on new objects folded into the objects themselves."""
    n.fields = {}
    r, rest = [], []
    for e in o.events:
        s = sname(e.name)
        if s in ('setSourceLocation', 'setProdId') or s in quiet:
            continue
        obj = strip_as(e.obj) if e.obj is not None else None
        while obj is not None and obj[0] in ('addr', 'deref'):
            obj = strip_as(obj[1])
        if obj is not None and n.own(obj) and s == 'add':
            continue        # a list of the function's own
        new = obj is not None and (obj[0] in ('obj', 'new') or obj[0] == 'call' and sname(obj[1]) in ('create', 'newSrdObj'))
        if new and s.startswith('set') and len(e.args) in (1, 2):
            if s in ('setElement', 'setMember') and len(e.args) == 2:
                key = n.t(e.args[0]).strip('"')
                names = known(obj, s) if known and key.isdigit() else None
                if key.isdigit() and names and int(key) < len(names):
                    key = names[int(key)]
            else:
                key = s[3].lower() + s[4:]
            n.fields.setdefault(obj, {})[key] = n.t(e.args[-1], 1)
            continue
        if new and s == 'add' and len(e.args) in (1, 2):
            f = n.fields.setdefault(obj, {})
            f['+%d' % len(f)] = '='.join(re.sub(r'\.getValue\.get$', '.getValue', n.t(a, 1)) for a in e.args)
            continue
        rest.append(e)
    for e in rest:
        s = sname(e.name)
        base = ''
        if e.obj is not None:
            base = n.t(e.obj)
            if base == 'self':
                base = e.name.split('::')[-2] if s in ('addData',) or s.startswith('on') else 'self'
        args = [n.t(a, 1) for a in e.args]
        if s == 'setData' and (len(args) == 1 or args[1:] == ['-1']):
            r = [x for x in r if not x.startswith('setData ')]
            r.append('setData ' + ('nothing' if args[0] in ('0', 'null', '_', 'reset()') else args[0]))
            continue
        r.append('%s.%s(%s)' % (base, s, ','.join(args)))
    return r


def situation(prog, fn, kinds=None, vals=None, roles=None, names=None, calls=None, whole=None):
    """The ways through the function in the situation: (normaliser, outcomes)."""
    n = PCase(prog, fn, kinds, vals, roles, names, calls)
    outs = [o for o in Walk(prog, SConfig(prog, n, whole)).run(fn) if o.kind == 'return']
    n.fields = {}
    return n, [o for o in outs if consistent(o.facts, n.atom)]


def open_facts(o, n):
    return sorted(('' if v else '!') + n.t(t) for t, v in o.facts.items() if evalt(t, n.atom) is None)


def pcase(chk, prog, fn, key, what, kinds, vals, want, ret=None, roles=None, names=None, quiet=(), known=None, calls=None, whole=None):
    """In the situation given, every way does what is wanted (in any order)."""
    n, sel = situation(prog, fn, kinds, vals, roles, names, calls, whole)
    chk.count('ways through handlers', len(sel))
    chk.count('situations')
    if not sel:
        chk.violation(key, fn.loc(), '%s is not handled' % what)
    for o in sel:
        got = result(o, n, quiet, known)
        if sorted(got) != sorted(want):
            chk.violation(key, fn.loc(o.node), '%s: does %s; it must do %s' % (what, '; '.join(got) or 'nothing', '; '.join(want) or 'nothing'))
            return
        if ret is not None and n.t(o.ret) != ret:
            chk.violation(key + ':ret', fn.loc(o.node), '%s: gives %s; it must give %s' % (what, n.t(o.ret), ret))
            return
