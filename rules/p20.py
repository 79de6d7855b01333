"""P20: the parts a tree is made of are held, named and owned consistently."""
from tab import *
from children import *

TITLE = 'Parts of the tree are named, held, typed and owned consistently'
TECHNIQUE = ('comparison of every way through every class\'s part accessors (by position and by name), setters and destructors with one reference; agreement of type '
             'information and interfaces with the class hierarchy')
NOTE = ('All classes of the three libraries that give access to their parts or attributes, all type information and all interface tables in the current source. Parts of '
        'containers (lists, maps) are compared for every short sequence of items.')
RULE = ('position, name, value, setter, hold mode and needed type of a part speak of one field; a setter gives up what it held and owns what it is given, a destructor gives up '
        'what it owns; type information names the class and its real base; every interface a class implements can be reached')


def run(chk, prog):
    acc = accessed(chk, prog)
    owners(chk, prog, acc)
    types(chk, prog)
    chk.floor('accessors', 1000)
    chk.floor('parts', 60)
    chk.floor('attributes', 130)
    chk.floor('ways through setters', 2000)
    chk.floor('owned parts', 70)
    chk.floor('types', 340)
    chk.floor('interface tables', 95)


def closure(prog, q):
    """All base classes."""
    r, todo = [], [q]
    while todo:
        c = todo.pop(0)
        if c in r:
            continue
        r.append(c)
        for b in (prog.classes.get(c) or {'bases': ()})['bases']:
            if b.get('q'):
                todo.append(b['q'])
            for x in re.findall(r'[\w:]+', b.get('t', '')):
                if x in prog.classes:
                    todo.append(x)
    return r


def plain(t):
    """A type's short text."""
    t = re.sub(r'\b(const|class|struct)\b', '', t)
    return re.sub(r'[\w]+::|\s|[&*]', '', t)


def stem(t):
    return plain(t.split('<')[0])


def content(t):
    m = re.match(r'(?:[\w:]+::)?SharedPtr<(.*)>$', t.strip())
    return (m.group(1).strip(), 'SHARED_REF') if m else (t.strip().rstrip('* '), 'PLAIN_REF') if t.strip().endswith('*') else (t.strip(), 'VALUE')


def wanted(t):
    """Class of which the type information is given."""
    t = strip_as(t)
    return stem(t[1][:-len('::getTypeInfo')]) if t[0] == 'call' and t[1].endswith('::getTypeInfo') else None


class Setting(Tab):
    def __init__(self, norm, bases):
        Tab.__init__(self, norm, ('setOwner', 'setElement', 'setMember'))
        self.bases = bases

    def target(self, w, st, callee, node, own):
        # the class's own function in place of that of a base
        sig = '@F@' + node['u'].rsplit('@F@', 1)[-1]
        if own and '@F@set' in sig:
            for b in self.bases:
                if callee is not None and callee.q.rsplit('::', 1)[0] == b:
                    break
                for f in w.prog.byq.get(b + '::' + sig[3:].split('#')[0], ()):
                    if f.u.endswith(sig):
                        return f
        return callee

    def inline(self, callee, name, node):
        return callee.q.rsplit('::', 1)[0] in self.bases and callee.n.startswith('set') and not (callee.n in self.steps and len(callee.params) != 1) and callee.n != 'setOwner'

    def event(self, name, node, fn):
        return Tab.event(self, name, node, fn) and (sname(name) == 'setOwner' or len(node['c']) > 2)

    def call_value(self, w, st, name, node, obj, args):
        if sname(name) == 'getSharedPtr' and len(args) == 1:
            return args[0]
        if sname(name) == 'set' and len(args) == 1 and obj is not None and strip_ref(obj)[0] == 'f':
            st.heap[strip_ref(obj)] = args[0]
            return None
        return Tab.call_value(self, w, st, name, node, obj, args)


def select(prog, fn, kind, byname, cfg):
    """selector -> ways; None: the rest."""
    r = {}
    for o in Walk(prog, cfg).run(fn):
        hit = [k for k in ((named(p) if byname else at(p, 'get%sCount' % kind)) for p, v in o.facts.items() if v) if k is not None]
        r.setdefault(hit[0] if hit else None, []).append(o)
    return r


def isa(o, n, what, at):
    for p, v in o.facts.items():
        if p[0] == 'isa' and n.t(p[2]) == at and stem(p[1]) == what:
            return v
    return None


def accessed(chk, prog):
    held = {}
    for cls in sorted(prog.classes):
        if '<' in cls or '::Tests' in cls:
            continue
        for kind in ('Element', 'Member'):
            acc = accessors(prog, cls, kind)
            f = acc.get(('get', False))
            if not f:
                continue
            sel = {}
            for k, fn in acc.items():
                a = Access(prog, fn, 'get%sCount' % kind, k[1])
                sel[k] = a
            if not sel[('get', False)].sel:
                continue
            one(chk, prog, cls, kind, acc, sel, held)
    return held


def one(chk, prog, cls, kind, acc, sel, held):
    key = 'accessors:%s:%s' % (cls.split('::', 1)[1], kind)
    fields = {}
    for c in closure(prog, cls):
        for x in (prog.classes.get(c) or {'fields': ()})['fields']:
            fields.setdefault(x['n'], x['t'])
    noun = 'part' if kind == 'Element' else 'attribute'

    def bad(fn, msg, o=None):
        chk.violation(key, fn.loc(o.node if o else None), '%s: %s' % (cls, msg))

    for k in acc:
        chk.count('accessors')
    gi = sel[('get', False)]
    n = len(gi.sel)
    if sorted(gi.sel) != list(range(n)):
        return bad(gi.fn, 'positions %s' % sorted(gi.sel))
    names = {}
    for i in range(n):
        o = gi.sel[i]
        t = {text(gi.n, x) for x in o}
        if len(t) != 1 or not next(iter(t)).startswith('self.'):
            return bad(gi.fn, '%s %d is %s' % (noun, i, ' or '.join(sorted(t))), o[0])
        names[i] = next(iter(t))[5:]
        chk.count('parts' if kind == 'Element' else 'attributes')
    if len(set(names.values())) != n:
        bad(gi.fn, 'two positions are one field: %s' % ', '.join(names[i] for i in range(n)))
    c = sel.get(('count', False))
    if c:
        # the number
        for o in [x for l in c.sel.values() for x in l] + c.rest:
            k = strip_as(o.ret)
            v = None
            if k[0] == 'bin' and k[1] == '+':
                v = [int(x[1]) for x in (strip_as(k[2]), strip_as(k[3])) if x[0] == 'c']
            if v != [n]:
                bad(c.fn, 'it has %d %ss and says %s' % (n, noun, text(c.n, o)), o)
    for (role, byname), a in sel.items():
        if role in ('count', 'set') or (role, byname) == ('get', False):
            continue
        want = set(names.values()) if byname else set(names)
        if set(a.sel) != want:
            bad(a.fn, '%s%s knows %s; there are %s' % (role, ' by name' if byname else '', sorted(a.sel), sorted(want)))
            continue
        for s, os in a.sel.items():
            i = [j for j in names if names[j] == s][0] if byname else s
            t = {text(a.n, o) for o in os if o.kind != 'throw'}
            f = names[i]
            ty, mode = content(fields.get(f, '?'))
            if any(o.kind == 'throw' for o in os):
                t.add('an exception')
            if role == 'get':
                w = {'self.' + f}
            elif role == 'key':
                w = {'sbstr_cast("%s")' % f}
            elif role == 'find':
                w = {'(%d+self.get%sCount)' % (i, kind), '(self.get%sCount+%d)' % (kind, i)}
                if len(t) == 1 and t <= w:
                    w = t
            elif role == 'mode':
                w = {mode}
            elif role == 'needed':
                t = {str(wanted(o.ret)) for o in os}
                w = {stem(ty)} if mode != 'VALUE' else t if len(t) == 1 else set()
                held.setdefault((cls, kind, 'needed'), {}).setdefault(f, set()).update(t)
                if len(held[(cls, kind, 'needed')][f]) != 1:
                    w = held[(cls, kind, 'needed')][f] - t
            else:
                continue
            if t != w:
                bad(a.fn, '%s of %s "%s" is %s; it must be %s' % ({'get': 'the value', 'key': 'the name', 'find': 'the position', 'mode': 'the hold mode', 'needed': 'the needed type'}[role],
                                                                noun, f, ' or '.join(sorted(t)), ' or '.join(sorted(w))), os[0])
        # what it does not know is asked of the class before it
        name = a.fn.n
        for o in a.rest:
            if o.kind == 'throw':
                continue
            t = strip_as(o.ret) if o.ret else ('c', '0')
            if not (t[0] == 'call' and sname(t[1]) == name and t[1].rsplit('::', 1)[0] != cls):
                bad(a.fn, '%s%s of anything else is %s; it must be that of the base class' % (role, ' by name' if byname else '', text(a.n, o)), o)
    held[(cls, kind)] = [(names[i],) + content(fields.get(names[i], '?')) for i in range(n)]
    bases = closure(prog, cls)
    for byname in (False, True):
        fn = acc.get(('set', byname))
        if not fn:
            if ('set', not byname) in acc:
                bad(acc[('set', not byname)], 'it can be changed only one way')
            continue
        cfg = Setting(WNorm(fn), bases)
        m = cfg.norm
        ways = select(prog, fn, kind, byname, cfg)
        want = set(names.values()) if byname else set(names)
        if set(ways) - {None} != want:
            bad(fn, 'set%s knows %s; there are %s' % (' by name' if byname else '', sorted(x for x in ways if x is not None), sorted(want)))
            continue
        for s, os in ways.items():
            if s is None:
                for o in os:
                    if o.kind != 'throw' and [sname(e.name) for e in o.events] != [fn.n]:
                        bad(fn, 'setting anything else is not left to the base class', o)
                continue
            i = [j for j in names if names[j] == s][0] if byname else s
            setting(chk, prog, cls, kind, fn, m, names[i], content(fields.get(names[i], '?')), held.get((cls, kind, 'needed'), {}).get(names[i], {None}), os, bad, bases, i if byname else None, set(names.values()))


def setting(chk, prog, cls, kind, fn, m, f, ty, needed, os, bad, bases, i, parts):
    needed = next(iter(needed))
    some = set()
    for o in os:
        chk.count('ways through setters')
        given = None
        for p, v in o.facts.items():
            if m.t(p) == 'val':
                given = v
            if m.t(p) in ('(val==0)', '(0==val)'):
                given = not v
        kinds = [(stem(p[1]), v) for p, v in o.facts.items() if p[0] == 'isa' and m.t(p[2]) == 'val']
        fits = next((v for k, v in kinds if k == needed), None)
        if o.kind == 'throw' and o.fn is not fn:
            some.add(fits is False)             # the setter itself has a reason
            continue
        if o.kind == 'throw':
            if fits is not False or given is not True:
                bad(fn, 'setting "%s" is refused%s' % (f, ' although the value is a %s' % needed if fits else ''), o)
            continue
        if fits is False and given is True:
            bad(fn, 'setting "%s" takes a value that is not a %s' % (f, needed), o)
            continue
        if fits is None and given is not False:
            bad(fn, 'setting "%s" does not see whether the value is a %s' % (f, needed), o)
            continue
        empty = fits is False
        some.add(empty)
        heap = {m.t(k): m.t(v) for k, v in o.state.heap.items() if k[0] == 'f'}
        t = heap.get('self.' + f)
        if t is None or (empty and ty[1] == 'VALUE' and 'val.' in t) or (not empty and not re.search(r'\bval\b', t)) or (ty[1] != 'VALUE' and t not in ('val', '0' if empty else 'val')):
            bad(fn, 'setting "%s" to %s makes it %s' % (f, 'nothing' if empty else 'a value', t if t else 'stay what it was'), o)
        other = [k for k in sorted(heap) if re.split(r'[.\[(]', k + '.')[:1] == ['self'] and re.split(r'[.\[(]', k)[1] in parts - {f}]
        if other:
            bad(fn, 'setting "%s" changes %s too' % (f, ', '.join(other)), o)
        if i is not None:
            p = m.t(o.ret) if o.ret else ''
            if p not in ('(%d+self.get%sCount)' % (i, kind), '(self.get%sCount+%d)' % (kind, i)):
                bad(fn, 'setting "%s" gives position %s' % (f, p), o)
        if ty[1] == 'SHARED_REF' and 'Core::Data::Node' in bases:
            owned(o, m, f, fn, bad, 'val', empty, mayown(prog, ty[0]))
    if some != {True, False}:
        bad(fn, '"%s" cannot be %s' % (f, 'set' if False not in some else 'reset'))


def mayown(prog, t):
    return t.split('::')[-1] == 'TiObject' or 'Core::Data::Node' in closure(prog, t)


def owned(o, m, f, fn, bad, val, empty, node):
    got = [(m.t(e.obj) if e.obj else '', m.t(e.args[0]) if e.args else '') for e in o.events if sname(e.name) == 'setOwner']
    was, new = isa(o, m, 'Node', 'self.' + f), isa(o, m, 'Node', val)
    mine = None
    for p, v in o.facts.items():
        if m.t(p) in ('(self==self.%s.getOwner)' % f, '(self.%s.getOwner==self)' % f):
            mine = v
    want = []
    if (was if not node else was is not False) and mine is not False:
        want.append(('self.' + f, '0'))
    if not empty and (new if not node else new is not False):
        want.append((val, 'self'))
    if empty and new and (val, 'self') in got:
        want.append((val, 'self'))
    if got != want:
        bad(fn, 'setting "%s" (what is held is %sa node%s; the new value is %sa node) makes owners %s; it must make them %s' % (
            f, 'not ' if was is False else '', '' if mine is None else ', owned by this' if mine else ', owned by another', 'not ' if empty or new is False else '',
            ', '.join('%s: %s' % x for x in got) or 'none', ', '.join('%s: %s' % x for x in want) or 'none'), o)


class Ending(Tab):
    """A destructor with what it calls of its own class."""

    def __init__(self, norm, cls, kinds):
        Tab.__init__(self, norm, ('setOwner',), kinds=kinds)
        self.cls = cls

    def inline(self, callee, name, node):
        return callee.q.rsplit('::', 1)[0] == self.cls and callee.n not in self.steps


def owners(chk, prog, acc):
    # a class that owns parts gives them up when it ends
    for k in sorted(k for k in acc if len(k) == 2):
        cls, kind = k
        if 'Core::Data::Node' not in closure(prog, cls):
            continue
        own = {x['n'] for x in prog.classes[cls]['fields']}
        parts = [f for f, t, mode in acc[k] if f in own and mode == 'SHARED_REF' and mayown(prog, t)]
        parts = [f for f in parts if kind == 'Element' or sets(prog, cls, f)]
        if not parts:
            continue
        fns = [f for f in prog.byq.get(cls + '::~' + sname(cls), ()) if f.cfg.get('blocks')]
        if not fns:
            c = prog.classes[cls]
            chk.violation('ends:' + cls, '%s:%s' % (c.get('f', '?'), c.get('l', '?')), '%s owns %s and never gives them up: it has no destructor' % (cls, ', '.join(parts)))
            continue
        for f in parts:
            chk.count('owned parts')
            w = Ending(WNorm(fns[0]), cls, {'self.' + g: ('Node',) if g == f else None for g in {x[0] for kk in acc if kk[0] == cls and len(kk) == 2 for x in acc[kk]}})
            m = w.norm
            outs = [o for o in Walk(prog, w).run(fns[0]) if o.kind != 'throw']
            for o in outs:
                mine = next((v for p, v in o.facts.items() if m.t(p) in ('(self==self.%s.getOwner)' % f, '(self.%s.getOwner==self)' % f)), None)
                got = [m.t(e.args[0]) for e in o.events if e.obj and m.t(e.obj) == 'self.' + f]
                if mine is not False and got != ['0']:
                    chk.violation('ends:' + cls, fns[0].loc(o.node), '%s: when it ends, "%s" keeps it as its owner' % (cls, f))
                    break
                if mine is False and got:
                    chk.violation('ends:' + cls, fns[0].loc(o.node), '%s: when it ends, "%s" loses an owner that is another' % (cls, f))
                    break


def sets(prog, cls, f):
    """The class makes itself the owner of that field somewhere."""
    for g in prog.fns.values():
        if g.q.rsplit('::', 1)[0] == cls and g.n.startswith('set') and g.cfg.get('blocks') and any(n.get('n') == 'setOwner' for n in g.nodes):
            if any(n['k'] == 'MemberExpr' and n.get('n') == f for n in g.nodes):
                return True
    return False


# -- type information ---------------------------------------------------------
def own(prog, cls, n):
    return [f for f in prog.byq.get(cls + '::' + n, ()) if f.cfg.get('blocks')]


def short(q):
    return q.split('<')[0].split('::')[-1]


def calls(f, n):
    return [x for x in f.nodes if x['k'] in ('Call', 'MCall', 'OpCall') and short(x.get('fn', '')) == n]


def classof(x):
    return x['fn'].rsplit('::', 1)[0]


def objbases(prog, c):
    """The base of the class that is an object, those that are interfaces."""
    o, i = [], []
    for b in c['bases']:
        q = b.get('q')
        while q and q != 'Core::Basic::TiInterface':
            up = (prog.classes.get(q) or {'bases': ()})['bases']
            t = up[0]['t'].split('<')[0] if up else ''
            q = up and (up[0].get('q') or next((x for x in (t, q.rsplit('::', 1)[0] + '::' + t) if x in prog.classes), None)) or None
        (i if q else o).append(b)
    return o, i


def types(chk, prog):
    names = {}
    for f in sorted(prog.fns.values(), key=lambda f: f.q):
        if f.n != 'getTypeInfo' or '/Tests/' in f.f or not f.cfg.get('blocks'):
            continue
        cls = f.q.rsplit('::', 1)[0]
        c = prog.classes.get(cls)
        if not c:
            continue
        lits = [n['v'] for n in f.nodes if n['k'] == 'StringLiteral']
        full = [v for v in lits if v.startswith('alusus.org/')]
        if not full:
            continue
        chk.count('types')
        template = full[0].endswith('.')
        key = 'types:' + cls

        def bad(msg, node=None):
            chk.violation(key, f.loc(node), '%s: %s' % (cls, msg))
        # the parts of the name, as given to the object that keeps them
        make = [n for n in f.nodes if n['k'] == 'Construct' and short(n.get('fn', '')) in ('ExtendedTypeInfo', 'TypeInfo', 'ObjectTypeInfo', 'InterfaceTypeInfo', 'ObjInterfaceTypeInfo') and len(n['c']) > 4]
        if template and any('Dependent' in n['k'] or 'Unresolved' in n['k'] for n in f.nodes):
            continue                # not for any arguments yet
        if len(make) != 1:
            bad('its type information is made %d times' % len(make))
            continue
        a = [f.nodes[x] for x in make[0]['c']]

        def s(x):
            while x['k'] != 'StringLiteral' and len(x['c']) == 1:
                x = f.nodes[x['c'][0]]
            return x['v'] if x['k'] == 'StringLiteral' else None
        v = [s(x) for x in a[:4]]
        if not template and full[0] != '%s/%s/%s.%s' % (v[3], v[2], v[1], v[0]) or template and full[0] != '%s/%s/%s.' % (v[3], v[2], v[1]):
            bad('it is kept as "%s" and named "%s/%s/%s.%s"' % (full[0], v[3], v[2], v[1], v[0]), make[0])
        unique = full[0] + (lits[0] if template else '')
        if unique in names and names[unique] != cls:
            bad('it is kept under the name of %s, "%s"' % (names[unique], unique))
        names[unique] = cls
        # what it derives from
        o, i = objbases(prog, c)
        real = (o or i)
        real = real[0] if real else None
        g = [n for n in calls(f, 'getTypeInfo') if n is not None and classof(n) != cls]
        if real and '<' not in real['t'] and 'parameter' not in real['t'] and [classof(n) for n in g] != [real['q']] and not template:
            bad('its type information derives from that of %s; its base is %s' % (', '.join(classof(n) for n in g) or 'nothing', real['q']))
        # what makes objects of it
        for h in own(prog, cls, '_getFactory'):
            for n in h.nodes:
                if n['k'] == 'Call' and short(n.get('fn', '')) in ('getTiObjectFactory', 'getObjTiInterfaceFactory') and not template and n.get('ta', '').split('<')[0] != cls:
                    chk.violation(key, h.loc(n), '%s: objects of it are made as %s' % (cls, n.get('ta')))
        fac = calls(f, '_getFactory')
        for n in fac:
            if classof(n) != cls:
                bad('objects of it are made as %s' % classof(n), n)
        if template:
            continue
        for m in ('getMyTypeInfo', 'getMyInterfaceInfo', 'getMyObjInterfaceInfo'):
            for h in own(prog, cls, m):
                t = [classof(n) for n in calls(h, 'getTypeInfo')]
                if t != [cls]:
                    chk.violation(key, h.loc(), '%s: an object of it says that it is %s' % (cls, ', '.join(t) or 'nothing'))
        if not [1 for m in ('getMyTypeInfo', 'getMyInterfaceInfo') if own(prog, cls, m)]:
            bad('objects of it say that they are of the base class')
        table_of(chk, prog, cls, c, o, i, key)


def table_of(chk, prog, cls, c, o, i, key):
    h = own(prog, cls, '_getInterface')
    ptr = own(prog, cls, 'getInterfacePtr')
    want = {plain(b['t'].split('<')[0]) for b in i}
    if not h and not ptr and o and i:
        chk.violation(key, '%s:%s' % (c['f'], c['l']), '%s: %s cannot be asked for' % (cls, ', '.join(sorted(want))))
    for f in h:
        chk.count('interface tables')
        got = {stem(classof(n)) for n in calls(f, 'getInterfacePtr') + calls(f, 'isInterfaceDerivedFrom')}
        for x in sorted(want - got):
            chk.violation(key, f.loc(), '%s: its %s cannot be asked for' % (cls, x))
        up = {stem(classof(n)) for n in calls(f, '_getInterface')}
        base = {stem(next((x for x in closure(prog, b['q']) if own(prog, x, '_getInterface')), b['q'])) for b in o if b.get('q')}
        if o and up != base and 'parameter' not in str(o):
            chk.violation(key, f.loc(), '%s: what it does not have itself is asked of %s; its base is %s' % (cls, ', '.join(sorted(up)) or 'nothing', ', '.join(sorted(base))))
    for f in ptr:
        chk.count('interface tables')
        w = Tab(WNorm(f), ('getInterfacePtr',), kinds={'self': (short(cls),)})
        for x in Walk(prog, w).run(f):
            own_ = next((v for p, v in x.facts.items() if 'getTypeInfo' in str(p)), None)
            r = w.norm.t(strip_ref(x.ret))
            if own_ and r != 'self' or own_ is False and [stem(e.name.rsplit('::', 1)[0]) for e in x.events] != [plain(b['t'].split('<')[0]) for b in i][:1] or own_ is None:
                chk.violation(key, f.loc(x.node), '%s: asked for %s it gives %s' % (cls, 'itself' if own_ else 'another interface', r))
