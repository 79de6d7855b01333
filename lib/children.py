"""The parts (elements) and attributes (members) of a class as its generated
accessors give them: by position, by name, read and written."""
from handlers import *


def at(t, count):
    """Offset of a position test (count + k == position), either side."""
    if t[0] != 'eq':
        return None
    for a, b in ((t[1], t[2]), (t[2], t[1])):
        b0 = strip_as(b)
        if b0[0] != 'v':
            continue
        a0 = strip_as(a)
        if a0[0] == 'bin' and a0[1] == '+':
            for x, y in ((a0[2], a0[3]), (a0[3], a0[2])):
                x, y = strip_as(x), strip_as(y)
                if x[0] == 'call' and x[1].split('::')[-1] == count and y[0] == 'c':
                    return int(y[1])
        if a0[0] == 'call' and a0[1].split('::')[-1] == count:
            return 0
    return None


def named(t):
    """Name of a name test ("x" == name)."""
    if t[0] != 'eq':
        return None
    for a in (t[1], t[2]):
        a = strip_as(a)
        while a[0] == 'call' and a[1].split('::')[-1] == 'sbstr_cast' and a[2]:
            a = strip_as(a[2][-1])
        if a[0] == 's':
            return a[1]
    return None


class Access:
    """One accessor of one class: selector (offset or name) -> ways."""

    def __init__(self, prog, fn, count, byname):
        self.fn = fn
        self.sel = {}
        self.rest = []
        self.n = HNorm(fn)
        for o in Walk(prog, HConfig(prog)).run(fn):
            hit = [p for p, v in o.facts.items() if v and (named(p) if byname else at(p, count)) is not None]
            if hit:
                self.sel.setdefault(named(hit[0]) if byname else at(hit[0], count), []).append(o)
            else:
                self.rest.append(o)


def accessors(prog, cls, kind):
    """The accessors the class itself defines: (role, by name) -> Function."""
    r = {}
    for role, nm in (('get', 'get' + kind), ('set', 'set' + kind), ('remove', 'remove' + kind), ('needed', 'get%sNeededType' % kind),
                     ('mode', 'get%sHoldMode' % kind), ('key', 'get%sKey' % kind), ('count', 'get%sCount' % kind), ('find', 'find%sIndex' % kind)):
        for f in prog.byq.get(cls + '::' + nm, ()):
            if not f.cfg.get('blocks'):
                continue
            byname = bool(f.params) and 'char' in f.params[0]['t']
            r.setdefault((role, byname), f)
    return r


def text(n, o):
    return n.t(o.ret) if o.ret else ''


def fieldnames(prog, cls, kind):
    """Names of the parts by position offset, including those of the base classes before them."""
    own = accessors(prog, cls, kind)
    base = []
    c = prog.classes.get(cls)
    for b in (c or {}).get('bases', ()):
        if b.get('q') and (kind == 'Element' or True):
            base = fieldnames(prog, b['q'], kind) or base
    f = own.get(('get', False))
    if not f:
        return base
    a = Access(prog, f, 'get%sCount' % kind, False)
    names = {}
    for k, os in a.sel.items():
        for o in os:
            names[k] = text(a.n, o).split('.')[-1]
    return base + [names.get(i, '?') for i in range(len(names))]
