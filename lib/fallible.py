"""Which operations of the compiler can fail, and how they say so."""
from ts import *
from facts import *

TGN = 'Spp::CodeGen::TargetGeneration::'
ADD = 'Core::Notices::Store::add'
ADDS = (ADD, 'Core::Processing::ParserState::addNotice')
# Lookups that give null only for what was rejected with a notice.
POINTERS = ('traceType', '_traceType', '__traceType', '_getReferenceTypeFor', '_getPointerTypeFor', '_getArrayTypeFor',
            '_getValueTypeFor')
BOOLS = ('bool', 'Bool', 'Core::Basic::Bool')


def sites(ts, f):
    for i, n in f.all_nodes():
        if n['k'] in CALLS:
            yield i, n


class Fallible:
    """explaining: functions from which a notice may be added, or an operation
    of the target generator called."""

    def __init__(self, prog, ts):
        self.prog = prog
        self.ts = ts
        self.fns = [f for f in prog.fns.values() if ('/Sources/Spp/' in f.f or '/Sources/Core/' in f.f) and not f.o.get('inst')]
        direct = {TGN}
        self.calls = {}
        over = prog.overriders()
        for f in self.fns:
            cs = set()
            for i, n in sites(ts, f):
                if n.get('fn') in ADDS:
                    direct.add(f.u)
                if self.tg(f, n):
                    cs.add(TGN)
                for c in self.targets(f, n):
                    cs.add(c.u)
            self.calls[f.u] = cs
        s = direct
        ch = True
        while ch:
            ch = False
            for f in self.fns:
                if f.u not in s and self.calls[f.u] & s:
                    s.add(f.u)
                    ch = True
        self.explaining = s
        self.tgfail = None

    def tg(self, f, n):
        return n.get('t') in BOOLS and self.ts.callee(f, n)[0].startswith(TGN)

    def targets(self, f, n):
        c = self.ts.target(f, n)
        r = [c] if c is not None else []
        if n.get('virt') and n.get('u'):
            r += self.prog.overriders().get(n['u'], [])
        return r

    def fallible(self, f, n):
        """The functions called here that report success as a truth value."""
        return [c for c in self.targets(f, n) if c.u in self.explaining and c.o['ret'] in BOOLS and not predicate(c.q)]

    def tg_can_fail(self, f, n):
        """Whether some implementation of this target operation can return false."""
        if self.tgfail is None:
            self.tgfail = {}
        name = self.ts.callee(f, n)[0]
        if name not in self.tgfail:
            r = False
            b = [self.prog.fns.get(x[0][1]) for x in self.prog.bindings().get(name, []) if x[0]]
            if not b or None in b:
                r = True
            for g in b:
                if g is not None and g.cfg.get('blocks'):
                    t = TS(self.prog, Rule())
                    if any(v != T for _, v in t.run(g, [''])):
                        r = True
            self.tgfail[name] = r
        return self.tgfail[name]


def predicate(name):
    s = name.split('::')[-1].lstrip('_')
    return s.startswith(('is', 'has', 'match', 'operator', 'lookup', 'get', 'find', 'try', 'check', 'can')) and not s.startswith(
        ('getThis', 'getGenerated', 'getTypeAllocationSize', 'getModifierStringParams'))
