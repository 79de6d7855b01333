"""Comparison of the ways through a generator function with a table of cases."""
from eg import *
from terms import *


class TableNorm(CaseNorm):
    """CaseNorm whose facts and names are given as canonical texts."""

    def atom(self, t):
        k = t[0]
        if k in ('isa', 'call', 'f', 'out', 'v', 'eq', 'idx', 'deref', 'lt', 'bin'):
            s = self.t(t)
            if s in self.extra:
                return self.extra[s]
        return CaseNorm.atom(self, t)


def shown(e, n):
    return sname(e.name) + '(' + ', '.join(n.t(x) for x in e.args) + ')'


IGNORE = ('getGeneratedType', 'getCodeGenData', 'getAstHelper', 'getEda', 'getTg', 'getTgContext')


def calls(o, n, ignore=IGNORE):
    return [shown(e, n) for e in o.events if sname(e.name) not in ignore]


def ok(o):
    return succeeded(o)


def case(chk, fn, outs, key, what, facts, want, types=None, roles=None, ignore=IGNORE, only=None):
    """want: None if the case must not succeed, else a dict with
    calls: list of calls (or list of alternatives), type, value, node, ret."""
    n = TableNorm(fn, roles, types or {}, facts)
    sel = [o for o in outs if o.kind == 'return' and succeeded(o) and consistent(o.facts, n.atom)]
    if only:
        sel = [o for o in sel if only(o, n)]
    if want is None:
        if sel:
            chk.violation(key, fn.loc(sel[0].node), '%s is accepted; it must be rejected' % what)
        return sel
    if not sel:
        chk.violation(key, fn.loc(), '%s is rejected' % what)
    for o in sel:
        got = calls(o, n, ignore)
        w = want.get('calls')
        if w is not None:
            alts = w if w and isinstance(w[0], list) else [w]
            if got not in alts:
                chk.violation(key, fn.loc(o.node), '%s does %s; it must do %s' % (what, got or 'nothing', alts[0] or 'nothing'))
        for fld, nm in (('type', 'astType'), ('value', 'targetData'), ('node', 'astNode')):
            if fld in want:
                v = result_field(o, fn, nm)
                v = n.t(v) if v is not None else None
                if v != want[fld] and not (isinstance(want[fld], tuple) and v in want[fld]):
                    chk.violation(key + ':' + fld, fn.loc(o.node), '%s yields the %s %s; it must be %s' % (what, fld, v, want[fld]))
        if 'ret' in want and n.t(o.ret) != want['ret']:
            chk.violation(key + ':ret', fn.loc(o.node), '%s returns %s; it must return %s' % (what, n.t(o.ret), want['ret']))
    return sel
