"""P10: a construct whose part fails fails itself."""
from fallible import *

TITLE = 'A construct with a part that fails to compile fails as a whole'
TECHNIQUE = 'typestate analysis: a failed step must reach a failing result on every path of the control flow graph'
NOTE = ('Every call of a fallible step (found through the call graph: whatever can add a notice or call the target generator and '
        'reports success as a truth value) in every function that itself reports success; all paths, states merged, booleans '
        'and repeated tests tracked; new helpers inlined.')
RULE = ('typestate over the control flow graph of every function that reports success as a truth value: after a fallible step '
        'returned false, no path may return true or an unknown value')


def tested(ts, fn, i):
    """Whether the type looked up by the call i is compared with null somewhere."""
    if 'tested' not in fn._x:
        vs, es = set(), set()
        for j, n in fn.all_nodes():
            if n['k'] in ('BinaryOperator', 'OpCall') and n.get('op') in ('==', '!='):
                for c in n['c']:
                    c = ts.strip(fn, c)
                    es.add(c)
                    if fn.nodes[c]['k'] == 'DeclRefExpr':
                        vs.add(fn.nodes[c]['d'])
        for j, n in fn.all_nodes():
            if n['k'] == 'DeclStmt':
                es |= {ts.strip(fn, v['i']) for v in n['vars'] if v['i'] >= 0 and v['d'] in vs}
            elif n['k'] == 'BinaryOperator' and n['op'] == '=' and fn.nodes[ts.strip(fn, n['c'][0])].get('d') in vs:
                es.add(ts.strip(fn, n['c'][1]))
        fn._x['tested'] = es
    return i in fn._x['tested']


class P10(Rule):
    depth = 4

    def __init__(self, chk, fa_of):
        self.chk = chk
        self.fa_of = fa_of
        self.where = {}

    def call(self, ts, st, fn, i, n, name):
        if n['k'] == 'Construct':
            return None
        fa = self.fa_of[0]
        if fa.tg(fn, n):
            if not fa.tg_can_fail(fn, n):
                return [(st.rule, T)]
            c = name
        else:
            l = fa.fallible(fn, n)
            c = ts.target(fn, n)
            if c is not None and c.n in POINTERS[:3] and c.u in fa.explaining and c.o['ret'].endswith('*') and tested(ts, fn, i):
                l = [c]
            if not l:
                return None
            c = l[0].q
        if (fn.u, i) not in self.where:
            self.chk.count('calls of fallible steps')
        self.where[(fn.u, i)] = (c, fn.loc(i))
        return [(st.rule, T), (st.rule or (fn.u, i), F)]

    def ret(self, ts, st, fn, i, v):
        if st.rule and v != F:
            c, loc = self.where[st.rule]
            self.chk.violation('%s:%s' % (fn.q, c), loc, '%s: when %s fails here, the function can still return %s at %s' % (
                fn.q, c.split('::')[-1].lstrip('_'), 'true' if v == T else 'an unknown result', fn.loc(i) if i is not None else 'its end'))


def run(chk, prog):
    h = [None]
    r = P10(chk, h)
    ts = TS(prog, r)
    h[0] = fa = Fallible(prog, ts)
    for f in sorted(fa.fns, key=lambda f: f.u):
        if f.u not in fa.explaining or f.o['ret'] not in BOOLS or predicate(f.q) or not f.cfg.get('blocks'):
            continue
        chk.count('functions that report success')
        ts.run(f, [''])
    chk.floor('functions that report success', 150)
    chk.floor('calls of fallible steps', 380)
    chk.count('states', ts.steps)
