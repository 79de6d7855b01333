"""P04: assignment, compound assignment, increment and decrement."""
from tg import *
from eg import *
from terms import *
from p01 import strip_, TYPES, tg_atom, isint, cast, check_case, tg_calls, INTS, NAMES

TITLE = 'Assignments, compound assignments, ++ and -- store and yield the right value'

TECHNIQUE = 'path-sensitive dataflow summaries of the code generator, enumerated over operators and operand types, compared with a table'
NOTE = ('Exhaustive over the operator symbols, operand kinds and built-in type pairs; decided on the syntax tree of the '
        'generator, path-sensitively, new helpers inlined. Trusts the clang front end, the summary engine, and that LLVM '
        'implements the instruction it is asked to build.')

RULE = ('path summaries: (1) the LLVM target generator must store the assigned value, or the result of the operator applied '
        'to the loaded old value and the operand, or the old value plus/minus one, to the destination exactly once, and '
        'yield the destination (assignments), the new value (prefix) or the old value (postfix); (2) for every operator '
        'and pair of types the expression generator must take the destination as a reference, convert the operand to the '
        'content type, hand both in order to the target method of that operator and yield the destination reference type '
        '(content type for ++/--); anything else is rejected; (3) an arithmetic assignment is the assignment of the '
        'arithmetic operation on the same operands to the left operand')

D = 'P2.getLlvmValue'
L = 'Load(%s)' % D
S = 'P3.getLlvmValue'

BIN = {
    'ShrAssign': {'s': 'AShr(%s,%s)', 'u': 'LShr(%s,%s)'},
    'ShlAssign': {'s': 'Shl(%s,%s)', 'u': 'Shl(%s,%s)'},
    'AndAssign': {'s': 'And(%s,%s)', 'u': 'And(%s,%s)'},
    'OrAssign': {'s': 'Or(%s,%s)', 'u': 'Or(%s,%s)'},
    'XorAssign': {'s': 'Xor(%s,%s)', 'u': 'Xor(%s,%s)'},
}
STEP = {'Inc': 'Add', 'Dec': 'Sub'}


def step_atom(n, kind):
    base = tg_atom(n, kind[0])

    def atom(t):
        if t[0] == 'call' and n.t(t) == 'P1.getSize':
            return int(kind[1:])
        return base(t)
    return atom


def run_tg(chk, prog):
    def one(m, kind, outs, fn, wants, results):
        key = 'tg:%s:%s' % (m, kind)
        if not outs:
            chk.violation(key, fn.loc(), '%s has no way to succeed for %s operands' % (fn.n, NAMES[kind[0]]))
        for o, n in outs:
            eff = n.effects()
            got = [x for b in eff.values() for x in b]
            blocks = list(eff)
            v = out_param(fn, o, len(fn.params) - 1)
            res = n.t(v) if v else 'nothing'
            if n.unknown:
                raise Broken('%s: result not understood: %s' % (fn.q, res))
            if blocks != ['P0.getIrBuilder'] or got not in wants:
                chk.violation(key, fn.loc(o.node), '%s on %s operands has the effects %s; it must have %s' %
                              (fn.n, NAMES[kind[0]], eff, wants[0]))
            if res not in results:
                chk.violation(key + ':result', fn.loc(o.node), '%s on %s operands yields %s; it must yield %s' %
                              (fn.n, NAMES[kind[0]], res, results[0]))
        chk.count('target method and operand kind pairs')

    fn, w, res = summarise(prog, TG + '::generateAssign')
    one('Assign', 's', res, fn, [['Store(%s -> %s)' % (D, S)]], ['P3'])
    for m, kinds in BIN.items():
        fn, w, res = summarise(prog, TG + '::generate' + m)
        for kind, f in kinds.items():
            hits = [(o, n) for o, n in res if consistent(o.facts, tg_atom(n, kind))]
            vals = [f % (L, S)] + [f % (S, L)] * (m[:2] in ('An', 'Or', 'Xo'))
            one(m, kind, hits, fn, [['Store(%s -> %s)' % (v, D)] for v in vals], ['P2'])
    for when in ('Early', 'Late'):
        for what, op in STEP.items():
            m = when + what
            fn, w, res = summarise(prog, TG + '::generate' + m)
            for kind in ('s1', 's8', 's16', 's32', 's64', 'u1', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64'):
                hits = [(o, n) for o, n in res if consistent(o.facts, step_atom(n, kind))]
                other = 'Sub' if op == 'Add' else 'Add'
                vals = set()
                for ld in (L,):
                    if kind[0] == 'f':
                        c = 'fp%s(1)' % kind[1:]
                        ops = [('F' + op, c), ('F' + other, 'fp%s(-1)' % kind[1:])]
                    else:
                        ops = [(op + fl, 'int(%s,1)' % z) for z in ('P1.getSize', kind[1:])
                               for fl in ('', '.nsw')[:1 if kind[0] == 'u' else 2]]
                    for o_, c in ops:
                        vals.add('%s(%s,%s)' % (o_, ld, c))
                        if o_.lstrip('F').startswith('Add'):
                            vals.add('%s(%s,%s)' % (o_, c, ld))
                vals = sorted(vals)
                good = ['Value(%s)' % v for v in vals] + ["Value(Load'(%s))" % D]
                if when == 'Late':
                    good = ['Value(%s)' % L]
                one(m, kind, hits, fn, [['Store(%s -> %s)' % (v, D)] for v in vals], good)
    chk.floor('target method and operand kind pairs', 1 + 10 + 48)


CT = 'getContentType(r1,self.astHelper)'


def case(fn, dest, src, nparams, extra=None, val=False):
    """dest: content type token of the reference, or None for a non-reference"""
    types = {'ref(T0)': 'r1' if dest else 'i32', CT: dest or 'i32'}
    types['val(T1)' if val else 'T1'] = src
    ex = {'Ts.getCount': nparams, 'Vs.getCount': nparams}
    for t in ('r1', dest, src):
        ex['getInitializationMethod(%s,self.astHelper)' % t] = 0
    ex.update(extra or {})
    return CaseNorm(fn, {2: 'Vs', 3: 'Ts'}, types, ex)


def run_assign(chk, prog):
    fn = prog.fn(EG + '::_generateAssignOp')
    syms = ('=', '+=', '-=', '*=', '/=', '%=')
    for sym in syms:
        outs = [o for o in Walk(prog, EgConfig(prog, optype=sym)).run(fn) if succeeded(o)]
        for dest in TYPES + [None]:
            for src in TYPES:
                for ok in (True, False):
                    n = case(fn, dest, src, 2, {
                        'isCastableTo(self.astHelper,%s,%s,1)' % (src, dest): ok,
                        'generateCast(g,session,%s,%s,astNode,V1,1,paramCastResult)' % (src, dest): ok})
                    base = n.atom

                    def atom(t, base=base, n=n, ok=ok):
                        if t[0] == 'call' and sname(t[1]) in ('isCastableTo', 'generateCast'):
                            return ok
                        return base(t)
                    n.atom = atom
                    v = 'V1' if src == dest else 'cast!(V1:%s>%s)' % (src, dest)
                    want = ('generateAssign(ctx, tg(%s), %s, ref(V0), result.targetData)' % (dest, v), 'r1')
                    check_case(chk, fn, outs, n, 'assign:%s:%s:%s:%s' % (sym, dest, src, ok),
                               'assignment %s to %s of a %s%s' % (sym, dest or 'a non-reference', src,
                                                                  '' if ok else ' that cannot be converted'),
                               want if ok and dest else None, None)
                    chk.count('assignment cases')
        # A type that manages its own initialization is not copied bit by bit.
        n = case(fn, 'u1', 'u1', 2, {'getInitializationMethod(u1,self.astHelper)': 3})
        if [o for o in outs if consistent(o.facts, n.atom)]:
            chk.violation('assign:init:%s' % sym, fn.loc(), 'built-in %s is accepted on a type with custom initialization' % sym)
        # What the conversion is asked
        for o in outs:
            for e in o.events:
                if sname(e.name) == 'generateCast':
                    a = [EgNorm(fn, {2: 'Vs', 3: 'Ts'}).t(x) for x in e.args]
                    if a[1] != 'T1' or a[4] != 'V1' or a[5] != '1':
                        chk.violation('assign:cast:%s' % sym, e.loc(), 'assignment converts %s (type %s) in mode %s; it must '
                                      'convert the right operand implicitly' % (a[4], a[1], a[5]))
    chk.floor('assignment cases', len(syms) * (len(TYPES) + 1) * len(TYPES) * 2)


def run_compound(chk, prog):
    fn = prog.fn(EG + '::_generateBinaryAssignOp')
    for sym, m in (('>>=', 'Shr'), ('<<=', 'Shl'), ('&=', 'And'), ('|=', 'Or'), ('$=', 'Xor')):
        outs = [o for o in Walk(prog, EgConfig(prog, optype=sym)).run(fn) if succeeded(o)]
        for dest in TYPES + [None]:
            for src in TYPES:
                n = case(fn, dest, src, 2, val=True)
                want = None
                if dest and isint(dest) and isint(src):
                    want = ('generate%sAssign(ctx, tg(%s), ref(V0), %s, result.targetData)' %
                            (m, dest, cast('val(V1)', src, dest)), 'r1')
                check_case(chk, fn, outs, n, 'compound:%s:%s:%s' % (sym, dest, src),
                           '%s on (%s, %s)' % (sym, dest or 'non-reference', src), want, None)
                chk.count('compound assignment cases')
    chk.floor('compound assignment cases', 5 * (len(TYPES) + 1) * len(TYPES))

    fn = prog.fn(EG + '::_generateArithmeticAssignOp')
    for sym in ('+=', '-=', '*=', '/=', '%='):
        cfg = EgConfig(prog, optype=sym, events=('List', '::add', '::insert'))
        n = EgNorm(fn, {2: 'Vs', 3: 'Ts'})
        done = 0
        for o in Walk(prog, cfg).run(fn):
            if not succeeded(o):
                continue
            gens = [e for e in o.events if sname(e.name) in ('generateArithmeticOp', 'generateAssignOp')]
            if [sname(e.name) for e in gens] != ['generateArithmeticOp', 'generateAssignOp']:
                chk.violation('arith:' + sym, fn.loc(o.node), '%s generates %s' % (sym, [sname(e.name) for e in gens]))
                continue
            a = [n.t(x) for x in gens[0].args]
            b = [n.t(x) for x in gens[1].args]
            if a[:3] != ['astNode', 'Vs', 'Ts'] or b[0] != 'astNode':
                chk.violation('arith:' + sym, gens[0].loc(), '%s applies the operator to %s' % (sym, a[:3]))
            res = a[5]
            lists = {}
            for e in o.events:
                if sname(e.name) in ('add', 'addElement') and e.obj is not None:
                    lists.setdefault(strip_(e.obj), []).append(n.t(e.args[-1]))
                elif sname(e.name).startswith('insert') and e.obj is not None:
                    lists.setdefault(strip_(e.obj), []).insert(0 if n.t(e.args[0]) == '0' else 99, n.t(e.args[-1]))
            vs, ts = lists.get(strip_(gens[1].args[1]), []), lists.get(strip_(gens[1].args[2]), [])
            if len(vs) != 2 or vs[0] != 'V0' or not vs[1].startswith('out5(generateArithmeticOp(') or \
                    not vs[1].endswith('.targetData'):
                chk.violation('arith:val:' + sym, gens[1].loc(), '%s assigns %s; it must assign the result of the operator '
                              'to the left operand' % (sym, vs))
            if len(ts) != 2 or ts[0] != 'T0' or not ts[1].startswith('out5(generateArithmeticOp(') or \
                    not ts[1].endswith('.astType'):
                chk.violation('arith:type:' + sym, gens[1].loc(), '%s assigns values of types %s; it must assign the result '
                              'type of the operator to the left operand' % (sym, ts))
            done += 1
        if not done:
            chk.violation('arith:' + sym, fn.loc(), '%s is never generated' % sym)
        chk.count('arithmetic assignment operators')
    chk.floor('arithmetic assignment operators', 5)


def run_step(chk, prog):
    fn = prog.fn(EG + '::_generateUnaryVarOp')
    for sym, what in (('++', 'Inc'), ('--', 'Dec')):
        outs = [o for o in Walk(prog, EgConfig(prog, optype=sym)).run(fn) if succeeded(o)]
        for dest in TYPES + [None]:
            for prefix in (True, False):
                n = case(fn, dest, 'i32', 1, {'isa<PrefixOperator>(astNode)': prefix, 'isa<PostfixOperator>(astNode)': not prefix})
                want = None
                if dest and (isint(dest) or dest[0] == 'f'):
                    want = ('generate%s%s(ctx, tg(%s), ref(V0), result.targetData)' %
                            ('Early' if prefix else 'Late', what, dest), dest)
                check_case(chk, fn, outs, n, 'step:%s:%s:%s' % (sym, dest, prefix), '%s %s on %s' %
                           ('prefix' if prefix else 'postfix', sym, dest or 'non-reference'), want, None)
                chk.count('increment and decrement cases')
    chk.floor('increment and decrement cases', 4 * (len(TYPES) + 1))


def run(chk, prog):
    run_tg(chk, prog)
    run_assign(chk, prog)
    run_compound(chk, prog)
    run_step(chk, prog)
