"""P01: every built-in operator computes its own machine operation."""
import itertools
from tg import *
from eg import *
from terms import *

TITLE = 'Built-in operators compute exactly the machine operation they denote'
TECHNIQUE = 'path-sensitive dataflow summaries of the code generator, enumerated over all operator x type pairs and compared with an operator table'
NOTE = ('Exhaustive over the finite domain of operator symbols, operand kinds and built-in type pairs; decided on the syntax tree of the generator, path-sensitively, new helpers inlined. Trusts the clang front end, the summary engine, and that LLVM implements the instruction it is asked to build.')

RULE = ('path summaries: (1) every arithmetic, bitwise, shift, comparison, negation method of the LLVM target generator '
        'must, for each operand kind, build exactly the instruction of the operator table on its operands in order, with '
        'wrap flags only on signed integers; (2) for every operator symbol and every pair of operand types the expression '
        'generator must cast the operands to the common type the promotion rules give, hand them in order to the matching '
        'target method with that type, and yield that type (bool for comparisons); (3) every operator symbol must be '
        'dispatched to its own helper and its own overload name, with the left operand first')

G2 = 'P2.getLlvmValue'
G3 = 'P3.getLlvmValue'


def bi(op, *flags):
    return {op + '(%s,%s)' % (G2, G3)} | {op + '.' + f + '(%s,%s)' % (G2, G3) for f in flags}


# method -> kind -> allowed instructions
TABLE = {
    'Add': {'s': bi('Add', 'nsw'), 'u': bi('Add'), 'f': bi('FAdd'), 'p': {'GEP(%s,[%s])' % (G2, G3)}},
    'Sub': {'s': bi('Sub', 'nsw'), 'u': bi('Sub'), 'f': bi('FSub'), 'p': {'GEP(%s,[Neg(%s)])' % (G2, G3)}},
    'Mul': {'s': bi('Mul', 'nsw'), 'u': bi('Mul'), 'f': bi('FMul')},
    'Div': {'s': bi('SDiv'), 'u': bi('UDiv'), 'f': bi('FDiv')},
    'Rem': {'s': bi('SRem'), 'u': bi('URem'), 'f': bi('FRem')},
    'Shr': {'s': bi('AShr'), 'u': bi('LShr')},
    'Shl': {'s': bi('Shl'), 'u': bi('Shl')},
    'And': {'s': bi('And'), 'u': bi('And')},
    'Or': {'s': bi('Or'), 'u': bi('Or')},
    'Xor': {'s': bi('Xor'), 'u': bi('Xor')},
    'Not': {'s': {'Not(%s)' % G2}, 'u': {'Not(%s)' % G2}},
    'Neg': {'s': {'Neg(%s)' % G2, 'Neg.nsw(%s)' % G2}, 'u': {'Neg(%s)' % G2}, 'f': {'FNeg(%s)' % G2}},
    'Equal': {'s': bi('ICmpEQ'), 'u': bi('ICmpEQ'), 'f': bi('FCmpOEQ'), 'p': bi('ICmpEQ')},
    'NotEqual': {'s': bi('ICmpNE'), 'u': bi('ICmpNE'), 'f': bi('FCmpUNE'), 'p': bi('ICmpNE')},
    'LessThan': {'s': bi('ICmpSLT'), 'u': bi('ICmpULT'), 'f': bi('FCmpOLT')},
    'LessThanOrEqual': {'s': bi('ICmpSLE'), 'u': bi('ICmpULE'), 'f': bi('FCmpOLE')},
    'GreaterThan': {'s': {'ICmpSLT(%s,%s)' % (G3, G2)}, 'u': {'ICmpULT(%s,%s)' % (G3, G2)},
                    'f': {'FCmpOLT(%s,%s)' % (G3, G2)}},
    'GreaterThanOrEqual': {'s': {'ICmpSLE(%s,%s)' % (G3, G2)}, 'u': {'ICmpULE(%s,%s)' % (G3, G2)},
                           'f': {'FCmpOLE(%s,%s)' % (G3, G2)}},
}

KIND = {'s': 'IntegerType', 'u': 'IntegerType', 'f': 'FloatType', 'p': 'PointerType'}


def tg_atom(norm, kind):
    def atom(t):
        if t[0] == 'isa':
            s = norm.t(t)
            m = re.match(r'^isa<(\w+)>\((P\d+)\)$', s)
            if m:
                if m.group(1) in ('Block', 'Value', 'Type'):
                    return True
                if m.group(1).endswith('Type'):
                    return KIND[kind] == m.group(1)
        elif t[0] == 'call' and t[1].endswith('::isSigned'):
            return kind == 's'
        return None
    return atom


def run_tg(chk, prog):
    for m, kinds in TABLE.items():
        q = TG + '::generate' + m
        fn, w, res = summarise(prog, q)
        oi = len(fn.params) - 1
        for kind, want in kinds.items():
            hits = [(o, n) for o, n in res if consistent(o.facts, tg_atom(n, kind))]
            key = 'tg:%s:%s' % (m, kind)
            if not hits:
                chk.violation(key, fn.loc(), '%s has no way to succeed for %s operands' % (fn.n, NAMES[kind]))
                continue
            for o, n in hits:
                v = out_param(fn, o, oi)
                got = n.t(v) if v else 'nothing'
                if n.unknown:
                    raise Broken('%s: result not understood: %s' % (fn.q, got))
                if got not in {'Value(%s)' % x for x in want}:
                    chk.violation(key, fn.loc(o.node), '%s on %s operands builds %s; the operation is %s' %
                                  (fn.n, NAMES[kind], got, sorted(want)[0]))
                eff = n.effects()
                if eff:
                    chk.violation(key + ':effects', fn.loc(o.node), '%s has effects besides its value: %s' % (fn.n, eff))
            chk.count('target method and operand kind pairs')
            chk.sample('%s/%s -> %s' % (m, kind, sorted(want)[0]))
    chk.floor('target method and operand kind pairs', 43)


NAMES = {'s': 'signed integer', 'u': 'unsigned integer', 'f': 'float', 'p': 'pointer'}

INTS = ['i0', 'w0', 'w1', 'i8', 'w8', 'i16', 'w16', 'i32', 'w32', 'i64', 'w64']
TYPES = INTS + ['f32', 'f64', 'p1', 'n1', 'a1', 'u1']


def isint(t):
    return t[0] in 'iwn'


def signed(t):
    return t[0] in 'in'


def common_arith(op, a, b):
    """(type of the operation, type operand 2 is cast to) or None"""
    if a[0] == 'f' and b[0] == 'f':
        t = a if ty_bits(a) >= ty_bits(b) else b
        return t, t
    if a[0] == 'f' and isint(b):
        return a, a
    if isint(a) and b[0] == 'f':
        return b, b
    if isint(a) and isint(b):
        x, y = ty_bits(a), ty_bits(b)
        n = max(x, y)
        if (x == 0 or y == 0) and n <= 32:
            n = 0
        elif n < 32:
            n = 32
        t = ('i' if signed(a) or signed(b) else 'w') + str(n)
        return t, t
    if a[0] == 'p' and isint(b) and op in '+-':
        return a, ('i8' if ty_bits(b) == 1 else b)
    return None


def common_bits(op, a, b):
    if not (isint(a) and isint(b)):
        return None
    if op in ('<<', '>>'):
        return a, a
    x, y = ty_bits(a), ty_bits(b)
    n = max(x, y)
    if (x == 0 or y == 0) and n <= 32:
        n = 0
    t = ('i' if signed(a) or signed(b) else 'w') + str(n)
    return t, t


def common_cmp(op, a, b):
    eq = op in ('==', '!=')
    if a[0] == 'f' and b[0] == 'f':
        t = a if ty_bits(a) >= ty_bits(b) else b
        return t, t
    if a[0] == 'f' and isint(b):
        return a, a
    if isint(a) and b[0] == 'f':
        return b, b
    if isint(a) and isint(b):
        x, y = ty_bits(a), ty_bits(b)
        n = max(x, y)
        if (x == 0 or y == 0) and n <= 32:
            n = 0

        def grows(z):
            return z != 0 and (n != 0 and n > z or n == 0 and z < 32)
        if signed(a) == signed(b):
            t = ('i' if signed(a) else 'w') + str(n)
        elif grows(x if not signed(a) else y):
            t = 'i' + str(n)
        else:
            return None
        return t, t
    if eq and a[0] == 'n' and b[0] == 'p':
        return b, b
    if eq and b[0] == 'n' and a[0] == 'p':
        return a, a
    if eq and a[0] == 'p' and b[0] == 'p':
        return a, a
    return None


OPS = [
    ('_generateArithmeticOp', common_arith, {'+': 'Add', '-': 'Sub', '*': 'Mul', '/': 'Div', '%': 'Rem'}, False),
    ('_generateBinaryOp', common_bits, {'<<': 'Shl', '>>': 'Shr', '&': 'And', '|': 'Or', '$': 'Xor'}, False),
    ('_generateComparisonOp', common_cmp, {'==': 'Equal', '!=': 'NotEqual', '>': 'GreaterThan', '>=': 'GreaterThanOrEqual',
                                           '<': 'LessThan', '<=': 'LessThanOrEqual'}, True),
]


def cast(v, a, b):
    return v if a == b else 'cast(%s:%s>%s)' % (v, a, b)


def tg_calls(o, n):
    return [e for e in o.events if e.name.startswith(TGN)]


def check_case(chk, fn, outs, n, key, what, want, where):
    """want: None (must be rejected) or (call text, result type)."""
    sel = [o for o in outs if consistent(o.facts, n.atom)]
    if want is None:
        if sel:
            chk.violation(key, fn.loc(sel[0].node), '%s is accepted; the operand types are incompatible' % what)
        return
    if not sel:
        chk.violation(key, fn.loc(), '%s is not accepted' % what)
        return
    for o in sel:
        calls = tg_calls(o, n)
        got = [sname(e.name) + '(' + ', '.join(n.t(a) for a in e.args) + ')' for e in calls]
        gen = evalt_ctx(o, n)
        exp = [want[0]] if gen else []
        if gen is not None and got != exp:
            chk.violation(key, (calls[0].loc() if calls else fn.loc(o.node)), '%s: generated %s; it must generate %s' %
                          (what, got or 'nothing', exp or 'nothing'))
        rt = result_field(o, fn, 'astType')
        rt = n.t(rt) if rt is not None else 'nothing'
        if rt != want[1]:
            chk.violation(key + ':type', fn.loc(o.node), '%s: the result type is %s; it must be %s' % (what, rt, want[1]))


def evalt_ctx(o, n):
    """Does this way have a generation context?"""
    for p, v in o.facts.items():
        if p[0] == 'call' and n.t(p) == 'ctx':
            return v
    return None


def run_eg(chk, prog):
    for meth, common, ops, boolean in OPS:
        fn = prog.fn(EG + '::' + meth)
        for op, tgm in ops.items():
            outs = [o for o in Walk(prog, EgConfig(prog, optype=op)).run(fn) if succeeded(o)]
            for a, b in itertools.product(TYPES, TYPES):
                n = CaseNorm(fn, {2: 'Vs', 3: 'Ts'}, {'val(T0)': a, 'val(T1)': b}, {'Ts.getCount': 2, 'Vs.getCount': 2})
                c = common(op, a, b)
                want = None
                if c:
                    t1, t2 = c
                    want = ('generate%s(ctx, tg(%s), %s, %s, result.targetData)' %
                            (tgm, t1, cast('val(V0)', a, t1), cast('val(V1)', b, t2)), 'w1' if boolean else t1)
                check_case(chk, fn, outs, n, 'eg:%s:%s:%s' % (op, a, b), 'operator %s on (%s, %s)' % (op, a, b), want, None)
                chk.count('operator and operand type cases')
    chk.floor('operator and operand type cases', 16 * len(TYPES) ** 2)
    for meth, op, tgm in (('_generateUnaryValOp', '-', 'Neg'), ('_generateIntUnaryValOp', '!', 'Not'),
                          ('_generateIntUnaryValOp', '!!', 'Not'), ('_generateIntUnaryValOp', 'not', 'Not'),
                          ('_generateUnaryValOp', '+', None)):
        fn = prog.fn(EG + '::' + meth)
        outs = [o for o in Walk(prog, EgConfig(prog, optype=op)).run(fn) if succeeded(o)]
        for a in TYPES:
            n = CaseNorm(fn, {2: 'Vs', 3: 'Ts'}, {'val(T0)': a}, {'Ts.getCount': 1, 'Vs.getCount': 1})
            want = None
            if op == '+':
                for o in [o for o in outs if consistent(o.facts, n.atom)]:
                    v, t = result_field(o, fn, 'targetData'), result_field(o, fn, 'astType')
                    if tg_calls(o, n) or v is None or t is None or n.t(v) != 'val(V0)' or n.t(t) != a:
                        chk.violation('eg:u+:%s' % a, fn.loc(o.node), 'unary + on %s does not yield its operand' % a)
                chk.count('unary operator and operand type cases')
                continue
            if op == '-' and (isint(a) or a[0] == 'f'):
                t = a if a[0] == 'f' else 'i%d' % ty_bits(a)
                want = ('generateNeg(ctx, tg(%s), %s, result.targetData)' % (t, cast('val(V0)', a, t)), t)
            elif op == '!' and isint(a):
                want = ('generateNot(ctx, tg(%s), val(V0), result.targetData)' % a, a)
            elif op in ('!!', 'not'):
                want = ('generateNot(ctx, tg(w1), bool(V0:T0), result.targetData)', 'w1')
            check_case(chk, fn, outs, n, 'eg:u%s:%s' % (op, a), 'unary operator %s on %s' % (op, a), want, None)
            chk.count('unary operator and operand type cases')
    chk.floor('unary operator and operand type cases', 5 * len(TYPES))


# node class -> symbol -> (overload name, helper)
ROUTE = {
    'InfixOperator': {
        **{o: (o, 'generateArithmeticOp') for o in '+-*/%'},
        **{o: (o, 'generateBinaryOp') for o in ('>>', '<<', '&', '|', '$')},
        **{o: (o, 'generateComparisonOp') for o in ('==', '!=', '>', '>=', '<', '<=')},
        '=': ('=', 'generateAssignOp'),
        **{o: (o, 'generateArithmeticAssignOp') for o in ('+=', '-=', '*=', '/=', '%=')},
        **{o: (o, 'generateBinaryAssignOp') for o in ('>>=', '<<=', '&=', '|=', '$=')},
        **{o: (None, 'generateLogicalOp') for o in ('||', 'or', '&&', 'and')},
    },
    'PrefixOperator': {'+': ('__pos', 'generateUnaryValOp'), '-': ('__neg', 'generateUnaryValOp'),
                       '!': ('__not', 'generateIntUnaryValOp'), '!!': ('__logNot', 'generateIntUnaryValOp'),
                       'not': ('__logNot', 'generateIntUnaryValOp'), '++': ('__earlyInc', 'generateUnaryVarOp'),
                       '--': ('__earlyDec', 'generateUnaryVarOp')},
    'PostfixOperator': {'++': ('__lateInc', 'generateUnaryVarOp'), '--': ('__lateDec', 'generateUnaryVarOp')},
}


def strip_(t):
    while t is not None and t[0] in ('addr', 'as'):
        t = t[1] if t[0] == 'addr' else t[2]
    return t


def run_route(chk, prog):
    fn = prog.fn(EG + '::_generateOperator')
    for node, syms in ROUTE.items():
        for sym, (fname, helper) in syms.items():
            cfg = EgConfig(prog, optype=sym, events=('::insertElement', '::insert', '::addElement', '::add'))
            n = EgNorm(fn)

            def atom(t):
                if t[0] == 'isa':
                    m = re.match(r'^isa<(\w+)>\(astNode\)$', n.t(t))
                    if m and m.group(1) in ROUTE:
                        return m.group(1) == node
                elif t[0] == 'lt' or t[0] == 'call':
                    s = n.t(t)
                    if s == 'astNode.getElementCount':
                        return 2 if node == 'InfixOperator' else 1
                    if s in ('astNode.getFirst', 'astNode.getSecond', 'astNode.getOperand', 'astNode[0]', 'astNode[1]'):
                        return True
                return None
            outs = [o for o in Walk(prog, cfg).run(fn) if o.kind == 'return' and consistent(o.facts, atom)]
            key = 'route:%s:%s' % (node, sym)
            what = '%s %s' % (node, sym)
            done = 0
            for o in outs:
                gens = [e for e in o.events if sname(e.name).startswith('generate') and sname(e.name) not in (
                    'generateParams', 'generate')]
                if not gens:
                    continue        # rejected
                if len(gens) != 1:
                    chk.violation(key, fn.loc(o.node), '%s generates %s' % (what, [sname(e.name) for e in gens]))
                    continue
                g = sname(gens[0].name)
                if fname is None:
                    if g != helper or n.t(gens[0].args[0]) != 'astNode':
                        chk.violation(key, gens[0].loc(), '%s is generated by %s; it must be generated by %s' % (what, g, helper))
                    done += 1
                    continue
                prep = [e for e in o.events if sname(e.name) == 'prepareCallee']
                par = [e for e in o.events if sname(e.name) == 'generateParams']
                if len(prep) != 1:
                    chk.violation(key, fn.loc(o.node), '%s looks its callee up %d times' % (what, len(prep)))
                    continue
                a = [n.t(x) for x in prep[0].args]
                if a[0] != 'astNode[0]' or a[2] != '"%s"' % fname:
                    chk.violation(key, prep[0].loc(), '%s looks up %s on %s; it must look up "%s" on its first operand' %
                                  (what, a[2], a[0], fname))
                pl = [n.t(e.args[0]) for e in par]
                if pl != (['astNode[1]'] if node == 'InfixOperator' else []):
                    chk.violation(key, prep[0].loc(), '%s passes the operands %s besides the first' % (what, pl))
                if par and o.events.index(par[0]) > o.events.index(prep[0]):
                    chk.violation(key, prep[0].loc(), '%s looks its callee up before the argument types are known' % what)
                if g == 'generateRoundParamPassOnCallee':
                    continue
                if g != helper:
                    chk.violation(key, gens[0].loc(), '%s is generated by %s; it must be generated by %s' % (what, g, helper))
                    continue
                ins = {}
                for e in o.events:
                    if sname(e.name) in ('insertElement', 'insert', 'addElement', 'add') and e.obj is not None:
                        ins.setdefault(strip_(e.obj), []).append([sname(e.name)] + [n.t(x) for x in e.args])
                for lst, fld, i in (('values', 'targetData', 1), ('types', 'astType', 2)):
                    x = ins.get(strip_(gens[0].args[i]), [])
                    if len(x) != 1 or not x[0][0].startswith('insert') or x[0][1] != '0' or not (
                            x[0][2].startswith('out6(prepareCallee(') and x[0][2].endswith('.' + fld)):
                        chk.violation(key + ':' + lst, gens[0].loc(), '%s does not put its first operand first in %s: %s' %
                                      (what, lst, x))
                ga = [n.t(x) for x in gens[0].args]
                pa = [strip_(x) for x in par[0].args] if par else []
                if ga[0] != 'astNode' or par and [strip_(x) for x in gens[0].args[1:3]] != [pa[-1], pa[-2]]:
                    chk.violation(key, gens[0].loc(), '%s hands %s to %s' % (what, ga[:3], g))
                done += 1
            if not done:
                chk.violation(key, fn.loc(), '%s is never generated by %s' % (what, helper))
            chk.count('operator symbols routed')
    chk.floor('operator symbols routed', 40)


def run(chk, prog):
    run_tg(chk, prog)
    run_eg(chk, prog)
    run_route(chk, prog)
    chk.assume_('LLVM instructions compute what the LLVM language reference says')
    chk.assume_('the operand types quantified over are every integer width the language has, both float widths and one '
                'representative of each other kind of type')
