"""P02: conversions between the built-in types."""
from p01 import *

TITLE = 'Built-in type conversions are accepted and compiled by the conversion rules'
TECHNIQUE = 'path-sensitive dataflow summaries of the conversion code, enumerated over all built-in type pairs and compared with a conversion table'
NOTE = ('Exhaustive over the finite domain of built-in type pairs and conversion modes; decided on the syntax tree of the generator, path-sensitively, new helpers inlined. Trusts the clang front end, the summary engine, and that LLVM implements the instruction it is asked to build.')

RULE = ('path summaries enumerated over every pair of built-in types: (1) each cast method of the LLVM target generator '
        'must build exactly the conversion instruction for its operand kinds, with the signedness of the right side; (2) '
        'the match status of every (source, target) pair of scalar types must be the one of the conversion table '
        '(identical, promotion, implicit, explicit only, none); (3) the cast generator must, for every pair, match status, '
        'dereference count and implicit/explicit mode, accept or reject accordingly and hand the source value and both '
        'types to the conversion of that pair, yielding the target type')

V3 = 'P3.getLlvmValue'
T2 = 'P2.getLlvmType'
SIZES = 'P1.getSize', 'P2.getSize'

CASTS = {
    # method: [(atoms, allowed)]
    'CastIntToInt': [({'P1.isSigned': s}, {'IntCast(%s,%s,P1.isSigned)' % (V3, T2), 'IntCast(%s,%s%s)' % (V3, T2, ',1' if s else '')} |
                      ({'SExtOrTrunc(%s,%s)' % (V3, T2)} if s else {'ZExtOrTrunc(%s,%s)' % (V3, T2)})) for s in (True, False)],
    'CastIntToFloat': [({'P1.isSigned': s}, {('SIToFP' if s else 'UIToFP') + '(%s,%s)' % (V3, T2)}) for s in (True, False)],
    'CastFloatToInt': [({'P2.isSigned': s}, {('FPToSI' if s else 'FPToUI') + '(%s,%s)' % (V3, T2)}) for s in (True, False)],
    'CastFloatToFloat': [({'P1.getSize': a, 'P2.getSize': b},
                          {('FPTrunc' if a > b else 'FPExt') + '(%s,%s)' % (V3, T2), 'FPCast(%s,%s)' % (V3, T2)} |
                          ({'FPTrunc(%s,%s)' % (V3, T2)} if a == b else set()))
                         for a in (32, 64) for b in (32, 64)],
    'CastIntToPointer': [({}, {'IntToPtr(%s,%s)' % (V3, T2)})],
    'CastPointerToInt': [({}, {'PtrToInt(%s,%s)' % (V3, T2)})],
    'CastPointerToPointer': [({}, {'BitCast(%s,%s)' % (V3, T2), 'PointerCast(%s,%s)' % (V3, T2)})],
}


def run_tg(chk, prog):
    for m, cases in CASTS.items():
        fn, w, res = summarise(prog, TG + '::generate' + m)
        for vals, want in cases:
            def atom(t, n):
                if t[0] in ('call', 'f'):
                    return vals.get(n.t(t))
                if t[0] == 'isa':
                    return True
                return None
            hits = [(o, n) for o, n in res if consistent(o.facts, lambda t, n=n: atom(t, n))]
            key = 'tg:%s:%s' % (m, ','.join('%s=%s' % x for x in vals.items()))
            if not hits:
                chk.violation(key, fn.loc(), '%s has no way to succeed (%s)' % (fn.n, vals))
            for o, n in hits:
                v = out_param(fn, o, 4)
                got = n.t(v) if v else 'nothing'
                if n.unknown:
                    raise Broken('%s: result not understood: %s' % (fn.q, got))
                if got not in {'Value(%s)' % x for x in want}:
                    chk.violation(key, fn.loc(o.node), '%s builds %s%s; the conversion is %s' % (
                        fn.n, got, ' when %s' % vals if vals else '', ' or '.join(sorted(want))))
                if n.effects():
                    chk.violation(key + ':effects', fn.loc(o.node), '%s has effects besides its value' % fn.n)
            chk.count('cast method cases')
    chk.floor('cast method cases', 13)


NONE, AGG, EXPL, CUSTOM, IMPL, PROMO, REFAGG, EXACT = range(8)
SNAME = ['none', 'aggregation', 'explicit', 'custom', 'implicit', 'promotion', 'reference aggregation', 'exact']


def match_int(a, b):
    x, y = ty_bits(a), ty_bits(b)
    if isint(b):
        larger = y > x if not (y == 0) else (x != 0 and x <= 32)
        if y == 0 and x == 0:
            larger = False
        if x == y and signed(a) == signed(b):
            return EXACT
        if x == 1 and y == 1:
            return PROMO
        if larger and (signed(a) == signed(b) or signed(b)):
            return PROMO
        if y == 1:
            return NONE
        return IMPL
    if b[0] == 'f':
        return IMPL
    if b[0] == 'p':
        return IMPL if a[0] == 'n' else EXPL if x == 0 else NONE
    return NONE


def match_float(a, b):
    if b[0] == 'f':
        x, y = ty_bits(a), ty_bits(b)
        return EXACT if x == y else PROMO if y > x else IMPL
    if isint(b):
        return NONE if ty_bits(b) == 1 else IMPL
    return NONE


def match(a, b):
    if isint(a):
        return match_int(a, b)
    if a[0] == 'f':
        return match_float(a, b)
    return None


def status_of(t):
    """The status constant of a TypeMatchStatus value, or None."""
    while t[0] in ('new', 'obj') and t[2]:
        if len(t[2]) > 1 and const_of(t[2][1]) not in ('0', None):
            return None
        t = t[2][0]
    v = const_of(t)
    return int(v) if v is not None and v.isdigit() else None


def run_match(chk, prog):
    for cls, srcs in (('IntegerType', [t for t in TYPES if isint(t)]), ('FloatType', ['f32', 'f64'])):
        fn = prog.fn('Spp::Ast::%s::matchTargetType' % cls)
        outs = [o for o in Walk(prog, EgConfig(prog)).run(fn) if o.kind == 'return']
        for a in srcs:
            for b in TYPES:
                n = CaseNorm(fn, None, {'self': a, 'type': b})
                n.names[('this',)] = a
                n.names[('v', fn.params[0]['d'], 0)] = b

                def atom(t, n=n, a=a, b=b):
                    if t[0] == 'eq' and n.t(t) in ('(%s==%s)' % (a, b), '(%s==%s)' % (b, a)):
                        return None if a == b else False
                    return n.atom(t)
                sel = [o for o in outs if consistent(o.facts, atom)]
                want = match(a, b)
                if not sel:
                    raise Broken('%s: no way through for (%s, %s)' % (fn.q, a, b))
                for o in sel:
                    r = o.ret
                    while r[0] == 'cond':
                        c = evalt(r[1], atom)
                        if c is None:
                            break
                        r = r[2] if c else r[3]
                    s = status_of(r)
                    if s is None:
                        raise Broken('%s: status not understood: %s' % (fn.q, n.t(r)))
                    if s != want:
                        chk.violation('match:%s:%s' % (a, b), fn.loc(o.node), 'the conversion from %s to %s is %s; it must be %s'
                                      % (a, b, SNAME[s], SNAME[want]))
                chk.count('match status pairs')
    chk.floor('match status pairs', 14 * len(TYPES))
    # pointers
    fn = prog.fn('Spp::Ast::PointerType::matchTargetType')
    outs = [o for o in Walk(prog, EgConfig(prog)).run(fn) if o.kind == 'return']
    n = EgNorm(fn, {0: 'T'})
    cases = []
    for sc in (0, 1):
        for tc in (0, 1):
            for tv in ((0, 1) if tc else (0,)):
                for st in (range(8) if sc and tc and not tv else (None,)):
                    if not sc and not tc:
                        w = EXACT
                    elif not tc or tv:
                        w = REFAGG
                    elif not sc:
                        w = EXPL
                    else:
                        w = EXACT if st == EXACT else REFAGG if st in (AGG, REFAGG) else EXPL
                    cases.append(('pointer', sc, tc, tv, st, None, w))
    for bits in (0, 1, 8, 32, 64):
        cases.append(('int', 0, 0, 0, None, bits, EXPL if bits == 0 else NONE))
    cases.append(('other', 0, 0, 0, None, None, NONE))
    for kind, sc, tc, tv, st, bits, want in cases:
        def atom(t):
            if t[0] == 'eq' and n.t(t) == '(T==self)':
                return False
            if t[0] == 'isa':
                c = t[1].split('::')[-1]
                if n.t(t[2]) == 'T':
                    return c == {'pointer': 'PointerType', 'int': 'IntegerType', 'other': '-'}[kind]
            if t[0] == 'call':
                s = n.t(t)
                if s.startswith('getContentType('):
                    return bool(tc if s.startswith('getContentType(T') else sc)
                if s.startswith('isVoid('):
                    return bool(tv)
                if s.startswith('matchTargetType('):
                    return st
                if s == 'bits(T)':
                    return bits
            return None
        for o in [o for o in outs if consistent(o.facts, atom)]:
            s = status_of(o.ret)
            if s != want:
                chk.violation('match:ptr:%s:%s%s%s:%s:%s' % (kind, sc, tc, tv, st, bits), fn.loc(o.node),
                              'the conversion from a pointer%s to %s is %s; it must be %s' % (
                                  '' if sc else ' without content type',
                                  'a pointer (content: %s, match of contents: %s)' % ('void' if tv else 'none' if not tc else 'typed', st)
                                  if kind == 'pointer' else kind, s if s is None else SNAME[s], SNAME[want]))
        chk.count('pointer match cases')
    chk.floor('pointer match cases', 18)


CONV = {('i', 'i'): 'CastIntToInt', ('i', 'f'): 'CastIntToFloat', ('f', 'i'): 'CastFloatToInt', ('f', 'f'): 'CastFloatToFloat',
        ('i', 'p'): 'CastIntToPointer', ('p', 'i'): 'CastPointerToInt', ('p', 'p'): 'CastPointerToPointer',
        ('r', 'r'): 'CastPointerToPointer'}


def run_dispatch(chk, prog):
    fn = prog.fn('Spp::CodeGen::TypeGenerator::_generateCast')
    outs = [o for o in Walk(prog, EgConfig(prog, events=('::TypeGenerator::',))).run(fn) if o.kind == 'return']
    ts = ['i0', 'w0', 'w1', 'i8', 'w8', 'i32', 'w64', 'n1', 'f32', 'f64', 'p1', 'p2', 'r1', 'r2', 'u1', 'a1']
    for a in ts:
        for b in ts:
            if a == b:
                continue
            for st in (EXPL, CUSTOM, IMPL, PROMO, REFAGG, EXACT):
                for impl in (True, False):
                    run_case(chk, fn, outs, a, b, st, 0, impl)
    for d in (1, 2):
        for st in (EXPL, IMPL, EXACT):
            for init in (0, 1):
                run_deref(chk, fn, outs, st, d, init)
    run_temp(chk, fn, outs)
    chk.floor('cast dispatch cases', 16 * 15 * 12)


def mk(fn, a, b, st, d, impl):
    m = 'matchTargetType(self.astHelper,%s,%s,_)' % (a, b)
    n = CaseNorm(fn, None, {'srcType': a, 'targetType': b},
                 {m: st, m + '.derefs': d, 'implicit': impl, 'isa<TypeGenerator>(self)': True,
                  '%s.isNullLiteral' % a: a[0] == 'n'})
    n.names[('v', fn.params[3]['d'], 0)] = a
    n.names[('v', fn.params[4]['d'], 0)] = b
    return n


def events(o, n):
    return [sname(e.name) + '(' + ', '.join(n.t(x) for x in e.args) + ')' for e in o.events
            if sname(e.name) not in ('getGeneratedType', 'getCodeGenData', 'generateType', 'operator=')]


def run_case(chk, fn, outs, a, b, st, d, impl):
    n = mk(fn, a, b, st, d, impl)
    sel = [o for o in outs if consistent(o.facts, n.atom)]
    good = [o for o in sel if succeeded(o)]
    key = 'cast:%s:%s:%d:%d' % (a, b, st, impl)
    what = 'a %s cast from %s to %s whose match is %s' % ('implicit' if impl else 'explicit', a, b, SNAME[st])
    ka, kb = ('i' if isint(a) else a[0]), ('i' if isint(b) else b[0])
    conv = CONV.get((ka, kb))
    if conv == 'CastIntToPointer' and not (a[0] == 'n' or ty_bits(a) == 0):
        conv = None
    if conv == 'CastPointerToInt' and ty_bits(b) != 0:
        conv = None
    chk.count('cast dispatch cases')
    if st == EXPL and impl:
        if good:
            chk.violation(key, fn.loc(good[0].node), '%s is generated; it must be rejected' % what)
        return
    if st == EXACT:
        want, rt, val = [], a, 'tgValue'
    elif st == CUSTOM:
        want = None
    elif conv is None:
        if good:
            chk.violation(key, fn.loc(good[0].node), '%s generates %s; there is no such conversion' % (what, events(good[0], n)))
        return
    else:
        want, rt, val = ['generate%s(ctx, tg(%s), tg(%s), tgValue, result.targetData)' % (conv, a, b)], b, None
    if not good and st != CUSTOM:
        chk.violation(key, fn.loc(), '%s is rejected' % what)
        return
    for o in sel if st == CUSTOM else good:
        ev = events(o, n)
        if st == CUSTOM:
            ok = len(ev) >= 1 and ev[0].startswith('generateFunctionCall(astNode, out2(matchTargetType') or not ev and not succeeded(o)
            if not ok:
                chk.violation(key, fn.loc(o.node), '%s does not call the caster: %s' % (what, ev))
            continue
        if ev != want:
            chk.violation(key, fn.loc(o.node), '%s generates %s; it must generate %s' % (what, ev or 'nothing', want or 'nothing'))
        t = result_field(o, fn, 'astType')
        if t is None or n.t(t) != rt:
            chk.violation(key + ':type', fn.loc(o.node), '%s yields the type %s; it must yield %s' % (
                what, n.t(t) if t else 'none', rt))
        if val:
            v = result_field(o, fn, 'targetData')
            if v is None or n.t(v) != val:
                chk.violation(key + ':value', fn.loc(o.node), '%s yields %s instead of its operand' % (what, n.t(v) if v else 'nothing'))


def run_deref(chk, fn, outs, st, d, init):
    n = mk(fn, 'r1', 'u1', st, d, True)
    n.extra['u1.getInitializationMethod'] = init
    base = n.atom

    def atom(t):
        if t[0] == 'call' and 'getInitializationMethod' in t[1]:
            return init
        return base(t)
    sel = [o for o in outs if consistent(o.facts, atom) and succeeded(o)]
    key = 'deref:%d:%d:%d' % (st, d, init)
    chk.count('dereferencing cast cases')
    what = 'a cast that dereferences %d time(s) with match %s to a type %s custom initialisation' % (d, SNAME[st], 'with' if init else 'without')
    if not sel:
        chk.violation(key, fn.loc(), '%s is rejected' % what)
    for o in sel:
        ev = events(o, n)
        if d == 1 and st == EXACT and init:
            v, t = result_field(o, fn, 'targetData'), result_field(o, fn, 'astType')
            if ev or v is None or n.t(v) != 'tgValue' or n.t(t) != 'r1':
                chk.violation(key, fn.loc(o.node), '%s must yield the reference itself; it generates %s' % (what, ev))
            continue
        c = 'getContentType(r1,self.astHelper)'
        if len(ev) != 2 or not ev[0].startswith('generateDereference(ctx, tg(%s), tgValue, ' % c) or not (
                ev[1].startswith('generateCast(g, session, %s, u1, astNode, out3(generateDereference(' % c) and
                ev[1].endswith((', 1, result)', ', implicit, result)'))):
            chk.violation(key, fn.loc(o.node), '%s must load the content and cast that; it generates %s' % (what, ev))


def term(e, i):
    t = e.args[i]
    while t[0] in ('addr', 'as'):
        t = t[1] if t[0] == 'addr' else t[2]
    return t


def run_temp(chk, fn, outs):
    for st in (REFAGG, CUSTOM):
        n = mk(fn, 'u1', 'r1', st, -1, True)
        sel = [o for o in outs if consistent(o.facts, n.atom) and succeeded(o)]
        key = 'temp:%d' % st
        chk.count('casts through a temporary')
        if not sel:
            chk.violation(key, fn.loc(), 'a cast that needs a temporary variable is rejected')
        for o in sel:
            ev = [e for e in o.events if sname(e.name) not in ('getGeneratedType', 'getCodeGenData', 'operator=')]
            names = [sname(e.name) for e in ev]
            if names != ['generateTempVar', 'generateVarReference', 'generateVarInitialization', 'registerDestructor', 'generateCast']:
                chk.violation(key, fn.loc(o.node), 'a cast through a temporary must create, reference, initialise and register '
                              'it for destruction, and cast the reference; it does %s' % names)
                continue
            a = [[n.t(x) for x in e.args] for e in ev]
            if a[0][1] != 'u1' or a[2][0] != 'u1' or a[3][1] != 'u1' or term(ev[3], 2) != term(ev[1], 2) or a[2][1] != a[4][5] or \
                    not a[4][2].startswith('getReferenceTypeFor(self.astHelper,u1') or a[4][3] != 'r1':
                chk.violation(key, fn.loc(o.node), 'a cast through a temporary mixes up its types or values: %s' % a)


def run(chk, prog):
    run_tg(chk, prog)
    run_match(chk, prog)
    run_dispatch(chk, prog)
    chk.assume_('LLVM conversion instructions compute what the LLVM language reference says')
