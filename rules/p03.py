"""P03: variables, members, elements and dereferences."""
import itertools
from tg import *
from table import *

TITLE = 'Variables, members, elements and references denote exactly the storage they name'
TECHNIQUE = 'path-sensitive dataflow summaries of reference generation compared with a case table'
NOTE = ('Exhaustive over the case distinctions of the reference-generating functions (kinds of variables, levels and modes of '
        'references, context or type-only); decided on the syntax tree, path-sensitively, new helpers inlined. Name lookup '
        'itself is not part of it. Trusts the clang front end, the summary engine and LLVM.')
RULE = ('path summaries: (1) in the LLVM target generator a variable reference is the variable\'s own storage, a member '
        'reference is the address of the struct plus the member\'s index, an element reference is the address of the array '
        'plus the index, a dereference is one load of the source; (2) automatic dereferencing follows a reference exactly '
        'while it is dereferenceable and a value or an inner reference is needed, loading once per level and taking the type '
        'of the content; (3) the ptr, content, deref and no-deref operators, variable, member and array references hand the '
        'operand, the definition and the types of that very operand to the target and yield the matching type')


def run_tg(chk, prog):
    D = {'isa<Block>(P0)': True, 'isa<Value>(P4)': True, 'isa<Variable>(P3)': True, 'isa<Type>(P1)': True,
         'isa<Value>(P3)': True}

    def expect(m, facts, val, eff, what):
        fn, w, res = summarise(prog, TG + '::generate' + m)
        sel = []
        for o, n in res:
            def atom(t, n=n):
                if t[0] in ('isa', 'call', 'f'):
                    return facts.get(n.t(t))
                return None
            if consistent(o.facts, atom):
                sel.append((o, n))
        key = 'tg:%s:%s' % (m, what)
        chk.count('target reference cases')
        if not sel:
            chk.violation(key, fn.loc(), '%s of %s is not generated' % (fn.n, what))
        for o, n in sel:
            v = out_param(fn, o, len(fn.params) - 1)
            got = n.t(v) if v else 'nothing'
            e = [x for b in n.effects().values() for x in b]
            if got not in val:
                chk.violation(key, fn.loc(o.node), '%s of %s yields %s; it must yield %s' % (fn.n, what, got, val[0]))
            if e not in eff:
                chk.violation(key + ':effects', fn.loc(o.node), '%s of %s has the effects %s; it must have %s' % (
                    fn.n, what, e or 'none', eff[0] or 'none'))

    def gep(base, idx, index_form):
        return ['Value(GEP(%s,[int(32,0),%s]))' % (base, idx)] + \
            ['Value(%s(%s,%s,%s))' % (x, 'P1.getLlvmType', base, idx) for x in ('StructGEP',)] + \
            (['Value(StructGEP(%s,P3.getLlvmStructIndex))' % base] if index_form else [])
    mi = 'int(32,P3.getLlvmStructIndex,1)'
    mi2 = 'int(32,P3.getLlvmStructIndex)'
    tmp = 'alloca(P1.getLlvmType)'
    store = ['Store(P4.getLlvmValue -> %s)' % tmp]
    expect('MemberVarReference', {'isa<PointerType>(P1)': True}, gep('P4.getLlvmValue', mi, 1) + gep('P4.getLlvmValue', mi2, 1),
           [[]], 'a struct in memory')
    expect('MemberVarReference', {'isa<PointerType>(P1)': False}, gep(tmp, mi, 1) + gep(tmp, mi2, 1), [store], 'a struct value')
    ai = 'P3.getLlvmValue'
    expect('ArrayElementReference', {'isa<PointerType>(P1)': True}, gep('P4.getLlvmValue', ai, 0), [[]], 'an array in memory')
    expect('ArrayElementReference', {'isa<PointerType>(P1)': False}, gep(tmp, ai, 0), [store], 'an array value')
    expect('Dereference', {}, ['Value(Load(P2.getLlvmValue))'], [[]], 'a reference')
    expect('VarReference', {'isa<Variable>(P2)': True, 'P2.getLlvmAllocaInst': True}, ['Value(P2.getLlvmAllocaInst)'], [[]],
           'a local variable')
    expect('VarReference', {'isa<Variable>(P2)': False, 'isa<Value>(P2)': True}, ['P2'], [[]], 'a value argument')
    for per, mod in ((True, 'P0.getFunction.llvmModule'), (False, 'this.buildTarget.getGlobalLlvmModule')):
        get = 'getGlobalVariable(%s,StringRef(P2.getName.getBuf),0)' % mod
        base = {'isa<Variable>(P2)': True, 'P2.getLlvmAllocaInst': False, 'P2.getLlvmGlobalVariable': True,
                'this.perFunctionModules': per}
        expect('VarReference', dict(base, **{get: True}), ['Value(%s)' % get], [[]], 'a global known to the module')
        fn, w, res = summarise(prog, TG + '::generateVarReference')
        hit = 0
        for o, n in res:
            def atom(t, n=n):
                if t[0] in ('isa', 'call', 'f'):
                    return dict(base, **{get: False}).get(n.t(t))
            if consistent(o.facts, atom):
                hit += 1
                v = out_param(fn, o, 3)
                got = n.t(v) if v else 'nothing'
                m = re.match(r'^Value\(GlobalVariable\((.*)\)\)$', got)
                a = m.group(1).split(',') if m else []
                if len(a) < 5 or a[0] != mod or a[1] != 'P2.getType.getLlvmType' or a[3] != 'ExternalLinkage' or a[4] != '0':
                    chk.violation('tg:VarReference:extern:%s' % per, fn.loc(o.node), 'a global not yet known to the module must be '
                                  'referenced as an external declaration of its own type in that module; it is %s' % got)
        if not hit:
            chk.violation('tg:VarReference:extern:%s' % per, fn.loc(), 'a global not yet known to the module cannot be referenced')
        chk.count('target reference cases')
    chk.floor('target reference cases', 11)


def run_auto(chk, prog):
    fn = prog.fn(EG + '::dereferenceIfNeeded')
    outs = Walk(prog, EgConfig(prog)).run(fn)
    ct = 'getContentType(astType,self.astHelper)'
    for isref, auto, impl, only, need, iref, iauto, iimpl, ctx in itertools.product((True, False), repeat=9):
        facts = {'isa<ReferenceType>(astType)': isref, 'astType.isAutoDeref': auto, 'astType.isImplicit': impl,
                 'implicitOnly': only, 'valueNeeded': need, 'isa<ReferenceType>(%s)' % ct: iref, ct + '.isAutoDeref': iauto,
                 ct + '.isImplicit': iimpl, 'ctx': ctx}
        follow = isref and auto and (not only or impl)
        inner = iref and iauto and (not only or iimpl)
        what = 'automatic dereferencing of a %s' % ', '.join(
            '%s%s' % ('' if v else 'not ', k) for k, v in (('reference', isref), ('auto', auto), ('implicit', impl), (
                'implicit only', only), ('value needed', need), ('inner reference', iref), ('inner auto', iauto), (
                'inner implicit', iimpl), ('generating', ctx)))
        if follow and (inner or need):
            dr = 'out3(generateDereference(session.getTg,ctx,tg(%s),tgValue,%s))'
            want = {'calls': []}
            n = TableNorm(fn, None, {}, facts)
            sel = [o for o in outs if o.kind == 'return' and const_of(o.ret) not in ('0', 'false') and consistent(o.facts, n.atom)]
            key = 'auto:follow'
            if not sel:
                chk.violation(key, fn.loc(), what + ' fails')
            for o in sel:
                got = calls(o, n)
                pat = r'^generateDereference\(ctx, tg\(%s\), tgValue, \w+\)$' % re.escape(ct)
                r = [x for x in o.events if sname(x.name) == 'dereferenceIfNeeded']
                good = len(r) == 1 and len(got) == (2 if ctx else 1) and (not ctx or re.match(pat, got[0]))
                if good:
                    a = [n.t(x) for x in r[0].args]
                    good = a[0] == ct and a[4:] == ['session', 'result'] and \
                        a[2] in ('valueNeeded', '1' if need else '0') and a[3] in ('implicitOnly', '1' if only else '0') and \
                        (not ctx or a[1].startswith('out3(generateDereference(session.getTg,ctx,tg(%s),tgValue,' % ct)) and \
                        (ctx or a[1] in ('0', '_'))
                if not good:
                    chk.violation(key, fn.loc(o.node), '%s must load the content once and continue with the content type; it does %s'
                                  % (what, got))
        else:
            case(chk, fn, outs, 'auto:stop', what, facts, {'calls': [], 'type': 'astType', 'value': 'tgValue'})
        chk.count('automatic dereference cases')
    chk.floor('automatic dereference cases', 512)


O = 'out3(generate(self,astNode.getOperand,g,session,_,_))'
GENERATE = 'generate(astNode.getOperand, g, session, _, _)'


def run_ops(chk, prog):
    ty = {O + '.astType': 'OT', O + '.targetData': 'OV', O + '.astNode': 'ON'}

    def walk(m):
        fn = prog.fn(EG + '::' + m)
        return fn, Walk(prog, EgConfig(prog)).run(fn)
    no = {'(YES==_)': False, 'astNode.getOperand': True}

    fn, outs = walk('_generateContentOp')
    t = 'swichOuterPointerTypeWithReferenceType(self.astHelper,OT,IMPLICIT)'
    case(chk, fn, outs, 'op:cnt', '~cnt of a pointer', dict(no, **{'OT': True, t: True}), {'calls': [GENERATE], 'type': t, 'value': 'OV'}, ty)
    case(chk, fn, outs, 'op:cnt:non', '~cnt of a value that has no content', dict(no, **{'OT': True, t: False}), None, ty)
    case(chk, fn, outs, 'op:cnt:ast', '~cnt of a definition', dict(no, **{'OT': False}), None, ty)

    fn, outs = walk('_generatePointerOp')
    t = 'swichInnerReferenceTypeWithPointerType(self.astHelper,OT)'
    case(chk, fn, outs, 'op:ptr', '~ptr of a reference', dict(no, **{'OT': True, 'isa<ReferenceType>(OT)': True, t: True}),
         {'calls': [GENERATE], 'type': t, 'value': 'OV'}, ty)
    case(chk, fn, outs, 'op:ptr:non', '~ptr of a value', dict(no, **{'OT': True, 'isa<ReferenceType>(OT)': False}), None, ty)
    case(chk, fn, outs, 'op:ptr:ast', '~ptr of a definition other than a function', dict(no, **{'OT': False, 'isa<Function>(ON)': False}), None, ty)
    fp = 'getPointerTypeFor(self.astHelper,ON.getType)'
    for ctx in (True, False):
        case(chk, fn, outs, 'op:ptr:fn:%d' % ctx, '~ptr of a function',
             dict(no, **{'OT': False, 'isa<Function>(ON)': True, 'ctx': ctx}),
             {'calls': [GENERATE, 'generateFunctionDecl(ON, session)', 'addFunctionDependencyIfNeeded(session, ON)'] +
              (['generateFunctionPointer(ctx, tg(ON), tg(%s), result.targetData)' % fp] if ctx else []), 'type': fp}, ty)

    fn, outs = walk('_generateDerefOp')
    d = {'ival(OT)': 'DT', 'ival(OV)': 'DV', 'iref(OT)': 'DT', 'iref(OV)': 'DV'}
    case(chk, fn, outs, 'op:deref', '~deref of a reference', dict(no, **{'OT': True, 'isa<ReferenceType>(DT)': True}),
         {'calls': [GENERATE, 'dereferenceIfNeeded(OT, OV, 1, 1, session, _)'], 'value': 'DV',
          'type': 'getReferenceTypeFor(self.astHelper,getContentType(DT,self.astHelper),IMPLICIT)'}, dict(ty, **d))
    case(chk, fn, outs, 'op:deref:non', '~deref of a value', dict(no, **{'OT': True, 'isa<ReferenceType>(DT)': False}), None, dict(ty, **d))

    fn, outs = walk('_generateNoDerefOp')
    c = 'getContentType(DT,self.astHelper)'
    for inner in (True, False):
        t = 'getReferenceTypeFor(self.astHelper,getContentType(%s,self.astHelper),NO_DEREF)' % c if inner else c
        case(chk, fn, outs, 'op:noderef:%d' % inner, '~no_deref of a reference to a %s' % ('reference' if inner else 'value'),
             dict(no, **{'OT': True, 'isa<ReferenceType>(DT)': True, 'isa<ReferenceType>(%s)' % c: inner}),
             {'calls': [GENERATE, 'dereferenceIfNeeded(OT, OV, 0, 1, session, _)'], 'value': 'DV',
              'type': 'getReferenceTypeFor(self.astHelper,%s,IMPLICIT)' % t}, dict(ty, **d))
    case(chk, fn, outs, 'op:noderef:non', '~no_deref of a value', dict(no, **{'OT': True, 'isa<ReferenceType>(DT)': False}), None, dict(ty, **d))
    for auto in (True, False):
        t = 'getReferenceTypeFor(self.astHelper,getContentType(ON,self.astHelper),NO_DEREF)' if auto else 'ON'
        case(chk, fn, outs, 'op:noderef:type:%d' % auto, '~no_deref of a reference type',
             dict(no, **{'OT': False, 'isa<Type>(ON)': True, 'isa<ReferenceType>(ON)': True, 'ON.isAutoDeref': auto}),
             {'calls': [GENERATE], 'node': t}, dict(ty, **d))
    chk.count('reference operators', 4)

    fn, outs = walk('_generateMemberVarReference')
    mt = 'astMemberVar.getAstType'
    f = {'(OBJECT==getVariableDomain(self.getAstHelper,astMemberVar))': True}
    for ctx in (True, False):
        case(chk, fn, outs, 'member:%d' % ctx, 'a reference to a member variable', dict(f, ctx=ctx),
             {'calls': ['generateMemberVarReference(ctx, tg(astStructType), tg(%s), tryGetCodeGenData(session.getEda,astMemberVar), '
                        'tgStructValue, result.targetData)' % mt] if ctx else [],
              'type': 'getReferenceTypeFor(self.astHelper,%s,IMPLICIT)' % mt})
    case(chk, fn, outs, 'member:global', 'a reference through an object to a variable that is not one of its members',
         {list(f)[0]: False}, None)

    fn, outs = walk('_generateArrayReference')
    at, av = 'ref(astType)', 'ref(tgValue)'
    for isref in (True, False):
        c = 'getContentType(%s,self.astHelper)' % at if isref else 'astType'
        e = 'getContentType(%s,self.astHelper)' % c
        tgt = 'getPointerTypeFor(self.astHelper,%s)' % c if isref else 'astType'
        for ctx in (True, False):
            deref = 'dereferenceIfNeeded(astType, tgValue, 0, 0, session, _)'
            cast = 'generateCast(session, astIndexType, self.astHelper.getArchIntType, astNode, tgIndexVal, 0, _)'
            el = ('generateArrayElementReference(ctx, tg(%s), tg(%s), cast(tgIndexVal:astIndexType>self.astHelper.getArchIntType), '
                  '%s, result.targetData)' % (tgt, e, av))
            alts = [[cast, deref, el], [deref, cast, el]] if ctx else [[deref], [deref]]
            case(chk, fn, outs, 'array:%d:%d' % (isref, ctx), 'a reference to an element of an array %s' % ('in memory' if isref else 'value'),
                 {'isa<ReferenceType>(ref(astType))': isref, 'ctx': ctx},
                 {'calls': alts, 'type': 'getReferenceTypeFor(self.astHelper,%s,IMPLICIT)' % e})

    fn, outs = walk('_generateVarReference')
    vt = 'traceType(self.getAstHelper,varAstNode,0)'
    for isdef, glob, valonly, ctx in itertools.product((True, False), repeat=4):
        tv = ('tg(varAstNode)', 'tryGetCodeGenData(session.getEda,varAstNode)')
        facts = {'isa<Definition>(varAstNode.getOwner)': isdef, 'ctx': ctx,
                 '(GLOBAL==getVariableDomain(self.getAstHelper,varAstNode.getOwner))': glob,
                 'isValueOnlyVariable(self.getAstHelper,varAstNode)': valonly}
        pre = ['generateVarDef(varAstNode.getOwner, session)'] if ctx and isdef and glob else []
        want = {'type': vt if valonly else 'getReferenceTypeFor(self.astHelper,%s,IMPLICIT)' % vt}
        want['calls'] = [pre + (['generateVarReference(ctx, tg(%s), %s, result.targetData)' % (vt, x)] if ctx and not valonly else [])
                         for x in tv]
        if ctx and valonly:
            want['value'] = tv
        case(chk, fn, outs, 'var:%d%d%d%d' % (isdef, glob, valonly, ctx), 'a reference to a %s %s variable' % (
            'defined' if isdef else 'temporary', 'global' if glob else 'local'), facts, want)
        chk.count('variable reference cases')
    chk.floor('variable reference cases', 16)


def run(chk, prog):
    run_tg(chk, prog)
    run_auto(chk, prog)
    run_ops(chk, prog)
