"""P13: building gates running."""
import itertools
import re
from world import *

TITLE = 'Only code that was built without errors is run or written out, once and in order'
TECHNIQUE = 'path-sensitive dataflow summaries of the build steps, every combination of their outcomes compared with a protocol'
NOTE = ('Exhaustive over the outcomes of the steps of every build and over the lists of up to three elements and the kinds given in '
        'the rule; decided on the syntax tree, path-sensitively. Trusts the clang front end, the summary engine and LLVM; that a '
        'failed step reports failure is the subject of P10.')
RULE = ('for every combination of outcomes of the steps that can fail: the new statements of the root scope and of preprocess statements are '
        'added to one execution entry in order, each at most once, and the entry is run, or the object file written, exactly when every '
        'step succeeded; module initialisers continue where they stopped; constructors run before the entry, once; build sessions are '
        'distinct where they must be and shared where they must be; resetting a build reaches every part of the tree')

BM = 'Spp::BuildManager::'
GN = 'Spp::CodeGen::Generator::_'


def run(chk, prog):
    root_scope(chk, prog)
    preprocess(chk, prog)
    sessions(chk, prog)
    entries(chk, prog)
    elements(chk, prog)
    execute(chk, prog)
    files(chk, prog)
    reset(chk, prog)
    generator(chk, prog)
    dependencies(chk, prog)
    targets(chk, prog)


def norm(fn, alias, roles=None):
    n = WNorm(fn, roles)
    n.alias = alias
    return n


BUILD = ('process', 'prepareBuild', 'prepareExecutionEntry', 'addElementToExecutionEntry', 'addElementToBuild',
         'finalizeExecutionEntry', 'execute', 'setExecuted', 'useCallee', 'resetBuild', 'buildObjectFileForElement')


def root_scope(chk, prog):
    fn = prog.fn('Spp::RootScopeHandlerExtension::_addNewElement')
    kinds_ = {'D': 'Definition', 'M': 'Definition', 'B': 'Bridge', 'S': 'Statement', 'X': 'Statement'}
    news = [x for k in (1, 2, 3) for x in itertools.product('DMBSX', repeat=k) if k < 3 or x[0] != x[1]]
    olds = ['', 'M', 'DMSM']
    for old, new in itertools.product(olds, news):
        if old != 'DMSM' and len(new) > 2:
            continue
        n = norm(fn, {'self.rootManagerBox.get.buildManager': 'build', 'self.getRootScope': 'root', 'prepareBuild(build,JIT,0)': 'BS',
                      'self.rootManagerBox.get.astProcessor': 'ast'})
        o_ = [el('%s%d' % (k, i)) for i, k in enumerate(old)]
        n_ = [el('%s%d' % (k, i + 10)) for i, k in enumerate(new)]
        kinds, values = {'self': ('RootScopeHandler', 'RootScopeHandlerExtension')}, {}
        for x in o_ + n_:
            kinds[x[1]] = kinds_[x[1][0]]
            kinds[x[1] + '.getTarget'] = 'Module' if x[1][0] == 'M' else 'Function'
            values[x[1] + '.isExecuted'] = x[1][0] == 'X'

        def hook(w, st, s, obj, args, n_=n_):
            if s == 'useCallee':
                st.heap[('stage',)] = True
            if s in ('useCallee',):
                return None

        def items(st, o_=o_, n_=n_):
            return o_ + n_ if ('stage',) in st.heap else o_
        w = World(n, BUILD, values, kinds, {'root': items}, hook)
        outs = ways(prog, fn, w)
        steps = [('self.addNewElement.useCallee(base)', '')]
        exe = []
        if any(k in 'SX' for k in new):
            steps += [('ast.process(root)', 'stop'), ('build.prepareBuild(JIT, 0)', ''), ('build.prepareExecutionEntry(BS)', '')]
            for x in o_:
                if x[1][0] == 'M':
                    steps.append(('build.addElementToExecutionEntry(%s, BS)' % x[1], '', True))
            for x in n_:
                if x[1][0] != 'X':
                    exe.append('setExecuted(%s, 1)' % x[1])
                    steps.append(('build.addElementToExecutionEntry(%s, BS)' % x[1], '', True))
            steps += [('build.finalizeExecutionEntry(BS)', '', True), ('build.execute(BS)', 'ok')]
        protocol(chk, fn, outs, n, 'root', 'a root scope with %s gets %s' % (old or 'nothing', '-'.join(new)), steps, ret=None, any_order=exe)


def preprocess(chk, prog):
    fn = prog.fn('Spp::CodeGen::AstProcessor::_processPreprocessStatement')
    for body, owner, k in itertools.product(('block', 'single'), ('DynamicContaining', 'DynamicMapContaining', 'Containing'), (0, 1, 2, 3)):
        if body == 'single' and k:
            continue
        n = norm(fn, {'self.executing': 'build', 'preprocess.getBody': 'body', 'prepareBuild(build,PREPROCESS,0)': 'BS'})
        items = [el('E%d' % i) for i in range(k)]
        kinds = {'body': 'Block' if body == 'block' else 'Expression', 'owner': owner, 'self': 'AstProcessor'}
        fields = ('currentPreprocessOwner', 'currentPreprocessInsertionPosition', 'currentPreprocessSourceLocation')
        w = World(n, BUILD + ('removeElement', 'setElement', 'addElement'), {}, kinds, {'body': items}, record=fields)
        outs = ways(prog, fn, w)
        steps = [('self.process(body)', 'stop'), ('build.prepareBuild(PREPROCESS, 0)', ''), ('build.prepareExecutionEntry(BS)', '')]
        for x in items if body == 'block' else [el('body')]:
            steps.append(('build.addElementToExecutionEntry(%s, BS)' % x[1], '', True))
        steps += [('build.finalizeExecutionEntry(BS)', '', True),
                  ('owner.setElement(indexInOwner, 0)' if owner == 'Containing' else 'owner.removeElement(indexInOwner)', ''),
                  ('build.execute(BS)', 'ok')]
        what = 'a preprocess statement with %s in a %s' % ('%d statements' % k if body == 'block' else 'a single statement', owner)
        protocol(chk, fn, outs, n, 'preprocess', what, steps, any_order=['self.astNodeRepo.addElement(preprocess)'])
        for o in outs:
            for e in o.events:
                if sname(e.name) == 'execute':
                    got = [n.t((e.x or {}).get(f, C('unset'))) for f in fields]
                    if got != ['owner', 'indexInOwner', 'findSourceLocation(preprocess)']:
                        chk.violation('preprocess:current', fn.loc(e.node), '%s: while it runs, the place for generated code is %s; it must be where the statement was' % (what, got))
            if o.kind == 'return':
                for f in fields:
                    v = [x for k2, x in o.state.heap.items() if k2[0] == 'f' and sname(k2[2]) == f]
                    if v and n.t(v[0]) != 'self.' + f:
                        chk.violation('preprocess:restore', fn.loc(o.node), '%s: %s is left as %s after it' % (what, f, n.t(v[0])))


def heap(o, n, base, field):
    for k, v in o.state.heap.items():
        if k[0] == 'f' and sname(k[2]) == field and n.t(k[1]) == base:
            return n.t(v)


def sessions(chk, prog):
    fn = prog.fn(BM + '_prepareBuild')
    sv = 'self.rootManager.getMinNoticeSeverityEncountered'
    sn = 'self.rootManager.getNoticeStore.getMinEncounteredSeverity'
    for bt, inter, a, b in itertools.product(('JIT', 'PREPROCESS', 'OFFLINE'), (True, False), (-1, 0, 1, 2), (-1, 0, 1, 2)):
        kinds = {'self': 'BuildManager'}
        values = {'self.rootManager.isInteractive': inter, sv: a, sn: b, 'buildType': bt}
        for x in ('JIT', 'PREPROCESS', 'OFFLINE'):
            values['(%s==buildType)' % x] = x == bt
        new = {'JIT': 'BuildSession(inc(self.buildIdCounter),self.jitBuildSession)', 'OFFLINE': 'createOfflineBuildSession(self,targetTriple)',
               'PREPROCESS': 'BuildSession(inc(self.buildIdCounter),self.preprocessBuildSession)'}[bt]
        n = norm(fn, {'this.buildIdCounter': 'self.buildIdCounter', new: 'BS'})
        for x in ('JIT', 'PREPROCESS', 'OFFLINE'):
            values['(%s==BS.getBuildType)' % x] = x == bt
        w = World(n, ('createOfflineBuildSession', 'resetMinNoticeSeverityEncountered', 'resetMinEncounteredSeverity', 'resetBuild',
                      'clearPrefixSourceLocationStack', 'prepare'), values, kinds)
        outs = ways(prog, fn, w)
        anyo = ['self.rootManager.getNoticeStore.clearPrefixSourceLocationStack()', 'self.astHelper.prepare()']
        if bt == 'OFFLINE':
            anyo.append('self.createOfflineBuildSession(targetTriple)')
        if bt != 'OFFLINE' and inter and (0 <= a <= 1 or 0 <= b <= 1):
            anyo += ['self.rootManager.resetMinNoticeSeverityEncountered()', 'self.rootManager.getNoticeStore.resetMinEncounteredSeverity()',
                     'self.resetBuild(BS)']
        what = 'preparing a %s build%s after severities %d and %d' % (bt, ' interactively' if inter else '', a, b)
        protocol(chk, fn, outs, n, 'prepareBuild', what, [], ret=None, any_order=anyo)
        for o in outs:
            if o.kind == 'return':
                if n.t(o.ret) != 'BS':
                    chk.violation('prepareBuild:session', fn.loc(o.node), '%s gives the session %s; it must be %s' % (what, n.t(o.ret), new))
                if bt != 'OFFLINE' and heap(o, n, 'self', 'buildIdCounter') != 'inc(self.buildIdCounter)':
                    chk.violation('prepareBuild:id', fn.loc(o.node), '%s: the session has no build id of its own' % what)
            else:
                chk.violation('prepareBuild', fn.loc(o.node), '%s ends with an exception' % what)
    made(chk, prog)
    fn = prog.fn(BM + 'createOfflineBuildSession')
    arr = 'GlobalCtorDtorInfo>()'
    n = norm(fn, {'this.': 'self.'})
    n.alias.update({'OfflineBuildTarget()': 'OT', 'TargetGenerator(self.jitBuildSession.getTargetGenerator,OT,0)': 'OG',
                    'BuildSession(inc(self.buildIdCounter),OFFLINE,1,OG,OT,%s,%s,0)' % (arr, arr): 'BS', '(Str("ofln")+': '("ofln"+'})
    for o in ways(prog, fn, World(n, ('setupBuild', 'setIdPrefix', 'setTargetTriple'))):
        chk.count('situations')
        got = ['%s.%s(%s)' % (n.t(e.obj), sname(e.name), ', '.join(n.t(a) for a in e.args)) for e in o.events]
        want = ['OT.setTargetTriple(targetTriple)', 'OG.setupBuild()', 'BS.getExtraDataAccessor.setIdPrefix(("ofln"+idPrefixCounter), 0)']
        inc = any(k[0] == 'g' and 'idPrefixCounter' in k[1] and v[0] == 'inc' for k, v in o.state.heap.items())
        if n.t(o.ret) != 'BS' or [g.replace('inc(idPrefixCounter)', 'idPrefixCounter') for g in got] != want or not inc:
            chk.violation('sessions:offline', fn.loc(o.node), 'an offline session is %s, set up by %s; it must be a session of its own, set up by %s' % (n.t(o.ret), got, want))
    fn = prog.fn(BM + 'initNonOfflineBuildSessions')
    n = norm(fn, {'this.': 'self.'})
    outs = [o for o in ways(prog, fn, World(n, ('setupBuild', 'setIdPrefix'))) if o.kind == 'return']
    chk.count('situations')
    jt = 'JitBuildTarget(self.globalItemRepo)'
    pt = 'LazyJitBuildTarget(self.globalItemRepo)'
    arr = 'GlobalCtorDtorInfo>()'
    n.alias.update({'TargetGenerator(self.rootManager,%s,0)' % jt: 'JG', 'TargetGenerator(JG,%s,1)' % pt: 'PG',
                    'BuildSession(inc(self.buildIdCounter),PREPROCESS,0,PG,%s,%s,%s,0)' % (pt, arr, arr): 'PRE',
                    'BuildSession(inc(inc(self.buildIdCounter)),JIT,0,JG,%s,PRE.getGlobalCtors,PRE.getGlobalDtors,PRE)' % jt: 'JIT'})
    for o in outs:
        for f, want in (('preprocessBuildSession', 'PRE'), ('jitBuildSession', 'JIT')):
            if heap(o, n, 'self', f) != want:
                chk.violation('sessions:' + f, fn.loc(o.node), '%s is %s; it must be %s' % (
                    f, heap(o, n, 'self', f), [k for k, v in n.alias.items() if v == want][0]))
        got = sorted('%s.%s(%s)' % (n.t(e.obj), sname(e.name), ', '.join(n.t(a) for a in e.args)) for e in o.events)
        want = sorted(['JG.setupBuild()', 'PG.setupBuild()', 'PRE.getExtraDataAccessor.setIdPrefix("preprc", "jit")',
                       'JIT.getExtraDataAccessor.setIdPrefix("jit", 0)'])
        if [g.replace('"jit", _', '"jit", 0').replace('("jit")', '("jit", 0)') for g in got] != want:
            chk.violation('sessions:setup', fn.loc(o.node), 'the sessions are set up by %s; it must be %s' % (got, want))

def fields_of(prog, cls, args):
    """The fields of a new object, by the constructor that takes these arguments."""
    cs = [f for f in prog.byq.get(cls + '::' + cls.split('::')[-1], []) if len(f.params) == len(args) and f.o.get('inits')]
    if not cs:
        raise Broken('no constructor of %s from %d values' % (cls, len(args)))
    w = Walk(prog, Config())
    st = State()
    o = w.newobj(st, cls, tuple(el(a) for a in args))
    n = WNorm(cs[0])
    r = {}
    for k, v in st.heap.items():
        if k[0] == 'f' and k[1] == o:
            r[sname(k[2])] = n.t(v)
    return cs[0], r


def made(chk, prog):
    """What sessions are made of, and what their getters give back."""
    BS, CS = 'Spp::BuildSession', 'Spp::CodeGen::Session'
    own = dict(buildId='ID', buildType='TYPE', targetGenerator='TG', buildTarget='BT', globalCtors='CTORS', globalDtors='DTORS', globalCtorSession='GCS',
               extraDataAccessor='ExtraDataAccessor()',
               codeGenSession='Session(ID,ExtraDataAccessor(),TG.getInterface,OFFLINE,CTORS,DTORS,0,0,(!GCS?0:GCS.getCodeGenSession))')
    shared = dict(buildId='ID', buildType='S.getBuildType', extraDataAccessor='S.getExtraDataAccessor', targetGenerator='S.getTargetGenerator',
                  buildTarget='S.getBuildTarget', globalCtors='S.getGlobalCtors', globalDtors='S.getGlobalDtors', globalCtorSession='S.getGlobalCtorSession',
                  codeGenSession='Session(ID,S.getExtraDataAccessor,S.getTargetGenerator.getInterface,S.getCodeGenSession.isOfflineExecution,'
                  'S.getGlobalCtors,S.getGlobalDtors,0,0,(!S.getGlobalCtorSession?0:S.getGlobalCtorSession.getCodeGenSession))')
    gen = dict(buildId='ID', eda='EDA', tg='TG', offlineExecution='OFFLINE', globalCtors='CTORS', globalDtors='DTORS', tgContext='C', tgAllocContext='AC',
               destructionStack='DestructionStack()', depsInfo='DependencyInfo()', tgSelf='0', astSelfType='0', globalCtorSession='GCS')
    child = dict(buildId='S.getBuildId', eda='S.getEda', tg='S.getTg', offlineExecution='S.isOfflineExecution', globalCtors='S.getGlobalCtors',
                 globalDtors='S.getGlobalDtors', globalCtorSession='S.getGlobalCtorSession', tgContext='C', tgAllocContext='AC',
                 destructionStack='S.getDestructionStack', depsInfo='S.getDependencyInfo', tgSelf='S.getTgSelf', astSelfType='S.getAstSelfType')
    part = dict(child, destructionStack='DS', depsInfo='DEPS')
    for cls, args, want, what in (
            (BS, 'ID TYPE OFFLINE TG BT CTORS DTORS GCS', own, 'a new build session'), (BS, 'ID S', shared, 'a build session made from another session S'),
            (CS, 'ID EDA TG OFFLINE CTORS DTORS C AC GCS', gen, 'a new generation session'), (CS, 'S C AC', child, 'a generation session within a session S'),
            (CS, 'S C AC DS DEPS', part, 'a generation session for a part of S'),
            (CS, 'S C AC DS DEPS SELF TYPE', dict(part, tgSelf='SELF', astSelfType='TYPE'), 'a generation session for a method')):
        fn, got = fields_of(prog, cls, args.split())
        chk.count('situations')
        for f, v in want.items():
            g = got.get(f, 'nothing')
            for x in ('destructionStack', 'globalCtorSession', 'tgSelf', 'depsInfo', 'astSelfType'):
                g = re.sub(r'\bS\.%s\b' % x, 'S.get' + x[0].upper() + x[1:], g).replace('getDepsInfo', 'getDependencyInfo')
            g = g.replace('S.getGlobalCtorSession==0', '!S.getGlobalCtorSession')
            if g != v:
                chk.violation('session:' + f, fn.loc(), '%s has %s %s; it must be %s' % (what, f, g, v))
    getters = [(BS, {'get' + f[0].upper() + f[1:]: f for f in ('buildId', 'buildType', 'extraDataAccessor', 'targetGenerator', 'buildTarget', 'globalCtors',
                                                            'globalDtors', 'globalCtorSession', 'codeGenSession', 'executionEntryTgFunc',
                                                            'executionEntryTgContext', 'executionEntryName')}),
               (CS, {'get' + f[0].upper() + f[1:]: f for f in ('buildId', 'eda', 'tg', 'globalCtors', 'globalDtors', 'tgContext', 'tgAllocContext',
                                                            'destructionStack', 'tgSelf', 'astSelfType', 'globalCtorSession')})]
    getters[1][1].update(isOfflineExecution='offlineExecution', getDependencyInfo='depsInfo', getGlobalVarInitializationDeps='depsInfo.globalVarInitializationDeps',
                         getGlobalVarDestructionDeps='depsInfo.globalVarDestructionDeps', getFuncDeps='depsInfo.funcDeps')
    for cls, l in getters:
        for m, f in l.items():
            fn = prog.fn(cls + '::' + m)
            n = norm(fn, {'this.': 'self.', '&': ''})
            for o in ways(prog, fn, World(n, ())):
                chk.count('situations')
                g = n.t(strip_ref(o.ret))
                if g != 'self.' + f:
                    chk.violation('session:' + m, fn.loc(o.node), '%s of a %s gives %s; it must be its %s' % (m, sname(cls), g, f))
    for m, want in (('setExecutionEntryName', {'executionEntryName': 'een'}), ('setExecutionEntryTgFunc', {'executionEntryTgFunc': 'tgFunc'}),
                    ('setExecutionEntryTgContext', {'executionEntryTgContext': 'tgContext'})):
        fn = prog.fn(BS + '::' + m)
        n = norm(fn, {'this.': 'self.'})
        for o in ways(prog, fn, World(n, ('setTgContext', 'setTgAllocContext'))):
            chk.count('situations')
            got = {f: heap(o, n, 'self', f) for f in want}
            ev = sorted('%s.%s(%s)' % (n.t(strip_ref(e.obj)), sname(e.name), ','.join(n.t(strip_ref(a)) for a in e.args)) for e in o.events)
            wev = ['self.codeGenSession.setTgAllocContext(tgContext)', 'self.codeGenSession.setTgContext(tgContext)'] if 'Context' in m else []
            ev = [x.replace('(self.executionEntryTgContext)', '(tgContext)') for x in ev]
            if got != want or ev != wev:
                chk.violation('session:' + m, fn.loc(o.node), '%s sets %s and does %s; it must set %s and do %s' % (m, got, ev, want, wev))
    # the ids under which the data of a build is kept in the tree
    fn = prog.fn('Spp::CodeGen::ExtraDataAccessor::setIdPrefix')
    own_ = ('CodeGenData', 'AutoCtor', 'AutoCtorType', 'AutoDtor', 'AutoDtorType', 'CodeGenFailed', 'InitStatementGenIndex')
    for sh in (True, False):
        n = norm(fn, {'this.': 'self.'})
        w = World(n, (), {'sharedPrefix': sh})
        w.value_classes = ('Core::Basic::Str',)
        for o in ways(prog, fn, w):
            chk.count('situations')
            seen = {}
            for f in own_ + ('BuildId', 'GlobalVarState'):
                g = heap(o, n, 'self', 'id' + f) or 'nothing'
                seen.setdefault(g, []).append(f)
                pre = 'prefix' if f in own_ or not sh else 'sharedPrefix'
                if not re.match(r'^\((Str\()*%s\)*\+"\w+"\)$' % pre, g):
                    chk.violation('ids', fn.loc(o.node), 'the id of %s is %s%s; it must be a name of its own after the %s' % (
                        f, g, ' with a shared prefix' if sh else '', 'shared prefix' if pre[0] == 's' else 'prefix'))
            for g, l in seen.items():
                if len(l) > 1:
                    chk.violation('ids', fn.loc(o.node), '%s have the same id %s' % (' and '.join(l), g))


ENTRY = ('prepareNullaryProcedure', 'finalizeNullaryProcedure', 'buildDependencies', 'generateVarGroupDestruction', 'setExecutionEntryName',
         'setExecutionEntryTgFunc', 'setExecutionEntryTgContext', 'flushNotices')


def entries(chk, prog):
    fn = prog.fn(BM + '_prepareExecutionEntry')
    n = norm(fn, {'this.': 'self.', 'buildSession.getCodeGenSession': 'CGS', 'self.generator': 'gen'})
    n.alias['<"__entry__"+inc(self.funcNameIndex)>'] = 'NAME'
    outs = ways(prog, fn, World(n, ENTRY, {}, {'self': 'BuildManager'}))
    call = 'gen,NAME,CGS,0,0'
    protocol(chk, fn, outs, n, 'entry:prepare', 'starting an execution entry',
             [('gen.prepareNullaryProcedure(NAME, CGS, 0, 0)', '')], ret=None,
             any_order=['buildSession.setExecutionEntryName(NAME)',
                        'buildSession.setExecutionEntryTgFunc(out2(prepareNullaryProcedure(%s)))' % call,
                        'buildSession.setExecutionEntryTgContext(out3(prepareNullaryProcedure(%s)))' % call])
    for o in outs:
        if o.kind == 'return' and heap(o, n, 'self', 'funcNameIndex') != 'inc(self.funcNameIndex)':
            chk.violation('entry:name', fn.loc(o.node), 'the name of an execution entry is not its own')
    fn = prog.fn(BM + '_finalizeExecutionEntry')
    n = norm(fn, {'buildSession.getCodeGenSession': 'CGS', 'self.generator': 'gen', 'buildSession.getExecutionEntry': 'entry'})
    outs = ways(prog, fn, World(n, ENTRY, {'entryTgFunc': True, 'entryTgContext': True}, {'self': 'BuildManager'}))
    protocol(chk, fn, outs, n, 'entry:finalize', 'finishing an execution entry',
             [('gen.generateVarGroupDestruction(CGS, 0)', '', True), ('gen.finalizeNullaryProcedure(CGS, entryTgFunc, entryTgContext)', ''),
              ('gen.buildDependencies(CGS)', '', True)], any_order=['self.rootManager.flushNotices()'])
    fn = prog.fn(GN + 'prepareNullaryProcedure')
    n = norm(fn, {'session.getTg': 'tg', 'tg.getNullaryProcedureType': 'T'})
    w = World(n, ('generateFunctionDecl', 'prepareFunctionBody', 'finishFunctionBody'), {'T': True}, {})
    for o in [o for o in ways(prog, fn, w) if o.kind == 'return']:
        chk.count('situations')
        got = [shown(e, n) for e in o.events]
        f, c = (n.t(out_(fn, o, i)) for i in (3, 4))
        if got != ['generateFunctionDecl(funcName, T, tgFunc)', 'prepareFunctionBody(%s, T, _, tgContext)' % f] or \
                f != 'out2(generateFunctionDecl(tg,funcName,T,tgFunc))' or not c.startswith('out3(prepareFunctionBody(') or \
                any(truth_of(o, e.res) is not True for e in o.events):
            chk.violation('entry:decl', fn.loc(o.node), 'the procedure for an execution entry is made by %s and given as %s, %s' % (got, f, c))
    fn = prog.fn(GN + 'finalizeNullaryProcedure')
    n = norm(fn, {'session.getTg': 'tg', 'tg.getNullaryProcedureType': 'T'})
    w = World(n, ('generateFunctionDecl', 'prepareFunctionBody', 'finishFunctionBody'), {'T': True}, {})
    for o in [o for o in ways(prog, fn, w) if o.kind == 'return']:
        chk.count('situations')
        got = [shown(e, n) for e in o.events]
        if got != ['finishFunctionBody(tgFunc, T, _, tgContext)'] or truth_of(o, o.events[0].res) is not True:
            chk.violation('entry:end', fn.loc(o.node), 'the procedure for an execution entry is finished by %s' % got)


def shown(e, n):
    return sname(e.name) + '(' + ', '.join(n.t(x) for x in e.args) + ')'


def out_(fn, o, i):
    p = fn.params[i]
    return o.state.env.get((0, p['d']), ('v', p['d'], 0))


def elements(chk, prog):
    for m, by in (('_addElementToBuild', {'Module': 'gen.generateModule(element, CGS)', 'Function': 'gen.generateFunction(element, CGS)', 'Other': None}),
                  ('_addElementToExecutionEntry', {'Module': 'gen.generateModuleInit(element, CGS)', 'Function': None,
                                                   'Other': 'gen.generateStatement(element, CGS, _)'})):
        fn = prog.fn(BM + m)
        for kind, step in by.items():
            n = norm(fn, {'buildSession.getCodeGenSession': 'CGS', 'self.generator': 'gen', ', 0)': ', _)'})
            w = World(n, ('generateModule', 'generateFunction', 'generateModuleInit', 'generateStatement', 'flushNotices'), {},
                      {'self': 'BuildManager', 'element': kind})
            outs = ways(prog, fn, w)
            if step is None:
                chk.count('situations')
                for o in outs:
                    if o.kind == 'return':
                        chk.violation('element:' + m, fn.loc(o.node), '%s takes a %s' % (m[1:], kind))
                continue
            protocol(chk, fn, outs, n, 'element:' + m, '%s of a %s' % (m[1:], kind), [(step, '', True)],
                     any_order=['self.rootManager.flushNotices()'])


def execute(chk, prog):
    fn = prog.fn(BM + '_execute')
    sv = 'self.rootManager.getMinNoticeSeverityEncountered'
    sn = 'self.rootManager.getNoticeStore.getMinEncounteredSeverity'
    ctors = 'buildSession.getGlobalCtors'
    for bt, own, a, b, k in itertools.product(('JIT', 'PREPROCESS'), (True, False), (-1, 0, 1, 2, 3), (-1, 0, 1, 2, 3), (0, 1, 2)):
        if k == 1 and (a, b) != (-1, -1):
            continue
        cbt = bt if own else 'PREPROCESS'
        n = norm(fn, {'buildSession.getGlobalCtorSession': 'CS', ctors: 'CTORS', 'buildSession.getBuildTarget': 'TARGET',
                      'CS.getBuildTarget': 'CTARGET', 'buildSession.getExecutionEntryName': 'ENTRY'})
        values = {sv: a, sn: b, 'CS': not own}
        for x in ('JIT', 'PREPROCESS', 'OFFLINE'):
            values['(%s==buildSession.getBuildType)' % x] = x == bt
            values['(%s==CS.getBuildType)' % x] = x == cbt
        w = World(n, ('execute', 'clear'), values, {'self': 'BuildManager'}, {'CTORS': [el('C%d' % i) for i in range(k)]})
        outs = ways(prog, fn, w)
        steps = []
        good = a not in (0, 1) and b not in (0, 1)
        if good:
            t = 'TARGET' if own else 'CTARGET'
            steps = [('%s.execute(C%d.name)' % (t, i), '') for i in range(k)] + [('CTORS.clear()', ''), ('TARGET.execute(ENTRY)', '')]
        what = 'running a %s build%s with %d constructors after severities %d and %d' % (bt, '' if own else ' (constructors elsewhere)', k, a, b)
        protocol(chk, fn, outs, n, 'execute', what, steps, ret=1 if good else 0,
                 text=lambda e, n=n: '%s.%s(%s)' % (n.t(e.obj), sname(e.name), ', '.join(n.t(x) for x in e.args)))
        for o in outs:
            if o.kind == 'throw':
                chk.violation('execute', fn.loc(o.node), what + ' ends with an exception')
            for e in o.events:
                if sname(e.name) == 'execute':
                    ty = cbt if n.t(e.args[0]) != 'ENTRY' else bt
                    cls = e.name.split('::')[-2]
                    if cls != {'JIT': 'JitBuildTarget', 'PREPROCESS': 'LazyJitBuildTarget'}[ty]:
                        chk.violation('execute:target', fn.loc(e.node), '%s runs code in a %s' % (what, cls))


def files(chk, prog):
    for m in ('_buildObjectFileForElement', '_dumpLlvmIrForElement'):
        fn = prog.fn(BM + m)
        obj = m.startswith('_build')
        for mod in (True, False):
            n = norm(fn, {'prepareBuild(self,OFFLINE,%s)' % ('targetTriple' if obj else '0'): 'BS', 'GlobalCtorDtorInfo(BS.getExecutionEntryName)': 'ENTRY'})
            w = World(n, BUILD + ('generateObjectFile', 'generateLlvmIr', 'add'), {'element': True}, {'self': 'BuildManager', 'element': 'Module' if mod else 'Function'},
                      inline=())
            outs = ways(prog, fn, w)
            steps = [('self.prepareBuild(OFFLINE, %s)' % ('targetTriple' if obj else '0'), '')]
            if mod:
                steps += [('self.prepareExecutionEntry(BS)', ''), ('self.addElementToExecutionEntry(element, BS)', '', True),
                          ('self.finalizeExecutionEntry(BS)', '', True), ('BS.getGlobalCtors.add(ENTRY)', '')]
            steps += [('self.addElementToBuild(element, BS)', '', True)]
            steps += [('BS.getBuildTarget.generateObjectFile(objectFilename, BS.getGlobalCtorNames, BS.getGlobalDtorNames)', 'ok')] if obj else \
                [('BS.getBuildTarget.generateLlvmIr(BS.getGlobalCtorNames, BS.getGlobalDtorNames)', '')]
            steps += [('self.resetBuild(BS)', '')]
            protocol(chk, fn, outs, n, 'files:' + m, '%s of a %s' % (m[1:], 'module' if mod else 'function'), steps, ret=True if obj else None)
    for m in ('getGlobalCtorNames', 'getGlobalDtorNames'):
        fn = prog.fn(BM + m)
        for k in (0, 1, 3):
            n = norm(fn, {'buildSession.' + m[:-5] + 's': 'LIST'})
            w = World(n, ('add', 'insert', 'push_back'), {}, {}, {'LIST': [el('C%d' % i) for i in range(k)]})
            protocol(chk, fn, ways(prog, fn, w), n, 'files:' + m, '%s of %d' % (m, k), [('_.add(C%d.name)' % i, '') for i in range(k)], ret=None)


def reset(chk, prog):
    fn = prog.fn(BM + '_resetBuild')
    n = norm(fn, {})
    w = World(n, ('resetBuildData', 'setupBuild', 'setExecutionEntryName', 'setExecutionEntryTgFunc', 'setExecutionEntryTgContext'), {}, {'self': 'BuildManager'})
    protocol(chk, fn, ways(prog, fn, w), n, 'reset', 'resetting a build',
             [('self.resetBuildData(self.rootManager.getRootScope, buildSession.getExtraDataAccessor)', ''),
              ('buildSession.getTargetGenerator.setupBuild()', '')], ret=None,
             any_order=['buildSession.setExecutionEntryName(0)', 'buildSession.setExecutionEntryTgFunc(null)', 'buildSession.setExecutionEntryTgContext(null)'])
    fn = prog.fn(BM + '_resetBuildData')
    data = ['removeCodeGenData', 'removeAutoCtor', 'removeAutoCtorType', 'removeAutoDtor', 'removeAutoDtorType', 'resetCodeGenFailed',
            'resetInitStatementsGenIndex']
    for kind, k in itertools.product(('MetaHaving', 'MetaHaving Containing', 'MetaHaving Binding', 'MetaHaving Containing Binding', 'Containing',
                                      'MetaHaving Containing Template', 'MetaHaving Passage Containing', 'MetaHaving Containing Module', None), (0, 1, 3)):
        n = norm(fn, {'s_cast(obj)': 'obj'})
        kinds = {'self': 'BuildManager', 'obj': tuple(kind.split()) if kind else None}
        E, M, I = ([el('%s%d' % (x, i)) for i in range(k)] for x in 'EMI')
        values = {}

        def hook(w, st, s, obj, args, E=E, M=M, I=I):
            if obj is None or n.t(strip_ref(obj)) != 'obj':
                return None
            l = {'Element': E, 'Member': M, 'Instance': I}.get(re.sub(r'^get|Count$', '', s))
            if l is None:
                return None
            if s.endswith('Count'):
                return C(str(len(l)))
            if len(args) == 1 and args[0][0] == 'c' and args[0][1].isdigit() and int(args[0][1]) < len(l):
                return l[int(args[0][1])]
        w = World(n, tuple(data) + ('resetBuildData',), values, kinds, {}, hook)
        outs = ways(prog, fn, w)
        ks = kind.split() if kind else []
        anyo = []
        if 'Module' not in ks:
            if 'MetaHaving' in ks:
                anyo += ['eda.%s(obj)' % d for d in data]
            if 'Passage' not in ks:
                for c, l in (('Containing', E), ('Binding', M), ('Template', I)):
                    if c in ks:
                        anyo += ['self.resetBuildData(%s, eda)' % x[1] for x in l]
        protocol(chk, fn, outs, n, 'reset:data', 'resetting the build data of a %s with %d parts' % (kind or 'missing part', k), [], ret=None, any_order=anyo)


def generator(chk, prog):
    fn = prog.fn(GN + 'generateModules')
    lists = [x for k in (0, 1, 3) for x in itertools.product('MDS', repeat=k)]
    for l in lists:
        n = norm(fn, {})
        E = [el('%s%d' % (x, i)) for i, x in enumerate(l)]
        kinds = {'self': 'Generation'}
        for x in E:
            kinds[x[1]] = {'M': 'Definition', 'D': 'Definition', 'S': 'Other'}[x[1][0]]
            kinds[x[1] + '.getTarget'] = 'Module' if x[1][0] == 'M' else 'Function'
        w = World(n, ('generateModule',), {}, kinds, {'root': E})
        protocol(chk, fn, ways(prog, fn, w), n, 'modules', 'generating the modules of a scope with %s' % '-'.join(l),
                 [('self.generateModule(%s.getTarget, session)' % x[1], '', True) for x in E if x[1][0] == 'M'])
    fn = prog.fn(GN + 'generateModule')
    KIND = {'M': 'Module', 'F': 'Function', 'T': 'UserType', 'V': 'Var', 'O': 'Other'}
    lists = [x for k in (0, 1, 2) for x in itertools.product('MFTVOBS', repeat=k)] + [tuple('FVBTM'), tuple('VVF')]
    for l in lists:
        n = norm(fn, {'self.astHelper': 'helper', 'self.getAstHelper': 'helper'})
        E = [el('%s%d' % (x, i)) for i, x in enumerate(l)]
        kinds = {'self': ('Generation', 'Generator')}
        values = {}
        steps = []
        for x in E:
            c = x[1][0]
            kinds[x[1]] = 'Bridge' if c == 'B' else 'Other' if c == 'S' else 'Definition'
            kinds[x[1] + '.getTarget'] = KIND.get(c)
            values['isInMemVariable(helper,%s.getTarget)' % x[1]] = c == 'V'
            t = {'M': 'self.generateModule(%s.getTarget, session)', 'F': 'self.generateFunction(%s.getTarget, session)',
                 'T': 'self.generateUserTypeBody(%s.getTarget, session)', 'V': 'self.generateVarDef(%s, session)', 'B': 'helper.validateUseStatement(%s)'}.get(c)
            if t:
                steps.append((t % x[1], '', True))
        w = World(n, ('generateModule', 'generateFunction', 'generateUserTypeBody', 'generateVarDef', 'validateUseStatement'), values, kinds, {'astModule': E})
        protocol(chk, fn, ways(prog, fn, w), n, 'module', 'generating a module with %s' % '-'.join(l), steps)
    fn = prog.fn(GN + 'generateModuleInit')
    for start, l in itertools.product((0, 1, 2), [x for k in (0, 1, 3) for x in itertools.product('MDS', repeat=k)]):
        if start > len(l):
            continue
        n = norm(fn, {})
        E = [el('%s%d' % (x, i)) for i, x in enumerate(l)]
        kinds = {'self': ('Generation', 'Generator')}
        for x in E:
            kinds[x[1]] = 'Other' if x[1][0] == 'S' else 'Definition'
            kinds[x[1] + '.getTarget'] = 'Module' if x[1][0] == 'M' else 'Function'

        def hook(w, st, s, obj, args, start=start):
            if s == 'getInitStatementsGenIndex':
                return C(str(start)) if n.t(args[0]) == 'astModule' else None
        w = World(n, ('generateStatement', 'setInitStatementsGenIndex'), {}, kinds, {'astModule': E}, hook)
        steps = [('self.generateStatement(%s, session, _)' % x[1], '', True) for x in E[start:] if x[1][0] != 'D']
        protocol(chk, fn, ways(prog, fn, w), n, 'init', 'initialising a module with %s from %d' % ('-'.join(l), start), steps,
                 any_order=['session.getEda.setInitStatementsGenIndex(astModule, %d)' % len(l)],
                 text=lambda e, n=n: re.sub(r', \w+\)$', ', _)', '%s.%s(%s)' % (n.t(e.obj), sname(e.name), ', '.join(n.t(x) for x in e.args)))
                 if sname(e.name) == 'generateStatement' else '%s.%s(%s)' % (n.t(e.obj), sname(e.name), ', '.join(n.t(x) for x in e.args)))


def dependencies(chk, prog):
    fn = prog.fn(GN + 'buildDependencies')
    for k, ni, nd, nv in itertools.product((0, 1, 3), (0, 2), (0, 2), (0, 1, 2)):
        if nv != 1 and (k or not ni + nd):
            continue
        n = norm(fn, {'this.': 'self.', 'session.getFuncDeps': 'FUNCS', 'session.getGlobalVarInitializationDeps': 'INIT', 'session.getGlobalVarDestructionDeps': 'DEST',
                      '<"__constructor__"+': '<ctor+', '<"__destructor__"+': '<dtor+'})
        F = tuple(el('F%d' % i) for i in range(k))

        def hook(w, st, s, obj, args, ni=ni, nd=nd, nv=nv):
            if s in ('getLength', 'getCount', 'size', 'isEmpty', 'empty') and obj is not None and n.t(strip_ref(obj)).endswith('varNames'):
                return C(str(nv) if s[0] in 'gs' else str(int(not nv)))
            if s == 'getCount' and obj is not None:
                t = n.t(strip_ref(obj))
                if t in ('INIT', 'DEST'):
                    return C('0' if st.heap.get(('built', t)) else str(ni if t == 'INIT' else nd))
            if s == 'buildGlobalCtorOrDtor' and len(args) > 1:
                st.heap[('built', n.t(args[1]))] = True
            return None
        w = World(n, ('generateFunction', 'buildGlobalCtorOrDtor', 'add', 'insert', 'push_back'), {}, {'self': ('Generator', 'Generation')},
                  {'FUNCS': live('FUNCS', F)}, hook)
        outs = ways(prog, fn, w)
        what = 'building the dependencies (%d functions, %d variables to construct, %d to destroy, %d of them built)' % (k, ni, nd, nv)
        chk.count('situations')
        good = 0
        for o in outs:
            if o.kind != 'return':
                chk.violation('deps', fn.loc(o.node), what + ' ends with an exception')
                continue
            chk.count('ways through steps')
            good += 1
            seq = list(o.events)
            okall = True
            bad = None
            for x in F:
                if not seq or '%s(%s)' % (sname(seq[0].name), ', '.join(n.t(a) for a in seq[0].args)) != 'generateFunction(%s, session)' % x[1]:
                    bad = 'the function %s is not generated in its turn' % x[1]
                    break
                okall &= truth_of(o, seq.pop(0).res) is True
            names = {}
            for cnt, lst, d, gl, nm in ((ni, 'INIT', '0', 'session.getGlobalCtors', 'ctor'), (nd, 'DEST', '1', 'session.getGlobalDtors', 'dtor')):
                if bad or not cnt:
                    continue
                e = seq.pop(0) if seq else None
                a = [n.t(x) for x in e.args] if e is not None else []
                if e is None or sname(e.name) != 'buildGlobalCtorOrDtor' or a[:2] != ['session', lst] or a[3] != d:
                    bad = 'the %s of the global variables is not built' % nm
                    break
                if not re.match(r'^<%s\+(inc\()+self\.funcNameIndex\)+>$' % nm, a[2]) or a[2][5:] in names:
                    bad = 'the %s has the name %s, not one of its own' % (nm, a[2])
                    break
                names[a[2][5:]] = True
                v = truth_of(o, e.res)
                okall &= v is True
                add = bool(seq) and sname(seq[0].name) in ('add', 'insert', 'push_back') and n.t(seq[0].obj) == gl
                if add:
                    x = seq.pop(0)
                    nms = [n.t(z) for q, z in o.state.heap.items() if q[0] == 'f' and q[1] == strip_ref(x.args[0]) and sname(q[2]) == 'name']
                    if nms and nms[-1] != a[2]:
                        bad = 'the %s is recorded under the name %s' % (nm, nms[-1])
                        break
                if v is True:
                    if not nv and add:
                        bad = 'a %s that handles no variable is recorded' % nm
                    elif nv and not add:
                        bad = 'the %s is not recorded for running' % nm
                elif add:
                    bad = 'the %s is recorded although it could not be built' % nm
            if not bad and seq:
                bad = 'it also does %s' % seq[0]
            r = evalt(o.ret, lambda t: o.facts.get(t))
            if not bad and (r is None or bool(r) != okall):
                bad = 'it reports %s' % n.t(o.ret)
            if bad:
                chk.violation('deps', fn.loc(o.node), '%s: %s' % (what, bad))
        if not good:
            chk.violation('deps', fn.loc(), what + ': no way through')


def targets(chk, prog):
    """What is run is the code that was built."""
    for c in ('JitBuildTarget', 'LazyJitBuildTarget'):
        fn = prog.fn('Spp::LlvmCodeGen::%s::execute' % c)
        for have in (True, False):
            n = norm(fn, {'StringRef(entry)': 'entry', 'self.llvmJitEngine': 'engine', 'this.': 'self.'})
            w = World(n, ('addLlvmModule', 'lookup', '?indirect'), {'self.llvmModule': have})
            outs = ways(prog, fn, w)
            steps = [('self.addLlvmModule(self.llvmModule)', '')] if have else []
            steps += [('engine.lookup(entry)', ''), ('call(cantFail(lookup(engine,entry),0).getAddress)', '')]
            protocol(chk, fn, outs, n, 'target:' + c, 'running an entry of a %s with%s new code' % (c, '' if have else 'out'), steps, ret=None,
                     text=lambda e, n=n: 'call(%s)' % n.t(e.obj) if e.name == '?indirect' else '%s.%s(%s)' % (n.t(e.obj), sname(e.name), ', '.join(n.t(x) for x in e.args)))
    for m in ('generateObjectFile', 'generateLlvmIr'):
        fn = prog.fn('Spp::LlvmCodeGen::OfflineBuildTarget::' + m)
        n = norm(fn, {})
        w = World(n, ('buildCtorOrDtorArray', 'runOnModule', 'run'), {'filename': True}, {})
        protocol(chk, fn, ways(prog, fn, w), n, 'target:' + m, m, [('ctors', ''), ('dtors', ''), ('run(self.llvmModule)', '')], ret=None,
                 text=lambda e, n=n: {'self, ctorNames, "llvm.global_ctors"': 'ctors', 'self, dtorNames, "llvm.global_dtors"': 'dtors'}.get(
                     ', '.join([n.t(e.obj)] + [n.t(x) for x in e.args])) or ('run(%s)' % n.t(e.args[0]) if sname(e.name).startswith('run') else str(e)))
    chk.floor('situations', 750)
