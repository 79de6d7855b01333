"""P08: what is constructed is destroyed once."""
from eg import *
from terms import *
import re
import p05

TITLE = 'What is constructed is destroyed exactly once'
TECHNIQUE = 'path-sensitive dataflow summaries of the code generator; scope and registration protocols decided on every path'
NOTE = ('All paths (loops to two rounds) of every function of the code generator that opens a scope, creates or initialises a '
        'variable or registers one for destruction, and of the functions that give up scopes. Decides which destructions are '
        'generated, for which storage and where; that a destructor found by name lookup is the right one is not decided. '
        'Values whose type has a destructor but no constructor live in registers and are not destroyed, by design.')
RULE = ('every path: scopes are opened, destroyed and closed once and in order, nothing is destroyed after the path has ended; every '
        'initialised storage is registered for destruction, or is owned by the caller; global variables are initialised and '
        'destroyed once; members follow their object')

GN = 'Spp::CodeGen::Generator::'
TYG = 'Spp::CodeGen::TypeGenerator::'
CG = 'Spp::CodeGen::CommandGenerator::'
STACK = 'Spp::CodeGen::DestructionStack::'

# Initialisation of storage that somebody else destroys.
OWNED = {
    GN + '_generateMemberVarInitialization': 'the destructor of the object',
    GN + '_generateVarInitialization': 'its callers',
    EG + '::_generateInitOp': 'the program (~init)',
    CG + '_generateReturnStatement': 'the function called (its result is registered by the caller)',
    EG + '::_referencifyThisIfNeeded': 'nobody: a value held in a register',
}
MAKES = ('pushScope', 'popScope', 'registerDestructor', 'generateVarInitialization', 'generateTempVar', 'generateVarGroupDestruction')
IDX = re.compile(r'^getScopeStartIndex\(.*,-1\)$')


def walk(prog, fn, **kw):
    return Walk(prog, EgConfig(prog, events=('::pushScope', '::popScope', '::pushItem', 'DependencyList', '::add', 'insertElement',
                                             'setGlobalVarState', 'getGlobalVarState', 'varOpCallback', '::remove', '::clear'), **kw)).run(fn)


def good(outs):
    return [o for o in outs if o.kind == 'return' and not is_zero(o.ret)]


def what(q):
    return q.split('::')[-1].lstrip('_')


def run(chk, prog):
    scopes(chk, prog)
    stack(chk, prog)
    helpers(chk, prog)
    members(chk, prog)
    globs(chk, prog)
    p05.run_steps(chk, prog)    # what break and continue destroy


def users(prog):
    r = []
    for f in sorted(prog.fns.values(), key=lambda f: f.u):
        if '/Sources/Spp/' not in f.f or f.o.get('inst') or not f.cfg.get('blocks'):
            continue
        names = set()
        for i, n in f.all_nodes():
            if n['k'] in ('MCall', 'OpCall', 'Call'):
                names.add(n.get('n'))
                for c in n['c'][:1]:
                    names.add(f.nodes[c].get('n'))
                    names.add((f.nodes[c].get('d') or '').split('::')[-1])
        if names & set(MAKES):
            r.append(f)
    return r


def scopes(chk, prog):
    for f in users(prog):
        if what(f.q) in ('prepareFunctionBody',) or f.cls == 'Spp::CodeGen::DestructionStack':
            continue
        chk.count('functions with scopes or variables')
        n = EgNorm(f)
        seen = set()
        for o in good(walk(prog, f)):
            path(chk, f, o, n, seen)
    chk.floor('functions with scopes or variables', 18)
    chk.floor('scopes on paths', 35)
    chk.floor('initialised storage on paths', 20)


def path(chk, f, o, n, seen):
    def bad(key, node, text):
        k = '%s:%s' % (what(f.q), key)
        if k not in seen:
            seen.add(k)
            chk.violation(k, f.loc(node) if node is not None else f.loc(), '%s: %s' % (what(f.q), text))

    ended = [n.t(t) for t, v in fact_items(o) if v and n.t(t).startswith('(YES==')]
    open_ = []
    inits, regs, vars_ = [], [], []
    for k, e in enumerate(o.events):
        s = sname(e.name)
        if s == 'pushScope':
            open_.append([k, False])
            chk.count('scopes on paths')
        elif s == 'popScope':
            if not open_:
                bad('pop', e.node, 'a scope is closed that was not opened here')
                continue
            start, done = open_.pop()
            # A path that has ended destroyed its variables itself.
            end = ended and any(sname(x.name).startswith('generate') for x in o.events[start:k])
            if not done and not end:
                bad('leak', e.node, 'a scope is closed without destroying its variables')
            elif done and end and any(any_out(o.events[j], x, n) for x in ended for j in range(start, k)):
                bad('end', e.node, 'the variables of a scope are destroyed after the path has ended')
        elif s == 'generateVarGroupDestruction':
            ix = n.t(e.args[-1])
            if IDX.match(ix) and not any(sname(x.name) in ('generateBreak', 'generateContinue') for x in o.events[k:]):
                if not open_:
                    bad('outer', e.node, 'the variables of the enclosing scope are destroyed before it ends')
                elif open_[-1][1]:
                    bad('twice', e.node, 'the variables of a scope are destroyed twice')
                else:
                    open_[-1][1] = True
        elif s == 'generateTempVar' and e.name.startswith(GEN):
            vars_.append((k, e, e.args[1], None))
        elif s == 'generateVarInitialization':
            inits.append((k, e))
            chk.count('initialised storage on paths')
        elif s == 'registerDestructor':
            regs.append((k, e))
    if open_:
        bad('open', o.node, 'a scope is left open')
    if f.q in OWNED or what(f.q).startswith('operator()') or '$lambda' in f.u:
        return
    for k, e in inits:
        a = e.args
        # (type, reference, ...)
        ty, ref = a[0], a[1]
        hit = [(j, r) for j, r in regs if same_storage(ref, r.args[2], n) and n.t(r.args[1]) == n.t(ty)]
        if not hit:
            bad('unregistered', e.node, 'a variable is initialised but not registered for destruction')
        elif len(hit) > 1:
            bad('registered', hit[1][1].node, 'a variable is registered for destruction twice')
        elif hit[0][0] < k:
            bad('early', hit[0][1].node, 'a variable is registered for destruction before it is initialised')
        else:
            # still open scopes between the two would destroy it at once
            d = 0
            for x in o.events[k:hit[0][0]]:
                d += {'pushScope': 1, 'popScope': -1}.get(sname(x.name), 0)
            if d > 0:
                bad('inner', hit[0][1].node, 'a variable is registered in a scope that ends before it')
            st = n.t(hit[0][1].args[3])
            se = n.t(a[-1])
            if not st.replace(' ', '').startswith((se.replace(' ', ''), '_')) and st != 'session.getDestructionStack':
                bad('stack', hit[0][1].node, 'a variable is registered in the scopes of another function')
    for j, r in regs:
        if any(same_storage(e.args[1], r.args[2], n) for k, e in inits):
            continue
        # the result of a call: stored by the function that is called
        if not any(sname(e.name) in ('generateFunctionCall', 'generateFunctionPtrCall') for e in o.events[:j]):
            bad('uninit', r.node, 'a variable is registered for destruction that is not initialised')
    # temporaries that receive the result of a call
    for k, e, ty, _ in vars_:
        if any(sname(x.name) in ('generateFunctionCall', 'generateFunctionPtrCall') for x in o.events[k:]):
            x = [r for j, r in regs if j > k and n.t(r.args[1]) == n.t(ty)]
            if len(x) != 1:
                bad('result', e.node, 'the result of a call is registered for destruction %d times' % len(x))


def fact_items(o):
    return o.facts if isinstance(o.facts, list) else o.facts.items()


def any_out(e, x, n):
    return sname(e.name) + '(' in x


def same_storage(ref, var, n):
    """Whether ref is a reference to the storage var, or var itself."""
    r, v = n.t(ref), n.t(var)
    return r == v or r.startswith('out') and 'generateVarReference(' in r and v in r



def fdict(o, n):
    return {n.t(t): v for t, v in fact_items(o)}


def ev(o, n, *names):
    return [e for e in o.events if sname(e.name) in names]


class Report:
    """violations of one function, each reported once"""

    def __init__(self, chk, fn):
        self.chk, self.fn, self.seen = chk, fn, set()

    def __call__(self, key, o, text):
        if key not in self.seen:
            self.seen.add(key)
            self.chk.violation('%s:%s' % (what(self.fn.q), key), self.fn.loc(o.node) if o is not None and o.node is not None else self.fn.loc(),
                               '%s: %s' % (what(self.fn.q), text))


def has(facts, *parts):
    """The truth of the fact whose text has all the parts; None if not tested."""
    for t, v in facts.items():
        if all(p in t for p in parts):
            return v
    return None


def stack(chk, prog):
    """the stack of scopes"""
    fn = prog.fn(STACK + 'popScope')
    bad = Report(chk, fn)
    for o in good(Walk(prog, EgConfig(prog, events=('::remove', 'pop_back', 'clear'))).run(fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        k = len(ev(o, n, 'remove'))
        chk.count('scope stack paths')
        low = [t for t, v in f.items() if t.endswith('<back(self.scopeIndexes))') and not v]
        if len(low) != k:
            bad('items', o, 'not exactly the variables of the scope are removed')
        if len(ev(o, n, 'pop_back')) != 1:
            bad('scope', o, 'not exactly one scope is removed')
    fn = prog.fn(STACK + 'getScopeStartIndex')
    bad = Report(chk, fn)
    for o in good(Walk(prog, EgConfig(prog)).run(fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        chk.count('scope stack paths')
        t = n.t(o.ret)
        neg = f.get('(scope<0)')
        want = '(scope+size(self.scopeIndexes))' if neg else 'scope'
        if neg is None or not t.replace(' ', '').endswith((',%s)' % want, '[%s]' % want)) or 'self.scopeIndexes' not in t:
            bad('index', o, 'a scope counted from %s is looked up as %s' % ('the end' if neg else 'the start', t))
    fn = prog.fn(STACK + 'pushScope')
    bad = Report(chk, fn)
    for o in good(Walk(prog, EgConfig(prog, events=('push_back',))).run(fn)):
        n = EgNorm(fn)
        chk.count('scope stack paths')
        e = ev(o, n, 'push_back')
        if len(e) != 1 or n.t(e[0].args[0]) != 'self.items.getCount':
            bad('start', o, 'the scope does not start after the variables that exist')
    chk.floor('scope stack paths', 6)


def helpers(chk, prog):
    # registerDestructor: whatever has a destructor is registered
    fn = prog.fn(GN + '_registerDestructor')
    bad = Report(chk, fn)
    for o in good(walk(prog, fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        chk.count('destruction cases')
        user, none = has(f, 'isa<UserType>(astType)'), has(f, '(NONE==getDestructionMethod(astType')
        e = ev(o, n, 'pushItem')
        need = user is True and none is False
        skip = user is False or none is True
        if len(e) > 1 or bool(e) and skip or not e and not skip:
            bad('skip', o, 'a variable whose type has a destructor is not registered' if not e else 'a variable is registered although its type has no destructor')
        if e:
            x = e[0].args[0]
            d = {k[2].split('::')[-1]: n.t(v) for k, v in o.state.heap.items() if k[0] == 'f' and k[1] == x}
            for a, b in (('astNode', 'varAstNode'), ('astType', 'astType'), ('tgVar', 'tgVar')):
                if d.get(a) != b:
                    bad('item', o, 'the %s registered is %s' % (a, d.get(a)))
    # generateVarGroupDestruction: every variable from the index on
    fn = prog.fn(GN + '_generateVarGroupDestruction')
    bad = Report(chk, fn)
    IT = 'getItem(session.getDestructionStack,%s)'
    for o in good(walk(prog, fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        chk.count('destruction cases')
        ds, refs = ev(o, n, 'generateVarDestruction'), ev(o, n, 'generateVarReference')
        rounds = [t for t, v in f.items() if t.endswith('<session.getDestructionStack.getItemCount)')]
        if not rounds or len(ds) != sum(f[t] for t in rounds) or f[rounds[-1]] is not False:
            bad('all', o, 'not every variable from the index on is destroyed')
        ix = 'index'
        for d in ds:
            it = IT % ix
            if n.t(d.args[0]) != it + '.astType' or n.t(d.args[2]) != it + '.astNode' or n.t(d.args[3]) != 'session' or \
                    ',%s.tgVar,' % it not in n.t(d.args[1]).replace(' ', ''):
                bad('item', o, 'the destruction of %s is generated for another variable' % it)
            ix = 'inc(%s)' % ix
    # generateVarDestruction
    fn = prog.fn(GN + '_generateVarDestruction')
    bad = Report(chk, fn)
    for o in good(walk(prog, fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        chk.count('destruction cases')
        none = has(f, '(NONE==getDestructionMethod(varAstType')
        found = has(f, 'isSuccessful') is True and has(f, '(1==', 'stack.getLength') is True
        auto = [v for t, v in f.items() if re.match(r'out\d\(getGeneratedTypeAutoDtor\(', t)]
        cs = ev(o, n, 'generateFunctionCall')
        user = [e for e in cs if not e.name.startswith(TGN)]
        tgc = [e for e in cs if e.name.startswith(TGN)]
        if none is True:
            if cs:
                bad('none', o, 'a type without destructor is destroyed')
            continue
        if none is None:
            bad('method', o, 'the destruction method of the type is not considered')
        if len(user) != (1 if found else 0):
            bad('user', o, 'the destructor of the type is called %d times' % len(user))
        if has(f, 'isSuccessful') is None:
            bad('lookup', o, 'the destructor of the type is not looked up')
        if not auto or len(tgc) != (1 if auto[0] else 0):
            bad('auto', o, 'the members of an object are destroyed %d times' % len(tgc))
        if user and tgc and cs.index(user[0]) > cs.index(tgc[0]):
            bad('order', o, 'the members of an object are destroyed before its destructor is called')
        if user and not any(n.t(e.args[1]) == 'tgVarRef' and n.t(e.args[0]) == '0' for e in ev(o, n, 'insertElement', 'add')):
            bad('this', o, 'the destructor does not receive the variable')
    # generateVarInitialization
    fn = prog.fn(GN + '_generateVarInitialization')
    bad = Report(chk, fn)
    for o in good(walk(prog, fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        chk.count('construction cases')
        none = has(f, '(NONE==getInitializationMethod(varAstType')
        found = has(f, 'isSuccessful') is True and has(f, '(1==', 'stack.getLength') is True
        auto = [v for t, v in f.items() if re.match(r'out\d\(getGeneratedTypeAutoCtor\(', t)]
        cs = ev(o, n, 'generateFunctionCall')
        user = [e for e in cs if not e.name.startswith(TGN)]
        tgc = [e for e in cs if e.name.startswith(TGN)]
        st = ev(o, n, 'generateAssign')
        if none is True:
            one, any_ = has(f, '(1==paramAstTypes'), has(f, '(0<paramAstTypes')
            if cs:
                bad('none', o, 'a type without constructors is constructed by a call')
            if one and (len(st) != 1 or n.t(st[0].args[3]) != 'tgVarRef' or not n.t(st[0].args[2]).startswith('cast!(paramTgValues[0]:') or
                        n.t(st[0].args[1]) != 'tg(varAstType)'):
                bad('copy', o, 'the initial value, converted to the type of the variable, is not stored in it')
            if not one and (st or any_ is not False):
                bad('params', o, 'initial values that cannot be used are accepted')
            continue
        if none is None:
            bad('method', o, 'the construction method of the type is not considered')
        if not auto or len(tgc) != (1 if auto[0] else 0):
            bad('auto', o, 'the members of an object are constructed %d times' % len(tgc))
        if len(user) != (1 if found else 0):
            bad('user', o, 'the constructor of the type is called %d times' % len(user))
        if user and tgc and cs.index(user[0]) < cs.index(tgc[0]):
            bad('order', o, 'the members of an object are constructed after its constructor is called')
        if user and not any(n.t(e.args[1]) == 'tgVarRef' and n.t(e.args[0]) == '0' for e in ev(o, n, 'insertElement', 'add')):
            bad('this', o, 'the constructor does not receive the variable')
        if not found and (has(f, 'paramAstTypes.getCount') is not False or has(f, 'tryGet(', 'varAstType') is not False):
            bad('match', o, 'a variable whose type has no matching constructor is accepted')
    # the return statement and the end of the function
    fn = prog.fn(CG + '_generateReturnStatement')
    bad = Report(chk, fn)
    for o in good(walk(prog, fn)):
        n = EgNorm(fn)
        chk.count('destruction cases')
        es = [e for e in o.events if sname(e.name) in ('generateVarGroupDestruction', 'generateReturn', 'generateCast', 'generateVarInitialization',
                                                       'generateExpression')]
        d = [k for k, e in enumerate(es) if sname(e.name) == 'generateVarGroupDestruction']
        if len(d) != 1 or n.t(es[d[0]].args[1]) != '0' or d[0] != len(es) - 2 or sname(es[-1].name) != 'generateReturn':
            bad('destroy', o, 'the variables of all scopes must be destroyed once, between the evaluation of the result and the return')
    fn = prog.fn(GN + '_generateFunction')
    bad = Report(chk, fn)
    for o in Walk(prog, EgConfig(prog)).run(fn):
        n = EgNorm(fn)
        if o.kind != 'return':
            continue
        es = [e for e in o.events if sname(e.name) in ('generateVarGroupDestruction', 'finishFunctionBody', 'generateStatementBlock')]
        if not es or sname(es[0].name) != 'generateStatementBlock':
            continue
        chk.count('destruction cases')
        f = fdict(o, n)
        end = has(f, '(YES==', 'generateStatementBlock(')
        d = [e for e in es if sname(e.name) == 'generateVarGroupDestruction']
        if end is None:
            bad('end', o, 'the end of the function is not considered')
        elif len(d) != (0 if end else 1) or d and (es.index(d[0]) != 1 or n.t(d[0].args[1]) != '0' or n.t(d[0].args[0]) != n.t(es[0].args[1])):
            bad('destroy', o, 'the arguments must be destroyed once at the end of a function without a return statement')
    chk.floor('destruction cases', 40)
    chk.floor('construction cases', 6)


def members(chk, prog):
    """objects: the automatic constructors and destructors, and when there are any"""
    for m, call in (('_generateUserTypeAutoConstructor', 'generateMemberVarInitialization'),
                    ('_generateUserTypeAutoDestructor', 'generateMemberVarDestruction')):
        fn = prog.fn(TYG + m)
        bad = Report(chk, fn)
        for o in good(walk(prog, fn)):
            n = EgNorm(fn)
            f = fdict(o, n)
            es = ev(o, n, call)
            if not ev(o, n, 'prepareFunctionBody'):
                if has(f, 'Method(astType', '&AUTO') is not False and has(f, 'tryGetAuto') is not True:
                    bad('none', o, 'nothing is generated for a type that needs it')
                continue
            chk.count('member cases')
            want = []
            for t, v in f.items():
                x = re.match(r'isa<Definition>\((astType\.getBody\[(.*)\])\)$', t)
                if x and v:
                    mem = has(f, 'isInMemVariable(', ',%s.getTarget)' % x.group(1))
                    dom = has(f, '(OBJECT==getVariableDomain(', ',%s))' % x.group(1))
                    if mem is None or mem and dom is None:
                        bad('skipped', o, 'a member is passed over unseen')
                    elif mem and dom:
                        want.append(x.group(1) + '.getTarget')
            got = [n.t(e.args[0]) for e in es]
            if sorted(got) != sorted(want):
                bad('members', o, '%d of %d members are handled' % (len(got), len(want)))
            if len(ev(o, n, 'finishFunctionBody')) != 1:
                bad('finish', o, 'the function is not finished')
            if m.endswith('Constructor'):
                k = sum(1 for t, v in f.items() if re.match(r'isa<Definition>\(astType\.getBody\[(.*)\]\)$', t) and not v)
                if len(ev(o, n, 'generateStatement')) != k:
                    bad('statements', o, 'not every statement of the body is generated')
    chk.floor('member cases', 50)
    for m in ('getInitializationMethod', 'getDestructionMethod'):
        fn = prog.fn('Spp::Ast::UserType::' + m)
        bad = Report(chk, fn)
        name = {'getInitializationMethod': '~init', 'getDestructionMethod': '~terminate'}[m]
        for o in good(Walk(prog, EgConfig(prog)).run(fn)):
            n = EgNorm(fn)
            f = fdict(o, n)
            chk.count('method cases')
            want = set()
            for i in range(3):
                s = 'self.getBody[%d]' % i
                d = f.get('isa<Definition>(%s)' % s)
                if d is None:
                    continue
                if not d:
                    if m == 'getInitializationMethod' and f.get(s):
                        want.add('AUTO')
                    continue
                if not f.get(s + '.getTarget'):
                    continue
                if f.get('isa<Function>(%s.getTarget)' % s):
                    if has(f, s + '.getName', '"%s"' % name):
                        want.add('USER')
                elif f.get('isInMemVariable(helper,%s.getTarget)' % s) and f.get('isSharedDef(helper,%s)' % s) is False:
                    ty = 'traceType(helper,%s.getTarget,0)' % s
                    par = m == 'getInitializationMethod' and f.get('isa<ParamPass>(%s.getTarget)' % s) and has(f, '(ROUND==%s.getTarget.getType)' % s)
                    if par or f.get(ty) and f.get('(NONE==%s(%s,helper))' % (m, ty)) is False:
                        want.add('AUTO')
            got = set(re.findall(r'\b(USER|AUTO|BOTH)\b', n.t(o.ret)))
            if 'BOTH' in got:
                got = {'USER', 'AUTO'}
            if got != want:
                bad('method', o, 'the result is %s for a type that needs %s' % (n.t(o.ret), '|'.join(sorted(want)) or 'NONE'))
    chk.floor('method cases', 200)


def globs(chk, prog):
    """global variables"""
    fn = prog.fn(GN + '_generateVarDef')
    bad = Report(chk, fn)
    for o in good(walk(prog, fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        old = has(f, 'tryGetCodeGenData(session.getEda,definition.getTarget)')
        dom = has(f, '(GLOBAL==getVariableDomain(')
        if not dom and old is not False:
            continue
        if dom is None:
            dom = any(sname(e.name) == 'generateGlobalVariable' for e in o.events)
        adds = [(n.t(e.obj), e) for e in o.events if 'DependencyList' in e.name and sname(e.name) == 'add']
        ini = [e for t, e in adds if t == 'session.getGlobalVarInitializationDeps']
        des = [e for t, e in adds if t == 'session.getGlobalVarDestructionDeps']
        if not ev(o, n, 'generateGlobalVariable') and not old:
            continue
        chk.count('global variable cases')
        isp, rnd, par = has(f, 'isa<ParamPass>(definition.getTarget)'), has(f, '(ROUND==definition.getTarget.getType)'), f.get('definition.getTarget.getParam')
        params = isp and rnd and par
        im = has(f, '(NONE==getInitializationMethod(')
        done = has(f, 'getGlobalVarState(', '&INITIALIZED)')
        want = (params or im is False) and done is False
        if bool(want) != (len(ini) == 1) or len(ini) > 1:
            bad('init', o, 'a global variable that %s initialisation is scheduled %d times for it' % ('needs' if want else 'needs no', len(ini)))
        if old:
            if des:
                bad('destroy', o, 'a global variable is scheduled for destruction again')
        else:
            dm = has(f, '(NONE==getDestructionMethod(')
            dd = has(f, 'getGlobalVarState(', '&TERMINATED)')
            want = dm is False and dd is False
            if dm is None or bool(want) != (len(des) == 1) or len(des) > 1:
                bad('destroy', o, 'a global variable that %s destruction is scheduled %d times for it' % ('needs' if want else 'needs no', len(des)))
        for e in ini + des:
            if n.t(e.args[0]) != 'definition.getTarget':
                bad('var', o, 'another variable is scheduled')
    chk.floor('global variable cases', 50)
    fn = prog.fn(GN + 'buildGlobalCtorOrDtor')
    bad = Report(chk, fn)
    cfg = EgConfig(prog, events=('setGlobalVarState', 'operator()', '::remove', '::clear'))
    cfg.loop_bound = 1
    for o in good(Walk(prog, cfg).run(fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        chk.count('global construction cases')
        var = 'deps[0]'
        dtor = f.get('dtor')
        st = 'getGlobalVarState(self,session,deps[0])&'
        sets = ev(o, n, 'setGlobalVarState')
        calls = [e for e in o.events if sname(e.name) == 'operator()' and 'varOpCallback' in n.t(e.obj if e.obj is not None else e.res)]
        finish, prep = ev(o, n, 'finalizeNullaryProcedure'), ev(o, n, 'prepareNullaryProcedure')
        if dtor is None:
            if sets or calls:
                bad('kind', o, 'construction and destruction are not told apart')
            continue
        ing, ed = ('TERMINATING', 'TERMINATED') if dtor else ('INITIALIZING', 'INITIALIZED')
        done = has(f, st + ed + ')')
        busy = has(f, st + ing + ')')
        if done is True:
            if [e for e in sets if ing in n.t(e.args[2]) and '~' not in n.t(e.args[2])] or not any(sname(e.name) == 'remove' for e in o.events):
                bad('again', o, 'a variable that is %s already is not left out' % ed.lower())
            continue
        if f.get('deps.getCount') is False or f.get('(0<deps.getCount)') is False:
            continue    # nothing was left to do
        if done is None or busy is None or busy:
            bad('circular', o, 'a variable that is being %s is accepted' % ed.lower())
            continue
        mark = [n.t(e.args[2]) for e in sets]
        if len(mark) != 2 or not mark[0].endswith('|%s)' % ing) or not mark[1].endswith('|%s)' % ed) or '~' not in mark[1] or ing not in mark[1]:
            bad('state', o, 'the variable is not marked as %s, then as %s' % (ing.lower(), ed.lower()))
        if len(calls) != 1 or len(prep) != 1 or len(finish) != 1:
            bad('once', o, 'the variable is not %s exactly once in the function' % ed.lower())
            continue
        if not (o.events.index(prep[0]) < o.events.index(calls[0]) < o.events.index(finish[0])):
            bad('where', o, 'the variable is not %s inside of the function' % ed.lower())
        if sets and len(sets) == 2 and not (o.events.index(sets[0]) < o.events.index(calls[0]) < o.events.index(sets[1])):
            bad('order', o, 'the variable is not marked while it is %s' % ed.lower())
        a = [n.t(x) for x in calls[0].args]
        if not any(x.startswith('out') and 'generateVarReference(' in x for x in a) or var not in a:
            bad('var', o, 'another variable is %s' % ed.lower())
    chk.floor('global construction cases', 10)
    # the functions made are handed on
    fn = prog.fn(GN + '_buildDependencies')
    bad = Report(chk, fn)
    hit = {'Ctor': 0, 'Dtor': 0}
    for o in Walk(prog, EgConfig(prog, events=('::add', 'buildGlobalCtorOrDtor'))).run(fn):
        n = EgNorm(fn)
        f = fdict(o, n)
        bs = ev(o, n, 'buildGlobalCtorOrDtor')
        adds = [n.t(e.obj) for e in o.events if sname(e.name) == 'add' and e.obj is not None]
        for kind, deps in (('Ctor', 'session.getGlobalVarInitializationDeps'), ('Dtor', 'session.getGlobalVarDestructionDeps')):
            b = [e for e in bs if any(n.t(a) == deps for a in e.args)]
            k = adds.count('session.getGlobal%ss' % kind)
            if k > 1 or k and not b:
                bad(kind + ':add', o, 'a function is handed on that was not made')
            if len(b) > 1:
                bad(kind + ':twice', o, 'the variables are handled twice')
            if b:
                flag = n.t(b[0].args[3])
                if flag not in ({'Ctor': ('0', 'false'), 'Dtor': ('1', 'true')}[kind]):
                    bad(kind + ':kind', o, 'construction and destruction are mixed up')
                hit[kind] += k
                x = [t for t, v in fact_items(o) if sname(t[1] if t[0] == 'call' else '') == 'buildGlobalCtorOrDtor' and any(n.t(a) == deps for a in t[2])]
                okk = any(v for t, v in fact_items(o) if t in x)
                nm = has(f, '(0<', 'varNames.getLength')
                if okk and not k and nm is not False and o.kind == 'return':
                    bad(kind + ':lost', o, 'the function made is not handed on')
        g = has(f, '(0<session.getGlobalVarInitializationDeps.getCount)')
        if o.kind == 'return' and g and not [e for e in bs]:
            bad('missed', o, 'scheduled variables are not handled')
        chk.count('dependency cases')
    for k, v in hit.items():
        if not v:
            bad(k + ':never', None, 'no function is ever handed on to the %s list' % k)
    chk.floor('dependency cases', 8)
    # the callbacks
    for u, g in sorted(prog.fns.items()):
        if '$lambda' in u and g.f == fn.f and fn.u.split('@F@')[-1][:20] in u and g.cfg.get('blocks'):
            bad = Report(chk, g)
            for o in good(walk(prog, g)):
                n = EgNorm(g)
                ini, des = ev(o, n, 'generateVarInitialization'), ev(o, n, 'generateVarDestruction')
                if len(ini) + len(des) != 1:
                    bad('once', o, 'a global variable is not handled exactly once')
                    continue
                chk.count('callback cases')
                a = [n.t(x) for x in (ini or des)[0].args]
                if a[:2] != ['varAstType', 'varTgRef']:
                    bad('var', o, 'another variable is handled')
                if not any('varNames' in n.t(e.obj) for e in ev(o, n, 'add') if e.obj is not None):
                    bad('name', o, 'the variable is not noted as handled')
