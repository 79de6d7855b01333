"""P05: if, while, for, break, continue, logical operators and statement blocks."""
import itertools, re
from tg import *
from table import *

TITLE = 'Control flow statements execute exactly the parts their conditions select'
TECHNIQUE = 'path-sensitive dataflow summaries of the control-flow generators compared with a table of branches; enumeration of nestings'
NOTE = ('Exhaustive over the case distinctions of the generators (with or without else, terminated or not, scope or single '
        'statement bodies) and over all nestings up to four levels for break and continue; decided on the syntax tree, '
        'path-sensitively, new helpers inlined. Trusts the clang front end, the summary engine and LLVM.')
RULE = ('path summaries: (1) the LLVM target generator creates a separate block of the current function for every part of a '
        'statement, branches on the condition to the body entry or the else/exit entry, jumps from every part that has not '
        'ended otherwise to its successor (merge, condition, updater), and continues in the merge or exit block; logical '
        'operators join the two values from the blocks they come from; (2) the statement generators generate every part '
        'once, in its own context and scope, convert conditions to booleans, and hand the condition value to the finishing '
        'step; a terminal if is one whose branches are both terminal; (3) break and continue reach the loop their step '
        'count names, end all scopes between, and are rejected when there is no such loop')

BB = 'getLlvmEntryBlock'


def run_tg(chk, prog):
    def outcomes(m, facts):
        fn, w, res = summarise(prog, TG + '::' + m)
        sel = []
        for o, n in res:
            def atom(t, n=n):
                if t[0] == 'isa':
                    return True
                if t[0] in ('call', 'f', 'v'):
                    return facts.get(n.t(t))
            if consistent(o.facts, atom):
                sel.append((o, n))
        return fn, sel

    def heap(o, n, base):
        r = {}
        for k, v in o.state.heap.items():
            if k[0] == 'f' and n.t(k[1]) == base:
                r[n.fieldname(k[2])] = n.t(v)
        return r

    def check(m, facts, eff, block, what, value=None, same=()):
        """eff: builder -> effects; block: writes to the current block"""
        fn, sel = outcomes(m, facts)
        key = 'tg:%s:%s' % (m, what)
        chk.count('target control-flow cases')
        if not sel:
            chk.violation(key, fn.loc(), '%s (%s) has no way to succeed' % (m, what))
        for o, n in sel:
            got = n.effects()
            val = n.t(out_param(fn, o, len(fn.params) - 1)) if value else None
            w = heap(o, n, 'P0')
            fix = lambda s: s
            for a, b in same:
                fix = lambda s, f=fix, a=a, b=b: f(s).replace(a, b)
            merged = {}
            for b, es in got.items():
                merged.setdefault(fix(b), []).extend(fix(e) for e in es)
            if merged != eff:
                chk.violation(key, fn.loc(o.node), '%s (%s) builds %s; it must build %s' % (m, what, got, eff))
            if w != block:
                chk.violation(key + ':block', fn.loc(o.node), '%s (%s) leaves the current block with %s; it must be %s' % (
                    m, what, w, block))
            if value and val not in value:
                chk.violation(key + ':value', fn.loc(o.node), '%s yields %s; it must yield %s' % (m, val, value[0]))

    B, E, U, CB, X = ('P1.get%sBlock' % x for x in ('Body', 'Else', 'Updater', 'Condition', 'Exit'))
    P = 'P0.getIrBuilder'

    def cont(to, entry):
        r = {'getLlvmBlock': to}
        if not entry:
            r[BB] = to
        return r
    # if
    for bt, els, et, entry in itertools.product((True, False), repeat=4):
        if et and not els:
            continue
        facts = {B + '.isTerminated': bt, E: els, E + '.isTerminated': et, 'P0.' + BB: entry}
        if bt and els and et:
            if entry:
                check('finishIfStatement', facts, {P: ['CondBr(P2.getLlvmValue,%s.%s,%s.%s)' % (B, BB, E, BB)]},
                      {'isTerminated': '1'}, 'both branches end the path', same=[(CB, 'P0')])
            continue
        eff = {P: ['CondBr(P2.getLlvmValue,%s.%s,%s)' % (B, BB, E + '.' + BB if els else 'bb1'), 'SetInsertPoint(bb1)']}
        if not bt:
            eff[B + '.getIrBuilder'] = ['Br(bb1)']
        if els and not et:
            eff[E + '.getIrBuilder'] = ['Br(bb1)']
        check('finishIfStatement', facts, eff, cont('bb1', entry), 'body %s, %s' % (
            'ends the path' if bt else 'continues', 'no else' if not els else 'else ends the path' if et else 'else continues'),
            same=[(CB, 'P0')])
    # loops
    for loop in ('While', 'For'):
        for bt, entry in itertools.product((True, False), repeat=2):
            eff = {P: ['Br(%s.%s)' % (CB, BB), 'SetInsertPoint(%s)' % (X + '.getLlvmBlock')],
                   CB + '.getIrBuilder': ['CondBr(P2.getLlvmValue,%s.%s,%s.%s)' % (B, BB, X, BB)]}
            if not bt:
                eff[B + '.getIrBuilder'] = ['Br(%s.%s)' % (U if loop == 'For' else CB, BB)]
            if loop == 'For':
                eff[U + '.getIrBuilder'] = ['Br(%s.%s)' % (CB, BB)]
            check('finish%sStatement' % loop, {B + '.isTerminated': bt, 'P0.' + BB: entry}, eff,
                  cont(X + '.getLlvmBlock', entry), 'body %s' % ('ends the path' if bt else 'continues'))
    check('generateBreak', {}, {P: ['Br(%s.%s)' % (X, BB)]}, {'isTerminated': '1'}, 'in any loop')
    for upd in (True, False):
        check('generateContinue', {U: upd}, {P: ['Br(%s.%s)' % (U if upd else CB, BB)]}, {'isTerminated': '1'},
              'in a %s loop' % ('for' if upd else 'while'))
    # logical operators
    for op, br in (('Or', 'bb1,P1.' + BB), ('And', 'P1.%s,bb1' % BB)):
        for entry in (True, False):
            check('finishLogical' + op, {'P0.' + BB: entry},
                  {P: ['CondBr(P2.getLlvmValue,%s)' % br, 'SetInsertPoint(bb1)'], 'P1.getIrBuilder': ['Br(bb1)']},
                  cont('bb1', entry), 'logical ' + op,
                  ['Value(Phi(P2.getLlvmValue<-P0.getLlvmBlock;P3.getLlvmValue<-P1.getLlvmBlock))'])
    # preparation
    for m, parts, facts in (('prepareIfStatement', {'getBodyBlock': 1, 'getElseBlock': 1, 'getConditionBlock': 'P0'}, {'P1': True}),
                            ('prepareIfStatement', {'getBodyBlock': 1, 'getElseBlock': None, 'getConditionBlock': 'P0'}, {'P1': False}),
                            ('prepareWhileStatement', {'getBodyBlock': 1, 'getConditionBlock': 1, 'getExitBlock': 2, 'getUpdaterBlock': None}, {}),
                            ('prepareForStatement', {'getBodyBlock': 1, 'getConditionBlock': 1, 'getUpdaterBlock': 1, 'getExitBlock': 2}, {}),
                            ('prepareLogicalOp', None, {})):
        fn, sel = outcomes(m, facts)
        key = 'tg:%s:%s' % (m, facts.get('P1'))
        chk.count('target control-flow cases')
        if not sel:
            chk.violation(key, fn.loc(), m + ' has no way to succeed')
        for o, n in sel:
            v = out_param(fn, o, len(fn.params) - 1)
            fields = {}
            for k, x in o.state.heap.items():
                if k[0] == 'f' and k[1] == v:
                    fields[n.fieldname(k[2])] = x
            if parts is None:
                fields, want = {'block': v}, {'block': 1}
            else:
                want = parts
            used = []
            for nm, how in want.items():
                x = fields.get(nm)
                if how is None:
                    if x is not None and not is_zero(x):
                        chk.violation(key + ':' + nm, fn.loc(o.node), '%s creates a part (%s) that the statement does not have' % (m, nm))
                    continue
                if how == 'P0':
                    if x is None or n.t(x) != 'P0':
                        chk.violation(key + ':' + nm, fn.loc(o.node), '%s: the condition is not generated in the current block' % m)
                    continue
                if x is None or x[0] != 'obj':
                    chk.violation(key + ':' + nm, fn.loc(o.node), '%s does not create the block of a part (%s)' % (m, nm))
                    continue
                f = {n.fieldname(k[2]): y for k, y in o.state.heap.items() if k[0] == 'f' and k[1] == x}
                bb = f.get('getLlvmBlock')
                why = None
                if bb is None or bb[0] != 'obj' or bb[1] != 'llvm::BasicBlock':
                    why = 'has no block of its own'
                elif f.get(BB) != bb:
                    why = 'is not entered at its block'
                elif bb in used or x in used:
                    why = 'shares the block of another part'
                elif n.t(f.get('getFunction')) != 'P0.getFunction':
                    why = 'does not belong to the current function'
                elif not any(n.t(a) == 'P0.getFunction.getLlvmFunction' for a in bb[2]):
                    why = 'has a block outside of the current function'
                elif how == 1 and n.t(f.get('getIrBuilder', ZERO)) != 'builder(%s)' % n.t(bb):
                    why = 'has no builder at its block'
                elif n.t(f.get('isTerminated', FALSE)) != '0':
                    why = 'starts out terminated'
                if why:
                    chk.violation(key + ':' + nm, fn.loc(o.node), '%s: the part %s %s' % (m, nm, why))
                used += [bb, x]
    chk.floor('target control-flow cases', 7 + 8 + 3 + 4 + 5)


CG = 'Spp::CodeGen::CommandGenerator::'
STACK = ('pushScope', 'popScope')
SCOPE = re.compile(r'getScopeStartIndex\((?:session|Session\([^()]*(?:\([^()]*(?:\([^()]*(?:\([^()]*\)[^()]*)*\)[^()]*)*\)[^()]*)*\)|\w+)\.getDestructionStack,(-?\w+)\)')


def texts(o, n, repl):
    """(events, data): the calls, and the contexts set for nodes"""
    ev, data = [], []
    for e in o.events:
        s = sname(e.name)
        if s in IGNORE and s != 'getCodeGenData' or s in ('getCodeGenData', 'tryGetCodeGenData'):
            continue
        x = short(s + '(' + ', '.join(n.t(a) for a in e.args) + ')', repl)
        if s == 'setCodeGenData':
            data.append((len(ev), x))
        else:
            ev.append(x)
    return ev, data


def short(x, repl):
    for a, b in repl:
        x = x.replace(a, b)
    return SCOPE.sub(r'scope(\1)', x)


def part(node, sess, scope=True):
    return ['generateExpression(%s, %s, _, _)' % (node, sess)]


COND = ['pushScope()', 'generateExpression(astNode.getCondition, cond, _, _)',
        'generateCast(cond, C.astType, bool(), astNode.getCondition, C.targetData, 1, _)',
        'generateVarGroupDestruction(cond, scope(-1))', 'popScope()']
UPD = ['pushScope()', 'generateExpression(astNode.getUpdater, upd, _, _)', 'generateVarGroupDestruction(upd, scope(-1))', 'popScope()']
CV = 'cast!(C.targetData:C.astType>bool())'


def statement(chk, prog, m, key, what, facts, want, data, repl, terminal=None, inline=('generateCondition', 'castCondition')):
    fn = prog.fn(CG + m)
    ck = (m,)
    if ck not in CACHE:
        CACHE[ck] = Walk(prog, EgConfig(prog, inline=inline, events=('setCodeGenData', '::pushScope', '::popScope'))).run(fn)
    outs = CACHE[ck]
    chk.count('statement generation cases')

    def atomize(o):
        n = EgNorm(fn)

        def atom(t):
            if t[0] in ('isa', 'call', 'f', 'out', 'v', 'eq'):
                return facts.get(short(n.t(t), repl))
        return n, atom
    hit = 0
    for o in outs:
        n, atom = atomize(o)
        if o.kind != 'return' or is_zero(o.ret) or not consistent(o.facts, atom):
            continue
        ev, dt = texts(o, n, repl)
        hit += 1
        # the generic failure results: every step must have succeeded
        if ev != want:
            k = next((i for i in range(max(len(ev), len(want))) if i >= len(ev) or i >= len(want) or ev[i] != want[i]), 0)
            chk.violation(key, fn.loc(o.node), '%s: step %d is %s; it must be %s' % (
                what, k + 1, ev[k] if k < len(ev) else 'missing', want[k] if k < len(want) else 'nothing'))
        have = {x: p for p, x in dt}
        for x, before in data:
            k = next((i for i, e in enumerate(ev) if e.startswith(before)), len(ev))
            if have.get(x, 999) > k:
                chk.violation(key + ':data', fn.loc(o.node), '%s: %s must come before %s' % (what, x, before))
        if sname(o.ret[1] if o.ret[0] == 'call' else '') and short(n.t(o.ret), repl).split('(')[0] != want[-1].split('(')[0]:
            chk.violation(key + ':ret', fn.loc(o.node), '%s: the result of the last step is not returned' % what)
        if terminal is not None:
            p = [x for x, nm in zip(fn.params, param_names(fn)) if nm == 'terminal']
            v = o.state.env.get((0, p[0]['d']))

            def ta(t):
                return atom(t) if t[0] != 'eq' else facts.get(short(n.t(t), repl))
            while v is not None and v[0] == 'cond':
                c = evalt(v[1], ta)
                if c is None:
                    break
                v = v[2] if c else v[3]
            got = n.t(v) if v is not None else '?'
            if (got == 'YES') != terminal or v is None or v[0] != 'enum':
                chk.violation(key + ':terminal', fn.loc(o.node), '%s: the statement %s end the path, but is reported as %s' % (
                    what, 'does' if terminal else 'does not', got))
    if not hit:
        chk.violation(key, fn.loc(), what + ' is never generated')


CACHE = {}


def run_statements(chk, prog):
    # if
    ic = 'out2(prepareIfStatement(session.getTg,ctx,astNode.getElseBody,0))'
    ses = lambda c: 'Session(session,%s,session.getTgAllocContext)' % c
    repl = [(ic, 'IC'), (ses('IC.getConditionContext'), 'cond'), (ses('IC.getBodyContext'), 'body'), (ses('IC.getElseContext'), 'else'),
            ('out2(generateExpression(g,astNode.getCondition,cond,_,_))', 'C')]
    for els, bs, es, bt, et in itertools.product((True, False), repeat=5):
        if not els and (es or et):
            continue
        facts = {'astNode.getElseBody': els, 'isa<Scope>(astNode.getIfBody)': bs, 'isa<Scope>(astNode.getElseBody)': es,
                 '(YES==out2(generateStatementBlock(g,astNode.getIfBody,body,UNKNOWN)))': bt,
                 '(YES==out2(generateStatementBlock(g,astNode.getElseBody,else,UNKNOWN)))': et}
        want = ['prepareIfStatement(ctx, astNode.getElseBody, 0)'] + COND + ['generateStatementBlock(astNode.getIfBody, body, UNKNOWN)']
        data = [('setCodeGenData(astNode.getIfBody, IC.getBodyContext)', 'generateStatementBlock(astNode.getIfBody')] if bs else []
        if els:
            want += ['generateStatementBlock(astNode.getElseBody, else, UNKNOWN)']
            if es:
                data += [('setCodeGenData(astNode.getElseBody, IC.getElseContext)', 'generateStatementBlock(astNode.getElseBody')]
        want += ['finishIfStatement(ctx, IC, %s)' % CV]
        statement(chk, prog, '_generateIfStatement', 'if:%d%d%d%d%d' % (els, bs, es, bt, et), 'an if statement with%s else' % ('' if els else 'out'),
                  facts, want, data, repl, terminal=bt and els and et)
    # loops
    for loop in ('While', 'For'):
        lc = 'out1(prepare%sStatement(session.getTg,ctx,0))' % loop
        repl = [(lc, 'LC'), (ses('LC.getConditionContext'), 'cond'), (ses('LC.getBodyContext'), 'body'), (ses('LC.getUpdaterContext'), 'upd'),
                ('out2(generateExpression(g,astNode.getCondition,cond,_,_))', 'C'),
                ('out3(generateExpression(g,astNode.getUpdater,upd,_,_))', '_')]
        for bs, init in itertools.product((True, False), (True, False) if loop == 'For' else (False,)):
            facts = {'isa<Scope>(astNode.getBody)': bs, 'astNode.getInitializer': init}
            want = ['generateStatement(astNode.getInitializer, session, _)'] if init else []
            want += ['prepare%sStatement(ctx, 0)' % loop] + COND
            if loop == 'For':
                want += UPD
            want += ['generateStatementBlock(astNode.getBody, body, _)', 'finish%sStatement(ctx, LC, %s)' % (loop, CV)]
            data = [('setCodeGenData(astNode, LC)', 'generateStatementBlock')]
            if bs:
                data += [('setCodeGenData(astNode.getBody, LC.getBodyContext)', 'generateStatementBlock')]
            statement(chk, prog, '_generate%sStatement' % loop, '%s:%d%d' % (loop.lower(), bs, init), 'a %s loop' % loop.lower(),
                      facts, want, data, repl)
    chk.floor('statement generation cases', 16 + 2 + 4)


def run_steps(chk, prog):
    """break and continue"""
    kinds = ('while', 'for', 'if', 'scope', 'function', 'other')
    LOOP = ('while', 'for')
    CTL = ('while', 'for', 'if')
    DEPTH = 4
    for m, op in (('_generateBreakStatement', 'generateBreak'), ('_generateContinueStatement', 'generateContinue')):
        fn = prog.fn(CG + m)
        cfg = EgConfig(prog)
        cfg.loop_bound = DEPTH
        cfg.max_paths = 400000
        outs = [o for o in Walk(prog, cfg).run(fn)]
        n = EgNorm(fn)
        index = {}
        texts_ = {}

        def txt(t):
            r = texts_.get(t)
            if r is None:
                r = texts_[t] = n.t(t)
            return r
        good = [o for o in outs if o.kind == 'return' and not is_zero(o.ret)]
        bad = [o for o in outs if o.kind == 'return' and is_zero(o.ret)]
        if len(good) < 4:
            raise Broken('%s: only %d ways found' % (fn.q, len(good)))
        rx = re.compile(r'^(?:isa<(\w+)>\()?astNode((?:\.getOwner)*)\)?$')
        CL = {'WhileStatement': ('while',), 'ForStatement': ('for',), 'IfStatement': ('if',), 'Function': ('function',),
              'Scope': ('scope',)}
        paths = PathIndex(good)
        tries = 0
        for depth in range(1, DEPTH):
            for chain in itertools.product(kinds, repeat=depth):
                # chain[0] is the owner of the break statement; the root has no owner
                nodes = ('leaf',) + chain

                def atom(t):
                    if t[0] in ('isa', 'call', 'f', 'eq'):
                        s = txt(t)
                        k = rx.match(s)
                        if k:
                            d = k.group(2).count('.getOwner')
                            if k.group(1):
                                if d >= len(nodes):
                                    return False
                                if k.group(1) not in CL:
                                    return None
                                return nodes[d] in CL[k.group(1)]
                            return d < len(nodes)
                        if s.startswith('isa<IntegerLiteral>(astNode.getSteps'):
                            return cur['explicit']
                        if 'strToInt' in s or 'stoi' in s or 'strtol' in s:
                            return cur['steps']
                    return None
                for steps, explicit in ((1, False), (1, True), (2, True), (3, True), (0, True), (-1, True)):
                    cur = {'steps': steps, 'explicit': explicit}
                    # the oracle
                    want = None
                    if steps > 0:
                        left, scopes = steps, 0
                        for i, k in enumerate(nodes):
                            if k in LOOP:
                                left -= 1
                                if left == 0:
                                    want = (scopes, 'astNode' + '.getOwner' * i)
                                    break
                            if k == 'function':
                                break
                            own = nodes[i + 1] if i + 1 < len(nodes) else None
                            if k == 'scope' or own in CTL:
                                scopes += 1
                    key = '%s:%s:%d' % (op, '/'.join(chain), steps)
                    what = '%s %d inside %s' % (op[8:].lower(), steps, ' inside '.join(chain))
                    tries += 1
                    g = paths.select(atom)
                    if want is None:
                        if g:
                            chk.violation(op + ':reject', fn.loc(g[0].node), '%s is accepted; there is no such loop' % what)
                        continue
                    if not g:
                        chk.violation(op + ':accept', fn.loc(), '%s is rejected' % what)
                    for o in g:
                        ev = [e for e in o.events if sname(e.name) in ('generateVarGroupDestruction', op)]
                        if [sname(e.name) for e in ev] != ['generateVarGroupDestruction', op]:
                            chk.violation(op + ':steps', fn.loc(o.node), '%s must end the scopes it leaves and then jump, once each' % what)
                            continue
                        d = ev[0].args[1]
                        val = None
                        if d[0] == 'call' and sname(d[1]) == 'getScopeStartIndex':
                            val = evalt(d[2][-1], atom)
                            if val is None and d[2][-1][0] == 'un':
                                x = evalt(d[2][-1][2], atom)
                                val = -x if x is not None else None
                        s = txt(ev[1].args[1])
                        if val != -want[0] or txt(ev[0].args[0]) != 'session':
                            chk.violation(op + ':scopes', fn.loc(o.node), '%s leaves %d scopes, but %s are ended' % (
                                what, want[0], -val if val is not None else txt(d)))
                        if s != 'tg(%s)' % want[1] or txt(ev[1].args[0]) != 'ctx':
                            chk.violation(op + ':loop', fn.loc(o.node), '%s goes to %s; it must go to %s' % (what, s, want[1]))
        chk.count('break and continue nestings', tries)
    chk.floor('break and continue nestings', 2000)


def run_logical(chk, prog):
    """the logical operators of the expression generator"""
    fn = prog.fn(EG + '::_generateLogicalOp')
    F = 'out3(generate(self,astNode.getFirst,g,session,_,_))'
    for sym, op in (('||', 'Or'), ('or', 'Or'), ('&&', 'And'), ('and', 'And')):
        outs = Walk(prog, EgConfig(prog, optype=sym, events=('::pushScope', '::popScope'))).run(fn)
        for ctx in (True, False):
            sc = 'out1(prepareLogicalOp(session.getTg,ctx,0))' if ctx else '0'
            child = 'Session(session,%s,session.getTgAllocContext)' % sc
            S = 'out3(generate(self,astNode.getSecond,g,%s,_,_))' % child
            n = EgNorm(fn)
            repl = [(child, 'child'), (sc, 'SC') if ctx else ('\0', ''), (F, 'FV'), (S.replace(child, 'child'), 'SV'),
                    ('out4(generate(self,astNode.getFirst,g,session,_,_))', '_'), ('out3(generate(self,astNode.getSecond,g,child,_,_))', 'SV')]
            hit = 0
            chk.count('logical operator cases')
            key = 'logical:%s:%d' % (sym, ctx)
            for o in outs:
                def atom(t):
                    if t[0] == 'call':
                        s = n.t(t)
                        if s == 'ctx':
                            return ctx
                if o.kind != 'return' or is_zero(o.ret) or not consistent(o.facts, atom):
                    continue
                hit += 1
                ev, dt = texts(o, n, repl)
                want = ['generate(astNode.getFirst, g, session, _, _)',
                        'castLogicalOperand(g, session, astNode.getFirst, FV.astType, FV.targetData, 0)', 'pushScope()',
                        'generate(astNode.getSecond, g, child, _, _)',
                        'castLogicalOperand(g, child, astNode.getSecond, SV.astType, SV.targetData, 0)',
                        'generateVarGroupDestruction(child, scope(-1))', 'popScope()']
                if ctx:
                    want += ['finishLogical%s(ctx, SC, bool(FV.targetData:FV.astType), bool(SV.targetData:SV.astType), result.targetData)' % op]
                prep = 'prepareLogicalOp(ctx, 0)'
                ev2 = [re.sub(r', (_|out\d\(.*\))\)$', ', _)', e) if e.startswith('generate(') else e for e in ev if e != prep]
                if ev2 != want or (prep in ev) != ctx:
                    k = next((i for i in range(max(len(ev2), len(want))) if i >= len(ev2) or i >= len(want) or ev2[i] != want[i]), 0)
                    chk.violation(key, fn.loc(o.node), 'operator %s: step %d is %s; it must be %s' % (
                        sym, k + 1, ev2[k] if k < len(ev2) else 'missing', want[k] if k < len(want) else 'nothing'))
                ty = result_field(o, fn, 'astType')
                if ty is None or n.t(ty) != 'bool()':
                    chk.violation(key + ':type', fn.loc(o.node), 'operator %s does not yield a boolean' % sym)
            if not hit:
                chk.violation(key, fn.loc(), 'operator %s is never generated' % sym)
    chk.floor('logical operator cases', 8)


def run(chk, prog):
    run_tg(chk, prog)
    run_statements(chk, prog)
    run_steps(chk, prog)
    run_logical(chk, prog)
