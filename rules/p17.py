"""P17: names and calls resolve to what scoping and overloading select."""
import itertools
from world import *
import seek

TITLE = 'Names and calls resolve to what the scoping and overloading rules select'
TECHNIQUE = ('path-sensitive dataflow summaries of the lookup and matching functions, every combination of candidates and outcomes compared with a '
             'reference selection')
NOTE = ('Exhaustive over the kinds of thing a name can denote, the operators, the modes of a lookup, the outcomes of the inner lookups, the visitor\'s '
        'answers and the listed shapes of scopes, stacks, bridges, injections and parameter lists (up to three of each). What the inner steps do is '
        'decided by the parts about them; type matching itself is P02 and P18.')
RULE = ('a lookup goes through owners, members, injections and bridges in the order of the scoping rules and stops where they say; a call selects '
        'the candidate with the best match, and two equal candidates of one scope are an ambiguity; what cannot be called gives the notice that says why; '
        'arguments are given to parameters from left to right within the limits of argument packs')
CT = 'Spp::Ast::CalleeTracer::'
REQ = 'Spp::Ast::CalleeLookupRequest'
RES = 'Spp::Ast::CalleeLookupResult'
OPS = ('', '()', '[]', '=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '$=', '<<=', '>>=', '+', '-', '*', '&', '==', '++', '~cast', 'مخصص')
ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '$=', '<<=', '>>=')
CUSTOM = ('enum', 'Spp::Ast::TypeMatchStatus::Status::CUSTOM_CASTER', '3')
ok, no = 'ok', 'no'


class Lookup(World):
    """The lookups of the callee tracer: results are put together field by field;
    inner lookups and matches give outcomes named I1, I2, ... in order."""
    copies = (REQ, RES)
    value_classes = ('Core::Basic::ContainerExtender', 'Core::Data::Ast::Identifier')
    keep = ()
    inner = ('lookupCallee', 'lookupCallee_routing', 'lookupCallee_function', 'lookupCallee_type', 'lookupCallee_template', 'lookupCallee_scope',
             'lookupCallee_argPack', 'lookupCallee_var', 'lookupCallee_literal', 'lookupCallee_funcPtr', 'lookupCallee_customOp',
             'lookupCallee_builtInOp', 'matchCall', 'matchInstance', 'matchTargetType', 'isCastableTo')
    access = ('isSuccessful', 'isNew', 'isNameMatched', 'isFailure')

    def __init__(self, norm, values=None, kinds=None, calls=None, outcomes=()):
        World.__init__(self, norm, self.inner, values, kinds)
        self.calls = calls or {}
        self.outcomes = outcomes

    def inline(self, callee, name, node):
        return callee.n in self.access

    def unchanged(self, name, ai):
        s = sname(name)
        return s.startswith('lookupCallee') and ai == 0 or s in ('matchCall', 'isCastableTo')

    def moved(self, v, src, dst):
        return ('stk', dst, v[2], v[3]) if v[0] == 'stk' else v

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        if s == 'isAssignOp' and len(args) == 1 and args[0][0] == 's':
            return TRUE if args[0][1] in ASSIGN else FALSE
        if s == 'sbstr_cast':
            return args[0]
        if s in self.inner:
            return ('val', 'I%d' % (sum(1 for e in st.events if sname(e.name) in self.inner) + 1))
        if s in self.calls:
            v = self.calls[s]
            return v(obj, args) if callable(v) else v
        if s == 'add' and obj is not None and len(args) == 1:
            st.heap[('items', strip_ref(obj))] = st.heap.get(('items', strip_ref(obj)), ()) + (args[0],)
        if s == 'setPreItem' and len(args) == 2:
            st.heap[('items', strip_ref(obj))] = ('pre', args[0], args[1])
        if s == 'setValue' and obj is not None and len(args) == 1:
            st.heap[('value', strip_ref(obj))] = args[0]
        if obj is not None and s in ('pushObject', 'pushThisMarker', 'pushFunctionCall'):
            k = ('f', strip_ref(obj), RES + '::stack')
            self.push(st, k, args[0] if args else C({'pushThisMarker': 'this', 'pushFunctionCall': 'call'}[s]))
        if s == 'clear' and obj is not None:
            o = strip_ref(obj)
            if o[0] == 'stk' or o[0] == 'f' and o[2] == RES + '::stack':
                bases = [el('result'), o[1]] + [k[1] for k in st.heap if k[0] == 'f' and k[2].startswith(RES)]
                b = [b for b in bases if w.lookup(st, ('f', b, RES + '::stack')) == o][0]
                st.heap[('f', b, RES + '::stack')] = ('stk', b, (), None)
        return World.call_value(self, w, st, name, node, obj, args)

    def push(self, st, k, x):
        v = st.heap.get(k, k)
        if v[0] == 'stk':
            st.heap[k] = ('stk', k[1], (x,) + v[2], v[3])
        else:
            st.heap[k] = ('stk', k[1], (x,), v)

    def on_call(self, w, st, name, node, obj, args, res):
        s = sname(name)
        if s not in self.inner:
            return
        n = self.norm
        if s.startswith('lookupCallee'):
            base = strip_ref(args[0])
            d = []
            for f in ('astNode', 'target', 'mode', 'skipInjections', 'varTargetOp', 'ref', 'op', 'thisType', 'argTypes', 'templateParam'):
                v = w.lookup(st, ('f', base, REQ + '::' + f))
                t = self.value(st, v)
                if t != self.first(f):
                    d.append('%s=%s' % (f, t))
            st.events[-1].x = '%s(%s)%s' % (s, ', '.join(d), '' if n.t(args[1]) == 'result' else ' into %s' % n.t(args[1]))
        else:
            st.events[-1].x = '%s(%s)' % (s, ', '.join(self.value(st, a) for a in ((obj,) if obj is not None else ()) + args if n.t(a) not in ('self.helper', 'self')))

    def decide(self, p):
        if p[0] == 'eq' and p[1][0] == p[2][0] == 'el':
            return p[1] == p[2]
        if p[0] == 'isa' and self.norm.t(p[2]) == '0':
            return False
        return World.decide(self, p)

    def first(self, f):
        return getattr(self, 'firsts', {}).get(f, 'request.' + f)

    def value(self, st, v):
        v = strip_ref(v)
        if v[0] == 'new' and sname(v[1]) == 'Identifier':
            l = literals(v)
            return '<%s>' % (l[-1] if l else '?')
        if ('value', v) in st.heap:
            return '<%s>' % self.norm.t(st.heap[('value', v)])
        it = st.heap.get(('items', v))
        t = self.norm.t(v)
        if it and it[0] == 'pre':
            i = self.norm.t(it[1])
            src = self.norm.t(v[2][0]) if v[0] == 'new' and v[2] else '?'
            return '[%s]+%s' % (self.norm.t(it[2]) if i == '0' else '?', src)
        if it or t == '_':
            return '[%s]' % ', '.join(self.norm.t(x) for x in it or ())
        return t


def literals(t):
    if not isinstance(t, tuple):
        return []
    if t[0] == 's':
        return [t[1]]
    return [x for s in t for x in literals(s)]


def fields(w, o, base='result'):
    """(status, notice, stack) of a result at the end of a way."""
    n = w.norm
    r = {}
    for k, v in o.state.heap.items():
        if k[0] == 'f' and n.t(k[1]) == base and k[2].startswith(RES):
            r[sname(k[2])] = v
    s = r.get('stack')
    if s is None:
        stack = '%s.stack' % base
    elif s[0] == 'stk':
        stack = ' '.join([n.t(x) for x in s[2]] + ([n.t(s[3])] if s[3] else []))
    else:
        stack = n.t(s)
    return (n.t(r['matchStatus']) if 'matchStatus' in r else base + '.matchStatus', r.get('notice'), stack, r)


def judge(chk, fn, w, key, what, want, outs, firsts=None):
    """want: list of (lookups, outcome, stack, status) alternatives by the outcomes of the lookups: a function
    of the truth of 'I1', 'I2' (ok or not) giving (texts of the lookups, 'ok' status stack | 'no')."""
    chk.count('situations')
    some = False
    n = w.norm
    for o in outs:
        if o.kind == 'throw':
            continue
        some = True
        chk.count('ways through lookups')
        got = [e.x for e in o.events if sname(e.name) in w.inner]
        asked = {}
        for i, e in enumerate(o.events):
            pass
        tr = {}
        k = 0
        for e in o.events:
            if sname(e.name) not in w.inner:
                continue
            k += 1
            v = success(o, e, k)
            tr['I%d' % k] = v
        status, notice, stack, r = fields(w, o)

        def bad(msg):
            chk.violation(key, fn.loc(o.node), '%s: %s' % (what, msg))
        res = want(tr)
        if res is None:
            continue
        calls, verdict = res[0], res[1]
        if got != list(calls):
            bad('it looks at %s; it must look at %s' % (', then '.join(got) or 'nothing', ', then '.join(calls) or 'nothing'))
            continue
        if verdict == 'no':
            # not a success: a notice other than the one for unknown names, and no success status
            nt = n.t(notice) if notice is not None else 'result.notice'
            if nt == '0' or nt == 'result.notice' and not w.kinds.get('result.notice'):
                bad('it must be rejected, but no notice is set')
            elif 'UnknownSymbol' in nt or any(n.t(f) == 'isa<UnknownSymbolNotice>(%s)' % nt and v for f, v in o.facts.items()):
                bad('it must be rejected as a match that does not fit, not as an unknown name')
            elif status not in ('result.matchStatus', 'NONE') and not any(status == x and v is False for x, v in tr.items()) and \
                    not any(status == 'out1(%s).matchStatus' % x for x, v in tr.items()):
                bad('it must be rejected, but the match status is %s' % status)
        elif verdict == 'same':
            if status != 'result.matchStatus' or notice is not None or stack != 'result.stack':
                bad('it must leave the result as it is')
        elif verdict == 'inner':
            # the result is what the last lookup gave
            x = 'I%d' % k
            if status != 'out1(%s).matchStatus' % x or notice is not None and n.t(notice) != 'out1(%s).notice' % x or stack != res[2].replace('...', 'out1(%s).stack' % x):
                bad('the result is (%s, %s, [%s]); it must be that of the inner lookup with [%s]' % (status, n.t(notice) if notice else 'no notice', stack, res[2]))
        else:
            if notice is None or n.t(notice) != '0':
                bad('it must succeed, but the notice is %s' % (n.t(notice) if notice else 'left'))
            elif stack != res[2]:
                bad('the found parts are [%s]; they must be [%s]' % (stack, res[2]))
            elif status != res[3]:
                bad('the match status is %s; it must be %s' % (status, res[3]))
    if not some:
        chk.violation(key, fn.loc(), '%s: no way through' % what)


def success(o, e, k):
    """Whether the k-th lookup succeeded on this way, as far as the way has asked."""
    s = sname(e.name)
    lt = lambda t: o.facts.get(('lt', t, CUSTOM))
    r = e.res
    if s.startswith('lookupCallee'):
        a = o.facts.get(('lt', ('f', ('out', r, 1), RES + '::matchStatus'), CUSTOM))
        b = o.facts.get(('f', ('out', r, 1), RES + '::notice'))
        if a is True or b is True:
            return False
        if a is False and b is False:
            return True
        return None
    if s in ('matchCall', 'matchTargetType'):
        v = lt(r)
        return None if v is None else not v
    p, pol = pred(r)
    v = o.facts.get(p)
    return v


def walk(prog, name, values=None, kinds=None, calls=None, heap=None, alias=None, fn=None):
    fn = fn or prog.fn(CT + name)
    n = WNorm(fn)
    n.alias = dict(alias or {})
    w = Lookup(n, values, dict({'self': 'CalleeTracer'}, **(kinds or {})), calls)
    st = State()
    req = el('request')
    for f, v in (heap or {}).items():
        c, f = f.split('.')
        st.heap[('f', el(c), (REQ if c == 'request' else RES) + '::' + f)] = v
        if c == 'request':
            w.firsts = dict(getattr(w, 'firsts', {}), **{f: n.t(v)})
    return fn, w, Walk(prog, w).run(fn, args=[None, el('request'), el('result')], state=st)


def S_(x):
    return ('s', x)


def MODE(m):
    return ('enum', 'Spp::Ast::CalleeLookupMode::_CalleeLookupMode::' + m, str(('DIRECTLY_ACCESSIBLE', 'OBJECT_MEMBER', 'SCOPE_MEMBER').index(m)))


MODES = ('DIRECTLY_ACCESSIBLE', 'OBJECT_MEMBER', 'SCOPE_MEMBER')


def run(chk, prog):
    assigns(chk, prog)
    functions(chk, prog)
    pointers(chk, prog)
    types(chk, prog)
    variables(chk, prog)
    plain(chk, prog)
    builtin(chk, prog)
    routing(chk, prog)
    better(chk, prog)
    search(chk, prog)
    visit(chk, prog)
    matching(chk, prog)
    seek.seeking(chk, prog)
    seek.changing(chk, prog)
    seek.flags(chk, prog)
    chk.floor('situations', 9500)
    chk.floor('ways through lookups', 16500)


def assigns(chk, prog):
    fn = prog.fn(CT + 'isAssignOp')
    lits = {n['v'] for n in fn.nodes if n['k'] == 'StringLiteral'}
    chk.count('situations')
    if lits != set(ASSIGN):
        chk.violation('assign operators', fn.loc(), 'the operators taken for assignments are %s; they must be %s' % (sorted(lits), sorted(ASSIGN)))


def functions(chk, prog):
    for op, mode, this, member, defop in itertools.product(OPS, MODES, (True, False), (True, False), (None, '', '+', 'مخصص')):
        calls = {'findOwner': el('def') if defop is not None else ZERO, 'findOperationModifier': S_(defop) if defop is not None else ZERO,
                 'traceRetType': el('ret')}
        T = 'request.target.getType'
        for user in (True, False) if defop == '' else (None,):
            fn, w, outs = walk(prog, '_lookupCallee_function', {'request.thisType': this, T + '.isMember': member}, {'inner': 'UserType' if user else 'IntegerType'},
                               calls, {'request.op': S_(op), 'request.mode': MODE(mode)}, {'tryGetDeepReferenceContentType(self.helper,ret)': 'inner'})
            args = '[request.thisType]+request.argTypes' if this else 'request.argTypes'

            def want(tr):
                if op == '[]' or this and not member:
                    return (), no
                if defop == '':
                    first = 'matchCall(%s, [%s])' % (T, 'request.thisType' if this else '')
                    if not tr.get('I1'):
                        return (first,), no
                    if op == '':
                        return (first,), ok, 'request.target call this', 'EXACT'
                    if op in ASSIGN:
                        return (first,), no
                    inner = 'lookupCallee_routing(target=inner%s%s)' % ('' if mode == 'OBJECT_MEMBER' else ', mode=OBJECT_MEMBER',
                                                                         ', thisType=getReferenceTypeFor(self.helper,inner,IMPLICIT)' if user else '')
                    return (first, inner), 'inner', ('request.target call this ...' if user else 'request.target call ...') if tr.get('I2') else '...'
                if op == '' and mode != 'OBJECT_MEMBER':
                    return (), ok, 'request.target', 'EXACT'
                if op != (defop or '()'):
                    return (), no
                c = 'matchCall(%s, %s)' % (T, args)
                return ((c,), ok, 'request.target', 'I1') if tr.get('I1') else ((c,), no)
            judge(chk, fn, w, 'function:' + op, 'a %s%s%s with operator "%s" (%s)' % (
                'member ' if member else '', 'function' if defop is None else 'operation "%s"' % defop, ' of an object' if this else '', op, mode), want, outs)


def ref_to(t):
    return 'getReferenceTypeFor(self.helper,%s,IMPLICIT)' % t


def pointers(chk, prog):
    F = 'tryGetPointerContentType(self.helper,request.target)'
    for op, this, member, defop in itertools.product(OPS, (True, False), (True, False), (None, '', '+', '()')):
        for user in (True, False) if defop == '' else (None,):
            fn, w, outs = walk(prog, '_lookupCallee_funcPtr', {'request.thisType': this, 'F.isMember': member}, {'inner': 'UserType' if user else 'IntegerType'},
                               {'traceRetType': el('ret')}, {'request.op': S_(op), 'request.mode': MODE('OBJECT_MEMBER'), 'request.varTargetOp': S_(defop) if defop is not None else ZERO},
                               {'tryGetDeepReferenceContentType(self.helper,ret)': 'inner', F: 'F'})
            use = this and member

            def want(tr):
                if op == '[]':
                    return (), no
                if defop == '':
                    first = 'matchCall(F, [%s])' % ('request.thisType' if use else '')
                    if not tr.get('I1'):
                        return (first,), no
                    if op == '':
                        return (first,), ok, 'call this', 'EXACT'
                    if op in ASSIGN:
                        return (first,), no
                    inner = 'lookupCallee_routing(target=inner, varTargetOp=0%s)' % (', thisType=' + ref_to('inner') if user else '')
                    return (first, inner), 'inner', ('call this ...' if user else 'call ...') if tr.get('I2') else '...'
                if op == '' and defop is None:
                    return (), ok, '', 'EXACT'
                if op != ('()' if defop is None else defop):
                    return (), no
                c = 'matchCall(F, %s)' % ('[request.thisType]+request.argTypes' if use else 'request.argTypes')
                return ((c,), ok, '', 'I1') if tr.get('I1') else ((c,), no)
            judge(chk, fn, w, 'pointer:' + op, 'a pointer to a %sfunction%s%s with operator "%s"' % (
                'member ' if member else '', '' if defop is None else ' used as operation "%s"' % defop, ' of an object' if this else '', op), want, outs)


def types(chk, prog):
    for op, count, user in itertools.product(OPS, (0, 1, 2), (True, False)):
        U = '(getInitializationMethod(request.target,self.helper)&USER)'
        C_ = 'request.argTypes.getElementCount'
        fn, w, outs = walk(prog, '_lookupCallee_type', {U: user, C_: count, '(1==%s)' % C_: count == 1}, {}, {}, {'request.op': S_(op), 'request.mode': MODE('DIRECTLY_ACCESSIBLE')})

        def want(tr):
            if op == '':
                return (), ok, 'request.target', 'EXACT'
            if op != '()':
                return (), no
            c = ['lookupCallee(mode=SCOPE_MEMBER, ref=<"()">, thisType=0)']
            if tr.get('I1'):
                return c, 'inner', '...'
            c.append('lookupCallee(mode=OBJECT_MEMBER, skipInjections=1, ref=<"~init">, op="~init", thisType=%s)' % ref_to('request.target'))
            if tr.get('I2'):
                return c, 'inner', 'request.target ...'
            if count == 0 and not user:
                return c, ok, 'request.target', 'EXACT'
            if count == 1 and not user:
                c.append('matchTargetType(request.argTypes[0], request.target, [])')
                if tr.get('I3'):
                    return c, ok, 'request.target', 'EXACT'
            return c, no
        judge(chk, fn, w, 'type:' + op, 'a type %s own constructors with operator "%s" and %d arguments' % ('with' if user else 'without', op, count), want, outs)


def variables(chk, prog):
    V = 'traceType(self.helper,request.target,0)'
    for mode, domain, ref, mem, user, defs, bind, op in itertools.product(MODES, ('FUNCTION', 'OBJECT', 'GLOBAL'), (True, False), (True, False), (True, False), (True, False), (True, False), ('', '[]', '()')):
        if op != '' and (ref, mem, user) != (True, True, True):
            continue
        D = 'tryGetDeepReferenceContentType(self.helper,%s)' % V
        T = D if ref else V
        kinds = {V: ('Type', 'ReferenceType') if ref else ('Type', 'UserType') if user else ('Type', 'IntegerType'), D: ('Type', 'UserType') if user else ('Type', 'IntegerType'),
                 'request.target.getOwner': 'Definition' if defs else 'ArgTypes'}
        values = {'isInMemVariable(self.helper,request.target)': mem, 'isNoBindDef(self.helper,request.target.getOwner)': not bind}
        for x in ('FUNCTION', 'OBJECT', 'GLOBAL'):
            values['(%s==getVariableDomain(self.helper,request.target))' % x] = x == domain
        fn, w, outs = walk(prog, '_lookupCallee_var', values, kinds, {'findOperationModifier': el('mod')}, {'request.op': S_(op), 'request.mode': MODE(mode)})
        b = bind or not defs

        def want(tr):
            if op == '[]':
                return (), no
            if (mode == 'OBJECT_MEMBER') != (domain == 'OBJECT'):
                return (), no
            d = ['target=' + T] + (['mode=OBJECT_MEMBER'] if mode != 'OBJECT_MEMBER' else []) + ['varTargetOp=' + ('mod' if defs else '0')]
            if b and user and (ref or mem):
                d.append('thisType=' + ref_to(T))
            c = ['lookupCallee_routing(%s)' % ', '.join(d)]
            return c, 'inner', ('request.target this ...' if b and user else 'request.target ...') if tr.get('I1') else '...'
        judge(chk, fn, w, 'variable', 'a variable (%s%s%s%s%s) with operator "%s" in mode %s' % (
            domain, ', reference' if ref else '', ', in memory' if mem else '', ', of user type' if user else '', '' if b else ', not bound', op, mode), want, outs)
    # variables without a type
    fn, w, outs = walk(prog, '_lookupCallee_var', {}, {V: None}, {}, {'request.op': S_('')})
    judge(chk, fn, w, 'variable:type', 'a variable of which the type is not known', lambda tr: ((), no), outs)


def plain(chk, prog):
    for op, mode in itertools.product(OPS, MODES):
        h = {'request.op': S_(op), 'request.mode': MODE(mode)}
        good = ((), ok, 'request.target', 'EXACT')
        fn, w, outs = walk(prog, '_lookupCallee_scope', {}, {}, {}, h)
        judge(chk, fn, w, 'scope', 'a module with operator "%s" in mode %s' % (op, mode), lambda tr: good if op == '' and mode != 'OBJECT_MEMBER' else ((), no), outs)
        fn, w, outs = walk(prog, '_lookupCallee_argPack', {}, {}, {}, h)
        judge(chk, fn, w, 'arguments', 'an argument pack with operator "%s" in mode %s' % (op, mode), lambda tr: good if op == '' else ((), no), outs)
        fn, w, outs = walk(prog, '_lookupCallee_literal', {}, {}, {}, h)
        judge(chk, fn, w, 'literal', 'a literal with operator "%s" in mode %s' % (op, mode),
              lambda tr: ((), 'same') if op == '()' else good if op == '' else ((), ok, 'request.target this getDummyBuiltInOpFunction()', 'EXACT'), outs)
        fn, w, outs = walk(prog, '_lookupCallee_customOp', {}, {}, {}, h)

        def want(tr):
            if op == '[]':
                return (), no
            c = ['lookupCallee(ref=<%s>)' % op]
            return (c, 'inner', '...') if tr.get('I1') else (c, no)
        judge(chk, fn, w, 'custom', 'operator "%s" of a user type' % op, want, outs)
        for param in (True, False):
            fn, w, outs = walk(prog, '_lookupCallee_template', {'request.templateParam': param}, {}, {}, h)

            def want(tr):
                if op == '[]':
                    return good
                c = ['matchInstance(request.target, %s, 0)' % ('request.templateParam' if param else '[]')]
                if not tr.get('I1'):
                    return c, no
                return c + ['lookupCallee_routing(target=out2(I1), templateParam=0)'], 'inner', '...'
            judge(chk, fn, w, 'template', 'a template %s arguments with operator "%s"' % ('with' if param else 'without', op), want, outs)


def builtin(chk, prog):
    C_ = 'request.argTypes.getElementCount'
    for op, before, kind, args, method, vop in itertools.product(
            OPS, (None, 'InvalidOperationNotice', 'UnknownSymbolNotice', 'ArgsMismatchNotice'), ('ArrayType', 'IntegerType', 'UserType'), (None, 0, 1, 2), ('NONE', 'other'), (False, True)):
        if (op != '()' and kind != 'IntegerType') or (op != '=' and method == 'other') or (op not in ('()', '=') and args not in (1, 2)) or (vop and op in ('()', '=', '[]')):
            continue
        if before == 'UnknownSymbolNotice':
            continue    # the lookup of the operator in user types has replaced it by then
        values = {C_: args or 0, '(1==%s)' % C_: args == 1, 'request.argTypes': args is not None, 'request.varTargetOp': vop,
                  '(NONE==getInitializationMethod(request.target,self.helper))': method == 'NONE'}
        fn, w, outs = walk(prog, '_lookupCallee_builtInOp', values, {'request.target': ('Type', kind), 'result.notice': before}, {}, {'request.op': S_(op)})

        def want(tr):
            if op == '[]':
                return (), no
            if op == '()':
                if kind != 'ArrayType' or args != 1:
                    return (), no
                c = ('isCastableTo(request.argTypes[0], self.helper.getArchIntType, 1)',)
                return (c, ok, '', 'EXACT') if tr.get('I1') else (c, no)
            if op == '=':
                if args != 1 or method != 'NONE':
                    return (), no
                c = ('matchTargetType(request.argTypes[0], request.target, [])',)
                return (c, ok, 'this getDummyBuiltInOpFunction()', 'I1') if tr.get('I1') else (c, no)
            if vop:
                return (), no
            return (), ok, '' if op == '' else 'this getDummyBuiltInOpFunction()', 'EXACT'
        judge(chk, fn, w, 'builtin:' + op, 'operator "%s" of a built in %s with %s arguments (%s)' % (op, kind, args, before), want, outs)


def routing(chk, prog):
    P = 'tryGetPointerContentType(self.helper,request.target)'
    V = 'isVariable(self.helper,request.target)'
    for kind, mode, param, before in itertools.product(
            ('Function', 'UserType', 'IntegerType', 'PointerType', 'Template', 'Module', 'Block', 'ArgPack', 'variable', 'StringLiteral', 'IntegerLiteral',
             'FloatLiteral', 'Bridge', None), MODES, (True, False), (None, 'ArgsMismatchNotice')):
        k = {'UserType': ('Type', 'DataType', 'UserType'), 'IntegerType': ('Type', 'DataType', 'IntegerType'), 'PointerType': ('Type', 'DataType', 'PointerType'),
             'Module': ('Scope', 'Module'), 'Block': ('Scope', 'Block'), 'variable': 'Identifier'}.get(kind, kind)
        fn, w, outs = walk(prog, '_lookupCallee_routing', {V: kind == 'variable', 'request.templateParam': param, '(result.matchStatus<CUSTOM_CASTER)': True}, {'result.notice': before, 'request.target': k, P: 'FunctionType' if kind == 'PointerType' else None},
                           {}, {'request.mode': MODE(mode)})

        def want(tr):
            if param and kind != 'Template':
                return (), no
            if k and k[0] == 'Type' and mode == 'OBJECT_MEMBER':
                first = {'UserType': 'lookupCallee_customOp()', 'PointerType': 'lookupCallee_funcPtr()'}.get(kind)
                c = [first] if first else []
                if first and tr.get('I1'):
                    return c, 'inner', '...'
                return c + ['lookupCallee_builtInOp()'], 'inner', '...'
            to = 'type' if k and k[0] == 'Type' else 'scope' if k and k[0] == 'Scope' else 'literal' if kind and kind.endswith('Literal') else {
                'Function': 'function', 'Template': 'template', 'ArgPack': 'argPack', 'variable': 'var'}.get(kind)
            if to is None:
                return (), no
            return ['lookupCallee_%s()' % to], 'inner', '...'
        judge(chk, fn, w, 'route', 'a %s in mode %s%s' % (kind, mode, ' with template arguments' if param else ''), want, outs)


def better(chk, prog):
    """Which of two results is kept."""
    fn = prog.fn(CT + 'selectBetterResult')
    N, R = 'newResult', 'result'
    stacks = [(('a',), ('a',)), (('a',), ('b',)), (('a', 'b'), ('a', 'b')), (('a', 'b'), ('a', 'c')), (('a', 'b'), ('a', 'b', 'c')), (('a', 'b'), ('c', 'b'))]
    for good, oldgood, named, rank, level, (a, b) in itertools.product((True, False), (True, False), (True, False), '<=>', '<=>', stacks):
        if good and not oldgood and rank != '>' or not good and (rank, level, a, b) != ('<', '=', ('a',), ('b',)):
            continue
        n = WNorm(fn)
        nm, rm = N + '.matchStatus', R + '.matchStatus'
        values = {'(%s<CUSTOM_CASTER)' % nm: not good, '(%s<CUSTOM_CASTER)' % rm: not oldgood, '(%s<%s)' % (rm, nm): rank == '>', '(%s<%s)' % (nm, rm): rank == '<',
                  '(%s==%s)' % (nm, rm): rank == '=', '(%s.injectionLevel<%s.injectionLevel)' % (N, R): level == '<', '(%s.injectionLevel<%s.injectionLevel)' % (R, N): level == '>',
                  '(%s.injectionLevel==%s.injectionLevel)' % (N, R): level == '=', 'isNameMatched': named}
        w = Better(n, a, b, values)
        outs = [o for o in Walk(prog, w).run(fn, args=[el(N), el(R)], state=State()) if o.kind != 'throw']
        what = 'a new result that %s (status %s, injections %s, parts %s) against one that %s (parts %s)' % (
            'fits' if good else 'does not fit', rank, level, ' '.join(a), 'fits' if oldgood else 'matches the name only' if named else 'is empty', ' '.join(b))
        if good and oldgood and not named or not good and oldgood and not named:
            continue
        want = 'kept'
        if good and (rank == '>' or rank == '=' and level == '<'):
            want = 'new'
        elif good and rank == '=' and level == '=' and a != b:
            want = 'both'
        elif not good and not named:
            want = 'new'
        chk.count('situations')
        if not outs:
            chk.violation('better', fn.loc(), '%s: no way through' % what)
        for o in outs:
            chk.count('ways through lookups')
            status, notice, stack, r = fields(w, o)
            got = 'new' if status == nm and n.t(r.get('notice', ZERO)) == N + '.notice' and stack == N + '.stack' and n.t(r.get('injectionLevel', ZERO)) == N + '.injectionLevel' else \
                'kept' if not r else 'both' if set(r) == {'notice'} and 'MultipleCalleeMatchNotice' in n.t(notice) else 'something else'
            if got != want:
                chk.violation('better', fn.loc(o.node), '%s: the outcome is %s; it must be %s' % (what, NAMES[got], NAMES[want]))


NAMES = {'new': 'the new result', 'kept': 'the earlier result', 'both': 'the notice for several matches', 'something else': 'something else'}


class Better(Lookup):
    loop_bound = 5
    access = ()

    def __init__(self, norm, a, b, values):
        Lookup.__init__(self, norm, values)
        self.stacks = {'newResult.stack': a, 'result.stack': b}

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        if s == 'isNameMatched':
            return TRUE if self.values['isNameMatched'] else FALSE
        if s == 'isSuccessful' and obj is not None:
            return FALSE if self.values['(%s.matchStatus<CUSTOM_CASTER)' % self.norm.t(strip_ref(obj))] else TRUE
        if obj is not None:
            l = self.stacks.get(self.norm.t(strip_ref(obj)))
            if s == 'stack' and len(args) == 1:
                l = self.stacks.get(self.norm.t(strip_ref(obj)) + '.stack')
                s = 'get'
            if l is not None:
                if s in ('getLength', 'getCount', 'size'):
                    return C(str(len(l)))
                if s in ('operator()', 'operator[]', 'at', 'get') and len(args) == 1 and args[0][0] == 'c':
                    i = int(args[0][1])
                    return ('el', 'stack:' + l[i]) if 0 <= i < len(l) else ('el', 'outside')
        return Lookup.call_value(self, w, st, name, node, obj, args)



class Main(Lookup):
    """The search through the scopes: what is looked at in which order."""
    inner = ('foreach', 'lookupCallee', 'selectBetterResult', 'tryGet', 'lookupCallee_routing')
    access = ()
    loop_bound = 5

    def __init__(self, norm, owners, injections, bridges, values, kinds):
        Lookup.__init__(self, norm, values, kinds)
        self.owners = owners
        self.items = {'getInjection': injections, 'getBridge': bridges}
        self.firsts = {}

    def unchanged(self, name, ai):
        return True

    def step(self, st):
        return sum(1 for e in st.events if sname(e.name) in ('foreach', 'selectBetterResult', 'lookupCallee_routing') and e.x)

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        o = self.norm.t(strip_ref(obj)) if obj is not None else None
        if s == 'isNameMatched':
            return ('val', 'named%d' % self.step(st))
        if s == 'isSuccessful':
            return ('val', ('good%d' if o == 'result' else 'found%d') % sum(1 for e in st.events if sname(e.name) in self.inner))
        if s == 'getOwner' and o in self.owners:
            v = self.owners[o]
            return el(v) if v else ZERO
        for f, m in self.items.items():
            if s in (f + 'Count', f) and o is not None:
                l = m.get(o, ())
                if s == f and args and args[0][0] == 'c':
                    i = int(args[0][1])
                    return el(l[i]) if i < len(l) else C('?outside')
                if s == f + 'Count':
                    return C(str(len(l)))
        if s == 'getVariableDomain':
            return ('enum', 'domain', {'FUNCTION': '0', 'OBJECT': '1', 'GLOBAL': '2'}[self.values['domain:' + self.norm.t(strip_ref(args[-1]))]])
        return Lookup.call_value(self, w, st, name, node, obj, args)

    def on_call(self, w, st, name, node, obj, args, res):
        s = sname(name)
        n = self.norm
        if s not in self.inner:
            return
        e = st.events[-1]
        if s == 'foreach':
            e.x = 'search %s in %s%s' % (n.t(args[0]), n.t(strip_ref(args[1])), '' if len(args) < 4 or n.t(args[3]) == '0' else ' (%s)' % n.t(args[3]))
            self.changed(w, st, e)
        elif s == 'tryGet':
            e.x = 'find %s from %s (%s)' % (n.t(args[0]), n.t(strip_ref(args[1])), '+'.join(sorted(n.t(args[2]).replace('(', '').replace(')', '').split('|'))) if len(args) > 2 else '')
        elif s == 'selectBetterResult':
            k = ('f', strip_ref(args[0]), RES + '::stack')
            v = w.lookup(st, k)
            l = w.lookup(st, ('f', strip_ref(args[0]), RES + '::injectionLevel'))
            e.x = 'choose [%s] %s' % (' '.join([n.t(x) for x in v[2]] if v[0] == 'stk' else ()), n.t(l))
            self.changed(w, st, e)
        else:
            Lookup.on_call(self, w, st, name, node, obj, args, res)
            if s == 'lookupCallee_routing':
                self.changed(w, st, e)

    def changed(self, w, st, e):
        k = self.step(st)
        st.heap[('f', el('result'), RES + '::matchStatus')] = ('val', 'status%d' % k)
        st.heap[('f', el('result'), RES + '::notice')] = ('val', 'notice%d' % k)


def alternatives(reference, facts):
    """Everything the reference allows: what the way did not ask is tried both ways."""
    todo = [{}]
    out = []
    while todo:
        fixed = todo.pop()
        asked = []

        def ask(k):
            v = facts(k)
            if v is None:
                v = fixed.get(k)
            if v is None:
                asked.append(k)
                raise Open
            return v
        try:
            out.append(reference(ask))
        except Open:
            for v in (True, False):
                todo.append(dict(fixed, **{asked[0]: v}))
    return out


class Open(Exception):
    pass


BLOCK, MODULE, FUNCTION, TYPE = ('Scope', 'Block'), ('Scope', 'Module'), 'Function', ('Type', 'DataType', 'UserType')
PLAIN = {'target': True, 'var': True, 'typed': True, 'nobind': False, 'domain': 'GLOBAL', 'def': True}


def search(chk, prog):
    fn = prog.fn(CT + '_lookupCallee')
    D, O, S = MODES
    sits = []
    for mode in MODES:
        # the scopes around
        for chain in ((BLOCK, FUNCTION, MODULE), (MODULE, MODULE), (BLOCK, TYPE, MODULE), (TYPE, MODULE), (TYPE, BLOCK, TYPE, MODULE), (FUNCTION, BLOCK, FUNCTION), (MODULE,)):
            sits.append((mode, chain, {}, {}, False, False))
        # injections
        for domain in ('FUNCTION', 'OBJECT', 'GLOBAL'):
            for this in (True, False):
                for change in ({}, {'nobind': True}, {'typed': False}, {'target': False}, {'var': False}, {'def': False}):
                    sits.append((mode, (BLOCK,), {'T0': [dict(PLAIN, domain=domain, **change)]}, {}, False, this))
                sits.append((mode, (BLOCK, FUNCTION, BLOCK), {'T2': [dict(PLAIN, domain=domain)]}, {}, False, this))
                sits.append((mode, (BLOCK, BLOCK), {'T1': [dict(PLAIN, domain=domain)]}, {}, False, this))
                sits.append((mode, (TYPE, MODULE), {'T0.getBody': [dict(PLAIN, domain=domain)]}, {}, False, this))
        sits.append((mode, (BLOCK, BLOCK), {'T0': [PLAIN, PLAIN], 'T1': [PLAIN]}, {}, False, False))
        sits.append((mode, (BLOCK, BLOCK), {'T0': [PLAIN, PLAIN], 'T1': [PLAIN]}, {}, True, False))
        # bridges
        for chain, where in (((BLOCK, MODULE), 'T0'), ((BLOCK, MODULE), 'T1'), ((TYPE, MODULE), 'T0.getBody'), ((BLOCK, FUNCTION, MODULE), 'T2')):
            sits.append((mode, chain, {}, {where: [False]}, False, False))
        sits.append((mode, (MODULE, MODULE), {}, {'T0': [True, False], 'T1': [False]}, False, False))
        sits.append((mode, (BLOCK,), {'T0': [PLAIN]}, {'T0': [False]}, False, False))
    sits.append((D, (), {}, {}, False, False))
    for sit in sits:
        one(chk, fn, prog, *sit)


def one(chk, fn, prog, mode, chain, inj, bridges, skip, this):
    chk.count('situations')
    n = WNorm(fn)
    names = ['T%d' % i for i in range(len(chain))]
    kinds = dict(zip(names, chain))
    kinds['self'] = 'CalleeTracer'
    owners = dict(zip(names, names[1:] + [None]))
    values = {'request.ref': bool(chain), 'request.skipInjections': skip, 'request.thisType': this, 'request.templateParam': False}
    for w_ in [x for x in list(inj) + list(bridges) if '.' in x]:
        kinds[w_] = BLOCK
    for x in names:
        if chain[names.index(x)] == TYPE:
            kinds.setdefault(x + '.getBody', BLOCK)
    J, B, props = {}, {}, {}
    for where, l in inj.items():
        for p in l:
            j = 'J%d' % len(props)
            J.setdefault(where, []).append(j)
            props[j] = p
            kinds[j] = 'Definition' if p['def'] else 'Other'
            values[j + '.getTarget'] = p['target']
            for d in (j + '.getTarget', j):
                values['isVariable(self.helper,%s)' % d] = p['var']
                values['domain:' + d] = p['domain']
                values['isNoBindDef(self.helper,%s)' % d] = p['nobind']
            values['traceType(self.helper,%s.getTarget,0)' % j] = p['typed']
    same = {}
    for where, l in bridges.items():
        for s in l:
            b = 'B%d' % len(same)
            B.setdefault(where, []).append(b)
            same[b] = s
            values['(%s.getTarget==request.ref)' % b] = s
    w = Main(n, owners, J, B, values, kinds)
    st = State()
    if chain:
        n.alias = {}
        st.heap[('f', el('request'), REQ + '::target')] = el('T0')
        w.firsts['target'] = 'T0'
    st.heap[('f', el('request'), REQ + '::mode')] = MODE(mode)
    w.firsts['mode'] = mode
    outs = [o for o in Walk(prog, w).run(fn, args=[None, el('request'), el('result')], state=st) if o.kind != 'throw']
    direct = mode == 'DIRECTLY_ACCESSIBLE'

    def reference(ask):
        ev = []
        k = 0
        t = 'T0' if chain else None
        outer = False
        if not chain:
            ev.append('lookupCallee_routing()')
            k += 1
        while t:
            ev.append('search request.ref in ' + t)
            k += 1
            body = t + '.getBody' if kinds[t] == TYPE and t == 'T0' else t
            if not skip and not ask('exact%d' % k) and 'Block' in kinds[body]:
                for j in J.get(body, ()):
                    p = props[j]
                    if not p['def'] or not p['target'] or not p['var'] or not p['typed']:
                        continue
                    if p['domain'] == 'FUNCTION' and (not direct or outer):
                        continue
                    if (p['domain'] == 'OBJECT') != this:
                        continue
                    ty = 'traceType(self.helper,%s.getTarget,0)' % j
                    ev.append('lookupCallee(target=tryGetDeepReferenceContentType(self.helper,%s)%s%s) into _' % (
                        ty, '' if mode == 'OBJECT_MEMBER' else ', mode=OBJECT_MEMBER', '' if p['nobind'] else ', thisType=' + ref_to(ty)))
                    if ask('found%d' % len(ev)):
                        ev.append('choose [%s] 1' % (j + '.getTarget' if p['nobind'] else j + '.getTarget this'))
                    else:
                        ev.append('choose [] 0')
                    k += 1
                    if ask('exact%d' % k):
                        break
            if direct and not ask('named%d' % k) and 'Scope' in kinds[body]:
                for b in B.get(body, ()):
                    if same[b]:
                        continue
                    ev.append('find %s.getTarget from %s (SKIP_USES+SKIP_USES_FOR_ALIASES)' % (b, body))
                    i = len(ev)
                    if not ask('I%d' % i):
                        continue
                    ev.append('search request.ref in I%d' % i)
                    k += 1
                    if not ask('move%d' % len(ev)):
                        break
            if not direct or ask('named%d' % k):
                break
            if kinds[t] == FUNCTION:
                outer = True
            t = owners[t]
            if t and kinds[t] == TYPE:
                t = owners[t]
        if ask('good%d' % len(ev)):
            return ev, 'left'
        return ev, 'left' if ask('notice%d' % k) else 'UnknownSymbolNotice' if chain else 'InvalidOperationNotice'

    what = 'searching through %s in mode %s%s%s' % (' in '.join(c if isinstance(c, str) else c[-1] for c in chain) or 'nothing', mode,
                                                      ''.join(', with an injection (%s) in %s' % (', '.join('%s %s' % x for x in p.items()), k) for k, l in inj.items() for p in l),
                                                      ''.join(', with a bridge in %s' % k for k in bridges))
    if not outs:
        chk.violation('search', fn.loc(), '%s: no way through' % what)
    for o in outs:
        chk.count('ways through lookups')
        f = {n.t(k): v for k, v in o.facts.items()}
        if any(f.get('(status%d<EXACT)' % i) is not None and f.get('(status%d<EXACT)' % i) == f.get('(EXACT==status%d)' % i) for i in range(12)):
            continue

        def facts(key):
            i = ''.join(c for c in key if c.isdigit())
            if key.startswith('exact'):
                v = f.get('(status%s<EXACT)' % i)
                return f.get('(EXACT==status%s)' % i) if v is None else not v
            if key.startswith('move'):
                return next((v for k, v in f.items() if k.startswith('isMove') and 'I%s)' % i in k), None)
            return f.get(key)
        got = [e.x for e in o.events]
        status, notice, stack, r = fields(w, o)
        nt = n.t(notice) if notice is not None else 'left'
        nt = next((x for x in ('UnknownSymbolNotice', 'InvalidOperationNotice') if x in nt), 'left')
        for want, end in alternatives(reference, facts):
            if got != want:
                i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), len(want))
                chk.violation('search', fn.loc(o.events[i].node if i < len(o.events) else o.node), '%s: step %d is %s; it must be %s' % (
                    what, i + 1, '"%s"' % got[i] if i < len(got) else 'the end', '"%s"' % want[i] if i < len(want) else 'the end'))
                break
            if nt != end:
                chk.violation('search', fn.loc(o.node), '%s: after %s the notice is %s; it must be %s' % (what, want[-1], nt, end))
                break


ACTIONS = ('TARGET_MATCH', 'OWNER_SCOPE', 'USE_SCOPE', 'USE_SCOPES_START', 'USE_SCOPES_END', 'ALIAS_TRACE_START', 'ALIAS_TRACE_END', 'ERROR')
VERBS = {'0': 'STOP', '1': 'MOVE', '2': 'PERFORM', '3': 'PERFORM_AND_MOVE', '5': 'SKIP', '13': 'SKIP_GROUP'}


class Visit(Main):
    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        o = self.norm.t(strip_ref(obj)) if obj is not None else None
        if o == 'result':
            if s == 'isNew':
                return ('val', 'new')
            if s in ('getLength', 'getCount'):
                return ('val', 'length')
        if s in ('getLength', 'getCount') and o == 'result.stack':
            return C(str(len(self.values['stack'])))
        if s == 'stack' and o == 'result' or s in ('operator()', 'get', 'at', 'operator[]') and o == 'result.stack':
            l = self.values['stack']
            i = args[0]
            return el(l[int(i[1])]) if i[0] == 'c' and 0 <= int(i[1]) < len(l) else el('outside')
        if s == 'get' and o == 'obj' and not args:
            return el('content')
        if s == 'findOwner':
            self.sought = node.get('ta', '')
            return el(self.values['owner']) if self.values['owner'] else ZERO
        return Main.call_value(self, w, st, name, node, obj, args)


def visit(chk, prog):
    fn = prog.fn(CT + '_lookupCallee')
    seek = [n for n in fn.nodes if n['k'] == 'LambdaExpr']
    lams = [(n, prog.fns.get(n['lam'])) for n in seek]
    lams = [(n, f) for n, f in lams if f is not None and len(f.params) == 2 and 'TiObject' in f.params[1]['t']]
    if len(lams) != 1:
        raise Broken('the callback of the search in _lookupCallee is not found')
    node, lam = lams[0]
    own = {p['d'] for p in lam.params} | {v['d'] for n in lam.nodes if n['k'] == 'DeclStmt' for v in n['vars']}
    roles = {}
    for n in lam.nodes:
        if n['k'] == 'DeclRefExpr' and n.get('dk') in ('local', 'param') and n['d'] not in own:
            t = n['t'].replace('const', '').strip()
            r = {'bool': 'outer', 'int': 'depth', 'Core::Basic::TiObject *': 'target'}.get(t)
            r = r or ('tracer' if 'CalleeTracer' in t else 'request' if 'CalleeLookupRequest' in t else 'result' if 'CalleeLookupResult' in t else None)
            if r:
                roles.setdefault(r, set()).add(n['d'])
    for r in ('outer', 'depth', 'target', 'request', 'result', 'tracer'):
        if len(roles.get(r, ())) != 1:
            raise Broken('the callback of the search in _lookupCallee: variable for "%s" is not found' % r)
    role = {r: next(iter(s)) for r, s in roles.items()}
    for r in ('outer', 'depth', 'target', 'result'):
        if role[r] + '&' not in node.get('caps', ()):
            chk.violation('visit', fn.loc(node), 'the callback of the search holds a copy of "%s", so it does not see changes to it' % role[r].split('#')[0])
    sits = []
    for action in ACTIONS[1:]:
        for depth in (0, 1, 2):
            sits.append(dict(action=action, depth=depth))
    for mode in MODES:
        for domain in (None, 'FUNCTION', 'OBJECT', 'GLOBAL'):
            for outer in (True, False):
                for owner in ('target', 'other', None):
                    sits.append(dict(action='TARGET_MATCH', mode=mode, domain=domain, outer=outer, owner=owner))
        sits.append(dict(action='TARGET_MATCH', mode=mode, passage=True, owner='target'))
        sits.append(dict(action='TARGET_MATCH', mode=mode, passage=True, owner='other'))
        for top in ('obj', 'other'):
            for n in (1, 2):
                sits.append(dict(action='TARGET_MATCH', mode=mode, stack=['E'] * (n - 1) + [top], owner='target'))
        sits.append(dict(action='TARGET_MATCH', mode=mode, null=True))
    for s in sits:
        single(chk, lam, prog, role, **s)


def single(chk, fn, prog, role, action, depth=0, mode='DIRECTLY_ACCESSIBLE', domain=None, outer=False, owner='target', passage=False, stack=(), null=False):
    chk.count('situations')
    n = WNorm(fn)
    objs = ['E%d' % i for i in range(len(stack))]
    values = {'isVariable(self.helper,obj)': domain is not None, 'isVariable(self.helper,0)': False, 'domain:obj': domain, 'stack': objs, 'owner': owner}
    kinds = {'self': 'CalleeTracer', 'obj': ('Node', 'Passage') if passage else 'Node', 'content': 'Node'}
    w = Visit(n, {}, {}, {}, values, kinds)
    st = State()
    for f, v in (('mode', MODE(mode)),):
        st.heap[('f', el('request'), REQ + '::' + f)] = v
        w.firsts[f] = n.t(v)
    for o, x in zip(objs, stack):
        st.heap[('f', el(o), RES + 'StackEntry::obj')] = el(x)
    for r, v in (('outer', TRUE if outer else FALSE), ('depth', C(str(depth))), ('target', el('target')), ('request', el('request')), ('result', el('result')), ('tracer', ('this',))):
        st.env[(0, role[r])] = v
    act = ('enum', 'Core::Data::Seeker::Action::_Action::' + action, str(ACTIONS.index(action)))
    outs = [o for o in Walk(prog, w).run(fn, args=[act, ZERO if null else el('obj')], state=st) if o.kind != 'throw']
    obj = 'content' if passage else 'obj'

    def reference(ask):
        if action == 'ERROR':
            return [], ask('new') and 'obj', 'MOVE', depth
        if action in ('OWNER_SCOPE', 'USE_SCOPES_START'):
            stop = depth == 0 or ask('named0')
            return [], False, ('SKIP_GROUP' if action == 'OWNER_SCOPE' else 'SKIP') if stop else 'MOVE', depth
        if action == 'ALIAS_TRACE_START':
            return [], False, 'MOVE', depth + 1
        if action == 'ALIAS_TRACE_END':
            return [], False, 'MOVE', depth - 1
        if action != 'TARGET_MATCH':
            return [], False, 'MOVE', depth
        if domain == 'FUNCTION':
            if outer:
                return [], 'AccessingLocalVarInOtherFuncNotice', 'STOP', depth
            if mode != 'DIRECTLY_ACCESSIBLE':
                return [], False, 'MOVE', depth
        if null or stack and stack[-1] == 'obj':
            return [], False, 'MOVE', depth
        if mode == 'OBJECT_MEMBER' and owner != 'target':
            return [], 'InvalidTypeMemberNotice', 'MOVE', depth
        ev = ['lookupCallee_routing(target=%s) into _' % obj, 'choose [] 0']
        many = ask('notice') and ask('many') and ask('exact')
        return ev, False, 'STOP' if many else 'MOVE', depth

    what = 'on %s%s%s%s%s in mode %s%s' % (action, '' if not depth else ' within %d aliases' % depth, ' of a %s variable' % domain if domain else '', ' that is boxed' if passage else '',
                                           ' that is of %s' % owner if owner != 'target' else '', mode, ' outside of the function' if outer else '')
    if not outs:
        chk.violation('visit', fn.loc(), '%s: no way through' % what)
    for o in outs:
        chk.count('ways through lookups')
        f = {n.t(k): v for k, v in o.facts.items()}

        def facts(k):
            for t, v in f.items():
                if k == 'notice' and t.startswith('notice') or k == 'many' and t.startswith('isa<') and 'MultipleCalleeMatchNotice' in t or k == 'exact' and t.startswith('(EXACT==') or \
                        k == 'named0' and t.startswith('named'):
                    return v
                if k == 'exact' and t.endswith('<EXACT)'):
                    return not v
            return f.get(k)
        got = [e.x for e in o.events]
        status, notice, stk, r = fields(w, o)
        nt = n.t(notice) if notice is not None else ''
        nt = False if not nt or nt.startswith('notice') else next((x for x in ('AccessingLocalVarInOtherFuncNotice', 'InvalidTypeMemberNotice') if x in nt), 'obj' if 'obj' in nt else nt)
        ret = n.t(o.ret) if o.ret is not None else '?'
        ret = ret if ret in VERBS.values() else VERBS.get(ret, ret)
        d = o.state.env.get((0, role['depth']))
        d = n.t(d) if d is not None else '?'
        for want in alternatives(reference, facts):
            for a, b, m in ((got, want[0], 'it does %s; it must do %s'), (nt, want[1], 'the notice is %s; it must be %s'), (ret, want[2], 'the search goes on with %s; it must go on with %s'),
                            (d, str(want[3]), 'the number of aliases becomes %s; it must be %s')):
                if a != b:
                    chk.violation('visit', fn.loc(o.node), '%s: %s' % (what, m % tuple((', then '.join(x) if isinstance(x, list) else x) or 'nothing' for x in (a, b))))
    if action == 'TARGET_MATCH' and mode == 'OBJECT_MEMBER' and getattr(w, 'sought', 'Spp::Ast::Type').split('::')[-1] != 'Type':
        chk.violation('visit', fn.loc(), '%s: the owner is sought as %s; it must be the type' % (what, w.sought))


FT = 'Spp::Ast::FunctionType::'


def unwrap(t):
    t = strip_ref(t)
    while t[0] == 'new' and t[1].split('::')[-1] == 'TypeMatchStatus' and t[2] and (len(t[2]) == 1 or t[2][1] == ZERO):
        t = strip_ref(t[2][0])
    return t


class Args(World):
    copies = (FT + 'ArgMatchContext',)
    value_classes = ('Spp::Ast::TypeMatchStatus',)
    loop_bound = 6
    max_paths = 40000

    def inline(self, callee, name, node):
        return callee.n == 'matchNextArg'

    def event(self, name, node, fn):
        return sname(name) in ('matchTargetType', 'isEqual')

    def unchanged(self, name, ai):
        return True

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        if s in ('matchTargetType', 'isEqual'):
            return ('val', ('M%d' if s == 'matchTargetType' else 'E%d') % (1 + len(st.events)))
        if s == 'traceType' and args:
            x = self.norm.t(strip_ref(args[0]))
            return el('type(%s)' % x) if self.values.get('typed:' + x, True) else ZERO
        if obj is not None and s in ('getMin', 'getMax', 'getArgType'):
            x = self.norm.t(strip_ref(obj))
            v = self.values.get((x, s))
            if v is not None:
                return C(str(v)) if s != 'getArgType' else el(v) if v else ZERO
        if obj is not None and s == 'get' and not args and obj[0] == 'c':
            return obj
        return World.call_value(self, w, st, name, node, obj, args)

    def decide(self, p):
        if p[0] in ('lt', 'eq'):
            a, b = unwrap(p[1]), unwrap(p[2])
            if a[0] == b[0] == 'enum':
                return int(a[2]) < int(b[2]) if p[0] == 'lt' else a[2] == b[2]
            if a == b:
                return p[0] == 'eq'
            if p[0] == 'lt' and a[0] == 'enum' and sname(a[1]) == 'EXACT':
                return False    # nothing is better
        return World.decide(self, p)

    def on_call(self, w, st, name, node, obj, args, res):
        n = self.norm
        if sname(name) in ('matchTargetType', 'isEqual'):
            a = [n.t(strip_ref(x)) for x in ((obj,) if sname(name) == 'isEqual' else ()) + args[:1 if sname(name) == 'isEqual' else 2]]
            st.events[-1].x = '%s %s' % ('compare' if sname(name) == 'isEqual' else 'match', ' with '.join(sorted(a) if sname(name) == 'isEqual' else a))


def matching(chk, prog):
    fn = prog.fn(FT + 'matchCall')
    T, U = 'typed', 'untyped'
    P = lambda lo, hi, t=True: (lo, hi, t)
    lists = [(), (T,), (U,), (T, T), (P(0, 0),), (P(0, 0, False),), (P(1, 2),), (P(2, 0),), (P(2, 2, False),), (T, P(0, 0, False)), (T, P(1, 0)), (P(0, 0), T), (P(0, 1), P(0, 0)), (P(1, 1), P(0, 2), T), (P(0, 2), P(1, 0)),
             (P(0, 1), U), (T, P(3, 4))]
    for params in lists:
        for count in (None, 0, 1, 2, 3):
            call(chk, fn, prog, params, count)


def call(chk, fn, prog, params, count):
    chk.count('situations')
    n = WNorm(fn)
    names = ['P%d' % i for i in range(len(params))]
    args = ['A%d' % i for i in range(count or 0)]
    values, kinds = {'helper': True, 'types': count is not None, 'self.argTypes': True}, {}
    for x, p in zip(names, params):
        kinds[x] = 'ArgPack' if isinstance(p, tuple) else 'Identifier'
        if isinstance(p, tuple):
            values[(x, 'getMin')], values[(x, 'getMax')], values[(x, 'getArgType')] = p[0], p[1], 'E' + x if p[2] else ''
        else:
            values['typed:' + x] = p == 'typed'
    w = Args(n, (), values, kinds, {'types': [el(a) for a in args], 'self.argTypes': [el(x) for x in names]})
    outs = [o for o in Walk(prog, w).run(fn, args=[el('types') if count is not None else ZERO, el('helper')], state=State()) if o.kind != 'throw']

    def reference(ask):
        ev, sts = [], []
        index, sub, cur = -1, -1, None
        NO = ev, None
        ty = lambda i: 'type(E%s)' % names[i] if isinstance(params[i], tuple) else 'type(%s)' % names[i]

        def fits(a, t):
            ev.append('match %s with %s' % (a, t))
            return ask('M%d' % len(ev))
        for a in args:
            a = 'type(%s)' % a
            if not params:
                return NO
            done = False
            if index >= 0 and isinstance(params[index], tuple):
                lo, hi, typed = params[index]
                if hi == 0 or sub + 1 < hi:
                    if not typed:
                        done = True
                    else:
                        ev.append('compare ' + ' with '.join(sorted((a, cur))))
                        if ask('E%d' % len(ev)):
                            done = True
                        elif fits(a, cur):
                            sts.append('M%d' % len(ev))
                            done = True
                        elif sub + 1 < lo:
                            return NO
                if done:
                    sub += 1
                    continue
            while True:
                index += 1
                if index >= len(params):
                    return NO
                p = params[index]
                if isinstance(p, tuple) and not p[2]:
                    cur = None
                elif p == 'untyped':
                    return NO
                elif fits(a, ty(index)):
                    sts.append('M%d' % len(ev))
                    cur = ty(index)
                elif isinstance(p, tuple) and p[0] == 0:
                    continue
                else:
                    return NO
                sub = 0
                break
        for i, p in enumerate(params):
            if i > index and (not isinstance(p, tuple) or p[0] > 0) or i == index and isinstance(p, tuple) and sub + 1 < p[0]:
                return NO
        low = 'EXACT'
        for s in sts:
            if ask('%s<%s' % (s, low)):
                low = s
        return ev, low

    what = 'a call with %s of a function of (%s)' % ('no list of arguments' if count is None else '%d arguments' % count, ', '.join(
        '...%s[%d, %d]' % ('any' if not p[2] else 'type', p[0], p[1]) if isinstance(p, tuple) else p for p in params))
    if not outs:
        chk.violation('matching', fn.loc(), '%s: no way through' % what)
    for o in outs:
        f = {n.t((k[0], unwrap(k[1]), unwrap(k[2])) if k[0] in ('lt', 'eq') else k): v for k, v in o.facts.items()}
        # an outcome is known as fitting or not by any comparison with the limits
        fit, clash = {}, False
        for t, v in f.items():
            m = t.strip('()').split('<')
            if len(m) == 2:
                x = (m[0], not v) if m[1] in ('CUSTOM_CASTER', '3') else (m[1], v) if m[0] in ('EXPLICIT_CAST', '2') else None
                if x:
                    clash = clash or fit.get(x[0], x[1]) != x[1]
                    fit[x[0]] = x[1]
                if v and m[0].startswith('M') and fit.get(m[0]) is None and m[1] == 'EXACT':
                    pass
        if clash:
            continue
        chk.count('ways through lookups')

        def facts(k):
            if '<' in k:
                a, b = k.split('<')
                v = f.get('(%s<%s)' % (a, b))
                if v is None and f.get('(%s==%s)' % tuple(sorted((a, b)))):
                    return False
                return v
            return fit.get(k) if k.startswith('M') else f.get(k)
        got = [e.x for e in o.events]
        ret = n.t(unwrap(o.ret)) if o.ret is not None else '?'
        for want, end in alternatives(reference, facts):
            if got != want:
                chk.violation('matching', fn.loc(o.node), '%s: it does %s; it must do %s' % (what, ', then '.join(got) or 'nothing', ', then '.join(want) or 'nothing'))
                break
            if ret != (end or 'NONE') and not (end is None and ret.startswith('M') and fit.get(ret) is False):
                chk.violation('matching', fn.loc(o.node), '%s: after %s the outcome is %s; it must be %s' % (what, ', then '.join(got) or 'nothing', ret, end or 'NONE'))
                break
