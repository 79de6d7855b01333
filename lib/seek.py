"""The walks of the seeker over scopes, aliases and bridges, each compared with
a small reference over every short run of answers of the visitor."""
import itertools
from world import *

CORE = 'Core::Data::Seeker::'
SPP = 'Spp::SeekerExtension::'
VERB = {'STOP': '0', 'MOVE': '1', 'SKIP': '5', 'SKIP_GROUP': '13', 'PERFORM': '2', 'PERFORM_AND_MOVE': '3'}
MOVES = ('MOVE', 'SKIP', 'SKIP_GROUP', 'PERFORM_AND_MOVE')
PERFORMS = ('PERFORM', 'PERFORM_AND_MOVE')
CHANGES = ('setTarget', 'setName', 'add', 'remove', 'setElement', 'removeElement')
FLAGS = {'SKIP_OWNERS': 1, 'SKIP_OWNED': 2, 'SKIP_USES': 4, 'SKIP_USES_FOR_ALIASES': 8}
ACTION = {str(i): a for i, a in enumerate(('TARGET_MATCH', 'OWNER_SCOPE', 'USE_SCOPE', 'USE_SCOPES_START', 'USE_SCOPES_END', 'ALIAS_TRACE_START', 'ALIAS_TRACE_END', 'ERROR'))}


def verb(v):
    return ('enum', CORE + 'Verb::_Verb::' + v, VERB[v])


def action(a):
    return ('enum', CORE + 'Action::_Action::' + a, next(i for i, x in ACTION.items() if x == a))


def number(t, flags):
    """The value of a term of flags, for a value of the parameter."""
    t = strip_as(t)
    k = t[0]
    if k == 'el' and t[1] == 'flags':
        return flags
    if k == 'c':
        return int(t[1])
    if k == 'enum':
        return int(t[2])
    if k in ('bin', 'un', 'and', 'or'):
        a = [number(x, flags) for x in t[1:] if isinstance(x, tuple)]
        if None in a:
            return None
        op = t[1] if k in ('bin', 'un') else k
        if k == 'un':
            return ~a[0] & 15 if op == '~' else None
        return a[0] | a[1] if op == '|' else a[0] & a[1] if op == '&' else None
    return None


class Seek(World):
    loop_bound = 6

    def __init__(self, norm, answers, values=None, kinds=None, owners=None, items=None, flags=0, texts=None, found=None, changing=False):
        World.__init__(self, norm, (), values, kinds)
        self.answers = answers
        self.owners = owners or {}
        self.items = items or {}
        self.flags = flags
        self.texts = texts or {}
        self.found = found or {}
        self.changing = changing
        self.matching = False

    def step(self, name, obj):
        s = sname(name)
        if name.endswith('MethodCalleeInstance::operator()'):
            return True
        return s.startswith('foreach') or name.startswith((CORE + 'set', CORE + 'remove')) or s in ('tryGet', 'matchInstance') or s in CHANGES and self.changing or s == 'operator()' and name.startswith('std::function')

    def event(self, name, node, fn):
        return self.step(name, None)

    def inline(self, callee, name, node):
        return callee.n in ('isMove', 'isPerform')

    def unchanged(self, name, ai):
        return sname(name) != 'matchInstance' and not (self.changing and self.matching)

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        o = self.norm.t(strip_ref(obj)) if obj is not None else None
        if s == 'tryGet':
            x = self.found.get(self.norm.t(strip_ref(args[0])))
            return el(x) if x else ZERO
        if s == 'matchInstance':
            return TRUE if self.values.get('instance') else FALSE
        if self.changing and s == 'create' and not self.step(name, obj):
            return el('new')
        if self.changing and s == 'remove' and o in self.items and args and args[0][0] == 'c' and args[0][1].isdigit():
            l = st.heap.get(('items', o), tuple(self.items[o]))
            st.heap[('items', o)] = tuple(x for i, x in enumerate(l) if i != int(args[0][1]))
            return None
        if self.step(name, obj) and s not in CHANGES:
            self.matching = s == 'operator()' and bool(args) and self.norm.t(args[0]) in (action('TARGET_MATCH')[2], self.norm.t(action('TARGET_MATCH')))
            n = sum(1 for e in st.events if sname(e.name) not in ('tryGet', 'matchInstance') + CHANGES)
            return verb(self.answers[n] if n < len(self.answers) else 'MOVE')
        if s == 'get' and not args and obj is not None and strip_ref(obj)[0] == 'el':
            return obj
        if s in ('useCallee', 'get', 's_cast_get', 'ti_cast_get', 'c_str', 'getBuf') and obj is not None and s == 'useCallee':
            return obj
        if s == 'getOwner' and o in self.owners:
            v = self.owners[o]
            return el(v) if v else ZERO
        if o in self.texts and s in ('getValue', 'getName', 'getType') and isinstance(self.texts[o], str):
            return ('s', self.texts[o])
        if o is not None and (o, s) in self.values:
            v = self.values[(o, s)]
            return el(v) if v else ZERO
        if s in ('getCount', 'getElementCount', 'getElement', 'get') and o in self.items:
            l = st.heap.get(('items', o), self.items[o])
            if 'Count' in s:
                return C(str(len(l)))
            i = args[0] if args else None
            if i is not None and i[0] == 'c':
                return (el(l[int(i[1])]) if l[int(i[1])] else ZERO) if 0 <= int(i[1]) < len(l) else el('outside')
        if s in ('getBridgeCount', 'getBridge') and (str(o) + '.bridges') in self.items:
            l = self.items[o + '.bridges']
            return C(str(len(l))) if s == 'getBridgeCount' else el(l[int(args[0][1])]) if args[0][0] == 'c' and int(args[0][1]) < len(l) else el('outside')
        if s in ('findIndex', 'findElementIndex'):
            return C(self.values['index'])
        return World.call_value(self, w, st, name, node, obj, args)

    def decide(self, p):
        if p[0] == 'eq' and p[1][0] == p[2][0] == 'el':
            return p[1] == p[2]
        if p[0] == 'isa' and self.norm.t(p[2]) == '0':
            return False
        n = number(p, self.flags) if p[0] in ('bin', 'un') else None
        if n is not None:
            return n != 0
        if p[0] == 'el':
            return True
        return World.decide(self, p)

    def on_call(self, w, st, name, node, obj, args, res):
        s = sname(name)
        if not self.step(name, obj):
            return
        n = self.norm
        e = st.events[-1]
        if name.endswith('MethodCalleeInstance::operator()'):
            s = sname(obj[2]) if obj[0] == 'f' else 'call of ' + n.t(obj)
        if s == 'operator()':
            e.x = '%s %s' % (ACTION.get(n.t(args[0]), n.t(args[0])), n.t(strip_ref(args[1])))
        elif s == 'tryGet':
            f = number(args[2], self.flags) if len(args) > 2 else 0
            e.x = 'find %s from %s with %s' % (n.t(strip_ref(args[0])), n.t(strip_ref(args[1])), f)
        elif s in CHANGES and not name.endswith('MethodCalleeInstance::operator()'):
            e.x = '%s of %s to %s' % (s, n.t(strip_ref(obj)), ', '.join(n.t(strip_ref(a)) for a in args))
        elif s == 'matchInstance':
            e.x = 'instance of %s with %s' % (n.t(strip_ref(obj)), n.t(strip_ref(args[0])))
        else:
            a = [self.flagtext(x) if i == len(args) - 1 else self.arg(x) for i, x in enumerate(args)]
            e.x = '%s(%s)' % (s, ', '.join(a))

    def arg(self, x):
        t = self.norm.t(strip_ref(x))
        return '_' if 'lam(' in t or x[0] == 'lam' else t

    def flagtext(self, t):
        v = number(t, self.flags)
        return '?%s' % self.norm.t(t) if v is None else str(v)


def answers(n, performs=False):
    """Answers of the visitor: everything moves on, or one or two answers differ."""
    yield ()
    for i in range(n):
        for v in ('STOP', 'SKIP', 'SKIP_GROUP') + (PERFORMS if performs else ()):
            yield ('MOVE',) * i + (v,)
    if performs:
        for i in range(n):
            for j in range(i + 1, n):
                for v in PERFORMS:
                    yield ('MOVE',) * i + ('PERFORM_AND_MOVE',) + ('MOVE',) * (j - i - 1) + (v,)
    for i in range(n):
        for j in range(i + 1, n):
            yield ('MOVE',) * i + ('SKIP',) + ('MOVE',) * (j - i - 1) + ('STOP',)


def settled(l):
    """The order in which something new is filled does not matter."""
    out, run_ = [], []
    for x in l + [None]:
        if x is not None and ' of new to ' in x:
            run_.append(x)
        else:
            out += sorted(run_)
            run_ = []
            if x is not None:
                out.append(x)
    return out


def compare(chk, prog, q, params, what, reference, n, env=None, only=None, cls=None, **kw):
    fn = prog.fn(q) if isinstance(q, str) else q
    for a in only or answers(n, kw.get('changing')):
        chk.count('situations')
        w = (cls or Seek)(WNorm(fn), a, **kw)
        st = State()
        for k, v in (env or {}).items():
            st.env[(0, k)] = v
        outs = [o for o in Walk(prog, w).run(fn, args=params, state=st) if o.kind != 'throw']
        it = iter(a)
        ev = []

        def ask(text):
            ev.append(text)
            return next(it, 'MOVE')
        want = reference(ask, ev)
        if not outs:
            chk.violation('seek', fn.loc(), '%s: no way through' % what)
        for o in outs:
            chk.count('ways through lookups')
            got = settled([e.x for e in o.events])
            ret = w.norm.t(o.ret) if o.ret is not None else '?'
            ret = next((k for k, v in VERB.items() if ret in (k, v)), ret)
            tail = ' (answers: %s)' % ', '.join(a) if a else ''
            if got != ev:
                i = next((i for i in range(len(ev)) if i >= len(got) or got[i] != ev[i]), len(ev))
                chk.violation('seek', fn.loc(o.events[i].node if i < len(o.events) else o.node), '%s%s: step %d is %s; it must be %s' % (
                    what, tail, i + 1, '"%s"' % got[i] if i < len(got) else 'the end', '"%s"' % ev[i] if i < len(ev) else 'the end'))
            elif (ret in MOVES) != (want in MOVES) or ret not in VERB:
                chk.violation('seek', fn.loc(o.node), '%s%s: it answers %s; it must answer %s' % (what, tail, ret, want))


def seeking(chk, prog):
    E = lambda *a: [None if x is None else el(x) for x in a]
    P4 = E(None, 'ref', 'data', 'cb', 'flags')
    # owners
    for chain in (('N0',), ('N0', 'N1'), ('N0', 'N1', 'N2')):
        owners = dict(zip(chain, chain[1:] + (None,)))
        for flags in (0, 2, 5):
            def ref(ask, ev, chain=chain, flags=flags):
                v = 'MOVE'
                for i, x in enumerate(chain):
                    if i:
                        v = ask('OWNER_SCOPE ' + x)
                        if v == 'SKIP':
                            continue
                        if v != 'MOVE':
                            return v
                    v = ask('foreach_identifierLevel(ref, %s, cb, %d)' % (x, flags if not i else flags | 2))
                    if v == 'STOP':
                        return v
                return v
            compare(chk, prog, CORE + '_foreach_identifier', E(None, 'ref', 'N0', 'cb', 'flags'), 'looking outwards from a node with %d owners' % (len(chain) - 1), ref, 5,
                    kinds={x: 'Node' for x in chain}, owners=owners, texts={'ref': 'name'}, flags=flags)
        compare(chk, prog, CORE + '_foreach_identifier', E(None, 'ref', 'N0', 'cb', 'flags'), '"Root" with %d owners' % (len(chain) - 1), lambda ask, ev, chain=chain: ask('TARGET_MATCH ' + chain[-1]), 1,
                kinds={x: 'Node' for x in chain}, owners=owners, texts={'ref': 'Root'})
    for stack in (('S0',), ('S0', 'S1', 'S2'), ('S0', None, 'S1')):
        def ref(ask, ev, stack=stack):
            v = 'MOVE'
            for i in reversed(range(len(stack))):
                if not stack[i]:
                    continue
                if i != len(stack) - 1:
                    v = ask('OWNER_SCOPE ' + stack[i])
                    if v == 'SKIP':
                        continue
                    if v != 'MOVE':
                        return v
                v = ask('foreach_identifierLevel(ref, %s, cb, 0)' % stack[i])
                if v == 'STOP':
                    return v
            return v
        compare(chk, prog, CORE + '_foreach_identifier', E(None, 'ref', 'data', 'cb', 'flags'), 'looking through a stack of %d' % len(stack), ref, 5,
                kinds={'data': 'DataStack'}, items={'data': list(stack)}, texts={'ref': 'name'})
        compare(chk, prog, CORE + '_foreach_identifier', E(None, 'ref', 'data', 'cb', 'flags'), '"Root" in a stack of %d' % len(stack), lambda ask, ev: ask('TARGET_MATCH S0'), 1,
                kinds={'data': 'DataStack'}, items={'data': list(stack)}, texts={'ref': 'Root'})
    # one level
    compare(chk, prog, CORE + '_foreach_identifierLevel', P4, 'the level of a scope', lambda ask, ev: ask('foreach_identifierAtScope(ref, data, cb, 0)'), 1, kinds={'data': 'Scope'})
    compare(chk, prog, CORE + '_foreach_identifierLevel', P4, 'the level of something else', lambda ask, ev: 'MOVE', 1, kinds={'data': 'Other'})
    P5 = E(None, None, 'ref', 'data', 'cb', 'flags')
    for k, to in (('Function', 'foreach_identifierOnFunc'), ('DataType', 'foreach_identifierOnDataType'), ('Scope', 'foreach_identifierLevel'), ('Other', 'foreach_identifierLevel')):
        compare(chk, prog, SPP + '_foreach_identifierLevel', P5, 'the level of a ' + k, lambda ask, ev, to=to: ask(to + '(ref, data, cb, 0)'), 1, kinds={'data': k})
    for args, index in ((False, '-1'), (True, '-1'), (True, '0'), (True, '1')):
        compare(chk, prog, SPP + '_foreach_identifierOnFunc', P4, 'the arguments of a function (%s, index %s)' % (args, index),
                lambda ask, ev, index=index, args=args: ask('TARGET_MATCH A%s' % index) if args and index != '-1' else 'MOVE', 1,
                kinds={'data': 'Function'}, values={('data', 'getType'): 'ftype', ('ftype', 'getArgTypes'): 'types' if args else None, 'index': index}, items={'types': ['A0', 'A1']})
    for body in (True, False):
        for flags in (0, 1, 2, 15):
            compare(chk, prog, SPP + '_foreach_identifierOnDataType', P4, 'the body of a type (%s, flags %d)' % (body, flags),
                    lambda ask, ev, body=body, flags=flags: ask('foreach_identifierLevel(ref, body, cb, %d)' % flags) if body and not flags & 2 else 'MOVE', 1,
                    values={('data', 'getBody'): 'body' if body else None}, flags=flags)
    # the definitions and bridges of a scope
    for q, bridges in (('_foreach_identifierAtScope', True), ('_foreach_identifierOnScope', False)):
        for defs in ((), ('m',), ('o', 'm'), ('a',), ('a', 'm'), ('m', 'm'), ('x', 'a', 'a'), ('n', 'o', 'm')):
            for br in ((), ('b',), ('b', 'b'), ('s', 'b'), ('l', 'b')) if bridges else ((),):
                scope(chk, prog, q, defs, br, bridges)
    for k in ('m', 'a', None):
        def ref(ask, ev, k=k):
            if not k:
                return 'MOVE'
            if k == 'm':
                return ask('TARGET_MATCH E0')
            v = ask('ALIAS_TRACE_START E0')
            if v == 'SKIP':
                return 'MOVE'
            if v == 'STOP':
                return v
            v = ask('foreach(ref(E0), owner(E0), cb, 5)')
            if v != 'MOVE':
                return v
            return ask('ALIAS_TRACE_END E0')
        compare(chk, prog, CORE + '_foreach_identifierOnMap', P4, 'an element of a map (%s)' % k, ref, 3, kinds={'E0': 'Alias' if k == 'a' else 'Other'}, texts={'ref': 'name'},
                values={'index': '0' if k else '-1', ('E0', 'getReference'): 'ref(E0)', ('E0', 'getOwner'): 'owner(E0)'}, items={'data': ['E0']}, flags=7)
    # links
    for k, to in (('Scope', 'foreach_identifierOnScope'), ('MapContaining', 'foreach_identifierOnMap'), ('Other', None)):
        compare(chk, prog, CORE + '_foreach_linkOperatorRouting', P4, 'a link within a ' + k, lambda ask, ev, to=to: ask(to + '(second, data, cb, 0)') if to else 'MOVE', 1,
                kinds={'data': k, 'second': 'Identifier'}, values={('ref', 'getSecond'): 'second'}, texts={'ref': '.'})
    for k in ('DataType', 'Scope', 'Other'):
        for body in (True, False):
            for flags in (0, 2):
                def ref(ask, ev, k=k, body=body, flags=flags):
                    if k == 'DataType' and (not body or flags):
                        return 'MOVE'
                    return ask('foreach_linkOperatorRouting(ref, %s, cb, %d)' % ('body' if k == 'DataType' else 'data', flags))
                compare(chk, prog, SPP + '_foreach_linkOperatorRouting', P5, 'a link within a %s (body %s, flags %d)' % (k, body, flags), ref, 1, kinds={'data': k, 'second': 'Identifier'},
                        values={('ref', 'getSecond'): 'second', ('data', 'getBody'): 'body' if body else None}, texts={'ref': '.'}, flags=flags)
    compare(chk, prog, CORE + '_foreach_linkOperator', P4, 'the first part of a link', lambda ask, ev: ask('foreach(first, data, _, 0)'), 1, values={('ref', 'getFirst'): 'first'})
    compare(chk, prog, SPP + '_foreach_paramPass', P4, 'the operand of a parameter pass', lambda ask, ev: ask('foreach(operand, data, _, 0)'), 1, values={('ref', 'getOperand'): 'operand'})
    visitor(chk, prog, CORE + '_foreach_linkOperator', 'foreach_linkOperatorRouting(link, obj, cb, 0)', 'link')
    visitor(chk, prog, SPP + '_foreach_paramPass', 'foreach_paramPassRouting(link, obj, cb, 0)', 'link')
    for fn, q in ((CORE, '_foreach'), (SPP, '_foreach')):
        for k in ('Identifier', 'LinkOperator', 'ParamPass', 'ThisTypeRef'):
            own = {'Identifier': 'foreach_identifier(ref, data, cb, 0)', 'LinkOperator': 'foreach_linkOperator(ref, data, cb, 0)'} if fn == CORE else \
                {'ParamPass': 'foreach_paramPass(ref, data, cb, 0)', 'ThisTypeRef': 'foreach_thisTypeRef(data, cb, 0)', 'Identifier': 'foreach(ref, data, cb, 0)', 'LinkOperator': 'foreach(ref, data, cb, 0)'}
            if k in own:
                compare(chk, prog, fn + q, P4 if fn == CORE else P5, 'a reference by ' + k, lambda ask, ev, t=own[k]: ask(t), 1, kinds={'ref': k})
    for ok in (True, False):
        for notice in (True, False):
            compare(chk, prog, SPP + '_foreach_paramPassOnTemplate', E(None, 'param', 'data', 'cb', 'flags'), 'an instance of a template (%s)' % ok,
                    lambda ask, ev, ok=ok, notice=notice: ev.append('instance of data with param') or (ask('TARGET_MATCH out') if ok else ask('ERROR out') if notice else 'MOVE'), 1,
                    values={'instance': ok}, kinds={'out': 'Notice' if notice else 'Other'})
    for chain, kinds in ((('data', 'N1'), ('DataType', 'Scope')), (('data', 'N1', 'N2'), ('Scope', 'Function', 'DataType')), (('data', 'N1'), ('Scope', 'Scope'))):
        kk = {x: ('Node', k) for x, k in zip(chain, kinds)}
        compare(chk, prog, SPP + '_foreach_thisTypeRef', E(None, 'data', 'cb', 'flags'), 'this_type within %s' % ' in '.join(kinds),
                lambda ask, ev, chain=chain, kinds=kinds: ask('TARGET_MATCH ' + chain[kinds.index('DataType')]) if 'DataType' in kinds else 'MOVE', 1,
                kinds=kk, owners=dict(zip(chain, chain[1:] + (None,))))


def scope(chk, prog, q, defs, br, bridges):
    items, kinds, values, texts, found = {'data': []}, {}, {}, {'ref': 'name'}, {}
    for i, d in enumerate(defs):
        x = 'D%d' % i
        items['data'].append(x)
        kinds[x] = 'Other' if d == 'n' else 'Definition'
        texts[x] = 'other' if d == 'o' else 'name'
        values[(x, 'getTarget')] = 'E%d' % i
        kinds['E%d' % i] = 'Alias' if d == 'a' else 'Other'
        values[('E%d' % i, 'getReference')] = 'ref(E%d)' % i
        values[('E%d' % i, 'getOwner')] = 'owner(E%d)' % i
    items['data.bridges'] = []
    for i, b in enumerate(br):
        x = 'B%d' % i
        items['data.bridges'].append(x)
        values[(x, 'getTarget')] = 'ref' if b == 's' else 'to%d' % i
        if b != 'l':
            found['to%d' % i] = 'U%d' % i

    def ref(ask, ev):
        v = 'MOVE'
        for i, d in enumerate(defs):
            if d in 'on':
                continue
            if d == 'a':
                v = ask('ALIAS_TRACE_START E%d' % i)
                if v == 'SKIP':
                    return 'MOVE'
                if v == 'STOP':
                    return v
                v = ask('foreach(ref(E%d), owner(E%d), cb, 5)' % (i, i))
                if v == 'STOP':
                    return v
                v = ask('ALIAS_TRACE_END E%d' % i)
                if v != 'MOVE':
                    return v
            else:
                v = ask('TARGET_MATCH E%d' % i)
                if v == 'STOP':
                    return v
        if br:
            v = ask('USE_SCOPES_START data')
            if v == 'SKIP':
                return v
            for i, b in enumerate(br):
                if b == 's':
                    continue
                ev.append('find to%d from data with 12' % i)
                if b == 'l':
                    continue
                v = ask('USE_SCOPE U%d' % i)
                if v == 'SKIP':
                    continue
                if v != 'MOVE':
                    break
                v = ask('foreach_identifierLevel(ref, U%d, cb, 7)' % i)
                if v == 'STOP':
                    return v
            v = ask('USE_SCOPES_END data')
        return v
    what = 'the %s of a scope with (%s)%s' % ('level' if bridges else 'members', ' '.join({'m': 'match', 'o': 'other name', 'a': 'alias', 'x': 'match', 'n': 'no definition'}[d] for d in defs),
                                              ' and %d bridges' % len(br) if br else '')
    compare(chk, prog, CORE + q, [None] + [el(x) for x in ('ref', 'data', 'cb', 'flags')], what, ref, 6, kinds=kinds, values=values, texts=texts, items=items, found=found, flags=7)


def lambdas(prog, fn):
    return [(n, prog.fns[n['lam']]) for n in fn.nodes if n['k'] == 'LambdaExpr' and n.get('lam') in prog.fns]


def visitor(chk, prog, q, target, first):
    """The visitor given on to the search for the first part."""
    fn = prog.fn(q)
    l = lambdas(prog, fn)
    if len(l) != 1:
        raise Broken('the visitor of %s is not found' % q)
    lam = l[0][1]
    env = {p['d']: el(x) for p, x in zip(fn.params, ('self', first, 'data', 'cb', 'flags'))}
    for a in ACTION.values():
        t = target if a == 'TARGET_MATCH' else a + ' obj'
        compare(chk, prog, lam, [action(a), el('obj')], 'the visitor of %s on %s' % (sname(q), a), lambda ask, ev, t=t: ask(t), 1, env=env)


def changing(chk, prog):
    """Setting and removing what a name denotes."""
    E = lambda *a: [None if x is None else el(x) for x in a]
    P4 = E(None, 'ref', 'data', 'cb', 'flags')
    for fam in ('set', 'remove'):
        what = {'set': 'setting', 'remove': 'removing'}[fam]
        for chain in (('N0',), ('N0', 'N1', 'N2')):
            for flags in (0, 5):
                def ref(ask, ev, chain=chain, flags=flags):
                    v = 'MOVE'
                    for i, x in enumerate(chain):
                        if i:
                            v = ask('OWNER_SCOPE ' + x)
                            if v == 'SKIP':
                                continue
                            if v == 'SKIP_GROUP' or v not in MOVES:
                                return v
                        v = ask('%s_identifierLevel(ref, %s, cb, %d)' % (fam, x, flags if not i else flags | 2))
                        if v not in MOVES:
                            return v
                    return v
                compare(chk, prog, CORE + '_%s_identifier' % fam, E(None, 'ref', 'N0', 'cb', 'flags'), '%s: outwards from a node with %d owners' % (what, len(chain) - 1), ref, 5,
                        kinds={x: 'Node' for x in chain}, owners=dict(zip(chain, chain[1:] + (None,))), texts={'ref': 'name'}, flags=flags)
        for stack in (('S0',), ('S0', None, 'S1'), ('S0', 'S1', 'S2')):
            def ref(ask, ev, stack=stack):
                v = 'MOVE'
                for i in reversed(range(len(stack))):
                    if not stack[i]:
                        continue
                    if i != len(stack) - 1:
                        v = ask('OWNER_SCOPE ' + stack[i])
                        if v == 'SKIP':
                            continue
                        if v == 'SKIP_GROUP' or v not in MOVES:
                            return v
                    v = ask('%s_identifierLevel(ref, %s, cb, 0)' % (fam, stack[i]))
                    if v not in MOVES:
                        return v
                return v
            compare(chk, prog, CORE + '_%s_identifier' % fam, P4, '%s: through a stack of %d' % (what, len(stack)), ref, 5, kinds={'data': 'DataStack'}, items={'data': list(stack)}, texts={'ref': 'name'})
        for k in ('Scope', 'Other'):
            compare(chk, prog, CORE + '_%s_identifierLevel' % fam, P4, '%s: the level of a %s' % (what, k),
                    lambda ask, ev, k=k: ask('%s_identifierOnScope(ref, data, cb, 0)' % fam) if k == 'Scope' else 'MOVE', 1, kinds={'data': k})
        for k, to in (('Scope', 'OnScope'), ('MapContaining', 'OnMap'), ('DynamicMapContaining', 'OnMap'), ('Other', None)):
            if k == ('DynamicMapContaining' if fam == 'set' else 'MapContaining'):
                continue
            compare(chk, prog, CORE + '_%s_linkOperatorRouting' % fam, P4, '%s: a link within a %s' % (what, k),
                    lambda ask, ev, to=to: ask('%s_identifier%s(second, data, cb, 0)' % (fam, to)) if to else 'MOVE', 1,
                    kinds={'data': k, 'second': 'Identifier'}, values={('ref', 'getSecond'): 'second'}, texts={'ref': '.'})
        compare(chk, prog, CORE + '_%s_linkOperator' % fam, P4, '%s: the first part of a link' % what, lambda ask, ev: ask('foreach(first, data, _, 0)'), 1, values={('ref', 'getFirst'): 'first'})
        visitor(chk, prog, CORE + '_%s_linkOperator' % fam, '%s_linkOperatorRouting(link, obj, cb, 0)' % fam, 'link')
        for k in ('Identifier', 'LinkOperator'):
            compare(chk, prog, CORE + '_' + fam, P4, '%s: a reference by %s' % (what, k), lambda ask, ev, k=k: ask('%s_%s(ref, data, cb, 0)' % (fam, k[0].lower() + k[1:])), 1, kinds={'ref': k})
        for defs in ((), ('m',), ('o', 'm'), ('m', 'm'), ('n', 'm', 'o'), ('m', 'o', 'm')):
            onscope(chk, prog, fam, defs, what)
    for k in ('set', 'remove'):
        for there in (True, False):
            def ref(ask, ev, k=k, there=there):
                if k == 'remove' and not there:
                    return 'MOVE'
                v = ask('TARGET_MATCH ' + ('E0' if there else '0'))
                if v in PERFORMS:
                    ev.append('setElement of data to "name", out' if k == 'set' else 'removeElement of data to 0')
                return v
            compare(chk, prog, CORE + '_%s_identifierOnMap' % k, P4, '%s of an element of a map (%s)' % (k, there), ref, 1, texts={'ref': 'name'}, changing=True,
                    values={'index': '0' if there else '-1', ('data', 'getElement'): 'E0' if there else None})


def onscope(chk, prog, fam, defs, what):
    items, kinds, values, texts = {'data': []}, {}, {}, {'ref': 'name'}
    for i, d in enumerate(defs):
        x = 'D%d' % i
        items['data'].append(x)
        kinds[x] = 'Other' if d == 'n' else 'Definition'
        texts[x] = 'other' if d == 'o' else 'name'
        values[(x, 'getTarget')] = 'E%d' % i

    def ref(ask, ev):
        v = 'MOVE'
        gone = 0
        for i, d in enumerate(defs):
            if d != 'm':
                continue
            v = ask('TARGET_MATCH E%d' % i)
            if v in PERFORMS:
                ev.append('setTarget of D%d to out' % i if fam == 'set' else 'remove of data to %d' % (i - gone))
                gone += 1
            if v not in MOVES:
                return v
        if fam == 'set':
            v = ask('TARGET_MATCH 0')
            if v in PERFORMS:
                ev += sorted(('setName of new to "name"', 'setTarget of new to out')) + ['add of data to new']
        return v
    compare(chk, prog, CORE + '_%s_identifierOnScope' % fam, [None] + [el(x) for x in ('ref', 'data', 'cb', 'flags')], '%s in a scope with (%s)' % (
        what, ' '.join({'m': 'match', 'o': 'other name', 'n': 'no definition'}[d] for d in defs)), ref, 4, kinds=kinds, values=values, texts=texts, items=items, changing=True)


def flagged(chk, prog, q, kind, what, child=False):
    """The visitor that applies the flags of a search, compared with a stack of
    what is being followed, in every state it can reach."""
    fns = [f for f in prog.fns.values() if f.q == q and len(lambdas(prog, f)) == 1]
    if len(fns) != 1:
        raise Broken('the visitor of %s is not found' % q)
    fn = fns[0]
    lam = lambdas(prog, fn)[0][1]
    init = {}
    for n in fn.nodes:
        if n['k'] == 'DeclStmt':
            for v in n['vars']:
                x = fn.nodes[v['i']] if v['i'] is not None and v['i'] >= 0 else {'k': None}
                if x['k'] in ('IntegerLiteral', 'CXXBoolLiteralExpr'):
                    init[v['d']] = C('0' if str(x['v']) in ('0', 'false') else '1' if x['v'] in (True, 'true') else str(x['v']))
    pars = {p['d']: el(p['d'].split('#')[0]) for p in fn.params}
    flagp = [p['d'] for p in fn.params if 'Word' in p['t'] or 'unsigned int' in p['t']]
    if len(flagp) != 1:
        raise Broken('the flags of %s are not found' % q)
    pars[flagp[0]] = el('flags')
    acts = list(ACTION.values()) + (['CHILD_SCOPE'] if child else [])
    bits = (1, 2, 4, 8) + ((1 << 16,) if child else ())
    for r in range(len(bits) + 1):
        for fl in itertools.combinations(bits, r):
            flags = sum(fl)
            seen = set()
            todo = [((), tuple(sorted(init.items())), ())]
            while todo:
                stack, state, path = todo.pop()
                if (stack, state) in seen:
                    continue
                seen.add((stack, state))
                for a in acts:
                    if a.endswith('_END') and (not stack or stack[-1] != a[0]):
                        continue
                    chk.count('situations')
                    new, want, calls = stack, 'MOVE', []
                    al, us = stack.count('A'), stack.count('U')
                    if a == 'ALIAS_TRACE_START':
                        new = stack + ('A',)
                    elif a == 'USE_SCOPES_START':
                        if (us or flags & 4) and (not al or flags & 8):
                            want = 'SKIP'
                        else:
                            new = stack + ('U',)
                    elif a.endswith('_END'):
                        new = stack[:-1]
                    elif a == 'OWNER_SCOPE':
                        want = 'SKIP_GROUP' if not al and flags & 1 else 'MOVE'
                    elif a == 'CHILD_SCOPE' and flags & (1 << 16):
                        want = 'SKIP'
                    elif a in ('TARGET_MATCH', 'CHILD_SCOPE') or a == 'ERROR' and kind == 'forward':
                        if kind == 'forward':
                            calls, want = ['%s obj' % a], 'STOP'
                        else:
                            want = 'PERFORM_AND_MOVE' if a == 'TARGET_MATCH' else 'MOVE'
                    w = Seek(WNorm(lam), ('STOP',), flags=flags)
                    st = State()
                    for k, v in list(pars.items()) + list(state):
                        st.env[(0, k)] = v
                    act = ('enum', SPP + 'Action::_Action::CHILD_SCOPE', '100') if a == 'CHILD_SCOPE' else action(a)
                    outs = [o for o in Walk(prog, w).run(lam, args=[act, el('obj')], state=st) if o.kind != 'throw']
                    trail = ', '.join(path + (a,))
                    if not outs:
                        chk.violation('flags', lam.loc(), '%s (flags %d): no way through on %s' % (what, flags, trail))
                    for o in outs:
                        chk.count('ways through lookups')
                        ret = w.norm.t(o.ret) if o.ret is not None else '?'
                        ret = next((k for k, v in VERB.items() if ret in (k, v)), ret)
                        got = [e.x for e in o.events]
                        if ret != want or got != calls:
                            chk.violation('flags', lam.loc(o.node), '%s (flags %d): on %s it answers %s%s; it must answer %s%s' % (
                                what, flags, trail, ret, ' of ' + ', '.join(got) if got else '', want, ' of ' + ', '.join(calls) if calls else ''))
                            continue
                        after = tuple((k, o.state.env.get((0, k), v)) for k, v in state)
                        if a == 'TARGET_MATCH' and kind != 'forward':
                            done = [v for k, v in after if v != dict(state)[k]] or [v for k, v in after if k not in () and v in (C('1'), TRUE)]
                            if not any(v in (C('1'), TRUE) for v in done):
                                chk.violation('flags', lam.loc(o.node), '%s: what was found is not reported' % what)
                            obj = o.state.env.get((0, lam.params[1]['d']))
                            if kind == 'set' and (obj is None or w.norm.t(strip_ref(obj)) != 'val'):
                                chk.violation('flags', lam.loc(o.node), '%s: the new value is not given' % what)
                            after = state
                        if any(v[0] not in ('c', 'enum') for _, v in after):
                            raise Broken('the state of the visitor of %s is not known after %s' % (q, trail))
                        if len(new) <= 3:
                            todo.append((new, after, path + (a,)))


def flags(chk, prog):
    flagged(chk, prog, CORE + 'trySet', 'set', 'setting what is found')
    flagged(chk, prog, CORE + 'tryRemove', 'remove', 'removing what is found')
    flagged(chk, prog, CORE + '_extForeach', 'forward', 'the search with flags')
    flagged(chk, prog, SPP + '_extForeach', 'forward', 'the extended search with flags', child=True)
