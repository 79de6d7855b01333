"""P15: macros, inserted code and copies of trees."""
import itertools
import re
from world import *

TITLE = 'Macros and copies put exactly what was written in place, and change nothing else'
TECHNIQUE = 'path-sensitive dataflow summaries of tree processing, every kind of part compared with the substitution rules'
NOTE = ('Exhaustive over the kinds of parts, arguments and owners and over lists of up to three parts; decided on the syntax tree, '
        'path-sensitively. Trusts the clang front end, the summary engine, and the containers of Core/Basic.')
RULE = ('every part of a tree is visited in order, each kind by its own rule; a part that refers to an argument is replaced by what the argument '
        'gives, every other part by an equal copy in the same place; source, macro and arguments are not written to; the result goes where the '
        'call was; failures are reported and propagate; comparisons look at every part')

AP = 'Spp::CodeGen::AstProcessor::'
AST = 'Core::Data::Ast::'
STEPS = ('process', 'processParamPass', 'processPreprocessStatement', 'processMacro', 'applyMacroArgs', 'interpolateAst', 'interpolateAst_identifier',
         'interpolateAst_stringLiteral', 'interpolateAst_tiStr', 'interpolateAst_other', 'interpolateAst_binding', 'interpolateAst_containing',
         'interpolateAst_dynContaining', 'interpolateAst_dynMapContaining', 'addPossiblyMergeableElement', 'addPossiblyMergeableElements',
         'mergeDefinition', 'merge', 'remove', 'removeElement', 'insertElement', 'addElement', 'setElement', 'setMember', 'setOwner', 'add', 'insert',
         'clear', 'set', 'clone', '_clone', 'addSourceLocation', 'setSourceLocation', 'setToMerge', 'setModifiers', 'setAstProcessingState',
         'setValue', 'setName', 'setTarget', 'push', 'removeMember', 'operator=')


class MN(WNorm):
    """Texts of macro processing: the outcome of a template search and of a substitution by name."""

    def t(self, t, d=0):
        r = self.special(t, d)
        if r is None:
            return WNorm.t(self, t, d)
        for a, b in self.alias.items():
            r = r.replace(a, b)
        return r

    def special(self, t, d):
        if t[0] == 'out':
            c = t[1]
            s = sname(c[1]) if c[0] == 'call' else ''
            k = t[2]
            if s == 'parseStringTemplate':
                q = self.t(c[2][-2], d + 1).strip('"') + self.t(c[2][-1], d + 1).strip('"')
                return '%s%s(%s)' % ({1: 'var', 2: 'prefix', 3: 'suffix'}.get(k - len(c[2]) + 7, '?'), '' if q == '____' else q, self.t(c[2][-6], d + 1))
            if s == 'generateStringFromTemplate':
                return 'subst(%s)' % ','.join(self.t(x, d + 1) for x in c[2][-5:-1])
            if s == 'processParamPass':
                return 'replaced(%s)' % self.t(c[2][-3], d + 1)
            if s.startswith('interpolateAst') or s == 'applyMacroArgs':
                return 'copy(%s)' % self.t(c[2][1], d + 1)
            if s == 'computeResultType':
                return {1: 'OWNERT', 2: 'MEMBER'}.get(k, '?')
        if t[0] == 'call' and sname(t[1]) == 'create' and len(t[2]) == 1 and t[2][0][0] == 'init':
            a = []
            for x in t[2][0][1]:
                if x[0] in ('new', 'obj') and len(x[2]) == 2:
                    a.append('%s:%s' % (unstr(x[2][0])[1], self.t(x[2][1], d + 1)))
            return '%s{%s}' % (t[1].split('::')[-2], ', '.join(a))
        if t[0] == 'call' and sname(t[1]) == 'create' and len(t[2]) == 1:
            return '%s{%s}' % (t[1].split('::')[-2].replace('Base', ''), self.t(t[2][0], d + 1))
        if t[0] in ('new', 'obj') and t[1].split('<')[0].split('::')[-1] in ('TiStrBase', 'TiStr', 'TiNumber') and len(t[2]) == 1:
            return self.t(t[2][0], d + 1)
        return None


class MW(World):
    """A world in which local lists, and whether parts are shared, are known."""
    value_classes = ('Srl::String',)

    def __init__(self, n, steps=STEPS, values=None, kinds=None, lists=None, hook=None, inline=(), candidates=()):
        World.__init__(self, n, steps, values, kinds, lists, hook, inline)
        self.candidates = candidates
        self.plainlists = ()    # local lists

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        if obj is not None and s in ('add', 'insert') and strip_ref(obj)[0] in ('v', 'obj') and self.norm.t(strip_ref(obj)) not in self.lists:
            k = ('plist', strip_ref(obj))
            l = st.heap.get(k, ())
            if s == 'add' and len(args) == 1:
                st.heap[k] = l + (args[0],)
            elif s == 'insert' and len(args) == 2 and args[0] == C('0'):
                st.heap[k] = (args[1],) + l
            else:
                st.heap[k] = l + (C('?'),)
        if s in ('foreach', 'extForeach', 'forEach'):
            lam = [a for a in args for a in [strip_fn(a)] if a is not None]
            if lam and self.candidates is not None:
                self.visit(w, st, lam[0], args)
        if obj is not None and s == 'append' and strip_ref(obj)[0] == 'v' and len(args) == 1:
            v = strip_ref(obj)
            st.env[(v[2], v[1])] = ('text', args[0])
        return World.call_value(self, w, st, name, node, obj, args)

    def atom(self, t):
        if t[0] == 'isa' and 'TiNumber<' in t[1]:
            x = self.norm.t(t[2])
            if x in self.kinds:
                c = self.kinds[x]
                return c is not None and t[1].split('::')[-1] in (c if isinstance(c, tuple) else (c,))
        if t[0] == 'eq':
            a, b = strip_ref(t[1]), strip_ref(t[2])
            if a == b:
                return True
            if 'v' in (a[0], b[0]) and all(x[0] == 'v' or self.norm.t(x) in self.lists or self.norm.t(x) in self.kinds for x in (a, b)):
                return False
        return World.atom(self, t)

    def visit(self, w, st, lam, args):
        """A search for symbols: the callback gets the candidates in turn, until it stops."""
        fn = w.prog.fns.get(lam[1])
        if fn is None:
            raise Broken('the callback of a search is not in the sources')
        for action, o in self.candidates:
            s2 = st.copy()
            fr = Frame(w, fn, ('this',), 1, frozenset(), lam[2])
            for p, v in zip(fn.params, (action, o)):
                s2.env[(fr.id, p['d'])] = v
            r = w.walk(fn, fr, s2)
            r = [x for x in r if x.kind == 'return']
            if len(r) != 1:
                st.events = st.events + (Ev('call', '?callback', None, (), None, fn, 0),)
                return
            st.env, st.heap, st.facts, st.events = r[0].state.env, r[0].state.heap, r[0].state.facts, r[0].state.events
            v = self.norm.t(r[0].ret)
            st.heap[('verdict', self.norm.t(o))] = v
            if 'STOP' in v:
                break

    def listof(self, st, t):
        l = World.listof(self, st, t)
        if l is None:
            l = st.heap.get(('plist', strip_ref(t)))
            if l is None and strip_ref(t)[0] in ('obj',) and 'PlainList' in strip_ref(t)[1]:
                return ()
            if l is None and strip_ref(t)[0] == 'v' and strip_ref(t)[1] in self.plainlists:
                return ()
        return l

    def on_call(self, w, st, name, node, obj, args, res):
        World.on_call(self, w, st, name, node, obj, args, res)
        if sname(name) in self.steps:
            l = [self.listof(st, a) for a in args]
            st.events[-1].x = dict(st.events[-1].x or {}, lists=l)


def strip_fn(a):
    a = strip_as(a)
    while a[0] in ('new', 'obj') and len(a[2]) == 1:
        a = strip_as(a[2][0])
    return a if a[0] == 'lam' else None




def run(chk, prog):
    templates(chk, prog)
    dispatch(chk, prog)
    identifiers(chk, prog)
    others(chk, prog)
    parts(chk, prog)
    placing(chk, prog)
    visiting(chk, prog)
    macro_calls(chk, prog)
    bodies(chk, prog)
    matching(chk, prog)
    copies(chk, prog)
    equality(chk, prog)
    merging(chk, prog)
    chk.floor('situations', 1150)


def locals_of(fn, cls):
    return {x['d'] for x in fn.nodes if x['k'] == 'VarDecl' and cls in x.get('t', '')} | {v['d'] for x in fn.nodes for v in x.get('vars', ()) if cls in v.get('t', '')}


def final(o, name):
    for (fid, d), v in o.state.env.items():
        if fid == 0 and d.split('#')[0] == name:
            return v


def lin(n, t):
    """A sum as a map of its terms."""
    r = {}

    def go(t, m):
        t = strip_as(t)
        if t[0] == 'c' and t[1].lstrip('-').isdigit():
            r[1] = r.get(1, 0) + m * int(t[1])
        elif t[0] == 'bin' and t[1] in '+-':
            go(t[2], m)
            go(t[3], m if t[1] == '+' else -m)
        elif t[0] == 'neg':
            go(t[1], -m)
        else:
            x = n.t(t)
            r[x] = r.get(x, 0) + m
    go(t, 1)
    return {k: v for k, v in r.items() if v}


def mn(fn, alias=None):
    n = MN(fn, None)
    n.alias = dict({'this.': 'self.', '.getValue.get': '.getValue', '.getBuf': ''}, **(alias or {}))
    return n


def templates(chk, prog):
    """The text between the first opening and the closing after it is the name; what is before and after is kept."""
    fn = prog.fn(AP + 'parseStringTemplate')
    for p1, p2 in itertools.product((-1, 0, 3, 7), (-1, 0, 1, 5)):
        n = mn(fn)

        def hook(w, st, s, obj, args, n=n, p1=p1, p2=p2):
            if s == 'findPos' and len(args) == 1:
                base = strip_fnpos(obj)
                what = n.t(args[0])
                k = lin(n, base)
                if k == {'str': 1} and what == 'varOpening':
                    return C(str(p1))
                if k == {kk: v for kk, v in (('str', 1), (1, p1 + 2)) if v} and what == 'varClosing':
                    return C(str(p2))
                st.events = st.events + (Ev('call', '?search', None, (C(n.t(base)), C(what)), None, fn, 0),)
        w = MW(n, ('assign', '?search'), hook=hook)
        chk.count('situations')
        what = 'a text with the opening %s and the closing %s after it' % ('at %d' % p1 if p1 >= 0 else 'missing', '%d' % p2 if p2 >= 0 else 'missing')
        some = False
        for o in ways(prog, fn, w):
            if o.kind != 'return':
                continue
            some = True
            v, p, s = final(o, 'var'), final(o, 'prefixSize'), final(o, 'suffix')
            asg = [e for e in o.events if sname(e.name) == 'assign']
            bad = [e for e in o.events if e.name == '?search']
            if bad:
                chk.violation('template:parse', fn.loc(o.node), '%s: it looks for %s in %s' % (what, n.t(bad[0].args[1]), n.t(bad[0].args[0])))
                continue
            if p1 >= 0 and p2 > 0:
                ok = len(asg) == 1 and len(asg[0].args) >= 2 and lin(n, asg[0].args[0]) == {'str': 1, 1: p1 + 2} and lin(n, asg[0].args[1]) == {1: p2} \
                    and lin(n, p) == {k: x for k, x in ((1, p1),) if x} and lin(n, s) == {'str': 1, 1: p1 + 2 + p2 + 2}
                if not ok:
                    chk.violation('template:parse', fn.loc(o.node), '%s: the name is %s, %s characters are before it and %s follows' % (
                        what, 'not taken' if not asg else str([show(lin(n, x)) for x in asg[0].args]), lin(n, p) if p else '?', lin(n, s) if s else '?'))
            elif asg or v is None or n.t(v) != 'str' or n.t(p) != '0' or n.t(s) not in ('0', 'null'):
                chk.violation('template:parse', fn.loc(o.node), '%s: it is taken for a template' % what)
        if not some:
            chk.violation('template:parse', fn.loc(), what + ': no way through')
    fn = prog.fn(AP + 'generateStringFromTemplate')
    for p, s in itertools.product((0, 4), (True, False)):
        n = mn(fn)
        w = MW(n, ('append', 'assign'), {'prefixSize': p, 'suffix': s})
        chk.count('situations')
        what = 'a template with %d characters before the name and %s after it' % (p, 'text' if s else 'nothing')
        for o in ways(prog, fn, w):
            if o.kind != 'return':
                continue
            got = [', '.join(n.t(a) for a in e.args) for e in o.events if [n.t(a) for a in e.args] != ['prefix', '0']]
            want = (['prefix, prefixSize'] if p else []) + ['var'] + (['suffix'] if s else [])
            if [re.sub(r'^prefix, 4$', 'prefix, prefixSize', g) for g in got] != want:
                chk.violation('template:generate', fn.loc(o.node), '%s gives the text %s' % (what, ' + '.join(got)))


def strip_fnpos(t):
    t = strip_ref(t)
    while t[0] in ('call', 'new', 'obj') and (sname(t[1]) in ('sbstr_cast', 'SbStr', 'Str') or t[0] != 'call') and len(t[2]) >= 1:
        t = strip_ref(t[2][0])
    return t


FWD = 'argNames, args, sl, '


def dispatch(chk, prog):
    fn = prog.fn(AP + '_interpolateAst')
    for kind, to in (('Identifier', 'identifier'), ('StringLiteral', 'stringLiteral'), ('TiStrBase', 'tiStr'), ('Scope', 'other'), ('IntegerLiteral', 'other'),
                     ('TiNumber', 'other')):
        n = mn(fn)
        w = MW(n, kinds={'obj': kind, 'self': 'AstProcessor'})
        outs = ways(prog, fn, w)
        protocol(chk, fn, outs, n, 'dispatch', 'a part that is a ' + kind, [('self.interpolateAst_%s(obj, %sresult)' % (to, FWD), '', True)])


def location(o, n, res):
    """The source locations given to a result."""
    r = set()
    for e in o.events:
        s = sname(e.name)
        if s == 'addSourceLocation' and len(e.args) == 2:
            r.add(n.t(e.args[1]))
        elif s == 'setSourceLocation':
            r.add(n.t(e.args[0]))
        elif s == 'clone' and len(e.args) == 2:
            r.add(n.t(e.args[1]))
    return r


def identifiers(chk, prog):
    """Names, texts and name strings."""
    args_ = {'Identifier': ('Identifier', 'Text'), 'StringLiteral': ('StringLiteral', 'Text'), 'IntegerLiteral': ('IntegerLiteral', 'Text'),
             'TiStr': 'TiStrBase', 'TiInt': 'TiNumber<int', 'TiFloat': 'TiNumber<float', 'ParamPass': 'ParamPass'}
    for leaf, kind in (('identifier', 'Identifier'), ('stringLiteral', 'StringLiteral'), ('tiStr', 'TiStrBase')):
        fn = prog.fn(AP + '_interpolateAst_' + leaf)
        src = {'tiStr': 'obj.get'}.get(leaf, 'obj.getValue')
        q = '{{}}' if leaf == 'stringLiteral' else ''
        for arg, tmpl, found, haveloc in itertools.product(args_, (None, 'p', 's', 'ps'), (True, False), (True, False)):
            if not found and (arg != 'Identifier' or not haveloc):
                continue
            n = mn(fn, {'obj.getStr': 'obj.get', 'ARG.getStr': 'ARG.get'})
            pre, suf, var = 'prefix%s(%s)' % (q, src), 'suffix%s(%s)' % (q, src), 'var%s(%s)' % (q, src)

            def hook(w, st, s, obj, args, n=n, var=var, found=found):
                if s == 'findPos' and obj is not None and n.t(strip_ref(obj)) == 'argNames':
                    if n.t(args[0]) != var:
                        st.events = st.events + (Ev('call', '?search', None, (C(n.t(args[0])),), None, fn, 0),)
                    return C('2' if found else '-1')
            # a template without an opening has neither text before nor after it
            values = {pre: 3 if tmpl and 'p' in tmpl else 0, suf: bool(tmpl), 'findSourceLocation(ARG)': haveloc, 'ARG.findSourceLocation': haveloc}
            w = MW(n, STEPS + ('?search',), values, {'ARG': args_[arg], 'obj': kind, 'self': 'AstProcessor'}, {'args': [el('A0'), el('A1'), el('ARG')]}, hook)
            w.atomfix = True
            chk.count('situations')
            what = 'a %s that %s, with %s' % ({'identifier': 'name', 'stringLiteral': 'string', 'tiStr': 'text'}[leaf],
                                              'refers to no argument' if not found else 'contains the name of an argument' if tmpl else 'is the name of an argument', 'a ' + arg)
            text = {'Identifier': 'ARG.getValue', 'StringLiteral': 'ARG.getValue', 'IntegerLiteral': None, 'TiStr': 'ARG.get'}.get(arg)
            loc = ('sl',)
            if not found or leaf == 'stringLiteral' and not tmpl:
                want = {'tiStr': ['TiStr{obj.get}']}.get(leaf, ['clone(obj,sl)'])
            elif leaf == 'tiStr':
                want = ['TiStr{subst(%s,%s,ARG.getValue,%s)}' % (src, pre, suf)] if arg == 'Identifier' else None
            elif tmpl:
                allowed = ('Identifier', 'TiStr') + (('StringLiteral',) if leaf == 'stringLiteral' else ())
                want = ['%s{value:subst(%s,%s,%s,%s)}' % (kind, src, pre, text, suf)] if arg in allowed else None
            elif arg in ('TiInt', 'TiFloat'):
                want = ['%s{value:<ARG.get>}' % {'TiInt': 'IntegerLiteral', 'TiFloat': 'FloatLiteral'}[arg]]
            elif arg == 'TiStr':
                want = ['StringLiteral{value:ARG}', 'StringLiteral{value:ARG.get}']
            else:
                want = ['clone(ARG,concatSourceLocation(obj.getSourceLocation,sl))']
            some = False
            for o in ways(prog, fn, w):
                if o.kind != 'return':
                    continue
                some = True
                res = n.t(final(o, 'result') or C('nothing'))
                locs = location(o, n, res)
                res2 = re.sub(r', sourceLocation:obj\.getSourceLocation', '', res)
                notices = [n.t(e.args[0]) for e in o.events if sname(e.name) == 'add' and 'oticeStore' in n.t(e.obj)]
                other = [e for e in o.events if sname(e.name) in ('?search', 'setElement', 'setMember', 'setValue', 'remove', 'clear')]
                ret = evalt(o.ret, lambda t: o.facts.get(t))
                k = 'leaf:' + leaf
                if other:
                    chk.violation(k, fn.loc(o.node), '%s: it also does %s(%s)' % (what, sname(other[0].name), ', '.join(n.t(a) for a in other[0].args or ())))
                elif want is None:
                    if len(notices) != 1 or not notices[0].startswith('InvalidMacroArgNotice(') or ret is None or ret:
                        chk.violation(k, fn.loc(o.node), '%s: it must be rejected with a notice; it gives %s and %s' % (what, res, notices or 'no notice'))
                    elif leaf != 'tiStr' and ('sl' in notices[0] and 'ARG' not in notices[0]) == haveloc:
                        chk.violation(k + ':loc', fn.loc(o.node), '%s: the notice is given the location %s' % (what, notices[0]))
                elif notices or not ret:
                    chk.violation(k, fn.loc(o.node), '%s: it must give %s; it fails with %s' % (what, want[0], notices or 'no notice'))
                elif res2 not in want:
                    chk.violation(k, fn.loc(o.node), '%s: it gives %s; it must give %s' % (what, res, want[0]))
                elif leaf != 'tiStr' and not any('sl' in x for x in locs):
                    chk.violation(k + ':loc', fn.loc(o.node), '%s: the place of the macro call is not added to the location of %s' % (what, res))
                elif leaf != 'tiStr' and 'subst(' in res and 'obj.getSourceLocation' not in res and not any('obj' in x for x in locs):
                    chk.violation(k + ':loc', fn.loc(o.node), '%s: the location of the %s is lost' % (what, leaf))
            if not some:
                chk.violation('leaf:' + leaf, fn.loc(), what + ': no way through')



IFACES = {'DynamicMapContaining': ('DynamicMapContaining', 'DynamicContaining?', 'Containing'), 'DynamicContaining': ('DynamicContaining', 'Containing'),
          'Containing': ('Containing',), None: ()}


def others(chk, prog):
    """A part that is no reference: a new node of its class, with the members and elements of the old one."""
    fn = prog.fn(AP + '_interpolateAst_other')
    for binding, cont, sl in itertools.product((True, False), IFACES, (True, False)):
        n = mn(fn, {'createShared(obj.getMyTypeInfo.getFactory)': 'NEW', 'obj.getMyTypeInfo.getFactory.createShared': 'NEW'})
        k = (('Binding',) if binding else ()) + IFACES[cont] + ('Node', 'Scope')
        w = MW(n, STEPS, {'obj.getMyTypeInfo.getFactory': True, 'sl': sl}, {'obj': k, 'NEW': k, 'self': 'AstProcessor'})
        steps = [('self.interpolateAst_binding(obj, %sNEW)' % FWD, 'stop')] if binding else []
        if cont:
            steps.append(('self.interpolateAst_%s(obj, %sNEW)' % ({'DynamicMapContaining': 'dynMapContaining', 'DynamicContaining': 'dynContaining', 'Containing': 'containing'}[cont], FWD), 'stop'))
        if sl:
            steps.append(('addSourceLocation(NEW, sl)', ''))
        what = 'a node with %s and %s' % ('members' if binding else 'no members', 'the elements of a ' + cont if cont else 'no elements')
        outs = ways(prog, fn, w)
        protocol(chk, fn, outs, n, 'other', what, steps, quiet=('result.operator=(NEW)',) + (() if sl else ('addSourceLocation(NEW, sl)',)))
        for o in outs:
            if o.kind == 'return' and n.t(final(o, 'result') or C('nothing')) != 'NEW':
                chk.violation('other', fn.loc(o.node), '%s: it gives %s' % (what, n.t(final(o, 'result') or C('nothing'))))
    n = mn(fn)
    w = MW(n, STEPS, {}, {'obj': 'TiStrBase', 'self': 'AstProcessor'})
    for o in ways(prog, fn, w):
        if o.kind == 'return' and (n.t(final(o, 'result') or C('nothing')) != 'obj' or o.events[1:]):
            chk.violation('other', fn.loc(o.node), 'a basic value: it gives %s' % n.t(final(o, 'result') or C('nothing')))


class PN(MN):
    """Parts of copies."""

    def t(self, t, d=0):
        if t[0] == 'call' and sname(t[1]) in ('getMemberHoldMode', 'getElementHoldMode', 'getMemberNeededType', 'getElementKey') and len(t[2]) >= 2:
            i = t[2][-1]
            return '%s%s' % ({'H': 'hold', 'N': 'type', 'E': 'key'}[sname(t[1])[9] if 'HoldMode' not in sname(t[1]) else 'H'] if False else
                             'hold' if 'HoldMode' in t[1] else 'key' if 'Key' in t[1] else 'type', self.t(i, d + 1))
        return MN.t(self, t, d)


def parts(chk, prog):
    """Members and elements, each in its place."""
    for form in ('binding', 'containing', 'dynContaining', 'dynMapContaining'):
        fn = prog.fn(AP + '_interpolateAst_' + form)
        kinds3 = [x for k in (0, 1, 2) for x in itertools.product('SNO', repeat=k)] + [tuple('SOS'), tuple('OSN'), tuple('SSS')]
        for items in kinds3:
            part(chk, prog, fn, form, items, None)
        if form in ('binding', 'dynMapContaining'):
            for arg in ('Identifier', 'StringLiteral', 'TiStr', 'IntegerLiteral'):
                for items in (('S', 'T', 'S'), ('T',), ('T', 'O')):
                    for clash in ((None, 'src', 'dest', 'same') if form == 'dynMapContaining' else (None,)):
                        part(chk, prog, fn, form, items, arg, clash)


def part(chk, prog, fn, form, items, arg, clash=None):
    """S: a node of its own, N: nothing where a node may be, O: something else, T: a name of an argument."""
    n = PN(fn, None)
    n.alias = {'this.': 'self.', '.getValue.get': '.getValue', '.getBuf': '', 'self.astHelper.getNoticeStore': 'notices', 'self.astHelper.getSeeker': 'seeker'}
    els = [el('E%d' % i) if k != 'N' else C('0') for i, k in enumerate(items)]
    values = {}
    for i, k in enumerate(items):
        node = k in 'SN' or k == 'T' and form != 'binding'
        values['(SHARED_REF==hold%d)' % i] = node
        values['(VALUE==hold%d)' % i] = not node
        values['(TiStr==type%d)' % i] = k == 'T' and form == 'binding'
        values['E%d' % i] = True

    def hook(w, st, s, obj, args):
        if s == 'findPos' and obj is not None and n.t(strip_ref(obj)) == 'argNames':
            m = re.match(r'var\((?:key|obj\[|E)(\d+)\]?(?:\.get)?\)$', n.t(args[0]))
            return C('2' if m and items[int(m.group(1))] == 'T' else '-1')
        if s in ('getMemberHoldMode', 'getElementHoldMode') and n.t(obj) == 'obj' and args[0][0] == 'c':
            i = int(args[0][1])
            return el('hold%d' % i)
        if s == 'getMemberNeededType':
            return el('type' + n.t(args[0]))
        if s == 'getTypeInfo' and obj is None:
            return el('TiStr')
        if s in ('getElementKey',) and n.t(obj) == 'obj':
            return el('key' + n.t(args[0]))
        if s == 'refMember' and n.t(obj) == 'obj':
            return el('E' + n.t(args[0]))
        if s == 'findElementIndex':
            t_ = [i for i, k in enumerate(items) if k == 'T'][0]
            if n.t(obj) == 'obj':
                return C({'src': str(len(items) - 1 if t_ == 0 else 0), 'same': str(t_)}.get(clash, '-1'))
            return C('0' if clash == 'dest' else '-1')
    if clash == 'src' and len(items) == 1:
        return
    w = MW(n, STEPS + ('refMember',), values, {'ARG': {'TiStr': 'TiStrBase'}.get(arg, (arg, 'Text')), 'self': 'AstProcessor'}, {'args': [el('A0'), el('A1'), el('ARG')], 'obj': els}, hook)
    what = 'copying the %s %s' % ({'binding': 'members', 'containing': 'elements', 'dynContaining': 'list', 'dynMapContaining': 'named elements'}[form],
                                  '-'.join({'S': 'node', 'N': 'nothing', 'O': 'reference', 'T': 'name of an argument'}[k] for k in items) or 'none')
    if arg:
        what += ' with the argument a ' + arg
    steps = []
    good = arg is None or (arg in ('Identifier', 'StringLiteral', 'TiStr') if form == 'binding' else arg == 'Identifier' and clash in (None, 'same'))
    rejected = False
    for i, k in enumerate(items):
        val = 'E%d' % i
        key = 'key%d' % i
        if k == 'T':
            if not good:
                steps.append(('notice', 'stop'))
                rejected = True
                break
            text = 'ARG.get' if arg == 'TiStr' else 'ARG.getValue'
            if form == 'binding':
                steps.append(('text %d = subst(E%d,prefix(E%d),%s,suffix(E%d))' % (i, i, i, text, i), ''))
                continue
            key = 'subst(%s,prefix(%s),%s,suffix(%s))' % (key, key, text, key)
        if k == 'S' or k == 'T':
            steps.append(('copy E%d' % i, 'stop'))
            val = 'copy(E%d)' % i
        elif k == 'N':
            val = '0'
            if form in ('binding', 'containing'):
                continue
        steps.append(({'binding': 'set %d = %s', 'containing': 'set %d = %s', 'dynContaining': 'add %d %s', 'dynMapContaining': 'add %d %s'}[form] % (i, val)
                      + (' as ' + key if form == 'dynMapContaining' else ''), ''))
    if form in ('dynContaining', 'dynMapContaining'):
        steps = [(re.sub(r'^add \d+', 'add', s[0]),) + s[1:] for s in steps]

    def text(e):
        s = sname(e.name)
        a = [n.t(x) for x in e.args]
        a = [re.sub(r'^SharedPtr\(\)$|^null$|^newChild$', '0', x) for x in a]
        o = n.t(e.obj) if e.obj is not None else ''
        a = [re.sub(r'(E\d+)\.get(Str)?\b', r'\1', x) for x in a]
        if s == 'interpolateAst' and a[1:4] == ['argNames', 'args', 'sl']:
            return 'copy ' + a[0]
        if s in ('setMember', 'setElement') and o == 'destObj':
            return 'set %s = %s' % (a[0], a[1]) if a[1] != '0' else '-'
        if s == 'addPossiblyMergeableElement' and a[1] == 'destObj' and a[-2:] == ['seeker', 'notices']:
            return 'add ' + a[0]
        if s == 'addElement' and o == 'destObj':
            return 'add %s as %s' % (a[1], a[0]) if len(a) == 2 else 'add ' + a[0]
        if s == 'add' and o == 'notices':
            return 'notice' if a[0].startswith('InvalidMacroArgNotice(') else a[0]
        m = re.match(r'destObj\.refMember\((\d+)\)$|refMember\(destObj,(\d+)\)$', o)
        if s == 'operator=' and m:
            return 'text %s = %s' % (m.group(1) or m.group(2), a[0])
        if s == 'operator=' and 'estObj' not in o or s in ('refMember', 'clear', 'append'):
            return '-'
        return '%s.%s(%s)' % (o, s, ', '.join(a))
    outs = ways(prog, fn, w)
    protocol(chk, fn, outs, n, 'parts:' + form, what, [s if s[0] != 'notice' else (s[0], '') for s in steps], quiet=('-',), text=text, ret=0 if rejected and not any(s[1] == 'stop' for s in steps[:-1]) else None if rejected else True)


def placing(chk, prog):
    """Where the result of a macro, or an inserted tree, goes."""
    for fname in ('_processMacro', '_insertInterpolatedAst'):
        fn = prog.fn(AP + fname)
        mac = fname == '_processMacro'
        for owner, res, cnt in itertools.product(('Scope', 'Containing', None), ('Scope', 'Other'), (0, 1, 2)):
            if res == 'Other' and cnt:
                continue
            for inner in (('Scope', 'Other') if cnt == 1 else ('Other',)):
                O = 'owner' if mac else 'OWNER'
                I = 'indexInOwner' if mac else 'INDEX'
                n = mn(fn, {'self.astHelper.getNoticeStore': 'notices', 'self.astHelper.getSeeker': 'seeker', 'self.currentPreprocessOwner': 'OWNER',
                            'self.currentPreprocessInsertionPosition': 'INDEX', 'self.currentPreprocessSourceLocation': 'sl', 'copy(macro)': 'RES',
                            'copy(obj)': 'RES'})
                w = MW(n, STEPS, {'RES': True, 'CHILD': True}, {O: ((owner,) if owner != 'Scope' else ('Scope', 'Containing')) if owner else ('Nothing',), 'RES': (res, 'Containing') if res == 'Scope' else res,
                                       'CHILD': (inner, 'Containing') if inner == 'Scope' else inner, 'self': 'AstProcessor'},
                       {'RES': [el('CHILD'), el('CHILD2')][:cnt]} if res == 'Scope' else {}, candidates=None)
                chk.count('situations')
                # a scope holding a single part stands for that part
                what = '%s of %s in %s' % ('the result of a macro' if mac else 'an inserted tree', 'a scope of %d parts' % cnt if res == 'Scope' else 'a single part', 'a ' + owner if owner else 'something else')
                first = 'self.applyMacroArgs(macro, args, sl)' if mac else 'self.interpolateAst(obj, argNames, args, sl)'
                steps = [(first, 'stop')]
                single = res == 'Scope' and cnt == 1
                unwrapped = single and (mac or owner != 'Scope')
                r, rk = ('CHILD', inner) if unwrapped else ('RES', res)
                if owner == 'Scope':
                    if mac:
                        steps.append(('%s.remove(%s)' % (O, I), ''))
                    steps.append(('addPossiblyMergeableElement%s(%s, %s, %s, seeker, notices)' % ('s' if rk == 'Scope' else '', r, O, I), ''))
                elif owner:
                    steps.append(('%s.setElement(%s, %s)' % (O, I, r), ''))
                outs = ways(prog, fn, w)
                if owner is None:
                    for o in outs:
                        if o.kind != 'throw' and truth_of(o, o.events[0].res if o.events else C('1')) is not False and evalt(o.ret, lambda t: o.facts.get(t)):
                            chk.violation('placing', fn.loc(o.node), what + ': it is silently dropped')
                    continue

                def text(e):
                    x = sname(e.name)
                    a = [n.t(y) for y in e.args]
                    if x == 'operator=' or x == 'add':
                        return '-'
                    if x in ('applyMacroArgs', 'interpolateAst'):
                        a.pop()
                    return '%s%s(%s)' % (n.t(e.obj) + '.' if e.obj is not None else '', x, ', '.join(a))
                protocol(chk, fn, outs, n, 'placing:' + fname[1:], what, steps, quiet=('-',), text=text)


def visiting(chk, prog):
    """Every part of a tree is processed, in order, except bodies that are processed when needed."""
    fn = prog.fn(AP + '_process')
    own = {'pp': ('ParamPass',), 'mac': ('Macro',), 'type': ('UserType', 'Type', 'DataType'), 'fun': ('Function',), 'ast': ('AstLiteralCommand',),
           'astp': ('AstLiteralCommand',), 'pre': ('PreprocessStatement',), 'expr': ('Scope', 'Containing'), 'null': None, 'rep': ('ParamPass',)}
    lists = [()] + [(a,) for a in own] + [(a, b) for a in own for b in own if a != b] + [('expr', 'rep', 'pre'), ('pre', 'null', 'rep'), ('null', 'expr', 'pp')]
    for items, failing in itertools.product(lists, (False, True)):
        if failing and 'pre' not in items:
            continue
        for gone in (True, False):
            if not gone and 'pre' not in items and 'rep' not in items:
                continue
            n = mn(fn)
            els = [C('0') if k == 'null' else el('%s%d' % (k, i)) for i, k in enumerate(items)]
            kinds = {'self': 'AstProcessor', 'owner': ('Containing', 'Scope')}
            values = {}
            for i, k in enumerate(items):
                nm = '%s%d' % (k, i)
                if k != 'null':
                    kinds[nm] = own[k]
                values['self.processPreprocessStatement(%s,owner,%d)' % (nm, i)] = None
                values['replaced(%s)' % nm] = k == 'rep'
                values[nm + '.isPreprocessDisabled'] = k == 'astp'
                kinds['new%d' % i] = ('Scope', 'Containing')

            def items_at(st, items=items, els=els, gone=gone, failing=failing):
                # a part that was replaced is another part now; a preprocess statement that ran is gone or replaced
                l = []
                for i, x in enumerate(els):
                    done = any(e.args and sname(e.name) in ('processParamPass', 'processPreprocessStatement') and e.args[0] == x for e in st.events)
                    if done and (items[i] == 'rep' or items[i] == 'pre' and not failing):
                        if not gone:
                            l.append(el('new%d' % i))
                    else:
                        l.append(x)
                return l

            def hook(w, st, s, obj, args, failing=failing):
                if s == 'processPreprocessStatement':
                    st.events = st.events + (Ev('call', 'x::processPreprocessStatement', obj, tuple(args), C('0' if failing else '1'), fn, 0),)
                    return C('0' if failing else '1')
            w = MW(n, ('process', 'processParamPass', 'setToMerge', 'addNotice'), values, kinds, {'owner': items_at}, hook)
            w.loop_bound = 12
            steps = []
            cur = [(k, i) for i, k in enumerate(items)]
            j = 0
            while j < len(cur):
                k, i = cur[j]
                nm = '%s%d' % (k, i)
                j += 1
                if k in ('pp', 'rep'):
                    steps.append(('self.processParamPass(%s, %d)' % (nm, j - 1), '', True))
                    if k == 'rep':
                        j -= 1
                        cur[j:j + 1] = [] if gone else [('new', i)]
                elif k == 'pre':
                    steps.append(('self.processPreprocessStatement(%s, owner, %d)' % (nm, j - 1), '', False))
                    if not failing:
                        j -= 1
                        cur[j:j + 1] = [] if gone else [('new', i)]
                elif k in ('expr', 'ast', 'new'):
                    steps.append(('self.process(%s)' % nm, '', True))
            what = 'a tree with the parts ' + ('-'.join({'pp': 'call', 'rep': 'macro call', 'pre': 'preprocess', 'mac': 'macro', 'type': 'type', 'fun': 'function', 'ast': 'ast',
                                               'astp': 'ast without preprocessing', 'expr': 'expression', 'null': 'nothing'}[k] for k in items) or 'none')
            if failing:
                what += ', where preprocessing fails'

            def text(e):
                a = [n.t(x) for x in e.args]
                if sname(e.name) == 'processParamPass':
                    a = a[:2]
                return '%s.%s(%s)' % (n.t(e.obj), sname(e.name), ', '.join(a))
            outs = ways(prog, fn, w)
            protocol(chk, fn, outs, n, 'visit', what, steps, text=text, ret=0 if failing else True)
    # a definition that found nothing to merge with
    for merge, typ, module in itertools.product((True, False), (True, False), (True, False)):
        n = mn(fn, {'self.astHelper.getNoticeStore': 'notices'})
        w = MW(n, ('process', 'setToMerge', 'add'), {'owner.isToMerge': merge},
               {'self': 'AstProcessor', 'owner': ('Definition',) + (('Module',) if module else ()), 'owner.getTarget': 'Type' if typ else 'Function'}, {'owner': []})
        bad = merge and typ and not module
        steps = [('notices.add(MissingTypeMergeTargetNotice(findSourceLocation(owner)))', ''), ('owner.setToMerge(0)', '')] if bad else []
        if module:
            continue
        protocol(chk, fn, ways(prog, fn, w), n, 'visit:merge', 'a definition of a %s %s' % ('type' if typ else 'function', 'that is to be merged' if merge else ''), steps, ret=0 if bad else 1)
    n = mn(fn)
    w = MW(n, ('process', 'processParamPass'), {}, {'self': 'AstProcessor', 'owner': ('Module', 'Containing')}, {'owner': [el('x')]})
    protocol(chk, fn, ways(prog, fn, w), n, 'visit:grammar', 'a grammar', [], ret=1)


def macro_calls(chk, prog):
    """Which calls use a macro, which macro, and with what arguments."""
    fn = prog.fn(AP + '_processParamPass')
    for square, param, link, typ, member, cand in itertools.product((True, False), ('none', 'one', 'list'), (True, False), (True, False), (True, False),
                                                                    ('none', 'other', 'wrong', 'bad', 'good', 'wrong-good', 'good-good', 'other-good')):
        if not square and (param != 'one' or cand != 'good' or typ or member) or not link and (typ or member):
            continue
        n = mn(fn, {'paramPass.getParam': 'PARAM', 'paramPass.getOperand': 'OPERAND', 'OPERAND.getFirst': 'FIRST', 'OPERAND.getSecond': 'SECOND',
                    'self.astHelper.tryGetDeepReferenceContentType(OWNERT)': 'DEEP', 'tryGetDeepReferenceContentType(self.astHelper,OWNERT)': 'DEEP', 'paramPass.getOwner': 'PLACE', 'self.astHelper.getSeeker': 'seeker',
                    'findSourceLocation(paramPass)': 'LOC', 'self.expressionComputation.': 'comp.'})
        cands = {'none': [], 'other': ['F'], 'wrong': ['W'], 'bad': ['B'], 'good': ['M'], 'wrong-good': ['W', 'M'], 'good-good': ['M', 'M2'], 'other-good': ['F', 'M']}[cand]
        m = link and member
        kinds = {'self': 'AstProcessor', 'PARAM': None if param == 'none' else ('List', 'Containing') if param == 'list' else 'Literal',
                 'OPERAND': 'LinkOperator' if link else 'Identifier', 'OWNERT': ('Type', 'UserType') if typ else 'Module',
                 'M': 'Macro', 'M2': 'Macro', 'F': 'Function', 'W': 'Macro', 'B': 'Macro'}
        values = {'(SQUARE==paramPass.getType)': square, 'PARAM': param != 'none', 'OPERAND': True, '(TARGET_MATCH==MATCH)': True, '(TARGET_MATCH==USE)': False, 'MEMBER': m,
                  'M.isMember': m, 'M2.isMember': m, 'B.isMember': m, 'W.isMember': not m}
        for x in 'M', 'M2', 'W', 'B':
            values['(%s.isMember==MEMBER)' % x] = x != 'W'
        hookvals = {'M': True, 'M2': True, 'W': True, 'B': False}

        def hook(w, st, s, obj, args, hookvals=hookvals, n=n):
            if s == 'computeResultType':
                return None
            if s == 'matchCall':
                l = world.listof(st, args[0])
                x = n.t(strip_ref(obj))
                st.heap[('matched', x)] = tuple(l) if l is not None else n.t(args[0])
                return C('true' if hookvals.get(x) else 'false')
            if s == 'isMember' and n.t(strip_ref(obj)) in hookvals:
                x = n.t(strip_ref(obj))
                return C('true' if values[x + '.isMember'] else 'false')
        P = [el('P0'), el('P1')] if param == 'list' else [el('PARAM')] if param == 'one' else []
        act = [(el('USE'), el('M'))] + [(el('MATCH'), el(c)) for c in cands] if cands else [(el('USE'), el('M'))]
        world = MW(n, ('process', 'computeResultType', 'processMacro', 'foreach', 'extForeach'), values, kinds, {'PARAM': P} if param == 'list' else {}, hook, candidates=act)
        world.plainlists = locals_of(fn, 'PlainList')
        world.outvals = {'OWNERT': el('OWNERT'), 'MEMBER': C('true' if m else 'false')}
        what = 'a call with %s brackets and %s of %s' % ('square' if square else 'round', {'none': 'no argument', 'one': 'one argument', 'list': 'two arguments'}[param],
                                                        'a name' if not link else 'a member of %s%s' % ('an object of a ' if member else '', 'type' if typ else 'module'))
        outs = ways(prog, fn, world)
        key = 'macrocall'
        if not square:
            protocol(chk, fn, outs, n, key, what, [('self.process(paramPass)', '', True)])
            continue
        where = 'PLACEOWNER'
        want = list(P)
        if link and typ and member:
            want = [el('FIRST')] + want
        steps = [('self.process(OPERAND)', '', True)]
        if link:
            steps += [('computeResultType(FIRST)', 'stop'), ('search SECOND from %s without owners' % ('DEEP' if typ else 'OWNERT'), '')]
        else:
            steps += [('search OPERAND from paramPass.getOwner', '')]
        if 'M' in cands:
            steps.append(('use M for PLACE %s' % 'indexInOwner', '', True))

        def text(e, n=n):
            s = sname(e.name)
            a = [n.t(x) for x in e.args]
            if s == 'computeResultType':
                return 'computeResultType(%s)' % a[0]
            if s in ('foreach', 'extForeach'):
                fl = a[-1]
                return 'search %s from %s%s' % (a[0], 'paramPass.getOwner' if a[1] == 'PLACE' else a[1], ' without owners' if 'SKIP_OWNERS' in fl and '|' not in fl else '' if fl == '0' else ' with ' + fl)
            if s == 'processMacro':
                return 'use %s for %s %s' % (a[0], a[2], a[3])
            return '%s.%s(%s)' % (n.t(e.obj), s, ', '.join(a))
        protocol(chk, fn, outs, n, key, what + {'none': '', 'other': ', the name of a function', 'wrong': ', a macro for other uses', 'bad': ', a macro with other arguments'}.get(cand, ', a macro'),
                 steps, text=text)
        for o in outs:
            if o.kind != 'return':
                continue
            used = None
            for e in o.events:
                if sname(e.name) == 'processMacro':
                    used = truth_of(o, e.res)
                    l = (e.x or {}).get('lists', [None, None])[1]
                    if l is None or [n.t(x) for x in l] != [x[1] for x in want]:
                        chk.violation(key + ':args', fn.loc(e.node), '%s: the macro gets the arguments %s; they are %s' % (
                            what, [n.t(x) for x in l] if l is not None else n.t(e.args[1]), [x[1] for x in want]))
                    if n.t(e.args[4]) != 'LOC':
                        chk.violation(key + ':loc', fn.loc(e.node), '%s: the macro is given the location %s' % (what, n.t(e.args[4])))
            for k, v in o.state.heap.items():
                if k[0] == 'matched' and (isinstance(v, str) or [n.t(x) for x in v] != [x[1] for x in want]):
                    chk.violation(key + ':match', fn.loc(o.node), '%s: the macro is matched with %s; the arguments are %s' % (what, v if isinstance(v, str) else [n.t(x) for x in v], [x[1] for x in want]))
            r = final(o, 'replaced')
            rv = evalt(r, lambda t: o.facts.get(t)) if r is not None else None
            if rv is None or bool(rv) != (used is True):
                chk.violation(key + ':replaced', fn.loc(o.node), '%s: it says it was %s' % (what, 'replaced' if rv else 'not replaced' if rv is not None else 'nothing'))




def bodies(chk, prog):
    """The body of a function or type is processed once; a body that needs itself is reported."""
    for f, p, notice in (('_processFunctionBody', 'func', 'CircularFunctionCodeGenNotice'), ('_processTypeBody', 'type', 'CircularUserTypeCodeGenNotice')):
        fn = prog.fn(AP + f)
        for body, state in ((False, None), (True, 'NOT_STARTED'), (True, 'PROCESSING'), (True, 'PROCESSED')):
            n = mn(fn, {p + '.getBody': 'BODY', 'self.astHelper.getNoticeStore': 'notices'})

            def hook(w, st, s, obj, args, n=n):
                if s == 'getAstProcessingState' and n.t(strip_ref(args[0])) == 'BODY':
                    return el('STATE')
            values = {'BODY': body}
            for x in ('NOT_STARTED', 'PROCESSING', 'PROCESSED'):
                values['(%s==STATE)' % x] = state == x
                values['(STATE==%d)' % ('NOT_STARTED', 'PROCESSING', 'PROCESSED').index(x)] = state == x
            w = MW(n, ('process', 'setAstProcessingState', 'add'), values, {'self': 'AstProcessor'}, {}, hook)
            steps, ret = [], 1
            if body and state == 'NOT_STARTED':
                steps = [('setAstProcessingState(BODY, PROCESSING)', ''), ('self.process(BODY)', '', True), ('setAstProcessingState(BODY, PROCESSED)', '')]
                ret = True
            elif body and state == 'PROCESSING':
                steps, ret = [('notices.add(%s(findSourceLocation(%s)))' % (notice, p), '')], 0
            protocol(chk, fn, ways(prog, fn, w), n, 'body', 'the body of a %s%s' % (p, ' that is ' + state if body else ' without one'), steps, ret=ret)


def matching(chk, prog):
    """A macro is for calls with its number of arguments, and its arguments are used by their names."""
    fn = prog.fn('Spp::Ast::Macro::matchCall')
    for a, b in itertools.product((0, 1, 2, 3), (0, 1, 2, 3)):
        n = mn(fn, {'self.argTypes.getCount': 'COUNT', 'self.getArgCount': 'COUNT'})
        # a macro without arguments may have no list of them
        for have in ((True, False) if b == 0 else (True,)):
            w = MW(n, (), {'COUNT': b, 'self.argTypes': have}, {}, {'args': [el('x')] * a, 'self.argTypes': [el('y')] * b}, inline=('getArgCount',))
            chk.count('situations')
            for o in ways(prog, fn, w):
                if o.kind != 'return':
                    continue
                v = evalt(o.ret, lambda t: w.atom(t))
                if v is None or bool(v) != (a == b):
                    chk.violation('match', fn.loc(o.node), 'a macro of %d arguments %s a call with %d' % (b, 'matches' if v else 'does not match' if v is not None else 'may match', a))
    fn = prog.fn('Spp::Ast::Macro::getArgCount')
    for have in (True, False):
        n = mn(fn)
        w = MW(n, (), {'self.argTypes': have}, {}, {'self.argTypes': [el('y')] * 3})
        for o in ways(prog, fn, w):
            v = evalt(o.ret, lambda t: w.atom(t))
            if v != (3 if have else 0):
                chk.violation('match', fn.loc(o.node), 'the number of arguments of a macro is given as %s' % n.t(o.ret))
    fn = prog.fn(AP + '_applyMacroArgs')
    n = mn(fn, {'macro.getArgTypes.getKeys': 'KEYS', 'getKeys(macro.getArgTypes)': 'KEYS'})
    for a, b in ((0, 0), (2, 2), (1, 2), (2, 1), (0, 1)):
        w = MW(n, ('interpolateAst',), {'macro.getArgCount': b}, {'self': 'AstProcessor'}, {'args': [el('x')] * a})
        outs = ways(prog, fn, w)
        if a != b:
            chk.count('situations')
            for o in outs:
                if o.kind == 'return':
                    chk.violation('apply', fn.loc(o.node), 'a macro of %d arguments is used with %d' % (b, a))
            continue
        protocol(chk, fn, outs, n, 'apply', 'using a macro with its %d arguments' % a, [('self.interpolateAst(macro.getBody, KEYS, args, sl, result)', '', True)])


def copies(chk, prog):
    """A copy of a tree has equal parts in the same places."""
    fn = prog.fn(AST + '_clone')
    forms = [(b, c) for b in (True, False) for c in IFACES]
    lists = [x for k in (0, 1, 2) for x in itertools.product('SO', repeat=k)] + [('S', 'O', 'S')]
    for (binding, cont), items, sl in itertools.product(forms, lists, (True, False)):
        k = (('Binding',) if binding else ()) + IFACES[cont] + ('Node', 'Scope')
        n = PN(fn, None)
        n.alias = {'this.': 'self.', 'createShared(obj.getMyTypeInfo.getFactory)': 'NEW', 'obj.getMyTypeInfo.getFactory.createShared': 'NEW', '.getBuf': ''}
        values = {'obj.getMyTypeInfo.getFactory': True, 'sl': sl}
        for i, x in enumerate(items):
            for h in ('mhold', 'ehold'):
                values['(SHARED_REF==%s%d)' % (h, i)] = x == 'S'
                values['(VALUE==%s%d)' % (h, i)] = x != 'S'
            for p in 'ME':
                values['%s%d' % (p, i)] = True

        def hook(w, st, s, obj, args, n=n):
            if s in ('getMemberHoldMode', 'getElementHoldMode') and n.t(obj) == 'obj':
                return el(('m' if s[3] == 'M' else 'e') + 'hold' + n.t(args[0]))
            if s == 'getElementKey' and n.t(obj) == 'obj':
                return el('key' + n.t(args[0]))
            if s in ('getMember', 'getElement', 'get') and n.t(obj) == 'obj' and len(args) == 1:
                return el(('M' if s == 'getMember' else 'E') + n.t(args[0]))
            if s == '_clone' and len(args) == 2 and n.t(args[1]) == 'sl':
                return el('copy(%s)' % n.t(args[0]))
        w = MW(n, STEPS, values, {'obj': k, 'NEW': k}, {'obj': [el('E%d' % i) for i in range(len(items))]}, hook)
        steps = []
        for i, x in enumerate(items):
            if binding:
                steps.append(('NEW.setMember(%d, %s)' % (i, 'copy(M%d)' % i if x == 'S' else 'M%d' % i), ''))
        for i, x in enumerate(items):
            v = 'copy(E%d)' % i if x == 'S' else 'E%d' % i
            if cont == 'DynamicMapContaining':
                steps.append(('NEW.addElement(key%d, %s)' % (i, v), ''))
            elif cont == 'DynamicContaining':
                steps.append(('NEW.addElement(%s)' % v, ''))
            elif cont == 'Containing':
                steps.append(('NEW.setElement(%d, %s)' % (i, v), ''))
        if sl:
            steps.append(('addSourceLocation(NEW, sl)', ''))

        def text(e, n=n):
            if sname(e.name) in ('_clone', 'operator='):
                return '-'
            return '%s%s(%s)' % (n.t(e.obj) + '.' if e.obj is not None else '', sname(e.name), ', '.join(n.t(x) for x in e.args))
        what = 'a copy of a node with %s%s of %s' % ('members and ' if binding else '', cont or 'nothing', '-'.join({'S': 'node', 'O': 'reference'}[x] for x in items) or 'no parts')
        outs = ways(prog, fn, w)
        protocol(chk, fn, outs, n, 'copy', what, steps, text=text, quiet=('-',) + (() if sl else ('addSourceLocation(NEW, sl)',)), ret=None)
        for o in outs:
            if o.kind == 'return' and n.t(o.ret) != 'NEW':
                chk.violation('copy', fn.loc(o.node), '%s: it gives %s' % (what, n.t(o.ret)))
    n = mn(fn)
    w = MW(n, STEPS, {}, {'obj': 'TiStr'})
    for o in ways(prog, fn, w):
        if o.kind == 'return' and n.t(o.ret) != 'obj':
            chk.violation('copy', fn.loc(o.node), 'the copy of a value that is no node is %s' % n.t(o.ret))
    # locations
    fn = prog.fn(AST + 'addSourceLocation')
    for sl, meta, cur in itertools.product((True, False), (True, False), (None, 'same', 'other')):
        n = mn(fn, {'obj.findSourceLocation': 'CUR', 'findSourceLocation(obj)': 'CUR'})
        values = {'sl': sl, 'CUR': cur is not None, '(CUR==sl)': cur == 'same', '(sl==CUR)': cur == 'same'}
        w = MW(n, ('push', 'setSourceLocation'), values, {'obj': ('MetaHaving', 'Scope') if meta else 'TiStr'})
        chk.count('situations')
        for o in ways(prog, fn, w):
            got = ['%s(%s)' % (sname(e.name), ', '.join(n.t(a) for a in e.args)) for e in o.events]
            want = []
            if sl and meta and cur is None:
                want = [['setSourceLocation(sl)']]
            elif sl and meta and cur == 'other':
                want = [['push(sl)', 'push(CUR)', 'setSourceLocation(X)']]
            else:
                want = [[]] + ([['setSourceLocation(sl)']] if cur == 'same' else [])
            g2 = [re.sub(r'setSourceLocation\((newSl|SourceLocationStack.*|_)\)', 'setSourceLocation(X)', g) for g in got]
            if g2 not in want:
                chk.violation('copy:location', fn.loc(o.node), 'adding %s location to %s with %s location does %s' % (
                    'a' if sl else 'no', 'a node' if meta else 'a value', {None: 'no', 'same': 'the same', 'other': 'another'}[cur], got or 'nothing'))






def equality(chk, prog):
    """Two trees are equal exactly when their classes, values, and all their parts are."""
    fn = prog.fn(AST + 'isEqual')

    def check(what, want, values, kinds, lists, hook=None):
        n = mn(fn)
        vals = dict(values)

        def hk(w, st, s, obj, args, n=n):
            if s == 'getMyTypeInfo':
                return el('type of ' + n.t(strip_ref(obj)))
            if s == 'isEqual' and len(args) == 2:
                a, b = n.t(args[0]), n.t(args[1])
                if a[0] != b[0] or a[1:-1] != b[1:-1] or a[-1] + b[-1] != '12':
                    return C('?parts %s and %s' % (a, b))
                return C('true' if values.get('same ' + a[:-1], True) else 'false')
            if s == 'getElementKey':
                return el('K%s%s' % (n.t(args[0]), n.t(strip_ref(obj))[-1]))
            if s in ('getMemberCount', 'getElementCount', 'getCount') and obj is not None:
                x = n.t(strip_ref(obj))
                c = values.get('%s %s' % ('members' if 'Member' in s else 'elements', x))
                return C(str(c)) if c is not None else None
            if s in ('getMember', 'getElement') and obj is not None and len(args) == 1:
                return el('%s%s%s' % ('M' if s == 'getMember' else 'E', n.t(args[0]), n.t(strip_ref(obj))[-1]))
        w = MW(n, (), vals, kinds, {}, hk)
        chk.count('situations')
        some = False
        for o in ways(prog, fn, w):
            if o.kind != 'return':
                continue
            some = True
            v = evalt(o.ret, w.atom)
            if v is None or bool(v) != want:
                chk.violation('equal', fn.loc(o.node), '%s are taken for %s' % (what, 'different' if v is not None and not v else 'equal' if v else 'something else: ' + n.t(o.ret)))
        if not some:
            chk.violation('equal', fn.loc(), what + ': no way through')
    for a, b in itertools.product((True, False), (True, False)):
        if not (a and b):
            check('a %s and %s' % ('tree' if a else 'missing tree', 'another' if b else 'a missing one'), not a and not b, {'obj1': a, 'obj2': b}, {}, {})
    both = {'obj1': True, 'obj2': True}
    for x in ('(type of obj1==type of obj2)',):
        check('trees of different classes', False, dict(both, **{x: False}), {'obj1': ('X',), 'obj2': ('Y',)}, {})
    both['(type of obj1==type of obj2)'] = True
    for cls in ('TiNumber<int', 'TiNumber<unsigned int', 'TiNumber<float', 'TiBoolBase', 'TiStrBase', 'TiWStrBase'):
        for same in (True, False):
            v = dict(both)
            for g in ('get', 'getStr', 'getWStr'):
                v['(obj1.%s==obj2.%s)' % (g, g)] = same
            check('two values of class %s that are %s' % (cls, 'equal' if same else 'different'), same, v, {'obj1': (cls,), 'obj2': (cls,)}, {})
    forms = [(), ('Binding',), ('Containing',), ('MapContaining', 'Containing'), ('Binding', 'Containing'), ('Binding', 'MapContaining', 'Containing')]
    for k in forms:
        kinds = {'obj1': k or ('Nothing',), 'obj2': k or ('Nothing',)}
        for cnt in (0, 1, 2, 3):
            def counts(m1, m2, e1, e2):
                return {'members obj1': m1, 'members obj2': m2, 'elements obj1': e1, 'elements obj2': e2}
            base = dict(both, **counts(cnt, cnt, cnt, cnt))
            for i in range(cnt):
                base['(K%d1==K%d2)' % (i, i)] = True
            nm = 'two trees with %d %s' % (cnt, ' and '.join({'Binding': 'members', 'Containing': 'elements', 'MapContaining': 'names'}[x] for x in k) or 'parts')
            check(nm + ' that are all equal', True, base, kinds, {})
            for i in range(cnt):
                if 'Binding' in k:
                    check('%s of which member %d differs' % (nm, i), False, dict(base, **{'same M%d' % i: False}), kinds, {})
                if 'Containing' in k:
                    check('%s of which element %d differs' % (nm, i), False, dict(base, **{'same E%d' % i: False}), kinds, {})
                if 'MapContaining' in k:
                    check('%s of which name %d differs' % (nm, i), False, dict(base, **{'(K%d1==K%d2)' % (i, i): False}), kinds, {})
            for d in (1, -1):
                if cnt + d < 0:
                    continue
                if 'Binding' in k:
                    check('%s and with %d' % (nm, cnt + d), False, dict(base, **counts(cnt, cnt + d, cnt, cnt)), kinds, {})
                if 'Containing' in k:
                    check('%s and with %d' % (nm, cnt + d), False, dict(base, **counts(cnt, cnt, cnt, cnt + d)), kinds, {})


def merging(chk, prog):
    """Additions that go to an existing definition, or to the place given."""
    # one part
    fns = [f for f in prog.fns.values() if f.q == AST + 'addPossiblyMergeableElement' and len(f.params) == 5]
    if len(fns) != 1:
        raise Broken('addPossiblyMergeableElement')
    fn = fns[0]
    for kind, index, cnt in itertools.product(('Definition', 'MergeDefinition', 'MergeList', 'Other'), (-1, 0, 3), (0, 1, 2, 3)):
        if kind != 'MergeList' and cnt:
            continue
        n = mn(fn)
        w = MW(n, ('addElement', 'insertElement', 'mergeDefinition'), {'src.isToMerge': kind == 'MergeDefinition'},
               {'src': {'MergeDefinition': 'Definition'}.get(kind, kind)}, {'src': [el('E%d' % i) for i in range(cnt)]})
        what = 'adding a %s %s' % ({'MergeDefinition': 'definition to be merged', 'MergeList': 'merge list of %d' % cnt}.get(kind, kind.lower()), 'at the end' if index == -1 else 'at %d' % index)
        if kind == 'MergeDefinition':
            steps = [('mergeDefinition(src, target, INDEX, seeker, noticeStore)', '', True)]
        else:
            steps = []
            for i, x in enumerate(['E%d' % i for i in range(cnt)] if kind == 'MergeList' else ['src']):
                steps.append(('target.addElement(%s)' % x if index == -1 else 'target.insertElement(%d, %s)' % (index + i, x), ''))

        def text(e, n=n):
            a = [n.t(x) for x in e.args]
            if sname(e.name) == 'mergeDefinition':
                a[2] = 'INDEX'
            return '%s%s(%s)' % (n.t(e.obj) + '.' if e.obj is not None else '', sname(e.name), ', '.join(a))
        idx = [p for p in fn.params if 'Int' in p['t'] or 'int' in p['t']][0]
        args = [C(str(index)) if p is idx else ('v', p['d'], 0) for p in fn.params]
        outs = Walk(prog, w).run(fn, args=args)
        protocol(chk, fn, outs, n, 'merge:add', what, steps, text=text)
        for o in outs:
            if o.kind == 'return' and kind != 'MergeDefinition':
                v = final(o, idx['d'].split('#')[0])
                x = evalt(v, w.atom) if v is not None else None
                want = index if index == -1 else index + len(steps)
                if x != want:
                    chk.violation('merge:index', fn.loc(o.node), '%s leaves the place for the next part at %s; it must be %d' % (what, n.t(v) if v is not None else '?', want))
    # several parts
    fns = [f for f in prog.fns.values() if f.q == AST + 'addPossiblyMergeableElements' and len(f.params) == 5]
    if len(fns) != 1:
        raise Broken('addPossiblyMergeableElements')
    fn = fns[0]
    for cnt in (0, 1, 2, 3):
        n = mn(fn)
        w = MW(n, ('addElement', 'insertElement', 'addPossiblyMergeableElement'), {}, {}, {'src': [el('E%d' % i) for i in range(cnt)]})
        steps = [('addPossiblyMergeableElement(E%d, target, INDEX, seeker, noticeStore)' % i, '', True) for i in range(cnt)]

        def text2(e, n=n):
            a = [n.t(x) for x in e.args]
            if len(a) == 5:
                a[2] = 'INDEX'
            return '%s%s(%s)' % (n.t(e.obj) + '.' if e.obj is not None else '', sname(e.name), ', '.join(a))
        protocol(chk, fn, ways(prog, fn, w), n, 'merge:all', 'adding %d parts' % cnt, steps, text=text2)
    for nm in ('addPossiblyMergeableElement', 'addPossiblyMergeableElements'):
        for f in [f for f in prog.fns.values() if f.q == AST + nm and len(f.params) == 4]:
            n = mn(f)
            w = MW(n, (nm,))
            outs = ways(prog, f, w)
            protocol(chk, f, outs, n, 'merge:end', nm + ' at the end', [('%s(src, target, -1, seeker, noticeStore)' % nm, '', True)])
    # a definition to be merged
    fn = prog.fn(AST + 'mergeDefinition')
    for cand, index, mods, tmods, isnode in itertools.product(('none', 'unmergeable', 'one', 'two'), (-1, 0, 2), (None, 0, 1, 2), (True, False), ('def', 'node', None)):
        if cand in ('none', 'unmergeable') and (mods is not None or tmods or isnode != 'def'):
            continue
        if isnode != 'def' and mods == 0:
            continue
        n = mn(fn, {'def.getModifiers': 'MODS', 'TARGET.getOwner': 'OWNER', 'OWNER.getModifiers': 'OWNERMODS'})
        act = [(el('USE'), el('TARGET'))] + ([] if cand == 'none' else [(el('MATCH'), el('TARGET'))] + ([(el('MATCH'), el('TARGET2'))] if cand == 'two' else []))
        kinds = {'TARGET': ('Mergeable',) + (('Node',) if isnode else ()) if cand != 'unmergeable' else ('Node',), 'OWNER': 'Definition' if isnode == 'def' else 'Scope',
                 'TARGET2': ('Mergeable', 'Node')}
        values = {'(TARGET_MATCH==MATCH)': True, '(TARGET_MATCH==USE)': False, 'MODS': mods is not None, 'OWNERMODS': tmods}
        for sz in range(3):
            pass
        w = MW(n, ('addElement', 'insertElement', 'merge', 'add', 'setModifiers', 'foreach', 'extForeach'), values, kinds,
               {'MODS': [el('m%d' % i) for i in range(mods or 0)]}, candidates=act)
        steps = []
        ret = True
        if cand == 'none':
            steps.append(('target.addElement(def)' if index == -1 else 'target.insertElement(%d, def)' % index, ''))
        elif cand == 'unmergeable':
            steps.append(('noticeStore.add(IncompatibleDefMergeNotice(findSourceLocation(def)))', ''))
            ret = 0
        else:
            if isnode == 'def' and mods is not None:
                if not tmods:
                    steps.append(('OWNER.setModifiers(MODS)', ''))
                else:
                    steps += [('OWNERMODS.add(m%d)' % i, '') for i in range(mods)]
            steps.append(('TARGET.merge(def.getTarget, seeker, noticeStore)', '', True))

        def text3(e, n=n):
            s = sname(e.name)
            a = [n.t(x) for x in e.args]
            if s in ('foreach', 'extForeach'):
                fl = ' '.join(a)
                return 'search %s%s' % ('target' if 'target' in a[1] else a[1], ' itself' if all(x in fl for x in ('SKIP_OWNERS', 'SKIP_OWNED', 'SKIP_USES')) else ' ' + a[-1])
            return '%s%s(%s)' % (n.t(e.obj) + '.' if e.obj is not None else '', s, ', '.join(a))
        idx = [p for p in fn.params if p['d'].startswith('index')]
        args = [C(str(index)) if p in idx else ('v', p['d'], 0) for p in fn.params]
        what = 'merging a definition with %s modifiers into %s' % ('no' if mods is None else mods, {'none': 'a scope that has none', 'unmergeable': 'something that takes no additions',
                                                                                               'one': 'another', 'two': 'the first of two'}[cand])
        outs = Walk(prog, w).run(fn, args=args)
        protocol(chk, fn, outs, n, 'merge:def', what, steps, ret=ret, text=text3, any_order=['search target itself'])
    # what merges
    for cls, kinds_, tgt in (('UserType', {'Block': 'src', 'UserType': 'src.getBody', 'Function': None}, 'self.getBody'), ('Module', {'Block': 'src', 'Module': 'src', 'Function': None}, 'self')):
        fn = prog.fn('Spp::Ast::%s::merge' % cls)
        for k, frm in kinds_.items():
            n = mn(fn, {'this.getBody': 'self.getBody'})
            w = MW(n, ('addPossiblyMergeableElement', 'addPossiblyMergeableElements', 'add'), {}, {'src': k})
            steps = [('addPossiblyMergeableElements(%s, %s, seeker, noticeStore)' % (frm, tgt), '', True)] if frm else [('noticeStore.add(IncompatibleDefMergeNotice(findSourceLocation(src)))', '')]
            outs = ways(prog, fn, w)
            protocol(chk, fn, outs, n, 'merge:' + cls, 'merging a %s into a %s' % (k, cls), steps, ret=True if frm else 0,
                     text=lambda e, n=n: re.sub(r'\bthis\b', 'self', '%s%s(%s)' % (n.t(e.obj) + '.' if e.obj is not None else '', sname(e.name), ', '.join(n.t(a) for a in e.args))))
    fn = prog.fn('Spp::Ast::Template::merge')
    for mergeable, cnt in itertools.product((True, False), (0, 1, 2, 3)):
        n = mn(fn, {'this.body': 'BODY', 'self.body': 'BODY', 'self.instances': 'INST'})
        kinds = {'BODY': 'Mergeable' if mergeable else 'Function'}
        for i in range(cnt):
            kinds['I%d[0]' % i] = 'Mergeable'
        w = MW(n, ('merge', 'clone', 'add'), {}, kinds, {'INST': [el('I%d' % i) for i in range(cnt)]})
        steps = [('BODY.merge(src)', 'stop')] if mergeable else [('noticeStore.add(IncompatibleDefMergeNotice(findSourceLocation(src)))', '')]
        if mergeable:
            for i in range(cnt):
                steps.append(('I%d.get(0).merge(clone(src,findSourceLocation(I%d)))' % (i, i), 'stop'))

        def text4(e, n=n):
            if sname(e.name) == 'clone':
                return '-'
            if sname(e.name) == 'merge':
                return '%s.merge(%s)' % (re.sub(r'\[(\d+)\]', r'.get(\1)', n.t(e.obj)), n.t(e.args[0]))
            return '%s%s(%s)' % (n.t(e.obj) + '.' if e.obj is not None else '', sname(e.name), ', '.join(n.t(x) for x in e.args))
        protocol(chk, fn, ways(prog, fn, w), n, 'merge:Template', 'merging into a template with %d instances' % cnt, steps, ret=True if mergeable else 0, text=text4, quiet=('-',))
