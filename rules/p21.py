"""P21: operations can be replaced and given back; a library taken out leaves the compiler as it was."""
import itertools
from tab import *

TITLE = 'Operations can be replaced and given back, and a library taken out leaves nothing'
TECHNIQUE = ('comparison of every way through the operation tables, constructors, extensions and their removal with one reference; matching of everything the grammar '
             'and the library add with what they remove')
NOTE = ('All classes with replaceable operations, all extensions, the grammar and the built-in definitions of the Spp library, and the functions that chain and unchain '
        'replacements, for every chain of up to three replacements and every position.')
RULE = ('every operation is bound, each to a function of its own, in every constructor; what extend sets, unextend gives back; what is added to grammar and root scope is removed; '
        'a replacement given back leaves the others in their order')
GF = 'Spp::Grammar::SppFactory::'
LG = 'Spp::LibraryGateway::'


def run(chk, prog):
    operations(chk, prog)
    extensions(chk, prog)
    library(chk, prog)
    grammar(chk, prog)
    custom(chk, prog)
    chains(chk, prog)
    caches(chk, prog)
    chk.floor('operations', 320)
    chk.floor('constructors', 20)
    chk.floor('replaced operations', 16)
    chk.floor('grammar additions', 120)
    chk.floor('built-in definitions', 13)
    chk.floor('situations', 90)


def walk(prog, fn, steps, **kw):
    w = Tab(WNorm(fn), steps, **kw)
    return w.norm, [o for o in Walk(prog, w).run(fn) if o.kind != 'throw']


def cached(c):
    return [f for f in c['fields'] if re.match(r'(?:[\w:]+::)?\w*BindingCache<', f['t'])]


# --- the tables ---------------------------------------------------------------

def operations(chk, prog):
    for cls, c in sorted(prog.classes.items()):
        own = cached(c)
        if not own or '::Tests' in cls or '<' in cls:
            continue
        key = 'operations:' + cls
        names = [f['n'] for f in own]
        at = '%s:%s' % (c.get('f', '?'), c.get('l', '?'))
        used = {}
        for f in own:
            chk.count('operations')
            lit = [x['v'] for x in f.get('nodes', ()) if x['k'] == 'StringLiteral']
            if len(lit) == 1:
                if lit[0] in used:
                    chk.violation(key, '%s:%s' % (c.get('f', '?'), f['l']), '%s: the operations %s and %s are kept under one name' % (cls, used[lit[0]], f['n']))
                used[lit[0]] = f['n']
        # each one is a function of its own
        by = {}
        for n in names:
            for t, fn, i in prog.bindings().get(cls + '::' + n, []):
                if t is None or 'Extension' in fn.q:
                    continue
                by.setdefault(t[1], {})[n] = (fn, i)
                s = sname(t[0]).lstrip('_')
                if s != n and s in names:
                    chk.violation(key, fn.loc(i), '%s: the operation %s is done by %s' % (cls, n, sname(t[0])))
        for u, ns in by.items():
            if len(ns) > 1:
                fn, i = list(ns.values())[-1]
                chk.violation(key, fn.loc(i), '%s: one function does the operations %s' % (cls, ' and '.join(sorted(ns))))
        inits(chk, prog, cls, names, key, at)
    for q in sorted(prog.byq):
        cls = q.rsplit('::', 1)[0]
        if q.endswith('::initBindings') and cls in prog.classes and '::Tests' not in cls:
            constructors(chk, prog, cls, prog.classes[cls], 'operations:' + cls)


def members(n, t):
    return [re.sub(r'^&?self\.', '', x) for x in re.findall(r'&?self\.[\w.]+', n.t(t))]


def inits(chk, prog, cls, names, key, at):
    """What initBindingCaches prepares."""
    fns = [f for f in prog.byq.get(cls + '::initBindingCaches', ()) if f.cfg.get('blocks')] or [f for f in prog.byq.get(cls + '::' + sname(cls), ()) if len(f.params) == 1 and not copies(f, cls)]
    if not fns:
        chk.violation(key, at, '%s has operations and prepares none of them' % cls)
        return
    for fn in fns:
        n, outs = walk(prog, fn, ('initBindingCaches',))
        for o in outs:
            got = [m for e in o.events for a in e.args[1:] for m in members(n, a)]
            for m in sorted(set(names) - set(got)):
                chk.violation(key, fn.loc(o.node), '%s: the operation %s is never prepared' % (cls, m))
            own = [n.t(strip_ref(e.args[0])) for e in o.events if e.args]
            if own not in (['self'], ['self.owner'], ['o']):
                chk.violation(key, fn.loc(o.node), '%s: its operations are prepared for %s' % (cls, ', '.join(own) or 'nobody'))
    for fn in [f for f in prog.byq.get(cls + '::initBindings', ()) if f.cfg.get('blocks')]:
        have = {sname(q) for q, l in prog.bindings().items() for t, f, i in l if f is fn and q.rsplit('::', 1)[0] == cls}
        for m in names:
            if m not in have:
                chk.violation(key, fn.loc(), '%s: nothing does the operation %s' % (cls, m))
        n, outs = walk(prog, fn, ())
        for o in outs:
            if o.facts:
                chk.violation(key, fn.loc(o.node), '%s: its operations depend on %s' % (cls, ', '.join(n.t(p) for p in o.facts)))


def copies(f, cls):
    t = f.params[0]['t'] if f.params else ''
    return t.rstrip('& ').replace('const ', '') == cls


def constructors(chk, prog, cls, c, key):
    """A new object has its operations; one derived from another has those of the other, and works on the same things."""
    ctors = [fn for fn in prog.byq.get(cls + '::' + sname(cls), ()) if not copies(fn, cls) and fn.cfg.get('blocks')]
    ptrs = [f for f in c['fields'] if f['t'].endswith('*')]
    # what an object works on: given when it is made, or later
    given = {f['n'] for f in ptrs if prog.byq.get('%s::set%s' % (cls, f['n'][0].upper() + f['n'][1:]))}
    for fn in ctors:
        n, outs = built(prog, cls, fn)
        if not [p for p in fn.params if p['t'].replace('const ', '').rstrip('* ') == cls]:
            given |= {f for f, i in written(fn).items() if any(x['k'] == 'DeclRefExpr' and x.get('dk') == 'param' for x in under(fn, i))}
            for o in outs:
                given |= {sname(k[2]) for k, v in o.state.heap.items() if k[0] == 'f' and n.t(k).startswith('self.') and n.t(strip_ref(v)) in {p['d'].split('#')[0] for p in fn.params}}
    given &= {f['n'] for f in ptrs}
    plain = [f for f in ptrs if f['n'] in given]
    for fn in ctors:
        chk.count('constructors')
        n, outs = built(prog, cls, fn)
        parent = [p['d'] for p in fn.params if p['t'].replace('const ', '').rstrip('* ') == cls]
        for o in outs:
            seq = [(sname(e.name), n.t(strip_ref(e.obj)) if e.obj is not None else '', [n.t(strip_ref(a)) for a in e.args]) for e in o.events]
            mine = [s for s, ob, a in seq if ob == 'self' or s == 'initBindingCaches' and a and a[0] == 'self']
            need = ['initBindingCaches'] if prog.byq.get(cls + '::initBindingCaches') else []
            need += ['inheritBindings'] if parent else ['initBindings']
            pos = [mine.index(x) if x in mine else None for x in need]
            what = 'derived from another' if parent else 'made anew'
            for x, i in zip(need, pos):
                if i is None:
                    chk.violation(key, fn.loc(o.node), '%s: one %s %s' % (cls, what, {'initBindingCaches': 'does not prepare its operations', 'initBindings': 'has nothing to do its operations',
                                                                                       'inheritBindings': 'does not have the operations of the other'}[x]))
            if None not in pos and pos != sorted(pos):
                chk.violation(key, fn.loc(o.node), '%s: one %s gets its operations before they are prepared' % (cls, what))
            if parent:
                if any('ObjTiInterfaceList' in f['t'] for f in c['fields']) and 'inheritInterfaces' not in mine:
                    chk.violation(key, fn.loc(o.node), '%s: one %s does not have the extensions of the other' % (cls, what))
                for s, ob, a in seq:
                    if s in ('inheritBindings', 'inheritInterfaces') and len(a) == 1 and ob == 'self' and not parent_of(a[0], fn, o, n, parent):
                        chk.violation(key, fn.loc(o.node), '%s: one %s has the operations of %s' % (cls, what, a[0]))
                heap = {n.t(k): v for k, v in o.state.heap.items() if k[0] == 'f'}
                for f in plain:
                    v = heap.get('self.' + f['n'])
                    if v is None and f['n'] in written(fn):
                        continue
                    if v is None:
                        chk.violation(key, fn.loc(o.node), '%s: one %s has no %s' % (cls, what, f['n']))
                    else:
                        t = n.t(strip_ref(v))
                        g = next((x['n'] for x in plain if x is not f and t.lower() in (q.lower() + s for q in (parent[0].split('#')[0],) for s in ('.get' + x['n'], '.' + x['n']))), None)
                        if g:
                            chk.violation(key, fn.loc(o.node), '%s: one %s has the %s of the other as its %s' % (cls, what, g, f['n']))


def written(fn):
    return {sname(x['m']): x['i'] for x in fn.o.get('inits') or () if x.get('m') and x.get('w')}


def under(fn, i):
    r, todo = [], [i]
    while todo:
        x = fn.nodes[todo.pop()]
        r.append(x)
        todo += [y for y in x.get('c', ()) if isinstance(y, int) and y >= 0]
    return r


class Making(Tab):
    def inline(self, callee, name, node):
        return callee.q.rsplit('::', 1)[0] == self.cls and callee.n.startswith('set')


def built(prog, cls, fn):
    w = Making(WNorm(fn), ('initBindingCaches', 'initBindings', 'inheritBindings', 'inheritInterfaces'))
    w.cls = cls
    return w.norm, [o for o in Walk(prog, w).run(fn) if o.kind != 'throw']


def parent_of(t, fn, o, n, parent):
    """Whether the text names the given object (its name here or in another constructor)."""
    return t == 'parent' or '.' not in t and '(' not in t and t not in ('self', '0')


# --- extensions ----------------------------------------------------------------

class Ext(Tab):
    """What is set and given back."""
    def __init__(self, norm):
        Tab.__init__(self, norm, ('reset', 'remove', 'addDynamicInterface', 'removeDynamicInterface'))

    def call_value(self, w, st, name, node, obj, args):
        if sname(name) in ('ti_cast', 'ti_cast_get', 's_cast') and obj is None and len(args) == 1:
            return ('val', 'EXT')
        return Tab.call_value(self, w, st, name, node, obj, args)


def extensions(chk, prog):
    for cls in sorted({q.rsplit('::', 1)[0] for q in prog.byq if q.endswith('::unextend')}):
        if '::Tests' in cls:
            continue
        key = 'extension:' + cls
        ext, un = prog.byq.get(cls + '::extend', ()), prog.byq.get(cls + '::unextend', ())
        ov = next((c for q, c in prog.classes.items() if q == cls + '::Overrides'), None)
        if len(ext) != 1 or len(un) != 1 or ov is None:
            raise Broken('%s: extend, unextend and Overrides are not found' % cls)
        fe, fu = ext[0], un[0]
        target = fe.params[0]['d'].split('#')[0]
        ne, oe = walk(prog, fe, ('addDynamicInterface',))
        caches_ = {f['n'] for f in cached(prog.classes[cls])}
        for o in oe:
            taken, given = {}, set()
            for k, v in o.state.heap.items():
                if k[0] != 'f':
                    continue
                t, v = ne.t(k), strip_ref(v)
                m = re.match(r'Overrides\(\)\.(\w+)$', t)
                if m:
                    chk.count('replaced operations')
                    s = re.match(r'set\((.*)\.(\w+),&?([\w:]+)\)$', ne.t(v)) or re.match(r'set\((\w+)\("(\w+)"\),&?([\w:]+)\)$', ne.t(v))
                    if not s:
                        chk.violation(key, fe.loc(o.node), '%s: what is kept as %s is %s; it must be a replaced operation' % (cls, m.group(1), ne.t(v)))
                        continue
                    taken[m.group(1)] = (s.group(1), s.group(2))
                    if sname(s.group(3)).lstrip('_') != s.group(2) and sname(s.group(3)).lstrip('_') in {x[1] for x in taken.values()} | caches_:
                        chk.violation(key, fe.loc(o.node), '%s: the operation %s is replaced by %s' % (cls, s.group(2), sname(s.group(3))))
                else:
                    m = re.match(r'(.*)\.(\w+)$', t)
                    if m and m.group(2) in caches_ and m.group(1) != 'Overrides()':
                        given.add(m.group(2))
            for f in ov['fields']:
                if f['n'] not in taken:
                    chk.violation(key, fe.loc(o.node), '%s: nothing is kept as %s' % (cls, f['n']))
            seen = {}
            for k, x in taken.items():
                if x in seen:
                    chk.violation(key, fe.loc(o.node), '%s: the operation %s is replaced twice' % (cls, x[1]))
                seen[x] = k
            given -= {x[1] for x in taken.values()}
            have = {x[1] for x in taken.values()} | given
            for f in sorted(caches_ - have):
                chk.violation(key, fe.loc(o.node), '%s: nothing does %s' % (cls, f))
            added = [ne.t(strip_ref(e.obj)) for e in o.events]
            if added != [target]:
                chk.violation(key, fe.loc(o.node), '%s: the extension is added to %s' % (cls, ', '.join(added) or 'nothing'))
            if ne.t(strip_ref(o.ret)) != 'Overrides()':
                chk.violation(key, fe.loc(o.node), '%s: what was replaced is not handed out' % cls)
            unextend(chk, prog, cls, key, fu, taken, given, target)


def unextend(chk, prog, cls, key, fn, taken, given, target):
    w = Ext(WNorm(fn))
    n = w.norm
    mine, theirs = fn.params[0]['d'].split('#')[0], fn.params[1]['d'].split('#')[0]
    for o in Walk(prog, w).run(fn):
        if o.kind == 'throw':
            continue
        back, gone_ = {}, []
        end = None
        for i, e in enumerate(o.events):
            s = sname(e.name)
            ob = n.t(strip_ref(e.obj)) if e.obj is not None else ''
            if s == 'reset' and len(e.args) == 1:
                k = n.t(strip_ref(e.args[0]))
                m = re.match(re.escape(theirs) + r'\.(\w+)$', k)
                f = ob.rsplit('.', 1)
                if not m:
                    chk.violation(key, fn.loc(e.node), '%s: %s is given back %s, which was not kept' % (cls, ob, k))
                    continue
                if m.group(1) in back:
                    chk.violation(key, fn.loc(e.node), '%s: %s is given back twice' % (cls, m.group(1)))
                back[m.group(1)] = f
                want = taken.get(m.group(1))
                if want and (f[1] != want[1] or (want[0] == target) != (f[0] == mine) and not f[0] in ('EXT', mine)):
                    chk.violation(key, fn.loc(e.node), '%s: what was replaced in %s is given back to %s' % (cls, want[1], ob))
                if end is not None:
                    chk.violation(key, fn.loc(e.node), '%s: %s is given back after the extension is gone' % (cls, ob))
            elif s == 'remove' and not e.args:
                gone_.append(ob.rsplit('.', 1)[-1])
                if end is not None:
                    chk.violation(key, fn.loc(e.node), '%s: %s is taken out after the extension is gone' % (cls, ob))
            elif s == 'removeDynamicInterface':
                if ob != mine:
                    chk.violation(key, fn.loc(e.node), '%s: the extension is taken out of %s' % (cls, ob))
                end = i
        for k, v in o.state.heap.items():
            if k[0] == 'f' and n.t(strip_ref(v)) in ('null', '0'):
                gone_.append(sname(k[2]))
        for k in sorted(set(taken) - set(back)):
            chk.violation(key, fn.loc(o.node), '%s: the operation %s is not given back' % (cls, taken[k][1]))
        for k in sorted(given - set(gone_)):
            chk.violation(key, fn.loc(o.node), '%s: %s is not taken out' % (cls, k))
        if end is None:
            chk.violation(key, fn.loc(o.node), '%s: the extension is not taken out' % cls)


# --- the library ----------------------------------------------------------------

TOP = re.compile(r'^\s*(?:@\S+\s+)?(?:module|def|function|class|عرّف|عرف)\s+([^\s:؛;{]+)')


def globaldefs(text):
    """Names that source text defines at its root."""
    r, depth, item = [], 0, ''
    for ch in text:
        if ch == '{':
            if depth == 0:
                m = TOP.match(item)
                m and r.append(m.group(1))
                item = '\x00'
            depth += 1
        elif ch == '}':
            depth -= 1
        elif ch in ';؛' and depth == 0:
            m = TOP.match(item)
            m and r.append(m.group(1))
            item = ''
        elif depth == 0:
            item += ch
    return set(r)


def named(prog, fn, op):
    """Names set or removed by way of an identifier."""
    n, outs = walk(prog, fn, ('setValue', op))
    res = []
    for o in outs:
        cur, r = None, []
        for e in o.events:
            if sname(e.name) == 'setValue':
                cur = n.t(strip_ref(e.args[0])).strip('"')
            elif sname(e.name) == op:
                r.append((cur, n.t(strip_ref(e.args[1])) if len(e.args) > 1 else '', e))
                cur = None
        res.append((o, r))
    return res


def library(chk, prog):
    key = 'library'
    fi, fu = prog.fn(LG + 'initialize'), prog.fn(LG + 'uninitialize')
    n, oi = walk(prog, fi, ('extend', 'createGrammar', 'createBuiltInTypes', 'createGlobalDefs'))
    ext = {}
    for o in oi:
        heap = {n.t(strip_ref(v)): n.t(k) for k, v in o.state.heap.items() if k[0] == 'f'}
        for e in o.events:
            if sname(e.name) == 'extend':
                c = e.name.rsplit('::', 1)[0]
                k = [n.t(kk) for kk, v in o.state.heap.items() if kk[0] == 'f' and strip_as(v) == strip_as(e.res)]
                if len(k) != 1:
                    chk.violation(key, fi.loc(e.node), 'what %s replaces is kept %s' % (sname(c), 'nowhere' if not k else 'twice'))
                ext[c] = (n.t(strip_ref(e.args[0])), k[0] if k else None)
    n, ou = walk(prog, fu, ('unextend', 'cleanGrammar', 'reset', 'removeBuiltInTypes', 'removeGlobalDefs', 'tryRemove'))
    for o in ou:
        got, late = {}, False
        for e in o.events:
            s = sname(e.name)
            if s == 'unextend':
                c = e.name.rsplit('::', 1)[0]
                t = (n.t(strip_ref(e.args[0])), n.t(strip_ref(e.args[1])))
                if c in got:
                    chk.violation(key, fu.loc(e.node), '%s is taken out twice' % sname(c))
                got[c] = t
                if ext.get(c) and t != ext[c]:
                    chk.violation(key, fu.loc(e.node), '%s is taken out of %s with %s; it was put into %s with %s' % ((sname(c),) + t + ext[c]))
                if late:
                    chk.violation(key, fu.loc(e.node), '%s is taken out after what it works with has ended' % sname(c))
            elif s == 'reset':
                late = True
        for c in sorted(set(ext) - set(got)):
            chk.violation(key, fu.loc(o.node), '%s is not taken out' % sname(c))
        if not any(sname(e.name) == 'cleanGrammar' for e in o.events):
            chk.violation(key, fu.loc(o.node), 'the grammar is not taken out')
    if not ext:
        raise Broken('the extensions of the library are not found')
    # built-in definitions
    fc, fr = prog.fn(LG + 'createBuiltInTypes'), prog.fn(LG + 'removeBuiltInTypes')
    made = {}
    for o, l in named(prog, fc, 'doSet'):
        for x, root, e in l:
            chk.count('built-in definitions')
            if x is None or x in made:
                chk.violation(key, fc.loc(e.node), 'a built-in type is set under %s' % ('no name of its own' if x is None else 'the name %s, which has one' % x))
            made[x] = root
    removed(chk, prog, key, fr, made)
    fc, fr = prog.fn(LG + 'createGlobalDefs'), prog.fn(LG + 'removeGlobalDefs')
    made = {}
    n, outs = walk(prog, fc, ('processString',))
    for o in outs:
        for e in o.events:
            t = strip_ref(e.args[0])
            for x in globaldefs(t[1] if t[0] == 's' else n.t(t)):
                chk.count('built-in definitions')
                made[x] = None
    if not made:
        raise Broken('the global definitions of the library are not found')
    removed(chk, prog, key, fr, made)


def removed(chk, prog, key, fn, made):
    for o, l in [(o, a + b) for (o, a), (_, b) in zip(named(prog, fn, 'tryRemove'), named(prog, fn, 'doRemove'))]:
        got = {x: r for x, r, e in l}
        for x in sorted(k for k in made if k not in got):
            chk.violation(key, fn.loc(o.node), 'the definition of %s stays when the library is taken out' % x)
        for x in made:
            if x in got and made[x] is not None and made[x] != got[x]:
                chk.violation(key, fn.loc(o.node), 'the definition of %s is removed from %s; it is in %s' % (x, got[x], made[x]))


# --- the grammar ----------------------------------------------------------------

GSTEPS = ('set', 'createCommand', 'createProdGroup', 'addProdsToGroup', 'addKeywords', 'addKeyword', 'removeKeywords', 'removeKeyword', 'remove', 'tryRemove', 'removeProdsFromGroup')


def strings(t):
    """All text in a term."""
    if isinstance(t, tuple):
        if t and t[0] == 's':
            return [t[1]]
        return [x for y in t for x in strings(y)]
    return []


def items(t):
    """References in a list of productions, each by its text."""
    return strings(t)


def grammar(chk, prog):
    key = 'grammar'
    fc, fr = prog.fn(GF + 'createGrammar'), prog.fn(GF + 'cleanGrammar')
    n, outs = walk(prog, fc, GSTEPS)
    add = {}
    for o in outs:
        for e in o.events:
            s = sname(e.name)
            a = e.args
            if s in ('set', 'createCommand', 'createProdGroup'):
                for x in strings(a[0])[:1]:
                    add[('entry', x)] = e
                    chk.count('grammar additions')
            elif s == 'addProdsToGroup':
                g = strings(a[0])[0]
                for x in items(a[1]):
                    add[('production of ' + g, x)] = e
                    chk.count('grammar additions')
            elif s in ('addKeywords', 'addKeyword'):
                for x in strings(a):
                    add[('keyword', x)] = e
                    chk.count('grammar additions')
    n, outs = walk(prog, fr, GSTEPS + ('cleanCustomGrammarAndCommands', 'clearCaches', 'get'))
    for o in outs:
        sub, back = set(), {}
        kept = set()
        for e in o.events:
            s = sname(e.name)
            a = e.args
            if s in ('remove', 'tryRemove'):
                sub |= {('entry', x) for x in strings(a[0])[:1]}
            elif s == 'set':
                x = strings(a[0])[0]
                back[x] = strings([y.args for y in o.events if y.res in subterms(a[1])] or a[1:])
                for y in back[x]:
                    if ('entry', y) in sub:
                        chk.violation(key, fr.loc(e.node), 'grammar entry %s is set back to %s after that is removed' % (x, y))
            elif s == 'removeProdsFromGroup':
                sub |= {('production of ' + strings(a[0])[0], x) for x in items(a[1])}
            elif s in ('removeKeywords', 'removeKeyword'):
                sub |= {('keyword', x) for x in strings(a)}
        for (k, x), e in sorted(add.items()):
            if (k, x) in sub or k == 'entry' and (x in back or any(x.startswith(y + '.') for kk, y in sub if kk == 'entry')):
                continue
            chk.violation(key, fr.loc(o.node), 'the %s "%s" stays when the grammar is taken out' % (k, x))
        for k, x in sorted(sub - set(add)):
            chk.violation(key, fr.loc(o.node), 'the %s "%s" is taken out although it was not put in' % (k, x))


def subterms(t):
    r, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            r.add(x)
            todo += [y for y in x if isinstance(y, tuple)]
    return r


def custom(chk, prog):
    """Commands and grammar that programs add."""
    fr = prog.fn(GF + 'cleanCustomGrammarAndCommands')
    lists = {'self.customCommandKeywords': ['k0', 'k1'], 'self.customCommandQualifiers': ['c0', 'c1'], 'self.customGrammarQualifiers': ['g0', 'g1']}
    w = Tab(WNorm(fr), GSTEPS, lists=lists)
    n = w.norm
    chk.count('situations')
    for o in Walk(prog, w).run(fr):
        if o.kind == 'throw':
            continue
        got = [(sname(e.name), [n.t(strip_ref(a)) for a in e.args]) for e in o.events]
        kw = [a[0] for s, a in got if s in ('removeKeyword',)]
        en = [a[0] for s, a in got if s in ('tryRemove', 'remove')]
        pr = [a for s, a in got if s == 'removeProdsFromGroup']
        for x in ('k0', 'k1'):
            if x not in kw and not any(x in a[0] for s, a in got if s == 'removeKeywords'):
                chk.violation('custom', fr.loc(o.node), 'of two keywords of added commands, the %s stays' % ('first' if x == 'k0' else 'second'))
        for x in ('c0', 'c1', 'g0', 'g1'):
            if not any(x in t and '"root.Main."' in t for t in en):
                chk.violation('custom', fr.loc(o.node), 'of two added %s, the %s stays' % ('commands' if x[0] == 'c' else 'grammar entries', 'first' if x[1] == '0' else 'second'))
        for x in ('c0', 'c1'):
            if not any('"root.Main.SubjectCmdGrp"' in a[0] and x in a[1] and '"module."' in a[1] for a in pr):
                chk.violation('custom', fr.loc(o.node), 'of two added commands, the %s stays in the group' % ('first' if x[1] == '0' else 'second'))
    fc = prog.fn(GF + 'createCustomGrammar')
    n, outs = walk(prog, fc, ('set', 'add', 'createShared'), kinds={'S1': ('Binding',)})
    for o in outs:
        chk.count('situations')
        s = [n.t(strip_ref(e.args[0])) for e in o.events if sname(e.name) == 'set' and '"root.Main."' in n.t(e.args[0])]
        a = [n.t(strip_ref(e.args[0])) for e in o.events if sname(e.name) == 'add' and n.t(strip_ref(e.obj)).endswith('customGrammarQualifiers')]
        if bool(s) != bool(a):
            chk.violation('custom', fc.loc(o.node), 'a grammar entry is %s' % ('added and not kept in mind for its removal' if s else 'kept in mind for removal and not added'))
    fc = prog.fn(GF + 'createCustomCommand')
    n, outs = walk(prog, fc, ('createCommand', 'addProdsToGroup', 'add', 'addKeyword'))
    for o in outs:
        chk.count('situations')
        ev = [(sname(e.name), n.t(strip_ref(e.obj)) if e.obj is not None else '', [n.t(strip_ref(a)) for a in e.args]) for e in o.events]
        made = [a[0] for s, ob, a in ev if s == 'createCommand']
        prods = [a for s, ob, a in ev if s == 'addProdsToGroup']
        keep = [a[0] for s, ob, a in ev if s == 'add' and ob.endswith('customCommandQualifiers')]
        kw = [a[0] for s, ob, a in ev if s == 'addKeyword']
        kk = [a[0] for s, ob, a in ev if s == 'add' and ob.endswith('customCommandKeywords')]
        if not (len(made) == len(prods) == len(keep)):
            chk.violation('custom', fc.loc(o.node), 'a command is created %d times, put into a group %d times and kept in mind for its removal %d times' % (len(made), len(prods), len(keep)))
        if len(kw) != len(kk) or any(x != y for x, y in zip(kw, kk)):
            chk.violation('custom', fc.loc(o.node), 'keywords %s of a command are added; %s are kept in mind for their removal' % (', '.join(kw) or 'none', ', '.join(kk) or 'none'))
        ok = n.t(strip_ref(o.ret)) if o.ret else ''
        if (ok == '1') != bool(made):
            chk.violation('custom', fc.loc(o.node), 'it answers %s when the command is %screated' % (ok, '' if made else 'not '))


# --- chains of replacements ------------------------------------------------------

BM = 'Core::Basic::BindingMap::'


class Chain(Tab):
    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        if s == 'getSharedPtr' and obj is None:
            return args[0]
        if s == 'getSuper' and obj is not None:
            t = self.norm.t(strip_ref(obj))
            if t in self.sup:
                return self.give(self.sup[t])
        return Tab.call_value(self, w, st, name, node, obj, args)

    def decide(self, p):
        if p[0] == 'eq':
            a, b = strip_ref(p[1]), strip_ref(p[2])
            if a[0] == b[0] == 'el':
                return a == b
            if 'el' in (a[0], b[0]) and ZERO in (a, b):
                return False
        return Tab.decide(self, p)


def concrete(prog, q):
    l = [f for f in prog.byq.get(q, ()) if f.cfg.get('blocks') and not any('Dependent' in n['k'] or n['k'].startswith('Unresolved') for n in f.nodes)]
    if not l:
        raise Broken('%s is not found' % q)
    return l


def chains(chk, prog):
    for name in ('resetFunction', 'resetFunctionChain', 'updateFunctionChain'):
        l = concrete(prog, BM + name)
        fn = l[0]
        for size, cur, found in itertools.product((1, 2, 3), ('t0', 't1', 't2', 'x', None), (True, False)):
            if cur and cur[0] == 't' and int(cur[1]) >= size or cur is None and name.startswith('reset') or not found and (size, cur) != (1, 't0'):
                continue
            chk.count('situations')
            sup = {'t%d' % i: ('t%d' % (i + 1) if i + 1 < size else None) for i in range(size)}
            sup['x'] = 'y'
            w = Chain(WNorm(fn), ('remove', 'set', 'setSuper', 'create'), get={('self', 'findIndex'): 0 if found else -1, ('self', 'get'): 't0'},
                      kinds={k: ('TiFunctionBase', 'TiFunctionOverride') for k in ('t0', 't1', 't2', 'x', 'NEW')})
            w.sup = sup
            n = w.norm
            params = [p['d'].split('#')[0] for p in fn.params]
            args = [el('NAME'), el(cur) if cur else ZERO] + ([el('NEW')] if len(params) > 2 else [])
            what = 'a chain of %d, %s' % (size, {'t0': 'the newest', 't1': 'the second', 't2': 'the third', 'x': 'one that is not in it', None: 'none'}[cur])
            old = {'t0': sup['t0'], 't1': sup.get('t1'), 't2': sup.get('t2')}.get(cur)
            new = 'NEW'
            if not found or cur == 'x':
                want = None
            elif cur == 't0':
                want = ['self.set(0, %s)' % new if name.startswith('update') else 'self.set(0, %s)' % old if name == 'resetFunction' and old else 'self.remove(0)']
            else:
                before = 't%d' % (int(cur[1]) - 1 if cur else size - 1)
                want = ['%s.setSuper(%s)' % (before, new if name.startswith('update') else '0' if name.endswith('Chain') or not old else old)]
            outs = Walk(prog, w).run(fn, args=args)
            for o in outs:
                got = [('' if sname(e.name) == 'create' else n.t(strip_ref(e.obj)) + '.') + '%s(%s)' % (sname(e.name), ', '.join(arg(n, a) for a in e.args)) for e in o.events]
                if want is None:
                    if o.kind != 'throw':
                        chk.violation('chains', fn.loc(o.node), '%s, %s: it does %s; it must be refused' % (fn.n, what if found else 'an unknown name', ', '.join(got) or 'nothing'))
                    continue
                if o.kind == 'throw':
                    if not unusual(n, o):
                        chk.violation('chains', fn.loc(o.node), '%s, %s: refused' % (fn.n, what))
                    continue
                if got != want:
                    chk.violation('chains', fn.loc(o.node), '%s, %s: it does %s; it must do %s' % (fn.n, what, ', '.join(got) or 'nothing', ', '.join(want)))
    for fn in concrete(prog, BM + 'setFunction'):
        if 'function<' not in fn.params[1]['t']:
            continue
        for found in (True, False):
            chk.count('situations')
            w = Chain(WNorm(fn), ('set', 'create'), get={('self', 'findIndex'): 1 if found else -1, ('self', 'get'): 't0'}, kinds={'t0': ('TiFunctionBase',)})
            w.sup = {}
            n = w.norm
            want = ['create(NEW, t0)' if found else 'create(NEW)', 'set(NAME, S1)']
            for o in Walk(prog, w).run(fn, args=[el('NAME'), el('NEW')]):
                if o.kind == 'throw':
                    continue
                got = ['%s(%s)' % (sname(e.name), ', '.join(arg(n, a) for a in e.args[:2])) for e in o.events]
                if got != want or arg(n, o.ret) != 'S1':
                    chk.violation('chains', fn.loc(o.node), 'replacing an operation that %s: it does %s and gives %s; it must do %s and give the new one' % (
                        'there is' if found else 'is new', ', '.join(got), n.t(o.ret), ', '.join(want)))
        break
    inherited(chk, prog)
    links(chk, prog)


def unusual(n, o):
    """Refused for what was given, not for the chain."""
    return any('NAME' in n.t(p) or 'NEW' in n.t(p) for p in o.facts)


def arg(n, a):
    a = strip_ref(a)
    while a[0] in ('new', 'obj', 'call') and sname(a[1]).split('<')[0] in ('SharedPtr', 'getSharedPtr', 'get', 'function') and len(a[2]) >= 1 and isinstance(a[2][0], tuple):
        a = strip_ref(a[2][0])
    if a[0] in ('new', 'obj') and not a[2]:
        return '0'
    return n.t(a)


def inherited(chk, prog):
    """The operations of the object another is derived from change."""
    fn = prog.fn(BM + 'onBaseContentChanged')
    ops = {x: enum_of(prog, x) for x in ('ADDED', 'WILL_UPDATE', 'UPDATED', 'WILL_REMOVE', 'REMOVED')}
    for op, inh, sup, own in itertools.product(ops, (True, False), (True, False), (True, False)):
        chk.count('situations')
        w = Chain(WNorm(fn), ('resetFunctionChain', 'updateFunctionChain', 'set', 'remove'), get={('self', 'isInherited'): inh, ('self', 'getKey'): 'KEY', ('SRC', 'get'): 'BASE', ('self', 'get'): 'OWN'},
                  kinds={'BASE': ('TiFunctionBase',) if sup else ('TiObject',), 'OWN': ('TiFunctionBase',) if own else ('TiObject',)})
        w.sup = {}
        n = w.norm
        want = []
        if not inh and sup and own:
            want = ['resetFunctionChain(KEY, BASE)'] if op.startswith('WILL') else ['updateFunctionChain(KEY, 0, BASE)'] if op != 'REMOVED' else []
        for o in Walk(prog, w).run(fn, args=[el('SRC'), ops[op], el('I')]):
            if o.kind == 'throw':
                continue
            got = ['%s(%s)' % (sname(e.name), ', '.join(arg(n, a) for a in e.args)) for e in o.events]
            if got != want:
                chk.violation('chains', fn.loc(o.node), 'when the operation of the base is %s (here %s): it does %s; it must do %s' % (
                    {'ADDED': 'added', 'WILL_UPDATE': 'to be replaced', 'UPDATED': 'replaced', 'WILL_REMOVE': 'to be removed', 'REMOVED': 'removed'}[op],
                    'inherited' if inh else 'its own', ', '.join(got) or 'nothing', ', '.join(want) or 'nothing'))
    fn = prog.fn(BM + 'onBaseDetached')
    for inh in itertools.product((True, False), repeat=2):
        chk.count('situations')
        w = Chain(WNorm(fn), ('resetFunctionChain',), get={('self', 'isInherited'): lambda ob, a: inh[int(strip_ref(a[0])[1])], ('self', 'getKey'): lambda ob, a: 'KEY' + strip_ref(a[0])[1], 'getCount': 2,
                                                          ('self', 'getBase'): 'SRC', ('SRC', 'get'): lambda ob, a: 'BASE' + strip_ref(a[0])[1], ('self', 'get'): lambda ob, a: 'OWN' + strip_ref(a[0])[1]},
                  kinds={k: ('TiFunctionBase',) for k in ('BASE0', 'BASE1', 'OWN0', 'OWN1')})
        w.sup = {}
        n = w.norm
        want = ['resetFunctionChain(KEY%d, BASE%d)' % (i, i) for i in (0, 1) if not inh[i]]
        for o in Walk(prog, w).run(fn):
            if o.kind == 'throw':
                continue
            got = ['%s(%s)' % (sname(e.name), ', '.join(arg(n, a) for a in e.args)) for e in o.events]
            if got != want:
                chk.violation('chains', fn.loc(o.node), 'leaving the base with operations %s: it does %s; it must do %s' % (
                    ' and '.join('inherited' if x else 'of its own' for x in inh), ', '.join(got) or 'nothing', ', '.join(want) or 'nothing'))


def enum_of(prog, x):
    for q, e in prog.enums.items():
        if 'ContentChangeOp' in q and any(c['n'] == x for c in e['consts']):
            return enum(prog, q, x)
    raise Broken('ContentChangeOp::%s is not found' % x)


def links(chk, prog):
    """One replacement and the one before it."""
    q = 'Core::Basic::TiFunctionOverride::'
    for name, want in (('getSuper', None), ('setSuper', 'NEW')):
        fn = concrete(prog, q + name)[0]
        chk.count('situations')
        n, _ = None, None
        w = Chain(WNorm(fn), ())
        w.sup = {}
        for o in Walk(prog, w).run(fn, args=[el('NEW')] if want else []):
            n = w.norm
            heap = {n.t(k): arg(n, v) for k, v in o.state.heap.items() if k[0] == 'f'}
            if want and heap.get('self.superFn') != want:
                chk.violation('chains', fn.loc(o.node), 'the replaced function is set to %s' % heap.get('self.superFn'))
            if not want and arg(n, o.ret) != 'self.superFn':
                chk.violation('chains', fn.loc(o.node), 'the replaced function is said to be %s' % n.t(o.ret))


# --- what calls go through ---------------------------------------------------------

BC = 'Core::Basic::BindingCache::'


def caches(chk, prog):
    fn = concrete(prog, BC + 'onBindingChanged')[0]
    ops = {x: enum_of(prog, x) for x in ('ADDED', 'WILL_UPDATE', 'UPDATED', 'WILL_REMOVE', 'REMOVED')}
    for op, mine, i in itertools.product(ops, (-1, 0, 1, 2), (0, 1, 2)):
        chk.count('situations')
        w = Tab(WNorm(fn), ('update',))
        n = w.norm
        for o in run_with(prog, w, fn, mine, [el('SRC'), ops[op], C(str(i))]):
            if o.kind == 'throw':
                continue
            ev = [sname(e.name) for e in o.events]
            heap = {n.t(k): v for k, v in o.state.heap.items() if k[0] == 'f'}
            v = heap.get('self.index')
            v = mine if v is None else w.plain(strip_ref(v))
            obj = heap.get('self.obj')
            want = (['update'] if op == 'ADDED' and mine == -1 or op == 'UPDATED' and i == mine else [],
                    mine if op not in ('ADDED', 'REMOVED') or mine == -1 else mine + 1 if op == 'ADDED' and i <= mine else -1 if op == 'REMOVED' and i == mine else mine - 1 if op == 'REMOVED' and i < mine else mine,
                    'none' if op == 'REMOVED' and mine == i else None)
            got = (ev, v, None if obj is None else 'none' if n.t(strip_ref(obj)) == '0' else n.t(obj))
            if got != want:
                chk.violation('caches', fn.loc(o.node), 'entry %d is %s and the operation is %s: it %s, position %s%s; it must %s, position %s%s' % (
                    i, op.lower().replace('_', ' '), 'not known' if mine < 0 else 'entry %d' % mine, 'looks again' if ev else 'does not look again', v, ', function ' + got[2] if got[2] else '',
                    'look again' if want[0] else 'not look again', want[1], ', function none' if want[2] else ''))
    for name in ('operator()',):
        for fn in concrete(prog, 'Core::Basic::FunctionBindingCache::operator()')[:3]:
            w = Tab(WNorm(fn), ())
            n = w.norm
            for o in Walk(prog, w).run(fn):
                chk.count('situations')
                f = {n.t(p): v for p, v in o.facts.items()}
                new = next((not v if '==' in k else v for k, v in f.items() if 'calleeWithSuper' in k), None)
                old = next((not v if '==' in k else v for k, v in f.items() if re.search(r'self\.callee\b', k)), None)
                t = n.t(o.ret) if o.ret else ''
                calls = [e for e in o.events]
                if o.kind == 'throw':
                    if new is not False or old is not False:
                        chk.violation('caches', fn.loc(o.node), 'an operation is refused although there is a function for it')
                elif new is False and old is False:
                    chk.violation('caches', fn.loc(o.node), 'an operation without a function is not refused')


def run_with(prog, w, fn, index, args):
    st = State()
    st.heap[thisfield(fn, 'index')] = C(str(index))     # the position held before
    return Walk(prog, w).run(fn, args=args, state=st)


def thisfield(fn, name):
    for nd in fn.nodes:
        if nd['k'] == 'MemberExpr' and nd.get('dk') == 'field' and sname(nd.get('d', '')) == name:
            return ('f', ('this',), nd['d'])
    raise Broken('%s: the field %s is not found' % (fn.q, name))
