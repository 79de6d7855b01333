"""P22: every import finds the right file, once, and no name reaches outside its buffer."""
from tab import *

TITLE = 'Imports find the right file by one rule, load it once and leave no trace'
TECHNIQUE = ('texts and buffers followed piece by piece, with lengths as linear forms, through every way of the search for files; comparison of every way through importing, '
             'search paths and libraries with one reference')
NOTE = ('All ways through finding, naming and processing imported files, the search paths and the libraries, for names and paths of any text and length.')
RULE = ('names are tried in the declared order; what is written into a buffer fits into it whatever the lengths; a file is remembered before it is processed; '
        'search paths and library uses are balanced')
RM = 'Core::Main::RootManager::'
LM = 'Core::Main::LibraryManager::'
EXT = ('.alusus', '.source', '.الأسس', '.أسس', '.مصدر')


def run(chk, prog):
    candidates(chk, prog)
    search(chk, prog)
    processing(chk, prog)
    importing(chk, prog)
    alternatives_(chk, prog)
    paths(chk, prog)
    libraries(chk, prog)
    reading(chk, prog)
    chk.floor('names tried', 400)
    chk.floor('writes into buffers', 400)
    chk.floor('ways through', 300)


# --- texts and lengths ---------------------------------------------------------

def lin(*terms):
    r = {}
    for t, k in terms:
        for s, c in (t.items() if isinstance(t, dict) else (('', t),)):
            r[s] = r.get(s, 0) + k * c
    return {s: c for s, c in r.items() if c or s == ''} or {'': 0}


def same(a, b):
    return not any(lin((a, 1), (b, -1)).values())


class Texts:
    """What the characters at a place are: pieces, each a literal or a symbol ('D', ...) of unknown text and length."""

    def __init__(self, prog, known, n):
        self.prog = prog
        self.known = known          # term text -> pieces
        self.n = n
        self.bufs = {}              # buffer -> pieces
        self.empty = ()             # texts that are declared without a value
        self.facts = []

    def length(self, pieces):
        return lin((0, 1), *((len(p.encode()), 1) if isinstance(p, str) else ({p: 1}, 1) for p in pieces))

    def place(self, t):
        """(pieces or buffer name, offset)"""
        if t[0] in ('new', 'obj') and sname(t[1]) == 'Str' and len(t[2]) == 3:
            p = self.place(t[2][0])
            x = p and self.cut(self.pieces(p) or (), self.number(t[2][1]) or {'?': 1}, True)
            x = x is not None and self.cut(x, self.number(t[2][2]) or {'?': 1}, False)
            return (('text', tuple(x)), lin((0, 1))) if x not in (None, False) else None
        t = strip_ref(t)
        if t[0] == 'as':
            t = strip_as(t)
        if t[0] == 'bin' and t[1] in ('+', '-'):
            a = self.place(t[2])
            if a:
                k = self.number(t[3])
                return k and (a[0], lin((a[1], 1), (k, 1 if t[1] == '+' else -1)))
            b = self.place(t[3]) if t[1] == '+' else None
            k = b and self.number(t[2])
            return k and (b[0], lin((b[1], 1), (k, 1)))
        if t[0] in ('inc', 'dec'):
            a = self.place(t[1])
            return a and (a[0], lin((a[1], 1), (1 if t[0] == 'inc' else -1, 1)))
        if t[0] == 'call' and sname(t[1]) == 'data':
            return ('buffer', self.n.t(strip_ref(t[2][0]))), lin((0, 1))
        if t[0] == 'call' and sname(t[1]) == 'strrchr' and self.number(t[2][1]) == {'': 47}:
            p = self.place(t[2][0])
            if not p:
                return None
            x = self.pieces(p)
            if x is None or '/' not in x:
                return None
            i = len(x) - 1 - x[::-1].index('/')
            return p[0], lin((p[1], 1), (self.length(x[:i]), 1))
        if t[0] == 's':
            return ('text', (t[1],)), lin((0, 1))
        if t[0] == 'idx' and t[1][0] == 'g':
            v = self.prog.vars.get(t[1][1])
            i = self.number(t[2])
            lits = [x['v'] for x in v.get('nodes', ()) if x['k'] == 'StringLiteral'] if v else []
            if i and set(i) == {''} and 0 <= i[''] < len(lits):
                return ('text', (lits[i['']],)), lin((0, 1))
            return None
        k = self.n.t(t)
        if k in self.known:
            return ('text', self.known[k]), lin((0, 1))
        if t[0] == 'call' and t[1].split('::')[-1] in ('getBuf', 'operator const char *', 'c_str', 'get'):
            return self.place(t[2][0])
        if t[0] == 'new' and sname(t[1]) == 'Str' and t[2]:
            return self.place(t[2][0]) if len(t[2]) == 1 else None
        if t[0] == 'v' and t[1] in self.empty:
            return ('text', ()), lin((0, 1))
        return None

    def number(self, t):
        t = strip_ref(t)
        if t[0] == 'as':
            t = strip_as(t)
        while t[0] in ('new', 'obj') and len(t[2]) == 1:
            t = strip_ref(t[2][0])
        if t[0] == 'c' and t[1].lstrip('-').isdigit():
            return {'': int(t[1])}
        if t[0] in ('inc', 'dec'):
            a = self.number(t[1])
            return a and lin((a, 1), (1 if t[0] == 'inc' else -1, 1))
        if t[0] == 'sizeof':
            m = re.match(r'.*\[(\d+)\]$', t[1])
            return {'': 8 * int(m.group(1))} if m and '*' in t[1] else {'': int(m.group(1))} if m and t[1].startswith('const char') else {'': 8} if t[1].endswith('*') else None
        if t[0] == 'bin':
            if t[1] == '-':
                a, b = self.place(t[2]), self.place(t[3])
                if a and b:
                    return lin((a[1], 1), (b[1], -1)) if a[0] == b[0] else None
            a, b = self.number(t[2]), self.number(t[3])
            if a and b:
                if t[1] in ('+', '-'):
                    return lin((a, 1), (b, 1 if t[1] == '+' else -1))
                if set(a) == set(b) == {''} and t[1] in ('*', '/') and b['']:
                    return {'': a[''] * b[''] if t[1] == '*' else a[''] // b['']}
            return None
        if t[0] == 'call' and sname(t[1]) in ('getStrLen', 'getLength', 'strlen', 'size') and t[2]:
            p = self.place(t[2][0])
            x = p and self.pieces(p)
            return None if x is None else self.length(x)
        return None

    def pieces(self, p):
        b, off = p
        x = b[1] if b[0] == 'text' else self.bufs.get(b[1])
        return None if x is None else self.cut(x, off, True)

    def cut(self, x, at, after):
        """The part of a text after (or before) a position."""
        pos = {'': 0}
        for i, p in enumerate(x):
            if same(pos, at):
                return tuple(x[i:] if after else x[:i])
            d = lin((at, 1), (pos, -1))
            if isinstance(p, str) and set(d) == {''} and 0 < d[''] < len(p.encode()):
                b = p.encode()
                a = b[:d['']].decode(errors='replace'), b[d['']:].decode(errors='replace')
                return tuple((a[1],) + tuple(x[i + 1:]) if after else tuple(x[:i]) + (a[0],))
            pos = lin((pos, 1), (self.length((p,)), 1))
        if same(pos, at):
            return () if after else tuple(x)
        return None

    def copy(self, e):
        """copyStr: (what is wrong or None, end of what is written, buffer)"""
        d, s = self.place(e.args[1]), self.place(e.args[0])
        if not d or d[0][0] != 'buffer' or not s:
            return 'unknown', None, None
        x = self.pieces(s)
        if x is None:
            return 'unknown', None, None
        if len(e.args) > 2:
            k = self.number(e.args[2])
            x = k and self.cut(x, k, False)
            if x is None:
                return 'unknown', None, None
        old = self.bufs.get(d[0][1], ())
        head = self.cut(old, d[1], False)
        if head is None:
            return 'gap', None, d[0][1]
        self.bufs[d[0][1]] = tuple(y for y in head + tuple(x) if y != '')
        return None, lin((self.length(self.bufs[d[0][1]]), 1), (0 if len(e.args) > 2 else 1, 1)), d[0][1]

    def known_facts(self, facts):
        """Linear forms that are at most 0."""
        out = []
        for p, v in facts.items():
            if p[0] == 'lt':
                a, b = self.number(p[1]), self.number(p[2])
                if a and b:
                    out.append(lin((a, 1), (b, -1), (1, 1)) if v else lin((b, 1), (a, -1)))
        return out

    def at_most(self, form, facts):
        """form <= 0, whatever the (not negative) lengths are."""
        return any(all(c <= 0 for c in d.values()) for d in [form] + [lin((form, 1), (f, -1)) for f in facts])


def text(x):
    return '?' if x is None else ''.join(p if isinstance(p, str) else '<%s>' % p[0] for p in x)


def norm(x):
    out = []
    for p in x:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    return tuple(out)


# --- the names that are tried --------------------------------------------------

class Sized(Tab):
    """Comparisons of numbers that are known."""
    loop_bound = 8
    texts = None

    def decide(self, p):
        if p[0] in ('lt', 'eq') and self.texts:
            a, b = self.texts.number(p[1]), self.texts.number(p[2])
            if a and b:
                d = lin((a, 1), (b, -1))
                if set(d) == {''}:
                    return d[''] < 0 if p[0] == 'lt' else d[''] == 0
                c = d.get('', 0)
                if all(v <= 0 for v in d.values()) and c < 0:
                    return p[0] == 'lt'
                if all(v >= 0 for v in d.values()):
                    return False if p[0] == 'lt' or c > 0 else None
        if p[0] == 'call' and p[1] == 'strrchr' and self.texts:
            x = self.texts.place(p[2][0])
            return '/' in (x and self.texts.pieces(x) or ())
        return Tab.decide(self, p)


SIZE = 4096         # PATH_MAX, the size of all these buffers
SLACK = 17          # a name that does not fit with a separator, prefix and suffix may be given up


def unfit(tx, x, facts):
    """Known to be too long, or nearly so."""
    return tx.at_most(lin((SIZE - SLACK, 1), (tx.length(x), -1)), facts)


def candidates(chk, prog):
    fn = prog.fn(RM + 'tryFileName')
    path, out = [p['d'].split('#')[0] for p in fn.params[:2]]
    for known in ((('D',), '/', ('N',)), (('N',),)):
        w = Sized(WNorm(fn), ('copyStr', 'doesFileExist'))
        base = Texts(prog, {path: known}, w.norm)
        w.texts = base
        want = [known] + [known + (e,) for e in EXT] + [known[:-1] + ('lib', known[-1], '.dbg.so'), known[:-1] + ('lib', known[-1], '.so')]
        want = [norm(x) for x in want]
        for o in Walk(prog, w).run(fn):
            chk.count('ways through')
            if o.kind == 'throw':
                continue
            tx = Texts(prog, {path: known}, w.norm)
            facts = tx.known_facts(o.facts)
            tried, found = [], None
            for i, e in enumerate(o.events):
                if sname(e.name) == 'copyStr':
                    if not write(chk, 'buffers', fn, tx, e, facts):
                        break
                else:
                    p = tx.place(e.args[0])
                    x = p and tx.pieces(p)
                    tried.append((x and norm(x), e))
                    if o.facts.get(('val', 'S%d' % (i + 1))):
                        found = tried[-1][0]
            else:
                chk.count('names tried', len(tried))
                k = 0
                for x, e in tried:
                    while k < len(want) and want[k] != x and unfit(tx, want[k], facts):
                        k += 1      # does not fit
                    if k >= len(want) or want[k] != x:
                        chk.violation('names', fn.loc(e.node), 'the name %s is tried as %s; the next to try is %s' % (text(known), text(x), text(want[k]) if k < len(want) else 'none'))
                        break
                    k += 1
                else:
                    r = truthy(o)
                    if found is None:
                        while k < len(want) and unfit(tx, want[k], facts):
                            k += 1
                        if k < len(want):
                            chk.violation('names', fn.loc(o.node), 'the name %s is not tried as %s' % (text(known), text(want[k])))
                        if r is not False:
                            chk.violation('names', fn.loc(o.node), 'no form of the name %s is a file and it is found' % text(known))
                    else:
                        res = tx.bufs.get(out)
                        if r is not True or res is None or norm(res) != found:
                            chk.violation('names', fn.loc(o.node), 'the name %s is a file as %s; it is %s' % (text(known), text(found), 'not found' if r is not True else 'given as ' + text(res)))


def truthy(o):
    t = o.ret and strip_as(o.ret)
    if t in (TRUE, FALSE):
        return t == TRUE
    if t and t[0] == 'c':
        return t[1] not in ('0', 'false')
    return o.facts.get(t)


def write(chk, key, fn, tx, e, facts):
    chk.count('writes into buffers')
    bad, end, buf = tx.copy(e)
    if bad:
        chk.violation(key, fn.loc(e.node), 'what is written here, and where, cannot be told: %s' % (e.x or '')) if bad == 'unknown' else chk.violation(
            key, fn.loc(e.node), 'it is written behind the end of what is in %s: %s' % (buf, e.x or ''))
        return False
    if not tx.at_most(lin((end, 1), (-SIZE, 1)), facts):
        chk.violation(key, fn.loc(e.node), '%s is written into %s, whatever its length; it does not fit if it is too long' % (text(tx.bufs[buf]), buf))
        return False
    return True



# --- where they are looked for --------------------------------------------------

class Paths(Texts):
    """The search paths, counted from the last one."""

    def at(self, t):
        t = strip_ref(t)
        if t[0] == 'call' and sname(t[1]) in ('operator[]', 'at') and self.n.t(t[2][0]) == 'self.searchPaths':
            i = self.number(t[2][1])
            d = i and lin(({('n',): 1}, 1), (i, -1))
            return d[''] - 1 if d and set(d) == {''} else None
        if t[0] == 'call' and sname(t[1]) == 'back' and self.n.t(t[2][0]) == 'self.searchPaths':
            return 0
        return None

    def place(self, t):
        k = self.at(t)
        if k is not None:
            return ('text', (('P%d' % k,),)), lin((0, 1))
        return Texts.place(self, t)

    def number(self, t):
        t = strip_ref(t)
        if t[0] == 'call' and sname(t[1]) == 'size' and self.n.t(t[2][0]) == 'self.searchPaths':
            return {'': 0, ('n',): 1}
        return Texts.number(self, t)


def search(chk, prog):
    fn = prog.fn(RM + 'findFile')
    name, out = [p['d'].split('#')[0] for p in fn.params[:2]]
    known = {name: (('F',),)}
    w = Sized(WNorm(fn), ('copyStr', 'tryFileName', 'realpath'))
    w.loop_bound = 5
    n = w.norm
    w.texts = Paths(prog, known, n)
    for o in Walk(prog, w).run(fn):
        chk.count('ways through')
        if o.kind == 'throw':
            continue
        f = {n.t(k): v for k, v in o.facts.items()}
        absolute = [v for k, v in f.items() if '47' in k and 'filename' in k and 'fullPath' not in k]
        tx = Paths(prog, known, n)
        facts = tx.known_facts(o.facts)
        slash = {}
        for p, v in o.facts.items():
            if p[0] == 'eq':
                for x in p[1:]:
                    if x[0] == 'idx':
                        d = tx.number(x[2])
                        for s in d or ():
                            if s and s[0].startswith('P'):
                                slash[s[0]] = v
        tried, found, k = [], None, 0
        is_absolute = True in absolute
        for i, e in enumerate(o.events):
            s = sname(e.name)
            if s == 'copyStr':
                if not write(chk, 'buffers', fn, tx, e, facts):
                    break
            elif s == 'tryFileName':
                p = tx.place(e.args[0])
                x = p and tx.pieces(p)
                x = x and norm(x)
                if found is not None:
                    chk.violation('search', fn.loc(e.node), 'a file is found and another name is tried')
                    break
                if is_absolute:
                    want = (('F',),)
                else:
                    while True:
                        P = ('P%d' % k,)
                        want = (P, ('F',)) if slash.get(P[0], True) else (P, '/', ('F',))
                        k += 1
                        if x == want or not unfit(tx, want, facts):
                            break
                if x != want or is_absolute and tried:
                    chk.violation('search', fn.loc(e.node), 'the name is looked for as %s; the next place is %s' % (text(x), text(want)))
                    break
                tried.append(x)
                if o.facts.get(('val', 'S%d' % (i + 1))):
                    found = e
            elif s == 'realpath':
                a = [tx.place(x) for x in e.args]
                if found is None or a[0] is None or a[0][0][0] != 'buffer' or a[0][0][1] != n.t(strip_ref(found.args[1])) or not a[1] or a[1][0] != ('buffer', out):
                    chk.violation('search', fn.loc(e.node), 'the result is not the file that was found')
                    break
        else:
            chk.count('names tried', len(tried))
            r = truthy(o)
            if found is not None:
                if r is not True or not any(sname(e.name) == 'realpath' for e in o.events):
                    chk.violation('search', fn.loc(o.node), 'a file that was found is not given')
            else:
                if r is not False:
                    chk.violation('search', fn.loc(o.node), 'nothing was found and something is given')
                if is_absolute and not tried:
                    chk.violation('search', fn.loc(o.node), 'an absolute name is not tried')
                if not is_absolute:
                    while unfit(tx, (('P%d' % k,), ('F',)), facts):
                        k += 1
                    if not tx.at_most({'': -k, ('n',): 1}, facts):
                        chk.violation('search', fn.loc(o.node), 'the search ends before search path %d from the end' % (k + 1))


# --- what is done with them -----------------------------------------------------

def listed(chk, key, fn, at, what, got, want):
    if got != want:
        i = next((i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]), 0)
        chk.violation(key, fn.loc(at), '%s: step %d is %s; it must be %s' % (what, i + 1, got[i] if i < len(got) else 'the end', want[i] if i < len(want) else 'the end'))
        return False
    return True


def processing(chk, prog):
    fn = prog.fn(RM + '_processFile')
    full, again = [p['d'].split('#')[0] for p in fn.params[:2]]
    for known in ((('D',), '/', ('N',)), (('N',),)):
        w = Sized(WNorm(fn), ('findIndex', 'add', 'pushSearchPath', 'popSearchPath', 'processFile', 'relay'))
        n = w.norm
        tx = w.texts = Texts(prog, {full: known}, n)
        tx.empty = {d['d'] for d in fn.nodes if d['k'] == 'DeclRefExpr' and d.get('dk') == 'local' and re.search(r'\bStr$', d.get('t', ''))}
        for o in Walk(prog, w).run(fn):
            chk.count('ways through')
            if o.kind == 'throw':
                continue
            f = {n.t(k): v for k, v in o.facts.items()}
            got, result, seen = [], None, None
            for i, e in enumerate(o.events):
                s = sname(e.name)
                if s == 'relay':
                    if n.t(strip_ref(e.obj)) == 'self.noticeSignal':
                        got.append('relay')
                    continue
                p = e.args and tx.place(e.args[0])
                x = text(p and tx.pieces(p))
                if s in ('findIndex', 'add'):
                    s = '%s.%s' % (n.t(strip_ref(e.obj)), s)
                got.append('%s(%s)' % (s, x))
                if s == 'processFile':
                    result = 'S%d' % (i + 1)
                if s.endswith('findIndex'):
                    seen = f.get('(-1==S%d)' % (i + 1), f.get('(S%d==-1)' % (i + 1)))
                    if seen is None:
                        seen = next((v == (k == '(S%d<0)' % (i + 1)) for k, v in f.items() if k in ('(S%d<0)' % (i + 1), '(-1<S%d)' % (i + 1))), None)
                        if seen is None:
                            chk.violation('once', fn.loc(e.node), 'whether %s was processed already is not what decides' % text(known))
            t = text(known)
            r = n.t(unwrap(o.ret)) if o.ret is not None else '?'
            what = 'processing the file %s' % t
            if f.get(again) is not True:
                if got[:1] != ['self.processedFiles.findIndex(%s)' % t]:
                    chk.violation('once', fn.loc(o.node), '%s: it is not looked up among the files already processed' % what)
                    continue
                got = got[1:]
                if seen is False:
                    if got or r not in ('null', '0'):
                        chk.violation('once', fn.loc(o.node), '%s for the second time: it does %s' % (what, ', '.join(got) or 'give ' + r))
                    continue
            elif got[:1] == ['self.processedFiles.findIndex(%s)' % t]:
                got = got[1:]
            d = '<D>/'
            first = ['self.processedFiles.add(%s)' % t] + (['pushSearchPath(%s)' % d] if '/' in known else []) + ['relay']
            if sorted(got[:len(first)]) != sorted(first):
                chk.violation('once', fn.loc(o.node), '%s: before it is processed it does %s; it must do %s' % (what, ', '.join(got[:len(first)]), ', '.join(first)))
                continue
            rest = ['processFile(%s)' % t] + (['popSearchPath(%s)' % d] if '/' in known else [])
            if listed(chk, 'once', fn, o.node, what + ', after its preparation', got[len(first):], rest) and r != result:
                chk.violation('once', fn.loc(o.node), '%s: it gives %s and not what the file gives' % (what, r))
    fn = prog.fn(RM + 'processFile')
    a, b = [p['d'].split('#')[0] for p in fn.params[:2]]
    w = Tab(WNorm(fn), ('findFile', '_processFile'))
    n = w.norm
    for o in Walk(prog, w).run(fn):
        chk.count('ways through')
        found = o.facts.get(('val', 'S1'))
        e = o.events
        if not e or sname(e[0].name) != 'findFile' or n.t(strip_ref(e[0].args[0])) != a:
            chk.violation('once', fn.loc(o.node), 'a file to process is not looked for by its name')
        elif found and (o.kind == 'throw' or len(e) != 2 or buffer_of(n, e[1].args[0]) != n.t(strip_ref(e[0].args[1])) or n.t(strip_ref(e[1].args[1])) != b or n.t(unwrap(o.ret)) != 'S2'):
            chk.violation('once', fn.loc(o.node), 'what is processed is not the file that was found')
        elif not found and (o.kind != 'throw' or len(e) > 1):
            chk.violation('once', fn.loc(o.node), 'a file that is not found is processed')


def buffer_of(n, t):
    t = strip_ref(t)
    return n.t(strip_ref(t[2][0])) if t[0] == 'call' and sname(t[1]) == 'data' else n.t(t)


def importing(chk, prog):
    fn = prog.fn(RM + 'tryImportFile')
    name, err = [p['d'].split('#')[0] for p in fn.params[:2]]
    w = Sized(WNorm(fn), ('findFile', '_processFile', 'load'))
    n = w.norm
    tx = w.texts = Texts(prog, {}, n)
    for o in Walk(prog, w).run(fn):
        chk.count('ways through')
        if o.kind == 'throw':
            continue
        e = o.events
        if not e or sname(e[0].name) != 'findFile' or n.t(strip_ref(e[0].args[0])) != name:
            chk.violation('kinds', fn.loc(o.node), 'an imported file is not looked for by its name')
            continue
        found = o.facts.get(('val', 'S1'))
        buf = n.t(strip_ref(e[0].args[1]))
        kinds = {}
        for p, v in o.facts.items():
            if p[0] == 'call' and sname(p[1]) == 'compareStrSuffix':
                x = tx.place(p[2][1])
                x = x and tx.pieces(x)
                if x and buffer_of(n, p[2][0]) == buf:
                    kinds[text(x)] = v
        source = found and any(v for k, v in kinds.items() if k in EXT)
        other = [k for k, v in kinds.items() if v and k not in EXT]
        r = truthy(o)
        if source:
            if len(e) != 2 or sname(e[1].name) != '_processFile' or buffer_of(n, e[1].args[0]) != buf or len(e[1].args) > 1 and n.t(e[1].args[1]) not in ('0', 'false') or r is not True:
                chk.violation('kinds', fn.loc(o.node), 'a source file that was found (%s) is not processed, once' % ', '.join(k for k, v in kinds.items() if v))
            continue
        if other:
            chk.violation('kinds', fn.loc(o.node), 'a file with suffix %s is taken for a source file' % other[0])
            continue
        missing = [x for x in EXT if x not in kinds]
        if found and missing:
            chk.violation('kinds', fn.loc(o.node), 'a file with suffix %s is not taken for a source file' % missing[0])
            continue
        want = buf if found else name
        if len(e) != 2 or sname(e[1].name) != 'load' or buffer_of(n, e[1].args[0]) != want or n.t(strip_ref(e[1].args[1])) != err:
            chk.violation('kinds', fn.loc(o.node), 'a file that is %s is not loaded as a library under its %s' % ('no source file' if found else 'not found', 'full name' if found else 'name'))
        elif o.ret is None or truth(o.ret, lambda k: True if k == 'S2' else False if k in ('(0==S2)', '(S2==0)') else None, {}, n) is not True:
            chk.violation('kinds', fn.loc(o.node), 'the result is not whether the library was loaded')


def alternatives_(chk, prog):
    H = 'Core::Processing::Handlers::ImportParsingHandler::'
    fn = prog.fn(H + 'tryImport')
    node, names, err, state = [p['d'].split('#')[0] for p in fn.params]
    steps = ('tryImport', 'tryImportFile', 'addNotice')
    for kind in ('StringLiteral', 'LogOperator', 'Identifier'):
        kinds = {node: {'StringLiteral': ('StringLiteral', 'Text'), 'LogOperator': ('LogOperator', 'InfixOperator'), 'Identifier': ('Identifier', 'Text')}[kind]}
        for op in (('||', 'or', 'and', '&&') if kind == 'LogOperator' else ('',)):
            def ref(ask):
                notice = ['addNotice(InvalidImportNotice(findSourceLocation(%s)))' % node]
                if kind == 'StringLiteral':
                    x = node + '.getValue.get'
                    ev = ['tryImportFile(%s, %s)' % (x, err)]
                    if ask('S1'):
                        return ev, '0'
                    return ev, '1', {names: '((%s+" || ")+%s)' % (names, x) if ask('(0<%s.getLength)' % names) else '(%s+%s)' % (names, x)}
                if kind == 'LogOperator' and op in ('||', 'or'):
                    ev = ['tryImport(%s.getFirst, %s, %s, %s)' % (node, names, err, state)]
                    if ask('(1==S1)'):
                        return ev + ['tryImport(%s.getSecond, %s, %s, %s)' % (node, names, err, state)], 'S2'
                    return ev, 'S1'
                return notice, '2'
            what = {'StringLiteral': 'importing a name', 'LogOperator': 'importing alternatives joined by %s' % op, 'Identifier': 'importing something else'}[kind]
            table(chk, prog, 'alternatives', fn, what, [p['d'].split('#')[0] for p in fn.params], ref, steps=steps, kinds=kinds,
                  get={(node, 'getType'): ('s', op)} if op else {}, env=None)
    fn = prog.fn(H + 'onProdEnd')
    parser, state = [p['d'].split('#')[0] for p in fn.params]

    def end(ask):
        ev = ['tryImport(getData(%s,-1)[1])' % state]
        if not ask('S1'):
            return ev + ['setData(0)'], None
        return ev + (['addNotice(ImportLoadFailedNotice)'] if ask('(1==S1)') else []) + ['setData(0)'], None
    table(chk, prog, 'alternatives', fn, 'the end of an import', [parser, state], end, steps=('tryImport', 'addNotice', 'setData'),
          show=lambda s, o, a, node: '%s(%s)' % (s, a[0].split('(')[0] if s == 'addNotice' else a[0]))


# --- search paths -----------------------------------------------------------------

class Upd(Sized):
    record_updates = True


def upd(tx, n, e):
    v = e.args[0]
    while v[0] == 'as':
        v = strip_as(v)
    if v[0] in ('inc', 'dec'):
        return v[0], strip_ref(v[1])
    if v[0] == 'bin' and v[1] in '+-' and tx.number(v[3]) == {'': 1}:
        return 'inc' if v[1] == '+' else 'dec', strip_ref(v[2])
    return '?', v


def paths(chk, prog):
    for name in ('pushSearchPath', 'popSearchPath'):
        fn = prog.fn(RM + name)
        path = fn.params[0]['d'].split('#')[0]
        w = Upd(WNorm(fn), ('push_back', 'erase', 'pop_back', 'insert', 'clear'))
        w.loop_bound = 4
        n = w.norm
        tx = w.texts = Paths(prog, {path: (('A',),)}, n)
        for o in Walk(prog, w).run(fn):
            chk.count('ways through')
            f = {n.t(k): v for k, v in o.facts.items()}
            null = f.get(path) is False or f.get('*' + path) is False or any(v and '0==' in k for k, v in f.items() if path in k and '.' not in k and '_' not in k)
            relative = any(v is False for k, v in f.items() if k in ('(47==%s)' % path, '(47==*%s)' % path, "(47==idx(%s, '0'))" % path))
            if (null or relative) and o.kind != 'throw':
                chk.violation('paths', fn.loc(o.node), '%s: a path that is %s is accepted' % (fn.n, 'empty' if null else 'not absolute'))
                continue
            got = []
            for e in o.events:
                if sname(e.name) == 'update':
                    how, at = upd(tx, n, e)
                    a, i = ends(tx, n, at)
                    got.append('%s %s at %s' % (how, a, i))
                else:
                    x = e.args[0] if e.args else None
                    if sname(e.name) == 'erase':
                        b = unwrap(x)
                        got.append('erase %s at %s' % (n.t(strip_ref(e.obj)), ends(tx, n, ('call', 'operator[]', (b[2][2][0], b[3])))[1] if b[0] == 'bin' and b[1] == '+' and sname(b[2][1]) == 'begin' else '?'))
                    else:
                        got.append('%s %s %s' % (sname(e.name), n.t(strip_ref(e.obj)), 'full' if 'fullPath' in str(x) else n.t(strip_ref(x)) if x else ''))
            match, compared = None, set()
            for p, v in o.facts.items():
                if p[0] == 'eq':
                    for x, y in ((p[1], p[2]), (p[2], p[1])):
                        k = tx.at(x)
                        if k is not None:
                            compared.add(k)
                        if k is not None and v:
                            match = k
            if name == 'pushSearchPath':
                if o.kind == 'throw':
                    if not null and not relative:
                        chk.violation('paths', fn.loc(o.node), 'an absolute search path is refused')
                    continue
                want = ['inc self.searchPathCounts at 0'] if match == 0 else ['push_back self.searchPaths full', 'push_back self.searchPathCounts 1']
                if sorted(got) != sorted(want):
                    chk.violation('paths', fn.loc(o.node), 'adding a search path that is %s: it does %s; it must do %s' % ('the last one' if match == 0 else 'not the last one', ', '.join(got) or 'nothing', ', '.join(want)))
            else:
                if match is None:
                    if o.kind != 'throw':
                        chk.violation('paths', fn.loc(o.node), 'removing a search path that is not there: it does %s' % (', '.join(got) or 'nothing'))
                    elif not null and not relative and (compared != set(range(len(compared))) or not tx.at_most({'': -len(compared), ('n',): 1}, tx.known_facts(o.facts))):
                        chk.violation('paths', fn.loc(o.node), 'a search path that may be there is not found: %d are looked at' % len(compared))
                    continue
                last = [v for k, v in f.items() if 'searchPathCounts' in k]
                keys = [k for k in f if 'searchPathCounts' in k]
                gone_ = None
                for k, v in zip(keys, last):
                    gone_ = (not v) if not k.startswith('(') else v if '0==' in k or '==0' in k else (not v) if '0<' in k else v
                want = ['dec self.searchPathCounts at %d' % match] + (['erase self.searchPathCounts at %d' % match, 'erase self.searchPaths at %d' % match] if gone_ else [])
                if o.kind == 'throw' or got[:1] != want[:1] or sorted(got) != sorted(want) or gone_ is None:
                    chk.violation('paths', fn.loc(o.node), 'removing search path %d from the end, used %s: it does %s; it must do %s' % (
                        match + 1, 'for the last time' if gone_ else 'again', 'nothing' if o.kind == 'throw' or not got else ', '.join(got), ', '.join(want)))
    fn = [f for f in prog.byq[RM + 'RootManager'] if not f.params][0]
    w = Tab(WNorm(fn), ('pushSearchPath', 'assign', 'find'))
    w.loop_bound = 3
    n = w.norm
    for o in Walk(prog, w).run(fn):
        chk.count('ways through')
        split(chk, fn, o, n, Parts(prog, {}, n))
        got = [n.t(strip_ref(e.args[0])) for e in o.events if sname(e.name) == 'pushSearchPath']
        listed(chk, 'paths', fn, o.node, 'the first search paths', got[:3], ['getModuleDirectory()', '(getModuleDirectory()+"../Lib/")', 'getWorkingDirectory()'])


class Parts(Texts):
    def number(self, t):
        t = strip_ref(t)
        if t[0] == 'val':
            return {'': 0, (t[1],): 1}
        if t[0] == 'call' and sname(t[1]) == 'getLength':
            return {'': 0, ('length of %s' % str(strip_ref(t[2][0])),): 1}
        return Texts.number(self, t)


def split(chk, fn, o, n, tx):
    """The paths in ALUSUS_LIBS are the parts between the colons, without empty ones."""
    start, end, env, part = lin((0, 1)), None, None, None
    for i, e in enumerate(o.events):
        s = sname(e.name)
        if s == 'find':
            env = strip_ref(e.obj)
            if tx.number(e.args[1]) != {'': 58} or end is not None and not same(tx.number(e.args[0]) or {'?': 1}, lin((end, 1), (1, 1))) or end is None and not same(tx.number(e.args[0]) or {'?': 1}, start):
                chk.violation('paths', fn.loc(e.node), 'the next of the paths given by the environment does not start behind the last colon')
                return
            start = tx.number(e.args[0])
            f = {n.t(k): v for k, v in o.facts.items()}
            none = f.get('(-1==S%d)' % (i + 1), f.get('(S%d<0)' % (i + 1)))
            end = {'': 0, ('length of %s' % str(env),): 1} if none else {'': 0, ('S%d' % (i + 1),): 1}
        elif s == 'assign' and env is not None:
            part = strip_ref(e.obj)
            if len(e.args) != 3 or strip_ref(e.args[0]) != env or not same(tx.number(e.args[1]) or {'?': 1}, start) or not same(tx.number(e.args[2]) or {'?': 1}, lin((end, 1), (start, -1))):
                chk.violation('paths', fn.loc(e.node), 'a path given by the environment is not the text between two colons')
                return


def ends(tx, n, t):
    """A vector and the place in it, from its end."""
    if t[0] == 'call' and sname(t[1]) in ('back', 'front') and len(t[2]) == 1:
        return n.t(strip_ref(t[2][0])), 0 if sname(t[1]) == 'back' else 'front'
    if t[0] == 'call' and sname(t[1]) in ('operator[]', 'at'):
        i = tx.number(t[2][1])
        d = i and lin(({('n',): 1}, 1), (i, -1))
        return n.t(strip_ref(t[2][0])), d[''] - 1 if d and set(d) == {''} else '?'
    return n.t(t), '?'


# --- libraries ----------------------------------------------------------------------

def libraries(chk, prog):
    steps = ('initialize', 'initializeDuplicate', 'uninitialize', 'uninitializeDuplicate', 'push_back', 'erase', 'pop_back')
    for name in ('addLibrary', 'removeLibrary'):
        fn = prog.fn(LM + name)
        idn = fn.params[0]['d'].split('#')[0]
        w = Tab(WNorm(fn), steps)
        w.loop_bound = 4
        n = w.norm
        for o in Walk(prog, w).run(fn):
            chk.count('ways through')
            f = {n.t(k): v for k, v in o.facts.items()}
            if any(v is False for k, v in f.items() if '.gateway' in k and 'gateway==' in k):
                continue        # another gateway under the same id
            at = None
            for k, v in f.items():
                m = re.match(r'\((?:%s==)?operator\[\]\(self\.entries,(\d+)\)\.id(?:==%s)?\)$' % (idn, idn), k)
                if m and v:
                    at = m.group(1)
            got = [('%s.%s' % (n.t(strip_ref(e.obj)), e.x)) for e in o.events]
            got = [re.sub(r'__normal_iterator\(\((begin\(self\.entries\)\+\d+)\)\)', r'\1', x) for x in got]
            entry = 'operator[](self.entries,%s)' % at
            count = next((n.t(strip_ref(v)) for k, v in o.state.heap.items() if n.t(k) == entry + '.refCount'), None)
            # the gateway: the one given, or that of the entry (the same)
            has = [v for k, v in f.items() if k in ('gateway', entry + '.gateway')]
            gw = r'(?:gateway|%s)' % re.escape(entry + '.gateway')

            def calls(x):
                return [re.sub('^' + gw + r'\.', 'gateway.', y) for y in x]
            got = calls(got)
            if not has:
                chk.violation('libraries', fn.loc(o.node), '%s: what is done does not depend on whether the library has a gateway' % fn.n) if o.kind != 'throw' else None
                if o.kind != 'throw':
                    continue
            has = has[:1] == [True]
            if name == 'addLibrary':
                if at is None:
                    want = ['self.entries.push_back(Entry(%s,gateway))' % idn] + (['gateway.initialize(self.root)'] if has else [])
                    wcount = None
                else:
                    want = ['gateway.initializeDuplicate(self.root)'] if has else []
                    wcount = 'inc'
            elif at is None:
                if o.kind != 'throw' or got:
                    chk.violation('libraries', fn.loc(o.node), 'removing a library that is not there: it does %s' % (', '.join(got) or 'nothing'))
                continue
            else:
                one = next((v if '==' in k else not v for k, v in f.items() if entry + '.refCount' in k), None)
                if one:
                    want = (['gateway.uninitialize(self.root)'] if has else []) + ['self.entries.erase(begin(self.entries)+%s)' % at]
                    wcount = None
                else:
                    want = ['gateway.uninitializeDuplicate(self.root)'] if has else []
                    wcount = 'dec'
                if one is None:
                    chk.violation('libraries', fn.loc(o.node), 'removing a library: what is done does not depend on how often it is used')
                    continue
            if o.kind == 'throw':
                chk.violation('libraries', fn.loc(o.node), '%s fails for %s library' % (fn.n, 'a new' if at is None else 'a known'))
                continue
            if listed(chk, 'libraries', fn, o.node, '%s, library %s' % (fn.n, 'not loaded yet' if at is None else 'number %s' % at), got, want):
                k = None if count is None else 'inc' if count.startswith('inc(') or '+1' in count else 'dec' if count.startswith('dec(') or '-1' in count else count
                if k != wcount and not (wcount is None and name == 'removeLibrary'):
                    chk.violation('libraries', fn.loc(o.node), '%s: the number of uses of the library is %s' % (fn.n, 'not changed' if k is None else 'changed to ' + count))
    fn = prog.fn(LM + 'load')
    path, err = [p['d'].split('#')[0] for p in fn.params]

    def ref(ask):
        ev = ['dlopen(%s)' % path]
        if not ask('S1'):
            return ev, '0'
        ev.append('dlsym(S1)')
        if not ask('S2'):
            return ev + ['addLibrary(S1, 0)'], 'S1'
        if ask('?indirect(S2)'):
            return ev + ['addLibrary(S1, ?indirect(S2))'], 'S1'
        return ev + ['dlclose(S1)'], '0'
    table(chk, prog, 'libraries', fn, 'loading a library', [path, err], ref, steps=('dlopen', 'dlsym', 'dlclose', 'addLibrary'),
          show=lambda s, o, a, node: '%s(%s)' % (s, ', '.join(a) if s == 'addLibrary' else a[0]))


# --- reading --------------------------------------------------------------------------

def reading(chk, prog):
    E = 'Core::Processing::Engine::'
    fn = prog.fn(E + 'processStream')
    stream = fn.params[0]['d'].split('#')[0]
    w = Tab(WNorm(fn), ('beginParsing', 'endParsing', 'handleNewChar', 'get', 'isEof'))
    w.loop_bound = 4
    n = w.norm
    for o in Walk(prog, w).run(fn):
        chk.count('ways through')
        if o.kind == 'throw':
            continue
        got = [(sname(e.name), e, i) for i, e in enumerate(o.events)]
        seq = [s for s, e, i in got]
        if seq[:1] != ['beginParsing'] or seq[-1:] != ['endParsing'] or n.t(unwrap(o.ret)) != 'S%d' % len(seq):
            chk.violation('reading', fn.loc(o.node), 'reading a text does not begin and end the parsing, or does not give its result')
            continue
        pending, eof, done = [], False, False
        for s, e, i in got[1:-1]:
            if s == 'get':
                if pending:
                    chk.violation('reading', fn.loc(e.node), 'a character that was read is not handed on')
                pending = ['S%d' % (i + 1)]
            elif s == 'isEof':
                if o.facts.get(('val', 'S%d' % (i + 1))):
                    eof, pending = True, []
            elif s == 'handleNewChar':
                a = n.t(strip_ref(e.args[0]))
                if eof:
                    if a.startswith('S') or done:
                        chk.violation('reading', fn.loc(e.node), 'a character is handed on after the end of the text')
                    done = True
                elif pending != [a]:
                    chk.violation('reading', fn.loc(e.node), 'a character is handed on that was not read just now: %s' % a)
                else:
                    pending = []
        if not eof or not done:
            chk.violation('reading', fn.loc(o.node), 'the end of the text is not handed on')
    fn = prog.fn(E + 'processString')
    s, nm = [p['d'].split('#')[0] for p in fn.params]
    table(chk, prog, 'reading', fn, 'reading a string', [s, nm], lambda ask: (['beginParsing()', 'handleNewString(%s)' % s, 'handleNewChar(1)', 'endParsing()'], 'S4'),
          steps=('beginParsing', 'endParsing', 'handleNewString', 'handleNewChar'), show=lambda x, o, a, node: '%s(%s)' % (x, a[0] if a and x.startswith('handle') else ''))
    fn = prog.fn(E + 'processFile')
    f = fn.params[0]['d'].split('#')[0]
    table(chk, prog, 'reading', fn, 'reading a file', [f], lambda ask: (['processStream(%s)' % f], 'S1'), steps=('processStream',), show=lambda x, o, a, node: '%s(%s)' % (x, a[1]))
    fn = prog.fn('Core::Main::RootScopeHandler::_addNewElement')
    data, parser, state = [p['d'].split('#')[0] for p in fn.params[1:]]
    for d in (data, False):
        table(chk, prog, 'reading', fn, 'an element at the root' if d else 'nothing at the root', ['self', d, parser, state],
              lambda ask: (['addPossiblyMergeableElement(%s, self.rootScope, self.seeker, %s.getNoticeStore)' % (data, state)] if d else [], None),
              steps=('addPossiblyMergeableElement',), kinds={'self': ('RootScopeHandler',)})
    for name in ('processString', 'processStream'):
        fn = prog.fn(RM + name)
        ps = [p['d'].split('#')[0] for p in fn.params]
        table(chk, prog, 'reading', fn, fn.n, ps, lambda ask: (['relay(self.noticeSignal)', '%s(%s)' % (name, ', '.join(ps))], 'S2'), steps=('relay', name),
              show=lambda x, o, a, node: 'relay(%s)' % o if x == 'relay' else '%s(%s)' % (x, ', '.join(a)))
    fn = prog.fn(RM + 'doesFileExist')
    f = fn.params[0]['d'].split('#')[0]
    w = Tab(WNorm(fn), ('stat',))
    n = w.norm
    for o in Walk(prog, w).run(fn):
        chk.count('ways through')
        bad = o.facts.get(('val', 'S1'))
        r = n.t(o.ret)
        if not o.events or n.t(strip_ref(o.events[0].args[0])) != f:
            chk.violation('reading', fn.loc(o.node), 'whether a file is there is not decided by its name')
        elif bad and truthy(o) is not False or bad is False and (truth(o.ret, lambda k: False if k[0] == '(' and '61440' in k and '16384' in k else None, {}, n) is not True or truth(o.ret, lambda k: True if k[0] == '(' and '61440' in k and '16384' in k else None, {}, n) is not False):
            chk.violation('reading', fn.loc(o.node), 'a file counts as there if it is %s' % ('not there' if bad else r))
