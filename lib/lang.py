"""Regular languages of tokens: definitions and oracle expressions as one kind of
expression over sets of code points, compared through derivatives."""
import re._parser as sre
from facts import Broken

MAXC = 0x10FFFF
EMPTY = ('none',)
EPS = ('eps',)


def cs(iv):
    iv = sorted((max(0, a), min(MAXC, b)) for a, b in iv if b >= 0 and a <= MAXC)
    r = []
    for a, b in iv:
        if r and a <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(r[-1][1], b))
        else:
            r.append((a, b))
    return ('cs', tuple(r)) if r else EMPTY


def inv(iv):
    r, n = [], 0
    for a, b in cs(iv)[1] if iv else ():
        if a > n:
            r.append((n, a - 1))
        n = b + 1
    if n <= MAXC:
        r.append((n, MAXC))
    return r


def cat(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    if a == EPS:
        return b
    if b == EPS:
        return a
    if a[0] == 'cat':
        return cat(a[1], cat(a[2], b))
    return ('cat', a, b)


def alt(*xs):
    s = set()
    for x in xs:
        if x[0] == 'alt':
            s |= x[1]
        elif x != EMPTY:
            s.add(x)
    if not s:
        return EMPTY
    if len(s) == 1:
        return next(iter(s))
    return ('alt', frozenset(s))


def seq(xs):
    r = EPS
    for x in reversed(xs):
        r = cat(x, r)
    return r


def star(x):
    return x if x[0] == 'star' else EPS if x in (EPS, EMPTY) else ('star', x)


def rep(x, lo, hi):
    """hi None: without limit"""
    r = star(x) if hi is None else EPS
    if hi is not None:
        for _ in range(hi - lo):
            r = alt(EPS, cat(x, r))
    for _ in range(lo):
        r = cat(x, r)
    return r


def word(s):
    return seq([cs([(ord(c), ord(c))]) for c in s])


def nullable(e):
    k = e[0]
    return k in ('eps', 'star') or k == 'cat' and nullable(e[1]) and nullable(e[2]) or k == 'alt' and any(nullable(x) for x in e[1])


def d(e, c):
    k = e[0]
    if k == 'cs':
        return EPS if any(a <= c <= b for a, b in e[1]) else EMPTY
    if k == 'cat':
        r = cat(d(e[1], c), e[2])
        return alt(r, d(e[2], c)) if nullable(e[1]) else r
    if k == 'alt':
        return alt(*[d(x, c) for x in e[1]])
    if k == 'star':
        return cat(d(e[1], c), e)
    return EMPTY


def sets(e, acc):
    if e[0] == 'cs':
        acc.add(e[1])
    for x in e[1:]:
        if isinstance(x, frozenset):
            for y in x:
                sets(y, acc)
        elif isinstance(x, tuple) and x and isinstance(x[0], str):
            sets(x, acc)
    return acc


def differ(a, b):
    """A shortest word in exactly one of the languages, or None; and the number of state pairs compared."""
    cuts = {0}
    for s in sets(a, set()) | sets(b, set()):
        for x, y in s:
            cuts |= {x, y + 1}
    reps = sorted(c for c in cuts if c <= MAXC)
    seen = {(a, b)}
    todo = [(a, b, '')]
    for x, y, w in todo:
        if nullable(x) != nullable(y):
            return w, len(seen)
        for c in reps:
            p = (d(x, c), d(y, c))
            if p not in seen:
                if len(seen) > 5000:
                    raise Broken('a token definition has too many states')
                seen.add(p)
                todo.append(p + (w + chr(c),))
    return None, len(seen)


def regex(r):
    """An oracle expression (Python syntax; plain characters, classes, groups, repetition)."""
    def item(op, av):
        op = str(op)
        if op == 'LITERAL':
            return cs([(av, av)])
        if op == 'NOT_LITERAL':
            return cs(inv([(av, av)]))
        if op == 'ANY':
            return cs([(0, MAXC)])
        if op == 'IN':
            iv, neg = [], False
            for o, v in av:
                o = str(o)
                if o == 'NEGATE':
                    neg = True
                elif o == 'LITERAL':
                    iv.append((v, v))
                elif o == 'RANGE':
                    iv.append(v)
                else:
                    raise ValueError(o)
            return cs(inv(iv) if neg else iv)
        if op == 'BRANCH':
            return alt(*[items(x) for x in av[1]])
        if op == 'SUBPATTERN':
            return items(av[-1])
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, x = av
            return rep(items(x), lo, None if hi == sre.MAXREPEAT else hi)
        raise ValueError(op)

    def items(p):
        return seq([item(o, a) for o, a in p])
    return items(sre.parse(r))


class Tokens:
    """The languages of the token definitions of a grammar."""

    def __init__(self, g, module):
        self.g, self.m = g, module
        self.deps = {}

    def ref(self, r):
        p = self.g.target(r.args[0], self.m)
        if p is None:
            raise Broken('token reference %s is not understood' % (r.args[0],))
        return p

    def unit(self, u):
        if not hasattr(u, 'c'):
            raise Broken('a character group is not understood')
        if u.c == 'SequenceCharGroupUnit':
            a, b = [x if isinstance(x, int) else ord(x) for x in u.args]
            return [(a, b)]
        if u.c == 'RandomCharGroupUnit':
            return [(ord(c), ord(c)) for c in u.args[0]]
        if u.c == 'UnionCharGroupUnit':
            return [i for x in u.args[0] for i in self.unit(x)]
        if u.c == 'InvertCharGroupUnit':
            return inv(self.unit(u.args[0]))
        raise Broken('character group %s is not understood' % u.c)

    def lang(self, path, seen=()):
        if path in seen:
            raise Broken('token %s refers to itself' % path)
        v = self.g.value(path)
        c = getattr(v, 'c', None)
        if c == 'CharGroupDefinition':
            return cs(self.unit(v.args[0]))
        if c == 'SymbolDefinition':
            return self.term(v.f['term'], seen + (path,))
        raise Broken('token %s is not defined in a way that is understood (%s)' % (path, c))

    def term(self, t, seen):
        if t.c == 'ConstTerm':
            return word(t.f['matchString'])
        if t.c == 'CharGroupTerm':
            return self.lang(self.ref(t.f['charGroupReference']), seen)
        if t.c == 'ReferenceTerm':
            return self.lang(self.ref(t.f['reference']), seen)
        if t.c in ('ConcatTerm', 'AlternateTerm'):
            xs = [self.term(x, seen) for x in t.f['terms'].items]
            return seq(xs) if t.c == 'ConcatTerm' else alt(*xs)
        if t.c == 'MultiplyTerm':
            lo = int(t.f.get('min') or 0)
            hi = t.f.get('max')
            return rep(self.term(t.f['term'], seen), lo, int(hi) if hi is not None and not (hi == 0 and not t.f.get('min') and type(hi) is int) else None)
        raise Broken('token term %s is not understood' % t.c)
