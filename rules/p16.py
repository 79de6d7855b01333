"""P16: literals and names mean what is written."""
import itertools
import re
import gram
import lang
from world import *

TITLE = 'Names, numbers, characters and strings are read as written'
TECHNIQUE = ('language equality of the token definitions with oracle expressions; path-sensitive dataflow summaries of the decoding functions '
             'over every shape of token, compared with the value rules')
NOTE = ('Token languages are compared exactly, for words of every length. Decoding is exhaustive over the kinds of characters at up to four '
        'positions; longer texts repeat the same steps. Trusts the clang front end, the summary engine, the lexer\'s matching of text against '
        'definitions, and the C library\'s number conversions.')
RULE = ('the language of every token equals the oracle\'s; every escape gives its character and every other character itself; digits add up in '
        'the base the prefix names; suffixes choose signedness and size, absent ones the smallest that fits; the literal has that type, '
        'size, sign and value; strings end in one zero')

LETTER = 'a-zA-Z_\u0620-\u065f\u066e-\u06dc'
HEX = '[0-9a-fA-F]'
ES = '\\\\([\\\\"\'ntfrجتر]|[hx]%s{2}|u%s{4}|U%s{8})' % (HEX, HEX, HEX)
PF = '[fFع][0-9]*'
EX = '[eE][+-]?[0-9]+'
SP = '[ \r\n\t\u200f]'
STR = '("([^\\\\"]|%s)*")' % ES
TOKENS = {
    'Identifier': '[%s][%s0-9]*' % (LETTER, LETTER),
    'IntLiteral': '([0-9]+|0[bBن][01]+|0[oOم][0-7]+|0[hHxX]%s+)[uUط]?([iIص][0-9]+)?' % HEX,
    'FloatLiteral': '[0-9]+%s|[0-9]+%s(%s)?|[0-9]*\\.[0-9]+(%s)?(%s)?' % (PF, EX, PF, EX, PF),
    'CharLiteral': "'([^\\\\']|%s)'" % ES,
    'StringLiteral': '%s(%s*%s)*' % (STR, SP, STR),
    'IgnoredSpaces': SP + '+',
    'LineComment': '(//|#)[^\n]*\n',
    'MultilineComment': '/\\*[\x00-\U0010ffff]*\\*/',
}
WHAT = {'Identifier': 'a name', 'IntLiteral': 'a whole number', 'FloatLiteral': 'a number with a fraction, exponent or float suffix', 'CharLiteral': 'a character',
        'StringLiteral': 'a string', 'IgnoredSpaces': 'space', 'LineComment': 'a line comment', 'MultilineComment': 'a block comment'}
ROOT, IGNORED, SHORTER = 1 << 16, 1 << 17, 1 << 18
FLAGS = {'IgnoredSpaces': ROOT | IGNORED, 'LineComment': ROOT | IGNORED, 'MultilineComment': ROOT | IGNORED | SHORTER}
HANDLERS = {'Identifier': ('IdentifierTokenizingHandler', None), 'CharLiteral': ('StringLiteralTokenizingHandler', 'SINGLE'),
            'StringLiteral': ('StringLiteralTokenizingHandler', 'DOUBLE')}


def grammar(prog):
    b = gram.build(prog, 'Core::Data::Grammar::StandardFactory', 'createGrammar', {'exprOnly': False})
    b = gram.build(prog, 'Spp::Grammar::SppFactory', 'createGrammar', onto=b)
    return gram.Grammar(b)


def esc(w):
    return ''.join(c if c.isprintable() else '\\u%04x' % ord(c) for c in w)


def tokens(chk, prog):
    g = grammar(prog)
    T = lang.Tokens(g, 'root.LexerDefs')
    enum = prog.enums.get('Core::Processing::Handlers::OuterQuoteType') if hasattr(prog, 'enums') else None
    for name, r in TOKENS.items():
        p = 'root.LexerDefs.' + name
        v = g.value(p)
        if getattr(v, 'c', None) != 'SymbolDefinition':
            raise Broken('the definition of token %s is not found' % name)
        chk.count('token languages')
        w, n = lang.differ(T.lang(p), lang.regex(r))
        chk.count('language states compared', n)
        if w is not None:
            is_ = lang.nullable(after(T.lang(p), w))
            chk.violation('token:' + name, v.loc, 'the text `%s` is %s %s' % (esc(w), 'read as' if is_ else 'not read as', WHAT[name])
                          + (', which it is not' if is_ else ', which it is'))
        fl = int(v.f.get('flags') or 0)
        if fl != FLAGS.get(name, ROOT):
            chk.violation('token:%s:flags' % name, v.loc, '%s: the token is%s%s%s' % (name, '' if fl & ROOT else ' not looked for on its own', ' ignored' if fl & IGNORED else ' not ignored',
                                                                                     ' matched shortest first' if fl & SHORTER else ' matched longest first'))
        h = v.f.get('handler')
        want = HANDLERS.get(name)
        got = None if gram.null(h) else h.c
        if got != (want and want[0]):
            chk.violation('token:%s:handler' % name, v.loc, '%s: the text is prepared by %s, not by %s' % (name, got or 'nothing', want and want[0] or 'nothing'))
        elif want and want[1]:
            q = int(h.args[0]) if h.args else None
            if q != QUOTE[want[1]]:
                chk.violation('token:%s:handler' % name, v.loc, '%s: the other kind of quote is taken off' % name)
        chk.sample('%s: language of %d state pairs equals %s' % (name, n, esc(r)[:60]))
    # nothing else is a token that starts by itself
    for p, v in g.defs.items():
        if p.startswith('root.LexerDefs.') and getattr(v, 'c', '') == 'SymbolDefinition' and int(v.f.get('flags') or 0) & ROOT:
            n = p.rsplit('.', 1)[1]
            if n not in TOKENS and 'term' in v.f and v.f['term'].c != 'ConstTerm':
                chk.violation('token:extra:' + n, v.loc, 'the token %s is not among the kinds of tokens the language has' % n)
    chk.floor('token languages', 8)
    return g


QUOTE = {'SINGLE': 0, 'DOUBLE': 1}


def after(e, w):
    for c in w:
        e = lang.d(e, ord(c))
    return e


# ---------------------------------------------------------------- texts ----
class Chars:
    """What may be at one position of a text: a set of characters, or all but some."""

    def __init__(self, s, neg=False):
        self.s, self.neg = frozenset(s), neg

    def eq(self, c):
        if self.neg:
            return False if c in self.s else None
        return None if c in self.s and len(self.s) > 1 else c in self.s

    def test(self, f):
        if self.neg:
            return None
        r = {f(c) for c in self.s}
        return r.pop() if len(r) == 1 else None


class TextWorld(World):
    """The text a function reads has, at each position, a known set of characters."""
    loop_bound = 40
    max_paths = 400
    keep = ('strToInt',)

    def __init__(self, norm, steps, base, shape, values=None, hook=None, inline=(), record=()):
        World.__init__(self, norm, steps, values, None, None, hook, inline, record)
        self.base, self.shape = base, shape     # base: whether a term is the start of the text
        self.wide = False

    def global_value(self, w, name):
        v = w.prog.vars.get(name)
        if not v or 'init' not in v:
            return None
        i = v['init']
        while True:
            n = v['nodes'][i]
            if n['k'] in ('IntegerLiteral', 'CharacterLiteral'):
                return C(n['v'])
            if n['k'] == 'StringLiteral':
                s = n['v']
                return C(str(ord(s[0]))) if s else None
            if n['c'] and (len(n['c']) == 1 or n['k'] in ('Call', 'CallExpr')) and (n['k'] not in ('Call', 'CallExpr') or sname(n.get('fn', '')) == 'getWideCharFromUtf8'):
                i = n['c'][-1]
                continue
            return None

    def off(self, t):
        """Distance of a pointer from the start of the text."""
        t = strip_as(t)
        if self.base(t):
            return 0
        if t[0] == 'addr':
            return self.pos(t[1])
        if t[0] == 'bin' and t[1] in ('+', '-'):
            a, c = t[2], t[3]
            if a[0] == 'c' and t[1] == '+':
                a, c = c, a
            o = self.off(a)
            if o is not None and c[0] == 'c' and c[1].lstrip('-').isdigit():
                return o + int(c[1]) * (1 if t[1] == '+' else -1)
        if t[0] in ('inc', 'dec'):
            o = self.off(t[1])
            return None if o is None else o + (1 if t[0] == 'inc' else -1)
        return None

    def pos(self, t):
        """Position of a character of the text."""
        t = strip_as(t)
        if t[0] == 'deref':
            return self.off(t[1])
        if t[0] == 'idx' and t[2][0] == 'c' and t[2][1].lstrip('-').isdigit():
            o = self.off(t[1])
            return None if o is None else o + int(t[2][1])
        return None

    def at(self, i):
        return self.shape[i] if 0 <= i < len(self.shape) else Chars([0])

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        if s == 'getWideCharFromUtf8' and len(args) == 1:
            a = unstr(args[0])
            return C(str(ord(a[1][0]))) if a[0] == 's' and a[1] else a if a[0] == 'c' else None
        if s in ('getStrLen', 'strlen', 'wcslen') and len(args) == 1:
            o = self.off(args[0])
            if o is not None:
                return C(str(max(0, len(self.shape) - o)))
        if s in ('compareStr', 'strncmp', 'strcmp') and len(args) >= 2:
            r = self.compare(args)
            if r is not None:
                return C('0' if r else '1')
        return World.call_value(self, w, st, name, node, obj, args)

    def compare(self, args):
        a, b = args[0], unstr(args[1])
        if b[0] != 's':
            a, b = args[1], unstr(args[0])
        o = self.off(a)
        if o is None or b[0] != 's':
            return None
        x = [c if c < 128 else c - 256 for c in b[1].encode()] + [0]
        if len(args) == 3:
            if args[2][0] != 'c':
                return None
            x = x[:int(args[2][1])]
        r = True
        for i, c in enumerate(x):
            v = self.at(o + i).eq(c)
            if v is False:
                return False
            if v is None:
                r = None
        return r

    def atom(self, t):
        if t[0] in ('eq', 'lt'):
            for a, c, swap in ((t[1], t[2], False), (t[2], t[1], True)):
                if c[0] == 'c' and c[1].lstrip('-').isdigit():
                    p = self.pos(a)
                    if p is not None:
                        k = int(c[1])
                        if t[0] == 'eq':
                            return self.at(p).eq(k)
                        return self.at(p).test((lambda x: k < x) if swap else (lambda x: x < k))
        return World.atom(self, t)

    def decide(self, p):
        x = self.pos(p)
        if x is not None:
            r = self.at(x).eq(0)
            return None if r is None else not r
        return World.decide(self, p)


def chars(s):
    return Chars([ord(c) for c in s])


# -------------------------------------------------------------- strings ----
ESCAPES = {'n': 10, 'ج': 10, 'r': 13, 'ر': 13, 't': 9, 'ت': 9, 'f': 12, '\\': 92, '"': 34, "'": 39}
CODES = {'x': 2, 'h': 2, 'u': 4, 'U': 8}
NAMES = {10: 'line feed', 13: 'carriage return', 9: 'tab', 12: 'form feed', 92: '\\', 34: '"', 39: "'"}
HEXC = chars('0123456789abcdefABCDEF')


def elements(outer):
    yield 'a character', [Chars([0, ord(outer), 92], True)], 'char'
    yield 'a quote of the other kind', [chars('"' if outer == "'" else "'")], 'char'
    for e, v in ESCAPES.items():
        yield '\\' + e, [chars('\\'), chars(e)], v
    for e, k in CODES.items():
        yield '\\' + e + 'H' * k, [chars('\\'), chars(e)] + [HEXC] * k, ('hex', k)


def strings(chk, prog):
    fn = prog.fn('Core::Processing::Handlers::StringLiteralTokenizingHandler::prepareToken')
    P = [p['d'] for p in fn.params]
    TEXT = ('v', P[2], 0)
    for outer in '"\'':
        els = list(elements(outer))
        q = chars(outer)
        cases = [((), ())] if outer == '"' else []
        cases += [((a,), ()) for a in els]
        if outer == '"':
            cases += [((a, b), ()) for a in els for b in els]
            plain = els[0]
            some = [(), (plain,), (els[2],), (plain, plain), (plain,) * 3]
        cases = [(a,) for a, b in cases]
        if outer == '"':
            cases += [(x, y) for x in some for y in some] + [((plain,),) * 3, ((), (plain, plain), ()), ((plain,) * 5,)]
        for parts in cases:
            shape, want, words = [], [], []
            for k, p in enumerate(parts):
                if k:
                    shape.append(chars(' \n\t'))
                shape.append(q)
                for nm, s, v in p:
                    at = len(shape)
                    shape += s
                    want.append((at, v))
                    words.append(nm)
                shape.append(q)
            what = '%s %s' % ('a string with' if outer == '"' else 'a character literal with', ' then '.join(words) or 'nothing')
            if len(parts) > 1:
                what += ', in two parts'
            string_case(chk, prog, fn, P, TEXT, outer, shape, want, what)
    chk.floor('string shapes', 290)


def same_ptr(a, b):
    return strip_as(a) == strip_as(b)


def string_case(chk, prog, fn, P, TEXT, outer, shape, want, what):
    chk.count('string shapes')
    n = WNorm(fn, None)
    w = TextWorld(n, ('setText', 'setId', 'setAsKeyword', 'setSourceLocation'), lambda t: t == TEXT, shape,
                  {'(DOUBLE==self.outerQuoteType)': outer == '"', '(SINGLE==self.outerQuoteType)': outer == "'",
                   '(self.outerQuoteType==SINGLE)': outer == "'", '(self.outerQuoteType==DOUBLE)': outer == '"'}, inline=())
    args = [('v', p, 0) for p in P]
    args[3] = C(str(len(shape)))
    outs = [o for o in Walk(prog, w).run(fn, args=args) if o.kind != 'throw']

    def bad(key, msg, node=None):
        chk.violation('string:' + key, fn.loc(node if node is not None else 0), '%s: %s' % (what, msg))
    if not outs:
        raise Broken('%s: no way through %s' % (what, fn.q))
    for o in outs:
        string_way(fn, P, n, w, o, shape, want, bad)


def string_way(fn, P, n, w, o, shape, want, bad):
    ev = {}
    for e in o.events:
        ev.setdefault(sname(e.name), []).append(e)
    st = ev.get('setText', [])
    if len(st) != 1:
        bad('text', 'the text of the token is set %d times' % len(st))
        return
    for s, p in (('setId', 1), ('setSourceLocation', 4)):
        x = ev.get(s, [])
        if len(x) != 1 or strip_ref(x[0].args[0]) != ('v', P[p], 0):
            bad(s, '%s is not called once with %s' % (s, P[p].split('#')[0]))
    x = ev.get('setAsKeyword', [])
    if len(x) != 1 or n.t(x[0].args[0]) not in ('0', 'false'):
        bad('keyword', 'the token is not set as no keyword')
    e = st[0]
    if len(e.args) != 2:
        raise Broken('setText does not get the buffer and its length')
    buf, ln = strip_as(e.args[0]), e.args[1]
    cells = {}
    wb = TextWorld(n, (), lambda t: strip_as(t) == buf, [])
    for k, v in o.state.heap.items():
        if k[0] in ('idx', 'deref'):
            p = wb.pos(k)
            if p is not None:
                cells[p] = v
    if ln[0] != 'c':
        raise Broken('the length of the text is not known: %s' % n.t(ln))
    got = [cells.get(i, ('c', '?')) for i in range(int(ln[1]))]
    exp = []
    for at, v in want:
        exp.append(v if v != 'char' else 'char')
    if len(got) != len(want):
        bad('length', '%d characters are kept, not %d' % (len(got), len(want)), e.node)
        return
    for i, ((at, v), x) in enumerate(zip(want, got)):
        x = strip_as(x)
        if v == 'char':
            ok = w.pos(x) == at or shape[at].eq(int(x[1])) is True if x[0] == 'c' and x[1].isdigit() else w.pos(x) == at
            exp = 'the character itself'
        elif isinstance(v, tuple):
            ok = x[0] == 'call' and sname(x[1]) == 'parseHexDigits' and w.off(x[2][0]) == at + 2 and x[2][1] == C(str(v[1]))
            exp = 'the character with the code given by the %d digits' % v[1]
        else:
            ok = x == C(str(v)) or (w.pos(x) is not None and w.at(w.pos(x)).eq(v) is True)
            exp = NAMES[v]
        if not ok:
            bad('value:%s' % (v if not isinstance(v, tuple) else v[1]), 'element %d gives %s, not %s' % (i + 1, n.t(x), exp), e.node)
    if 0 in [p for p in cells if p == len(want)] and cells.get(len(want)) != C('0'):
        bad('end', 'the text does not end there')


# -------------------------------------------------------------- numbers ----
def linear(t, atom):
    """A sum of multiples of atoms: {atom: factor, None: constant}; None when it is not one."""
    t = strip_as(t)
    if t[0] == 'c':
        v = {'true': '1', 'false': '0'}.get(t[1], t[1])
        return {None: int(v)} if v.lstrip('-').isdigit() else None
    a = atom(t)
    if a is not None:
        return {a: 1, None: 0}
    if t[0] in ('inc', 'dec'):
        r = linear(t[1], atom)
        return r and add(r, {None: 1 if t[0] == 'inc' else -1}, 1)
    if t[0] == 'bin' and t[1] in ('+', '-', '*', '<<', '|'):
        x, y = linear(t[2], atom), linear(t[3], atom)
        if x is None or y is None:
            return None
        if t[1] in ('+', '-'):
            return add(x, y, 1 if t[1] == '+' else -1)
        if t[1] == '|':
            # digits below what was shifted
            return add(x, y, 1) if all(v % 2 == 0 for v in x.values()) or all(v % 2 == 0 for v in y.values()) else None
        if t[1] == '<<':
            y = {None: 1 << y[None]} if set(y) == {None} and 0 <= y[None] < 64 else None
            if y is None:
                return None
        if set(x) != {None}:
            x, y = y, x
        if set(x) == {None}:
            return {k: v * x[None] for k, v in y.items()}
    return None


def add(x, y, f):
    r = dict(x)
    for k, v in y.items():
        r[k] = r.get(k, 0) + f * v
    return {k: v for k, v in r.items() if v or k is None}


def norm_lin(x):
    return None if x is None else {k: v for k, v in x.items() if v}


def hexdigits(chk, prog):
    fn = prog.fn('Core::Basic::parseHexDigit')
    n = WNorm(fn, None)
    wc = ('v', fn.params[0]['d'], 0)
    for name, cls, k in (('a decimal digit', '0123456789', -48), ('a small letter', 'abcdef', -87), ('a capital letter', 'ABCDEF', -55)):
        chk.count('digit classes')
        w = TextWorld(n, (), lambda t: t == ('addr', wc), [chars(cls)])
        w.pos = lambda t: 0 if strip_as(t) == wc else None
        for o in Walk(prog, w).run(fn):
            v = linear(o.ret, lambda t: 'wc' if t == wc else None) if o.kind == 'return' else None
            if v != {'wc': 1, None: k}:
                chk.violation('hexdigit', fn.loc(o.node), '%s as a hexadecimal digit gives %s' % (name, n.t(o.ret) if o.kind == 'return' else 'an exception'))
    fn = prog.fn('Core::Basic::parseHexDigits')
    n = WNorm(fn, None)
    p = ('v', fn.params[0]['d'], 0)
    for cnt in (1, 2, 4, 8):
        chk.count('digit classes')
        w = TextWorld(n, (), lambda t: t == p, [HEXC] * cnt)

        def atom(t, w=w):
            if t[0] == 'call' and sname(t[1]) == 'parseHexDigit' and w.pos(t[2][0]) is not None:
                return w.pos(t[2][0])
        outs = [o for o in Walk(prog, w).run(fn, args=[p, C(str(cnt))]) if o.kind == 'return']
        if not outs:
            raise Broken('no way through parseHexDigits')
        for o in outs:
            want = {i: 16 ** (cnt - 1 - i) for i in range(cnt)}
            if norm_lin(linear(o.ret, atom)) != want:
                chk.violation('hexdigits', fn.loc(o.node), '%d hexadecimal digits give %s' % (cnt, n.t(o.ret)))
    chk.floor('digit classes', 7)


BASES = [('', 10)] + [('0' + p, b) for b, ps in ((2, 'bBن'), (8, 'oOم'), (16, 'hHxX')) for p in ps]
CLASSES = {10: (('0123456789', -48),), 2: (('01', -48),), 8: (('01234567', -48),), 16: (('0123456789', -48), ('abcdef', -87), ('ABCDEF', -55))}
DIGITS = chars('0123456789')


def sb(s):
    """The bytes of a text, as signed characters."""
    return [Chars([c if c < 128 else c - 256]) for c in s.encode()]


def integers(chk, prog):
    fn = prog.fn('Spp::CodeGen::ExpressionGenerator::_generateIntegerLiteral')
    unsigned = ('', 'u', 'U', 'ط')
    sizes = ('', 'i', 'I', 'ص')
    cases = []
    for p, b in BASES:
        for m in (1, 2, 3):
            for ks in itertools.product(CLASSES[b], repeat=m):
                cases.append((p, b, ks, '', '', 0))
        for u, s in itertools.product(unsigned, sizes):
            cases.append((p, b, CLASSES[b][-1:] * 2, u, s, 2 if s else 0))
    for s in sizes[1:]:
        cases.append(('', 10, CLASSES[10], '', s, 1))
        cases.append(('', 10, CLASSES[10], 'u', s, 3))
    for p, b, ks, u, s, k in cases:
        integer_case(chk, prog, fn, p, b, ks, u, s, k)
    value_params(chk, prog)
    chk.floor('number shapes', 250)
    chk.floor('places of the value', 4)


def lit_base(n):
    def base(t):
        return t[0] == 'call' and n.t(t).startswith('astNode.getValue') or n.t(t) in ('astNode.getValue', 'astNode.getValue.getStr')
    return base


LITSTEPS = ('generateIntLiteral', 'generateFloatLiteral', 'generateStringLiteral', 'getGeneratedType', 'pushPrefixSourceLocation', 'popPrefixSourceLocation')


def integer_case(chk, prog, fn, p, b, ks, u, s, k):
    chk.count('number shapes')
    n = WNorm(fn, None)
    d0 = len(p.encode())
    shape = sb(p) + [chars(c) for c, _ in ks] + sb(u) + sb(s)
    sat = len(shape)
    shape += [DIGITS] * k
    w = TextWorld(n, LITSTEPS, lit_base(n), shape, {})
    what = '%s%s%s%s%s' % (p, ''.join({'0': 'd', 'a': 'h', 'A': 'H'}.get(c[0], 'd') for c, _ in ks), u, s, 'd' * k)
    want = {d0 + i: b ** (len(ks) - 1 - i) for i in range(len(ks))}
    want[None] = sum(c[1] * b ** (len(ks) - 1 - i) for i, c in enumerate(ks))

    def value(t):
        return linear(t, w.pos)

    def isval(t):
        v = value(t)
        return v is not None and norm_lin(v) == norm_lin(want)

    def size_text(t):
        return t[0] == 'call' and any(w.off(x) == sat for x in t[2])

    def bad(key, msg, node=None):
        chk.violation('int:' + key, fn.loc(node if node is not None else 0), 'the number %s: %s' % (what, msg))
    outs = [o for o in Walk(prog, w).run(fn) if o.kind == 'return']
    if not outs:
        raise Broken('no way through the generation of the number ' + what)
    if len(ks) == 3 and len({c for c, _ in ks}) == 1:
        widths(chk, prog, fn, outs[0], isval)
    for o in outs:
        chk.count('ways through number generation')
        zero = one = size0 = None
        for f, v in o.facts.items():
            if isval(f):
                zero = not v
            elif f[0] == 'eq':
                for x, c in ((f[1], f[2]), (f[2], f[1])):
                    if c[0] == 'c' and isval(x):
                        if c[1] == '1':
                            one = v
                        else:
                            bad('special', 'is treated specially when it is ' + c[1])
                    elif x[0] == 'c' and False:
                        pass
            elif size_text(f):
                size0 = not v
            elif f[0] == 'lt' and 'c' in (f[1][0], f[2][0]):
                x, c, sw = (f[2], f[1], True) if f[1][0] == 'c' else (f[1], f[2], False)
                if isval(x) and c == C('2') and not sw:
                    # below two: zero or one
                    if v:
                        one = True if zero is False else None
                    else:
                        zero, one = False, False
        if zero:
            one = False
        if one:
            zero = False
        if not s:
            size0 = True
        gt = [e for e in o.events if sname(e.name) == 'getGeneratedType']
        gi = [e for e in o.events if sname(e.name) == 'generateIntLiteral']
        other = [e for e in o.events if sname(e.name) in ('generateFloatLiteral', 'generateStringLiteral')]
        if len(gt) != 1 or other or len(gi) > 1:
            bad('steps', 'the type is generated %d times, the literal %d times' % (len(gt), len(gi) + len(other)))
            continue
        # (zero, one, size0) as far as this way knows
        for z, on, s0 in itertools.product((False, True), (False, True), (False, True)):
            if z and on or zero not in (None, z) or one not in (None, on) or size0 not in (None, s0):
                continue
            if s and k and size0 is None and s0:
                continue    # the size is not compared with nothing: it is nothing only when left out
            signed = not u and not (s0 and (z or on))
            t = strip_as(gt[0].args[0])
            tn = sname(t[1]) if t[0] == 'call' else '?'
            wt = 'getNullType' if not s and z else 'getIntType' if signed else 'getWordType'
            case = ' when it is %s' % ('0' if z else '1' if on else 'neither 0 nor 1')
            if tn != wt:
                bad('type:' + wt, 'its type comes from %s instead of %s%s' % (tn, wt, case), gt[0].node)
                continue

            def size_ok(x):
                x = strip_as(x)
                if s0:
                    nm = 'getNeededIntSize' if signed else 'getNeededWordSize'
                    return x[0] == 'call' and sname(x[1]) == nm and isval(x[2][-1])
                return size_text(x)
            if tn != 'getNullType' and not size_ok(t[2][-1]):
                bad('size', 'the size of its type is %s%s' % (n.t(t[2][-1]), case), gt[0].node)
            for e in gi:
                a = e.args[-4:]
                if not size_ok(a[0]):
                    bad('size', 'its size is %s%s' % (n.t(a[0]), case), e.node)
                if n.t(a[1]) not in (('1', 'true') if signed else ('0', 'false')):
                    bad('sign', 'is made %s%s' % ('unsigned' if signed else 'signed', case), e.node)
                if not isval(a[2]):
                    bad('value', 'its value is %s' % n.t(a[2]), e.node)
        result(chk, o, n, gt, gi, lambda m, e=None: bad('result', m, e and e.node))


def result(chk, o, n, gt, gi, bad):
    """The type generated is the type of the result, and the literal is made if code is generated."""
    ok = [truth_of(o, e.res) if e.res is not None else None for e in gt]
    ctx = None
    for f, v in o.facts.items():
        if f[0] == 'call' and sname(f[1]) == 'getTgContext':
            ctx = v
    ret = n.t(o.ret)
    good = all(x is True for x in ok)
    if good and ctx is None:
        bad('whether code is generated is not asked')
    if (len(gi) == 1) != (good and bool(ctx)):
        bad('the literal is made %d times %s' % (len(gi), 'though its type failed' if not good else 'when only the type is asked for' if not ctx else 'when code is generated'))
        return
    lit = [truth_of(o, e.res) for e in gi]
    done = good and all(x is not False for x in lit)
    if done:
        r = None
        for k, v in o.state.heap.items():
            if k[0] == 'f' and sname(k[2]) == 'astType':
                r = v
        if r is None:
            bad('the type of the result is not set')
        elif strip_as(r) != strip_as(gt[-1].args[0]):
            bad('the type of the result is %s' % n.t(r))
        for e in gi:
            if 'result.targetData' not in n.t(e.args[-1]):
                bad('the value goes to %s' % n.t(e.args[-1]), e)
    if ret not in (('1', 'true') if done else ('0', 'false')) and not (gi and truth_of(o, o.ret) is done):
        bad('the outcome is %s' % ret)


WIDE = ('long', 'unsigned long', 'long long', 'unsigned long long', 'int64_t', 'uint64_t', '__int128', 'unsigned __int128')
INTS = WIDE + ('int', 'unsigned int', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'float', 'double', 'bool')


def widths(chk, prog, fn, o, isval):
    """The variables the value is kept in have room for every number."""
    vs = {k[1] for k, v in o.state.env.items() if k[0] == 0 and isval(v)}
    for i, n in fn.walk():
        if n['k'] == 'DeclStmt':
            for v in n['vars']:
                if v['d'] in vs:
                    chk.count('places of the value')
                    t = v['t'].replace('const ', '').replace(' &', '')
                    if t in INTS and t not in WIDE:
                        chk.violation('int:width', fn.loc(i), 'the value of a number is kept in %s, a variable of type %s' % (v['d'].split('#')[0], t))
        if n['k'] == 'Cast' and n['c'] and n.get('t') in INTS and n['t'] not in WIDE and n.get('ck') not in ('IntegralToBoolean',) and n['t'] != 'bool':
            x = fn.nodes[n['c'][0]]
            while x['k'] == 'Cast' and x['c']:
                x = fn.nodes[x['c'][0]]
            if x['k'] == 'DeclRefExpr' and x['d'] in vs:
                chk.violation('int:width', fn.loc(i), 'the value of a number is cut to the type %s' % n['t'])
    return bool(vs)


def value_params(chk, prog):
    for q, i in (('Spp::Ast::Helper::_getNeededIntSize', 1), ('Spp::Ast::Helper::_getNeededWordSize', 1), ('Spp::LlvmCodeGen::TargetGenerator::generateIntLiteral', 3)):
        fn = prog.fn(q)
        chk.count('places of the value')
        if fn.params[i]['t'].replace('const ', '') not in WIDE:
            chk.violation('int:width', fn.loc(0), 'the value of a number is passed as %s' % fn.params[i]['t'])


def floats(chk, prog):
    fn = prog.fn('Spp::CodeGen::ExpressionGenerator::_generateFloatLiteral')
    n = WNorm(fn, None)
    for suf in ('', 'f', 'F', 'ع'):
        for k in (0, 1, 2):
            if not suf and k:
                continue
            chk.count('number shapes')
            shape = sb(suf) + [DIGITS] * k
            END = ('el', 'END')

            def conv(t):
                return t[0] == 'call' and sname(t[1]) in ('strtof', 'strtod')

            def base(t):
                return t[0] == 'out' and conv(t[1]) or t == END
            w = TextWorld(n, LITSTEPS, base, shape, {})
            what = 'the float with suffix "%s%s"' % (suf, 'd' * k)

            def bad(key, msg, node=None):
                chk.violation('float:' + key, fn.loc(node if node is not None else 0), '%s: %s' % (what, msg))

            def size_ok(x):
                x = strip_as(x)
                if k:
                    return x[0] == 'call' and any(w.off(a) == len(suf.encode()) for a in x[2])
                return x == C('32')
            outs = [o for o in Walk(prog, w).run(fn) if o.kind == 'return']
            if not outs:
                raise Broken('no way through the generation of floats')
            for o in outs:
                chk.count('ways through number generation')
                gt = [e for e in o.events if sname(e.name) == 'getGeneratedType']
                gi = [e for e in o.events if sname(e.name) == 'generateFloatLiteral']
                if len(gt) != 1 or len(gi) > 1:
                    bad('steps', 'the type is generated %d times, the literal %d times' % (len(gt), len(gi)))
                    continue
                t = strip_as(gt[0].args[0])
                if t[0] != 'call' or sname(t[1]) != 'getFloatType' or not size_ok(t[2][-1]):
                    bad('type', 'its type is %s' % n.t(t), gt[0].node)
                for e in gi:
                    a = e.args[-3:]
                    if not size_ok(a[0]):
                        bad('size', 'its size is %s' % n.t(a[0]), e.node)
                    v = strip_as(a[1])
                    if not (conv(v) and lit_base(n)(strip_as(v[2][0]))):
                        bad('value', 'its value is %s' % n.t(v), e.node)
                result(chk, o, n, gt, gi, lambda m, e=None: bad('result', m, e and e.node))


# ---------------------------------------------------------- sizes needed ----
class Interval(World):
    """One parameter lies in an interval."""
    loop_bound = 70
    max_paths = 200

    def __init__(self, n, var, lo, hi):
        World.__init__(self, n, ())
        self.var, self.lo, self.hi = var, lo, hi

    def iv(self, t):
        t = strip_as(t)
        if t == self.var:
            return self.lo, self.hi
        if t[0] == 'c':
            v = {'true': '1', 'false': '0'}.get(t[1], t[1]).rstrip('uUlL')
            return (int(v),) * 2 if v.lstrip('-').isdigit() else None
        if t[0] == 'bin' and t[1] in ('>>', '+', '-', '/', '*'):
            a, b = self.iv(t[2]), self.iv(t[3])
            if a is None or b is None or b[0] != b[1]:
                return None
            k = b[0]
            if t[1] == '>>':
                return (a[0] >> k, a[1] >> k) if 0 <= k < 64 else None
            if t[1] == '+':
                return a[0] + k, a[1] + k
            if t[1] == '-':
                return a[0] - k, a[1] - k
            if t[1] == '/' and k > 0 and a[0] >= 0:
                return a[0] // k, a[1] // k
        return None

    def decide(self, p):
        if p[0] in ('eq', 'lt'):
            a, b = self.iv(p[1]), self.iv(p[2])
            if a is None or b is None:
                return None
            if p[0] == 'eq':
                return True if a == b and a[0] == a[1] else False if a[1] < b[0] or b[1] < a[0] else None
            return True if a[1] < b[0] else False if a[0] >= b[1] else None
        a = self.iv(p)
        if a is not None:
            return False if a == (0, 0) else True if a[0] > 0 or a[1] < 0 else None
        return World.decide(self, p)


def needed(chk, prog):
    S = [(0, 0, 1), (-1, -1, 1), (1, 127, 8), (-128, -2, 8)]
    for lo, hi in ((7, 15), (15, 31), (31, 63)):
        S += [(1 << lo, (1 << hi) - 1, hi + 1), (-(1 << hi), -(1 << lo) - 1, hi + 1)]
    U = [(0, 0, 1), (1, 1, 1), (2, 255, 8), (256, 65535, 16), (65536, (1 << 32) - 1, 32), (1 << 32, (1 << 64) - 1, 64)]
    for name, cases in (('_getNeededIntSize', S), ('_getNeededWordSize', U)):
        fn = prog.fn('Spp::Ast::Helper::' + name)
        n = WNorm(fn, None)
        var = ('v', fn.params[1]['d'], 0)
        for lo, hi, want in cases:
            chk.count('ranges of numbers')
            outs = [o for o in Walk(prog, Interval(n, var, lo, hi)).run(fn) if o.kind == 'return']
            if not outs:
                raise Broken('no way through ' + name)
            for o in outs:
                if n.t(o.ret) != str(want):
                    chk.violation('needed:' + name, fn.loc(o.node), 'a%s number from %d to %d is given %s bits, not %d' % (
                        'n unsigned' if 'Word' in name else ' signed', lo, hi, n.t(o.ret), want))
    chk.floor("ranges of numbers", 16)


# --------------------------------------------------- characters and strings ----
def texts(chk, prog):
    fn = prog.fn('Spp::CodeGen::ExpressionGenerator::_generateCharLiteral')
    n = WNorm(fn, None)
    base = lit_base(n)

    def first(t):
        t = strip_as(t)
        if t[0] in ('deref', 'idx') and base(t[1]):
            return t[0] == 'deref' or t[2] == C('0')
        return t[0] == 'call' and sname(t[1]) in ('operator()', 'operator[]', 'at', 'front') and base(strip_as(t[2][0])) and all(x == C('0') for x in t[2][1:])

    def is_char(t):
        t = strip_as(t)
        return t[0] == 'call' and sname(t[1]) == 'getCharType'

    def bad(m, e=None):
        chk.violation('char', fn.loc(e.node if e else 0), 'a character literal: ' + m)
    for o in Walk(prog, World(n, LITSTEPS)).run(fn):
        if o.kind != 'return':
            continue
        chk.count('ways through text generation')
        gt = [e for e in o.events if sname(e.name) == 'getGeneratedType']
        gi = [e for e in o.events if sname(e.name) == 'generateIntLiteral']
        if len(gt) != 1 or not is_char(gt[0].args[0]):
            bad('its type is not the character type')
            continue
        for e in gi:
            a = e.args[-4:]
            b = strip_as(a[0])
            if not (b == C('8') or b[0] == 'call' and sname(b[1]) == 'getBitCount' and is_char(b[2][0])):
                bad('it has %s bits' % n.t(b), e)
            if n.t(a[1]) not in ('0', 'false'):
                bad('it is made signed', e)
            if not first(a[2]):
                bad('its value is %s' % n.t(a[2]), e)
        result(chk, o, n, gt, gi, bad)
    fn2 = prog.fn('Spp::CodeGen::ExpressionGenerator::_generateStringLiteral')
    n2 = WNorm(fn2, None)
    base2 = lit_base(n2)

    def text(t):
        t = strip_ref(t)
        return base2(t) or t[0] == 'call' and sname(t[1]) in ('getBuf', 'c_str', 'get', 'getStr') and text(t[2][0])

    def length1(t):
        x = linear(t, lambda q: 'len' if q[0] == 'call' and sname(q[1]) in ('getLength', 'size', 'length', 'getStrLen', 'strlen') and text(q[2][0]) else None)
        return x == {'len': 1, None: 1}

    def is_str(t):
        t = strip_as(t)
        return t[0] == 'call' and sname(t[1]) == 'getCharArrayType' and length1(t[2][-1])

    def is_ptr(t):
        t = strip_as(t)
        return t[0] == 'call' and sname(t[1]) == 'getPointerTypeFor' and is_str(t[2][-1])

    def bad2(m, e=None):
        chk.violation('string', fn2.loc(e.node if e else 0), 'a string literal: ' + m)
    for o in Walk(prog, World(n2, LITSTEPS)).run(fn2):
        if o.kind != 'return':
            continue
        chk.count('ways through text generation')
        gt = [e for e in o.events if sname(e.name) == 'getGeneratedType']
        gs = [e for e in o.events if sname(e.name) == 'generateStringLiteral']
        kinds = ['char' if is_char(e.args[0]) else 'str' if is_str(e.args[0]) else 'ptr' if is_ptr(e.args[0]) else n2.t(e.args[0]) for e in gt]
        for k, e in zip(kinds, gt):
            if k not in ('char', 'str', 'ptr'):
                bad2('one of its types is ' + k, e)

        def tgtype(t, want):
            t = strip_as(t)
            if t[0] == 'deref':
                t = t[1]
            return t[0] == 'out' and sname(t[1][1]) == 'getGeneratedType' and want(t[1][2][1])
        for e in gs:
            a = e.args[-4:]
            if not text(a[0]):
                bad2('its text is %s' % n2.t(a[0]), e)
            if not tgtype(a[1], is_char):
                bad2('its characters have the type %s' % n2.t(a[1]), e)
            if not tgtype(a[2], is_str):
                bad2('it is made with the type %s' % n2.t(a[2]), e)
        # the last type generated successfully is not necessarily the result
        ok = [truth_of(o, e.res) for e in gt]
        if all(ok) and len(ok) >= 2:
            r = [v for k, v in o.state.heap.items() if k[0] == 'f' and sname(k[2]) == 'astType']
            if n2.t(o.ret) in ('1', 'true'):
                if len(r) != 1 or not is_ptr(r[0]):
                    bad2('its type is %s' % (n2.t(r[0]) if r else 'not set'))
        ptr = [e for k, e in zip(kinds, gt) if k == 'ptr']
        result(chk, o, n2, [e for e in gt if e not in ptr] + ptr, gs, bad2)
    chk.floor('ways through text generation', 6)


# ------------------------------------------------------------ the constants ----
def constants(chk, prog):
    import tg

    class Sized(tg.TgConfig):
        loop_bound = 8

        def __init__(self, k):
            tg.TgConfig.__init__(self)
            self.k = k

        def call_value(self, w, st, name, node, obj, args):
            if sname(name) in ('getStrLen', 'strlen', 'getElementCount', 'getCount'):
                return C(str(self.k))
            return tg.TgConfig.call_value(self, w, st, name, node, obj, args)

        def decide(self, p):
            if p[0] in ('idx', 'deref') and p[1] == ('v', 'value#1', 0):
                return p[0] == 'deref' and self.k > 0 or p[0] == 'idx' and p[2][0] == 'c' and int(p[2][1]) < self.k
            return tg.TgConfig.decide(self, p)

    def outcomes(method, cfg=None):
        fn = prog.fn(tg.TG + '::' + method)
        for o in Walk(prog, cfg or tg.TgConfig()).run(fn):
            if o.kind == 'return':
                chk.count('ways through constants')
                n = tg.Norm(prog, o)
                dest = o.state.env.get((0, fn.params[-1]['d']))
                yield fn, o, n, (n.t(dest) if dest is not None else 'nothing'), {n.t(k): v for k, v in o.facts.items()}

    def check(method, want, what, k=None):
        some = False
        for fn, o, n, got, facts in outcomes(method, None if k is None else Sized(k)):
            if n.t(o.ret) not in ('1', 'true'):
                continue
            some = True
            w = want(facts, fn, o)
            if w is not None and got not in (w if isinstance(w, tuple) else (w,)):
                chk.violation('const:' + method, fn.loc(o.node), '%s: the constant is %s, not %s' % (what, got, w if isinstance(w, str) else w[0]))
        if not some:
            raise Broken('no way through ' + method)

    def wint(f, fn, o):
        if f.get('bitCount') is False or f.get('(0<bitCount)') is False:
            return 'Value(int(getPointerSizeInBits(this.buildTarget.getLlvmDataLayout,0),value,withSign))', 'Value(int(this.buildTarget.getPointerBitCount,value,withSign))'
        return 'Value(int(bitCount,value,withSign))'
    check('generateIntLiteral', wint, 'a whole number')
    check('generateFloatLiteral', lambda f, fn, o: 'Value(fp(value))', 'a float')
    check('generateNullPtrLiteral', lambda f, fn, o: 'Value(type.getLlvmType.get)', 'a null pointer')
    check('generatePointerLiteral', lambda f, fn, o: 'Value(getIntToPtr(int(64,value,0),type.getLlvmType,0))', 'a pointer')

    for k in range(4):
        def wmembers(f, fn, o, k=k):
            name = 'structVals' if 'Struct' in fn.q else 'arrayVals'
            return ('Value(get(type.getLlvmType,[%s]))' % (','.join('getElement(membersVals,%d).getLlvmValue' % i for i in range(k)) or name),) + (
                () if k else ('Value(get(type.getLlvmType,[]))',))
        check('generateStructLiteral', wmembers, 'a structure with %d members' % k, k)
        check('generateArrayLiteral', wmembers, 'an array with %d elements' % k, k)

        def wstr(f, fn, o, k=k):
            per = f.get('this.perFunctionModules')
            cs_ = ["int(charType.getLlvmType,<idx(value, '%d')>)" % i for i in range(k)] + ['int(charType.getLlvmType,0)']
            v = 'Value(GlobalVariable(%s,strType.getLlvmType,1,PrivateLinkage,get(strType.getLlvmType,[%s]),0,NotThreadLocal,Optional(None),0))'
            mods = {True: 'context.getFunction.llvmModule', False: 'this.buildTarget.getGlobalLlvmModule', None: 'the module of the function'}
            return v % (mods[per], ','.join(cs_))
        check('generateStringLiteral', wstr, 'a string with %d characters' % k, k)
    chk.floor('ways through constants', 15)


# ---------------------------------------------------- tokens become literals ----
NODES = {'LexerDefs.IntLiteral': 'IntegerLiteral', 'LexerDefs.FloatLiteral': 'FloatLiteral', 'LexerDefs.CharLiteral': 'CharLiteral',
         'LexerDefs.StringLiteral': 'StringLiteral'}


def nodes(chk, prog, g):
    v = g.value('root.Subject.Literal')
    toks = sorted(str(t.f.get('tokenId')) for t in v.f['term'].f['terms'].items)
    for k in NODES:
        if 'id:' + k not in [t.strip("'") for t in toks]:
            chk.violation('literal:alternatives', v.loc, 'an operand cannot be a %s' % k.split('.')[1])
    h = v.f.get('handler')
    if not (getattr(h, 'c', '') == 'CustomParsingHandler' and h.args and getattr(h.args[0], 'c', '') == 'lambda'):
        raise Broken('the handler of literals is not found')
    fn = prog.fns[h.args[0].args[0]]
    ids = {k: C(str(100 + i)) for i, k in enumerate(NODES)}
    for k, cls in NODES.items():
        chk.count('kinds of literals')
        n = WNorm(fn, None)
        n.alias = {'getData(state,-1)': 'TOKEN'}

        def hook(w, st, s, obj, args, k=k):
            if s == 'getId':
                if args and unstr(args[-1])[0] == 's':
                    return ids.get(unstr(args[-1])[1], C('99'))
                return ids[k]
        w = World(n, ('setValue', 'setProdId', 'setSourceLocation', 'setData'), hook=hook)
        outs = [o for o in Walk(prog, w).run(fn) if o.kind == 'return']
        if not outs:
            raise Broken('no way through the handler of literals')
        for o in outs:
            got = ['%s.%s(%s)' % (n.t(e.obj), sname(e.name), n.t(e.args[0])) for e in o.events]
            want = ['%s().setValue(TOKEN.getText)' % cls, '%s().setProdId(TOKEN.getProdId)' % cls, '%s().setSourceLocation(findSourceLocation(TOKEN))' % cls,
                    'state.setData(%s())' % cls]
            for x in want:
                if got.count(x) != 1:
                    chk.violation('literal:node', fn.loc(o.node), 'the node of a %s: %s happens %d times' % (k.split('.')[1], x, got.count(x)))
            for x in got:
                if x not in want:
                    chk.violation('literal:node', fn.loc(o.node), 'the node of a %s: %s' % (k.split('.')[1], x))
    chk.floor('kinds of literals', 4)
    fn = prog.fn('Core::Processing::Handlers::IdentifierTokenizingHandler::prepareToken')
    P = [p['d'] for p in fn.params]
    for cnt in (0, 1):
        chk.count('names')
        n = WNorm(fn, None)

        def hook2(w, st, s, obj, args, cnt=cnt):
            if s in ('count', 'contains') and obj is not None and 'keywords' in n.t(obj):
                return C(str(cnt))
        w = World(n, ('setText', 'setId', 'setAsKeyword', 'setSourceLocation'), hook=hook2)
        for o in Walk(prog, w).run(fn):
            if o.kind != 'return':
                continue
            got = sorted('%s(%s)' % (sname(e.name), ', '.join(n.t(a) for a in e.args)) for e in o.events)
            got = [x.replace('false', '0').replace('true', '1') for x in got]
            want = ['setAsKeyword(%d)' % cnt, 'setId(id)', 'setSourceLocation(sourceLocation)', 'setText(tokenText, tokenTextLength)']
            if got != want:
                chk.violation('name', fn.loc(o.node), 'a name that is %s keyword: %s' % ('no' if not cnt else 'a', [x for x in got if x not in want] or 'misses %s' % [x for x in want if x not in got]))


def run(chk, prog):
    g = tokens(chk, prog)
    strings(chk, prog)
    hexdigits(chk, prog)
    integers(chk, prog)
    floats(chk, prog)
    needed(chk, prog)
    texts(chk, prog)
    constants(chk, prog)
    nodes(chk, prog, g)
