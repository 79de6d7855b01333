"""P06: expressions group by the fixed operator precedence."""
from handlers import *
import gram
from gram import Obj, TInt, null

TITLE = 'Expressions group by the fixed operator precedence'
TECHNIQUE = ('constant propagation over the code that builds the grammar; the precedence levels, operators and classes are read off '
             'the resulting definitions; path-sensitive summaries of the handlers that build the trees')
NOTE = ('Every level of the expression grammar, every spelling of every operator, and every way through the functions that turn '
        'parsed parts into operators. That the parser follows the grammar it is given is not decided.')
RULE = ('the chain of expression productions is the fixed ladder of levels, each with its operators, class and grouping; each '
        'spelling gives its operator; handlers put the left part first and the right part second')

H = 'Core::Processing::Handlers::'
UP = 64
OWN = lambda *a: {x: x for x in a}

# Loosest first: class, groups from the right, repetition, spelling -> operator.
LADDER = [
    ('LinkOperator', False, None, dict(OWN('::', '::>', '<::', 'in'), **{'في': 'in'})),
    ('ConditionalOperator', False, 1, {'?': '?', '؟': '؟'}),
    ('list', None, None, OWN(',', '،')),
    ('LinkOperator', False, None, OWN(':', ':>', '<:')),
    ('AssignmentOperator', True, None, dict(OWN('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '$=', '<<=', '>>='), **{'÷=': '/='})),
    ('LogOperator', False, None, dict(OWN('||', '$$', '&&', 'or', 'nor', 'xor', 'xnor', 'and', 'nand'),
                                      **{'أو': 'or', 'وليس': 'nor', 'أو_حصرا': 'xor', 'وليس_حصرا': 'xnor', 'و': 'and',
                                         'أو_ليس': 'nand'})),
    ('ComparisonOperator', False, None, OWN('==', '!=', '<', '>', '<=', '>=')),
    ('LinkOperator', False, None, OWN('=>', '..', '..>', '<.>')),
    ('AdditionOperator', False, None, OWN('+', '-')),
    ('MultiplicationOperator', False, None, dict(OWN('*', '/', '%'), **{'÷': '/'})),
    ('BitwiseOperator', False, None, OWN('|', '$', '&', '<<', '>>')),
]
PREFIX = dict(OWN('++', '--', '+', '-', '!', '!!', 'not', '...'), **{'ليس': 'not'})
POSTFIX = OWN('++', '--')
LINK = OWN('->', '.', '.>', '<.')
# Signatures of functions: which levels accept operators.
SIGNATURE = {4: 0, 5: 0, 6: 0, 7: 1, 8: 0, 9: 0, 10: 0, 3: 1}


def ops(v):
    if isinstance(v, str):
        return {v: v}
    if isinstance(v, Obj) and v.c == 'Map':
        return {k: (k if null(x) else x) for k, x in v.items}
    return None


class Shape:
    """Terms of a production with their arguments filled in."""

    def __init__(self, g):
        self.g = g

    def prod(self, path):
        g = self.g
        return self.term(g.field(path, 'term'), g.vars(path))

    def val(self, v, vars):
        if isinstance(v, Obj) and v.c == 'Ref':
            r = v.args[0]
            if r.startswith('args.'):
                return self.val(vars.get(r[5:]), {})
            if r.startswith('root.'):
                return self.g.value(self.g.target(r, 'root') or r)
        return v

    def term(self, t, vars):
        if not isinstance(t, Obj):
            return ('?', repr(t))
        f = lambda k: self.val(t.f.get(k), vars)
        flags = f('flags')
        flags = 0 if null(flags) else int(flags) if isinstance(flags, int) else repr(flags)
        if t.c == 'ReferenceTerm':
            r = t.f.get('reference')
            r = r.args[0] if isinstance(r, Obj) and r.c == 'Ref' else repr(r)
            if r.startswith('args.'):
                v = vars.get(r[5:])
                r = v.args[0] if isinstance(v, Obj) and v.c == 'Ref' else r
            return ('ref', r)
        if t.c == 'TokenTerm':
            return ('tok', f('tokenId'), ops(f('tokenText')), flags)
        if t.c == 'MultiplyTerm':
            mn, mx = f('min'), f('max')
            return ('rep', flags, 0 if null(mn) else mn, None if null(mx) else mx, self.term(t.f.get('term'), vars))
        if t.c in ('ConcatTerm', 'AlternateTerm'):
            l = f('terms')
            sub = [self.term(x, vars) for x in l.items] if isinstance(l, Obj) else [('?', repr(l))]
            if t.c == 'ConcatTerm':
                return ('seq', flags, sub)
            fl = f('filter')
            return ('alt', flags, None if null(fl) else fl, sub)
        return ('?', t.c)


def last(t):
    return t[1].split('.')[-1] if t[0] == 'ref' else None


def run(chk, prog):
    b = gram.build(prog, 'Core::Data::Grammar::StandardFactory', 'createGrammar', {'exprOnly': False})
    b = gram.build(prog, 'Spp::Grammar::SppFactory', 'createGrammar', onto=b)
    g = gram.Grammar(b)
    for p in ('root.Main.Expression', 'root.Expression', 'root.Subject'):
        if p not in b.defs:
            raise Broken('the grammar has no ' + p)
    levels = ladder(chk, g)
    contexts(chk, g, levels)
    trees(chk, prog, g)
    tokens(chk, prog)
    chk.count('grammar definitions', len(b.defs))
    chk.floor('grammar definitions', 150)
    chk.floor('operator spellings', 60)
    chk.floor('ways through handlers', 40)
    chk.assume_('the parser matches the text against the definitions it is given, and calls addData of a production for each of its parts in order')


def where(g, path):
    v = g.value(path)
    return v.loc if isinstance(v, Obj) and v.loc else 'Sources/Core/Data/Grammar/StandardFactory.cpp'


def handler(g, path):
    h = g.field(path, 'handler')
    return (h.c, h.args) if isinstance(h, Obj) else (repr(h), [])


def spellings(chk, g, path, key, got, want, what):
    chk.count('operator spellings', len(want))
    if got is None:
        chk.violation(key + ':ops', where(g, path), 'the operators of %s cannot be told' % what)
        return
    for s in sorted(set(got) | set(want)):
        if s not in got:
            chk.violation('%s:%s' % (key, s), where(g, path), "'%s' is not an operator of %s" % (s, what))
        elif s not in want:
            chk.violation('%s:%s' % (key, s), where(g, path), "'%s' is an operator of %s; it must not be one" % (s, what))
        elif got[s] != want[s]:
            chk.violation('%s:%s' % (key, s), where(g, path), "'%s' stands for '%s'; it must stand for '%s'" % (s, got[s], want[s]))


def ladder(chk, g):
    """Walks the levels from the production of a whole expression; gives the path of each level."""
    S = Shape(g)
    M = 'root.Main.Expression'
    path, mod = g.follow(M, 'root.Main')
    levels = []
    t = S.prod(path)
    if t[0] == 'seq' and len(t[2]) == 2 and t[2][0][0] == 'ref' and t[2][1][:4] == ('rep', UP, 0, 1):
        # An expression may end in a line continuation.
        path = g.target(t[2][0][1], M)
    for k, (cls, fwd, mx, want) in enumerate(LADDER):
        key = 'level%d' % k
        what = 'the level of %s' % ' '.join(list(want)[:3])
        levels.append(path)
        if path is None:
            chk.violation(key, 'Sources/Core/Data/Grammar/StandardFactory.cpp', 'there is no production for %s' % what)
            return levels
        t = S.prod(path)
        hc, ha = handler(g, path)
        chk.count('precedence levels')
        if cls == 'list':
            nx = listlevel(chk, g, path, key, t, hc, want)
        else:
            nx = None
            ok = t[0] == 'seq' and len(t[2]) == 2 and t[2][0][0] == 'ref' and t[2][1][0] == 'rep' and t[2][1][1:3] == (UP, 0)
            r = t[2][1][4] if ok else None
            ok = ok and r[0] == 'seq' and len(r[2]) == 2 and r[2][0][0] == 'tok' and r[2][1][0] == 'ref'
            if not ok:
                chk.violation(key + ':shape', where(g, path), '%s is not: operand, then any number of operators with an operand each' % what)
                return levels
            if g.target(r[2][1][1], M) != g.target(t[2][0][1], M):
                chk.violation(key + ':operands', where(g, path), 'the operands of %s are different things: %s and %s' % (
                    what, last(t[2][0]), last(r[2][1])))
            if t[2][1][3] != mx:
                chk.violation(key + ':times', where(g, path), '%s accepts %s operators' % (what, t[2][1][3]))
            if r[2][0][3]:
                chk.violation(key + ':token', where(g, path), 'the operator of %s is dropped' % what)
            spellings(chk, g, path, key, r[2][0][2], want, what)
            if hc != 'InfixParsingHandler<%s>' % cls:
                chk.violation(key + ':class', where(g, path), 'operators of %s become %s; they must become %s' % (what, hc, cls))
            elif ha != [fwd]:
                chk.violation(key + ':side', where(g, path), 'operators of %s group from the %s' % (what, 'left' if fwd else 'right'))
            nx = g.target(t[2][0][1], M)
        if nx in levels:
            chk.violation(key + ':next', where(g, path), 'the operands of %s are of a looser level' % what)
            return levels
        path = nx
    unary(chk, g, S, path, levels)
    return levels


def listlevel(chk, g, path, key, t, hc, want):
    M = 'root.Main.Expression'
    refs, toks = [], []

    def walk(t):
        if t[0] == 'ref':
            refs.append(t[1])
        elif t[0] == 'tok':
            toks.append(t)
        elif t[0] == 'rep':
            walk(t[4])
        elif t[0] in ('seq', 'alt'):
            for x in t[-1]:
                walk(x)
    walk(t)
    if t[0] != 'alt' or not refs or len({g.target(r, M) for r in refs}) != 1 or not toks:
        chk.violation(key + ':shape', where(g, path), 'a list is not made of items of one level separated by commas')
        return None
    for k in toks:
        spellings(chk, g, path, key, k[2], want, 'a list')
    if hc != 'ListExpParsingHandler<List>':
        chk.violation(key + ':class', where(g, path), 'comma separated items become %s; they must become a list' % hc)
    return g.target(refs[0], M)


def unary(chk, g, S, path, levels):
    M = 'root.Main.Expression'
    what = 'the level of the unary operators'
    t = S.prod(path) if path else ('?',)
    ok = t[0] == 'seq' and len(t[2]) == 3 and t[2][0][0] == 'rep' and t[2][0][1:3] == (UP, 0) and t[2][1][0] == 'ref' and \
        t[2][2][0] == 'rep' and t[2][2][1:3] == (UP, 0)
    if not ok:
        chk.violation('unary:shape', where(g, path), '%s is not: prefix operators, operand, postfix operators' % what)
        return
    levels.append(path)
    for i, want, nm in ((0, PREFIX, 'prefix'), (2, POSTFIX, 'postfix')):
        if t[2][i][3] != 1:
            chk.violation('unary:%s:times' % nm, where(g, path), 'an operand can have %s %s operators' % (t[2][i][3], nm))
        p = g.target(t[2][i][4][1], M) if t[2][i][4][0] == 'ref' else None
        tok = S.prod(p) if p else ('?',)
        if tok[0] != 'tok':
            chk.violation('unary:' + nm, where(g, path), 'the %s operators cannot be told' % nm)
        else:
            spellings(chk, g, p, nm, tok[2], want, 'the %s operators' % nm)
    hc, ha = handler(g, path)
    if hc != 'OutfixParsingHandler<PrefixOperator, PostfixOperator>':
        chk.violation('unary:class', where(g, path), 'unary operators become ' + hc)
    elif ha and ha[0] not in (False, None) and not (isinstance(ha[0], gram.Unknown)):
        chk.violation('unary:side', where(g, path), 'a prefix operator applies to the result of a postfix operator')
    # Links, calls and tilde operators bind tightest, in the order they are written.
    path = g.target(t[2][1][1], M)
    t = S.prod(path) if path else ('?',)
    ok = t[0] == 'seq' and len(t[2]) == 2 and t[2][0][0] == 'ref' and t[2][1][0] == 'rep' and t[2][1][1:4] == (UP, 0, None) and \
        t[2][1][4][0] == 'alt' and t[2][1][4][2] is None
    if not ok:
        chk.violation('chain:shape', where(g, path), 'links, calls and tilde operators do not follow their operand in any number')
        return
    levels.append(path)
    if handler(g, path)[0] != 'ChainOpParsingHandler':
        chk.violation('chain:class', where(g, path), 'links, calls and tilde operators are combined by ' + handler(g, path)[0])
    if t[2][0][1] != 'module.subject':
        chk.violation('chain:subject', where(g, path), 'the operand of links and calls is ' + t[2][0][1])
    parts = {}
    for r in t[2][1][4][3]:
        p = g.target(r[1], M)
        parts[p.split('.')[-1] if p else '?'] = (p, S.prod(p))
    if set(parts) != {'LinkExp', 'PostfixTildeExp', 'ParamPassExp'}:
        chk.violation('chain:parts', where(g, path), 'what can follow an operand is %s' % ', '.join(sorted(parts)))
        return
    p, t = parts['LinkExp']
    if t[0] != 'seq' or [x[0] for x in t[2]] != ['tok', 'ref'] or t[2][1][1] != 'module.subject':
        chk.violation('link:shape', where(g, p), 'a link is not an operator and a member')
    else:
        spellings(chk, g, p, 'link', t[2][0][2], LINK, 'the links')
    p, t = parts['ParamPassExp']
    brackets(chk, g, p, 'call', t[3] if t[0] == 'alt' and t[1] & 4 else (), 'module.paramPassExpr', 'what is passed')
    # Brackets: an expression of the loosest level inside.
    for v, nm in (('root.Main.Expression.paramPassExpr', 'what is passed'), ('root.Main.Expression.openPostfixTildeExpr', 'a custom tilde operator'),
                  ('root.Main.Subject.expression', 'the content of brackets'), ('root.Modifier.Expression.paramPassExpr', 'what is passed to a modifier'),
                  ('root.Modifier.Subject.expression', 'the content of brackets in a modifier')):
        tgt, _ = g.follow(v, v.rsplit('.', 1)[0])
        if tgt != g.follow('root.Main.Expression', 'root.Main')[0]:
            chk.violation('inner:' + v, where(g, v.rsplit('.', 1)[0]), '%s is not a whole expression but %s' % (nm, tgt))
    p = g.target('root.Subject.Sbj', 'root')
    t = S.prod(p)
    if t[0] != 'alt' or len(t[3]) != 3 or t[3][0] != ('ref', 'module.TermGroup') or t[2] is not None:
        chk.violation('subject:shape', where(g, p), 'an operand is not a term or an expression in brackets')
    else:
        brackets(chk, g, p, 'bracket', t[3][1:], 'module.expression', 'the content of brackets')
    if handler(g, p)[0] != 'SubjectParsingHandler':
        chk.violation('subject:class', where(g, p), 'brackets are built by ' + handler(g, p)[0])


def brackets(chk, g, p, key, routes, ref, what):
    got = []
    for r in routes:
        if r[0] == 'seq' and len(r[2]) == 3 and r[2][0][0] == r[2][2][0] == 'tok' and r[2][1][0] == 'rep' and r[2][1][2:4] == (0, 1):
            got.append((list(r[2][0][2] or ['?'])[0], r[2][1][4][1], list(r[2][2][2] or ['?'])[0]))
    if got != [('(', ref, ')'), ('[', ref, ']')]:
        chk.violation(key + ':brackets', where(g, p), '%s: the brackets are %s' % (what, got))


def contexts(chk, g, levels):
    """Expressions elsewhere use the same levels; only the operators accepted may be fewer."""
    base = [p.split('.')[-1] for p in levels if p]
    for m, v in sorted(g.defs.items()):
        if not (isinstance(v, Obj) and v.c == 'Module') or m == 'root.Expression':
            continue
        b, seen = m, []
        while b and b != 'root.Expression' and b not in seen:
            seen.append(b)
            b = g.base(b)
        if b != 'root.Expression':
            continue
        chk.count('kinds of expressions')
        for nm in base:
            p = g.member(m, nm)
            for fld in ('term', 'handler'):
                x = g.field(p, fld) if p else None
                if x is not g.field('root.Expression.' + nm, fld):
                    chk.violation('context:%s.%s.%s' % (m, nm, fld), where(g, p) if p else '', '%s differs in %s from other expressions' % (nm, m))
        if m == 'root.Main.FuncSigExpression':
            for k, mx in SIGNATURE.items():
                e = g.vars(g.member(m, base[k])).get('enable')
                if e != mx or null(e):
                    chk.violation('signature:' + base[k], where(g, m), 'the signature of a function accepts %s operators of %s' % (e, base[k]))
            st, _ = g.follow(m, 'root.Main')
            if st is None or st.split('.')[-1] != base[3]:
                chk.violation('signature:start', where(g, m), 'the signature of a function starts at ' + str(st))
        elif m == 'root.Modifier.Expression':
            st, _ = g.follow(m, 'root.Modifier')
            if st is None or st.split('.')[-1] != base[-1]:
                chk.violation('modifier:start', where(g, m), 'a modifier starts at ' + str(st))
        else:
            for nm in base:
                p = g.member(m, nm)
                if p and g.vars(p) is not None and {k: repr(v) for k, v in g.vars(p).items()} != \
                        {k: repr(v) for k, v in g.vars('root.Expression.' + nm).items()}:
                    chk.violation('context:%s.%s.vars' % (m, nm), where(g, p), '%s accepts other operators in %s' % (nm, m))
    chk.floor('kinds of expressions', 4)


CUR = 'getData(state,levelIndex)'
ROOT = {'isAProdRoot(state,levelIndex)': True, 'isListTerm(self,state,levelIndex)': True}


def trees(chk, prog, g):
    # Operators between operands.
    add = pick(prog, H + 'InfixParsingHandler::addData')
    outs = ways(prog, add)
    base = 'GenericParsingHandler.addData(data,parser,state,levelIndex)'
    cls = 'LinkOperator'
    m = [n for o in outs for f in o.facts for n in [HNorm(add).t(f)] if n.startswith('isa<') and n.endswith(CUR + ')') and 'MetaHaving' not in n]
    if m:
        cls = m[0][4:].split('>')[0]
    obj = cls + '()'
    ROOTD = dict(ROOT, **{CUR: True, 'isa<List>(data)': True, 'isa<Token>(data[0])': True})

    def made(left, *store):
        return ['%s.setFirst(%s)' % (obj, left), obj + '.setType(data[0].getText)', obj + '.setSecond(data[1])'] + list(store)

    wrap = made(CUR, 'state.setData(%s,levelIndex)' % obj)
    isop, open_ = 'isa<%s>(%s)' % (cls, CUR), CUR + '.getProdId'
    hcase(chk, add, outs, 'infix:first', 'the first operand', dict(ROOT, **{CUR: False}), [base])
    hcase(chk, add, outs, 'infix:left', 'an operator that groups from the left', dict(ROOTD, **{'self.forward': False}), wrap)
    hcase(chk, add, outs, 'infix:right1', 'the first operator that groups from the right',
          dict(ROOTD, **{'self.forward': True, isop: False}), wrap)
    hcase(chk, add, outs, 'infix:right2', 'an operator after another expression that groups from the right',
          dict(ROOTD, **{'self.forward': True, isop: True, open_: True}), wrap)
    leaf = 'findRightLeaf(self,%s)' % CUR
    hcase(chk, add, outs, 'infix:right3', 'a further operator that groups from the right',
          dict(ROOTD, **{'self.forward': True, isop: True, open_: False}), made(leaf + '.getSecond', '%s.setSecond(%s)' % (leaf, obj)))
    hcase(chk, add, outs, 'infix:inner', 'a part of the operator and its operand', {'isAProdRoot(state,levelIndex)': False}, [base])
    f = pick(prog, H + 'InfixParsingHandler::findRightLeaf')
    rightleaf(chk, prog, f)
    # Prefix and postfix operators.
    f = pick(prog, H + 'OutfixParsingHandler::addData')
    outs = ways(prog, f)
    pos = 'refTermLevel(state,levelIndex).getPosId'
    hcase(chk, f, outs, 'outfix:first', 'the first part of a unary operation', dict(ROOT, **{CUR: False}), [base])
    for nm, p, op, tok in (('Prefix', 2, 'data', CUR), ('Postfix', 3, CUR, 'data')):
        hcase(chk, f, outs, 'outfix:' + nm, 'an operand with a %s operator' % nm.lower(),
              dict(ROOT, **{CUR: True, pos: p, 'self.forward': False, 'isa<Token>(%s)' % tok: True}),
              ['%sOperator().setOperand(%s)' % (nm, op), '%sOperator().setType(%s.getText)' % (nm, tok),
               'state.setData(%sOperator(),levelIndex)' % nm])
    # Links and calls.
    f = pick(prog, H + 'ChainOpParsingHandler::addData')
    outs = ways(prog, f)
    hcase(chk, f, outs, 'chain:first', 'the operand of links and calls', dict(ROOT, **{pos: 1}), [base])
    hcase(chk, f, outs, 'chain:next', 'a link or call', dict(ROOT, **{pos: 2}), ['data.setElement(0,%s)' % CUR, 'state.setData(data,levelIndex)'])
    f = lam(prog, g, 'root.Expression.LinkExp')
    d = 'getData(state,-1)'
    hcase(chk, f, ways(prog, f), 'link', 'a link', {}, ['LinkOperator().setType(%s[0].getText)' % d, 'LinkOperator().setSecond(%s[1])' % d,
                                                       'state.setData(LinkOperator(),-1)'])
    f = lam(prog, g, 'root.Expression.ParamPassExp')
    outs = ways(prog, f)
    for route, br in ((0, 'ROUND'), (1, 'SQUARE')):
        hcase(chk, f, outs, 'call:' + br, 'a call with %s brackets' % br.lower(), {d + '.getRoute': route},
              ['ParamPass().setType(%s)' % br, 'ParamPass().setParam(%s.getData)' % d, 'state.setData(ParamPass(),-1)'])
    f = lam(prog, g, 'root.Expression.OpenPostfixTildeCmd')
    hcase(chk, f, ways(prog, f), 'tilde', 'a custom tilde operator', {}, ['LinkOperator().setType("~")', 'LinkOperator().setSecond(%s)' % d,
                                                                        'state.setData(LinkOperator(),-1)'])
    # Brackets.
    f = pick(prog, H + 'SubjectParsingHandler::onAlternateRouteDecision')
    outs = ways(prog, f)
    for br, kind in (('(', 'ROUND'), ('[', 'SQUARE')):
        other = '[' if br == '(' else '('
        hcase(chk, f, outs, 'bracket:' + kind, 'the bracket ' + br,
              {'isAProdRoot(state,-1)': True, '(self.constTokenId==token.getId)': True, '("%s"==token.getText)' % br: True,
               '("%s"==token.getText)' % other: False}, ['Bracket().setType(%s)' % kind, 'state.setData(Bracket(),-1)'])
    # Lists.
    f = pick(prog, H + 'ListExpParsingHandler::addData')
    outs = ways(prog, f)
    L = {'isListTerm(self,state,levelIndex)': True, 'isAProdRoot(state,(levelIndex-1))': True}
    inner = 'refTermLevel(state,(levelIndex+1)).getPosId'
    isl = 'isa<List>(%s)' % CUR
    hcase(chk, f, outs, 'list:first', 'the first item of a list', dict(L, **{pos: 1, CUR: False, inner: 1}), ['state.setData(data,levelIndex)'])
    pair = lambda x: ['List().add(%s)' % x, 'List().add(data)', 'state.setData(List(),levelIndex)']
    hcase(chk, f, outs, 'list:missing', 'an item after a leading comma', dict(L, **{pos: 1, CUR: False, inner: 2}), pair('null'))
    hcase(chk, f, outs, 'list:second', 'the second item of a list', dict(L, **{pos: 2, isl: False}), pair(CUR))
    hcase(chk, f, outs, 'list:nested', 'the second item of a list whose first item is a list', dict(L, **{pos: 2, isl: True, CUR + '.getProdId': True}),
          pair(CUR))
    hcase(chk, f, outs, 'list:next', 'a further item of a list', dict(L, **{pos: 2, isl: True, CUR + '.getProdId': False}), [CUR + '.add(data)'])


def rightleaf(chk, prog, f):
    """The last operator of the chain of operators written at this level."""
    for o in ways(prog, f):
        n = HNorm(f)
        chk.count('ways through handlers')
        # On each way: the operators met were open, and the one given is the last of them.
        open_ = []
        cur = 'obj'
        while True:
            nul = [v for t, v in o.facts.items() if n.t(t) in (cur, 'isa<LinkOperator>(%s)' % cur) or n.t(t).startswith('isa<') and n.t(t).endswith('>(%s)' % cur)]
            pid = [v for t, v in o.facts.items() if n.t(t) == cur + '.getProdId']
            if not pid or pid[0] or (nul and not all(nul)):
                break
            open_.append(cur)
            cur += '.getSecond'
        want = open_[-1] if open_ else '0'
        if n.t(o.ret) != want:
            chk.violation('infix:leaf', f.loc(o.node), 'the operator a further one is attached to is %s; it must be %s' % (n.t(o.ret), want))
            return


def lam(prog, g, path):
    h = g.field(path, 'handler')
    if not (isinstance(h, Obj) and h.c == 'CustomParsingHandler' and h.args and isinstance(h.args[0], Obj) and h.args[0].c == 'lambda'):
        raise Broken('no handler function for ' + path)
    return prog.fns[h.args[0].args[0]]


def tokens(chk, prog):
    """The text of an operator is the one its spelling stands for."""
    f = pick(prog, H + 'GenericParsingHandler::onNewToken')
    outs = ways(prog, f)
    n = HNorm(f)
    tx = 'getTokenTermText(state,-1)'
    mapped = 'getElement(%s,token.getText)' % tx
    seen = set()
    for o in outs:
        facts = {n.t(t): v for t, v in o.facts.items()}
        sets = [e for e in o.events if sname(e.name) == 'setData']
        chk.count('ways through handlers')
        if not sets:
            # Only tokens that are to be left out, or have a single spelling, are left out.
            if not any(v and 'ENFORCE_TOKEN_OMIT' in k or v and k.startswith('isa<') and k.endswith('(%s)' % tx) for k, v in facts.items()):
                chk.violation('token:lost', f.loc(o.node), 'the text of a token is lost')
            continue
        got = n.t(sets[0].args[0])
        if facts.get(mapped) and any(v and k.startswith('isa<') and k.endswith('(%s)' % mapped) for k, v in facts.items()):
            want, nm = mapped + '.get', 'mapped'
        else:
            want, nm = 'token.getText', 'own'
        seen.add(nm)
        if not got.endswith('token.getId,%s)' % want):
            chk.violation('token:' + nm, f.loc(o.node), 'the text of a token whose spelling %s is %s' % (
                'stands for another' if nm == 'mapped' else 'stands for itself', got))
            return
    if seen != {'mapped', 'own'}:
        chk.violation('token:cases', f.loc(), 'spellings that stand for other texts are not told apart')
