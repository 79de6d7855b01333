"""Typestate analysis over the control flow graph.

A state is (rule state, values of the locals, branch facts, values of calls in
the expression being evaluated).  Values are three-valued: true, false or
unknown, with unknown values named by the text of the expression that gives
them, so that two tests of the same thing agree.  States of a block are kept
as a set; what is no longer used (liveness) is dropped, so that equal states
merge and the analysis ends without bounding the paths.
"""
from facts import Broken, CALLS
from flow import is_smart, baseline_functions, Walk, Config

T, F = 'T', 'F'


def vneg(v):
    if v == T:
        return F
    if v == F:
        return T
    if v is None:
        return None
    return ('k', v[1], not v[2], v[3])


class St:
    __slots__ = ('rule', 'env', 'facts', 'memo')

    def __init__(self, rule, env=None, facts=None, memo=None):
        self.rule = rule
        self.env = env or {}
        self.facts = facts or {}
        self.memo = memo or {}

    def copy(self):
        return St(self.rule, dict(self.env), dict(self.facts), dict(self.memo))

    def key(self):
        return (self.rule, frozenset(self.env.items()), frozenset(self.facts.items()), frozenset(self.memo.items()))


class Rule:
    """What a property wants to know."""
    depth = 4

    def call(self, ts, st, fn, i, n, name):
        """None, or [(rule state, value)] for the ways the call can end;
        a value of 'throw' ends the path."""
        return None

    def inline(self, callee, name, n):
        return False

    def throws(self, name, n):
        return False

    def ret(self, ts, st, fn, i, v):
        return

    def branch(self, ts, st, fn, c, val):
        """A branch was taken (c: condition node): may return a new rule state."""
        return st.rule

    def assign(self, ts, st, fn, i, n):
        return st.rule

    def elem(self, ts, st, fn, i, n):
        return

    def key(self, ts, fn, i):
        """The name of the value of an expression, or None."""
        return None


class TS:
    def __init__(self, prog, rule):
        self.prog = prog
        self.rule = rule
        self.w = Walk(prog, Config())
        self.info = {}
        self.summaries = {}
        self.active = set()
        self.steps = 0
        self.visited = set()

    # -- names -------------------------------------------------------------
    def callee(self, fn, n):
        return self.w.callee_name(fn, n)

    def target(self, fn, n):
        """The function called, looking through the binding tables."""
        name, o, a = self.callee(fn, n)
        if n['k'] == 'OpCall' and n.get('op') == '()' and n['c']:
            lam = self.lambdas(fn).get(fn.nodes[self.strip(fn, n['c'][0])].get('d'))
            if lam is not None:
                return self.prog.fns.get(lam)
            b = {x[0][1] for x in self.prog.bindings().get(name, []) if x[0]}
            if len(b) == 1:
                return self.prog.fns.get(next(iter(b)))
            c = self.prog.fns.get(n.get('u'))
            return c if c is not None and 'operator()' not in c.q else None
        return self.prog.fns.get(n.get('u')) if n.get('u') else None

    def lambdas(self, fn):
        """local variable -> the lambda it holds"""
        if 'lams' not in fn._x:
            r = {}
            for i, n in fn.all_nodes():
                if n['k'] == 'DeclStmt':
                    for v in n['vars']:
                        if v['i'] >= 0:
                            x = fn.nodes[self.strip(fn, v['i'])]
                            if x['k'] == 'LambdaExpr':
                                r[v['d']] = x['lam']
            fn._x['lams'] = r
        return fn._x['lams']

    def strip(self, fn, i):
        n = fn.nodes[i]
        while True:
            if n['k'] == 'Cast' and n['c']:
                i = n['c'][0]
            elif n['k'] == 'Construct' and len(n['c']) == 1 and (n.get('copy') or is_smart(n.get('cls'))):
                i = n['c'][0]
            elif n['k'] == 'MCall' and is_smart(n.get('cls')) and len(n['c']) == 1:
                i = n['c'][0]
            elif n['k'] == 'OpCall' and n.get('op') in ('->', '*') and len(n['c']) == 1:
                i = n['c'][0]
            elif n['k'] in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr') and n['c']:
                i = n['c'][0]
            elif n['k'] == 'UnaryOperator' and n.get('op') in ('*', '&') and n['c']:
                i = n['c'][0]
            else:
                return i
            n = fn.nodes[i]

    def text(self, fn, i, vs, env=None):
        """Canonical text of a stable expression; None if it has effects."""
        i = self.strip(fn, i)
        n = fn.nodes[i]
        k = n['k']
        if k == 'DeclRefExpr':
            if n.get('dk') in ('local', 'param'):
                if env is not None:
                    v = env.get(n['d'])
                    if v is not None and v[0] == 'x':
                        vs.update(v[2])
                        return v[1]
                vs.add(n['d'])
            return n['d']
        if k == 'CXXThisExpr':
            return 'this'
        if k == 'MemberExpr':
            b = self.text(fn, n['c'][0], vs, env) if n['c'] else 'this'
            vs.add(n.get('d', '?'))
            return None if b is None else b + '.' + n.get('d', n.get('n', '?')).split('::')[-1]
        if k in ('IntegerLiteral', 'CXXBoolLiteralExpr', 'CharacterLiteral', 'FloatingLiteral', 'StringLiteral'):
            return repr(n['v'])
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            return '0'
        if k in ('UnaryOperator',) and n['op'] not in ('++', '--'):
            a = self.text(fn, n['c'][0], vs, env)
            return None if a is None else n['op'] + a
        if k == 'BinaryOperator' and n['op'] not in ('=', ','):
            a, b = self.text(fn, n['c'][0], vs, env), self.text(fn, n['c'][1], vs, env)
            return None if a is None or b is None else '(%s%s%s)' % (a, n['op'], b)
        if k in CALLS:
            name, o, args = self.callee(fn, n)
            s = name.split('::')[-1]
            if k == 'Construct' and not (len(n['c']) <= 1):
                return None
            if k != 'Construct' and not self.pure(s, n, name):
                return None
            r = []
            if o is not None and o >= 0:
                r.append(self.text(fn, o, vs, env))
            r += [self.text(fn, a, vs, env) for a in args]
            if None in r:
                return None
            if k == 'Construct':
                return r[0] if r else n.get('cls', '?') + '()'
            return '%s<%s>(%s)' % (s, n.get('ta', ''), ','.join(r))
        if k == 'ArraySubscriptExpr':
            a, b = self.text(fn, n['c'][0], vs, env), self.text(fn, n['c'][1], vs, env)
            return None if a is None or b is None else '%s[%s]' % (a, b)
        return None

    PURE = ('get', 'is', 'has', 'ti_cast', 'tii_cast', 's_cast', 'static_cast', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator&',
            'operator|', 'size', 'count', 'empty', 'isDerivedFrom', 'toString', 'compareStr', 'strcmp', 'S', 'operator ')

    def pure(self, s, n, name):
        return s.startswith(self.PURE)

    # -- values ------------------------------------------------------------
    def val(self, st, fn, i):
        if i is None or i < 0:
            return None
        if i in st.memo:
            return st.memo[i]
        j = self.strip(fn, i)
        if j in st.memo:
            return st.memo[j]
        n = fn.nodes[j]
        k = n['k']
        if k in ('CXXBoolLiteralExpr', 'IntegerLiteral'):
            return F if str(n['v']) in ('0', 'false') else T
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr', 'ImplicitValueInitExpr', 'CXXScalarValueInitExpr'):
            return F
        if k == 'CXXNewExpr' or k == 'CXXThisExpr' or k == 'StringLiteral' or k == 'LambdaExpr':
            return T
        if k == 'Construct' and is_smart(n.get('cls')) and not n['c']:
            return F
        if k == 'UnaryOperator' and n['op'] == '!':
            return vneg(self.val(st, fn, n['c'][0]))
        if k == 'OpCall' and n.get('op') == '!' and len(n['c']) == 1:
            return vneg(self.val(st, fn, n['c'][0]))
        if k == 'BinaryOperator' and n['op'] in ('&&', '||'):
            a = self.truth(st, self.val(st, fn, n['c'][0]))
            if n['op'] == '&&' and a is False:
                return F
            if n['op'] == '||' and a is True:
                return T
            bv = self.val(st, fn, n['c'][1])
            if a is not None:
                return bv
            b = self.truth(st, bv)
            if n['op'] == '&&' and b is False:
                return F
            if n['op'] == '||' and b is True:
                return T
            return None
        if k == 'BinaryOperator' and n['op'] in ('&', '|'):
            a, b = self.truth(st, self.val(st, fn, n['c'][0])), self.truth(st, self.val(st, fn, n['c'][1]))
            if n['op'] == '&' and (a is False or b is False):
                return F
            if n['op'] == '|' and a is False and b is False:
                return F
        if k in ('BinaryOperator', 'OpCall') and n.get('op') in ('==', '!=') and len(n['c']) == 2:
            for x, y in ((0, 1), (1, 0)):
                z = fn.nodes[self.strip(fn, n['c'][y])]
                w = None
                if z['k'] in ('CXXNullPtrLiteralExpr', 'GNUNullExpr') or z['k'] == 'IntegerLiteral' and str(z['v']) == '0' or \
                        z['k'] == 'CXXBoolLiteralExpr' and str(z['v']) in ('0', 'false'):
                    w = vneg(self.val(st, fn, n['c'][x]))
                elif z['k'] == 'CXXBoolLiteralExpr':
                    w = self.val(st, fn, n['c'][x])
                else:
                    continue
                return w if n['op'] == '==' else vneg(w)
        if k == 'BinaryOperator' and n['op'] == '=':
            return self.val(st, fn, n['c'][1])
        if k == 'OpCall' and n.get('op') == '=' and len(n['c']) == 2:
            return self.val(st, fn, n['c'][1])
        if k == 'BinaryOperator' and n['op'] == ',':
            return self.val(st, fn, n['c'][1])
        if k == 'ConditionalOperator':
            c = self.truth(st, self.val(st, fn, n['c'][0]))
            if c is None:
                a, b = self.val(st, fn, n['c'][1]), self.val(st, fn, n['c'][2])
                return a if a == b else None
            return self.val(st, fn, n['c'][1 if c else 2])
        if k == 'DeclRefExpr' and n.get('dk') in ('local', 'param'):
            v = st.env.get(n['d'])
            if v is not None and v[0] != 'x':
                return v
        vs = set()
        t = self.rule.key(self, fn, j)
        if t is None:
            t = self.text(fn, j, vs, st.env)
        if t is None:
            return None
        pol = True
        if k in ('BinaryOperator', 'OpCall') and n.get('op') in ('==', '!=', '<', '>', '<=', '>=') and len(n['c']) == 2:
            a, b = self.text(fn, n['c'][0], vs, st.env), self.text(fn, n['c'][1], vs, st.env)
            op = n['op']
            if a is None or b is None:
                return None
            if op in ('>', '<='):
                a, b = b, a
                op = {'>': '<', '<=': '>='}[op]
            if op == '>=':
                op, pol = '<', False
            if op == '!=':
                op, pol = '==', False
            if op == '==' and b < a:
                a, b = b, a
            t = '(%s%s%s)' % (a, op, b)
        return ('k', t, pol, frozenset(vs))

    def truth(self, st, v):
        if v == T:
            return True
        if v == F:
            return False
        if v is None:
            return None
        x = st.facts.get(v[1])
        if x is None:
            return None
        return x[0] if v[2] else not x[0]

    def assume(self, st, fn, i, val):
        """Record that the expression i has the truth val; False if impossible."""
        j = self.strip(fn, i)
        n = fn.nodes[j]
        if i in st.memo or j in st.memo:
            v = st.memo.get(i, st.memo.get(j))
        else:
            if n['k'] == 'UnaryOperator' and n['op'] == '!' or n['k'] == 'OpCall' and n.get('op') == '!' and len(n['c']) == 1:
                return self.assume(st, fn, n['c'][0], not val)
            if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||'):
                a = self.truth(st, self.val(st, fn, n['c'][0]))
                if (n['op'] == '&&') == val:
                    return self.assume(st, fn, n['c'][0], val) and self.assume(st, fn, n['c'][1], val)
                if a is not None and a != val:
                    return self.assume(st, fn, n['c'][1], val)
                t = self.truth(st, self.val(st, fn, j))
                return t is None or t == val
            v = self.val(st, fn, j)
        t = self.truth(st, v)
        if t is not None:
            return t == val
        if v is not None:
            st.facts[v[1]] = (val if v[2] else not val, v[3])
        if n['k'] == 'DeclRefExpr' and n.get('dk') in ('local', 'param') and v is None:
            st.env[n['d']] = T if val else F
        elif i in st.memo and v is None:
            st.memo[i] = T if val else F
        return True

    def kill(self, st, d):
        for k in [k for k, x in st.facts.items() if d in x[1]]:
            del st.facts[k]
        for k in [k for k, x in st.env.items() if x not in (T, F) and x is not None and d in x[3 if x[0] == 'k' else 2]]:
            del st.env[k]
        st.env.pop(d, None)

    # -- graph -------------------------------------------------------------
    def prepare(self, fn):
        r = self.info.get(fn.u)
        if r is not None:
            return r
        blocks = fn.blk()
        uses, names, ltext = {}, {}, {}
        sub = {}

        def subtree(i):
            if i not in sub:
                sub[i] = frozenset(x for x, _ in fn.walk(i))
            return sub[i]
        ndef, vdef = {}, {}
        for b, x in blocks.items():
            u, s, t = set(), set(), set()
            dn, dv = set(), set()
            els = list(x['e']) + ([x['tc']] if 'tc' in x and x['tc'] is not None and x['tc'] >= 0 else [])
            for pos in range(len(els) - 1, -1, -1):
                e = els[pos]
                sb = subtree(e)
                if pos < len(x['e']):
                    n = fn.nodes[e]
                    if n['k'] == 'DeclStmt':
                        for v in n['vars']:
                            s.discard(v['d'])
                            dv.add(v['d'])
                    u.discard(e)
                    dn.add(e)
                for j in sb:
                    n = fn.nodes[j]
                    if j != e or pos >= len(x['e']):
                        u.add(j)
                        dn.discard(j)
                    v = self.val(St(None), fn, j) if n['k'] not in ('Construct', 'StringLiteral') else None
                    if v is not None and v[0] == 'k':
                        t.add(v[1])
                    if n['k'] == 'DeclRefExpr' and n.get('dk') in ('local', 'param'):
                        s.add(n['d'])
                        dv.discard(n['d'])
                    if n['k'] == 'LambdaExpr':
                        s.add('*')
            uses[b], names[b], ltext[b], ndef[b], vdef[b] = u, s, t, dn, dv
        live = {b: set(uses[b]) for b in blocks}
        lname = {b: set(names[b]) for b in blocks}
        ch = True
        while ch:
            ch = False
            for b, x in blocks.items():
                for s in x['s']:
                    if s >= 0:
                        y = live[s] - ndef[b]
                        if not y <= live[b]:
                            live[b] |= y
                            ch = True
                        if not ltext[s] <= ltext[b]:
                            ltext[b] |= ltext[s]
                            ch = True
                        y = lname[s] - vdef[b]
                        if not y <= lname[b]:
                            lname[b] |= y
                            ch = True
        r = (blocks, live, lname, ltext)
        self.info[fn.u] = r
        return r

    def run(self, fn, rule_states, env=None, depth=0):
        """Exits: {(rule state, T/F/None)}."""
        self.visited.add(fn.u)
        blocks, live, lname, ltext = self.prepare(fn)
        if not blocks:
            return {(r, None) for r in rule_states}
        exits = set()
        seen = {}
        work = [(fn.cfg['entry'], St(r, dict(env or {}))) for r in rule_states]
        ex = fn.cfg['exit']
        while work:
            b, st = work.pop()
            lv, ln = live[b], lname[b]
            star = '*' in ln
            st.memo = {k: v for k, v in st.memo.items() if k in lv}
            if not star:
                st.env = {k: v for k, v in st.env.items() if k in ln}
                lt = ltext[b]
                al = {v[1] for v in st.env.values() if v[0] == 'k'}
                al |= {v[1] for v in st.memo.values() if v is not None and v[0] == 'k'}
                st.facts = {k: v for k, v in st.facts.items() if (k in lt or k in al) and self.livefact(v[1], ln)}
            k = st.key()
            s = seen.setdefault(b, set())
            if k in s:
                continue
            s.add(k)
            if len(s) > 6000:
                raise Broken('too many states in %s' % fn.q)
            self.steps += 1
            if b == ex:
                self.rule.ret(self, st, fn, None, None) if depth == 0 else None
                exits.add((st.rule, None))
                continue
            blk = blocks[b]
            cur = [st]
            for i in blk['e']:
                nxt = []
                for x in cur:
                    nxt += self.element(fn, x, i, depth, exits)
                cur = nxt
                if not cur:
                    break
            for x in cur:
                succs = blk['s']
                if blk.get('noret') and succs == [ex]:
                    continue
                tk = blk.get('tk')
                lives = [y for y in succs if y >= 0]
                if len(succs) == 2 and blk.get('tc', -1) is not None and blk.get('tc', -1) >= 0 and tk not in ('CXXTryStmt', 'CXXForRangeStmt', 'SwitchStmt'):
                    for val, y in ((True, succs[0]), (False, succs[1])):
                        if y < 0:
                            continue
                        z = x.copy()
                        if not self.assume(z, fn, blk['tc'], val):
                            continue
                        z.rule = self.rule.branch(self, z, fn, blk['tc'], val)
                        if z.rule == 'dead':
                            continue
                        work.append((y, z))
                else:
                    for y in lives:
                        work.append((y, x.copy()))
        return exits

    def livefact(self, vs, ln):
        for v in vs:
            if '#' in v and v not in ln:
                return False
        return True

    def element(self, fn, st, i, depth, exits):
        n = fn.nodes[i]
        k = n['k']
        self.rule.elem(self, st, fn, i, n)
        if k == 'CXXThrowExpr':
            return []
        if k == 'ReturnStmt':
            v = self.val(st, fn, n['c'][0]) if n['c'] else None
            t = self.truth(st, v)
            if t is None and v is not None and self.wants_split(fn):
                pass
            rv = None if t is None else (T if t else F)
            if depth == 0:
                self.rule.ret(self, st, fn, i, rv)
            exits.add((st.rule, rv))
            return []
        if k == 'DeclStmt':
            for v in n['vars']:
                if v.get('static'):
                    continue
                x = self.val(st, fn, v['i']) if v['i'] >= 0 else None
                xt = None
                if x is None and v['i'] >= 0:
                    pass
                self.kill(st, v['d'])
                if x is not None:
                    st.env[v['d']] = x
            st.rule = self.rule.assign(self, st, fn, i, n)
            return [st]
        if k == 'BinaryOperator' and n['op'] == '=' or k == 'CompoundAssign' or k == 'OpCall' and n.get('op') in ('=', '+=', '-=') and len(n['c']) == 2:
            if k == 'CompoundAssign':
                a, b = self.truth(st, self.val(st, fn, n['c'][0])), self.truth(st, self.val(st, fn, n['c'][1]))
                x = None
                if n['op'] == '&=':
                    x = F if a is False or b is False else (T if a and b else None)
                elif n['op'] == '|=':
                    x = T if a or b else (F if a is False and b is False else None)
            else:
                x = self.val(st, fn, n['c'][1]) if n.get('op') == '=' else None
            j = self.strip(fn, n['c'][0])
            l = fn.nodes[j]
            if l['k'] == 'DeclRefExpr' and l.get('dk') in ('local', 'param'):
                self.kill(st, l['d'])
                if x is not None and (x in (T, F) or l['d'] not in x[3]):
                    st.env[l['d']] = x
            elif l['k'] == 'MemberExpr':
                self.kill(st, l.get('d', '?'))
                if x in (T, F):
                    vs = set()
                    t = self.text(fn, j, vs, st.env)
                    if t is not None:
                        st.facts[t] = (x == T, frozenset(vs))
            if k == 'OpCall':
                st.memo[i] = x
            st.rule = self.rule.assign(self, st, fn, i, n)
            return [st]
        if k == 'UnaryOperator' and n['op'] in ('++', '--'):
            j = self.strip(fn, n['c'][0])
            l = fn.nodes[j]
            if l['k'] in ('DeclRefExpr', 'MemberExpr'):
                self.kill(st, l.get('d', '?'))
            return [st]
        if k in CALLS:
            name, o, args = self.callee(fn, n)
            r = self.rule.call(self, st, fn, i, n, name)
            if r is None:
                c = self.target(fn, n)
                if c is not None and depth < self.rule.depth and c.cfg.get('blocks') and c.u not in self.active and not c.o.get('ctor') and (
                        c.q not in baseline_functions() or '$lambda' in c.u or self.rule.inline(c, name, n)):
                    env = {}
                    if '$lambda' in c.u:
                        env = {k: v for k, v in st.env.items() if v in (T, F)}
                    al = list(args)
                    if len(c.params) == len(al) + 1:
                        al = [-1] + al
                    for p, a in zip(c.params, al):
                        v = self.val(st, fn, a) if a >= 0 else None
                        t = self.truth(st, v)
                        if t is not None:
                            env[p['d']] = T if t else F
                    key = (c.u, st.rule, frozenset(env.items()))
                    if key not in self.summaries:
                        self.active.add(c.u)
                        self.summaries[key] = self.run(c, [st.rule], env, depth + 1)
                        self.active.discard(c.u)
                    r = list(self.summaries[key])
                    if '$lambda' in c.u:
                        for j, x in c.all_nodes():
                            if x['k'] in ('BinaryOperator', 'CompoundAssign', 'OpCall') and x.get('op') in ('=', '+=', '-=', '&=', '|=') and x['c']:
                                l = c.nodes[self.strip(c, x['c'][0])]
                                if l['k'] == 'DeclRefExpr':
                                    self.kill(st, l.get('d', '?'))
            if r is not None:
                out = []
                for rs, v in r:
                    if v == 'throw':
                        continue
                    z = st.copy() if len(r) > 1 else st
                    self.effects(fn, z, i, n, name, args)
                    z.rule = rs
                    z.memo[i] = v
                    out.append(z)
                return out
            if self.rule.throws(name, n):
                return []
            self.effects(fn, st, i, n, name, args)
            return [st]
        return [st]

    def effects(self, fn, st, i, n, name, args):
        """Values passed by reference may have changed."""
        for ri in n.get('rp', []):
            ai = ri - (1 if (n['k'] == 'MCall' or (n['k'] == 'OpCall' and n.get('cls'))) else 0)
            if 0 <= ai < len(args):
                j = self.strip(fn, args[ai])
                l = fn.nodes[j]
                if l['k'] in ('DeclRefExpr', 'MemberExpr') and not is_smart((l.get('t') or '').split('<')[0]) or l['k'] == 'DeclRefExpr':
                    self.kill(st, l.get('d', '?'))
                    if l['k'] == 'MemberExpr':
                        b = fn.nodes[self.strip(fn, l['c'][0])] if l['c'] else None
                if l['k'] == 'DeclRefExpr':
                    for k in [k for k, x in st.facts.items() if l['d'] in x[1]]:
                        del st.facts[k]
        for a in args:
            an = fn.nodes[a] if a >= 0 else None
            if an is not None and an['k'] == 'UnaryOperator' and an['op'] == '&':
                j = self.strip(fn, an['c'][0])
                l = fn.nodes[j]
                if l['k'] in ('DeclRefExpr', 'MemberExpr'):
                    self.kill(st, l.get('d', '?'))

    def wants_split(self, fn):
        return False
