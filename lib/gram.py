"""Constant propagation over the code that builds the grammar.

The grammar of the language is built by straight line code: calls of
`set(path, value)` whose values are nested `create` calls over literals.  This
module propagates those constants through the syntax trees of the factories
(following local variables, helper functions and loops over literal lists) and
returns the table of definitions: path -> value.  Nothing is run.
"""
import re
from facts import Broken

PASS = ('SharedPtr', 'SrdRef', 'WkRef', 'UnqRef', 'PlainRef')


class Obj:
    """An object of the grammar: class name, fields and (for containers) items."""
    __slots__ = ('c', 'f', 'items', 'args', 'loc')

    def __init__(self, c, loc=''):
        self.c = c
        self.f = {}
        self.items = []
        self.args = []
        self.loc = loc

    def __repr__(self):
        return '%s%s%s%s' % (self.c, self.f or '', self.items or '', self.args or '')


class TInt(int):
    """A number object (a null reference is the plain 0)."""

    def __repr__(self):
        return 'Int(%d)' % int(self)


def number(args):
    v = args[0] if args else 0
    return TInt(v) if isinstance(v, int) and not isinstance(v, bool) else v


def null(v):
    return v is None or v == 0 and not isinstance(v, (TInt, bool))


class Unknown:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '?' + self.why


def short(c):
    """Class name without namespaces and without the helper template arguments."""
    c = re.sub(r'\b(?:[A-Za-z_]\w*::)+', '', c)
    return c.strip()


class Builder:
    def __init__(self, prog):
        self.prog = prog
        self.defs = {}          # path -> value (last set wins)
        self.order = []
        self.groups = {}
        self.commands = {}
        self.removed = []
        self.keywords = []
        self.members = {}
        self.shapes = {}        # path -> what the helpers that define commands, variations and groups make of it
        self.shadow = None
        self.depth = 0
        self.nodes = 0

    # ---- expressions
    def ev(self, f, i, env):
        if i is None or i < 0:
            return None
        self.nodes += 1
        n = f.nodes[i]
        k = n['k']
        c = n['c']
        if k == 'StringLiteral':
            return n['v']
        if k in ('IntegerLiteral', 'CharacterLiteral'):
            return int(n['v'])
        if k == 'CXXBoolLiteralExpr':
            return n['v'] == 'true'
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return 0
        if k == 'DeclRefExpr':
            if 'v' in n and n.get('dk') not in ('func', 'local', 'param', 'var'):
                return int(n['v'])
            d = n.get('d')
            if d in env:
                return env[d]
            if n.get('dk') == 'func' and n.get('u') in self.prog.fns:
                o = Obj('lambda', f.loc(n))
                o.args = [n['u']]
                return o
            if d and d.endswith('::null'):
                return 0
            if 'v' in n:
                try:
                    return int(n['v'])
                except ValueError:
                    pass
            return Unknown(d or '?')
        if k == 'MemberExpr':
            base = self.ev(f, c[0], env) if c else None
            if isinstance(base, Obj) and n.get('n') in base.f:
                return base.f[n['n']]
            d = n.get('d', '')
            if d.endswith('::null'):
                return 0
            if d in self.members:
                return self.members[d]
            return Unknown(d)
        if k == 'CXXThisExpr':
            return 'this'
        if k in ('ParenExpr', 'Cast', 'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                 'CXXBindTemporaryExpr', 'CXXStdInitializerListExpr', 'CXXDefaultArgExpr', 'ConstantExpr',
                 'CXXFunctionalCastExpr'):
            return self.ev(f, c[0], env) if c else None
        if k == 'InitListExpr':
            vals = [self.ev(f, x, env) for x in c]
            t = n.get('t', '')
            q = re.sub(r'^(const |struct )+', '', t).strip()
            if short(q) in ('CommandSection', 'CommandArg', 'StatementSegment'):
                return self.record(q, vals)
            return vals
        if k == 'UnaryOperator':
            v = self.ev(f, c[0], env)
            if n.get('op') == '-' and isinstance(v, int):
                return -v
            if n.get('op') == '!' and isinstance(v, bool):
                return not v
            return v
        if k == 'BinaryOperator':
            a, b = self.ev(f, c[0], env), self.ev(f, c[1], env)
            if n['op'] == '=':
                self.assign(f, c[0], b, env)
                return b
            if isinstance(a, int) and isinstance(b, int):
                try:
                    if n['op'] in ('==', '!=', '<', '>', '<=', '>='):
                        return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[n['op']]
                    return {'|': a | b, '+': a + b, '&': a & b, '-': a - b, '<<': a << b if 0 <= b < 64 else 0, '*': a * b}[n['op']]
                except KeyError:
                    pass
            return Unknown(n['op'])
        if k == 'OpCall':
            if n.get('op') == '|' and len(c) == 2:
                a, b = self.ev(f, c[0], env), self.ev(f, c[1], env)
                if isinstance(a, int) and isinstance(b, int):
                    return a | b
            if n.get('op') == '=' and len(c) == 2:
                v = self.ev(f, c[1], env)
                self.assign(f, c[0], v, env)
                return v
            if n.get('op') in ('->', '*') and c:
                return self.ev(f, c[0], env)
            return Unknown('op' + str(n.get('op')))
        if k == 'LambdaExpr':
            o = Obj('lambda', f.loc(n))
            o.args = [n['lam']]
            return o
        if k == 'Construct':
            return self.construct(f, n, env)
        if k == 'Call':
            return self.call(f, n, env)
        if k == 'MCall':
            return self.mcall(f, n, env)
        if k == 'ConditionalOperator':
            v = self.ev(f, c[0], env)
            if isinstance(v, (bool, int)):
                return self.ev(f, c[1] if v else c[2], env)
            return Unknown('?:')
        return Unknown(k)

    def record(self, q, vals):
        o = Obj(short(q))
        cl = self.prog.classes.get(q) or next((x for x in self.prog.classes.values() if x['q'].endswith(short(q))), None)
        names = [x['n'] for x in cl['fields']] if cl and cl.get('fields') else []
        o.args = vals
        for nm, v in zip(names, vals):
            o.f[nm] = v
        return o

    def construct(self, f, n, env):
        cls = n.get('cls', '')
        args = [self.ev(f, x, env) for x in n['c']]
        s = short(cls)
        if s in PASS or n.get('copy'):
            return args[0] if args else 0
        if s == 'initializer_list':
            return args[0] if args else []
        if s in ('vector',):
            return args[0] if args and isinstance(args[0], list) else []
        if s == 'Argument':
            return tuple(args[:2])
        if s in ('TiNumber', 'TiInt'):
            return number(args)
        if s in ('TiStrBase', 'TiWStrBase', 'StringBase', 'TiStr', 'TiWStr', 'basic_string', 'TiBool'):
            return args[0] if args else ''
        if s in ('CommandSection', 'CommandArg', 'StatementSegment'):
            return self.record(cls, args)
        if s == 'function':
            return args[0] if args else 0
        o = Obj(s, f.loc(n))
        o.args = args
        return o

    def fill(self, o, args):
        for a in args:
            if isinstance(a, list) and all(isinstance(x, tuple) and len(x) == 2 for x in a) and o.c not in ('Map', 'List'):
                for k, v in a:
                    o.f[k] = v
        if o.c == 'Map':
            pos = [a for a in args if isinstance(a, list)]
            for a in (pos[1:] if len(pos) > 1 else pos):
                o.items += a
        elif o.c == 'List':
            pos = [a for a in args if isinstance(a, list)]
            for a in (pos[1:] if len(pos) > 1 else []):
                o.items += a
        return o

    def call(self, f, n, env):
        q = n.get('fn', '')
        nm = n.get('n', '')
        args = [self.ev(f, x, env) for x in n['c']]
        if nm == 'createReference' and args:
            o = Obj('Ref', f.loc(n))
            o.args = [args[0]]
            return o
        if nm == 'create' and n.get('static') or nm == 'create' and n.get('cls'):
            cls = short(n.get('clsT') or n['cls'])
            if short(n['cls']) == 'TiNumber':
                return number(args)
            if short(n['cls']) in ('TiStrBase', 'TiWStrBase'):
                return args[0] if args else ''
            o = Obj(cls, f.loc(n))
            if short(n['cls']).endswith(('Handler', 'CharGroupUnit', 'CharGroupDefinition')):
                o.args = args
                return o
            return self.fill(o, args)
        if nm == 'newSrdObj':
            ta = n.get('ta', '')
            t = split_ta(ta)[0] if ta else ''
            s = short(t)
            if re.match(r'Ti(Number|Int)', s):
                return number(args)
            if re.match(r'Ti(Str|WStr)', s):
                return args[0] if args else ''
            o = Obj(s, f.loc(n))
            o.args = args
            return o
        if nm == 'getSharedPtr' and args:
            return args[0]
        if nm == 'clearCaches':
            return 0
        return self.inline(f, n, None, args, env)

    def mcall(self, f, n, env):
        nm = n.get('n', '')
        cls = short(n.get('cls', ''))
        base = self.ev(f, n['c'][0], env)
        args = [self.ev(f, x, env) for x in n['c'][1:]]
        if nm in ('get', 's_cast', 's_cast_get', 'ti_cast', 'ti_cast_get') and not (base == 'this'):
            return base
        if nm == 'getId' and args and isinstance(args[0], str):
            return 'id:' + args[0]
        if base == 'this':
            if nm == 'set' and cls == 'Factory' and self.shadow is not None:
                self.shadow[args[0]] = args[1] if len(args) > 1 else 0
                return 0
            if nm in ('createCommand', 'createStatementVariation', 'createProdGroup') and self.shadow is None:
                self.shadow = {}
                try:
                    self.inline(f, n, base, args, env)
                finally:
                    self.shapes.update(self.shadow)
                    self.shadow = None
            if nm == 'set' and cls == 'Factory':
                self.defs[args[0]] = args[1] if len(args) > 1 else 0
                self.order.append((args[0], f.loc(n)))
                return 0
            if nm == 'createCommand':
                self.commands[args[0]] = (args[1], args[2] if len(args) > 2 else 0, f.loc(n))
                self.defs[args[0]] = Obj('Command', f.loc(n))
                self.defs[args[0]].args = args[1:]
                return 0
            if nm == 'createStatementVariation':
                o = Obj('Variation', f.loc(n))
                o.args = args[1:]
                self.defs[args[0]] = o
                return 0
            if nm == 'createProdGroup':
                self.groups[args[0]] = list(args[1]) if isinstance(args[1], list) else []
                o = Obj('Group', f.loc(n))
                o.args = [self.groups[args[0]]]
                self.defs[args[0]] = o
                return 0
            if nm == 'addProdsToGroup':
                if args[0] not in self.groups:
                    self.groups[args[0]] = []
                self.groups[args[0]] += args[1] if isinstance(args[1], list) else [Unknown('prods')]
                return 0
            if nm in ('remove', 'tryRemove'):
                self.removed.append((args[0], f.loc(n)))
                return 0
            if nm == 'removeProdsFromGroup':
                for p in args[1] if isinstance(args[1], list) else []:
                    self.removed.append((args[0] + ' - ' + str(p), f.loc(n)))
                return 0
            if nm in ('generateConstTokenDefinitions', 'generateConstTokensForStrings', 'setRootScope', 'initializeObject'):
                return 0
            if nm in ('get', 'tryGet') and args and isinstance(args[0], str):
                o = Obj('Got', f.loc(n))
                o.args = [args[0]]
                return o
            return self.inline(f, n, base, args, env)
        if nm in ('addKeywords', 'removeKeywords') and args and isinstance(args[0], list):
            (self.keywords if nm == 'addKeywords' else self.removed).extend(
                args[0] if nm == 'addKeywords' else [('keyword ' + str(k), f.loc(n)) for k in args[0]])
            return 0
        if isinstance(base, Obj) and nm == 'add' and args:
            base.items.append(args[0])
            return 0
        if isinstance(base, Obj) and nm.startswith('set') and len(args) == 1:
            base.f[nm[3].lower() + nm[4:]] = args[0]
            return 0
        if isinstance(base, list) and nm == 'size':
            return len(base)
        if isinstance(base, list) and nm == 'empty':
            return not base
        if isinstance(base, list) and nm in ('front', 'back') and base:
            return base[0 if nm == 'front' else -1]
        if isinstance(base, list) and nm in ('at',) and args and isinstance(args[0], int) and 0 <= args[0] < len(base):
            return base[args[0]]
        if isinstance(base, list) and nm in ('push_back', 'emplace_back') and args:
            base.append(args[0])
            return 0
        return Unknown(n.get('fn', nm))

    def inline(self, f, n, base, args, env):
        g = self.prog.fns.get(n.get('u'))
        if g is None or g.body is None or self.depth > 8 or not ('/Grammar/' in g.f):
            return Unknown(n.get('fn', '?'))
        self.depth += 1
        try:
            return self.run(g, args)
        finally:
            self.depth -= 1

    def assign(self, f, i, v, env):
        n = f.nodes[i]
        if n['k'] == 'MemberExpr':
            self.members[n.get('d')] = v
        elif n['k'] == 'DeclRefExpr':
            env[n.get('d')] = v

    # ---- statements
    class Ret(Exception):
        def __init__(self, v):
            self.v = v

    def run(self, f, args=(), env=None):
        env = dict(env or {})
        for p, a in zip(f.params, args):
            env[p['d']] = a
        try:
            self.st(f, f.body, env)
        except Builder.Ret as r:
            return r.v
        return 0

    def st(self, f, i, env):
        if i is None or i < 0:
            return
        n = f.nodes[i]
        k = n['k']
        if k == 'CompoundStmt':
            for c in n['c']:
                self.st(f, c, env)
        elif k == 'DeclStmt':
            for v in n['vars']:
                env[v['d']] = self.ev(f, v['i'], env) if v['i'] >= 0 else Unknown(v['d'])
        elif k == 'IfStmt':
            if n.get('init', -1) is not None and n.get('init', -1) >= 0:
                self.st(f, n['init'], env)
            v = self.ev(f, n['cond'], env)
            if isinstance(v, (bool, int)):
                self.st(f, n['then'] if v else n['else'], env)
            else:
                self.st(f, n['then'], env)
                self.st(f, n['else'], env)
        elif k == 'CXXForRangeStmt':
            r = self.ev(f, n['range'], env)
            var = f.nodes[n['var']]['vars'][0]['d']
            if isinstance(r, Obj):
                r = r.items
            for x in (r if isinstance(r, list) else [Unknown('element')]):
                env[var] = x
                self.st(f, n['body'], env)
        elif k == 'ReturnStmt':
            raise Builder.Ret(self.ev(f, n['c'][0], env) if n['c'] else 0)
        elif k in ('ForStmt', 'WhileStmt', 'CXXTryStmt'):
            for c in n['c']:
                self.st(f, c, env)
        elif k == 'CXXThrowExpr':
            raise Builder.Ret(Unknown('throw'))
        elif k in ('NullStmt', 'BreakStmt', 'ContinueStmt'):
            pass
        else:
            self.ev(f, i, env)


def split_ta(ta):
    r, d, cur = [], 0, ''
    for ch in ta:
        if ch == ',' and d == 0:
            r.append(cur.strip())
            cur = ''
            continue
        d += ch == '<'
        d -= ch == '>'
        cur += ch
    if cur.strip():
        r.append(cur.strip())
    return r or ['']


class Grammar:
    """The definitions of a builder, with references resolved the way the parser resolves them."""

    def __init__(self, b):
        self.b = b
        self.defs = b.defs

    def base(self, path):
        v = self.defs.get(path)
        if isinstance(v, Obj) and isinstance(v.f.get('baseRef'), Obj):
            return self.target(v.f['baseRef'].args[0], path.rsplit('.', 1)[0] if v.c != 'Module' else path, path)
        return None

    def target(self, ref, module, own=None):
        """Path designated by a reference made in a module (None when it cannot be told)."""
        parts = ref.split('.')
        if parts[0] == 'root':
            cur = 'root'
        elif parts[0] == 'module':
            cur = module if own is None or own != module else module
        else:
            return None
        for p in parts[1:]:
            if p == 'owner':
                cur = cur.rsplit('.', 1)[0]
            elif p == 'base':
                b = self.base(cur)
                if b is None:
                    return None
                cur = b
            else:
                nx = self.member(cur, p)
                if nx is None:
                    return None
                cur = nx
        return cur

    def member(self, module, name, seen=()):
        p = module + '.' + name
        if p in self.defs:
            v = self.defs[p]
            return p
        v = self.defs.get(module)
        if isinstance(v, Obj) and v.c == 'Module':
            if name in v.f:
                return p
            if module not in seen:
                b = self.base(module)
                if b:
                    return self.member(b, name, seen + (module,))
        return None

    def value(self, path):
        if path in self.defs:
            return self.defs[path]
        m, n = path.rsplit('.', 1)
        v = self.defs.get(m)
        if isinstance(v, Obj) and n in v.f:
            return v.f[n]
        return None

    def follow(self, path, module, lim=10):
        """Follows module variables that hold references, and the start references of modules.

        Returns (production path, module the production is used in)."""
        while path and lim:
            lim -= 1
            v = self.value(path)
            if isinstance(v, Obj) and v.c == 'Ref':
                path = self.target(v.args[0], module if v.args[0].startswith('module') else 'root')
                if path and isinstance(self.value(path), Obj) and self.value(path).c == 'Module':
                    module = path
                continue
            if isinstance(v, Obj) and v.c == 'Module':
                module = path
                s = self.start(path)
                if s is None:
                    return path, module
                path = self.target(s, module)
                continue
            return path, module
        return path, module

    def start(self, module, seen=()):
        v = self.defs.get(module)
        if isinstance(v, Obj) and isinstance(v.f.get('startRef'), Obj):
            return v.f['startRef'].args[0]
        b = self.base(module)
        if b and b not in seen:
            return self.start(b, seen + (module,))
        return None

    def field(self, path, name, seen=()):
        """A field of a definition, or of the definition it is based on."""
        v = self.value(path)
        if isinstance(v, Obj) and v.c == 'Command':
            return v.f.get(name)
        if isinstance(v, Obj):
            if name in v.f:
                return v.f[name]
            b = self.base(path)
            if b and b not in seen:
                return self.field(b, name, seen + (path,))
        return None

    def vars(self, path, seen=()):
        v = self.value(path)
        r = {}
        if isinstance(v, Obj):
            b = self.base(path)
            if b and b not in seen:
                r.update(self.vars(b, seen + (path,)))
            if isinstance(v.f.get('vars'), Obj):
                r.update(dict(v.f['vars'].items))
        return r


def build(prog, factory, fn, consts=None, onto=None):
    f = prog.fn(factory + '::' + fn)
    b = Builder(prog)
    if onto is not None:
        b.defs = dict(onto.defs)
        b.groups = onto.groups
        b.commands = onto.commands
        b.keywords = onto.keywords
        b.order = onto.order
        b.shapes = onto.shapes
    args = []
    for p in f.params:
        args.append((consts or {}).get(p['d'].split('#')[0], Unknown(p['d'])))
    b.run(f, args)
    return b
