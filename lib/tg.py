"""Summaries of target generator methods as the IR they build.

Each way through a method is turned into the effects it has on the IR builders
of the blocks involved, written in a canonical form that names operands by the
role of the parameter they come from.  Two pieces of code that build the same
IR have the same canonical form, however they are written.
"""
from flow import *
from facts import Broken

NS = 'Spp::LlvmCodeGen::'
TG = NS + 'TargetGenerator'

PURE_OPS = None


class TgConfig(Config):
    loop_bound = 2
    inline_depth = 8

    def __init__(self, extra=None):
        self.extra = extra

    def event(self, name, node, fn):
        s = name.split('::')[-1]
        if name.startswith('llvm::IRBuilderBase::') or name.startswith('llvm::IRBuilder::'):
            return s.startswith(('Create', 'SetInsertPoint'))
        if name.startswith('llvm::'):
            return s in ('addIncoming', 'addParamAttr', 'addAttribute', 'push_back', 'eraseFromParent', 'setAlignment',
                         'addRetAttr', 'setBody', 'setInitializer') or s == 'Create' and 'Function' in name
        if name.startswith('std::vector') and s in ('push_back', 'emplace_back'):
            return True
        return self.extra is not None and self.extra(name, node, fn)

    def inline(self, callee, name, node):
        return '/Spp/LlvmCodeGen/' in callee.f and not callee.o.get('ctor') and callee.n not in (
            'getNewBlockName', 'getAnonymouseVarName', 'getVaStartEndFnType', 'isSigned', 'getSize')

    def pure(self, name, node):
        s = name.split('::')[-1]
        if name.startswith('llvm::') and (s.startswith(('is', 'get')) or s in ('isStructTy',)):
            return True
        return Config.pure(self, name, node)

    def call_value(self, w, st, name, node, obj, args):
        s = name.split('::')[-1]
        if name in ('llvm::BasicBlock::Create', 'llvm::Function::Create'):
            w.uniq += 1
            return ('obj', name.rsplit('::', 1)[0], args, w.uniq)
        if s.startswith('Create') and name.startswith('llvm::IRBuilder'):
            w.uniq += 1
            return ('obj', 'ir::' + s[6:], (obj,) + args, w.uniq)
        if s == 'makeArrayRef' and len(args) == 1:
            return args[0]
        return None


def getters(prog):
    """field -> name of the accessor that returns it"""
    if not hasattr(prog, '_getters'):
        g = {}

        def put(field, name):
            if field not in g or name < g[field]:
                g[field] = name
        for f in prog.fns.values():
            if not f.cls or f.params or f.o.get('ctor') or f.o.get('static'):
                continue
            body = [(i, n) for i, n in f.walk()]
            if len(body) > 8:
                continue
            rets = [n for i, n in body if n['k'] == 'ReturnStmt']
            if len(rets) != 1 or not rets[0]['c']:
                continue
            i = rets[0]['c'][0]
            n = f.nodes[i]
            while n['k'] in ('Cast', 'MCall', 'Construct') and len(n['c']) == 1:
                n = f.nodes[n['c'][0]]
            if n['k'] == 'MemberExpr' and n.get('dk') == 'field' and (not n['c'] or f.nodes[n['c'][0]]['k'] == 'CXXThisExpr'):
                put(n['d'], f.n)
        prog._getters = g
    return prog._getters


FLAG = {'NSWAdd': ('Add', 'nsw'), 'NUWAdd': ('Add', 'nuw'), 'NSWSub': ('Sub', 'nsw'), 'NUWSub': ('Sub', 'nuw'),
        'NSWMul': ('Mul', 'nsw'), 'NUWMul': ('Mul', 'nuw'), 'NSWNeg': ('Neg', 'nsw'), 'NUWNeg': ('Neg', 'nuw'),
        'ExactSDiv': ('SDiv', 'exact'), 'ExactUDiv': ('UDiv', 'exact')}
BINARY = {'Add', 'Sub', 'Mul', 'UDiv', 'SDiv', 'URem', 'SRem', 'Shl', 'LShr', 'AShr', 'And', 'Or', 'Xor', 'FAdd', 'FSub',
          'FMul', 'FDiv', 'FRem'}
COMMUTE = {'Add', 'Mul', 'And', 'Or', 'Xor', 'FAdd', 'FMul', 'ICmpEQ', 'ICmpNE', 'FCmpOEQ', 'FCmpONE', 'FCmpUNE'}
NOEFFECT = {'GEP', 'InBoundsGEP', 'StructGEP', 'Neg', 'FNeg', 'Not', 'IntCast', 'SIToFP', 'UIToFP', 'FPToSI', 'FPToUI',
            'FPTrunc', 'FPExt', 'FPCast', 'IntToPtr', 'PtrToInt', 'BitCast', 'PointerCast', 'SExt', 'ZExt', 'Trunc',
            'SExtOrTrunc', 'ZExtOrTrunc', 'BitOrPointerCast', 'Load', 'Alloca', 'PHI', 'Select', 'ICmp', 'FCmp'} | BINARY


class Norm:
    """Canonical text of terms along one way through a method."""

    def __init__(self, prog, outcome, roles=None):
        self.prog = prog
        self.o = outcome
        self.g = getters(prog)
        self.names = dict(roles or {})
        self.kinds = {}
        self.unknown = False
        self.loads = {}
        stores = 0
        self.phi = {}
        self.vec = {}
        for e in outcome.events:
            s = e.name.split('::')[-1]
            if s == 'CreateStore':
                stores += 1
            elif s == 'CreateLoad':
                self.loads[e.res] = stores
            elif s == 'addIncoming':
                self.phi.setdefault(e.obj, []).append(e.args)
            elif s in ('push_back', 'emplace_back') and e.obj is not None:
                self.vec.setdefault(e.obj, []).append(e.args[0])
        for i, p in enumerate(outcome.fn.params):
            pass

    def fieldname(self, d):
        return self.g.get(d, d.split('::')[-1])

    def twine(self, t):
        return t[0] == 'new' and t[1] in ('llvm::Twine',) or t[0] == 'call' and 'getNewBlockName' in t[1]

    def args(self, ts):
        return [self.t(x) for x in ts if not self.twine(x)]

    def t(self, t):
        if t in self.names:
            return self.names[t]
        k = t[0]
        if k == 'as':
            return self.t(t[2])
        if k == 'c':
            return {'true': '1', 'false': '0'}.get(t[1], t[1])
        if k == 'addr' or k == 'deref':
            return self.t(t[1])
        if k == 'this':
            return 'this'
        if k == 's':
            return '"%s"' % t[1]
        if k == 'f':
            return self.t(t[1]) + '.' + self.fieldname(t[2])
        if k == 'enum':
            return t[1].split('::')[-1]
        if k == 'g' or k == 'fn':
            return t[1].split('::')[-1]
        if k == 'bin':
            return '(%s%s%s)' % (self.t(t[2]), t[1], self.t(t[3]))
        if k == 'lt':
            return '(%s<%s)' % (self.t(t[1]), self.t(t[2]))
        if k == 'eq':
            return '(%s==%s)' % tuple(sorted((self.t(t[1]), self.t(t[2]))))
        if k == 'not':
            return '!' + self.t(t[1])
        if k == 'isa':
            return 'isa<%s>(%s)' % (t[1].split('::')[-1], self.t(t[2]))
        if k in ('and', 'or'):
            return '(%s %s %s)' % (self.t(t[1]), k, self.t(t[2]))
        if k == 'cond':
            tr = self.truth(t[1])
            if tr is not None:
                return self.t(t[2] if tr else t[3])
            return '(%s?%s:%s)' % (self.t(t[1]), self.t(t[2]), self.t(t[3]))
        if k == 'obj':
            if t[1].startswith('ir::'):
                return self.ir(t)
            if t[1] == 'llvm::BasicBlock':
                return self.name(t, 'bb')
            if t[1] == NS + 'Value':
                return 'Value(%s)' % ','.join(self.args(t[2][:1]))
            return self.name(t, t[1].split('::')[-1].lower())
        if k == 'new':
            if t[1].startswith('llvm::IRBuilder') and t[2]:
                return 'builder(%s)' % self.t(t[2][0])
            if t[1] in ('llvm::APInt', 'llvm::APFloat'):
                return self.const(t)
            if t[1].startswith('std::vector') or t[1] == 'llvm::ArrayRef':
                return self.lst(t)
            return '%s(%s)' % (t[1].split('::')[-1], ','.join(self.args(t[2])))
        if k == 'init':
            return '[%s]' % ','.join(self.args(t[1]))
        if k == 'v':
            if t in self.vec:
                return '[%s]' % ','.join(self.args(self.vec[t]))
            return self.name(t, t[1].split('#')[0])
        if k == 'call':
            s = t[1].split('::')[-1]
            a = t[2]
            if s == 'get' and t[1] in ('llvm::ConstantInt::get', 'llvm::ConstantFP::get') and len(a) >= 2:
                if a[1][0] == 'new':
                    return self.const(a[1])
                return ('int(%s,%s)' if 'Int' in t[1] else 'fp(%s,%s)') % (self.t(a[0]), self.t(a[1]))
            if not a:
                return s + '()'
            if len(a) == 1 and (s.startswith(('get', 'is'))):
                return self.t(a[0]) + '.' + s
            if s == 'getSharedPtr':
                return self.t(a[0])
            if s == 'getPointerTo':
                a = a[:1]
            return '%s(%s)' % (s, ','.join(self.args(a)))
        if k == 'u' or k == 'node':
            self.unknown = True
        return '<%s>' % show(t)

    def name(self, t, base):
        self.kinds[base] = self.kinds.get(base, 0) + 1
        self.names[t] = base if self.kinds[base] == 1 and base != 'bb' else '%s%d' % (base, self.kinds[base])
        return self.names[t]

    def lst(self, t):
        if t[2] and t[2][0][0] == 'init':
            return self.t(t[2][0])
        r = '[%s]' % ','.join(self.args([x for x in t[2] if x[0] != 'new' or 'allocator' not in x[1]]))
        return r[1:-1] if r.startswith('[[') else r

    def const(self, t):
        if t[1].endswith('APInt'):
            v = self.t(t[2][1])
            if v in ('0', '1') and len(t[2]) >= 2:
                return 'int(%s,%s)' % (self.t(t[2][0]), v)
            return 'int(%s)' % ','.join(self.args(t[2]))
        v = t[2][0]
        if v[0] == 'c':
            x = v[1]
            fl = x.endswith('f')
            try:
                return 'fp%s(%g)' % ('32' if fl else '64', float(x.rstrip('fF')))
            except ValueError:
                pass
        return 'fp(%s)' % self.t(v)

    def truth(self, p):
        q, pol = pred(p)
        v = self.o.facts.get(q)
        if v is None:
            return None
        return v if pol else not v

    def ir(self, t):
        op = t[1][4:]
        a = [x for x in t[2][1:] if not self.twine(x)]
        flags = []
        if op in FLAG:
            op, fl = FLAG[op]
            flags.append(fl)
        if op in ('ICmp', 'FCmp') and a and a[0][0] == 'enum':
            n = a[0][1].split('::')[-1]
            op = {'ICMP_': 'ICmp', 'FCMP_': 'FCmp'}[n[:5]] + n[5:]
            a = a[1:]
        if op == 'BinOp' and a and a[0][0] == 'enum':
            op = a[0][1].split('::')[-1]
            a = a[1:]
        if op in BINARY:
            ops = [self.t(x) for x in a[:2]]
            names = {'Add': ('nuw', 'nsw'), 'Sub': ('nuw', 'nsw'), 'Mul': ('nuw', 'nsw'), 'Shl': ('nuw', 'nsw'),
                     'UDiv': ('exact',), 'SDiv': ('exact',), 'LShr': ('exact',), 'AShr': ('exact',)}.get(op, ())
            for x, nm in zip(a[2:], names):
                if self.t(x) not in ('0',):
                    flags.append(nm)
            if op in COMMUTE:
                ops = sorted(ops)
            return op + ''.join('.' + f for f in sorted(flags)) + '(%s)' % ','.join(ops)
        if op in ('Neg', 'Not', 'FNeg'):
            for x, nm in zip(a[1:], ('nuw', 'nsw')):
                if op == 'Neg' and self.t(x) != '0':
                    flags.append(nm)
            return op + ''.join('.' + f for f in sorted(flags)) + '(%s)' % self.t(a[0])
        if op.startswith(('ICmp', 'FCmp')):
            ops = [self.t(x) for x in a[:2]]
            m = {'GT': 'LT', 'GE': 'LE'}
            if op[-2:] in m:
                op = op[:-2] + m[op[-2:]]
                ops.reverse()
            if op in COMMUTE:
                ops = sorted(ops)
            return '%s(%s)' % (op, ','.join(ops))
        if op == 'Load':
            p = [x for x in a if x[0] not in ('c',)]
            n = self.loads.get(t, 0)
            return 'Load%s(%s)' % ("'" * n, self.t(p[-1]))
        if op in ('GEP', 'InBoundsGEP'):
            a = [x for x in a if x[0] != 'c']
            r = [self.t(x) for x in a[-2:]]
            if not r[-1].startswith('['):
                r[-1] = '[' + r[-1] + ']'
            return 'GEP(%s)' % ','.join(r)
        if op == 'PHI':
            inc = sorted('%s<-%s' % (self.t(x), self.t(b)) for x, b in [y[:2] for y in self.phi.get(t, [])])
            return 'Phi(%s)' % ';'.join(inc)
        if op == 'Alloca':
            return self.name(t, 'alloca(%s)' % self.t(a[0]))
        if op in ('FPTrunc', 'FPExt', 'FPCast'):
            pass
        if op in ('Call', 'VAArg'):
            if t not in self.names:
                self.names[t] = '%s(%s)' % (op, ','.join(self.args(a)))
            return self.names[t]
        while a and a[-1][0] == 'c' and self.t(a[-1]) == '0' and len(a) > 1:
            a = a[:-1]
        return '%s(%s)' % (op, ','.join(self.args(a)))

    def effects(self):
        """builder -> [effect text]"""
        r = {}
        for e in self.o.events:
            s = e.name.split('::')[-1]
            if e.name.startswith('llvm::IRBuilder'):
                b = self.t(e.obj) if e.obj is not None else '?'
                if s == 'SetInsertPoint':
                    r.setdefault(b, []).append('SetInsertPoint(%s)' % self.t(e.args[0]))
                    continue
                op = s[6:]
                base = FLAG.get(op, (op,))[0]
                if base in NOEFFECT or base.startswith(('ICmp', 'FCmp')):
                    continue
                if op == 'Store':
                    a = [self.t(x) for x in e.args[:2]]
                    r.setdefault(b, []).append('Store(%s -> %s)' % tuple(a))
                else:
                    r.setdefault(b, []).append(self.ir(e.res))
        return r

    def builders(self):
        return {self.t(e.obj) for e in self.o.events if e.name.startswith('llvm::IRBuilder') and e.obj is not None}


def summarise(prog, method, extra=None, cfg=None):
    fn = prog.fn(method)
    w = Walk(prog, cfg or TgConfig(extra))
    outs = w.run(fn)
    roles = {('v', p['d'], 0): 'P%d' % i for i, p in enumerate(fn.params)}
    res = []
    for o in outs:
        if o.kind == 'throw':
            continue
        if const_of(o.ret) in ('false', '0'):
            continue
        res.append((o, Norm(prog, o, roles)))
    return fn, w, res


def out_param(fn, o, idx):
    p = fn.params[idx]
    return o.state.env.get((0, p['d']))
