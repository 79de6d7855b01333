"""P07: one calling convention at declarations, calls, entries and returns."""
from eg import *
from tg import *
from terms import *
import p08
from p08 import walk, good, Report, has, fdict, ev, fact_items
import re

TITLE = 'Calls, function entries and returns follow one calling convention'
TECHNIQUE = 'path-sensitive dataflow summaries of the target generator and the code generator, checked against the C struct convention'
NOTE = ('All paths of every method that makes a function type, a declaration, a body, a call or a return, with argument loops taken '
        'to three rounds. That a load may be erased when its pointer is passed (no later use) is not decided.')
RULE = ('structures go by pointer with byval and align 8 at their own position, a structure result comes first as sret, on functions '
        'and on call sites alike; arguments keep their order; results with constructors are the first reference argument')

M = TG + '::'
GN = 'Spp::CodeGen::Generator::'
TYG = 'Spp::CodeGen::TypeGenerator::'
EXG = 'Spp::CodeGen::ExpressionGenerator::'


class Cfg(TgConfig):
    loop_bound = 3
    record_writes = True

    def event(self, name, node, fn):
        s = name.split('::')[-1]
        return s in ('add', 'setName', 'addLlvmModule', 'setLlvmFunction', 'setLlvmAllocaInst', 'setTerminated') or TgConfig.event(self, name, node, fn)


def outs(prog, m):
    fn = prog.fn(M + m)
    roles = {('v', p['d'], 0): p['d'].split('#')[0] for p in fn.params}
    r = []
    for o in Walk(prog, Cfg()).run(fn):
        if o.kind == 'return' and const_of(o.ret) not in ('false', '0'):
            r.append((o, Norm(prog, o, roles)))
    if not r:
        raise Broken('%s: no way through it' % m)
    return fn, r


def facts_of(o, n):
    return {n.t(c): v for c, v in o.facts.items()}


def rounds(f, text, limit=3):
    """how many rounds a loop up to text went, and whether that is known"""
    k = 0
    while f.get('(%d<%s)' % (k, text)) or f.get('(%d==%s)' % (k, text)) is False or k == 0 and f.get(text):
        k += 1
    return k


def attrs(o, n, obj):
    r = []
    for e in o.events:
        if e.name.split('::')[-1] == 'addParamAttr' and e.obj == obj:
            a = e.args[1]
            r.append((n.t(e.args[0]), attr_text(n, a)))
    return sorted(r)


def attr_text(n, a):
    if a[0] == 'call':
        s = sname(a[1])
        x = [n.t(y) for y in a[2]]
        if s == 'get' and 'Attribute' in a[1]:
            return '%s(%s)' % (x[1], ','.join(x[2:]))
        if s == 'getWithByValType':
            return 'ByVal(%s)' % x[-1]
        if s == 'getWithStructRetType':
            return 'StructRet(%s)' % x[-1]
        if s == 'getWithAlignment':
            return 'Alignment(%s)' % x[-1].replace('Align(', '').rstrip(')')
    return n.t(a)


def expected(f, ft, upto=None):
    """the attributes that the function type asks for, or the reason why this is not known"""
    ret = f.get(ft + '.getRetType.getLlvmType.isStructTy')
    if ret is None:
        return None, 'the kind of the result is not considered'
    off = 1 if ret else 0
    r = []
    if ret:
        r.append(('0', 'StructRet(%s.getRetType.getLlvmType)' % ft))
    n = ft + '.getArgs.getElementCount'
    if not any(n in t for t in f):
        return None, 'the arguments are not considered'
    k = rounds(f, n)
    if upto is not None:
        k = min(k, upto)
    for i in range(k):
        a = 'getElement(%s.getArgs,%d).getLlvmType' % (ft, i)
        s = f.get(a + '.isStructTy')
        if s is None:
            return None, 'the kind of argument %d is not considered' % i
        if s:
            r += [(str(i + off), 'ByVal(%s)' % a), (str(i + off), 'Alignment(8)')]
    return sorted(r), None


class Rep:
    def __init__(self, chk, fn):
        self.chk, self.fn, self.seen = chk, fn, set()

    def __call__(self, key, o, text):
        if key not in self.seen:
            self.seen.add(key)
            self.chk.violation('%s:%s' % (self.fn.n, key), self.fn.loc(o.node if o is not None else None), '%s: %s' % (self.fn.n, text))


def run(chk, prog):
    types(chk, prog)
    functions(chk, prog)
    calls(chk, prog)
    bodies(chk, prog)
    returns(chk, prog)
    codegen(chk, prog)


def types(chk, prog):
    fn, res = outs(prog, 'generateFunctionType')
    bad = Rep(chk, fn)
    for o, n in res:
        chk.count('function type cases')
        f = facts_of(o, n)
        ret = f.get('retType.getLlvmType.isStructTy')
        if ret is None:
            bad('ret', o, 'the kind of the result is not considered')
            continue
        made = [t for t in subterms(o.state.env.get((0, fn.params[3]['d']))) if t[0] == 'call' and t[1] == 'llvm::FunctionType::get']
        if len(made) != 1:
            raise Broken('generateFunctionType: the function type was not found')
        want = ['getPointerTo(retType.getLlvmType)'] if ret else []
        names = []
        for i in range(rounds(f, 'argTypes.getElementCount')):
            a = 'getElement(argTypes,%d)' % i
            s = f.get(a + '.getLlvmType.isStructTy')
            if s is None:
                bad('arg', o, 'the kind of an argument is not considered')
                continue
            want.append('getPointerTo(%s.getLlvmType)' % a if s else a + '.getLlvmType')
            names.append(('getElementKey(argTypes,%d)' % i, a))
        x = made[0][2]
        v = x[1]
        while v[0] == 'new' and v[2] and 'ArrayRef' in v[1]:
            v = v[2][0]
        got = '[]' if v[0] == 'v' and v not in n.vec else n.t(x[1])
        if got != '[%s]' % ','.join(want):
            bad('list', o, 'the machine function takes %s instead of [%s]' % (got, ','.join(want)))
        r = n.t(x[0])
        if ('getVoidTy' in r) != ret or not ret and r != 'retType.getLlvmType':
            bad('ret', o, 'the machine function returns %s for a %s' % (r, 'structure' if ret else 'value'))
        if n.t(x[2]) != 'variadic':
            bad('variadic', o, 'variadic functions are not told apart')
        got = [(n.t(e.args[0]), n.t(e.args[1])) for e in o.events if sname(e.name) == 'add' and len(e.args) == 2]
        if got != names:
            bad('args', o, 'the arguments are not noted by their names, in order')
    chk.floor('function type cases', 10)


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def made(o, n):
    return [e for e in o.events if e.name == 'llvm::Function::Create' and n.t(e.args[0]).endswith('getLlvmFunctionType')]


def functions(chk, prog):
    """every function object carries the attributes of its type"""
    users = {}
    for fn in prog.fns.values():
        if '/Spp/LlvmCodeGen/' in fn.f and any(x.get('fn') == 'llvm::Function::Create' for i, x in fn.walk()):
            users[fn.q] = fn
    for q, fn in sorted(users.items()):
        if not q.startswith(M):
            raise Broken('%s creates functions, which is not expected' % q)
        if fn.n not in ('generateFunctionDecl', 'prepareFunctionBody', 'generateFunctionPointer', 'generateFunctionCall', 'generateReturn'):
            if fn.q in baseline_functions():
                raise Broken('%s creates functions, which is not expected' % q)
    for m in ('generateFunctionDecl', 'prepareFunctionBody', 'generateFunctionPointer', 'generateFunctionCall'):
        fn, res = outs(prog, m)
        bad = Rep(chk, fn)
        hits = 0
        for o, n in res:
            f = facts_of(o, n)
            for e in made(o, n):
                hits += 1
                chk.count('functions made')
                ft = n.t(e.args[0])[:-len('.getLlvmFunctionType')]
                want, why = expected(f, ft)
                if want is None:
                    bad('known', o, why)
                    continue
                got = attrs(o, n, e.res)
                if got != want:
                    bad('attrs', o, 'the function gets the attributes %s instead of %s' % (got, want))
                if n.t(e.args[1]) != 'ExternalLinkage':
                    bad('linkage', o, 'the function cannot be linked to')
                nm = n.t(e.args[2])
                owner = ft[:-len('.getFunctionType')] + '.getName.getBuf' if ft.endswith('.getFunctionType') else 'name'
                if nm not in (owner, 'Twine(%s)' % owner):
                    bad('name', o, 'the function is called %s' % nm)
            if m in ('generateFunctionCall', 'generateFunctionPointer') and not made(o, n):
                g = [v for t, v in f.items() if t.startswith('getFunction(') and 'function.getName.getBuf' in t]
                if not any(g):
                    bad('found', o, 'a function of another name is used')
            if m == 'generateFunctionPointer':
                chk.count('function pointers')
                t = n.t(o.state.env.get((0, fn.params[3]['d'])) or C('0'))
                fs = [n.t(e.res) for e in made(o, n)] or [x for x in f if x.startswith('getFunction(')]
                if not any('getBitCast(%s,' % x in t or t == 'Value(%s)' % x for x in fs):
                    bad('value', o, 'the pointer is %s' % t)
            if m in ('generateFunctionDecl',):
                g = f.get('this.perFunctionModules')
                if g is None or g == bool(made(o, n)):
                    bad('when', o, 'the function is declared in the common module exactly when functions have no modules of their own')
        if not hits:
            raise Broken('%s makes no function' % m)
    chk.floor('functions made', 100)
    chk.floor('function pointers', 4)


def calls(chk, prog):
    for m, ft, args in (('generateFunctionCall', 'function.getFunctionType', 'arguments'),
                        ('generateFunctionPtrCall', 'functionPtrType.getContentType', 'arguments')):
        fn, res = outs(prog, m)
        bad = Rep(chk, fn)
        ridx = [i for i, p in enumerate(fn.params) if p['d'].startswith('result')][0]
        for o, n in res:
            chk.count('call cases')
            f = facts_of(o, n)
            cs = [e for e in o.events if e.name.endswith('::CreateCall')]
            if len(cs) != 1:
                bad('once', o, 'the call is made %d times' % len(cs))
                continue
            call = cs[0]
            k = rounds(f, args + '.getElementCount')
            want, why = expected(f, ft, k)
            if want is None:
                bad('known', o, why)
                continue
            got = attrs(o, n, call.res)
            if got != want:
                bad('attrs', o, 'the call gets the attributes %s instead of %s' % (got, want))
            ret = f[ft + '.getRetType.getLlvmType.isStructTy']
            # the values passed
            vec = []
            for a in call.args:
                while a[0] == 'new' and a[2] and 'ArrayRef' in a[1]:
                    a = a[2][0]
                vec = vec or n.vec.get(a, [])
            vec = list(vec)
            sret = None
            if ret:
                if not vec or not (vec[0][0] == 'obj' and vec[0][1] == 'ir::Alloca' and n.t(vec[0][2][1]) == ft + '.getRetType.getLlvmType'):
                    bad('sret', o, 'no storage for the result is passed first')
                    continue
                sret = vec[0]
                vec = vec[1:]
            if len(vec) != k:
                bad('count', o, '%d of %d arguments are passed' % (len(vec), k))
                continue
            erased = [e.obj for e in o.events if sname(e.name) == 'eraseFromParent']
            for i, v in enumerate(vec):
                chk.count('passed arguments')
                val = 'getElement(%s,%d).getLlvmValue' % (args, i)
                st = f.get(val + '.getType.isStructTy')
                t = n.t(v)
                if st is None:
                    bad('kind', o, 'the kind of an argument value is not considered')
                elif not st:
                    if t != val:
                        bad('value', o, 'argument %d is passed as %s' % (i, t))
                else:
                    ld = f.get('dyn_cast(%s)' % val)
                    if ld and t == 'dyn_cast(%s).getPointerOperand' % val:
                        erased = [x for x in erased if n.t(x) != 'dyn_cast(%s)' % val]
                        continue
                    ok = v[0] == 'obj' and v[1] == 'ir::Alloca' and v != sret and vec.count(v) == 1
                    stores = [e for e in o.events if e.name.endswith('::CreateStore') and e.args[1] == v]
                    if not ok or len(stores) != 1 or n.t(stores[0].args[0]) != val or o.events.index(stores[0]) > o.events.index(call):
                        bad('copy', o, 'structure %d is passed as %s, which holds no copy of it' % (i, t))
            if erased:
                bad('erased', o, 'a value still in use is erased')
            r = o.state.env.get((0, fn.params[ridx]['d']))
            t = n.t(r) if r is not None else '?'
            if ret:
                lds = [e for e in o.events if e.name.endswith('::CreateLoad') and n.t(e.args[0]) == ft + '.getRetType.getLlvmType' and
                       e.args[1] == sret and o.events.index(e) > o.events.index(call)]
                if not lds or n.t(lds[-1].res) not in t:
                    bad('result', o, 'the result is %s, not the value the callee stored' % t)
            elif n.t(call.res) not in t:
                bad('result', o, 'the result is %s, not what the callee returned' % t)
    chk.floor('call cases', 300)
    chk.floor('passed arguments', 300)


def arg_index(t):
    """arg_begin(F) -> (F, 0); inc^k(arg_begin(F)) -> (F, k)"""
    k = 0
    while isinstance(t, tuple):
        if t[0] == 'inc':
            k += 1
            t = t[1]
        elif t[0] in ('addr', 'deref'):
            t = t[1]
        elif t[0] == 'as':
            t = t[2]
        elif t[0] == 'bin' and t[1] == '+' and t[3][0] == 'c':
            k += int(t[3][1])
            t = t[2]
        elif t[0] == 'call' and sname(t[1]) == 'arg_begin':
            return t[2][0], k
        elif t[0] == 'call' and sname(t[1]) == 'getArg' and t[2][1][0] == 'c':
            return t[2][0], k + int(t[2][1][1])
        else:
            return None
    return None


def bodies(chk, prog):
    fn, res = outs(prog, 'prepareFunctionBody')
    bad = Rep(chk, fn)
    for o, n in res:
        chk.count('function entries')
        f = facts_of(o, n)
        ret = f.get('functionType.getRetType.getLlvmType.isStructTy')
        if ret is None:
            bad('known', o, 'the kind of the result is not considered at the entry')
            continue
        func = [e.res for e in made(o, n)]
        blocks = [e for e in o.events if e.name == 'llvm::BasicBlock::Create']
        sp = [(k, v) for k, v in o.state.heap.items() if k[0] == 'f' and k[2].endswith('llvmSretPtr')]
        if bool(sp) != ret or sp and (arg_index(sp[0][1]) or (0, -1))[1] != 0:
            bad('sret', o, 'the storage of a structure result must be the first machine argument')
        adds = [e for e in o.events if sname(e.name) == 'add' and len(e.args) == 1 and n.t(e.obj) == 'args']
        k = rounds(f, 'functionType.getArgs.getElementCount')
        var = f.get('function.getFunctionType.isVariadic')
        if var is None:
            bad('variadic', o, 'variadic functions are not considered at the entry')
            continue
        if len(adds) != k + (1 if var else 0):
            bad('count', o, '%d arguments are handed on for %d' % (len(adds), k))
            continue
        for i in range(k):
            chk.count('entry arguments')
            a = 'getElement(functionType.getArgs,%d).getLlvmType' % i
            st = f.get(a + '.isStructTy')
            v = adds[i].args[0]
            x = v[2][0] if v[0] in ('new', 'obj') and v[2] else None
            if st is None:
                bad('kind', o, 'the kind of an argument is not considered at the entry')
                continue
            if x is not None and st:
                if x[0] == 'obj' and x[1] == 'ir::Load' and n.t(x[2][1]) == a:
                    x = x[2][2]
                else:
                    x = None
            ai = arg_index(x) if x is not None else None
            if ai is None or ai[1] != i + (1 if ret else 0) or (func and ai[0] != func[0]):
                bad('value', o, 'argument %d is entered as %s' % (i, n.t(v)))
        va = [e for e in o.events if e.name.endswith('::CreateCall')]
        starts = [e for e in va if 'va_start' in n.t(e.args[0]) or any(g.res == e.args[0] and 'va_start' in n.t(g.args[2]) for g in o.events
                                                                      if g.name == 'llvm::Function::Create')]
        if len(starts) != (1 if var else 0):
            bad('vastart', o, 'the argument list is started %d times' % len(starts))
        elif var:
            lst = [v for kk, v in o.state.heap.items() if kk[0] == 'f' and kk[2].endswith('llvmVaList')]
            if len(lst) != 1 or lst[0][0] != 'obj' or lst[0][1] != 'ir::Alloca':
                bad('valist', o, 'no list of arguments is made')
            elif n.t(lst[0]) not in n.t(starts[0].args[1]):
                bad('vastart', o, 'another list of arguments is started')
    chk.floor('function entries', 60)
    chk.floor('entry arguments', 100)
    fn, res = outs(prog, 'finishFunctionBody')
    bad = Rep(chk, fn)
    for o, n in res:
        chk.count('function ends')
        f = facts_of(o, n)
        term, void, per = f.get('context.isTerminated'), has(f, 'isa<VoidType>(functionType.getRetType)'), f.get('this.perFunctionModules')
        rets = [e for e in o.events if sname(e.name) in ('CreateRetVoid', 'CreateRet')]
        if term is None and void is not False:
            bad('known', o, 'whether the function has returned is not considered')
            continue
        if len(rets) != (1 if not term and void else 0):
            bad('return', o, 'a function without a result gets %d returns at its end' % len(rets))
        mods = [e for e in o.events if sname(e.name) == 'addLlvmModule']
        if per is None or len(mods) != (1 if per else 0) or mods and 'function.llvmModule' not in n.t(mods[0].args[0]):
            bad('module', o, 'the module of the function is handed on %d times' % len(mods))
    chk.floor('function ends', 4)


def returns(chk, prog):
    fn, res = outs(prog, 'generateReturn')
    bad = Rep(chk, fn)
    for o, n in res:
        chk.count('return cases')
        f = facts_of(o, n)
        val = f.get('retVal')
        var = f.get('context.getFunction.getFunctionType.isVariadic')
        st = f.get('retVal.getLlvmValue.getType.isStructTy')
        es = [e for e in o.events if e.name.startswith('llvm::IRBuilder')]
        rets = [e for e in es if sname(e.name) in ('CreateRetVoid', 'CreateRet')]
        if len(rets) != 1 or es[-1] != rets[0]:
            bad('once', o, 'the machine function must return once, at the end')
            continue
        if val is None or val and st is None:
            bad('known', o, 'the kind of the value returned is not considered')
            continue
        void = sname(rets[0].name) == 'CreateRetVoid'
        stores = [e for e in es if sname(e.name) == 'CreateStore']
        if val and not st:
            if void or n.t(rets[0].args[0]) != 'retVal.getLlvmValue' or stores:
                bad('value', o, 'the value is not returned')
        elif val:
            if not void or len(stores) != 1 or n.t(stores[0].args[0]) != 'retVal.getLlvmValue' or n.t(stores[0].args[1]) != 'context.getFunction.llvmSretPtr':
                bad('struct', o, 'a structure is not stored where the caller expects it')
        elif not void or stores:
            bad('void', o, 'something is returned from a function without a result')
        ends = [e for e in es if sname(e.name) == 'CreateCall']
        if var is None or len(ends) != (1 if var else 0):
            bad('vaend', o, 'the argument list is ended %d times' % len(ends))
        elif ends:
            t = n.t(ends[0].args[0])
            c = [g for g in o.events if g.name == 'llvm::Function::Create' and g.res == ends[0].args[0]]
            if not ('va_end' in t or c and 'va_end' in n.t(c[0].args[2])) or 'context.getFunction.llvmVaList' not in n.t(ends[0].args[1]):
                bad('vaend', o, 'another list of arguments is ended')
        term = [v for k, v in o.state.heap.items() if k[0] == 'f' and 'erminated' in k[2]]
        if not term or n.t(term[0]) != '1':
            bad('terminated', o, 'the block is not marked as ended')
    chk.floor('return cases', 8)


def codegen(chk, prog):
    """results that have constructors"""
    fn = prog.fn(TYG + '_generateFunctionType')
    bad = Report(chk, fn)
    w = Walk(prog, EgConfig(prog, events=('::insert', '::add', 'generateFunctionType', 'setCodeGenData')))
    for o in good(w.run(fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        chk.count('function signature cases')
        adds, ins, mk = ev(o, n, 'add'), ev(o, n, 'insert'), ev(o, n, 'generateFunctionType')
        if len(mk) != 1:
            bad('once', o, 'the function type is made %d times' % len(mk))
            continue
        adds = [e for e in adds if e.obj == mk[0].args[0] or n.t(e.obj) == n.t(mk[0].args[0])]
        vals = []
        for t, v in f.items():
            x = re.match(r'isa<ArgPack>\((astType\.getArgTypes\[(\d)\])\)$', t)
            if x and not v:
                vals.append((int(x.group(2)), x.group(1)))
        vals.sort()
        if len(adds) != len(vals):
            bad('count', o, '%d of %d arguments are in the type' % (len(adds), len(vals)))
            continue
        for (i, a), e in zip(vals, adds):
            if n.t(e.args[0]) not in ('getKey(astType.getArgTypes,%d)' % i, 'astType.getArgTypes.getKey(%d)' % i, 'getElementKey(astType.getArgTypes,%d)' % i):
                bad('key', o, 'an argument is listed under the name %s' % n.t(e.args[0]))
            ty = n.t(e.args[1])
            im = has(f, '(NONE==getInitializationMethod(', a)
            if im is None:
                bad('init', o, 'the construction method of an argument is not considered')
            elif (('getPointerTypeFor(' in ty) == im) or a not in ty:
                bad('type', o, 'argument %d is passed as %s' % (i, ty))
        r = f.get('astType.getRetType')
        im = has(f, '(NONE==getInitializationMethod(', 'astType.getRetType')
        rt = n.t(mk[0].args[1])
        if r and im is None:
            bad('ret', o, 'the construction method of the result is not considered')
        elif r and not im:
            ok = len(ins) == 1 and n.t(ins[0].args[0]) == '0' and 'getPointerTypeFor(' in n.t(ins[0].args[2]) and 'getRetType' in n.t(ins[0].args[2])
            if not ok or 'Void' not in rt:
                bad('ret', o, 'a result that has a constructor must be a reference in the first argument')
            elif ins and adds and o.events.index(ins[0]) < o.events.index(adds[-1]):
                bad('order', o, 'the reference to the result is not the first argument')
        else:
            if ins or ('Void' in rt) != (not r) or r and 'getRetType' not in rt:
                bad('ret', o, 'the result has the type %s' % rt)
        if n.t(mk[0].args[2]) != 'astType.isVariadic':
            bad('variadic', o, 'variadic functions are not told apart')
    chk.floor('function signature cases', 20)
    # calls
    for m, op, head in (('_generateFunctionCall', 'generateFunctionCall', ('ctx',)),
                        ('_generateFunctionPtrCall', 'generateFunctionPtrCall', ('ctx', 'tgFuncPtr', 'tgFuncPtrType'))):
        fn = prog.fn(EXG + m)
        bad = Report(chk, fn)
        for o in good(Walk(prog, EgConfig(prog, events=('::add',))).run(fn)):
            n = EgNorm(fn)
            f = fdict(o, n)
            tg = f.get('ctx')
            cs = [e for e in o.events if sname(e.name) == op]
            chk.count('call generation cases')
            if tg is None:
                tg = bool(cs)
            if len(cs) != (1 if tg else 0):
                bad('once', o, 'the call is generated %d times' % len(cs))
                continue
            im = has(f, '(NONE==getInitializationMethod(')
            if im is None:
                bad('init', o, 'the construction method of the result is not considered')
                continue
            if not cs:
                continue
            c = cs[0]
            lst = c.args[len(c.args) - 2]
            if m == '_generateFunctionPtrCall' and [n.t(a) for a in c.args[:3]] != list(head):
                bad('callee', o, 'another function is called')
            if m == '_generateFunctionCall' and 'getCodeGenData(' not in n.t(c.args[1]) and 'callee' not in n.t(c.args[1]):
                bad('callee', o, 'another function is called')
            if im:
                if n.t(lst) != 'paramTgValues':
                    bad('args', o, 'other arguments are passed')
                continue
            adds = [e for e in o.events if sname(e.name) in ('add', 'insert') and e.obj is not None and strip_as(e.obj) in (lst, ('addr', lst), lst[1] if lst[0] == 'addr' else lst)]
            want_n = rounds(f, 'paramTgValues.getElementCount')
            k = len(adds) - 1
            xs = [n.t(e.args[0]) for e in adds]
            if k < 0 or 'generateVarReference(' not in xs[0] or 'generateTempVar(' not in xs[0]:
                bad('ret', o, 'the storage of the result is not the first argument')
            elif k != want_n or any(x not in ('paramTgValues[%d]' % i, 'getElement(paramTgValues,%d)' % i) for i, x in enumerate(xs[1:])):
                bad('args', o, 'the arguments passed are %s' % xs[1:])
    chk.floor('call generation cases', 6)
    # the entry of a function
    fn = prog.fn(GN + '_generateFunction')
    bad = Report(chk, fn)
    for o in good(Walk(prog, EgConfig(prog, events=('::remove', 'setCodeGenData', 'generateVarInitialization', 'generateLocalVariable'))).run(fn)):
        n = EgNorm(fn)
        f = fdict(o, n)
        prep = ev(o, n, 'prepareFunctionBody')
        if not prep:
            continue
        chk.count('function body cases')
        lst = n.t(prep[0].args[2])
        im = has(f, '(NONE==getInitializationMethod(', 'traceRetType')
        rets = [e for e in o.events if sname(e.name) == 'setCodeGenData' and n.t(e.args[0]) == 'astFunc.getType.getRetType']
        rem = [e for e in o.events if sname(e.name) == 'remove' and e.obj is not None and n.t(e.obj) == lst]
        if im is None:
            bad('init', o, 'the construction method of the result is not considered')
        elif len(rets) != (0 if im else 1) or len(rem) != len(rets):
            bad('ret', o, 'the storage for the result is noted %d times' % len(rets))
        elif rets and (not re.search(r'\[0\]$|,0\)$', n.t(rets[0].args[1])) or n.t(rem[0].args[0]) != '0'):
            bad('ret', o, 'the storage for the result is not the first argument')
    chk.floor('function body cases', 10)
