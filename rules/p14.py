"""P14: a handler statement defines the function its form stands for."""
from handlers import *
import p12

TITLE = 'Each form of a type handler statement defines the function it stands for'
TECHNIQUE = 'path-sensitive dataflow summaries of the handler of the statement, one per form the statement can take'
NOTE = ('Every form of a handler statement (operator, property, parentheses, init, terminate, cast; plain, as_ptr, set_ptr; with and '
        'without a return type, template arguments, a body), and the object it makes. That the parser delivers the parts is P12.')
RULE = ('the statement makes a definition with the name, operation, arguments in order, return type and body its form stands for, or '
        'gives a notice and makes nothing')

W = 'Spp::Handlers::TypeHandlersParsingHandler'
ON = W + '::onProdEnd'
SL = 'findSourceLocation'
REF = 'ParamPass(operand:Identifier(value:"ref"),param:%s,type:SQUARE)'
THIS = REF % 'ThisTypeRef()'
BOOL = 'ParamPass(operand:Identifier(value:"Word"),param:IntegerLiteral(value:"1"),type:SQUARE)'
RETURN_THIS = 'ReturnStatement(operand:Identifier(value:"this"))'
BIN = {'AssignmentOperator': '+=', 'ComparisonOperator': '<=', 'AdditionOperator': '-'}
CALLS = {'processFunctionArgPacks': True, 'parseTemplateArgs': True, 'parseTemplateArgs#2': True, 'findIndex': -1}
NAMES = dict(p12.NAMES, null='0')
QUIET = p12.QUIET2 + ('remove',)


def ptr(t):
    return 'ParamPass(operand:Identifier(value:"ptr"),param:%s,type:SQUARE)' % t


def definition(name, op, target):
    return ('Definition(modifiers:List(ParamPass(operand:Identifier(value:"operation"),param:StringLiteral(value:%s),type:SQUARE)),'
            'name:%s,target:%s)' % (op, name, target))


def ftype(args, ret, member='1'):
    return 'FunctionType(argTypes:%s,member:%s,retType:%s)' % (argmap(args), member, ret)


def argmap(args):
    return 'Map(%s)' % ','.join('+%d:%s=%s' % (i, n, t) for i, (n, t) in enumerate(args))


class Form:
    """One form of the statement: the situation and what it must make."""

    def __init__(self, what):
        self.what = what
        self.kinds = {'D': 'List'}
        self.vals = {}
        self.calls = dict(CALLS)
        self.count = 2
        self.e = 'D[1]'
        self.ret = '0'
        self.body = '0'
        self.mode = 'FUNCTION'
        self.template = None
        self.extra = []
        self.member = '1'
        self.base = 0           # how many template brackets come before the expression

    def start(self, template=False, ret=None):
        if template:
            self.kinds['D[1]'] = 'Bracket'
            self.vals['(D[1].getType==SQUARE)'] = True
            self.vals['(SQUARE==D[1].getType)'] = True
            self.template = 'parseTemplateArgs(D[1])'
            self.base = 1
            self.e = 'D[2]'
        if ret:
            self.kinds[self.e] = 'LinkOperator'
            self.vals[self.e + '.getType'] = ret
            self.kinds[self.e + '.getSecond'] = 'Identifier'
            self.ret = self.e + '.getSecond'
            self.e += '.getFirst'
        return self

    def option(self, text):
        i = 2 + self.base
        self.kinds['D[%d]' % i] = 'Token'
        self.vals['D[%d].getText' % i] = text
        self.mode = {'as_ptr': 'PTR_DEF', 'set_ptr': 'PTR_SET'}[text]
        self.count += 1
        return self

    def block(self, kind='Block'):
        i = self.count + self.base
        b = 'D[%d]' % i
        self.kinds[b] = kind
        self.body = b if kind == 'Block' else 'Block(+0:%s)' % b
        self.count += 1
        return self

    def situation(self):
        self.vals['D.getCount'] = self.count + self.base
        return self.kinds, self.vals, self.calls

    def make(self, name, op, args, ret=None, member='1'):
        """What the statement must make, given the function."""
        ret = self.ret if ret is None else ret
        t = ftype(args, ret, member)
        f = 'Function(body:%s,type:%s)' % (self.body, t)
        if self.mode == 'FUNCTION':
            d = definition(name, op, f)
            if self.template:
                d = definition(name, op, 'Template(body:%s,varDefs:%s)' % (f, self.template))
            return ['setData ' + d] + self.extra
        items = []
        if self.mode == 'PTR_DEF':
            items.append(definition(name, op, ptr(t)))
        more = []
        if self.body != '0':
            items.append('AssignmentOperator(first:Identifier(value:%s),second:CastOp(operand:Function(body:%s,type:clone(%s)),targetType:%s),'
                         'type:"=")' % (name, self.body, t, ptr('clone(%s)' % t)))
            if member == '1':
                more.append('clone(%s).getArgTypes.set(0,%s)' % (t, THIS))
        return ['setData MergeList(%s)' % ','.join('+%d:%s' % x for x in enumerate(items))] + more + self.extra

    def target(self, at, kind):
        """The thing the operation is on, at a place; gives (type of this, property name or None)."""
        if kind == 'this':
            self.kinds[at] = 'Identifier'
            self.vals[at + '.getValue'] = 'this'
            return THIS, None
        if kind == '(this: X)':
            o = at + '.getOperand'
            self.kinds.update({at: 'Bracket', o: 'LinkOperator', o + '.getFirst': 'Identifier'})
            self.vals.update({o + '.getType': ':', o + '.getFirst.getValue': 'this'})
            return REF % (o + '.getSecond'), None
        if kind.endswith('.prop'):
            self.kinds[at] = 'LinkOperator'
            self.vals[at + '.getType'] = '.'
            t, _ = self.target(at + '.getFirst', kind[:-5])
            self.kinds[at + '.getSecond'] = 'Identifier'
            return t, at + '.getSecond.getValue'
        raise Broken(kind)

    def arg(self, at, kind, unnamed='"value"'):
        """An argument at a place: (name, type)."""
        if kind.startswith('('):
            self.kinds[at] = 'Bracket'
            self.vals['(%s.getType==ROUND)' % at] = self.vals['(ROUND==%s.getType)' % at] = True
            return self.arg(at + '.getOperand', kind[1:-1], unnamed)
        if kind == 'name: T':
            self.kinds.update({at: 'LinkOperator', at + '.getFirst': 'Identifier', at + '.getSecond': 'Identifier'})
            self.vals[at + '.getFirst.getValue'] = self.vals[at + '.getFirst.getValue.get'] = 'x'
            return at + '.getFirst.getValue', at + '.getSecond'
        self.kinds[at] = 'Identifier'
        return unnamed, at


def forms():
    r = []

    def add(f, want):
        r.append((f.what, f.situation(), want if isinstance(want, list) else [want]))

    def bad(f, cls, of, extra=()):
        add(f, [p12.notice(cls, of), p12.NOTHING] + list(extra))

    targets = ('this', '(this: X)', 'this.prop', '(this: X).prop')
    rets = (None, ':', '=>')
    for cls, op in BIN.items():
        for tk in targets:
            for ret in rets:
                for mode in (None, 'as_ptr', 'set_ptr'):
                    for body in (None, 'Block'):
                        for ak in (('name: T', '(name: T)', 'T') if mode is None else ('name: T',)):
                            f = Form('%s %s %s%s%s%s' % (tk, op, ak, ' %s R' % ret if ret else '', ' ' + mode if mode else '', ' {}' if body else ''))
                            f.start(False, ret)
                            e = f.e
                            f.kinds[e] = cls
                            f.vals[e + '.getType'] = op
                            t, prop = f.target(e + '.getFirst', tk)
                            arg = f.arg(e + '.getSecond', ak)
                            if mode:
                                f.option(mode)
                            if body:
                                f.block()
                            rt = f.ret
                            if not ret and cls == 'AssignmentOperator':
                                rt = 'clone(%s)' % (arg[1] if prop else t)
                                if body and not prop:
                                    f.extra.append('%s.add(%s)' % (f.body, RETURN_THIS))
                            if not ret and cls == 'ComparisonOperator':
                                rt = BOOL
                            opn = e + '.getType'
                            add(f, f.make(prop or opn, opn, [('"this"', t), arg], rt))
    for tk in ('this.prop', '(this: X).prop'):
        for mode in (None, 'as_ptr', 'set_ptr'):
            for body in (None, 'Block'):
                f = Form('%s => R%s%s' % (tk, ' ' + mode if mode else '', ' {}' if body else ''))
                f.start(False, '=>')
                t, prop = f.target(f.e, tk)
                if mode:
                    f.option(mode)
                if body:
                    f.block()
                add(f, f.make(prop, '""', [('"this"', t)]))
    f = Form('this.prop without a return type')
    f.target(f.e, 'this.prop')
    bad(f, 'PropGetterMissingRetTypeNotice', 'D[1]')
    # init
    for kinds in ((), ('one',), ('name: T', 'name: T'), ('T',), ('name: T', 'T')):
        for body in (None, 'Block', 'Identifier'):
            f = Form('this~init(%s)%s' % (', '.join(kinds), ' {}' if body == 'Block' else ' body' if body else ''))
            e = f.e
            f.kinds[e] = 'InitOp'
            f.target(e + '.getOperand', 'this')
            args = [('"this"', THIS)]
            if kinds == ('one',):
                args.append(f.arg(e + '.getParam', 'name: T'))
            elif kinds:
                f.kinds[e + '.getParam'] = 'List'
                f.vals[e + '.getParam.getCount'] = len(kinds)
                args += [f.arg('%s.getParam[%d]' % (e, i), k) for i, k in enumerate(kinds)]
            else:
                f.kinds[e + '.getParam'] = None
            if body:
                f.block(body)
            add(f, f.make('"~init"', '"~init"', args, '0'))
    for mode in ('as_ptr', 'set_ptr'):
        f = Form('this~init() ' + mode)
        f.kinds[f.e] = 'InitOp'
        f.option(mode)
        bad(f, 'PtrBasedInitOpNotice', 'D')
    f = Form('x~init()')
    f.kinds.update({f.e: 'InitOp', f.e + '.getOperand': 'Identifier'})
    f.vals[f.e + '.getOperand.getValue'] = 'x'
    bad(f, 'OpTargetNotThisNotice', 'D[1]')
    # terminate, cast
    for tk in targets[:2]:
        for mode in (None, 'as_ptr', 'set_ptr'):
            for body in (None, 'Block'):
                tail = '%s%s' % (' ' + mode if mode else '', ' {}' if body else '')
                f = Form('%s~terminate()%s' % (tk, tail))
                f.kinds[f.e] = 'TerminateOp'
                t, _ = f.target(f.e + '.getOperand', tk)
                if mode:
                    f.option(mode)
                if body:
                    f.block()
                add(f, f.make('"~terminate"', '"~terminate"', [('"this"', t)], '0'))
                f = Form('%s~cast[T]%s' % (tk, tail))
                f.kinds[f.e] = 'CastOp'
                f.kinds[f.e + '.getTargetType'] = 'Identifier'
                t, _ = f.target(f.e + '.getOperand', tk)
                if mode:
                    f.option(mode)
                if body:
                    f.block()
                add(f, f.make('"~cast"', '"~cast"', [('"this"', t)], f.e + '.getTargetType'))
    f = Form('this~cast[]')
    f.kinds[f.e] = 'CastOp'
    f.kinds[f.e + '.getTargetType'] = None
    f.target(f.e + '.getOperand', 'this')
    bad(f, 'CastOpMissingTypeNotice', 'D[1]')
    # parentheses
    for tk in ('this', '(this: X)', 'this.prop', 'this_type'):
        for kinds in ((), ('one',), ('name: T',), ('T',), ('name: T', 'name: T'), ('T', 'T'), ('T', 'T', 'name: T', 'T')):
            for mode in (None, 'as_ptr', 'set_ptr'):
                for body in (None, 'Block'):
                    f = Form('%s(%s) => R%s%s' % (tk, ', '.join(kinds), ' ' + mode if mode else '', ' {}' if body else ''))
                    f.start(False, '=>' if len(kinds) != 1 else None)
                    e = f.e
                    rnd(f, e, True)
                    if tk == 'this_type':
                        f.kinds[e + '.getOperand'] = 'ThisTypeRef'
                        args, prop = [], None
                    else:
                        t, prop = f.target(e + '.getOperand', tk)
                        args = [('"this"', t)]
                    if kinds == ('one',):
                        args.append(f.arg(e + '.getParam', 'T'))
                    elif kinds:
                        f.kinds[e + '.getParam'] = 'List'
                        f.vals[e + '.getParam.getCount'] = len(kinds)
                        args += [f.arg('%s.getParam[%d]' % (e, i), k, '"value"' if len(kinds) == 1 else '"__%d"' % i) for i, k in enumerate(kinds)]
                    else:
                        f.kinds[e + '.getParam'] = None
                    if mode:
                        f.option(mode)
                    if body:
                        f.block()
                    add(f, f.make(prop or '"()"', '"()"', args, member='0' if tk == 'this_type' else '1'))
    f = Form('this[...]')
    rnd(f, f.e, False)
    bad(f, 'InvalidHandlerStatementNotice', 'D')
    # templates
    for ret in rets:
        for body in (None, 'Block'):
            f = Form('[T] this + name: T%s%s' % (' %s R' % ret if ret else '', ' {}' if body else ''))
            f.start(True, ret)
            f.kinds[f.e] = 'AdditionOperator'
            f.vals[f.e + '.getType'] = '+'
            t, _ = f.target(f.e + '.getFirst', 'this')
            arg = f.arg(f.e + '.getSecond', 'name: T')
            if body:
                f.block()
            add(f, f.make(f.e + '.getType', f.e + '.getType', [('"this"', t), arg]))
    for mode in ('as_ptr', 'set_ptr'):
        f = Form('[T] this + name: T ' + mode)
        f.start(True)
        f.kinds[f.e] = 'AdditionOperator'
        f.option(mode)
        bad(f, 'InvalidTemplateHandlerStatementNotice', 'D')
    f = Form('invalid template arguments')
    f.start(True)
    f.calls['parseTemplateArgs'] = False
    add(f, p12.NOTHING)
    # what is rejected
    f = Form('nothing but the keyword')
    f.count = 1
    bad(f, 'InvalidHandlerStatementNotice', 'D')
    f = Form('template arguments alone')
    f.start(True)
    f.count = 1
    bad(f, 'InvalidHandlerStatementNotice', 'D')
    f = Form('another kind of expression')
    f.kinds[f.e] = 'Identifier'
    bad(f, 'InvalidHandlerStatementNotice', 'D')
    for cls, op in BIN.items():
        f = Form('x %s T' % op)
        f.kinds[f.e] = cls
        f.kinds[f.e + '.getFirst'] = 'Identifier'
        f.vals[f.e + '.getFirst.getValue'] = 'x'
        bad(f, 'OpTargetNotThisNotice', f.e + '.getFirst')
        f = Form('(x: X) %s T' % op)
        f.kinds[f.e] = cls
        f.target(f.e + '.getFirst', '(this: X)')
        f.vals[f.e + '.getFirst.getOperand.getFirst.getValue'] = 'x'
        bad(f, 'OpTargetNotThisNotice', f.e + '.getFirst')
        f = Form('5 %s T' % op)
        f.kinds[f.e] = cls
        f.kinds[f.e + '.getFirst'] = 'IntegerLiteral'
        bad(f, 'InvalidHandlerStatementNotice', f.e + '.getFirst')
        f = Form('this_type %s T' % op)
        f.kinds[f.e] = cls
        f.kinds[f.e + '.getFirst'] = 'ThisTypeRef'
        bad(f, 'InvalidHandlerStatementNotice', f.e + '.getFirst')
        f = Form('this.5 %s T' % op)
        f.kinds[f.e] = cls
        f.target(f.e + '.getFirst', 'this.prop')
        f.kinds[f.e + '.getFirst.getSecond'] = 'IntegerLiteral'
        bad(f, 'InvalidPropIdentifierNotice', f.e + '.getFirst')
        f = Form('this %s this: T' % op)
        f.kinds[f.e] = cls
        f.target(f.e + '.getFirst', 'this')
        f.arg(f.e + '.getSecond', 'name: T')
        f.vals[f.e + '.getSecond.getFirst.getValue'] = 'this'
        bad(f, 'InvalidHandlerStatementNotice', f.e + '.getSecond')
        f = Form('this %s [T]' % op)
        f.kinds[f.e] = cls
        f.target(f.e + '.getFirst', 'this')
        f.arg(f.e + '.getSecond', '(T)')
        f.vals['(%s.getSecond.getType==ROUND)' % f.e] = f.vals['(ROUND==%s.getSecond.getType)' % f.e] = False
        bad(f, 'InvalidUseOfSquareBracketNotice', f.e + '.getSecond')
    for what, cls in (('this~init(a: T, a: T)', 'InitOp'), ('this(a: T, a: T)', 'ParamPass')):
        f = Form(what)
        e = f.e
        if cls == 'InitOp':
            f.kinds[e] = cls
        else:
            rnd(f, e, True)
        f.target(e + '.getOperand', 'this')
        f.kinds[e + '.getParam'] = 'List'
        f.vals[e + '.getParam.getCount'] = 2
        for i in (0, 1):
            f.arg('%s.getParam[%d]' % (e, i), 'name: T')
        f.calls['findIndex'] = 0
        bad(f, 'InvalidFunctionArgNameNotice', '%s.getParam[0]' % e)
    f = Form('arguments that are not valid')
    f.kinds[f.e] = 'AdditionOperator'
    f.target(f.e + '.getFirst', 'this')
    f.arg(f.e + '.getSecond', 'name: T')
    f.calls['processFunctionArgPacks'] = False
    add(f, p12.NOTHING)
    return r


def rnd(f, e, v):
    f.kinds[e] = 'ParamPass'
    for a, b, x in (('ROUND', e + '.getType', v), ('SQUARE', e + '.getType', not v)):
        f.vals['(%s==%s)' % (a, b)] = f.vals['(%s==%s)' % (b, a)] = x


M = W + '::onIncomingModifier'
MOD = {'modifierData': 'ParamPass', 'modifierData.getOperand': 'Identifier', 'modifierData.getParam': 'StringLiteral'}
SQ = {'(SQUARE==modifierData.getType)': True, '(modifierData.getType==SQUARE)': True}
XN = dict(SQ, PKW='expname', prodProcessingComplete=1)
TR = 'translateModifier(refTopProdLevel(state).getProd,modifierData)'
EARLY = [
    ('a modifier before the statement is complete', {'T': 'Definition'}, {'prodProcessingComplete': 0}, [], '0'),
    ('@expname on a handler', dict(MOD, **{'T': 'Definition', 'T.getTarget': 'Function'}), XN,
     ['T.getTarget.setName(modifierData.getParam.getValue)'], '1'),
    ('@expname on a pointer handler', dict(MOD, **{'T': 'MergeList', 'T[0]': 'Definition', 'T[0].getTarget': 'ParamPass'}),
     dict(XN, **{'T.getCount': 1}), ['T[0].addModifier(modifierData)'], '1'),
    ('@expname on a group whose second definition is a function',
     dict(MOD, **{'T': 'MergeList', 'T[0]': 'AssignmentOperator', 'T[1]': 'Definition', 'T[1].getTarget': 'Function'}),
     dict(XN, **{'T.getCount': 2}), ['T[1].getTarget.setName(modifierData.getParam.getValue)'], '1'),
    ('another modifier', {'T': 'Definition', 'modifierData': 'Identifier'}, {'prodProcessingComplete': 1}, ['T.addModifier(modifierData)'], '1'),
    ('another modifier with a parameter', dict(MOD, **{'T': 'Definition', 'T.getTarget': 'Function'}), dict(XN, PKW='shared'),
     ['T.addModifier(modifierData)'], '1'),
    ('another modifier on a pointer handler', {'T': 'MergeList', 'T[0]': 'Definition', 'modifierData': 'Identifier'},
     {'prodProcessingComplete': 1, 'T.getCount': 1}, ['T[0].addModifier(modifierData)'], '1'),
    ('a modifier on a group without a definition', {'T': 'MergeList', 'T[0]': 'AssignmentOperator', 'modifierData': 'Identifier'},
     {'prodProcessingComplete': 1, 'T.getCount': 1}, [], '0'),
    ('a modifier on a rejected statement', {'T': None, 'modifierData': 'Identifier'}, {'prodProcessingComplete': 1}, [], '0'),
]


def run(chk, prog):
    kn = p12.known(prog)
    fn = pick(prog, ON)
    for what, (kinds, vals, calls), want in forms():
        pcase(chk, prog, fn, 'handler:' + what, 'handler ' + what, kinds, vals, want, names=NAMES, quiet=QUIET, known=kn, calls=calls, whole=W)
    fn = pick(prog, M)
    for what, kinds, vals, want, ret in EARLY:
        pcase(chk, prog, fn, 'modifier:' + what, what, kinds, vals, want, ret, names=NAMES, quiet=QUIET, known=kn, whole=W)
    chk.floor('situations', 400)
    chk.assume_('the parser hands the statement over as P12 decides: keyword, template arguments, expression, option, body')
