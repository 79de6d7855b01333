"""P12: every statement keyword builds its own construct with its parts in place."""
from handlers import *
import children
import gram
from gram import Obj, null
from p06 import Shape

TITLE = 'Every statement keyword, English or Arabic, builds its construct, parts in place'
TECHNIQUE = ('constant propagation over the code that builds the grammar (keywords, parts and their order, groups, handlers); '
             'path-sensitive dataflow summaries of the handlers, one per situation they meet')
NOTE = ('Every command of the grammar, every keyword of each, every part a command takes, and what the handler of the command builds '
        'for every combination of parts present. That the parser follows the grammar it is given is not decided.')
RULE = ('each command has its keywords, takes its parts in order, and is reachable where statements or tilde operators are; the handler '
        'of each command makes the object of its construct with each parsed part in its own place')

H = 'Spp::Handlers::'
C = 'Core::Processing::Handlers::'
F = H + 'FunctionParsingHandler::'
M = H + 'MacroParsingHandler::'
TOP = 'getData(state,un(-, getTopProdTermLevelCount(state)))'
NAMES = {'getData(state,-1)': 'D', TOP: 'T',
         'getTranslatedModifierKeyword(refTopProdLevel(state).getProd,modifierData.getValue.get)': 'KW',
         'getTranslatedModifierKeyword(refTopProdLevel(state).getProd,modifierData.getOperand.getValue.get)': 'PKW',
         'TiStrBase("=")': '"="'}
QUIET2 = ('onProdEnd', 'setSourceLocation')
OUTER = 'BlockStatements.OuterStmt'

# Command -> sections of (keywords: spelling -> what it stands for, parts: (production, least, most)).
def own(*a, **k):
    return dict({x: x for x in a}, **k)


COMMANDS = {
    'Do': [(own('do'), [('Subject', 1, 1)])],
    'Import': [(own('import', 'اشمل'), [('Expression', 1, 1)])],
    'Def': [(own('def', 'عرّف', 'عرف'), [('Expression', 1, 1)])],
    'Use': [(own('use', 'استخدم'), [('Expression', 1, 1)])],
    'DumpAst': [(own('dump_ast', 'أدرج_ش_ب_م'), [('Expression', 1, 1)])],
    'Alias': [(own('alias', 'لقب'), [('Expression', 1, 1)])],
    'If': [(own('if', 'إذا'), [('Expression', 1, 1), (OUTER, 1, 1)]), (own('else', 'وإلا'), [(OUTER, 1, 1)])],
    'While': [(own('while', 'بينما'), [('Expression', 1, 1), (OUTER, 1, 1)])],
    'For': [(own('for', 'لكل'), [('Expression', 1, 1), (OUTER, 1, 1)])],
    'Continue': [(own('continue', 'أكمل'), [('Subject.Parameter', 0, 1)])],
    'Break': [(own('break', 'اقطع'), [('Subject.Parameter', 0, 1)])],
    'Return': [(own('return', 'أرجع', 'ارجع'), [('Expression', 0, 1)])],
    'TypeOp': [(own('handler', 'عملية'), [('SquareArgsSubject', 0, 1), ('Expression', 1, 1), ('TypeOpOptions', 0, 1), (OUTER, 0, 1)])],
    'TypeOpOptions': [({'as_ptr': 'as_ptr', 'كمؤشر': 'as_ptr', 'set_ptr': 'set_ptr', 'حدد_مؤشر': 'set_ptr'}, [])],
    'Module': [(own('module', 'وحدة'), [('Subject.Identifier', 0, 1), ('ModuleBody', 1, 1)])],
    'Type': [(own('class', 'صنف'), [('ParamOnlySubject', 0, 1), ('SquareArgsSubject', 0, 1), ('BlockSet', 1, 1)])],
    'Function': [(own('func', 'function', 'دالّة', 'دالة'), [('Subject.Identifier', 0, 1), ('SquareArgsSubject', 0, 1),
                                                           ('FuncSigExpression', 0, 1), ('BlockSet', 0, 1)])],
    'Macro': [(own('macro', 'ماكرو'), [('Subject.Identifier', 0, 1), ('SquareArgsSubject', 0, 1), ('Expression', 1, 1)])],
    'Preprocess': [(own('preprocess', 'تمهيد'), [(OUTER, 1, 1)])],
    'AstLiteral': [(own('ast', 'شبم'), [(OUTER, 1, 1)])],
    'Keywords': [({'this': 'this', 'هذا': 'this', 'value': 'value', 'قيمة': 'value', 'module': 'module', 'وحدة': 'module',
                   'type': 'type', 'صنف': 'type', 'function': 'function', 'دالة': 'function', 'integer': 'integer', 'صحيح': 'integer',
                   'string': 'string', 'محارف': 'string', 'ast': 'ast', 'شبم': 'ast', 'ast_ref': 'ast_ref', 'سند_شبم': 'ast_ref',
                   'any': 'any', 'أيما': 'any'}, [])],
    'ThisTypeRef': [(own('this_type', 'هذا_الصنف'), [])],
    'PointerTilde': [(own('ptr', 'مؤشر'), [])],
    'ContentTilde': [(own('cnt', 'محتوى'), [])],
    'DerefTilde': [(own('deref', 'تتبع'), [])],
    'NoDerefTilde': [(own('no_deref', 'عطل_التتبع'), [])],
    'CastTilde': [(own('cast', 'مثّل', 'مثل'), [('CastSubject', 1, 1)])],
    'SizeTilde': [(own('size', 'حجم'), [])],
    'TypeTilde': [(own('type', 'صنف'), [])],
    'AstRefTilde': [(own('ast', 'شبم'), [])],
    'InitTilde': [(own('init', 'هيئ'), [('InitTildeSubject', 1, 1)])],
    'TerminateTilde': [(own('terminate', 'اتلف', 'أتلف'), [('TerminateTildeSubject', 1, 1)])],
    'NextArgTilde': [(own('next_arg', 'المعطى_التالي'), [('CastSubject', 1, 1)])],
    'UseInTilde': [(own('use_in', 'استخدم_في'), [('UseInSubject', 0, 1), ('UseInOptions', 0, 1), ('BlockSet', 1, 1)])],
    'UseInOptions': [({'no_injection': 'no_injection', 'بلا_حقن': 'no_injection'}, [])],
}
# Spellings that stand for themselves in the tree; for the others the text is not looked at.
MEANT = ('Keywords', 'TypeOpOptions', 'UseInOptions')

HANDLERS = {
    'Do': 'GenericCommandParsingHandler', 'Import': 'ImportParsingHandler', 'Def': 'DefParsingHandler',
    'DumpAst': 'DumpAstParsingHandler', 'If': 'IfParsingHandler', 'While': 'WhileParsingHandler', 'For': 'ForParsingHandler',
    'TypeOp': 'TypeHandlersParsingHandler', 'Module': 'ModuleParsingHandler', 'Type': 'TypeParsingHandler',
    'Function': 'FunctionParsingHandler', 'Macro': 'MacroParsingHandler', 'UseInTilde': 'UseInParsingHandler',
    'TypeOpOptions': 'GenericParsingHandler', 'UseInOptions': 'GenericParsingHandler',
}
TILDES = {'PointerTilde': 'PointerOp', 'ContentTilde': 'ContentOp', 'DerefTilde': 'DerefOp', 'NoDerefTilde': 'NoDerefOp',
          'CastTilde': 'CastOp', 'SizeTilde': 'SizeOp', 'TypeTilde': 'TypeOp', 'AstRefTilde': 'AstRefOp', 'InitTilde': 'InitOp',
          'TerminateTilde': 'TerminateOp', 'NextArgTilde': 'NextArgOp'}
GROUPS = {
    'LeadingCmdGrp': {'Do', 'Import', 'Def', 'Use', 'DumpAst', 'If', 'While', 'For', 'Continue', 'Break', 'Return', 'TypeOp'},
    'SubjectCmdGrp': {'Alias', 'Module', 'Type', 'Function', 'Macro', 'AstLiteral', 'Preprocess', 'Keywords', 'ThisTypeRef'},
    'PostfixTildeCmdGrp': set(TILDES) | {'UseInTilde', 'Expression.OpenPostfixTildeCmd'},
}
RESERVED = GROUPS['LeadingCmdGrp'] | GROUPS['SubjectCmdGrp']
LINKS = [('root.Main.Statements', 'cmdGrp', 'root.Main.LeadingCmdGrp'), ('root.Main.Subject', 'cmdGrp', 'root.Main.SubjectCmdGrp'),
         ('root.Main.Expression', 'postfixTildeCmdGrp', 'root.Main.PostfixTildeCmdGrp'),
         ('root.Main.ParamOnlySubject', 'cmdGrp', 'root.Main.Keywords')]
# Bracketed parts: which brackets the subject production is limited to.
SUBJECTS = {
    'CastSubject': dict(fltr=2, frc2=1, frc3=1), 'SquareArgsSubject': dict(fltr=2, frc2=1, frc3=1),
    'InitTildeSubject': dict(fltr=1, frc2=0, frc3=0), 'TerminateTildeSubject': dict(fltr=1, frc2=0, frc3=0),
    'UseInSubject': dict(fltr=1, frc2=1, frc3=1),
}
MODIFIERS = {
    'Def': {'دمج': 'merge', 'مشترك': 'shared', 'عملية': 'operation', 'حقنة': 'injection', 'دون_ربط': 'no_bind', 'أولوية': 'priority'},
    'Module': {'دمج': 'merge'}, 'Type': {'دمج': 'merge'},
    'Function': {'تصدير': 'expname', 'عضو': 'member', 'عملية': 'operation'},
    'Macro': {'عضو': 'member'}, 'AstLiteral': {'بلا_تمهيد': 'no_preprocess'},
}

N = {}


def notice(name, of, extra=''):
    return 'state.addNotice(%s(%sfindSourceLocation(%s)))' % (name, extra, of)


NOTHING = 'setData nothing'
RND = lambda i, v=True: {'(D[%d].getType==ROUND)' % i: v, '(ROUND==D[%d].getType)' % i: v,
                         '(D[%d].getType==SQUARE)' % i: not v, '(SQUARE==D[%d].getType)' % i: not v}
OK = {'parseArgs': True, 'parseTemplateArgs': True, 'parseTemplateArgs#2': True, 'processFunctionArgPacks': True}


def L(*parts):
    """A parsed list: keyword, then the parts."""
    k = {'D': 'List'}
    for i, p in enumerate(parts):
        if p:
            k['D[%d]' % (i + 1)] = p
    return k, {'D.getCount': len(parts) + 1}


def case(fn, what, parts, want, vals=None, calls=None, more=None, ret=None):
    if isinstance(parts, tuple):
        kinds, v = L(*parts)
    else:
        kinds, v = parts, {}
    return (fn, what, dict(kinds, **(more or {})), dict(v, **(vals or {})), calls or {}, want if isinstance(want, list) else [want], ret)


def fdef(name, target):
    return 'setData Definition(name:%s.getValue,target:%s)' % (name, target)


def func(body, args='0', ret='0'):
    return 'Function(body:%s,type:FunctionType(argTypes:%s,retType:%s))' % (body, args, ret)


IF = H + 'IfParsingHandler::onProdEnd'
WHILE = H + 'WhileParsingHandler::onProdEnd'
FOR = H + 'ForParsingHandler::onProdEnd'
USEIN = H + 'UseInParsingHandler::onProdEnd'
TYPE = H + 'TypeParsingHandler::onProdEnd'
MODULE = H + 'ModuleParsingHandler::onProdEnd'
DEF = C + 'DefParsingHandler::onProdEnd'
PAIR3 = {'D[1].getCount': 3}
BOTH = {'D[1][0]': 'Node', 'D[1][1]': 'Node', 'D[1][2]': 'Node'}
IDENT = {'D[1].getFirst': 'Identifier'}

CASES = [
    case(IF, 'if with a condition and a body', (None, None), 'setData IfStatement(condition:D[1],ifBody:D[2])'),
    case(IF, 'if with an else', (None, None, None, None), 'setData IfStatement(condition:D[1],elseBody:D[4],ifBody:D[2])'),
    case(WHILE, 'while', (None, None), 'setData WhileStatement(body:D[2],condition:D[1])'),
    case(FOR, 'for with three parts', ('List', None), 'setData ForStatement(body:D[2],condition:D[1][1],initializer:D[1][0],updater:D[1][2])',
         PAIR3, more=BOTH),
    case(FOR, 'for with two parts', ('List', None), [notice('InvalidForStatementNotice', 'D'), NOTHING], {'D[1].getCount': 2}, more=BOTH),
    case(FOR, 'for with an empty condition', ('List', None), [notice('InvalidForStatementNotice', 'D'), NOTHING], PAIR3,
         more=dict(BOTH, **{'D[1][1]': None})),
    case(FOR, 'for with an empty step', ('List', None), [notice('InvalidForStatementNotice', 'D'), NOTHING], PAIR3,
         more=dict(BOTH, **{'D[1][2]': None})),
    case(FOR, 'for with no list', ('Identifier', None), [notice('InvalidForStatementNotice', 'D'), NOTHING]),
    case(USEIN, 'use_in with a body', ('Block',), 'setData UseInOp(body:D[1],operandName:"this",skipInjection:0)'),
    case(USEIN, 'use_in with a name', ('Bracket', 'Block'), 'setData UseInOp(body:D[2],operandName:D[1].getOperand.getValue,skipInjection:0)',
         more={'D[1].getOperand': 'Identifier'}),
    case(USEIN, 'use_in no_injection', ('Identifier', 'Block'), 'setData UseInOp(body:D[2],operandName:"this",skipInjection:1)'),
    case(USEIN, 'use_in with a name and no_injection', ('Bracket', 'Identifier', 'Block'),
         'setData UseInOp(body:D[3],operandName:D[1].getOperand.getValue,skipInjection:1)', more={'D[1].getOperand': 'Identifier'}),

    case(TYPE, 'class with a body', ('Block',), 'setData UserType(body:D[1])'),
    case(TYPE, 'class with a name', ('Identifier', 'Block'), fdef('D[1]', 'UserType(body:D[2])')),
    case(TYPE, 'class with template arguments', ('Bracket', 'Block'), 'setData Template(body:UserType(body:D[2]),varDefs:parseTemplateArgs(D[1]))',
         RND(1, False), OK),
    case(TYPE, 'class with a name and template arguments', ('Identifier', 'Bracket', 'Block'),
         fdef('D[1]', 'Template(body:UserType(body:D[3]),varDefs:parseTemplateArgs(D[2]))'), RND(2, False), OK),
    case(TYPE, 'class with invalid template arguments', ('Identifier', 'Bracket', 'Block'), NOTHING, RND(2, False), {'parseTemplateArgs': False}),
    case(TYPE, 'class with round brackets', ('Identifier', 'Bracket', 'Block'), [notice('InvalidTypeElementNotice', 'D[2]'), NOTHING], RND(2)),
    case(TYPE, 'class with another part', ('AdditionOperator', 'Block'), [notice('InvalidTypeElementNotice', 'D[1]'), NOTHING]),
    case(MODULE, 'module with a body', ('Module',), 'setData D[1]'),
    case(MODULE, 'module with a name', ('Identifier', 'Module'), fdef('D[1]', 'D[2]')),

    case(DEF, 'def', ('LinkOperator',), 'setData Definition(name:D[1].getFirst.getValue,target:D[1].getSecond)',
         more=dict(IDENT, **{'D[1].getSecond': 'Identifier'})),
    case(DEF, 'def with an initial value', ('LinkOperator',),
         'setData MergeList(Definition(name:D[1].getFirst.getValue,target:D[1].getSecond.getFirst),'
         'AssignmentOperator(first:D[1].getFirst,second:D[1].getSecond.getSecond,type:"="))',
         more=dict(IDENT, **{'D[1].getSecond': 'AssignmentOperator'})),
    case(DEF, 'def without a name', ('LinkOperator',), [notice('MissingDefNameNotice', 'D'), NOTHING], more={'D[1].getFirst': 'Bracket'}),
    case(DEF, 'def of nothing', ('LinkOperator',), [notice('InvalidDefCommandNotice', 'D'), NOTHING], more=dict(IDENT, **{'D[1].getSecond': None})),
    case(DEF, 'def without a link', ('Identifier',), [notice('MissingDefLinkNotice', 'D'), NOTHING]),

    case(F + 'onProdEnd', 'func alone', {'D': 'Text'}, 'setData FunctionType(argTypes:null,retType:null)', {}, OK),
    case(F + 'onProdEnd', 'func with a body', ('Block',), 'setData ' + func('D[1]'), {}, OK),
    case(F + 'onProdEnd', 'func with arguments and a body', ('Bracket', 'Block'), 'setData ' + func('D[2]', 'parseArgs(D[1])'), RND(1), OK),
    case(F + 'onProdEnd', 'func with a name, arguments and a body', ('Identifier', 'Bracket', 'Block'),
         fdef('D[1]', func('D[3]', 'parseArgs(D[2])')), RND(2), OK),
    case(F + 'onProdEnd', 'func with a name, template arguments, arguments, a return type and a body', ('Identifier', 'Bracket', 'LinkOperator', 'Block'),
         fdef('D[1]', 'Template(body:%s,varDefs:parseTemplateArgs(D[2]))' % func('D[4]', 'parseArgs(D[3].getFirst)', 'D[3].getSecond')),
         RND(2, False), OK, {'D[3].getFirst': 'Bracket'}),
    case(F + 'onProdEnd', 'func with a name, arguments and a return type', ('Identifier', 'LinkOperator'),
         fdef('D[1]', 'FunctionType(argTypes:parseArgs(D[2].getFirst),retType:D[2].getSecond)'), {}, OK, {'D[2].getFirst': 'Bracket'}),
    case(F + 'onProdEnd', 'func with a return type but no argument brackets', ('Identifier', 'LinkOperator'),
         [notice('InvalidFunctionSignatureNotice', 'D[2]'), NOTHING], {}, OK, {'D[2].getFirst': 'Identifier'}),
    case(F + 'onProdEnd', 'func with another part', ('Identifier', 'AdditionOperator'), [notice('InvalidFunctionElementNotice', 'D[2]'), NOTHING]),
    case(F + 'onProdEnd', 'func with template arguments and no body', ('Bracket',), [notice('TemplateFunctionLacksBodyNotice', 'D'), NOTHING],
         RND(1, False), OK),
    case(F + 'onProdEnd', 'func with invalid arguments', ('Bracket', 'Block'), NOTHING, RND(1), {'parseArgs': False}),
    case(F + 'onProdEnd', 'func with invalid template arguments', ('Bracket', 'Block'), NOTHING, RND(1, False), {'parseTemplateArgs': False}),
    case(F + 'onProdEnd', 'func with invalid packs', ('Block',), NOTHING, {}, {'processFunctionArgPacks': False}),
    case(F + 'parseArgs', 'empty argument brackets', {'bracket.getOperand': None}, [], ret='1'),
    case(F + 'parseArgs', 'one invalid argument', {'bracket.getOperand': 'LinkOperator'}, [], {}, {'parseArg': False}, ret='0'),
    case(F + 'parseArgs', 'one argument', {'bracket.getOperand': 'LinkOperator'}, [], {}, {'parseArg': True}, ret='1'),
    case(F + 'parseArgs', 'two arguments, one missing', {'bracket.getOperand': 'List', 'bracket.getOperand[0]': 'Node', 'bracket.getOperand[1]': None},
         notice('InvalidFunctionArgNotice', 'bracket'), {'bracket.getOperand.getCount': 2}, {'parseArg': True}, ret='0'),
    case(F + 'parseArgs', 'two arguments', {'bracket.getOperand': 'List', 'bracket.getOperand[0]': 'Node', 'bracket.getOperand[1]': 'Node'},
         [], {'bracket.getOperand.getCount': 2}, {'parseArg': True}, ret='1'),
    case(F + 'parseArg', 'a named argument', {'astNode': 'LinkOperator', 'astNode.getFirst': 'Identifier', 'astNode.getSecond': 'Node'},
         'result.set(Str(astNode.getFirst.getValue.get),astNode.getSecond,1)', {'astNode.getType': ':'}, {'findIndex': -1}, ret='1'),
    case(F + 'parseArg', 'a second argument of the same name', {'astNode': 'LinkOperator', 'astNode.getFirst': 'Identifier', 'astNode.getSecond': 'Node'},
         notice('InvalidFunctionArgNameNotice', 'astNode'), {'astNode.getType': ':'}, {'findIndex': 0}, ret='0'),
    case(F + 'parseArg', 'an argument whose name is no identifier', {'astNode': 'LinkOperator', 'astNode.getFirst': 'Bracket'},
         notice('InvalidFunctionArgNameNotice', 'astNode'), {'astNode.getType': ':'}, ret='0'),
    case(F + 'parseArg', 'an argument with no type', {'astNode': 'LinkOperator', 'astNode.getFirst': 'Identifier', 'astNode.getSecond': None},
         notice('InvalidFunctionArgTypeNotice', 'astNode'), {'astNode.getType': ':'}, ret='0'),
    case(F + 'parseArg', 'an unnamed argument', {'astNode': 'Identifier'}, 'result.set(("__"+result.getCount),astNode,1)', {}, {'findIndex': -1}, ret='1'),

    case(M + 'onProdEnd', 'macro with a body', (None,), 'setData Macro(argTypes:Map(),body:D[1])'),
    case(M + 'onProdEnd', 'macro with a name', ('Identifier', None), fdef('D[1]', 'Macro(argTypes:Map(),body:D[2])')),
    case(M + 'onProdEnd', 'macro with arguments', ('Bracket', None), 'setData Macro(argTypes:parseArgs(D[1]),body:D[2])', {}, OK),
    case(M + 'onProdEnd', 'macro with a name and arguments', ('Identifier', 'Bracket', None), fdef('D[1]', 'Macro(argTypes:parseArgs(D[2]),body:D[3])'),
         {}, OK),
    case(M + 'onProdEnd', 'macro with invalid arguments', ('Identifier', 'Bracket', None), NOTHING, {}, {'parseArgs': False}),
    case(M + 'parseArgs', 'empty argument brackets', {'bracket.getOperand': None}, [], ret='1'),
    case(M + 'parseArgs', 'two arguments', {'bracket.getOperand': 'List', 'bracket.getOperand[0]': 'Node', 'bracket.getOperand[1]': 'Node'},
         [], {'bracket.getOperand.getCount': 2}, {'parseArg': True}, ret='1'),
    case(M + 'parseArgs', 'two arguments, one missing', {'bracket.getOperand': 'List', 'bracket.getOperand[0]': 'Node', 'bracket.getOperand[1]': None},
         notice('InvalidMacroArgDefNotice', 'bracket'), {'bracket.getOperand.getCount': 2}, {'parseArg': True}, ret='0'),
    case(M + 'parseArg', 'an argument with a type', {'arg': 'LinkOperator', 'arg.getFirst': 'Identifier', 'arg.getSecond': 'Identifier'},
         'result.add(arg.getFirst.getValue.get,arg.getSecond)', {'arg.getType': ':'}, {'findIndex': -1}, ret='1'),
    case(M + 'parseArg', 'a second argument of the same name', {'arg': 'LinkOperator', 'arg.getFirst': 'Identifier', 'arg.getSecond': 'Identifier'},
         notice('InvalidMacroArgDefNotice', 'arg'), {'arg.getType': ':'}, {'findIndex': 0}, ret='0'),
    case(M + 'parseArg', 'an argument with an invalid type', {'arg': 'LinkOperator', 'arg.getFirst': 'Identifier', 'arg.getSecond': 'Bracket'},
         notice('InvalidMacroArgDefNotice', 'arg'), {'arg.getType': ':'}, {'findIndex': -1}, ret='0'),
    case(M + 'parseArg', 'an argument with no type', {'arg': 'Identifier'}, 'result.add(arg.getValue.get,null)', {}, {'findIndex': -1}, ret='1'),
    case(M + 'parseArg', 'a second argument of the same name, no type', {'arg': 'Identifier'}, notice('InvalidMacroArgDefNotice', 'arg'), {},
         {'findIndex': 0}, ret='0'),
    case(M + 'parseArg', 'an argument of another form', {'arg': 'Bracket'}, notice('InvalidMacroArgDefNotice', 'arg'), ret='0'),

    case(C + 'ImportParsingHandler::onProdEnd', 'import that succeeds', (None,), NOTHING, {}, {'tryImport': 0}),
    case(C + 'ImportParsingHandler::onProdEnd', 'import of an invalid expression', (None,), NOTHING, {}, {'tryImport': 2}),
]
IMPORT = C + 'ImportParsingHandler::tryImport'
CASES += [
    case(IMPORT, 'import of a file that loads', {'astNode': 'StringLiteral'}, [], {}, {'tryImportFile': True}, ret='0'),
    case(IMPORT, 'import of a file that does not load', {'astNode': 'StringLiteral'}, [], {}, {'tryImportFile': False}, ret='1'),
    case(IMPORT, 'import of something else', {'astNode': 'Identifier'}, notice('InvalidImportNotice', 'astNode'), ret='2'),
    case(IMPORT, 'import of alternatives with another operator', {'astNode': 'LogOperator'}, notice('InvalidImportNotice', 'astNode'),
         {'astNode.getType': '&&'}, ret='2'),
]
for op in ('||', 'or'):
    CASES += [
        case(IMPORT, 'import whose first alternative loads (%s)' % op, {'astNode': 'LogOperator'}, [], {'astNode.getType': op}, {'tryImport': 0},
             ret='tryImport(self,astNode.getFirst,filenames,errorDetails,state)'),
        case(IMPORT, 'import whose first alternative is invalid (%s)' % op, {'astNode': 'LogOperator'}, [], {'astNode.getType': op}, {'tryImport': 2},
             ret='tryImport(self,astNode.getFirst,filenames,errorDetails,state)'),
        case(IMPORT, 'import whose first alternative does not load (%s)' % op, {'astNode': 'LogOperator'}, [], {'astNode.getType': op}, {'tryImport': 1},
             ret='tryImport(self,astNode.getSecond,out1(tryImport(self,astNode.getFirst,filenames,errorDetails,state)),'
                 'out2(tryImport(self,astNode.getFirst,filenames,errorDetails,state)),state)'),
    ]

DONE = {'prodProcessingComplete': True}
ID = {'modifierData': 'Identifier'}
for q in (C + 'DefParsingHandler', H + 'TypeParsingHandler', H + 'ModuleParsingHandler'):
    f = q + '::onIncomingModifier'
    CASES += [
        case(f, '@merge', dict(ID, T='Definition'), 'T.setToMerge(1)', dict(DONE, KW='merge'), ret='1'),
        case(f, 'another modifier', dict(ID, T='Definition'), 'T.addModifier(modifierData)', dict(DONE, KW='other'), ret='1'),
        case(f, 'a modifier with arguments', {'modifierData': 'ParamPass', 'T': 'Definition'}, 'T.addModifier(modifierData)', DONE, ret='1'),
        case(f, 'a modifier before the parts are known', dict(ID, T='Definition'), [], {'prodProcessingComplete': False}, ret='0'),
    ]
EXP = {'PKW': 'expname', 'modifierData.getType': None}
PP = {'modifierData': 'ParamPass', 'modifierData.getOperand': 'Identifier', 'modifierData.getParam': 'StringLiteral'}
SQ = {'PKW': 'expname', '(SQUARE==modifierData.getType)': True, '(ROUND==modifierData.getType)': False}
X = F + 'processExpnameModifier'
MM = F + 'processMemberModifier'
MEMBER = {'KW': 'member'}
CASES += [
    case(X, '@expname on a named function', dict(PP, T='Definition', **{'T.getTarget': 'Function'}), 'T.getTarget.setName(modifierData.getParam.getValue)', SQ, ret='1'),
    case(X, '@expname on a named function without a body', dict(PP, T='Definition', **{'T.getTarget': 'FunctionType'}),
         'T.setTarget(Function(name:modifierData.getParam.getValue,type:T.getTarget))', SQ, ret='1'),
    case(X, '@expname on a function', dict(PP, T='Function'), 'T.setName(modifierData.getParam.getValue)', SQ, ret='1'),
    case(X, '@expname on a function without a body', dict(PP, T='FunctionType'),
         'state.setData(Function(name:modifierData.getParam.getValue,type:T),un(-, getTopProdTermLevelCount(state)))', SQ, ret='1'),
    case(X, '@expname on a template', dict(PP, T='Definition', **{'T.getTarget': 'Template'}), [], SQ, ret='0'),
    case(X, '@expname with round brackets', dict(PP, T='Function'), [], dict(SQ, **{'(SQUARE==modifierData.getType)': False}), ret='0'),
    case(X, 'another modifier with an argument', dict(PP, T='Function'), [], dict(SQ, PKW='other'), ret='0'),
    case(MM, '@member on a named template', dict(ID, T='Definition', **{'T.getTarget': 'Template', 'T.getTarget.getBody': 'Function'}),
         'T.getTarget.getBody.getType.setMember(1)', MEMBER, ret='1'),
    case(MM, '@member on a named function', dict(ID, T='Definition', **{'T.getTarget': 'Function'}), 'T.getTarget.getType.setMember(1)', MEMBER, ret='1'),
    case(MM, '@member on a named function without a body', dict(ID, T='Definition', **{'T.getTarget': 'FunctionType'}), 'T.getTarget.setMember(1)', MEMBER, ret='1'),
    case(MM, '@member on a function', dict(ID, T='Function'), 'T.getType.setMember(1)', MEMBER, ret='1'),
    case(MM, 'another modifier', dict(ID, T='Function'), [], {'KW': 'other'}, ret='0'),
    case(F + 'processUnknownModifier', 'another modifier on a named function', {'T': 'Definition'}, 'T.addModifier(modifierData)', ret='1'),
    case(F + 'processUnknownModifier', 'another modifier on a function', {'T': 'Function'}, [], ret='0'),
    case(M + 'onIncomingModifier', '@member on a named macro', dict(ID, T='Definition', **{'T.getTarget': 'Macro'}), 'T.getTarget.setMember(1)',
         dict(DONE, KW='member'), ret='1'),
    case(M + 'onIncomingModifier', '@member on a macro', dict(ID, T='Macro'), 'T.setMember(1)', dict(DONE, KW='member'), ret='1'),
    case(M + 'onIncomingModifier', 'another modifier on a named macro', dict(ID, T='Definition'), 'T.addModifier(modifierData)', dict(DONE, KW='other'), ret='1'),
    case(C + 'ModifierParsingHandler::onProdEnd', 'a leading modifier', {}, ['state.pushLeadingModifierLevel(D)', NOTHING], {'self.leading': True}),
    case(C + 'ModifierParsingHandler::onProdEnd', 'a trailing modifier', {}, ['state.pushTrailingModifierLevel(D)', NOTHING], {'self.leading': False}),
]
LIT = ('getData(state,levelIndex)', 'getData(state,levelIndex).getElementCount')
# The commands whose handler is written in place: what it makes for each list of parts.
INPLACE = {
    'Use': [((None,), 'setData Bridge(target:D[1])')],
    'Alias': [((None,), 'setData Alias(reference:D[1])')],
    'Return': [((None,), 'setData ReturnStatement(operand:D[1])'), ({'D': 'Text'}, 'setData ReturnStatement()')],
    'Continue': [(('IntegerLiteral',), 'setData ContinueStatement(steps:D[1])'),
                 (('Identifier',), [notice('InvalidContinueStatementNotice', 'D'), NOTHING]), ({'D': 'Text'}, 'setData ContinueStatement()')],
    'Break': [(('IntegerLiteral',), 'setData BreakStatement(steps:D[1])'),
              (('Identifier',), [notice('InvalidBreakStatementNotice', 'D'), NOTHING]), ({'D': 'Text'}, 'setData BreakStatement()')],
    'Preprocess': [((None,), 'setData PreprocessStatement(body:D[1])')],
    'AstLiteral': [((None,), 'setData AstLiteralCommand(body:D[1])')],
    'Keywords': [({'D': 'Text'}, 'setData Identifier(value:D.getText)')],
    'ThisTypeRef': [({'D': 'Text'}, 'setData ThisTypeRef()')],
}


def known(prog):
    def k(obj, s):
        cls = obj[1]
        if obj[0] == 'call':
            cls = cls.rsplit('::', 1)[0]
        return children.fieldnames(prog, cls, 'Element' if s == 'setElement' else 'Member')
    return k


def run(chk, prog):
    b = gram.build(prog, 'Core::Data::Grammar::StandardFactory', 'createGrammar', {'exprOnly': False})
    b = gram.build(prog, 'Spp::Grammar::SppFactory', 'createGrammar', onto=b)
    g = gram.Grammar(b)
    commands(chk, b, g)
    groups(chk, b, g)
    subjects(chk, b, g)
    modifiers(chk, b, g)
    inplace(chk, prog, b)
    kn = known(prog)
    for fq, what, kinds, vals, calls, want, ret in CASES:
        fn = pick(prog, fq)
        pcase(chk, prog, fn, '%s:%s' % ('::'.join(fq.split('::')[-2:]), what), what, kinds, vals, want, ret, names=NAMES, quiet=QUIET2,
              known=kn, calls=calls)
    chk.floor('commands', 35)
    chk.floor('keyword spellings', 90)
    chk.floor('situations', 90)
    chk.assume_('the parser matches the text against the definitions it is given, and gathers the parts of a command in order')


def loc(b, path):
    d = b.shapes.get(path) or b.defs.get(path)
    return d.loc if isinstance(d, Obj) and d.loc else 'Sources/Spp/Grammar/SppFactory.cpp'


def sections(t):
    """The shape of a command: list of (keywords, [(part, least, most)], least, most)."""
    def one(x):
        if x[0] == 'tok':
            return x, []
        if x[0] == 'seq' and x[2] and x[2][0][0] == 'tok':
            parts = []
            for y in x[2][1:]:
                for z in (y[2] if y[0] == 'seq' else [y]):
                    if z[0] != 'rep' or z[4][0] != 'ref':
                        return None
                    parts.append((z[4][1], z[2], z[3], z[1]))
            return x[2][0], parts
        return None
    if t[0] == 'seq' and t[2] and t[2][0][0] == 'rep':
        r = []
        for x in t[2]:
            o = one(x[4]) if x[0] == 'rep' else None
            if o is None:
                return None
            r.append(o + (x[2], x[3]))
        return r
    o = one(t)
    return [o + (1, 1)] if o else None


def commands(chk, b, g):
    sh = Shape(g)
    words = {str(k) for k in b.keywords}
    for name, want in COMMANDS.items():
        path = 'root.Main.' + name
        d = b.shapes.get(path)
        where = loc(b, path)
        chk.count('commands')
        if d is None:
            chk.violation('command:' + name, where, 'there is no command ' + name)
            continue
        got = sections(sh.term(d.f.get('term'), {}))
        if got is None:
            chk.undecide('the form of command ' + name)
            raise Broken('the form of command %s is not the usual one' % name)
        if len(got) != len(want):
            chk.violation('sections:' + name, where, 'command %s has %d sections instead of %d' % (name, len(got), len(want)))
            continue
        if name in RESERVED:
            for kw, _ in want:
                for k in kw:
                    chk.count('reserved words')
                    if k not in words:
                        chk.violation('reserved:%s:%s' % (name, k), where, 'keyword %s of command %s is not reserved: it is taken for a name' % (k, name))
        for i, ((kw, parts), (tok, gparts, mn, mx)) in enumerate(zip(want, got)):
            sp = tok[2] or {}
            for k, v in kw.items():
                chk.count('keyword spellings')
                if k not in sp:
                    chk.violation('keyword:%s:%s' % (name, k), where, 'command %s is not started by %s' % (name, k))
                elif name in MEANT and sp[k] != v:
                    chk.violation('keyword:%s:%s' % (name, k), where, '%s stands for %s; it must stand for %s' % (k, sp[k], v))
            for k in sp:
                for other, ss in COMMANDS.items():
                    if other != name and k not in kw and any(k in s[0] for s in ss):
                        chk.violation('keyword:%s:%s' % (name, k), where, 'keyword %s of command %s starts command %s' % (k, other, name))
            pick_ = lambda r: (g.target(r, 'root.Main') or r)
            ps = [(pick_(r), int(a), None if m is None else int(m), f) for r, a, m, f in gparts]
            ws = [(g.target('module.' + r, 'root.Main') or 'root.Main.' + r, a, m, 64) for r, a, m in parts]
            chk.count('parts of commands', len(ws))
            if ps != ws:
                chk.violation('parts:%s:%d' % (name, i), where, 'command %s takes %s; it must take %s' % (name, parts_(ps), parts_(ws)))
            need = (1, 1) if i == 0 else (0, 1)
            if (int(mn), int(mx)) != need:
                chk.violation('section:%s:%d' % (name, i), where, 'section %d of command %s appears %s to %s times' % (i + 1, name, mn, mx))
        h = d.f.get('handler')
        h = h.c if isinstance(h, Obj) else repr(h)
        want_h = HANDLERS.get(name) or ('TildeOpParsingHandler<%s>' % TILDES[name] if name in TILDES else 'CustomParsingHandler')
        if h.replace('Spp::Ast::', '').replace('Ast::', '') != want_h:
            chk.violation('handler:' + name, where, 'command %s is handled by %s; it must be handled by %s' % (name, h, want_h))


def parts_(ps):
    return ', '.join('%s (%s to %s)' % (r.replace('root.Main.', ''), a, m) for r, a, m, f in ps) or 'nothing'


def refs(v):
    r = []
    for x in v:
        r.append(x.args[0] if isinstance(x, Obj) and x.c == 'Ref' else repr(x))
    return r


def groups(chk, b, g):
    for name, want in GROUPS.items():
        got = b.groups.get('root.Main.' + name)
        if got is None:
            chk.violation('group:' + name, loc(b, 'root.Main.' + name), 'there is no group ' + name)
            continue
        have = {(g.target(r, 'root.Main') or r).replace('root.Main.', '') for r in refs(got)}
        for w in sorted(want):
            chk.count('commands in groups')
            t = (g.target('module.' + w, 'root.Main') or w).replace('root.Main.', '')
            if t not in have:
                chk.violation('group:%s:%s' % (name, w), loc(b, 'root.Main.' + name), 'group %s lacks %s' % (name, w))
    for mod, var, want in LINKS:
        t = g.target('module.' + var, mod)
        v = g.value(t) if t else None
        if v is None and isinstance(b.defs.get(mod), Obj):
            v = b.defs[mod].f.get(var)
        if isinstance(v, Obj) and v.c == 'Ref':
            t = g.target(v.args[0], mod)
        if t != want:
            chk.violation('link:%s.%s' % (mod, var), loc(b, mod), '%s of %s is %s; it must be %s' % (var, mod, t, want))


def subjects(chk, b, g):
    for name, want in SUBJECTS.items():
        path = 'root.Main.%s.Sbj' % name
        vars = g.vars(path)
        for k, w in want.items():
            v = vars.get(k)
            v = 0 if null(v) else v
            chk.count('limits of bracketed parts')
            if not isinstance(v, int) or int(v) != w:
                chk.violation('subject:%s:%s' % (name, k), loc(b, path), '%s of %s is %s; it must be %s' % (k, name, v, w))


def modifiers(chk, b, g):
    for name, want in MODIFIERS.items():
        path = 'root.Main.%s.modifierTranslations' % name
        got = {}
        m = b.defs.get(path)
        if isinstance(m, Obj):
            got.update({k: v for k, v in m.items})
        for p, v in b.defs.items():
            if p.startswith(path + '.'):
                got[p[len(path) + 1:]] = v
        for k, w in want.items():
            chk.count('modifier translations')
            if got.get(k) != w:
                chk.violation('modifier:%s:%s' % (name, k), loc(b, path), 'modifier %s of %s stands for %s; it must stand for %s' % (k, name, got.get(k), w))


def inplace(chk, prog, b):
    kn = known(prog)
    for name, cases in INPLACE.items():
        d = b.shapes.get('root.Main.' + name)
        h = d.f.get('handler') if d is not None else None
        if not isinstance(h, Obj) or not h.args:
            continue
        u = re.search(r"lambda\['([^']+)'\]", repr(h.args[0]))
        fn = prog.fns.get(u.group(1)) if u else None
        if fn is None:
            raise Broken('the handler of command %s is not written in place' % name)
        for parts, want in cases:
            kinds, vals = L(*parts) if isinstance(parts, tuple) else (parts, {})
            pcase(chk, prog, fn, 'command:%s:%s' % (name, ' '.join('%s=%s' % x for x in sorted(kinds.items()))), 'command ' + name, kinds, vals,
                  want if isinstance(want, list) else [want], names=NAMES, quiet=QUIET2, known=kn)
    tilde(chk, prog)


def tilde(chk, prog):
    fs = [f for f in prog.byq.get(H + 'TildeOpParsingHandler::addData', ()) if f.o.get('inst')]
    if not fs:
        raise Broken('no instance of TildeOpParsingHandler::addData')
    for fn in fs[:1]:
        base = {'isAProdRoot': True, 'isListTerm': True}
        own_ = {'getData(state,levelIndex)': 'PointerOp', 'data.getOperand': 'Node'}
        two, one = {LIT[1]: 2, LIT[0] + '.getCount': 2}, {LIT[1]: 1, LIT[0] + '.getCount': 1}
        for what, kinds, vals, calls, want in (
            ('the bracketed operand of a tilde operator', dict(own_, data='Bracket'), two, base, [LIT[0] + '.setElement(1,data.getOperand)']),
            ('the operand of a tilde operator', dict(own_, data='List'), two, base, [LIT[0] + '.setElement(1,data)']),
            ('an operand of a tilde operator that takes none', dict(own_, data='Bracket'), one, base, [notice('SyntaxErrorNotice', 'data.getOperand')]),
            ('other parts of a tilde operator', dict(own_, data='Bracket'), two, {'isAProdRoot': False}, ['GenericParsingHandler.addData(data,parser,state,levelIndex)']),
        ):
            pcase(chk, prog, fn, 'tilde:' + what, what, kinds, vals, want, names=NAMES, calls=calls)
    fs = [f for f in prog.byq.get(H + 'TildeOpParsingHandler::onProdStart', ()) if f.o.get('inst')]
    for fn in fs[:1]:
        n, outs = situation(prog, fn, {}, {}, names=NAMES)
        for o in outs:
            got = result(o, n)
            if len(got) != 1 or not re.match(r'setData \w+Op\(\)$', got[0]):
                chk.violation('tilde:start', fn.loc(), 'a tilde operator starts with %s' % '; '.join(got))
