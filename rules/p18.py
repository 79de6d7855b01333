"""P18: equal types and template arguments are recognised as such."""
import itertools, re
from tab import *
import seek

TITLE = 'Equal types are one type and equal template arguments one instance'
TECHNIQUE = ('path-sensitive dataflow summaries of the functions on types and templates, every combination of kinds, contents and outcomes compared with a '
             'reference function')
NOTE = ('Exhaustive over the kinds of arguments, template variables, types and references and over the listed shapes of argument lists, instances, signatures, '
        'bodies, owners and chains of references (up to four of each). What a called step does is decided by the part about that step; '
        'conversions between built-in types are P02.')
RULE = ('a template is instantiated once for each list of equal arguments; types are the same exactly when their contents are; a reference leads to the type it '
        'names or a notice says why not; conversions are tried in the order language, type of the value, types behind references, and the best one is taken')
T = 'Spp::Ast::Template::'
VARTYPES = ('INTEGER', 'STRING', 'TYPE', 'FUNCTION', 'MODULE', 'AST', 'AST_REF')


def run(chk, prog):
    V = {v: enum(prog, 'Spp::Ast::TemplateVarType::_TemplateVarType', v) for v in VARTYPES}
    arguments(chk, prog, V)
    instances(chk, prog, V)
    factories(chk, prog)
    identity(chk, prog)
    functions(chk, prog)
    structs(chk, prog)
    casts(chk, prog)
    traces(chk, prog)
    places(chk, prog)
    statuses(chk, prog)
    chk.floor('situations', 3000)
    chk.floor('ways through', 3500)


def show(s, o, a, node):
    if s == 'find':
        return 'find<%s>(%s)' % (sname(node.get('ta', '?')), ', '.join(a[:2] + a[3:]))
    if s == 'traceType':
        return 'traceType(%s)%s' % (a[0], '' if len(a) < 2 or a[1] == '0' else ' silently')
    if s in ('add', 'setOwner', 'setName', 'setTarget', 'matchTargetType', 'isEqual', 'isIdentical'):
        return '%s.%s(%s)' % (o, s, ', '.join(a))
    return None


def arguments(chk, prog, V):
    # what an argument stands for
    for box, v, kind in itertools.product((True, False), VARTYPES, ('IntegerLiteral', 'StringLiteral', 'Function', 'Type', 'Module', 'Identifier', 'Other')):
        x = 'inner' if box else 'ref'
        names = {'INTEGER': 'IntegerLiteral', 'STRING': 'StringLiteral', 'FUNCTION': 'Function', 'MODULE': 'Module', 'TYPE': 'Type'}
        isref = kind == 'Identifier'

        def ref(ask):
            if v == 'AST':
                return [], x
            if v == 'AST_REF':
                return (['find<TiObject>(%s, owner, 0)' % x], 'out2(S1)') if isref else ([], x)
            if kind == names[v]:
                return [], x
            if v == 'TYPE':
                return ['traceType(%s)' % x], 'S1'
            if isref:
                return ['find<%s>(%s, owner, 0)' % (names[v], x)], 'out2(S1)'
            return [], '0'
        table(chk, prog, 'argument:' + v, T + 'traceObject', 'an argument of kind %s%s for a variable of type %s' % (kind, ' in a box' if box else '', v), ['ref', V[v], 'helper'], ref,
              steps=('find', 'traceType'), clears=(('find', 2),), show=show,
              kinds={x: ('Node', kind), 'ref': ('Node', 'Passage') if box else ('Node', kind)},
              get={('ref', 'get'): 'inner', 'isAstReference': lambda o, a: isref, (x, 'getOwner'): 'owner'})
    # the arguments given and the defaults
    for defs in ((), ('d',), ('n',), ('n', 'd'), ('d', 'n'), ('n', 'n', 'd')):
        for count in (None, 0, 1, 2, 3):
            names = ['D%d' % i for i in range(len(defs))]
            get = {('self', 'getVarDefCount'): len(defs)}
            for x, d in zip(names, defs):
                get[(x, 'getDefaultVal')] = 'default' + x if d == 'd' else None
                get[(x, 'getType')] = 'type' + x
            MIS = 'TemplateArgMismatchNotice(findSourceLocation(inputs))'

            def ref(ask):
                ev = []
                if count is not None and count > len(defs):
                    return ev, '0', {'notice': MIS}
                for i, x in enumerate(names):
                    if count is not None and i < count:
                        a = 'A%d' % i
                    elif count is None and i == 0:
                        a = 'inputs'
                    elif defs[i] == 'd':
                        a = 'default' + x
                    else:
                        return ev, '0', {'notice': MIS}
                    ev.append('traceObject(%s, type%s, helper)' % (a, x))
                    s = 'S%d' % len(ev)
                    if not ask(s):
                        return ev, '0', {'notice': 'InvalidTemplateArgNotice(findSourceLocation(%s))' % a}
                    ev.append('vars.add(%s)' % s)
                return ev, '1', {'notice': 'notice'}
            table(chk, prog, 'arguments', T + 'prepareTemplateVars', '%s for a template of (%s)' % ('one argument' if count is None else 'a list of %d arguments' % count, ', '.join(
                'default' if d == 'd' else 'no default' for d in defs)), ['inputs', 'helper', 'vars', 'notice'], ref,
                steps=('traceObject', 'add'), show=show, kinds={'inputs': 'List' if count is not None else 'Other'}, get=get,
                lists={'inputs': ['A%d' % i for i in range(count or 0)], 'self.varDefs': names})


def grown(key, items):
    """A list the function adds to."""
    items = tuple(el(x) for x in items)

    def now(st):
        return items + tuple(e.args[0] for e in st.events if sname(e.name) == 'add' and e.obj is not None and e.x.startswith(key + '.add('))
    return now


def instances(chk, prog, V):
    # which instance is used
    STEPS = ('prepareTemplateVars', 'matchTemplateVars', 'assignTemplateVars')

    def text(s, o, a, node):
        if s in STEPS:
            return '%s(%s)' % (s, a[1] if s == 'matchTemplateVars' else a[0] if s == 'prepareTemplateVars' else a[1])
        return show(s, o, a, node)
    for count in (0, 1, 2, 3):
        for body in (True, False):
            def ref(ask):
                ev = ['prepareTemplateVars(in)']
                if not ask('S1'):
                    return ev, '0', {'result': 'out3(S1)'}
                for i in range(count):
                    ev.append('matchTemplateVars(I%d)' % i)
                    s = 'S%d' % len(ev)
                    if ask(s):
                        return ev, '1', {'result': 'I%d[0]' % i}
                    if ask('out3(%s)' % s):
                        return ev, '0', {'result': 'out3(%s)' % s}
                ev += ['clone(self.body, findSourceLocation(in))', 'Scope().add(S%d)' % (len(ev) + 1), 'assignTemplateVars(Scope())']
                s = 'S%d' % len(ev)
                if not ask(s):
                    return ev, '0', {'result': 'out3(%s)' % s}
                ev.append(('self.instances.add(Scope())', 'Scope().setOwner(self)'))
                return ev, '1', {'result': 'Scope()[0]'}
            table(chk, prog, 'instances', T + 'matchInstance', 'a template with %d instances%s' % (count, '' if body else ' and no body'), ['in', 'helper', 'result'],
                  ref if body else lambda ask: ([], None), keep=None if body else lambda o: True,
                  steps=STEPS + ('add', 'setOwner', 'clone'), show=text, clears=[(s, 3) for s in STEPS],
                  lists={'self.instances': grown('self.instances', ['I%d' % i for i in range(count)])}, kinds={'self.body': 'Other' if body else None})
    # every variable must match
    for count in (0, 1, 2, 3):
        names = ['D%d' % i for i in range(count)]
        for assign in (False, True):
            def ref(ask):
                ev = []
                for i, x in enumerate(names):
                    ev.append('matchTemplateVar(V%d, instance, %s)' % (i, x))
                    if not ask('S%d' % len(ev)):
                        return ev, '0'
                return ev, '1'
            if not assign:
                table(chk, prog, 'instances', T + 'matchTemplateVars', 'matching %d variables' % count, ['vars', 'instance', 'helper', 'notice'], ref,
                      steps=('matchTemplateVar',), show=lambda s, o, a, node: '%s(%s, %s, %s)' % (s, a[0], a[1], a[2]), get={('self', 'getVarDefCount'): count},
                      lists={'self.varDefs': names, 'vars': ['V%d' % i for i in range(count)]})
    # when a variable matches
    fn = prog.fn(T + 'matchTemplateVar')
    for v, k in itertools.product(VARTYPES, ('FunctionType', 'IntegerType')):
        def ref(ask):
            ev = ['getTemplateVar(instance, nameD)']
            if v == 'INTEGER':
                same = '(int(S1.getValue)==int(V.getValue))'
            elif v == 'STRING':
                same = '(S1.getValue==V.getValue)'
            elif v == 'TYPE' and k == 'FunctionType' or v == 'AST':
                ev.append(('isIdentical' if v == 'TYPE' else 'isEqual') + '(S1, V)')
                same = 'S2'
            else:
                same = '(S1==V)'
            return ev, '1' if ask(same) else '0'
        table(chk, prog, 'instances', fn, 'a variable of type %s given a %s' % (v, k), ['V', 'instance', 'D', 'helper', 'notice'], ref,
              steps=('getTemplateVar', 'isEqual', 'isIdentical'), show=both, kinds={'S1': k, 'V': k},
              get={('D', 'getType'): V[v], ('D', 'getName'): 'nameD', 'strToInt': integer(WNorm(fn))}, values={'S1': True})


    # the variables of a new instance
    n = WNorm(prog.fn(T + 'assignTemplateVars'))
    for vs in ((), ('INTEGER',), ('STRING', 'TYPE'), ('AST', 'FUNCTION', 'MODULE'), ('AST_REF', 'INTEGER')):
        names = ['D%d' % i for i in range(len(vs))]
        get = {('self', 'getVarDefCount'): len(vs)}
        for x, v in zip(names, vs):
            get[(x, 'getType')] = V[v]
            get[(x, 'getName')] = 'name' + x

        def ref(ask):
            ev = []
            for i, (x, v) in enumerate(zip(names, vs)):
                a = 'clone(V%d)' % i if v in ('INTEGER', 'STRING') else 'box(V%d)' % i
                ev.append(('def.setName(name%s)' % x, 'def.setTarget(%s)' % a, 'instance.add(def)'))
            return ev, '1'
        table(chk, prog, 'instances', T + 'assignTemplateVars', 'the variables of an instance of (%s)' % ', '.join(vs), ['vars', 'instance', 'helper', 'notice'], ref,
              steps=('setName', 'setTarget', 'add'), show=show, get=dict(get, **{'clone': made(n, 'clone'), 'Passage::create': made(n, 'box'), 'Definition::create': el('def')}), lists={'self.varDefs': names, 'vars': ['V%d' % i for i in range(len(vs))]})
    # the value of a variable of an instance
    for defs in ((), ('x',), ('o', 'x'), ('n', 'o', 'x', 'x'), ('p',), ('o', 'p', 'x'), ('n', 'o')):
        names = ['D%d' % i for i in range(len(defs))]
        get, kinds = {}, {}
        for x, d in zip(names, defs):
            kinds[x] = 'Other' if d == 'n' else 'Definition'
            get[(x, 'getName')] = ('s', 'wanted' if d in 'xp' else 'other')
            get[(x, 'getTarget')] = 'T' + x
            kinds['T' + x] = 'Passage' if d == 'p' else 'Other'
            get[('T' + x, 'get')] = 'in' + x if d == 'p' else 'T' + x
        hit = next((i for i, d in enumerate(defs) if d in 'xp'), None)
        table(chk, prog, 'instances', T + 'getTemplateVar', 'looking for a variable among (%s)' % ', '.join(defs), ['instance', ('s', 'wanted')],
              lambda ask: ([], '?' if hit is None else ('in' if defs[hit] == 'p' else 'T') + 'D%d' % hit), keep=(lambda o: True) if hit is None else None, steps=(),
              get=get, kinds=kinds, lists={'instance': names})


def made(n, what):
    return lambda o, a: ('val', '%s(%s)' % (what, n.t(strip_ref(a[0]))))


def integer(n):
    def now(o, a):
        return ('val', 'int(%s)' % re.sub(r'(\.(get|c_str|getBuf|getStr))+$', '', n.t(strip_ref(a[0]))))
    return now


def both(s, o, a, node):
    if s in ('isEqual', 'isIdentical'):
        return '%s(%s)' % (s, ', '.join(sorted(([o] if o else []) + [x for x in a if x != 'helper'])))
    return show(s, o, a, node)


H = 'Spp::Ast::Helper::'
MODES = {'EXPLICIT': ('refTemplate', 'ref'), 'TEMP_EXPLICIT': ('trefTemplate', 'temp_ref'), 'IMPLICIT': ('irefTemplate', 'iref'), 'NO_DEREF': ('ndrefTemplate', 'ndref')}


def factories(chk, prog):
    """The types made from others, and what is kept of them."""
    M = {m: enum(prog, 'Spp::Ast::ReferenceMode::_ReferenceMode', m) for m in MODES}

    def text(s, o, a, node):
        if s == 'doGet':
            return 'look for it from %s' % a[1]
        if s == 'setValue':
            return 'name %s' % a[0]
        return None
    root = {'getRootScope': 'root'}
    for m, (field, name) in MODES.items():
        for have in (True, False):
            for others in (True, False):
                vals = {'self.' + f: others for f, x in MODES.values()}
                vals['self.' + field] = have

                def ref(ask):
                    if have:
                        return [], 'self.' + field
                    return ['name "%s"' % name, 'look for it from root'], 'S2', {'self.' + field: 'S2'}
                table(chk, prog, 'factories', H + 'getReferenceTemplate', 'the template of %s references (%s kept, others %s)' % (m, 'is' if have else 'not', 'are' if others else 'not'), [M[m]], ref,
                      steps=('doGet', 'setValue'), show=text, get=root, kinds={'self.' + f: 'Template' if vals['self.' + f] else None for f, x in MODES.values()})
    for q, field, name in (('getPointerTemplate', 'ptrTemplate', 'ptr'), ('getArrayTemplate', 'arrayTemplate', 'array')):
        for have in (True, False):
            table(chk, prog, 'factories', H + q, 'the template named %s (%s)' % (name, 'kept' if have else 'not kept'), [],
                  lambda ask: ([], 'self.' + field) if have else (['name "%s"' % name, 'look for it from root'], 'S2', {'self.' + field: 'S2'}),
                  steps=('doGet', 'setValue'), show=text, get=root, kinds={'self.' + field: 'Template' if have else None})

    for q, cls, tpl in (('_getReferenceTypeFor', 'ReferenceType', 'getReferenceTemplate(mode)'), ('_getPointerTypeFor', 'PointerType', 'getPointerTemplate()'), ('_getArrayTypeFor', 'ArrayType', 'getArrayTemplate()')):
        for good in (True, False):
            for notice in (True, False):
                def ref(ask):
                    ev = [tpl, 'instance of S1 with type']
                    if ask('S2'):
                        return ev, 'out2(S2)'
                    return ev + (['report out2(S2)'] if notice else []), '0'
                table(chk, prog, 'factories', H + q, 'the %s for a type (%s)' % (cls, 'the template fits' if good else 'it does not'), [None, 'type'] + (['mode'] if cls == 'ReferenceType' else []), ref,
                      steps=('getReferenceTemplate', 'getPointerTemplate', 'getArrayTemplate', 'matchInstance', 'add'), clears=(('matchInstance', 2),),
                      show=lambda s, o, a, node: 'instance of %s with %s' % (o, a[0]) if s == 'matchInstance' else 'report %s' % a[0] if s == 'add' else None,
                      kinds={'out2(S2)': cls if good else 'Notice' if notice else None}, values={'S2': good})
    MADE = {'getReferenceTypeFor': lambda o, a: None, 'getPointerTypeFor': None}
    # pointers and references for each other
    for kind in ('PointerType', 'ReferenceType', 'UserType'):
        for switched in (True, False):
            def ref(ask):
                if kind == 'PointerType':
                    return ['getReferenceTypeFor(content(type), mode)'], 'S1'
                if kind == 'ReferenceType':
                    ev = ['swichOuterPointerTypeWithReferenceType(content(type), mode)']
                    return (ev + ['getReferenceTypeFor(S1, mode(type))'], 'S2') if ask('S1') else (ev, '0')
                return [], '0'
            table(chk, prog, 'factories', H + 'swichOuterPointerTypeWithReferenceType', 'the reference for a pointer (%s)' % kind, ['type', 'mode'], ref, steps=('getReferenceTypeFor', 'swichOuterPointerTypeWithReferenceType'),
                  kinds={'type': kind}, get={('type', 'getContentType'): 'content(type)', ('type', 'getMode'): 'mode(type)'}, values={'S1': switched})
    for inner, auto in itertools.product(('ReferenceType', 'UserType'), (True, False)):
        table(chk, prog, 'factories', H + 'swichInnerReferenceTypeWithPointerType', 'the pointer for a reference to a %s' % inner, ['type'],
              lambda ask: (['swichInnerReferenceTypeWithPointerType(content(type))', 'getReferenceTypeFor(S1, mode(type))'], 'S2') if inner == 'ReferenceType' and auto else
              (['getPointerTypeFor(content(type))'], 'S1'), steps=('getReferenceTypeFor', 'getPointerTypeFor', 'swichInnerReferenceTypeWithPointerType'),
              kinds={'type': 'ReferenceType', 'content(type)': inner}, get={('type', 'getContentType'): 'content(type)', ('type', 'getMode'): 'mode(type)', ('content(type)', 'isAutoDeref'): auto})
    table(chk, prog, 'factories', H + 'getReferenceTypeForPointerType', 'the reference for a pointer', ['type', 'mode'], lambda ask: (['getReferenceTypeFor(content(type), mode)'], 'S1'),
          steps=('getReferenceTypeFor',), get={('type', 'getContentType'): 'content(type)'})
    for kind in ('ReferenceType', 'UserType'):
        table(chk, prog, 'factories', H + '_getValueTypeFor', 'the type of the value of a %s' % kind, [None, 'ref'], lambda ask: (['traceType(ref)'], 'content(S1)' if kind == 'ReferenceType' else 'S1'),
              steps=('traceType',), show=show, kinds={'S1': kind}, get={('S1', 'getContentType'): 'content(S1)'})
    # built-in types
    for q, field, name, size in (('_getNullType', 'nullType', 'Null', None), ('_getVoidType', 'voidType', 'Void', None), ('_getTiObjectType', 'tiObjectType', 'Core.Basic.TiObject', None),
                                 ('_getBoolType', 'boolType', 'getWordType', '1'), ('_getCharType', 'charType', 'getWordType', '8'), ('_getArchIntType', 'archIntType', 'getIntType', '0'),
                                 ('_getWord64Type', 'word64Type', 'getWordType', '64')):
        for have in (True, False):
            def ref(ask):
                if have:
                    return [], 'self.' + field
                if size:
                    return ['%s(%s)' % (name, size)], 'S1', {'self.' + field: 'S1'}
                return ['read "%s"' % name, 'look for S1'], 'S2', {'self.' + field: 'S2'}
            table(chk, prog, 'factories', H + q, 'the type %s %s' % (name, size or ''), [None], ref, steps=('getWordType', 'getIntType', 'parseExpression', 'doGet', 'tryGet'),
                  show=reading, get=root, kinds={'self.' + field: 'IntegerType' if have else None})
    for q, field, name in (('_getIntType', 'integerTypeRef', 'Int'), ('_getWordType', 'wordTypeRef', 'Word'), ('_getFloatType', 'floatTypeRef', 'Float'), ('_getCharArrayType', 'charArrayTypeRef', 'array')):
        for have in (True, False):
            lit = 'self.%s.getParam' % field + ('[1]' if name == 'array' else '')

            def ref(ask):
                if have:
                    return ['%s is to_string(size)' % lit, 'look for self.%s' % field], 'S2', {}
                return ['read <"%s"+size+"]">' % ('array[Word[8],' if name == 'array' else name + '['), 'look for S1'], 'S2', {'self.' + field: 'S1'}
            table(chk, prog, 'factories', H + q, 'the type %s of a size (%s)' % (name, 'again' if have else 'first time'), [None, 'size'], ref, steps=('parseExpression', 'doGet', 'tryGet', 'setValue'),
                  show=reading, get=root, kinds={'self.' + field: 'ParamPass' if have else None})


def reading(s, o, a, node):
    if s == 'parseExpression':
        return 'read ' + a[0]
    if s in ('doGet', 'tryGet'):
        return 'look for %s%s' % (a[0], '' if a[1] == 'root' else ' from ' + a[1])
    if s == 'setValue':
        return '%s is %s' % (o, re.sub(r'^c_str\((.*)\)$', r'\1', a[0]))
    return None


def compared(s, o, a, node):
    if s in ('isIdentical', 'isEqual'):
        return '%s %s' % (s, ' '.join(sorted([o] + [x for x in a if x != 'helper'])))
    if s == 'traceType':
        return 'traceType(%s)%s' % (a[0], '' if len(a) < 2 or a[1] == '0' else ' silently')
    return None


def identity(chk, prog):
    """When two types are the same type."""
    A = 'Spp::Ast::'
    for cls, same in itertools.product(('IntegerType', 'FloatType', 'PointerType', 'ReferenceType', 'ArrayType'), (True, False)):
        fn = prog.fn(A + cls + '::isIdentical')
        for kind in ((cls, 'UserType') if not same else (cls,)):
            for x, y in itertools.product((True, False), repeat=2):
                for content in ((True, True), (True, False), (False, True), (False, False)) if cls == 'PointerType' else ((True, True),):
                    get = {}
                    for n, c in zip(('self', 'type'), content):
                        get[(n, 'getContentType')] = 'in ' + n if c else None
                    for n, v in (('self', True), ('type', x)):
                        get[(n, 'getBitCount')] = get[(n, 'getSize')] = 8 if v else 16
                    for n, v in (('self', True), ('type', y)):
                        get[(n, 'isSigned')] = v
                        get[(n, 'getMode')] = el('mode1') if v else el('mode2')

                    def ref(ask):
                        if same:
                            return [], '1'
                        if kind != cls:
                            return [], '0'
                        if cls == 'IntegerType':
                            return [], '1' if x and y else '0'
                        if cls == 'FloatType':
                            return [], '1' if x else '0'
                        if cls == 'ReferenceType' and not y or cls == 'ArrayType' and not x:
                            return [], '0'
                        if cls == 'PointerType' and content != (True, True):
                            return [], '1' if content == (False, False) else '0'
                        ev = ['isIdentical in self in type']
                        return ev, '1' if ask('S1') else '0'
                    table(chk, prog, 'identity', fn, 'the same %s? (%s, %s, %s, %s)' % (cls, 'itself' if same else kind, 'same size' if x else 'another size', 'same sign or mode' if y else 'another', content),
                          ['type', 'helper'], ref, steps=('isIdentical',), show=compared, get=get,
                          kinds={'type': kind}, values={'(self==type)': same, '(in self==in type)': False})
    # where a type keeps its content and size
    for cls, q, name in (('IntegerType', 'getBitCount', 'bitCount'), ('FloatType', 'getBitCount', 'bitCount'), ('ArrayType', 'getSize', 'size'), ('PointerType', 'getContentType', 'type'), ('ReferenceType', 'getContentType', 'type'),
                         ('ArrayType', 'getContentType', 'type')):
        fn = prog.fn(A + cls + '::' + q)
        for null, first in ((False, True), (False, False)) + (((True, None),) if cls == 'IntegerType' else ()):
            def ref(ask):
                if null:
                    return [], '1'
                ev = (['read "%s"' % name] if first else []) + ['look for it']
                return ev, ('content' if q == 'getContentType' else 'int(S%d.getValue)') .replace('%d', str(len(ev)))
            kinds, get = {}, {('self', 'getOwner'): 'owner', ('self', 'isNullLiteral'): null, 'strToInt': integer(WNorm(fn))}
            for x in ('S1', 'S2'):
                kinds[x] = ('Passage', 'IntegerLiteral')
                get[(x, 'get')] = 'content'
            table(chk, prog, 'identity', fn, '%s of a %s%s' % (q, cls, ' (null literal)' if null else ''), ['helper'], ref, steps=('doGet', 'parseExpression'),
                  show=lambda s, o, a, node: 'read ' + a[0] if s == 'parseExpression' else 'look for it' if a[1] == 'owner' else 'look for it from ' + a[1],
                  get=get, kinds=dict(kinds, content='Type'), keep=lambda o: o.kind != 'throw' and (null or (len(o.events) > 1) == first))


def functions(chk, prog):
    """When two function types are the same, or fit."""
    F = 'Spp::Ast::FunctionType::'
    t, u = 't', 'u'
    P = lambda lo, hi, c=True: (lo, hi, c)
    lists = [((), ()), ((t,), ()), ((t,), (t,)), ((t, t), (t, t)), ((t,), (P(0, 0),)), ((P(0, 0),), (t,)), ((t, P(1, 2)), (t, P(1, 2))), ((t, t, t), (t, t))]
    for a, b in (((0, 0), (0, 0)), ((1, 0), (0, 0)), ((0, 0), (1, 0)), ((0, 2), (0, 3)), ((0, 3), (0, 2)), ((0, 2), (0, 0)), ((0, 0), (0, 2)), ((1, 2), (1, 2)), ((2, 5), (1, 5)), ((1, 5), (2, 5)), ((0, 3), (1, 2))):
        lists.append(((P(*a),), (P(*b),)))
    for a, b in itertools.product((True, False), repeat=2):
        lists.append(((P(0, 0, a),), (P(0, 0, b),)))
        lists.append(((P(0, 0, a), t), (P(0, 1, b), t)))
    for mine, theirs in lists:
        for same, kind, member, rets in [(True, 'FunctionType', True, (True, True)), (False, 'Other', True, (True, True))] * (mine == () == theirs) + [(False, 'FunctionType', True, (True, True))] + \
                [(False, 'FunctionType', False, (True, True)), (False, 'FunctionType', True, (True, False)), (False, 'FunctionType', True, (False, True))] * (mine == theirs == (t,)):
            get, kinds, L = {}, {'type': kind}, {}
            for side, l in (('A', mine), ('B', theirs)):
                o = 'self' if side == 'A' else 'type'
                get[(o, 'isMember')] = True if side == 'A' else member
                get[(o, 'traceRetType')] = 'ret' + side if rets[side == 'B'] else None
                kinds[o + '.argTypes'] = 'Map' if l else None
                names = ['%s%d' % (side, i) for i in range(len(l))]
                L[o + '.argTypes'] = names
                for x, p in zip(names, l):
                    kinds[x] = 'ArgPack' if isinstance(p, tuple) else 'Identifier'
                    if isinstance(p, tuple):
                        get[(x, 'getMin')], get[(x, 'getMax')] = p[0], p[1]
                        get[(x, 'getArgType')] = 'E' + x if p[2] else None
            values = {'(self==type)': same, 'self.argTypes': bool(mine), 'type.argTypes': bool(theirs)}
            what = '%s (%s) and (%s)%s' % ('the same' if same else kind, *(', '.join('...[%s, %s, %s]' % p if isinstance(p, tuple) else 'argument' for p in l) for l in (mine, theirs)),
                                           '' if member else ', one a method') + ('' if all(rets) else ' with an unknown return type')
            for exact in (True, False):
                def ref(ask):
                    NO = '0' if exact else 'NONE'
                    if same:
                        return [], '1' if exact else 'EXACT'
                    if kind != 'FunctionType' or exact and not member:
                        return [], NO
                    if not all(rets):
                        return [], NO
                    ev = []
                    cmp = 'isIdentical' if exact else 'isEqual'

                    def eq(x, y):
                        ev.append('%s %s %s' % ((cmp,) + tuple(sorted((x, y)))))
                        return ask('S%d' % len(ev))
                    if not eq('retA', 'retB') or len(mine) != len(theirs):
                        return ev, NO
                    end = '1' if exact else 'EXACT'
                    for i, (p, q) in enumerate(zip(mine, theirs)):
                        if isinstance(p, tuple) != isinstance(q, tuple):
                            return ev, NO
                        x, y = 'A%d' % i, 'B%d' % i
                        if isinstance(p, tuple):
                            if exact and p[:2] != q[:2]:
                                return ev, NO
                            if not exact:
                                if p[0] > q[0] or p[1] and (not q[1] or p[1] < q[1]):
                                    return ev, NO
                                if p[:2] != q[:2]:
                                    end = 'IMPLICIT_CAST'
                            x, y = ('E' + x if p[2] else None), ('E' + y if q[2] else None)
                        xs = []
                        for z in (x, y):
                            if z:
                                ev.append('traceType(%s)%s' % (z, ' silently' if exact else ''))
                                xs.append('S%d' % len(ev))
                            else:
                                xs.append('_' if exact else None)
                        known = [ask(z) for z in xs if z and z != '_']
                        if not exact and isinstance(p, tuple) and p[2] and q[2]:
                            if all(known) != any(known) or not all(known):
                                if known[0] != known[1]:
                                    return ev, NO
                                continue
                        elif not exact and isinstance(p, tuple) and (p[2] or q[2]):
                            if any(known):
                                return ev, NO
                            continue
                        elif not exact and isinstance(p, tuple):
                            continue
                        elif not all(known):
                            return ev, NO
                        if not eq(*xs):
                            return ev, NO
                    return ev, end
                table(chk, prog, 'functions', F + ('isIdentical' if exact else 'matchTargetType'), what, ['type', 'helper'], ref, steps=('isIdentical', 'isEqual', 'traceType'), show=compared,
                      get=get, kinds=kinds, lists=L, values=values, status=True)


def structs(chk, prog):
    """A type whose first member is injected fits what the member fits."""
    def text(s, o, a, node):
        if s == 'matchTargetType':
            return 'match %s with %s, %s' % (o, a[0], a[2])
        return compared(s, o, a, node)
    # v: member, i: injected member, s: shared, f: function, n: no definition, e: empty definition
    for body in ((), ('i',), ('v', 'i'), ('f', 's', 'n', 'e', 'i', 'i'), ('s', 'v'), ('f',), None):
        for same in (True, False):
            get, kinds = {('self', 'getBody'): 'body' if body is not None else None}, {}
            names = ['D%d' % i for i in range(len(body or ()))]
            for x, d in zip(names, body or ()):
                kinds[x] = 'Other' if d == 'n' else 'Definition'
                get[(x, 'getTarget')] = None if d == 'e' else 'T' + x
                get[('self', 'isSharedDef', x)] = get[('helper', 'isSharedDef', x)] = d == 's'
                get[('helper', 'isInMemVariable', 'T' + x)] = d in 'vis'
                get[(None, 'isInjection', x)] = d == 'i'
            hit = next((i for i, d in enumerate(body or ()) if d in 'vi'), None)

            def ref(ask):
                if same:
                    return [], 'EXACT'
                if hit is None or body[hit] != 'i':
                    return [], 'NONE'
                ev = ['traceType(TD%d)' % hit]
                if not ask('S1'):
                    return ev, 'NONE'
                ev.append('match S1 with type, (opts|SKIP_DEREF)')
                if ask('(EXACT==S2)') or ask('(AGGREGATION==S2)') or ask('(REF_AGGREGATION==S2)'):
                    return ev, 'AGGREGATION'
                return ev, 'NONE'
            table(chk, prog, 'structs', 'Spp::Ast::UserType::matchTargetType', '%s with (%s)' % ('the type itself' if same else 'another type', body), ['type', 'helper', 'opts'], ref,
                  steps=('matchTargetType', 'traceType'), show=text, status=True, get=get, kinds=kinds, lists={'body': names}, values={'(self==type)': same})
    # whether a type has something to do when its objects begin and end
    NO, USER, AUTO, BOTH = (int(enum(prog, 'Spp::Ast::TypeInitMethod::_TypeInitMethod', x)[2]) for x in ('NONE', 'USER', 'AUTO', 'BOTH'))
    if (NO, BOTH) != (0, USER | AUTO) or USER & AUTO:
        chk.violation('structs', prog.fn('Spp::Ast::UserType::getInitializationMethod').loc(), 'the methods NONE, USER, AUTO and BOTH are no set of two')
    for init in (True, False):
        q = 'getInitializationMethod' if init else 'getDestructionMethod'
        name = '~init' if init else '~terminate'
        # u: the method, f: another function, v: variable, c: variable with arguments, s: shared variable, t: statement, e: empty definition, x: unknown type, o: another thing
        for body in (None, (), ('u',), ('f',), ('v',), ('c',), ('s',), ('t',), ('e',), ('o',), ('u', 'v'), ('f', 's', 'v'), ('v', 'u'), ('e', 'o', 'u', 't'), ('v', 'v'), ('c', 'u'), ('t', 'v', 'u'), ('u', 'u', 'f', 'v')):
            get, kinds = {('self', 'getBody'): 'body' if body is not None else None}, {}
            names = ['D%d' % i for i in range(len(body or ()))]
            for x, d in zip(names, body or ()):
                kinds[x] = 'Other' if d == 't' else 'Definition'
                get[(x, 'getTarget')] = None if d == 'e' else 'T' + x
                get[(x, 'getName')] = ('s', name if d in 'uv' else 'other')
                kinds['T' + x] = 'Function' if d in 'uf' else 'ParamPass' if d == 'c' else 'Other'
                get[('helper', 'isSharedDef', x)] = d == 's'
                get[('helper', 'isInMemVariable', 'T' + x)] = d in 'vcs'
                get[('T' + x, 'getType')] = enum(prog, 'Core::Data::Ast::BracketType::_BracketType', 'ROUND')

            def ref(ask):
                ev = []
                user = auto = False
                for x, d in zip(names, body or ()):
                    if user and auto:
                        break
                    if d == 'u':
                        user = True
                    elif d == 'c' and init or d == 't' and init:
                        auto = True
                    elif d in 'vc':
                        ev.append('traceType(T%s)' % x)
                        s = 'S%d' % len(ev)
                        if ask(s):
                            ev.append('method of %s' % s)
                            auto = auto or not ask('(NONE==S%d)' % len(ev))
                return ev, str((1 if auto else 0) | (2 if user else 0))
            table(chk, prog, 'structs', 'Spp::Ast::UserType::' + q, '%s of a type with (%s)' % (q, body), ['helper'], ref, steps=('traceType', q), show=lambda s, o, a, node: 'method of %s' % o if s == q else compared(s, o, a, node),
                  get=get, kinds=kinds, lists={'body': names}, ret=lambda t, w, o: str((USER & w.plain(t) and 2) | (AUTO & w.plain(t) and 1)) if w.plain(t) is not None else w.norm.t(t))


def casts(chk, prog):
    """Which conversion leads from one type to another."""
    H = 'Spp::Ast::Helper::'
    NAMES = ('NONE', 'AGGREGATION', 'EXPLICIT_CAST', 'CUSTOM_CASTER', 'IMPLICIT_CAST', 'PROMOTION', 'REF_AGGREGATION', 'EXACT')
    E = {x: enum(prog, 'Spp::Ast::TypeMatchStatus::Status', x) for x in NAMES}
    for a, b in zip(NAMES, NAMES[1:]):
        if int(E[a][2]) >= int(E[b][2]):
            chk.violation('casts', prog.fn(H + '_matchTargetType').loc(), 'the match %s is not better than %s' % (b, a))
    LEVEL = {x: i for i, x in enumerate(NAMES)}
    MODE = {x: enum(prog, 'Spp::Ast::ReferenceMode::_ReferenceMode', x) for x in ('EXPLICIT', 'TEMP_EXPLICIT', 'IMPLICIT', 'NO_DEREF')}

    def status(name, derefs=0, prev=None):
        v = (E[name], C(str(derefs)))
        return ('new', 'Spp::Ast::TypeMatchStatus', v if prev is None else (prev,) + v)

    def number(t, w):
        v = w.plain(t)
        return w.norm.t(t) if v is None else v

    def given(t, w, o):
        t = strip_as(t)
        n = w.norm
        if t[0] in ('new', 'obj') and sname(t[1]) == 'TypeMatchStatus':
            a = list(t[2])
            prev = ''
            if len(a) == 3:
                prev = given(a[0], w, o) + ', '
                a = a[1:]
            if len(a) == 1 and strip_as(a[0])[0] in ('new', 'obj'):
                return given(a[0], w, o)
            if not a:
                return 'NONE 0'
            v, d = n.t(unwrap(a[0])), number(a[1], w) if len(a) > 1 else 0
            for k, x in o.state.heap.items():
                k = n.t(k)
                if k == n.t(t) + '.derefs':
                    d = number(x, w)
                elif k == n.t(t) + '.value':
                    v = n.t(unwrap(x))
            return '%s%s %s' % (prev, v, d)
        return n.t(t)

    # the conversions of the language, then those of the types themselves
    CHAINS = [('T',), ('A', 'T'), ('X', 'T'), ('A', 'A', 'T'), ('A', 'X', 'T'), ('A', 'A', 'A', 'T')]      # A: goes to its content by itself, X: does not
    for chain, traced, target in itertools.product(CHAINS, ('', 's', 't', '-s', '-t'), ('type', 'EXPLICIT', 'IMPLICIT', 'TEMP_EXPLICIT', 'NO_DEREF')):
        if traced and (len(chain) > 2 or target not in ('type', 'TEMP_EXPLICIT')):
            continue
        temp = target == 'TEMP_EXPLICIT'
        for m, step in itertools.product(NAMES, range(-2, len(chain))):
            # step: the step step which the type offers a conversion; -2: the reference made for a value
            if traced and (m != 'NONE' or step >= 0):
                continue
            for c in (('CUSTOM_CASTER', 'EXACT', 'AGGREGATION') if step >= 0 or step == -2 and chain == ('T',) else ('NONE',)):
                types = ['R%d' % i for i in range(len(chain))]
                kinds = {x: ('Type', 'ReferenceType') if k != 'T' else ('Type', 'UserType') for x, k in zip(types, chain)}
                get = {(x, 'isAutoDeref'): k == 'A' for x, k in zip(types, chain)}
                for x, y in zip(types, types[1:]):
                    get[(x, 'getContentType')] = y
                kinds['target'] = ('Type', 'UserType') if target == 'type' else ('Type', 'ReferenceType')
                if target != 'type':
                    get[('target', 'getMode')] = MODE[target]
                    get[('target', 'getContentType')] = 'content'
                want = 'content' if temp else 'target'
                kinds['src'], kinds['to'] = 'Other', 'Other'
                get[('self', 'traceType', 'src')] = None if traced == '-s' else 'R0'
                get[('self', 'traceType', 'to')] = None if traced == '-t' else 'target'
                get[('self', 'getReferenceTypeFor')] = 'made'
                get['matchTargetType'] = status(m, 2)
                for x, i in [('made', -2)] + [(y, i) for i, y in enumerate(types)]:
                    get[('self', 'lookupCustomCaster', x)] = None
                get['lookupCustomCaster'] = lambda o, a, types=types, step=step, c=c: status(c if strip_as(a[0]) == el('made') and step == -2 or step >= 0 and strip_as(a[0]) == el(types[step]) else 'NONE', 3)
                for x in ['made'] + types:
                    get.pop(('self', 'lookupCustomCaster', x))

                def ref(ask):
                    ev = []
                    if 's' in traced:
                        ev.append('traceType(src)')
                        if traced == '-s':
                            return ev, 'NONE 0'
                    if 't' in traced:
                        ev.append('traceType(to)')
                        if traced == '-t':
                            return ev, 'NONE 0'
                    ev.append('match R0 with %s' % want)
                    if temp and (m == 'AGGREGATION' or LEVEL[m] >= LEVEL['REF_AGGREGATION']):
                        return ev, '%s 1' % ('REF_AGGREGATION' if m == 'AGGREGATION' else m)
                    if not temp and LEVEL[m] >= LEVEL['IMPLICIT_CAST']:
                        return ev, '%s 2' % m
                    if chain[0] == 'T':
                        ev += ['reference R0 TEMP_EXPLICIT', 'cast made to %s' % want]
                        if step == -2 and LEVEL[c] >= LEVEL['IMPLICIT_CAST']:
                            return ev, '%s 3, CUSTOM_CASTER -1' % c
                    for i, k in enumerate(chain):
                        if k != 'A':
                            break
                        ev.append('cast R%d to %s' % (i, want))
                        if step == i and LEVEL[c] >= LEVEL['CUSTOM_CASTER']:
                            return ev, '%s 3, CUSTOM_CASTER %d' % (c, i)
                    return ev, 'NONE 0' if temp else '%s 2' % m

                def text(s, o, a, node):
                    if s == 'matchTargetType':
                        return 'match %s with %s' % (o, a[0])
                    if s == 'lookupCustomCaster':
                        return 'cast %s to %s' % (a[0], a[1])
                    if s == 'getReferenceTypeFor':
                        return 'reference %s %s' % (a[0], a[1])
                    return show(s, o, a, node)
                table(chk, prog, 'casts', H + '_matchTargetType', 'a match of %s with a %s when %s and %s' % (
                    '>'.join(chain), target, 'the types match as ' + m, 'a caster of %s gives %s' % ('the value' if step < 0 else 'step %d' % step, c) if c != 'NONE' else 'there is no caster'),
                    ['self', 'src' if 's' in traced else 'R0', 'to' if 't' in traced else 'target', 'caster'], ref, steps=('traceType', 'matchTargetType', 'lookupCustomCaster', 'getReferenceTypeFor'),
                    show=text, get=get, kinds=kinds, status=True, ret=given)
    # which of the casters of a type
    lam, captured = visitor(prog, H + '_lookupCustomCaster', helper='Helper', target='Type', caster='Function', best='TypeMatchStatus')
    for kind, call, init, m, best in itertools.product(('Function', 'Other'), ('EXACT', 'PROMOTION', 'NONE'), ('NONE', 'USER'), NAMES, ('NONE', 'CUSTOM_CASTER', 'IMPLICIT_CAST')):
        if (kind == 'Other' or call != 'EXACT') and (init, m, best) != ('NONE', 'EXACT', 'NONE'):
            continue
        def ref(ask):
            ev = []
            if kind == 'Other':
                return ev, 'MOVE'
            ev.append('call type')
            if call != 'EXACT':
                return ev, 'MOVE'
            x = 'returned'
            if init == 'USER':
                ev.append('reference returned IMPLICIT')
                x = 'made'
            ev.append('match %s with target' % x)
            ok = (LEVEL[m] >= LEVEL['CUSTOM_CASTER'] or m == 'AGGREGATION') and LEVEL[m] > LEVEL[best]
            return ev, 'STOP' if ok and m == 'EXACT' else 'MOVE', {captured['caster']: 'obj' if ok else 'caster', captured['best']: 'TypeMatchStatus(%s,%s)' % ((m, 2) if ok else (best, 0))}

        def text(s, o, a, node):
            return 'call %s' % o if s == 'matchCall' else 'reference %s %s' % (a[0], a[1]) if s == 'getReferenceTypeFor' else 'match %s with %s' % (a[0], a[1])
        table(chk, prog, 'casts', lam, 'a %s with a %s fit that returns what fits %s, after %s' % (kind, call, m, best), [seek.action('TARGET_MATCH'), 'obj'], ref,
              env=at(captured, helper=el('self'), target=el('target'), caster=el('caster'), best=status(best)), steps=('matchCall', 'matchTargetType', 'getReferenceTypeFor'), show=text, status=True, kinds={'obj': kind},
              get={'matchCall': status(call), 'traceRetType': 'returned', 'getInitializationMethod': enum(prog, 'Spp::Ast::TypeInitMethod::_TypeInitMethod', init),
                   'matchTargetType': status(m, 2), 'getReferenceTypeFor': 'made', ('obj', 'getType'): 'type'})
    for a in seek.ACTION.values():
        if a != 'TARGET_MATCH':
            table(chk, prog, 'casts', lam, 'what is not a caster: ' + a, [seek.action(a), 'obj'], lambda ask: ([], 'MOVE'), env=at(captured, helper=el('self'), target=el('target'), caster=el('caster'), best=status('NONE')),
                  steps=('matchCall',), status=True, kinds={'obj': 'Function'})
    # where the casters are looked for
    for k, content, body in itertools.product((True, False), ('DataType', 'Other', None), (True, False)):
        def ref(ask):
            if not k or content != 'DataType' or not body:
                return [], 'NONE 0'
            return ['each ~cast in body SKIP_OWNERS SKIP_USES'], 'NONE 0'
        fn = prog.fn(H + '_lookupCustomCaster')
        if '~cast' not in [n.get('v') for n in fn.nodes if n['k'] == 'StringLiteral']:
            chk.violation('casts', fn.loc(), 'the casters are not looked for by the name ~cast')
        flags = {x: enum(prog, 'Core::Data::Seeker::Flags::_Flags', x)[2] for x in ('SKIP_OWNERS', 'SKIP_USES')}

        def text(s, o, a, node):
            return 'each ~cast in %s %s' % (a[1], ' '.join(sorted(re.findall(r'SKIP\w+', a[3]))))
        table(chk, prog, 'casts', H + '_lookupCustomCaster', 'the casters of a %s to a %s with%s a body' % ('reference' if k else 'value', content, '' if body else 'out'), ['self', 'src', 'target', 'caster'], ref,
              steps=('extForeach',), show=text, kinds={'src': ('Type', 'ReferenceType') if k else ('Type', 'UserType'), 'content': ('Type', content)}, status=True, ret=given,
              get={('src', 'getContentType'): 'content' if content else None, ('content', 'getBody'): 'body' if body else None, ('self', 'getSeeker'): 'seeker'})
    # small questions
    for implicit in (True, False):
        for m in NAMES:
            table(chk, prog, 'casts', H + '_isCastableTo', 'a match %s, %s' % (m, 'implicit' if implicit else 'explicit'), ['self', 'src', 'target', TRUE if implicit else FALSE],
                  lambda ask: (['match src with target'], '1' if LEVEL[m] >= LEVEL['CUSTOM_CASTER' if implicit else 'EXPLICIT_CAST'] else '0'),
                  steps=('matchTargetType',), show=lambda s, o, a, node: 'match %s with %s' % (a[0], a[1]), get={'matchTargetType': status(m)}, status=True)
    for k in ('VoidType', 'IntegerType', None):
        table(chk, prog, 'casts', H + '_isVoid', 'a reference to %s' % k, ['self', 'ref'], lambda ask: (['traceType(ref)'], '1' if k == 'VoidType' else '0'), steps=('traceType',), show=show,
              get={('self', 'traceType', 'ref'): 'type' if k else None}, kinds={'type': k})
    table(chk, prog, 'casts', H + '_isVoid', 'no reference', ['self', False], lambda ask: ([], '1'), steps=('traceType',), show=show)
    for k in ('ReferenceType', 'PointerType'):
        table(chk, prog, 'casts', H + '_isReferenceTypeFor', 'a %s' % k, ['self', 'ref', 'type'], lambda ask: (['isEqual inner self type'], '1' if ask('S1') else '0') if k == 'ReferenceType' else ([], '0'),
              steps=('isEqual',), show=compared, get={('ref', 'getContentType'): 'inner'}, kinds={'ref': ('Type', k)})


def visitor(prog, q, **types):
    """A lambda of a function, and the names of what it captures, by type."""
    l = seek.lambdas(prog, prog.fn(q))
    if len(l) != 1:
        raise Broken('the visitor of %s is not found' % q)
    lam = l[0][1]
    first = min(int(p['d'].split('#')[1]) for p in lam.params)
    found = {}
    for n in lam.nodes:
        d = n.get('d')
        if n['k'] == 'DeclRefExpr' and isinstance(d, str) and '#' in d and d.split('#')[1].isdigit() and int(d.split('#')[1]) < first:
            found[d] = sname(re.sub(r'<.*', '', re.sub(r'\s*\*?\s*(const)?\s*&?$', '', str(n['t'])).replace('const ', ''))) if 'SharedPtr' not in str(n['t']) else 'SharedPtr'
    out = {}
    for k, t in types.items():
        x = [d for d, u in found.items() if u == t]
        if len(x) != 1:
            raise Broken('the %s of the visitor of %s is not found' % (k, q))
        out[k] = x[0].split('#')[0]
        out['#' + k] = x[0]
    return lam, out


def at(captured, **values):
    return {captured['#' + k]: v for k, v in values.items()}


KINDS = {'TypeOp': ('TypeOp',), 'Type': ('Type', 'DataType'), 'Template': ('Template',), 'Passage': ('Passage',), 'Variable': ('Variable',), 'ArgPack': ('ArgPack',), 'Bracket': ('Bracket',),
         'ParamPass': ('ParamPass',), 'LinkOperator': ('LinkOperator',), 'Identifier': ('Identifier',), 'ThisTypeRef': ('ThisTypeRef',), 'IntegerLiteral': ('IntegerLiteral',)}


def traces(chk, prog):
    """The type a reference stands for, and what is said when there is none."""
    H = 'Spp::Ast::Helper::'
    ROUND, SQUARE = (enum(prog, 'Core::Data::Ast::BracketType::_BracketType', x) for x in ('ROUND', 'SQUARE'))
    lam, captured = visitor(prog, H + '__traceType', helper='Helper', notice='SharedPtr', type='Type')
    rest = sorted({n['d'] for n in lam.nodes if n['k'] == 'DeclRefExpr' and '#' in str(n.get('d')) and sname(str(n.get('t')).split(' *')[0]) == 'TiObject' and 'const' not in n['t']} - {p['d'] for p in lam.params})
    if len(rest) != 1:
        raise Broken('what the search of a type has found is not found')
    captured.update({'found': rest[0].split('#')[0], '#found': rest[0]})
    for kind in KINDS:
        for skip, store in ((False, True), (True, True), (False, False)):
            variants = {'TypeOp': ('set', 'found', 'lost'), 'Template': ('match', 'nottype', 'notice', 'thing'), 'Variable': ('set', 'open'), 'Bracket': ('round', 'square'), 'ParamPass': ('set', 'round', 'square', 'found'),
                        'LinkOperator': ('set', 'open'), 'Identifier': ('set', 'open', 'found', 'notice', 'nottype'), 'ThisTypeRef': ('set', 'open', 'found')}.get(kind, ('',))
            for v in variants:
                get = {('self', 'getNoticeStore'): 'store', ('ref', 'getOwner'): 'owner', 'findSourceLocation': 'loc', ('ref', 'getOperand'): 'operand', ('ref', 'get'): 'inner', ('ref', 'getTypeRef'): 'typeRef',
                       ('operand', 'getOwner'): 'operandOwner', ('self', 'getSeeker'): 'seeker', 'getAstType': 'kept', 'tryGetAstType': 'kept' if v == 'set' else None}
                get[('ref', 'getType')] = {'set': 'kept', 'round': ROUND, 'square': SQUARE}.get(v, SQUARE if kind in ('ParamPass', 'Bracket') else None)
                get[('seeker', 'tryGet')] = None if v == 'lost' else 'target'
                get['getNoticeStore'] = 'store' if store else None
                get[('ref', 'matchInstance')] = v in ('match', 'nottype')
                get[('self', 'isAstReference')] = kind in ('ParamPass', 'LinkOperator', 'Identifier', 'ThisTypeRef')
                kinds = {'ref': KINDS[kind], 'operand': ('Node',), 'out': ('Type',) if v == 'match' else ('Notice',) if v == 'notice' else 'Other'}
                end = '' if skip else ' silently'

                def ref(ask):
                    ev = []
                    follow = None
                    said = 'InvalidTypeNotice(loc)'
                    if kind in ('Type',):
                        return ev, 'ref'
                    if v == 'set' or kind == 'ArgPack':
                        return ev, 'kept'
                    if kind == 'TypeOp' and v == 'found':
                        follow = 'target', 'ref.setType'
                    elif kind == 'Passage':
                        follow = 'inner', None
                    elif kind == 'Variable':
                        follow = 'typeRef', 'ref.setType!'
                    elif v == 'round':
                        follow = 'operand', None
                    if kind == 'Template':
                        ev.append('instance of ref')
                        if v == 'match':
                            return ev, 'out'
                        if v == 'notice':
                            said = 'out'
                    if follow:
                        ev.append('trace %s%s' % (follow[0], ' silently' if skip else ''))
                        if kind in ('Passage', 'Bracket', 'ParamPass'):
                            return ev, 'S1'
                        if follow[1] == 'ref.setType!':
                            ev.append('ref.setType(S1)')
                        if ask('S1'):
                            if follow[1] == 'ref.setType':
                                ev.append('ref.setType(S1)')
                            return ev, 'S1'
                    elif kind in ('ParamPass', 'LinkOperator', 'Identifier', 'ThisTypeRef'):
                        ev.append('each ref in owner')
                        if v == 'found':
                            return ev + ['setAstType(ref, found)'], 'found'
                        said = 'notice' if v == 'notice' else 'IdentifierIsNotTypeNotice(loc)' if v == 'nottype' else said
                    if store and not skip:
                        ev.append('store.add(%s)' % said)
                    return ev, '0'

                def hook(w, st, s, obj, args):
                    if s == 'extForeach':
                        for x, y in {'found': (('type', 'found'), ('found', 'found')), 'notice': (('notice', 'notice'),), 'nottype': (('found', 'thing'),)}.get(v, ()):
                            st.env[(0, captured['#' + x])] = el(y)

                def text(s, o, a, node):
                    if s == '_traceType':
                        return 'trace %s%s' % (a[0], ' silently' if a[1] == '1' else '')
                    if s == 'extForeach':
                        return 'each %s in %s%s' % (a[0], a[1], '' if a[3] == '0' else ' ' + a[3])
                    if s == 'matchInstance':
                        return 'instance of ' + o
                    if s in ('setType', 'add'):
                        return '%s.%s(%s)' % (o, s, re.sub(r'out2\(.*\)', 'out2', ', '.join(a)))
                    return None
                table(chk, prog, 'traces', H + '__traceType', 'a %s%s%s' % (kind, v and ' ' + v, ' quietly' if skip else '' if store else ' without a notice store'), ['self', 'ref', TRUE if skip else FALSE], ref,
                      steps=('_traceType', 'extForeach', 'matchInstance', 'setType', 'add', 'setAstType'), show=text, get=get, kinds=kinds, clears=(('matchInstance', 2),), hook=hook)
    # what is taken of what is found
    for a in list(seek.ACTION.values()):
        for kind, box, m in itertools.product(('Type', 'Template', 'Other', 'Notice'), (True, False), (None, 'type', 'thing', 'notice', 'other')):
            if (a == 'TARGET_MATCH') == (kind == 'Notice') or a not in ('TARGET_MATCH', 'ERROR') and kind != 'Type' or (m is None) == (kind == 'Template') or a == 'ERROR' and (kind, box) != ('Notice', False):
                continue
            x = 'inner' if box else 'obj'

            def ref(ask):
                ev, now = [], {'type': '0', 'found': '0', 'notice': 'notice'}
                end = 'MOVE'
                if a == 'ERROR':
                    now['notice'] = 'obj'
                elif a == 'TARGET_MATCH':
                    now['found'] = x
                    if kind == 'Type':
                        now['type'], end = x, 'STOP'
                    if kind == 'Template':
                        ev.append('instance of ' + x)
                        if m == 'type':
                            now['type'], end = 'out', 'STOP'
                        elif m == 'notice':
                            now['notice'] = 'out'
                return ev, end, {captured[k]: v for k, v in now.items()}
            table(chk, prog, 'traces', lam, 'when a %s%s is found (%s, %s)' % (kind, ' in a box' if box else '', a, m), [seek.action(a), 'obj'], ref,
                  env=at(captured, helper=el('self'), notice=el('notice'), type=ZERO, found=ZERO), steps=('matchInstance',), clears=(('matchInstance', 2),), show=lambda s, o, a, node: 'instance of ' + o,
                  get={('obj', 'get'): 'inner', (x, 'matchInstance'): m in ('type', 'thing')},
                  kinds={'obj': ('Passage',) if box else (kind,), x: ('Passage',) if box and x == 'obj' else (kind,), 'out': {'type': ('Type',), 'notice': ('Notice',)}.get(m, 'Other')})


def places(chk, prog):
    """Where a variable lives, what a modifier says, what can be used and merged."""
    H = 'Spp::Ast::Helper::'
    DOMAIN = 'Spp::Ast::DefinitionDomain::_DefinitionDomain'
    # the owners of a definition from the inside out
    ENDS = {'Module': 'GLOBAL', 'UserType': 'type', 'Function': 'function', 'PreprocessStatement': 'FUNCTION', 'WhileStatement': 'FUNCTION', 'ForStatement': 'FUNCTION', 'IfStatement': 'FUNCTION'}
    classes = {'UserType': ('UserType', 'DataType', 'Type', 'Node'), 'Module': ('Module', 'Block', 'Node'), 'Block': ('Block', 'Node'), 'List': ('List', 'Node')}
    chains = [c + (e,) for c in ((), ('Block',), ('List', 'Block'), ('Block', 'Block')) for e in list(ENDS) + ['']] + [(a, b, 'Module') for a in ('Block', 'List') for b in ('UseInOp', 'LinkOperator', 'List')] + [
        (a, 'Block', b, 'Function') for a in ('List', 'Other') for b in ('UseInOp', 'List')]
    for chain in chains:
        chain = tuple(x for x in chain if x)
        for shared, how in itertools.product((True, False), ('def', 'target', 'value', 'noTarget')):
            kinds, get = {}, {}
            owners = ['O%d' % i for i in range(len(chain))]
            for i, k in enumerate(chain):
                kinds['O%d' % i] = classes.get(k, (k, 'Node'))
            for x, y in zip(['def'] + owners, owners + [None]):
                get[(x, 'getOwner')] = y
            first = 'var' if how == 'target' else 'def'
            kinds['def'] = ('Definition', 'Node')
            kinds['var'] = ('Variable', 'Node')
            get[('var', 'getOwner')] = 'def'
            get[('def', 'getTarget')] = None if how == 'noTarget' else 'var'
            get[('var', 'isValueOnly')] = how == 'value'
            get['isSharedDef'] = shared

            def ref(ask):
                if how == 'value':
                    return [], 'FUNCTION'
                for i, k in enumerate(chain):
                    if k in ENDS:
                        e = ENDS[k]
                        return [], e if e.isupper() else 'GLOBAL' if shared else 'OBJECT' if e == 'type' else 'FUNCTION'
                    if k == 'Block' and i + 1 < len(chain) and chain[i + 1] in ('UseInOp', 'LinkOperator'):
                        return [], 'FUNCTION'
                return [], 'GLOBAL'
            if chain[-1:] == ('Block',):
                continue        # a block always has an owner
            table(chk, prog, 'places', H + '_getVariableDomain', 'a %s definition (%s) in %s' % ('shared' if shared else 'plain', how, ' in '.join(chain) or 'nothing'), ['self', first], ref, steps=(), get=get, kinds=kinds)
    table(chk, prog, 'places', H + '_getVariableDomain', 'an argument of a function', ['self', 'var'], lambda ask: ([], 'FUNCTION'), steps=(),
          get={('var', 'getOwner'): 'map', ('map', 'getOwner'): 'type'}, kinds={'var': ('Variable', 'Node'), 'map': ('Map', 'Node'), 'type': ('FunctionType', 'Node')})
    # modifiers
    for mods in (None, (), ('yes',), ('no',), ('no', 'yes'), ('other', 'no', 'yes'), ('other', 'no')):
        get = {('def', 'getModifiers'): 'mods' if mods is not None else None, ('self', 'getValue'): 'x'}
        kinds = {}
        for i, m in enumerate(mods or ()):
            kinds['M%d' % i] = 'Identifier' if m != 'other' else 'ParamPass'
            get[('M%d' % i, 'getValue')] = ('s', 'wanted' if m == 'yes' else 'another')
        table(chk, prog, 'modifiers', H + 'doesModifierExistOnDef', 'a definition with the modifiers (%s)' % (mods,), ['def', ('s', 'wanted')], lambda ask: ([], '1' if 'yes' in (mods or ()) else '0'), steps=(),
              get=get, kinds=kinds, lists={'mods': ['M%d' % i for i in range(len(mods or ()))]})
    for q, name in (('isSharedDef', 'shared'), ('isNoBindDef', 'no_bind')):
        table(chk, prog, 'modifiers', H + q, 'the question', ['def'], lambda ask: (['def has "%s"' % name], '1' if ask('S1') else '0'), steps=('doesModifierExistOnDef',),
              show=lambda s, o, a, node: '%s has %s' % (a[0], a[1]))
    # what a use statement can name
    lam, captured = used(prog, H + '_validateUseStatement')
    for a in seek.ACTION.values():
        for k in ('Module', 'Block') if a == 'TARGET_MATCH' else ('Module',):
            good = a == 'TARGET_MATCH' and k == 'Module'
            table(chk, prog, 'uses', lam, '%s of a %s' % (a, k), [seek.action(a), 'obj'], lambda ask: ([], 'STOP' if good else 'MOVE', {captured.split('#')[0]: '1' if good else '0'}), steps=(),
                  env={captured: FALSE}, kinds={'obj': k})
    for found in (True, False):
        def hook(w, st, s, obj, args):
            if s == 'foreach' and found:
                st.env[(0, captured)] = TRUE
        table(chk, prog, 'uses', H + '_validateUseStatement', 'a use of what is %sa module' % ('' if found else 'not '), ['self', 'bridge'],
              lambda ask: (['each target in owner'] + ([] if found else ['store.add(InvalidUseStatementNotice(loc))']), '1' if found else '0'), steps=('foreach', 'add'), hook=hook,
              get={('bridge', 'getTarget'): 'target', ('bridge', 'getOwner'): 'owner', ('self', 'getSeeker'): 'seeker', 'getNoticeStore': 'store', 'findSourceLocation': 'loc'},
              show=lambda s, o, a, node: 'each %s in %s' % (a[0], a[1]) if s == 'foreach' else '%s.%s(%s)' % (o, s, ', '.join(a)))
    # a definition merged with a template reaches the instances there are
    for body, count in itertools.product((True, False), (0, 1, 2, 3)):
        names = ['I%d' % i for i in range(count)]

        def ref(ask):
            ev = []
            if not body:
                return ['store.add(IncompatibleDefMergeNotice(findSourceLocation(src)))'], '0'
            ev.append('body.merge(src)')
            if not ask('S1'):
                return ev, '0'
            for x in names:
                ev.append('B%s.merge(clone(src,%s))' % (x, x))
                if not ask('S%d' % len(ev)):
                    return ev, '0'
            return ev, '1'
        get = {(x, 'get'): 'B' + x for x in names}
        get['clone'] = lambda o, a: el('clone(src,%s)' % ''.join(re.findall(r'I\d', str(a[1]))))
        table(chk, prog, 'merges', 'Spp::Ast::Template::merge', 'a merge with a template with %s and %d instances' % ('a body' if body else 'a body that takes nothing', count), ['src', 'seeker', 'store'], ref,
              steps=('merge', 'add'), get=get, lists={'self.instances': names}, kinds=dict({'self.body': ('Mergeable',) if body else 'Other'}, **{'B' + x: ('Mergeable',) for x in names}),
              show=lambda s, o, a, node: ('%s.merge(%s)' % (o.replace('self.', ''), a[0]) if s == 'merge' else '%s.%s(%s)' % (o, s, a[0])))
    # signatures
    F = 'Spp::Ast::FunctionType::'
    for args in (None, (), ('v',), ('p',), ('v', 'p'), ('p', 'v')):
        kinds = {'self.argTypes': 'Map' if args is not None else None}
        kinds.update({'A%d' % i: 'ArgPack' if a == 'p' else 'Variable' for i, a in enumerate(args or ())})
        L = {'self.argTypes': ['A%d' % i for i in range(len(args or ()))]}
        table(chk, prog, 'functions', F + 'isVariadic', 'the parameters (%s)' % (args,), [], lambda ask: ([], '1' if args and args[-1] == 'p' else '0'), steps=(), kinds=kinds, lists=L)
        for i in range(-1, 3):
            good = 0 <= i < len(args or ())
            table(chk, prog, 'functions', F + 'traceArgType', 'parameter %d of (%s)' % (i, args), [C(str(i)), 'helper'], lambda ask: (['traceType(A%d)' % i], 'S1') if good else ([], None), steps=('traceType',),
                  show=show, kinds=kinds, lists=L, keep=None if good else lambda o: True)
    for ret in (True, False):
        table(chk, prog, 'functions', F + 'traceRetType', 'a signature %s a result' % ('with' if ret else 'without'), ['helper'], lambda ask: (['traceType(self.retType)'], 'S1') if ret else ([], 'void'),
              steps=('traceType',), show=show, kinds={'self.retType': 'Other' if ret else None}, get={('helper', 'getVoidType'): 'void'})


def used(prog, q):
    l = seek.lambdas(prog, prog.fn(q))
    if len(l) != 1:
        raise Broken('the visitor of %s is not found' % q)
    lam = l[0][1]
    first = min(int(p['d'].split('#')[1]) for p in lam.params)
    d = {n['d'] for n in lam.nodes if n['k'] == 'DeclRefExpr' and '#' in str(n.get('d')) and int(n['d'].split('#')[1]) < first and n['t'] in ('bool', 'Bool', 'Core::Basic::Bool', 'Srl::Bool')}
    if len(d) != 1:
        raise Broken('the result of the visitor of %s is not found' % q)
    return lam, d.pop()


def statuses(chk, prog):
    """Matches are compared by how good they are."""
    Q = 'Spp::Ast::TypeMatchStatus::'
    NAMES = ('NONE', 'AGGREGATION', 'EXPLICIT_CAST', 'CUSTOM_CASTER', 'IMPLICIT_CAST', 'PROMOTION', 'REF_AGGREGATION', 'EXACT')
    levels = [int(enum(prog, Q + 'Status', x)[2]) for x in NAMES]

    def value(t, env):
        t = strip_as(t)
        if t[0] == 'f':
            return env[('self' if strip_ref(t[1])[0] == 'this' else 'v', sname(t[2]))]
        if t[0] == 'v':
            return env[t[1].split('#')[0]] if t[1].split('#')[0] in env else env['arg']
        if t[0] == 'c':
            return {'true': 1, 'false': 0}.get(t[1]) if t[1] in ('true', 'false') else int(t[1])
        if t[0] == 'enum':
            return int(t[2])
        if t[0] == 'not':
            return not value(t[1], env)
        if t[0] in ('eq', 'lt', 'and', 'or'):
            a, b = value(t[1], env), value(t[2], env)
            return a == b if t[0] == 'eq' else a < b if t[0] == 'lt' else a and b if t[0] == 'and' else a or b
        if t[0] == 'bin':
            a, b = value(t[2], env), value(t[3], env)
            return a * b if t[1] == '*' else a + b if t[1] == '+' else a - b if t[1] == '-' else a // b if t[1] == '/' and b else a << b
        raise Broken('%s is not a comparison of matches' % (t,))

    def outcome(fn, env):
        outs = [o for o in Walk(prog, Tab(WNorm(fn), ())).run(fn, state=State()) if all(bool(value(k, env)) == v for k, v in o.facts.items())]
        if len(outs) != 1:
            raise Broken('%s has no single outcome' % fn.q)
        return outs[0]
    OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b}
    for op, want in OPS.items():
        fns = [f for f in prog.fns.values() if f.q == Q + 'operator' + op]
        if len(fns) != 2:
            raise Broken('the comparisons %s of matches are not found' % op)
        for f in fns:
            chk.count('situations')
            level = f.params[0]['t'].endswith('Status::Status') or 'Status::Status' in f.params[0]['t']
            for a, b in itertools.product(itertools.product((0, 1, 2), repeat=3), repeat=2):
                env = {('self', 'value'): a[0], ('self', 'rank'): a[1], ('self', 'derefs'): a[2]}
                if level:
                    if b[1:] != (0, 0):
                        continue
                    env['arg'] = b[0]
                    x = want(a[0], b[0])
                else:
                    env.update({('v', 'value'): b[0], ('v', 'rank'): b[1], ('v', 'derefs'): b[2]})
                    x = want(a[1:], b[1:]) if op in ('==', '!=') else want(a[1], b[1])
                o = outcome(f, env)
                if bool(value(o.ret, env)) != x:
                    chk.violation('statuses', f.loc(o.node), 'a match %s %s %s is %s' % (a, op, b[0] if level else b, not x))
                    break
    # how good a match is
    ctors = {len(f.params): f for f in prog.fns.values() if f.q == Q + 'TypeMatchStatus' and f.body is not None}
    if set(ctors) - {1} != {0, 2, 3}:
        raise Broken('the constructors of TypeMatchStatus are not found')

    def rank(k, v, prev=None):
        f = ctors[k]
        chk.count('ways through')
        env = {('self', 'value'): v, ('self', 'derefs'): 0, ('v', 'rank'): prev, ('v', 'value'): 0, 'arg': v}
        o = outcome(f, env)
        r = next((y for x, y in o.state.heap.items() if x[0] == 'f' and sname(x[2]) == 'rank'), None)
        if r is None:
            chk.violation('statuses', f.loc(), 'the rank of a match is not set')
            return 0
        return value(r, env)
    one = [rank(2, v) for v in levels]
    if any(a >= b for a, b in zip(one, one[1:])) or rank(0, levels[0]) != one[0]:
        chk.violation('statuses', ctors[2].loc(), 'the ranks of the matches are %s; they must rise from %s to %s' % (one, NAMES[0], NAMES[-1]))
    two = [[rank(3, v, p) for p in one] for v in levels]
    if any(a >= b for r in two for a, b in zip(r, r[1:])) or any(max(a) >= min(b) for a, b in zip(two, two[1:])):
        chk.violation('statuses', ctors[3].loc(), 'the rank of a match after another does not rise with the match first and with the other then')
    deeper = [max(rank(3, v, p) for p in two[-1]) for v in levels]
    if any(deeper[i] >= min(two[i + 1]) for i in range(len(levels) - 1)) or max(deeper) >= 1 << 31:
        chk.violation('statuses', ctors[3].loc(), 'the rank of a match after two others passes that of a better match')
    for f in prog.fns.values():
        if f.q == Q + 'operator=' and f.body is not None:
            env = {('self', x): 0 for x in ('value', 'derefs', 'rank')}
            env.update({('v', 'value'): 5, ('v', 'derefs'): 6, ('v', 'rank'): 7, 'arg': levels[4]})
            o = outcome(f, env)
            got = {sname(k[2]): value(v, env) for k, v in o.state.heap.items() if k[0] == 'f'}
            want = {'value': levels[4], 'rank': one[4]} if 'Status::Status' in f.params[0]['t'] else {'value': 5, 'derefs': 6, 'rank': 7}
            if got != want:
                chk.violation('statuses', f.loc(), 'an assignment of a match gives %s; it must give %s' % (got, want))
    # the types that are only themselves
    for q, other in (('Spp::Ast::VoidType', True), ('Spp::Ast::UserType', False)):
        for same, void in ((True, True), (True, False), (False, True), (False, False)):
            table(chk, prog, 'identity', q + '::isIdentical', '%s %s type%s' % (q, 'the same' if same else 'another', ' that is void' if void else ''), ['type', 'helper'],
                  lambda ask: ([], '1' if same or void and other else '0'), steps=(), values={'(self==type)': same}, kinds={'type': ('VoidType',) if void else ('UserType',)})
