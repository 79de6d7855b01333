"""P19: the interface that programs have to the compiler and to their own tree."""
import glob, os
from tab import *
import seek

TITLE = 'Programs see and change their own tree exactly through the interface given'
TECHNIQUE = ('comparison of every way through the functions offered to programs with a reference, and of the declarations in the run-time library with the signatures, type '
             'names and object layouts of the classes they stand for')
NOTE = ('The comparison language of findElements is compared over every kind of element, property, text and combination; the search over every short run of answers of its '
        'visitor; the functions offered to programs over every outcome of what they call; the declarations of the run-time library (Srt) with the functions and classes of the '
        'current source. What the called parts of the compiler do is other properties.')
RULE = ('every way through a function offered to programs makes the calls, in order, with the operands, and gives the result of its reference; every function that the run-time '
        'library declares as the compiler\'s exists under that name with those parameters and that result; every type name and layout it relies on is that of the class')
RT = 'Spp::Rt::'
SX = 'Spp::SeekerExtension::'


def run(chk, prog):
    comparisons(chk, prog)
    searches(chk, prog)
    managers(chk, prog)
    forwards(chk, prog)
    declared(chk, prog)
    names(chk, prog)
    layouts(chk, prog)
    chk.floor('situations', 900)
    chk.floor('ways through', 450)
    chk.floor('ways through lookups', 600)
    chk.floor('declared functions', 55)
    chk.floor('type names', 75)
    chk.floor('layouts', 70)


# -- what an element is compared with -----------------------------------------
TYPES = {'type': 'DataType', 'صنف': 'DataType', 'function': 'Function', 'func': 'Function', 'دالة': 'Function', 'module': 'Module', 'وحدة': 'Module',
         'var': 'var', 'متغير': 'var'}
VARS = ('ParamPass', 'LinkOperator', 'Identifier', 'ThisTypeRef', 'TypeOp')


def comparisons(chk, prog):
    q = SX + '_foreach_computeComparison'
    args = ['self', 'cmp', 'elem']
    # combinations
    for op, (how, known) in {'&&': ('and', 1), 'and': ('and', 1), '||': ('or', 1), 'or': ('or', 1), '^^': (None, 0)}.items():
        def ref(ask, how=how):
            if how is None:
                return [], '0'
            ev = ['foreach_computeComparison(first, elem)']
            a = ask('S1')
            if a == (how == 'or'):
                return ev, '1' if a else '0'
            return ev + ['foreach_computeComparison(second, elem)'], '1' if ask('S2') else '0'
        table(chk, prog, 'comparisons', q, 'two conditions with %s' % op, args, ref, steps=('foreach_computeComparison',), kinds={'self': ('SeekerExtension',), 'cmp': ('LogOperator',)},
              get={('cmp', 'getType'): ('s', op), ('cmp', 'getFirst'): 'first', ('cmp', 'getSecond'): 'second'})
    # the kind of an element
    kinds = ('DataType', 'Function', 'Module', 'Template', 'Variable') + VARS
    for prop in ('elementType', 'نوع_العنصر', 'other'):
        for text, what in list(TYPES.items()) + [('other', None)]:
            for k in kinds:
                for body in ('DataType', 'Function') if k == 'Template' else ('',):
                    for op in ('==', '!=') if (prop, text) == ('elementType', 'type') else ('==',):
                        holds = prop != 'other' and op == '==' and (k in VARS if what == 'var' else what is not None and (k == what or what == 'DataType' and k == 'Template' and body == 'DataType'))
                        table(chk, prog, 'comparisons', q, '%s %s "%s" of a %s%s' % (prop, op, text, k, ' of a ' + body if body else ''), args, lambda ask, holds=holds: ([], '1' if holds else '0'),
                              steps=(), kinds={'self': ('SeekerExtension',), 'cmp': ('ComparisonOperator',), 'first': ('Identifier',), 'second': ('Text', 'StringLiteral'), 'elem': (k,), 'body': (body,)},
                              get={('cmp', 'getType'): ('s', op), ('cmp', 'getFirst'): 'first', ('cmp', 'getSecond'): 'second', ('first', 'getValue'): ('s', prop), ('second', 'getValue'): ('s', text),
                                   ('elem', 'getBody'): 'body'})
    table(chk, prog, 'comparisons', q, 'a comparison with something that is no name', args, lambda ask: ([], '0'), steps=(), kinds={'self': ('SeekerExtension',), 'cmp': ('ComparisonOperator',), 'first': ('Other',)},
          get={('cmp', 'getType'): ('s', '=='), ('cmp', 'getFirst'): 'first'})
    table(chk, prog, 'comparisons', q, 'something that is no comparison', args, lambda ask: ([], '0'), steps=(), kinds={'self': ('SeekerExtension',), 'cmp': ('Other',)})
    # the modifiers of an element
    for prop in ('modifier', 'مبدل'):
        for mods in (None, (), ('i',), ('o',), ('o', 'i'), ('p',), ('po',), ('px',), ('x', 'p'), ('o', 'po', 'i')):
            for shape in ('', 'no node', 'no definition', 'no text'):
                if shape and mods != ('i',):
                    continue
                kinds = {'self': ('SeekerExtension',), 'cmp': ('ComparisonOperator',), 'first': ('Identifier',), 'second': ('Other',) if shape == 'no text' else ('Text', 'StringLiteral'),
                         'elem': ('Other',) if shape == 'no node' else ('Node',), 'owner': ('Other',) if shape == 'no definition' else ('Definition',)}
                get = {('cmp', 'getType'): ('s', '=='), ('cmp', 'getFirst'): 'first', ('cmp', 'getSecond'): 'second', ('first', 'getValue'): ('s', prop), ('second', 'getValue'): ('s', 'shared'),
                       ('elem', 'getOwner'): 'owner', ('owner', 'getModifiers'): None if mods is None else 'mods'}
                modifiers(kinds, get, mods or ())
                holds = not shape and bool(mods) and any(m in ('i', 'p') for m in mods)
                table(chk, prog, 'comparisons', q, '%s == "shared"%s of (%s)' % (prop, ' with ' + shape if shape else '', ' '.join(mods) if mods is not None else 'nothing'), args,
                      lambda ask, holds=holds: ([], '1' if holds else '0'), steps=(), kinds=kinds, get=get, lists={'mods': ['M%d' % i for i in range(len(mods or ()))]})


def modifiers(kinds, get, mods, name='shared'):
    """i: the modifier, o: another; p, po: with parameters; px: parameters of something else; x: something else."""
    for i, m in enumerate(mods):
        x = 'M%d' % i
        kinds[x] = {'i': ('Identifier',), 'o': ('Identifier',), 'p': ('ParamPass',), 'po': ('ParamPass',), 'px': ('ParamPass',), 'x': ('Other',)}[m]
        kinds['P%d' % i] = ('Other',) if m == 'px' else ('Identifier',)
        get[(x, 'getOperand')] = 'P%d' % i
        get[('P%d' % i if m[0] == 'p' else x, 'getValue')] = ('s', name if m in 'ip' else 'other')


def searches(chk, prog):
    E = lambda *a: [None if x is None else el(x) for x in a]
    P = E(None, 'ref', 'data', 'cb', 'flags')
    compare = seek.compare
    for k in ('ComparisonOperator', 'LogOperator'):
        compare(chk, prog, SX + '_foreach', E(None, None, 'ref', 'data', 'cb', 'flags'), 'a search by ' + k, lambda ask, ev: ask('foreach_comparison(ref, data, cb, 0)'), 1, kinds={'ref': k})
    for chain in (('N0',), ('N0', 'N1', 'N2')):
        for flags in (0, 5):
            def ref(ask, ev, chain=chain, flags=flags):
                v = 'MOVE'
                for i, x in enumerate(chain):
                    if i:
                        v = ask('OWNER_SCOPE ' + x)
                        if v == 'SKIP':
                            continue
                        if v != 'MOVE':
                            return v
                    v = ask('foreach_comparisonLevel(ref, %s, cb, %d)' % (x, flags if not i else flags | 2))
                    if v == 'STOP':
                        return v
                return v
            compare(chk, prog, SX + '_foreach_comparison', E(None, 'ref', 'N0', 'cb', 'flags'), 'comparing outwards from a node with %d owners' % (len(chain) - 1), ref, 5, kinds={x: 'Node' for x in chain},
                    owners=dict(zip(chain, chain[1:] + (None,))), flags=flags)
    for stack in (('S0',), ('S0', 'S1', 'S2'), ('S0', None, 'S1')):
        def ref(ask, ev, stack=stack):
            v = 'MOVE'
            for i in reversed(range(len(stack))):
                if not stack[i]:
                    continue
                if i != len(stack) - 1:
                    v = ask('OWNER_SCOPE ' + stack[i])
                    if v == 'SKIP':
                        continue
                    if v != 'MOVE':
                        return v
                v = ask('foreach_comparisonLevel(ref, %s, cb, 0)' % stack[i])
                if v == 'STOP':
                    return v
            return v
        compare(chk, prog, SX + '_foreach_comparison', P, 'comparing through a stack of %d' % len(stack), ref, 5, kinds={'data': 'DataStack'}, items={'data': list(stack)})
    for k in ('Scope', 'DataType', 'Other'):
        for body in (True, False) if k == 'DataType' else (True,):
            compare(chk, prog, SX + '_foreach_comparisonLevel', P, 'comparing the level of a %s' % k,
                    lambda ask, ev, k=k, body=body: ask('foreach_comparisonOnScope(ref, %s, cb, 0)' % ('body' if k == 'DataType' else 'data')) if k == 'Scope' or k == 'DataType' and body else 'MOVE', 1,
                    kinds={'data': k}, values={('data', 'getBody'): 'body' if body else None})
    for defs in ((), ('m',), ('o', 'm'), ('m', 'n', 'm')):
        for br in ((), ('b',), ('l', 'b'), ('b', 'b')):
            within(chk, prog, defs, br)


class Compared(seek.Seek):
    """The outcome of the comparisons is part of the situation."""

    def step(self, name, obj):
        return sname(name) != 'foreach_computeComparison' and seek.Seek.step(self, name, obj)

    def call_value(self, w, st, name, node, obj, args):
        if sname(name) == 'foreach_computeComparison':
            return TRUE if self.values.get(('match', self.norm.t(strip_ref(args[1])))) and self.norm.t(strip_ref(args[0])) == 'ref' else FALSE
        return seek.Seek.call_value(self, w, st, name, node, obj, args)


def within(chk, prog, defs, br):
    items, kinds, values, found = {'data': []}, {}, {}, {}
    for i, d in enumerate(defs):
        items['data'].append('D%d' % i)
        kinds['D%d' % i] = 'Other' if d == 'n' else 'Definition'
        values[('D%d' % i, 'getTarget')] = 'E%d' % i
        values[('match', 'E%d' % i)] = d == 'm'
    items['data.bridges'] = []
    for i, b in enumerate(br):
        items['data.bridges'].append('B%d' % i)
        values[('B%d' % i, 'getTarget')] = 'to%d' % i
        if b == 'b':
            found['to%d' % i] = 'U%d' % i

    class Open_(Exception):
        pass

    def ref(ask, ev):
        v = 'MOVE'
        for i, d in enumerate(defs):
            if d == 'n':
                continue
            if d == 'm':
                v = ask('TARGET_MATCH E%d' % i)
                if v == 'STOP':
                    return v
            v = ask('CHILD_SCOPE E%d' % i)
            if v in ('STOP', 'SKIP_GROUP'):
                raise Open_      # not defined for children
            if v != 'SKIP':
                v = ask('foreach_comparisonLevel(ref, E%d, cb, 0)' % i)
            if v == 'STOP':
                return v
        if br:
            v = ask('USE_SCOPES_START data')
            if v == 'SKIP':
                return v
            for i, b in enumerate(br):
                ev.append('find to%d from data with 12' % i)
                if b == 'l':
                    continue
                v = ask('USE_SCOPE U%d' % i)
                if v == 'SKIP':
                    continue
                if v != 'MOVE':
                    break
                v = ask('foreach_comparisonLevel(ref, U%d, cb, 0)' % i)
                if v == 'STOP':
                    return v
            v = ask('USE_SCOPES_END data')
        return v
    for a in seek.answers(6):
        try:
            it = iter(a)
            ref(lambda t: next(it, 'MOVE'), [])
        except Open_:
            continue
        seek.compare(chk, prog, SX + '_foreach_comparisonOnScope', [None] + [el(x) for x in ('ref', 'data', 'cb', 'flags')], 'comparing in a scope with (%s)%s' % (
            ' '.join({'m': 'match', 'o': 'other', 'n': 'no definition'}[d] for d in defs), ' and %d bridges' % len(br) if br else ''), ref, 0, only=[a], cls=Compared,
            kinds=kinds, values=values, items=items, found=found)


# -- the functions of Spp.astMgr, Spp.buildMgr and Spp.grammarMgr -----------------
def managers(chk, prog):
    A = RT + 'AstMgr::'
    base = {('self', x): x for x in ('rootManager', 'astProcessor', 'astHelper', 'expressionComputation')}
    base.update({'findSourceLocation': lambda o, a: el('loc(%s)' % a[0][1]) if a and a[0][0] == 'el' else None, 'getNoticeStore': 'store'})

    def t(fn, what, args, ref, steps, **kw):
        kw.setdefault('get', {}).update({k: v for k, v in base.items() if k not in kw['get']})
        kw.setdefault('whole', tuple('Core::Basic::%sArrayWrapperContainer%s' % (x, y) for x in ('Plain', 'Shared') for y in ('', '<Core::Basic::TiObject>')))
        kw.setdefault('kinds', {}).setdefault('self', ('AstMgr', 'BuildMgr', 'GrammarMgr'))
        table(chk, prog, 'managers', A + fn if '::' not in fn else RT + fn, what, args, ref, steps=steps, show=kw.pop('show', shows), **kw)

    # searches
    for kind, n in (('Other', 0), ('Scope', 1), ('Scope', 0), ('Scope', 2)):
        for target in (True, False):
            ok = kind == 'Other' or n == 1
            t('_findElements', 'finding by a %s of %d %s' % (kind, n, 'in something' if target else 'anywhere'), ['self', 'ref', 'target' if target else False, 'flags'],
              lambda ask, kind=kind, target=target: (['extForeach(%s, %s, flags)' % ('only' if kind == 'Scope' else 'ref', 'target' if target else 'root')], None), ('extForeach',),
              kinds={'ref': (kind,)}, lists={'ref': ['only', 'second'][:n]}, get={'getRootScope': 'root'}, keep=(lambda o: o.kind != 'throw') if ok else (lambda o: o.kind == 'throw') if False else None) if ok else None
    lam = seek.lambdas(prog, prog.fn(A + '_findElements'))
    if len(lam) != 1:
        raise Broken('the visitor of findElements is not found')
    lam = lam[0][1]
    for a in list(seek.ACTION.values()):
        for there in (True, False):
            table(chk, prog, 'managers', lam, 'what findElements takes on %s%s' % (a, '' if there else ' of nothing'), [seek.action(a), el('obj') if there else ZERO],
                  lambda ask, a=a, there=there: (['add(obj)'] if a == 'TARGET_MATCH' and there else [], 'MOVE'), steps=('add',),
                  ret=lambda r, w, o: next((k for k, v in seek.VERB.items() if w.norm.t(r) in (k, v)), w.norm.t(r)))
    # modifiers
    for owner in (None, 'def'):
        for mods in (None, 0, 2):
            if owner is None and mods != 2:
                continue
            t('_getModifiers', 'the modifiers of an element (%s, %s)' % (owner, mods), ['self', 'elem'], lambda ask, owner=owner, mods=mods: ([], 'mods' if owner and mods else '0'), (),
              kinds={'elem': ('Node',)}, get={'findOwner': owner, ('def', 'getModifiers'): None if mods is None else 'mods', ('mods', 'getCount'): C(str(mods)), ('mods', 'getElementCount'): C(str(mods))})
    for l in ((), ('M0',), ('M0', 'M1'), (None, 'M1'), ('M0', 'M1', 'M2')):
        for hit in range(len(l) + 1):
            kw = {('self', 'getModifierKeyword', x): ('s', 'kwd' if i == hit else 'not') for i, x in enumerate(l) if x}
            kw.update({('self', '_getModifierKeyword', x): ('s', 'kwd' if i == hit else 'not') for i, x in enumerate(l) if x})
            kw.update({('self', 'getModifierKeyword', 'self', x): v for (o, s, x), v in list(kw.items()) if s == 'getModifierKeyword'})
            end = l[hit] if hit < len(l) and l[hit] else '0'
            t('_findModifier', 'the modifier at %d of %d' % (hit, len(l)), ['self', 'mods', ('s', 'kwd')], lambda ask, end=end: ([], end), (), get=kw, lists={'mods': [el(x) if x else ZERO for x in l]})
    for mods in (None, 'mods'):
        t('_findModifierForElement', 'a modifier of an element (%s)' % mods, ['self', 'elem', 'kwd'], lambda ask, mods=mods: ([] if mods is None else ['findModifier(mods, kwd)'], '0' if mods is None else 'S1'),
          ('findModifier',), get={'getModifiers': mods})
    for kind, operand in (('Identifier', ''), ('ParamPass', 'Identifier'), ('ParamPass', 'Other'), ('Other', '')):
        t('_getModifierKeyword', 'the keyword of a %s of a %s' % (kind, operand), ['self', 'mod'],
          lambda ask, kind=kind, operand=operand: ([], 'value(mod)' if kind == 'Identifier' else 'value(operand)' if operand == 'Identifier' else ''), (),
          kinds={'mod': (kind,), 'operand': (operand,)}, get={('mod', 'getOperand'): 'operand', ('mod', 'getValue'): 'value(mod)', ('operand', 'getValue'): 'value(operand)', ('value(mod)', 'getStr'): 'value(mod)',
                                                             ('value(operand)', 'getStr'): 'value(operand)'}, ret=text)
    for kind, params in (('ParamPass', 0), ('ParamPass', 1), ('ParamPass', 3), ('ParamPass', None), ('Other', None)):
        t('_getModifierParams', 'the parameters of a %s with %s' % (kind, params), ['self', 'mod', 'result'],
          lambda ask, kind=kind, params=params: ([] if kind == 'Other' else ['result.add(param)'] if params is None else ['result.add(E%d)' % i for i in range(params)], '1'), ('add',),
          kinds={'mod': (kind,), 'param': ('Containing',) if params is not None else ('Other',)}, get={('mod', 'getParam'): 'param'}, lists={'param': ['E%d' % i for i in range(params or 0)]})
    for kind, l in (('Other', ''), ('ParamPass', ''), ('ParamPass', 's'), ('ParamPass', 'ss'), ('ParamPass', 'so'), ('ParamPass', 'os'), ('ParamPass', 'sos')):
        def ref(ask, kind=kind, l=l):
            if kind == 'Other':
                return [], '1'
            ev = []
            for i, c in enumerate(l):
                if c == 'o':
                    return ev + ['store.add(InvalidModifierDataNotice(loc(E%d)))' % i, 'flushNotices()'], '0'
                ev.append('result.add(value(E%d))' % i)
            return ev, '1'
        t('_getModifierStringParams', 'the texts of a %s with (%s)' % (kind, l), ['self', 'mod', 'result'], ref, ('add', 'flushNotices'),
          kinds=dict({'mod': (kind,), 'param': ('Containing',)}, **{'E%d' % i: ('StringLiteral',) if c == 's' else ('Other',) for i, c in enumerate(l)}), lists={'param': ['E%d' % i for i in range(len(l))]},
          get={**{('mod', 'getParam'): 'param'}, **{('E%d' % i, 'getValue'): 'value(E%d)' % i for i in range(len(l))}})
    # inserting and building
    for fn, plain in (('_insertAst_plain', True), ('_insertAst_shared', False)):
        t(fn, 'inserting (%s)' % fn, ['self', 'ast', 'map'], lambda ask: (['insertInterpolatedAst(ast, names, values)', 'flushNotices()'], 'S1'), ('insertInterpolatedAst', 'flushNotices'),
          get={('map', 'getKeys'): 'names', ('map', 'getValues'): 'values'}, show=wrapped('Plain' if plain else 'Shared'))
    t('_insertAst', 'inserting as it is', ['self', 'ast'], lambda ask: (['insertInterpolatedAst(ast, _, _)', 'flushNotices()'], 'S1'), ('insertInterpolatedAst', 'flushNotices'), show=wrapped('Plain'))
    for fn, plain in (('_buildAst_plain', True), ('_buildAst_shared', False)):
        t(fn, 'building (%s)' % fn, ['self', 'ast', 'map', 'result'], lambda ask: (['interpolateAst(ast, names, values, loc(ast), result)', 'flushNotices()'], 'S1'), ('interpolateAst', 'flushNotices'),
          get={('map', 'getKeys'): 'names', ('map', 'getValues'): 'values'}, show=wrapped('Plain' if plain else 'Shared'))
    # what is handed on
    on = lambda call, end='S1': (lambda ask: (call if isinstance(call, list) else [call], end))
    for fn, args, call in (('_getCurrentPreprocessOwner', [], 'getCurrentPreprocessOwner()'), ('_getCurrentPreprocessInsertionPosition', [], 'getCurrentPreprocessInsertionPosition()'),
                           ('_getVariableDomain', ['ast'], 'getVariableDomain(ast)'), ('_traceType', ['ast'], 'traceType(ast, 0)'), ('_isCastableTo', ['src', 'dst', 'implicit'], 'isCastableTo(src, dst, implicit)'),
                           ('_matchTemplateInstance', ['tmplt', 'inputs', 'result'], 'matchInstance(inputs, self.astHelper, result)'), ('_computeResultType', ['ast', 'result', 'isValue'], 'computeResultType(ast, result, isValue)'),
                           ('_cloneAst', ['ast', 'from'], 'clone(ast, loc(from))'), ('_getReferenceTypeFor', ['type'], 'getReferenceTypeFor(type, EXPLICIT)'),
                           ('_tryGetDeepReferenceContentType', ['type'], 'tryGetDeepReferenceContentType(type)')):
        short = call.split('(')[0]
        t(fn, fn[1:], ['self'] + args, on(call), (short,), clears=(('x', 0),))
    t('_dumpData', 'dumping', ['self', 'obj'], lambda ask: (['dumpData(obj, 0)'], None), ('dumpData',), show=lambda s, o, a, n: 'dumpData(%s)' % ', '.join(a[1:]))
    for k in ('Definition', 'owned', 'unowned', 'Other'):
        t('_isInjection', 'an injection (%s)' % k, ['self', 'obj'], lambda ask, k=k: (['isInjection(%s)' % ('obj' if k == 'Definition' else 'owner')], 'S1') if k in ('Definition', 'owned') else ([], '0'), ('isInjection',),
          kinds={'obj': ('Definition', 'Node') if k == 'Definition' else ('Other',) if k == 'Other' else ('Node',), 'owner': ('Definition',) if k == 'owned' else ('Other',)}, get={('obj', 'getOwner'): 'owner'})
    for k in ('SourceLocationRecord', 'SourceLocationStack'):
        table(chk, prog, 'managers', A + '_getSourceFullPathForElement', 'the file of an element at a %s' % k, ['self', 'elem'],
              lambda ask, k=k: ([], 'loc.filename' if k == 'SourceLocationRecord' else 'top.filename'), steps=(), kinds={'loc': (k,)}, get={'findSourceLocation': 'loc'}, lists={'loc': ['top', 'deeper']}, ret=text)
    # the other managers
    t('BuildMgr::_dumpLlvmIrForElement', 'dumping code', ['self', 'elem'], on('dumpLlvmIrForElement(elem)', None), ('dumpLlvmIrForElement',), get={('self', 'buildManager'): 'bm'})
    t('BuildMgr::_buildObjectFileForElement', 'writing an object file', ['self', 'elem', 'file', 'triple'], on('buildObjectFileForElement(elem, file, triple)'), ('buildObjectFileForElement',))
    t('BuildMgr::_raiseBuildNotice', 'raising a notice', ['self', 'code', 'severity', 'ast'], on(['store.add(GenericNotice(code,severity,loc(ast)))', 'flushNotices()'], None), ('add', 'flushNotices'))
    t('GrammarMgr::_addCustomCommand', 'adding a command', ['self', 'qualifier', 'ast', 'func'], on(['createCustomCommand(qualifier, ast, func, store)', 'flushNotices()'], None), ('createCustomCommand', 'flushNotices'))
    t('GrammarMgr::_addCustomGrammar', 'adding a grammar', ['self', 'qualifier', 'base', 'ast'], on(['createCustomGrammar(qualifier, base, ast, store)', 'flushNotices()']), ('createCustomGrammar', 'flushNotices'))


def shows(s, o, a, node):
    if s == 'add':
        return '%s.add(%s)' % (o, ', '.join(a))
    if s == 'extForeach':
        return 'extForeach(%s)' % ', '.join(x for x in a if x != '_')
    return '%s(%s)' % (s, ', '.join(re.sub(r',(?! )', ', ', re.sub(r'.*::', '', x)) for x in a))


def wrapped(kind):
    def show(s, o, a, node):
        r = []
        for x in a:
            x = re.sub(r'^&', '', x)
            m = re.match(r'(?:new |)(Plain|Shared)ArrayWrapperContainer(?:<.*>)?\(&?(.*)\)$', x)
            if m:
                x = m.group(2) if m.group(1) == kind else x
            r.append(x)
        return '%s(%s)' % (s, ', '.join(r))
    return show


def text(r, w, o):
    t = unwrap(r)
    while t[0] in ('new', 'obj') and t[2] and not isinstance(t[2][0], str):
        t = unwrap(t[2][-1])
    return w.norm.t(strip_ref(t)) if t[0] not in ('new', 'obj') else ''


# -- the functions that only hand on ----------------------------------------------
FORWARDS = {'TiObject_getMyTypeInfo': 0, 'TiObject_isDerivedFrom': 0, 'TiObject_getInterface': 0, 'TiInterface_getMyInterfaceInfo': 0, 'TiInterface_getTiObject': 0,
            'Binding_setMemberByName': 'setMember', 'Binding_setMemberByIndex': 'setMember', 'Binding_getMemberCount': 0, 'Binding_getMemberByName': 'getMember', 'Binding_getMemberByIndex': 'getMember',
            'Binding_getMemberNeededTypeByName': 'getMemberNeededType', 'Binding_getMemberNeededTypeByIndex': 'getMemberNeededType', 'Binding_getMemberKey': 0, 'Binding_findMemberIndex': 0,
            'DynamicMapContaining_removeElementByIndex': 'removeElement', 'DynamicMapContaining_removeElementByKey': 'removeElement'}
for c, l in {'Containing': ('setElement', 'getElementCount', 'getElement', 'getElementNeededType'), 'DynamicContaining': ('addElement', 'insertElement', 'removeElement', 'getElementsNeededType'),
             'MapContaining': ('setElement', 'getElement', 'getElementNeededType', 'getElementKey', 'findElementIndex'), 'DynamicMapContaining': ('addElement', 'insertElement', 'getElementsNeededType')}.items():
    for m in l:
        FORWARDS['%s_%s' % (c, m)] = 0


def forwards(chk, prog):
    for name, target in FORWARDS.items():
        target = target or name.split('_')[1]
        fn = prog.fn(name)
        pars = [p['d'].split('#')[0] for p in fn.params]
        key = name.endswith('Key')
        table(chk, prog, 'forwards', fn, name, list(pars), lambda ask: (['%s.%s(%s)' % (pars[0], target, ', '.join(pars[1:]))], None if fn.o['ret'] == 'void' else 'S1'), steps=(target,),
              show=lambda s, o, a, n: '%s.%s(%s)' % (o, s, ', '.join(a)), get={('S1', 'getBuf'): ('val', 'S1')}, ret=text if key else None)
    table(chk, prog, 'forwards', 'getFromGlobalStorage', 'what is kept under a name', ['name'], lambda ask: (['getObject(name)'], 'S1'), steps=('getObject',))
    table(chk, prog, 'forwards', 'addLocalization', 'a translation', ['locale', 'key', 'value'], lambda ask: (['addEntry(locale, key, value)'], None), steps=('addEntry',))


# -- what the run-time library declares ---------------------------------------------
def sources(prog):
    root = os.path.join(os.environ.get('VP_REPO', '/repo'), 'Sources/Srt')
    r = []
    for f in ('Core.alusus', 'Core/Basic.alusus', 'Core/Data.alusus', 'Spp.alusus', 'Spp/Ast.alusus'):
        p = os.path.join(root, f)
        if not os.path.exists(p):
            raise Broken('%s is not found' % p)
        s = open(p, encoding='utf8').read()
        s = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group()), s) if False else strip_comments(s)
        r.append(('Sources/Srt/' + f, s))
    return r


def strip_comments(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '"':
            j = s.index('"', i + 1) + 1
            out.append(s[i:j])
        elif s.startswith('/*', i):
            j = s.index('*/', i) + 2
            out.append(re.sub(r'[^\n]', ' ', s[i:j]))
        elif s.startswith('//', i):
            j = s.find('\n', i)
            j = len(s) if j < 0 else j
            out.append(' ' * (j - i))
        else:
            j = i + 1
            out.append(s[i])
        i = j
    return ''.join(out)


def closing(s, i):
    """The end of the bracket that starts at i."""
    d = 0
    for j in range(i, len(s)):
        if s[j] in '([{':
            d += 1
        elif s[j] in ')]}':
            d -= 1
            if not d:
                return j
    raise Broken('unbalanced brackets in the run-time library')


def split(s):
    r, d, cur = [], 0, ''
    for c in s:
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if c == ',' and not d:
            r.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        r.append(cur.strip())
    return r


def enclosing(s, pos):
    """Names of the classes and modules around a position, outermost first."""
    r = []
    for m in re.finditer(r'(?:class|module)\s+(\w+)\s*\{', s):
        if m.start() < pos < closing(s, m.end() - 1):
            r.append(m.group(1))
    return r


CHAR = ('Char', 'Word[8]')


def asrc(t):
    """A type as the run-time library writes it, in a common form."""
    t = t.strip()
    if t in ('', 'Void'):
        return 'void'
    if t == 'CharsPtr':
        return 'char*'
    if t == 'ptr':
        return 'void*'
    m = re.match(r'([\w.]+)\s*(?:\[(.*)\])?$', t, re.S)
    if not m:
        return '?' + t
    n, a = m.group(1).split('.')[-1], m.group(2)
    if n in ('ref', 'ptr'):
        if re.match(r'\s*func(tion)?\b', a):
            return 'function*'
        return asrc(a) + '*'
    if n == 'array':
        return asrc(split(a)[0])
    if t in CHAR:
        return 'char'
    if (n, a) == ('Word', '1') or n == 'Bool':
        return 'bool'
    if n in ('Int', 'Word', 'ArchInt', 'ArchWord') and a is None:
        return {'Int': 'int', 'Word': 'word', 'ArchInt': 'long', 'ArchWord': 'ulong'}[n]
    if n == 'String':
        return 'string'
    if n in ('Array', 'SrdRef', 'Map'):
        return '%s<%s>' % (n, ','.join(asrc(x) for x in split(a)))
    return n


def csrc(t):
    """A type of the compiler in the same form."""
    t = re.sub(r'\bconst\b', '', t).strip()
    t = re.sub(r'\s+', ' ', t)
    if '(*)' in t:
        return 'function*'
    if t.endswith(('*', '&')):
        return csrc(t[:-1]) + '*'
    x = {'int': 'int', 'unsigned int': 'word', 'bool': 'bool', 'long': 'long', 'unsigned long': 'ulong', 'char': 'char', 'void': 'void', 'Srl::StringBase<char>': 'string', 'Core::Basic::Str': 'string'}
    if t in x:
        return x[t]
    m = re.match(r'([\w:]+)<(.*)>$', t)
    if m:
        n = m.group(1).split('::')[-1]
        if n in ('Array', 'Map', 'SharedPtr', 'SrdRef'):
            d, cur, l = 0, '', []
            for c in m.group(2):
                d += (c == '<') - (c == '>')
                if c == ',' and not d:
                    l.append(cur)
                    cur = ''
                else:
                    cur += c
            return '%s<%s>' % ('SrdRef' if n == 'SharedPtr' else n, ','.join(csrc(x) for x in l + [cur]))
        if n == 'ExtendedTypeInfo':
            return 'TypeInfo'
        return n
    return t.split('::')[-1]


def agree(prog, a, c, result=False):
    if a == c:
        return True
    if a == 'void' and result and c in ('bool', 'int', 'word'):
        return True        # the result is not used
    if a.endswith('*') and c.endswith('*'):
        x, y = a[:-1], c[:-1]
        if 'void' in (x, y) and not x.endswith('*') and not y.endswith('*'):
            return True
        ti = lambda n: any('Core::Basic::TiObject' in prog.bases(k) | {k} for k in prog.classes if k.split('<')[0].split('::')[-1] == n)
        return 'TiObject' in (x, y) and ti(x) and ti(y)
    return False


def provided(prog):
    """The functions and variables that programs are given by name."""
    r = {}
    for f in prog.fns.values():
        if f.q == f.n and 'interop' in f.f:
            r[f.n] = (f, f)
        if '/Tests/' in f.f:
            continue
        for i, n in f.all_nodes():
            if n['k'] == 'MCall' and n.get('n') == 'addItem' and len(n['c']) in (3, 4):
                lit = [x for _, x in f.walk(n['c'][1]) if x['k'] == 'StringLiteral']
                if not lit:
                    continue
                fs = [x for _, x in f.walk(n['c'][-1]) if x['k'] == 'DeclRefExpr']
                if lit[0]['v'] in r:
                    r[lit[0]['v']] = ('twice', f, i)
                    continue
                if len(n['c']) == 3:
                    g = [prog.fns.get(x['u']) for x in fs if x.get('dk') == 'func']
                    r[lit[0]['v']] = (g[0] if len(g) == 1 else None, f, i)
                else:
                    r[lit[0]['v']] = ('variable', f, i, fs[0]['d'].split('#')[0] if len(fs) == 1 else None, n)
    return r


def declared(chk, prog):
    have = provided(prog)
    seen = {}
    for f, s in sources(prog):
        for m in re.finditer(r'@expname\[(\w+)\]\s*(handler\s+this\.\w+|func\s+\w+|function\s+\w+)\s*(?=\()', s):
            chk.count('declared functions')
            name = m.group(1)
            line = s.count('\n', 0, m.start()) + 1
            loc = '%s:%d' % (f, line)
            j = closing(s, m.end())
            pars = [re.sub(r'^\s*\w+\s*:\s*', '', p) for p in split(s[m.end() + 1:j])]
            rest = s[j + 1:]
            r = re.match(r'\s*(?::|=>)\s*([^;{]*)', rest)
            ret = r.group(1).strip() if r else ''
            x = have.get(name)
            if x is None or not hasattr(x[0], 'params'):
                chk.violation('declared:' + name, loc, 'the run-time library declares %s, which the compiler does not provide%s' % (name, ' once' if x else ''))
                continue
            fn = x[0]
            want = [asrc(p) for p in pars]
            if m.group(2).startswith('handler'):
                want.insert(0, enclosing(s, m.start())[-1] + '*')
            got = [csrc(p['t']) for p in fn.params]
            if len(want) != len(got):
                chk.violation('declared:' + name, fn.loc(), '%s has %d parameters here; %s declares %d' % (name, len(got), loc, len(want)))
                continue
            for i, (a, c) in enumerate(zip(want, got)):
                if not (agree(prog, a, c) or i == 0 and m.group(2).startswith('handler') and c in ('TiObject*', a)):
                    chk.violation('declared:' + name, fn.loc(), 'parameter %d of %s is %s here; %s declares %s' % (i + 1, name, c, loc, a))
            a, c = asrc(ret), csrc(fn.o['ret'])
            if not agree(prog, a, c, True):
                chk.violation('declared:' + name, fn.loc(), '%s gives %s here; %s declares %s' % (name, c, loc, a))
            # the same name must stand for the operation of that name
            op = re.sub(r'.*[.\s]', '', m.group(2))
            cn = fn.n.lstrip('_')
            if hasattr(fn, 'cls') and '::' in fn.q and not cn.split('_')[0] == op.lstrip('_'):
                chk.violation('declared:' + name, fn.loc(), '%s is %s here; %s declares %s' % (name, fn.q, loc, op))
            seen[name] = 1
    # variables
    decl = {}
    for f, s in sources(prog):
        for m in re.finditer(r'\bdef\s+(\w+)\s*:\s*([^;=({]*)', s):
            e = enclosing(s, m.start())
            decl['.'.join(e + [m.group(1)])] = (m.group(2).strip(), f)
    for k, x in sorted(have.items()):
        if not k.startswith('!') or k.startswith('!Process.'):
            continue
        chk.count('declared variables')
        t = decl.get(k[1:])
        if t is None:
            chk.violation('declared:' + k, x[1].loc(x[2]), '%s is declared nowhere in the run-time library' % k)
        elif x[0] != 'variable':
            chk.violation('declared:' + k, x[1].loc(x[2]), '%s is given twice' % k)
        elif not t[0].startswith(('ref', 'ptr')):
            chk.violation('declared:' + k, x[1].loc(x[2]), '%s is declared as %s, which is no pointer' % (k, t[0]))
        else:
            v = x[3]
            want = k.split('.')[-1]
            ty = next((p['t'] for p in x[1].params if p['d'].split('#')[0] == v), '')
            if want.lower() not in (str(v).lower(), csrc(ty)[:-1].lower()):
                chk.violation('declared:' + k, x[1].loc(x[2]), '%s gets the value of %s' % (k, v))
    # every function that is given is given once, under the name of its operation
    for k, x in sorted(have.items()):
        if x[0] == 'twice':
            chk.violation('declared:' + k, x[1].loc(x[2]), '%s is given twice' % k)


# -- names of types ------------------------------------------------------------------
def type_names(prog):
    """class -> the name its type information is kept under"""
    r = {}
    for f in prog.fns.values():
        if f.n == 'getTypeInfo' and f.cls and '/Tests/' not in f.f:
            l = [n['v'] for n in f.nodes if n['k'] == 'StringLiteral']
            full = [v for v in l if v.startswith('alusus.org/')]
            if full:
                r.setdefault(f.q.rsplit('::', 1)[0], set()).add((full[0], tuple(l)))
    return r


def names(chk, prog):
    known = type_names(prog)
    exact = {v: c for c, l in known.items() for v, _ in l if not v.endswith('.')}
    open_ = {v + (l[0] if l[0] != v else ''): c for c, x in known.items() for v, l in x if v.endswith('.')}
    for f, s in sources(prog):
        for m in re.finditer(r'(\w+)\[([^"\[\]]*)"(alusus\.org/[^"]*)"\]', s):
            chk.count('type names')
            name = m.group(3)
            loc = '%s:%d' % (f, s.count('\n', 0, m.start()) + 1)
            base = name.split('<')[0]
            cls = exact.get(name) if '<' not in name else open_.get(base)
            if cls is None:
                chk.violation('names:' + name, loc, 'no class keeps its type information under "%s"' % name)
                continue
            label = m.group(2).split(',')[0].strip()
            if label and m.group(1) == 'defAstType' or m.group(1) == 'defTextAstType':
                if cls.split('::')[-1] != label or cls.replace('::', '.') != name.split('/')[-1]:
                    chk.violation('names:' + name, loc, '%s is given the type information of %s' % (label, cls))
            elif not label:
                e = enclosing(s, m.start())
                if e and e[-1] != cls.split('::')[-1]:
                    chk.violation('names:' + name, loc, '%s is given the type information of %s' % (e[-1], cls))


# -- layouts -----------------------------------------------------------------------------
def first_bases(prog, q):
    r = [q]
    while q in prog.classes and prog.classes[q]['bases']:
        x = prog.classes[q]['bases'][0]
        if '<' in x['t'] and 'type-parameter' in prog.classes.get(x.get('q'), {'bases': [{'t': ''}]})['bases'][0]['t']:
            x = {'q': split(x['t'][x['t'].index('<') + 1:x['t'].rindex('>')])[-1].strip()}
        q = x.get('q')
        r.append(q)
    return r


def fields(s, at):
    """The fields that a class declares before anything else, in order."""
    j = closing(s, at)
    d, r = 0, []
    for m in re.finditer(r'[{}]|(@injection\s+)?\bdef\s+(\w+)\s*:\s*([^;{}]*);', s[at:j + 1]):
        if m.group() == '{':
            d += 1
        elif m.group() == '}':
            d -= 1
        elif d == 1:
            r.append((m.group(2), m.group(3).strip()))
    return r


def layouts(chk, prog):
    B = 'Core::Basic::'
    src = dict(sources(prog))
    basic, data, ast = (src['Sources/Srt/' + x] for x in ('Core/Basic.alusus', 'Core/Data.alusus', 'Spp/Ast.alusus'))

    def body(s, what, name):
        m = re.search(r'%s\s+%s\s*(\[[^\]]*\])?\s*\{' % (what, name), s)
        if not m:
            raise Broken('%s %s is not found in the run-time library' % (what, name))
        return m.end() - 1

    def bad(key, cls, msg):
        c = prog.classes.get(cls)
        chk.violation('layout:' + key, '%s:%s' % (c['f'].replace('/repo/', ''), c['l']) if c else '?', msg)

    def cls(q):
        if q not in prog.classes:
            raise Broken('class %s is not found' % q)
        return prog.classes[q]
    # TiObject, TiInterface, Node
    o = cls(B + 'TiObject')
    f = fields(basic, body(basic, 'class', 'TiObject'))
    chk.count('layouts')
    if [x for x, _ in f] != ['vtable', 'wkThis'] or [x['n'] for x in o['fields']] != ['wkThis'] or o['offs'] != [8] or o['bases'] or 'WkRef' not in o['fields'][0]['t'] or not f[1][1].startswith('WkRef'):
        bad('TiObject', B + 'TiObject', 'objects have (table, %s) here; the run-time library has (%s)' % (', '.join(x['n'] for x in o['fields']), ', '.join(x for x, _ in f)))
    chk.count('layouts')
    i = cls(B + 'TiInterface')
    f = fields(basic, body(basic, 'class', 'TiInterface'))
    if [x for x, _ in f] != ['vtable'] or i['size'] != 8 or i['bases']:
        bad('TiInterface', B + 'TiInterface', 'interfaces are more than a table of functions')
    chk.count('layouts')
    n = cls('Core::Data::Node')
    f = fields(data, body(data, 'class', 'Node'))
    if [x for x, _ in f] != ['tiObject', 'owner'] or [b['q'] for b in n['bases']] != [B + 'TiObject'] or [x['n'] for x in n['fields']] != ['owner'] or n['offs'] != [o['size']]:
        bad('Node', 'Core::Data::Node', 'a node is (%s; %s) here; the run-time library has (%s)' % (', '.join(sname(b['q']) for b in n['bases']), ', '.join(x['n'] for x in n['fields']), ', '.join(x for x, _ in f)))
    # type information
    t = cls(B + 'TypeInfo')
    x = next((c for q, c in prog.classes.items() if q.startswith(B + 'ExtendedTypeInfo<' + B + 'TiObjectFactory')), None)
    if x is None:
        raise Broken('the type information of objects is not found')
    f = fields(basic, body(basic, 'class', 'TypeInfo'))
    got = [y['n'] for y in t['fields']] + ['objectFactory' if y['n'] == 'factory' else y['n'] for y in x['fields']]
    chk.count('layouts')
    size = {'String': 16}
    if got != [y for y, _ in f] or t['offs'] != [16 * k for k in range(len(t['offs']))] or t['bases']:
        bad('TypeInfo', B + 'TypeInfo', 'type information is (%s) here; the run-time library has (%s)' % (', '.join(got), ', '.join(y for y, _ in f)))
    fac = cls(B + 'TiObjectFactory')
    f = fields(basic, body(basic, 'class', 'TiObjectFactory'))
    roles = {'plainCreateFunc': 'createPlain', 'sharedCreateFunc': 'createShared', 'initPreallocatedFunc': 'initialize', 'terminationFunc': 'terminate', 'sizeFunc': 'getSize'}
    chk.count('layouts')
    got = [roles.get(y['n'], y['n']) for y in fac['fields']]
    if got != [y for y, _ in f] or fac['offs'] != [8 * k for k in range(len(got))] or fac['bases']:
        bad('TiObjectFactory', B + 'TiObjectFactory', 'a factory is (%s) here; the run-time library has (%s)' % (', '.join(got), ', '.join(y for y, _ in f)))
    # interfaces are reached as they are
    for q in ('Binding', 'Containing<%sTiObject>' % B, 'DynamicContaining<%sTiObject>' % B, 'MapContaining<%sTiObject>' % B, 'DynamicMapContaining<%sTiObject>' % B):
        chk.count('layouts')
        c = next((x for k, x in sorted(prog.classes.items()) if k.startswith(B + q.split('<')[0]) and k[len(B + q.split('<')[0]):][:1] in ('', '<') and x.get('size')), None) or cls(B + q)
        want = {'Binding': 'TiInterface', 'Containing': 'TiInterface', 'DynamicContaining': 'Containing', 'MapContaining': 'Containing', 'DynamicMapContaining': 'MapContaining'}[q.split('<')[0]]
        f = fields(basic, body(basic, 'class', q.split('<')[0]))
        if [sname(b['q'].split('<')[0]) for b in c['bases']] != [want] or c['size'] != 8 or [y.split('.')[-1] for _, y in f] != [want]:
            bad(q, B + q, '%s is a %s here; the run-time library has %s' % (q, ', '.join(sname(b['q'].split('<')[0]) for b in c['bases']), ', '.join(y for _, y in f)))
    # texts
    f = fields(data, body(data, 'macro', 'defTextAstType') if re.search(r'macro\s+defTextAstType', data) else 0)
    m = re.search(r'macro\s+defTextAstType\s*\[[^\]]*\]\s*\{\s*class\s+\w+\s*(?=\{)', data)
    if not m:
        raise Broken('the text classes of the run-time library are not found')
    f = fields(data, m.end())
    tx = cls('Core::Data::Ast::Text')
    got = [sname(b['q'])[0].lower() + sname(b['q'])[1:] for b in tx['bases']] + [tx['fields'][0]['n']]
    chk.count('layouts')
    if got != [y for y, _ in f] or 'TiStrBase' not in tx['fields'][0]['t'] or tx['offs'][0] != n['size'] + 8 * (len(tx['bases']) - 1):
        bad('Text', 'Core::Data::Ast::Text', 'a text is (%s) here; the run-time library has (%s)' % (', '.join(got), ', '.join(y for y, _ in f)))
    exact = {v: c for c, l in type_names(prog).items() for v, _ in l if not v.endswith('.')}
    for s in (data, ast):
        for m in re.finditer(r'\b(defAstType|defTextAstType)\[\s*(\w+)\s*,\s*"([^"]*)"\]', s):
            q = exact.get(m.group(3))
            if q is None or q not in prog.classes:
                continue
            chk.count('layouts')
            ch = first_bases(prog, q)
            need = 'Core::Data::Ast::Text' if m.group(1) == 'defTextAstType' else 'Core::Data::Node'
            if need not in ch:
                bad(m.group(2), q, '%s does not start with a %s, as the run-time library has it' % (q, sname(need)))
    # TiStr and the other boxes: the value follows the object
