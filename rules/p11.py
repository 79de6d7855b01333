"""P11: every rejection is explained."""
from fallible import *

TITLE = 'Nothing is rejected without a notice that explains it'
TECHNIQUE = 'typestate analysis: every failing result is preceded, on every path, by a notice or by a failed step that is itself explained'
NOTE = ('Inductive over the call graph: every function that reports success as a truth value is checked under the assumption that '
        'the steps it calls explain their own failures; the steps that hand their failure to the caller (conversions, template '
        'matching, custom operator creation) are listed, and their callers are checked for the notice. All paths, states merged; '
        'new helpers inlined. That the notice text fits the cause is not decided.')
RULE = ('typestate over the control flow graph: on no path a function that reports success as a truth value returns false, and no '
        'type lookup returns null, unless a notice was added or an explained step failed before')

# These report failure to the caller only; the caller has to explain it.
SILENT = {
    'Spp::CodeGen::TypeGenerator::_generateCast': 'the caller knows which conversion was asked for',
    'Spp::CodeGen::Generator::_generateCast': 'forwards TypeGenerator::_generateCast',
    'Spp::Ast::Template::matchInstance': 'gives the notice to the caller in its result',
    'Spp::Ast::Template::prepareTemplateVars': 'gives the notice to the caller in its result',
    'Spp::Grammar::SppFactory::createCustomGrammar': 'the result is handed to the program that asked for the grammar',
    'Spp::Rt::GrammarMgr::_addCustomGrammar': 'the result is handed to the program that asked for the grammar',
    'Spp::Ast::Template::matchTemplateVars': 'does not match: another instance is tried',
}
GIVES = {'Spp::Ast::Template::matchInstance': 'result', 'Spp::Ast::Template::prepareTemplateVars': 'notice'}
# The types a reference type is made of exist already.
MADE = ('swichInnerReferenceTypeWithPointerType', '_swichInnerReferenceTypeWithPointerType')


class P11(Rule):
    depth = 4

    def __init__(self, chk):
        self.chk = chk
        self.fa = None
        self.silent = set()
        self.bad = {}
        self.cur = None

    def pointer(self, c):
        return c.n in POINTERS and c.o['ret'].endswith('*')

    def call(self, ts, st, fn, i, n, name):
        if n['k'] == 'Construct':
            return None
        if n.get('fn') in ADDS:
            return [('x', None)]
        if name.endswith('::getNoticeStore'):
            return [(st.rule, T)]
        if name.endswith('::didCodeGenFail'):
            # an earlier failure, which was explained then
            return [('x', T), (st.rule, F)]
        fa = self.fa
        if fa.tg(fn, n):
            return [(st.rule, T), ('x', F)]
        c = ts.target(fn, n)
        if c is not None and (c.q not in baseline_functions() or '$lambda' in c.u):
            return None
        if c is not None and c.u in fa.explaining and self.pointer(c):
            return [(st.rule, T), (st.rule or ('' if c.q in self.silent else 'x'), F)]
        if c is None and n.get('n') == 'ti_cast' and 'Notice' in n.get('ta', ''):
            return [(st.rule, T)]
        if c is None and n['k'] == 'OpCall' and n.get('op') == '()' and n.get('t') in BOOLS and n['c'] and any(
                fn.nodes[ts.strip(fn, n['c'][0])].get('d') == q['d'] for q in fn.params):
            # a callback: the lambdas and functions that are passed are checked themselves
            return [(st.rule, T), ('x', F)]
        if c is not None and c.n in MADE:
            return [(st.rule, T)]
        l = fa.fallible(fn, n)
        if not l:
            return None
        s = any(c.q in SILENT or c.q in self.silent for c in l)
        return [(st.rule, T), (st.rule or ('s:' + l[0].q if s else 'x'), F)]

    def assign(self, ts, st, fn, i, n):
        # the notice is handed to the caller
        if fn.q in GIVES and n['k'] in ('OpCall', 'BinaryOperator') and n.get('op') == '=':
            l, r = (fn.nodes[ts.strip(fn, c)] for c in n['c'][:2])
            if l.get('d', '?').split('@')[0].split('#')[0] == GIVES[fn.q] and 'Notice' in r.get('t', ''):
                return 'x'
        return st.rule

    def ret(self, ts, st, fn, i, v):
        if st.rule != 'x' and (v == F or v is None and st.rule.startswith('s:') and fn.o['ret'] == 'void'):
            self.bad.setdefault(fn.u, []).append((st.rule, i))


def run(chk, prog):
    r = P11(chk)
    ts = TS(prog, r)
    fa = r.fa = Fallible(prog, ts)
    todo = []
    for f in sorted(fa.fns, key=lambda f: f.u):
        if f.u not in fa.explaining or not f.cfg.get('blocks') or f.q in SILENT and f.q not in GIVES or f.q not in baseline_functions() and '$lambda' not in f.u:
            continue
        if f.o['ret'] in BOOLS and not predicate(f.q) or r.pointer(f) or f.o['ret'] == 'void' or f.q in GIVES:
            todo.append(f)
    for f in todo:
        ts.run(f, [''], {q['d']: F for q in f.params if q['d'].startswith('skipErrors')})
        chk.count('functions that can reject')
    for u, l in sorted(r.bad.items()):
        f = prog.fns[u]
        for why, i in l:
            via = why[2:] if why.startswith('s:') else None
            chk.violation('%s:%s' % (f.q, via or 'own'), f.loc(i) if i is not None else f.loc(),
                          '%s can reject here without any notice%s' % (f.q, ' after %s failed (which adds none)' % via if via else ''))
    chk.floor('functions that can reject', 130)
    chk.count('states', ts.steps)
