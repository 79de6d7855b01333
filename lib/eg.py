"""Walks of the expression and statement generators with chosen facts fixed."""
from flow import *
from facts import Broken

TGN = 'Spp::CodeGen::TargetGeneration::'
GEN = 'Spp::CodeGen::Generation::'
EGN = 'Spp::CodeGen::ExpressionGeneration::'
EG = 'Spp::CodeGen::ExpressionGenerator'


def sname(q):
    return q.split('::')[-1]


class EgConfig(Config):
    """fixed: predicate of a type query -> truth; optype: the operator string;
    tg: whether the session generates code (True/False/None for both)."""
    inline_depth = 4
    loop_bound = 2
    value_classes = ('Spp::CodeGen::Session',)

    def __init__(self, prog, optype=None, tg=None, inline=(), events=(), stopset=()):
        self.prog = prog
        self.optype = optype
        self.tg = tg
        self.inl = inline
        self.evs = events

    def event(self, name, node, fn):
        return name.startswith((TGN, GEN, EGN, EG + '::')) or any(x in name for x in self.evs)

    def inline(self, callee, name, node):
        n = callee.n
        if callable(self.inl):
            return self.inl(callee, name, node)
        return n in self.inl or n.lstrip('_') in self.inl

    def call_value(self, w, st, name, node, obj, args):
        s = sname(name)
        if self.optype is not None and s == 'getType' and obj is not None and not args and \
                ('Operator' in name or 'OutfixOperator' in name):
            return ('s', self.optype)
        if s == 'getTgContext' and self.tg is False:
            return ZERO
        return None


def succeeded(o):
    return o.kind == 'return' and const_of(o.ret) not in ('false', '0')


GR = 'Spp::CodeGen::GenResult::'


def result_field(o, fn, field, pname='result'):
    """The value a field of an out parameter of type GenResult ends up with."""
    from terms import param_names
    for p, nm in zip(fn.params, param_names(fn)):
        if nm == pname:
            base = ('v', p['d'], 0)
            v = o.state.heap.get(('f', base, GR + field))
            if v is not None:
                return v
            src = o.state.env.get((0, p['d']))
            if src is not None and src != base:
                return o.state.heap.get(('f', src, GR + field), ('f', src, GR + field))
            return None
    raise Broken('%s has no parameter %s' % (fn.q, pname))
