"""Q03 quantity -> expression"""
from .terms import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant']
BOUNDS = 'all real/integer values and all real exponents of the seven dimensions; every quantity class; up to one re-assignment'
CLS = ['Constant', 'Parameter', 'Variable', 'Quantity']


def chk(ctx, q, n, name, eu, val):
    """n is the expression of q; val is None when q is unspecified"""
    x = ctx.real('x')
    dims_are(ctx, 'expression has the dimension of the quantity', n.unit_object, eu)
    ctx.check('expression mentions exactly the quantity', list(n.symbolic_map) == [name] and n.symbolic_map[name] is q)
    if val is None:
        ctx.check_same('unspecified quantity evaluates to its unknown', lambda: ctx.value(n.symbolic_object, {name: x}), x)
        ctx.check('unspecified quantity is an unknown', list(n.variable_map) == [name] and n.variable_map[name] is q)
    else:
        ctx.check_same('specified quantity evaluates to its value', lambda: ctx.value(n.symbolic_object, {}), val)
        ctx.check('specified quantity is not an unknown', len(n.variable_map) == 0)
    ctx.check_same('representation shows the name', lambda: ctx.value(n.repr_symbolic, {name: x}), x)


def call(ctx, v):
    cls, kind = v
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
    q = getattr(m, cls)('q_M', unit(ctx, 'u'), 'd')
    eu = exps(q.units)
    st = (q.value, q.is_specified)
    chk(ctx, q, q(), 'q_M', eu, None)
    ctx.check('taking the expression does not specify the quantity', q.is_specified == st[1] and bool(ctx.same(q.value, st[0])))
    x = ctx.real('v', kind)
    q.setValue(x)
    n = q()
    chk(ctx, q, n, 'q_M', eu, x)
    dims_are(ctx, 'quantity keeps its dimension', q.units, eu)
    y = ctx.real('w', kind)
    q.setValue(y)
    chk(ctx, q, q(), 'q_M', eu, y)
    ctx.check_same('quantity keeps its value', q.value, y)


def ctor(ctx, v):
    """quantities created as already specified"""
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
    x = ctx.real('v')
    spec = ctx.flag('spec')
    q = getattr(m, v)('q', unit(ctx, 'u'), 'd', value=x, is_specified=spec)
    chk(ctx, q, q(), 'q', exps(q.units), x if spec else None)


def two(ctx, v):
    """expressions of different quantities do not influence one another"""
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
    a, b = getattr(m, v)('a', unit(ctx, 'ua', SMALL), 'd'), getattr(m, v)('b', unit(ctx, 'ub', SMALL), 'd')
    ea, eb = exps(a.units), exps(b.units)
    na = a()
    x = ctx.real('vb')
    b.setValue(x)
    nb = b()
    chk(ctx, a, na, 'a', ea, None)
    chk(ctx, b, nb, 'b', eb, x)
    chk(ctx, a, a(), 'a', ea, None)


def cases(tier):
    c = {}
    c.update(group(call, [(k, t) for k in CLS for t in ('float', 'int')]))
    c.update(group(ctor, ['Constant', 'Parameter']))
    c.update(group(two, CLS))
    return c
