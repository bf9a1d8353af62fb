"""U01 unit algebra"""
from .common import *
PRELOAD = ['core.unit', 'core.template_units']
BOUNDS = 'all real (and all integer) exponents of the seven base dimensions in both operands, all real/integer powers and non-zero scalars; loops are over the seven dimensions (fully unrolled)'


def mul(ctx, v):
    k, la = v if isinstance(v, tuple) else (v, None)
    a, b = unit(ctx, 'a', kind=k, label=la), unit(ctx, 'b', kind=k, label=la)
    ea, eb = exps(a), exps(b)
    r = a * b
    dims_are(ctx, 'product adds exponents', r, {d: ea[d] + eb[d] for d in SI})
    dims_are(ctx, 'product leaves left operand unchanged', a, ea)
    dims_are(ctx, 'product leaves right operand unchanged', b, eb)
    r2 = b * a
    dims_are(ctx, 'product commutes', r2, exps(r))
    dims_are(ctx, 'a unit times itself', a * a, {d: 2 * ea[d] for d in SI})
    dims_are(ctx, 'product leaves left operand unchanged', a, ea)


def div(ctx, v):
    k, la = v if isinstance(v, tuple) else (v, None)
    a, b = unit(ctx, 'a', kind=k, label=la), unit(ctx, 'b', kind=k, label=la)
    ea, eb = exps(a), exps(b)
    r = a / b
    dims_are(ctx, 'quotient subtracts exponents', r, {d: ea[d] - eb[d] for d in SI})
    dims_are(ctx, 'quotient leaves left operand unchanged', a, ea)
    dims_are(ctx, 'quotient leaves right operand unchanged', b, eb)
    back = r * b
    dims_are(ctx, 'quotient times divisor restores', back, ea)
    dims_are(ctx, 'self quotient is dimensionless', a / a, {})


def power(ctx, v):
    k, pk = v.split('^')
    a = unit(ctx, 'a', kind=k)
    p = ctx.real('p', pk)
    ea = exps(a)
    r = a ** p
    dims_are(ctx, 'power scales exponents', r, {d: ea[d] * p for d in SI})
    dims_are(ctx, 'power leaves operand unchanged', a, ea)


def power_unit(ctx):
    a = unit(ctx, 'a')
    ea = exps(a)
    z = unit(ctx, 'z', SMALL)
    if is_dimless(ctx, exps(z)):
        dims_are(ctx, 'dimensionless-unit power keeps dimensions', a ** z, ea)
    else:
        ctx.expect_raises('dimensional power is rejected', lambda: a ** z)
    dims_are(ctx, 'power leaves operand unchanged', a, ea)


def scalar(ctx, v):
    a = unit(ctx, 'a')
    ea = exps(a)
    k = ctx.real('k', v)
    q = a * k
    ctx.check_same('unit times number has that value', lambda: q.value, k, exact=True)
    dims_are(ctx, 'unit times number has that unit', q.units, ea)
    if bool(k == 0):
        return
    q = a / k
    ctx.check_same('unit over number has the reciprocal value', lambda: q.value * k, 1)
    dims_are(ctx, 'unit over number has that unit', q.units, ea)
    dims_are(ctx, 'operand unchanged', a, ea)


def construct(ctx, v):
    """any subset / ordering of the supplied exponents, from a dict or from another unit"""
    import random
    order = list(SI)
    random.Random(v).shuffle(order)
    keep = order[:v % 8]
    d = {k: ctx.real('x.' + k) for k in keep}
    d0 = dict(d)
    u = U(ctx)('x', d)
    dims_are(ctx, 'unit has the given exponents and zero elsewhere', u, d0)
    for k in SI:
        ctx.check_same('exponents are taken over exactly', u.dimension[k], d0.get(k, 0), exact=True)
    w = U(ctx)('y', u)
    dims_are(ctx, 'unit built from a unit has its exponents', w, d0)
    w2 = w * w
    ctx.check('construction does not alias its source', w.dimension is not u.dimension)
    w.dimension['m'] = ctx.real('other')
    dims_are(ctx, 'unit is independent of copies of it', u, d0)
    ctx.check('source mapping untouched', ctx.all([ctx.same(d[k], d0[k]) for k in keep]) if keep else d == {})


def chain(ctx):
    """the law holds for results of operations as well (two steps)"""
    a, b, c = unit(ctx, 'a', SMALL), unit(ctx, 'b', SMALL), unit(ctx, 'c', SMALL)
    p = ctx.real('p')
    ea, eb, ec = exps(a), exps(b), exps(c)
    ops = ['mul', 'div', 'pow']
    o1, o2 = ctx.choice('o1', ops), ctx.choice('o2', ops)

    def ap(o, x, y, ex, ey):
        if o == 'mul':
            return x * y, {d: ex[d] + ey[d] for d in SI}
        if o == 'div':
            return x / y, {d: ex[d] - ey[d] for d in SI}
        return x ** p, {d: ex[d] * p for d in SI}
    r, er = ap(o1, a, b, ea, eb)
    r2, er2 = ap(o2, r, c, er, ec)
    dims_are(ctx, 'two-step result', r2, er2)
    dims_are(ctx, 'intermediate unchanged', r, er)
    r3, er3 = ap(o2, c, r, ec, er)
    dims_are(ctx, 'two-step result, swapped', r3, er3)


def templates(ctx):
    t = ctx.mod('core.template_units')
    want = dict(dimless={}, m=dict(m=1), kg=dict(kg=1), s=dict(s=1), A=dict(A=1), K=dict(K=1), mol=dict(mol=1), cd=dict(cd=1),
                _s=dict(s=-1), _m2=dict(m=-2), _m3=dict(m=-3), m_s=dict(m=1, s=-1), m_s2=dict(m=1, s=-2), kg_s=dict(kg=1, s=-1), mol_s=dict(mol=1, s=-1),
                Force=dict(kg=1, m=1, s=-2), Pa=dict(kg=1, m=-1, s=-2), atm=dict(kg=1, m=-1, s=-2), J=dict(kg=1, m=2, s=-2),
                UniversalIdealGasConstant=dict(kg=1, m=2, s=-2, K=-1, mol=-1))
    for n, w in want.items():
        dims_are(ctx, 'predefined unit ' + n, getattr(t, n), w)
    x = unit(ctx, 'x', SMALL)
    ex = exps(x)
    for n, w in want.items():
        dims_are(ctx, 'arbitrary unit times predefined unit', x * getattr(t, n), {d: ex[d] + w.get(d, 0) for d in SI})
    for n, w in want.items():
        dims_are(ctx, 'predefined unit unchanged by use: ' + n, getattr(t, n), w)


def cases(tier):
    c = {}
    c.update(group(mul, ['float', 'int', ('float', 'called alike'), ('float', '')]))
    c.update(group(div, ['float', 'int', ('float', 'called alike'), ('float', '')]))
    c.update(group(power, ['float^float', 'float^int', 'int^int', 'int^float']))
    c.update(group(scalar, ['float', 'int']))
    c.update(group(construct, range(24) if tier == 'thorough' else range(8)))
    c.update(single(power_unit, chain, templates))
    return c
