"""Q02 quantity arithmetic"""
from .common import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant']
BOUNDS = 'all real values (divisors non-zero; powers: integers -3..3 and arbitrary positive bases with arbitrary exponents), all real exponents of the seven dimensions'
CLS = ['Constant', 'Parameter', 'Variable', 'Quantity']


def mk(ctx, cls, name, dims=SI):
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
    return getattr(m, cls)(name, unit(ctx, 'u' + name, dims), 'd', value=ctx.real('v' + name))


def shared(ctx, v):
    """operands that share their unit object, or are one and the same"""
    op, cls, same = v
    a = mk(ctx, cls, 'a', ('m', 'kg'))
    if same:
        b = a
    else:
        m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
        b = getattr(m, cls)('b', a.units, 'd', value=ctx.real('vb'))
    e, va, vb = exps(a.units), a.value, b.value
    if op == '/':
        ctx.assume(vb != 0)
    r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op]()
    ctx.check_same('value', lambda: r.value, lambda: {'+': lambda: va + vb, '-': lambda: va - vb, '*': lambda: va * vb, '/': lambda: va / vb}[op]())
    dims_are(ctx, 'dimension', r.units, {k: {'+': e[k], '-': e[k], '*': 2 * e[k], '/': 0 * e[k]}[op] for k in e})
    keep(ctx, a, e, va, 'a')
    keep(ctx, b, e, vb, 'a' if same else 'b')


def keep(ctx, q, e, v, n):
    dims_are(ctx, 'operand keeps its dimension', q.units, e)
    ctx.check_same('operand keeps its value', q.value, v)
    ctx.check('operand keeps its name', q.name == n)


def addsub(ctx, v):
    op, cls = v
    a, b = mk(ctx, cls, 'a'), mk(ctx, cls, 'b')
    ea, eb = exps(a.units), exps(b.units)
    va, vb = a.value, b.value
    f = (lambda: a + b) if op == '+' else (lambda: a - b)
    if eq_all(ctx, ea, eb):
        r = f()
        ctx.check_same('sum value', r.value, va + vb if op == '+' else va - vb)
        dims_are(ctx, 'sum dimension', r.units, ea)
    else:
        ctx.expect_raises('incoherent sum rejected', f, 'DimensionalCoherenceError')
    keep(ctx, a, ea, va, 'a')
    keep(ctx, b, eb, vb, 'b')


def muldiv(ctx, v):
    op, cls = v
    a, b = mk(ctx, cls, 'a'), mk(ctx, cls, 'b')
    ea, eb = exps(a.units), exps(b.units)
    va, vb = a.value, b.value
    if op == '/':
        ctx.assume(vb != 0)
    r = a * b if op == '*' else a / b
    ctx.check_same('product value', r.value, va * vb if op == '*' else va / vb)
    dims_are(ctx, 'product dimension', r.units, {d: ea[d] + eb[d] if op == '*' else ea[d] - eb[d] for d in SI})
    keep(ctx, a, ea, va, 'a')
    keep(ctx, b, eb, vb, 'b')


def by_zero(ctx, v):
    """a quotient by a quantity that is zero is no number"""
    a, b = mk(ctx, v, 'a'), mk(ctx, v, 'b')
    ctx.assume(b.value == 0)
    va = a.value
    ctx.expect_raises('division by zero', lambda: a / b, 'ZeroDivisionError')
    ctx.check_same('operand keeps its value', a.value, va)


def power(ctx, v):
    cls, p = v
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
    a = mk(ctx, cls, 'a')
    ea, va = exps(a.units), a.value
    ctx.assume(va > 0)
    if p == 'x':
        p = ctx.real('p')
    e = getattr(m, cls)('e', U(ctx)('one', {}), 'd', value=p)
    r = a ** e
    ctx.check_same('power value', r.value, ctx.fn.pow(va, p))
    dims_are(ctx, 'power dimension', r.units, {d: ea[d] * p for d in SI})
    keep(ctx, a, ea, va, 'a')


def zero_base(ctx, v):
    """zero to a power: one for the power zero, zero for positive ones, no number for negative ones"""
    cls, p = v
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
    a = mk(ctx, cls, 'a')
    ea, va = exps(a.units), a.value
    if p >= 0 or ctx.flag('the number zero'):
        a.value = va = 0.0
    else:
        ctx.assume(va == 0)
    e = getattr(m, cls)('e', U(ctx)('one', {}), 'd', value=p)
    if p < 0:
        ctx.expect_raises('division by zero', lambda: a ** e, 'ZeroDivisionError')
    else:
        r = a ** e
        ctx.check_same('power value', r.value, 1 if p == 0 else 0)
        dims_are(ctx, 'power dimension', r.units, {d: ea[d] * p for d in SI})
    keep(ctx, a, ea, va, 'a')


def own_result(ctx, v):
    """the result is an object of its own, whatever the values: changing it changes neither operand, and the other way round"""
    op, cls = v
    a, b = mk(ctx, cls, 'a', []), mk(ctx, cls, 'b', [])
    if op in '+-':
        b.units = a.units
    va, vb = a.value, b.value
    if op == '**':
        m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
        vb = ctx.choice('exponent', [0, 1, 2])
        b = getattr(m, cls)('b', U(ctx)('one', {}), 'd', value=vb)
    if op == '/':
        ctx.assume(vb != 0)
    both = ctx.flag('the same operand twice') if op in '+-*' else False
    c = a if both else b
    vc = va if both else vb
    r = {'+': lambda: a + c, '-': lambda: a - c, '*': lambda: a * c, '/': lambda: a / c, '**': lambda: a ** c}[op]()
    ctx.check('an object of its own', r is not a and r is not b)
    want = r.value
    new = ctx.real('new')
    if ctx.flag('change the result'):
        r.setValue(new)
        ctx.check_same('operand keeps its value', a.value, va)
        ctx.check_same('operand keeps its value', c.value, vc)
        ctx.check_same('the value set', r.value, new)
    else:
        a.setValue(new)
        ctx.check_same('the result keeps its value', r.value, want)
    ctx.check('operand keeps its name', a.name == 'a' and b.name == 'b')


def cases(tier):
    c = {}
    c.update(group(addsub, [(o, k) for o in '+-' for k in CLS]))
    c.update(group(muldiv, [(o, k) for o in '*/' for k in CLS]))
    c.update(group(by_zero, CLS))
    c.update(group(shared, [(o, k, s) for o in '+-*/' for k in CLS for s in (False, True)]))
    c.update(group(zero_base, [(k, p) for k in CLS for p in (-2, -1, 0, 1, 3)]))
    c.update(group(own_result, [(o, k) for o in ['+', '-', '*', '/', '**'] for k in CLS]))
    c.update(group(power, [(k, p) for k in CLS for p in (2, 'x')] + [('Quantity', p) for p in (-3, -2, -1, 0, 1, 3)]))
    return c
