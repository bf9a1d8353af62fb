"""Q01 assigning values"""
from .common import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant']
BOUNDS = 'all real/integer values, all real exponents of the seven base dimensions of the quantity and of the given unit; Constant, Parameter, Variable and Quantity; histories of up to 3 assignments'
CLS = ['Constant', 'Parameter', 'Variable', 'Quantity']


def mk(ctx, cls, name='q', dims=SI, called=None):
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
    return getattr(m, cls)(called or name, unit(ctx, 'u' + name, dims, label=called), 'd')


def state(q):
    return q.value, q.is_specified


def unchanged(ctx, label, q, st, eu):
    ctx.check(label + ' keeps the value', ctx.same(q.value, st[0]))
    ctx.check(label + ' keeps the specified flag', q.is_specified == st[1])
    dims_are(ctx, label + ' keeps the dimension', q.units, eu)


def with_unit(ctx, v):
    cls, kind = v
    q = mk(ctx, cls)
    eu = exps(q.units)
    if ctx.flag('already'):
        q.setValue(ctx.real('v0'))
    st = state(q)
    w = unit(ctx, 'w')
    ew = exps(w)
    x = ctx.real('x', kind)
    if eq_all(ctx, eu, ew):
        q.setValue(x, w)
        ctx.check_same('value given in a coherent unit is stored', q.value, x, exact=True)
        ctx.check('quantity is then specified', q.is_specified == True)
    else:
        e = ctx.raised(q.setValue, x, w)
        ctx.check('value given in an incoherent unit is rejected', e is not None)
        unchanged(ctx, 'rejected value', q, st, eu)
    dims_are(ctx, 'assignment keeps the dimension', q.units, eu)
    dims_are(ctx, 'assignment keeps the given unit', w, ew)


def bare(ctx, v):
    cls, kind = v
    q = mk(ctx, cls)
    eu = exps(q.units)
    x = ctx.real('x', kind)
    q.setValue(x)
    ctx.check_same('bare number is stored', q.value, x, exact=True)
    ctx.check('quantity is then specified', q.is_specified == True)
    dims_are(ctx, 'assignment keeps the dimension', q.units, eu)
    y = ctx.real('y', ctx.choice('k2', ['float', 'int']))
    q.setValue(y)
    ctx.check_same('last assignment wins', q.value, y, exact=True)
    ctx.check('still specified', q.is_specified == True)


def from_quantity(ctx, v):
    v, called = v if isinstance(v, tuple) else (v, None)
    q = mk(ctx, v, called=called)
    src = mk(ctx, v, 'src', called=called)
    eu, es = exps(q.units), exps(src.units)
    if ctx.flag('already'):
        q.setValue(ctx.real('v0'))
    st = state(q)
    x = ctx.real('x')
    stated = not ctx.flag('source only declared with its value')
    if stated:
        src.setValue(x)
    else:
        src.value = x
    if eq_all(ctx, eu, es):
        q.setValue(src)
        ctx.check_same('value of a coherent quantity is copied', q.value, x, exact=True)
        ctx.check('quantity is then specified', q.is_specified == True)
        ctx.check('source is as specified as it was', src.is_specified == stated)
        src.setValue(ctx.real('z'))
        ctx.check_same('copy is independent of its source', q.value, x, exact=True)
    else:
        ctx.check('value of an incoherent quantity is rejected', ctx.raised(q.setValue, src) is not None)
        unchanged(ctx, 'rejected quantity', q, st, eu)
    ctx.check('source remains specified', src.is_specified == True or not stated)
    dims_are(ctx, 'source keeps its dimension', src.units, es)
    dims_are(ctx, 'assignment keeps the dimension', q.units, eu)


def bad(ctx, v):
    q = mk(ctx, v)
    eu = exps(q.units)
    if ctx.flag('already'):
        q.setValue(ctx.real('v0'))
    st = state(q)
    b = ctx.choice('bad', ['a', None, [1.0], {'x': 1}, (2.0,), object()])
    u = ctx.choice('unit', [None, 'own'])
    ctx.check('non-numeric value is rejected', ctx.raised(q.setValue, b, q.units if u else None) is not None)
    unchanged(ctx, 'rejected object', q, st, eu)


def history(ctx, v):
    """three assignments, each bare, in a coherent or in an arbitrary unit"""
    q = mk(ctx, v, dims=SMALL)
    eu = exps(q.units)
    val, spec = q.value, q.is_specified
    for i in range(3):
        x = ctx.real('x%d' % i, 'float' if i % 2 else 'int')
        how = ctx.choice('how%d' % i, ['bare', 'unit'])
        if how == 'bare':
            q.setValue(x)
            val, spec = x, True
        else:
            w = unit(ctx, 'w%d' % i, SMALL)
            if eq_all(ctx, eu, exps(w)):
                q.setValue(x, w)
                val, spec = x, True
            else:
                ctx.check('incoherent assignment rejected', ctx.raised(q.setValue, x, w) is not None)
        ctx.check_same('value is the last accepted one', q.value, val, exact=True)
        ctx.check('specified once anything was accepted', q.is_specified == spec)


def two(ctx, v):
    """assigning to one quantity never affects another one with the same name or unit object"""
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity')
    u = unit(ctx, 'u', SMALL)
    a, b = getattr(m, v)('q', u), getattr(m, v)('q', u)
    x = ctx.real('x')
    st = state(b)
    a.setValue(x)
    ctx.check('other quantity keeps its value', ctx.same(b.value, st[0]))
    ctx.check('other quantity stays unspecified', b.is_specified == st[1] and not b.is_specified)


def cases(tier):
    c = {}
    c.update(group(with_unit, [(k, t) for k in CLS for t in ('float', 'int')]))
    c.update(group(bare, [(k, t) for k in CLS for t in ('float', 'int')]))
    for f in (from_quantity, bad, two):
        c.update(group(f, CLS))
    c.update(group(from_quantity, [(k, 'called alike') for k in CLS]))
    c.update(group(history, CLS if tier == 'thorough' else ['Parameter', 'Variable']))
    return c
