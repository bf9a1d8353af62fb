"""E02 dimensions of functions, minima/maxima and derivatives"""
from .terms import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant']
BOUNDS = 'all real dimension exponents of the seven dimensions of each argument; the eight elementary functions on every operand kind; minimum/maximum of up to 4 (thorough 5) arguments mixing expressions and literals; derivatives of variables and functions of compound arguments'


def rej(ctx, label):
    return lambda e: ctx.check(label, e is not None)


def elem(ctx, v):
    F, k = v
    w = World(ctx, SI)
    a = w.leaf(k, 'a')
    if a.known:
        ctx.assume(a.val({}) > 0)
    da = dict(a.dims)
    r = func(ctx, F, a, rej(ctx, 'dimensional argument is rejected'))
    if r is not None:
        dims_are(ctx, 'function is dimensionless', r.node.unit_object, {})
    if not a.isnum:
        dims_are(ctx, 'argument keeps its dimension', a.node.unit_object, da)


def compound(ctx, v):
    """function of a*b, a/b, a**p, a+b: accepted exactly when the argument is dimensionless"""
    F, op = v
    w = World(ctx, SMALL)
    a, b = w.leaf('var', 'a'), w.leaf('par', 'b')
    ctx.assume(b.val({}) > 0)
    x = binop(ctx, op, a, b if op != '**' else w.num('p'))
    if x is None:
        return
    r = func(ctx, F, x, rej(ctx, 'dimensional argument is rejected'))
    if r is not None:
        dims_are(ctx, 'function is dimensionless', r.node.unit_object, {})
        c = w.leaf('var', 'c')
        y = binop(ctx, '*', r, c)
        dims_are(ctx, 'function times quantity has the dimension of the quantity', y.node.unit_object, c.dims)


def mm(ctx, v):
    F, ks = v
    w = World(ctx, SI if len(ks) < 3 else SMALL)
    args = [w.leaf(k, 'abcd'[i]) for i, k in enumerate(ks)]
    r = minmax(ctx, F, args, rej(ctx, 'incoherent arguments are rejected'))
    if r is not None:
        dims_are(ctx, 'extremum has the common dimension', r.node.unit_object, r.dims)
        x = w.leaf('var', 'x')
        s = binop(ctx, '+', r, x, rej(ctx, 'incoherent sum with an extremum is rejected'))
        if s is not None:
            dims_are(ctx, 'sum with an extremum', s.node.unit_object, x.dims)
    for a in args:
        if not a.isnum:
            dims_are(ctx, 'argument keeps its dimension', a.node.unit_object, a.dims)


def deriv(ctx):
    w = World(ctx, SI)
    a = w.leaf('diff', 'a')
    dims_are(ctx, 'derivative has the quotient dimension', a.node.unit_object, a.dims)
    b = w.leaf('diff', 'b')
    r = binop(ctx, '*', a, b)
    dims_are(ctx, 'product of derivatives', r.node.unit_object, r.dims)


def deriv_units(ctx):
    """the units of the independent variable count, not those of the domain"""
    w = World(ctx, SMALL)
    t, x = w.m.Variable('tt', w.unit('tt'), 'time'), w.m.Variable('x', w.unit('x'), 'd')
    dom = w.m.Domain('dom', w.unit('dom'), t, 'd')
    x.distributeOnDomain(dom)
    a, b = exps(x.units), exps(t.units)
    dims_are(ctx, 'derivative has the quotient dimension', x.Diff(t).unit_object, {d: a[d] - b[d] for d in SI})


def deriv_sum(ctx):
    w = World(ctx, SMALL)
    a, b = w.leaf('diff', 'a'), w.leaf('var', 'b')
    op = ctx.choice('op', ['+', '-'])
    r = binop(ctx, op, a, b, rej(ctx, 'incoherent sum with a derivative is rejected'))
    if r is not None:
        dims_are(ctx, 'sum with a derivative', r.node.unit_object, r.dims)


def no_domain(ctx):
    w = World(ctx, SMALL)
    a, t = w.leaf('var', 'a'), w.leaf('var', 't')
    ctx.expect_raises('derivative without a domain is rejected', lambda: a.objs['a'].Diff(t.objs['t']), 'AbsentRequiredObjectError')


def badarg(ctx, v):
    f = getattr(ctx.mod('core.equation_operators'), v)
    b = ctx.choice('bad', ['x', None, [1.0], {}])
    ctx.check('non-expression argument is rejected', ctx.raised(f, b) is not None)


def cases(tier):
    c = {}
    c.update(group(elem, [(F, k) for F in FUNCS for k in ('var', 'par', 'upar', 'con', 'diff', 'num', 'inum')]))
    c.update(group(compound, [(F, o) for F in FUNCS for o in (BINOPS if tier == 'thorough' else ('*', '/', '+'))]))
    mixes = [('var', 'var'), ('var', 'par'), ('var', 'num'), ('num', 'var'), ('con', 'upar'), ('num', 'inum'), ('var', 'par', 'var'), ('num', 'var', 'par'), ('par', 'num', 'con'), ('diff', 'var'), ('var', 'num', 'var'), ('var', 'par', 'upar', 'con'), ('num', 'var', 'num', 'var')]
    if tier == 'thorough':
        mixes += [('var',), ('var', 'par', 'diff', 'var', 'con'), ('diff', 'num', 'var', 'par')]
    c.update(group(mm, [(F, m) for F in ('Min', 'Max') for m in mixes]))
    c.update(group(badarg, list(FUNCS)))
    c.update(single(deriv, deriv_units, deriv_sum, no_domain))
    return c
