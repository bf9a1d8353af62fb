"""Building blocks shared by the harnesses."""
from functools import partial
SI = ['m', 'kg', 's', 'A', 'K', 'mol', 'cd']
SMALL = ['m', 's']


def U(ctx):
    return ctx.mod('core.unit').Unit


def unit(ctx, name, dims=SI, kind='float', label=None):
    """A unit whose exponents over `dims` are arbitrary numbers.  Where the code under test branches on
    each exponent the seven of them at once are too many paths; then every pair of neighbours in turn is
    arbitrary and the others are zero."""
    if len(dims) > 2 and ctx.wide():
        i = ctx.choice('dims.pair', list(range(0, len(dims), 2)))
        dims = [dims[i], dims[(i + 1) % len(dims)]]
    return U(ctx)(name if label is None else label, {d: ctx.real('%s.%s' % (name, d), kind) for d in dims})


def exps(u):
    return {d: u.dimension[d] for d in SI}


def snap(u):
    """exponents now, to compare later"""
    return dict(u.dimension)


def same_dims(ctx, a, b):
    return ctx.all([ctx.same(a[d], b[d]) for d in SI])


def dims_are(ctx, label, u, want):
    """unit u has exactly the exponents `want` (missing = 0)"""
    d = getattr(u, 'dimension', None)
    if d is None:
        return ctx.check(label, False, 'not a unit: %r' % (u,))
    return ctx.check(label, ctx.all([ctx.same(d[k], want.get(k, 0)) for k in SI]), None if ctx.symbolic else '%s != %s' % (dict(d), want))


def zero(ctx, x):
    return ctx.same(x, 0)


def eq_all(ctx, a, b):
    """the two exponent dicts are equal, as a bool decided on this path"""
    for d in SI:
        if not bool(ctx.same(a.get(d, 0), b.get(d, 0))):
            return False
    return True


def is_dimless(ctx, a):
    return eq_all(ctx, a, {})


def group(fn, variants, **opts):
    nm = fn.func.__name__ if isinstance(fn, partial) else fn.__name__
    return {'%s[%s]' % (nm, ','.join(str(x) for x in (v if isinstance(v, tuple) else (v,)))): (partial(fn, v=v), opts) for v in variants}


def single(*fns, **opts):
    return {f.__name__: (f, opts) for f in fns}
