"""U02 coherence decisions"""
from .common import *
PRELOAD = ['core.unit']
BOUNDS = 'all real (and integer) exponents of the seven base dimensions in both units; the comparison loop over dimensions is fully unrolled'


def coherence(ctx, v):
    ka, kb = v[:2]
    la = v[2] if v[2:] else None
    a, b = unit(ctx, 'a', kind=ka, label=la), unit(ctx, 'b', kind=kb, label=la)
    ea, eb = exps(a), exps(b)
    r = a._check_dimensional_coherence(b)
    want = ctx.all([ctx.same(ea[d], eb[d]) for d in SI])
    ctx.check('coherent exactly when all seven exponents agree', bool(r) == bool(want))
    r2 = b._check_dimensional_coherence(a)
    ctx.check('coherence is symmetric', bool(r2) == bool(want))
    ctx.check('coherence is reflexive', bool(a._check_dimensional_coherence(a)))


def transitive(ctx):
    a, b, c = unit(ctx, 'a', SMALL), unit(ctx, 'b', SMALL), unit(ctx, 'c', SMALL)
    co = lambda x, y: bool(x._check_dimensional_coherence(y))
    if co(a, b) and co(b, c):
        ctx.check('coherence is transitive', co(a, c))


def dimensionless(ctx, v):
    a = unit(ctx, 'a', kind=v)
    ea = exps(a)
    r = a._is_dimensionless()
    ctx.check('dimensionless exactly when every exponent is zero', bool(r) == is_dimless(ctx, ea))


def addsub(ctx, v):
    op, k = v[:2]
    la = v[2] if v[2:] else None
    a, b = unit(ctx, 'a', kind=k, label=la), unit(ctx, 'b', kind=k, label=la)
    ea, eb = exps(a), exps(b)
    f = (lambda: a + b) if op == '+' else (lambda: a - b)
    if eq_all(ctx, ea, eb):
        dims_are(ctx, 'coherent sum keeps the dimension', f(), ea)
    else:
        ctx.expect_raises('incoherent sum is rejected', f, 'DimensionalCoherenceError')
    dims_are(ctx, 'left operand unchanged', a, ea)
    dims_are(ctx, 'right operand unchanged', b, eb)


def derived(ctx):
    """coherence of computed units: (a*b)/b is coherent with a; a*b with b*a; a**2 with a*a"""
    a, b = unit(ctx, 'a'), unit(ctx, 'b')
    ctx.check('a*b/b coherent with a', bool(((a * b) / b)._check_dimensional_coherence(a)))
    ctx.check('a*b coherent with b*a', bool((a * b)._check_dimensional_coherence(b * a)))
    ctx.check('a**2 coherent with a*a', bool((a ** 2)._check_dimensional_coherence(a * a)))
    ctx.check('a/a dimensionless', bool((a / a)._is_dimensionless()))
    ctx.check('dimensionless template coherent with a/a', bool((a / a)._check_dimensional_coherence(ctx.mod('core.template_units').dimless)))


def cases(tier):
    c = {}
    c.update(group(coherence, [('float', 'float'), ('int', 'int'), ('int', 'float'), ('float', 'float', 'called alike'), ('float', 'float', '')]))
    c.update(group(dimensionless, ['float', 'int']))
    c.update(group(addsub, [('+', 'float'), ('-', 'float'), ('+', 'int'), ('-', 'int'), ('+', 'float', 'called alike'), ('-', 'float', '')]))
    c.update(single(transitive, derived))
    return c
