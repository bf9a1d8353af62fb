"""R02 which equations are accepted, and their class"""
from .terms import *
from .E05 import cls
PRELOAD = ['core.variable', 'core.parameter', 'core.constant', 'core.equation']
BOUNDS = 'exponents of both sides of one dimension (thorough: two) arbitrary reals; equalities and residuals between every operand kind; invalid arguments from a fixed list'
OK = ['DimensionalCoherenceError', 'UnexpectedValueError', 'TypeError']


def E(ctx):
    return ctx.mod('core.equation').Equation


def again(eq, e):
    eq.setResidual(e)
    return eq


def coherent(ctx, v):
    ka, kb, n = v
    w = World(ctx, SI[:n])
    a, b = w.leaf(ka, 'a'), w.leaf(kb, 'b')
    same = a.isnum or b.isnum or eq_all(ctx, a.dims, b.dims)
    how = ctx.choice('how', ['node', 'set', 'residual'])
    mk = {'node': lambda: E(ctx)('e', 'd', a.node == b.node),
          'set': lambda: again(E(ctx)('e', 'd'), (b.node == a.node) if not b.isnum else (a.node == b.node)),
          'residual': lambda: E(ctx)('e', 'd', a.node - b.node)}[how]
    if same:
        made = []
        e = ctx.raised(lambda: made.append(mk()))
        ctx.check('coherent equation is accepted', e is None, repr(e))
        ctx.check('differential exactly when a side has a derivative, else linear', made[0].type == ('differential' if a.diff or b.diff else 'linear'), made[0].type)
    else:
        ctx.expect_raises('incoherent equation is rejected', mk, *OK)


def coherent_nested(ctx, v):
    op, n = v
    w = World(ctx, SI[:n])
    a, b, c = w.leaf('var', 'a'), w.leaf('par', 'b'), w.leaf('var', 'c')
    r = binop(ctx, op, a, b)
    if r is None:
        return
    mk = lambda: E(ctx)('e', 'd', r.node == c.node)
    if eq_all(ctx, r.dims, c.dims):
        ctx.check('coherent equation is accepted', ctx.raised(mk) is None)
    else:
        ctx.expect_raises('incoherent equation is rejected', mk, *OK)


def invalid(ctx, v):
    w = World(ctx, ())
    x = w.var('x')
    k = ctx.real('k')
    q = ctx.mod('core.variable').Variable('y', x.node.unit_object, 'd')
    bad = {'number': lambda: k, 'string': lambda: 'x', 'list': lambda: [x.node], 'quantity': lambda: q, 'bool': lambda: True,
           'tuple of numbers': lambda: (k, k), 'right side a string': lambda: (x.node, 'x'), 'right side a quantity': lambda: (x.node, q), 'right side nothing': lambda: (x.node, None), 'dict': lambda: {'x': x.node}}[v]()
    ctx.expect_raises('not an expression: rejected', lambda: E(ctx)('e', 'd', bad), 'UnexpectedValueError')
    eq = E(ctx)('e', 'd', x.node)
    ctx.expect_raises('not an expression: rejected later', lambda: eq.setResidual(bad), 'UnexpectedValueError')
    ctx.check('a rejected declaration leaves the equation alone', eq.equation_expression is x.node and set(eq.objects_declared) == {'x'})


def kept(ctx, v):
    """an incoherent second declaration is rejected and leaves the equation as it was"""
    first, second, n = v
    w = World(ctx, SI[:n])
    a, b, x = w.leaf('var', 'a'), w.leaf('var', 'b'), w.leaf('var', 'x')
    ctx.assume(ctx.all([ctx.same(a.dims.get(u, 0), x.dims.get(u, 0)) for u in SI[:n]]))
    eq = E(ctx)('e', 'd', a.node - x.node if first == 'residual' else (a.node == x.node))
    if eq_all(ctx, a.dims, b.dims):
        return
    before = (eq.equation_expression, eq.elementary_equation_expression, eq.equation_form, eq.type, dict(eq.objects_declared))
    mk = {'equality': lambda: eq.setResidual(a.node == b.node),
          'sides': lambda: eq.setResidual((a.node, b.node)),
          'swapped': lambda: eq.setResidual((b.node, x.node)),
          'residual': lambda: eq.setResidual(a.node - b.node)}[second]
    ctx.expect_raises('incoherent equation is rejected', mk, *OK)
    after = (eq.equation_expression, eq.elementary_equation_expression, eq.equation_form, eq.type, dict(eq.objects_declared))
    names = ['residual', 'sides', 'form', 'type', 'objects']
    for n_, u, v_ in zip(names, before, after):
        if n_ == 'sides':
            ok = u is v_ or (u is not None and v_ is not None and len(u) == len(v_) and all(i is j for i, j in zip(u, v_)))
        elif n_ == 'residual':
            ok = u is v_
        elif n_ == 'objects':
            ok = set(u) == set(v_) and all(u[k] is v_[k] for k in u)
        else:
            ok = u == v_
        ctx.check('a rejected declaration leaves the %s of the equation' % n_, ok)


def badcompare(ctx, v):
    w = World(ctx, ())
    x = w.leaf(v, 'x')
    for o in ('x', None, [x.node], {}):
        ctx.expect_raises('comparison with a non-expression is rejected', lambda: x.node == o, 'UnexpectedValueError')


def klass(ctx, v):
    """the class of an equation is that of left minus right"""
    ka, op, kb, kc = v
    w = World(ctx, ())
    a, b, c = w.leaf(ka, 'a'), w.leaf(kb, 'b'), w.leaf(kc, 'c')
    for t in (a, b, c):
        if t.known:
            ctx.assume(t.val({}) > 0)
    r = binop(ctx, op, a, b)
    how = ctx.choice('how', ['residual', 'equality', 'swapped'])
    if how == 'swapped' and c.isnum:
        return
    eq = E(ctx)('e', 'd', r.node - c.node if how == 'residual' else (r.node == c.node if how == 'equality' else c.node == r.node))
    diff = r.diff or c.diff
    lin = not diff and (op in '+-' or (op == '*' and (a.known or b.known)) or (op == '/' and b.known and not a.isnum))
    nonlin = not diff and not lin and op in '*/' and a.unknowns and b.unknowns
    if diff:
        ctx.check('an equation with a derivative is differential', eq.type == 'differential', eq.type)
    else:
        ctx.check('an equation without derivative is not differential', eq.type in ('linear', 'nonlinear'), eq.type)
    if lin:
        ctx.check('an affine equation is linear', eq.type == 'linear', eq.type)
    if nonlin:
        ctx.check('products and quotients of unknowns are nonlinear', eq.type == 'nonlinear', eq.type)


def cases(tier):
    n = 1 if tier == 'quick' else 2
    c = group(coherent, [(a, b, n) for a in KINDS if a not in ('num', 'inum') for b in KINDS])
    c.update(group(coherent_nested, [(o, n) for o in BINOPS]))
    c.update(group(kept, [(f, g, n) for f in ('residual', 'equality') for g in ('equality', 'sides', 'swapped', 'residual')]))
    c.update(group(invalid, ['number', 'string', 'list', 'quantity', 'bool', 'tuple of numbers', 'dict', 'right side a string', 'right side a quantity', 'right side nothing']))
    c.update(group(badcompare, ['var', 'par', 'diff']))
    ks = [('var', 'par', 'var'), ('var', 'var', 'num'), ('diff', 'par', 'var'), ('var', 'par', 'diff'), ('con', 'upar', 'par'), ('diff', 'par', 'num')]
    if tier == 'thorough':
        ks += [(a, b, d) for a in ('var', 'par', 'diff') for b in ('var', 'con', 'diff') for d in ('var', 'num', 'diff', 'upar')]
    c.update(group(klass, sorted({(a, o, b, d) for o in '+-*/' for a, b, d in ks})))
    return c
