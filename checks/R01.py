"""R01 evaluating an equation"""
from .terms import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant', 'core.equation']
BOUNDS = 'residual and equality forms; sides built from every operand kind by one binary operation or one elementary function/extremum; all real values (other than zero, or positive, where the operation is partial) of unknowns, specified quantities and literals'
ASSUMES = ['sympy numerical evaluation is exact (real arithmetic), transcendental functions are uninterpreted']
SIDES = ['x', 'p', 'x+y', 'x-p', 'x*y', 'x/p', 'p/x', 'x**2', 'exp', 'log10', 'max', 'num']


def side(ctx, w, kind, tag):
    t = side_(ctx, w, kind, tag)
    t.domain = 'positive' if kind == 'log10' else 'nonzero' if '/' in kind else None
    return t


def side_(ctx, w, kind, tag):
    n = lambda s: s + tag
    if kind == 'x':
        return w.var(n('x'))
    if kind == 'p':
        return w.par(n('p'))
    if kind == 'num':
        return w.num(n('k'))
    if kind == 'x**2':
        x = w.var(n('x'))
        return Term(x.node ** 2, lambda env: x.val(env) * x.val(env), {}, x.objs)
    if kind == 'exp':
        return func(ctx, 'Exp', w.var(n('x')))
    if kind == 'log10':
        return func(ctx, 'Log10', w.var(n('x')))
    if kind == 'max':
        return minmax(ctx, 'Max', [w.var(n('x')), w.par(n('p'))])
    a, op, b = kind
    return binop(ctx, op, w.par(n(a)) if a == 'p' else w.var(n(a)), w.par(n(b)) if b == 'p' else w.var(n(b)))


def objects(*ts):
    o = {}
    for t in ts:
        o.update(t.objs)
    return o


def in_domain(ctx, env, ts):
    """division needs a divisor other than zero, a logarithm a positive argument"""
    for t in ts:
        for n in t.objs:
            if getattr(t, 'domain', None) == 'positive':
                ctx.assume(env[n] > 0)
            elif getattr(t, 'domain', None) == 'nonzero':
                ctx.assume(env[n] != 0)


def env_of(ctx, *ts):
    """independent values for every unknown; specified quantities keep theirs"""
    env = {n: q.value if q.is_specified else ctx.real('at.' + n) for n, q in objects(*ts).items()}
    in_domain(ctx, env, ts)
    return env


def current(ctx, *ts):
    """put arbitrary current values in the unknowns"""
    env = {}
    for n, q in objects(*ts).items():
        if not q.is_specified:
            q.value = ctx.real('cur.' + n)
        env[n] = q.value
    in_domain(ctx, env, ts)
    return env


def E(ctx):
    return ctx.mod('core.equation').Equation


def residual(ctx, v):
    w = World(ctx, ())
    a = side(ctx, w, v, '1')
    env = env_of(ctx, a)
    eq = E(ctx)('e', 'd', a.node)
    ctx.check_same('residual at given values', lambda: ctx.value(eq.eval(dict(env)), {}), lambda: a.val(env))
    ctx.check_same('the residual expression denotes it too', lambda: ctx.value(eq().symbolic_object, env), lambda: a.val(env))
    cur = current(ctx, a)
    ctx.check_same('residual at current values', lambda: ctx.value(eq.getResidual(), {}), lambda: a.val(cur))
    ctx.check_same('evaluation without values uses current values', lambda: ctx.value(eq.eval(), {}), lambda: a.val(cur))
    ctx.check_same('later evaluation at given values is unaffected', lambda: ctx.value(eq.eval(dict(env)), {}), lambda: a.val(env))
    ctx.check_same('evaluation at given values leaves the current ones', lambda: ctx.value(eq.eval(), {}), lambda: a.val(cur))
    untouched(ctx, cur, a)
    for s in ('lhs', 'rhs'):
        ctx.expect_raises('a residual equation has no sides', lambda: eq.eval(dict(env), side=s), 'AbsentRequiredObjectError')


def untouched(ctx, cur, *ts):
    for n, q in objects(*ts).items():
        ctx.check_same('value of the quantity after evaluation', q.value, cur[n], exact=True)


def equality(ctx, v):
    ka, kb = v
    w = World(ctx, ())
    a, b = side(ctx, w, ka, '1'), side(ctx, w, kb, '2')
    env = env_of(ctx, a, b)
    eq = E(ctx)('e', 'd', a.node == b.node)
    if a.isnum:
        a, b = b, a         # a literal on the left is moved to the right by Python itself
    ctx.check_same('residual is left minus right', lambda: ctx.value(eq.eval(dict(env)), {}), lambda: a.val(env) - b.val(env))
    ctx.check_same('left side', lambda: ctx.value(eq.eval(dict(env), side='lhs'), {}), lambda: a.val(env))
    ctx.check_same('right side', lambda: ctx.value(eq.eval(dict(env), side='rhs'), {}), lambda: b.val(env))
    if b.isnum:
        ctx.check_same('a literal side is that literal', lambda: ctx.value(eq.eval(side='rhs'), {}), lambda: b.val(env), exact=True)
    cur = current(ctx, a, b)
    ctx.check_same('residual at current values', lambda: ctx.value(eq.getResidual(), {}), lambda: a.val(cur) - b.val(cur))
    ctx.check_same('left side at current values', lambda: ctx.value(eq.eval(side='lhs'), {}), lambda: a.val(cur))
    ctx.check_same('right side at current values', lambda: ctx.value(eq.eval(side='rhs'), {}), lambda: b.val(cur))
    order = ctx.choice('evaluated in between', [('lhs',), ('rhs',), (None,), ('rhs', 'lhs'), ('lhs', None)])
    for k in order:
        t = {'lhs': lambda e: a.val(e), 'rhs': lambda e: b.val(e), None: lambda e: a.val(e) - b.val(e)}[k]
        ctx.check_same('later evaluation at given values', lambda: ctx.value(eq.eval(dict(env), side=k), {}), lambda: t(env))
    untouched(ctx, cur, a, b)
    ctx.check_same('evaluation at given values leaves the current ones', lambda: ctx.value(eq.eval(), {}), lambda: a.val(cur) - b.val(cur))
    ctx.check('objects of both sides are recorded', set(eq.objects_declared) == set(objects(a, b)), sorted(eq.objects_declared))


def shared(ctx, v):
    """the same unknown on both sides"""
    w = World(ctx, ())
    x, p = w.var('x'), w.par('p')
    a, b = binop(ctx, v, x, p), binop(ctx, v, p, x)
    a.domain = 'nonzero' if v == '/' else None
    env = env_of(ctx, a, b)
    eq = E(ctx)('e', 'd', a.node == b.node)
    ctx.check_same('residual is left minus right', lambda: ctx.value(eq.eval(dict(env)), {}), lambda: a.val(env) - b.val(env))
    ctx.check_same('left side', lambda: ctx.value(eq.eval(dict(env), side='lhs'), {}), lambda: a.val(env))
    ctx.check_same('right side', lambda: ctx.value(eq.eval(dict(env), side='rhs'), {}), lambda: b.val(env))


def declared(w, kind, tag):
    """what can be declared, with its meaning: (argument, left, right or nothing)"""
    n = lambda s: s + tag
    if kind == 'residual':
        a, b = w.var(n('a')), w.par(n('b'))
        return a.node - b.node, binop(w.ctx, '-', a, b), None
    if kind == 'one':
        a = w.var(n('a'))
        return a.node, a, None
    if kind == 'literal':
        a, b = w.var(n('a')), w.num(n('k'))
        return a.node == b.node, a, b
    if kind == 'product':
        a, b, c = w.var(n('a')), w.par(n('b')), w.var(n('c'))
        r = binop(w.ctx, '*', a, b)
        return c.node == r.node, c, r
    a, b = w.var(n('a')), w.par(n('b'))
    return a.node == b.node, a, b


def reset(ctx, v):
    """a second declaration replaces the first"""
    w = World(ctx, ())
    ds = [declared(w, k, str(i)) for i, k in enumerate(v)]
    if ctx.flag('first declared with the equation'):
        eq = E(ctx)('e', 'd', ds[0][0])
    else:
        eq = E(ctx)('e', 'd')
        eq.setResidual(ds[0][0])
    for d in ds[1:]:
        eq.setResidual(d[0])
    _, a, b = ds[-1]
    ts = [t for t in (a, b) if t is not None]
    env = env_of(ctx, *ts)
    val = (lambda e: a.val(e)) if b is None else (lambda e: a.val(e) - b.val(e))
    ctx.check_same('new residual', lambda: ctx.value(eq.eval(dict(env)), {}), lambda: val(env))
    ctx.check('new objects', set(eq.objects_declared) == set(objects(*ts)), sorted(eq.objects_declared))
    ctx.check('new type', eq.type == 'linear', eq.type)
    if b is None:
        for s in ('lhs', 'rhs'):
            ctx.expect_raises('no sides left from an earlier equality', lambda: eq.eval(dict(env), side=s), 'AbsentRequiredObjectError')
        ctx.check_same('the equation gives its new residual', lambda: ctx.value(eq().symbolic_object, env), lambda: val(env))
    else:
        ctx.check_same('new left side', lambda: ctx.value(eq.eval(dict(env), side='lhs'), {}), lambda: a.val(env))
        ctx.check_same('new right side', lambda: ctx.value(eq.eval(dict(env), side='rhs'), {}), lambda: b.val(env))
        ctx.check_same('the equation gives its new left side', lambda: ctx.value(eq(0).symbolic_object, env), lambda: a.val(env))
        ctx.check_same('the equation gives its new right side', lambda: ctx.value(eq(1).symbolic_object, env), lambda: b.val(env))
    cur = current(ctx, *ts)
    ctx.check_same('new residual at current values', lambda: ctx.value(eq.getResidual(), {}), lambda: val(cur))


RESETS = ['residual', 'one', 'equality', 'literal', 'product']


def cases(tier):
    c = group(residual, [s for s in SIDES if s != 'num'])
    ps = [(a, b) for a in SIDES for b in SIDES if not (a == b == 'num')]
    if tier == 'quick':
        ps = [(a, b) for a, b in ps if a in ('x', 'num', 'p', 'x*y', 'p/x') or b in ('x', 'num', 'p')]
    c.update(group(equality, ps))
    c.update(group(shared, list('+-*/')))
    c.update(group(reset, [(a, b) for a in RESETS for b in RESETS] + ([] if tier == 'quick' else [(a, b, d) for a in RESETS for b in RESETS for d in RESETS])))
    return c
