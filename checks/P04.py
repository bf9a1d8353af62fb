"""P04: the functions handed to numerical solvers compute the assembled equations."""
from .system import *
PRELOAD = ['problem', 'model', 'connection']
BOUNDS = 'model families of one to three equations of every class, every order of declaration of variables and equations (two models included), arbitrary parameter values and evaluation points, derivative values and times; one family of eleven (six of a differential-algebraic model) unknowns and one of four whose names contain each other, in three declaration orders'
ASSUMES = ['sympy.lambdify evaluates the expressions it is given (the real call is made and must succeed); numba.jit is the identity']


def resolved(ctx, *ms):
    pos_pars(ctx, *ms)
    p = problem(ctx, *ms)
    p.resolve()
    return p


def orders(ctx, f, full=True):
    k, e = len(f.vars), len(f.eqs)
    return order_of(ctx, 'variables', k), (order_of(ctx, 'equations', e) if full and e < 3 else (tuple(range(e)) if e < 3 else some_orders(ctx, 'equations', len(f.eqs), [(0, 1, 2), (2, 0, 1)])))


def same_list(ctx, label, got, want):
    got = list(got)
    ctx.check(label + ': one value per equation', len(got) == len(want), len(got))
    for g, w in zip(got, want):
        ctx.check_same(label, lambda: ctx.value(g, {}), lambda: w)


def algebraic(ctx, v):
    kind, name = v
    f = TYPES[kind][name]
    vo, eo = orders(ctx, f)
    m = build(ctx, f, vorder=vo, eorder=eo)
    p = resolved(ctx, m)
    eb = p.equation_block
    fun = eb._getEquationBlockAsFunction()
    env, _ = env_names(ctx, list(eb._var_list))
    same_list(ctx, 'residuals at a point', fun([env[n] for n in eb._var_list]), [r.res(env) for r in refs(m)])
    env2, _ = env_names(ctx, list(eb._var_list), 'again')
    same_list(ctx, 'residuals at another point', fun([env2[n] for n in eb._var_list]), [r.res(env2) for r in refs(m)])


def algebraic_two(ctx, v):
    a, b = build(ctx, LIN[v], 'M'), build(ctx, NLIN['product'], 'N')
    p = resolved(ctx, a, b)
    eb = p.equation_block
    fun = eb._getEquationBlockAsFunction()
    env, _ = env_names(ctx, list(eb._var_list))
    same_list(ctx, 'residuals of both models', fun([env[n] for n in eb._var_list]), [r.res(env) for r in refs(a, b)])


def point(ctx, p, times=('t_M',), tag='at'):
    """a state, a derivative for every variable, and a time"""
    eb = p.equation_block
    ys = [n for n in eb._var_list if n not in times]
    env, _ = env_names(ctx, ys, tag)
    t = ctx.real(tag + '.time')
    for k in times:
        env[k] = t
    return ys, env, t


def elementary(ctx, v):
    """dx/dt = rhs: the right-hand sides, as a function of the variables in the block's order"""
    name, form, full = v
    f = ODE[name]
    vo, eo = orders(ctx, f, full)
    m = build(ctx, f, vorder=vo, eorder=eo)
    p = resolved(ctx, m)
    eb = p.equation_block
    fun = eb._getEquationBlockAsFunction('elementary', 'rhs', form)
    ys, env, t = point(ctx, p)
    same_list(ctx, 'right-hand sides', fun(*[env[n] for n in eb._var_list]), [r.r.val(env) for r in refs(m)])


def dae(ctx, v):
    """F(t, y, yd): residuals with each derivative taken from yd, each variable from y"""
    name, mech, times = v
    f = DAE[name] if name in DAE else ODE[name]
    vo, eo = orders(ctx, f)
    m = build(ctx, f, vorder=vo, eorder=eo)
    p = resolved(ctx, m)
    eb = p.equation_block
    fun = eb._getEquationBlockAsFunction('residual', 'rhs', mech, times)
    ys, env, t = point(ctx, p)
    same_list(ctx, 'residuals', fun(t, [env[n] for n in ys], [env['d/' + n] for n in ys]), [r.res(env) for r in refs(m)])


def maps(ctx, v):
    """positions in y and yd, and which variables carry a derivative"""
    f = DAE[v] if v in DAE else ODE[v]
    vo, eo = orders(ctx, f)
    m = build(ctx, f, vorder=vo, eorder=eo)
    p = resolved(ctx, m)
    eb = p.equation_block
    ys = [n for n in eb._var_list if n != 't_M']
    ydm, ym = eb._getMapForRewriteSystemAsResidual(['t_M'])
    ctx.check('y holds every variable but time, in order', [str(k) for k in ym] == ys and [str(x) for x in ym.values()] == ['y[%d]' % i for i in range(len(ys))])
    dn = set(x for e in f.eqs for x in derivs(e))
    ctx.check('every derivative has a place', set(str(k.args[0]) for k in ydm) == set(x + '_M' for x in dn))
    for k, s in ydm.items():
        ctx.check('in the place of its variable', str(s) == 'yd[%d]' % ys.index(str(k.args[0])))
    flags = eb._getBooleanDiffFlagsForVariables(['t_M'])
    ctx.check('flags: 1 where differential, 0 where algebraic', [float(x) for x in flags] == [1.0 if n[:-2] in dn else 0.0 for n in ys], flags)


def derivs(e):
    if not isinstance(e, tuple):
        return []
    if e[0] == 'd':
        return [e[1]]
    return [x for a in e for x in derivs(a)]


def dae_two(ctx, v):
    """two dynamic models with clocks of their own"""
    a, b = build(ctx, DAE[v], 'M'), build(ctx, DAE['explicit time'], 'N')
    p = resolved(ctx, a, b)
    eb = p.equation_block
    fun = eb._getEquationBlockAsFunction('residual', 'rhs', 'numpy', ['t_M', 't_N'])
    ys, env, t = point(ctx, p, ('t_M', 't_N'))
    same_list(ctx, 'residuals of both', fun(t, [env[n] for n in ys], [env['d/' + n] for n in ys]), [r.res(env) for r in refs(a, b)])


def declared(ctx, v):
    """whether a quantity occurs in (a class of) the equations"""
    f = ODE[v] if v in ODE else DAE[v]
    m = build(ctx, f)
    p = resolved(ctx, m)
    eb = p.equation_block
    rs = refs(m)
    diff = [r for r, e in zip(rs, f.eqs) if derivs(e)]
    for nm in list(m.variables) + list(m.parameters) + ['nothing']:
        ctx.check('occurs anywhere', bool(eb._hasVarBeenDeclared(nm)) == any(nm in r.objs for r in rs))
        ctx.check('occurs in differential equations', bool(eb._hasVarBeenDeclared(nm, 'differential')) == any(nm in r.objs for r in diff))
        ctx.check('given as a list', bool(eb._hasVarBeenDeclared(['nothing', nm])) == any(nm in r.objs for r in rs))


def cases(tier):
    c = group(algebraic, [(k, n) for k in ('linear', 'nonlinear') for n in TYPES[k] if n != 'free parameter'] + [m for m in MORE if m[0] in ('linear', 'nonlinear')])
    c.update(group(algebraic_two, [n for n in LIN if n != 'free parameter']))
    c.update(group(elementary, [(n, mech, tier == 'thorough') for n in ODE for mech in (('numpy',) if tier == 'quick' else ('numpy', 'mpmath', 'math'))]))
    c.update(group(dae, [(n, 'numpy', ['t_M']) for n in list(DAE) + ['coupled', 'explicit time', 'functions', 'three']]))
    if tier == 'thorough':
        c.update(group(dae, [(n, mech, ['t_M']) for n in DAE for mech in ('mpmath', 'math')]))
    c.update(group(maps, list(DAE) + ['coupled', 'three', 'explicit time']))
    c.update(group(elementary, [(n, 'numpy', False) for n in ODE.more]))
    c.update(group(dae, [(n, 'numpy', ['t_M']) for n in DAE.more]))
    c.update(group(maps, list(DAE.more)))
    c.update(group(declared, list(ODE.more)))
    c.update(group(dae_two, [n for n in DAE if n not in ('functions',)]))
    c.update(group(declared, list(ODE) + list(DAE)))
    return c
