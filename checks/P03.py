"""P03: a simulation starts exactly when unknowns and equations balance."""
from .system import *
from .sims import solver_standins
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'analysis', 'solvers']
BOUNDS = 'zero to three unknown variables mentioned, zero to two unspecified parameters mentioned, one to four equations, spread over one or two models, algebraic and dynamic (with and without time appearing); variables fixed before or between resolutions; arbitrary values'


def count(ctx, nv, nu, ne, dyn=False, time=False, nspec=1, mention=True):
    """a model whose equations mention nv variables, nu unspecified and nspec specified parameters"""
    vs = ['v%d' % i for i in range(nv)]
    us = ['u%d' % i for i in range(nu)]
    ss = ['s%d' % i for i in range(nspec)]
    tot = None
    for x in vs + us + ss + (['t'] if time else []):
        tot = q(x) if tot is None else ('+', tot, q(x))
    eqs = []
    for i in range(ne):
        if dyn and i < nv:
            eqs.append(('e%d' % i, d(vs[i]), tot))
        elif i == 0 or not (vs + us):
            eqs.append(('e%d' % i, ('-', tot, n('k%d' % i))))
        else:
            eqs.append(('e%d' % i, q((vs + us)[i % len(vs + us)]), n('k%d' % i)))
    return Fam(' '.join(vs + ['idle']), ' '.join(us + ss + ['spare']), eqs, time='t' if dyn else None, free=us + ['spare'])


def declared(ctx, m, k):
    """unspecified parameters may carry a value from their declaration; that does not specify them"""
    if k:
        for p in m.parameters.values():
            if not p.is_specified:
                p.value = ctx.real('declared.' + p.name)


def verdict(ctx, p, dof, opt=0, time=None):
    if time is not None:
        p.setTimeVariableName(time)
    A = ctx.mod('analysis').DOF_Analysis(p, opt)
    if dof == 0:
        e = ctx.raised(lambda: A._makeSanityChecks())
        ctx.check('balanced system is accepted', e is None, str(e))
    else:
        e = ctx.raised(lambda: A._makeSanityChecks())
        ctx.check('unbalanced system is rejected', e is not None)
        ctx.check('the message says which way', ('UNDER' if dof > 0 else 'OVER') in str(e) and str(abs(dof)) in str(e), str(e)[:90])


def algebraic(ctx, v):
    nv, nu = v
    ne = ctx.choice('equations', [1, 2, 3, 4])
    ns = ctx.choice('specified', [1, 2])
    m = build(ctx, count(ctx, nv, nu, ne, nspec=ns))
    if nu:
        declared(ctx, m, ctx.flag('declared with a value'))
    p = problem(ctx, m)
    p.resolve()
    verdict(ctx, p, nv + nu - ne, opt=ctx.choice('parameters to optimise', [0, 1, 2]))


def with_time(ctx, v):
    """in a problem without derivatives a variable named as time is an unknown like others"""
    nv, ne = v
    f = count(ctx, nv, 0, ne, time=True)
    f.vars.append('t')
    m = build(ctx, f)
    p = problem(ctx, m)
    p.setTimeVariableName(['t_M'])
    p.resolve()
    verdict(ctx, p, nv + 1 - ne)


def dynamic(ctx, v):
    """derivatives do not add unknowns; neither does time"""
    nv, time, form = v
    ne = ctx.choice('equations', [1, 2, 3])
    nu = ctx.choice('free parameters', [0, 1])
    m = build(ctx, count(ctx, nv, nu, ne, dyn=True, time=time))
    p = problem(ctx, m)
    p.resolve()
    verdict(ctx, p, nv + nu - ne, time=['t_M'] if form == 'list' else 't_M')


def dae_time(ctx, v):
    """time is no unknown wherever it appears: in a rate, in an algebraic equation, in a connection or nowhere"""
    where, ne = v
    a = Fam('x z', 'k', [('e0', d('x'), ('+', ('*', q('k'), q('z')), q('t')) if where in ('rate', 'both') else ('*', q('k'), q('z'))),
                         ('e1', ('-', ('*', q('z'), q('k')), ('+', q('x'), q('t')) if where in ('algebraic', 'both') else q('x')))]
            + [('e2', q('z'), ('*', n('c'), q('t')) if where == 'surplus' else n('c'))][:ne - 2], time='t')
    m = build(ctx, a)
    p = problem(ctx, m)
    for _ in range(ctx.choice('resolved', [1, 2])):
        p.resolve()
    verdict(ctx, p, 2 - ne, time=['t_M'] if ctx.flag('as a list') else 't_M')


def two_models(ctx, v):
    """spread over two models"""
    (nv1, ne1), (nv2, ne2) = v
    a = build(ctx, count(ctx, nv1, 0, ne1), 'M')
    b = build(ctx, count(ctx, nv2, 0, ne2), 'N')
    p = problem(ctx, a, b)
    link = ctx.flag('link') if nv1 and nv2 else False
    if link:
        p.createConnection(a, b, a.v0(), b.v0())
    p.resolve()
    verdict(ctx, p, nv1 + nv2 - ne1 - ne2 - (1 if link else 0))


def called_alike(ctx, v):
    """unknowns and unspecified parameters called alike in two models, or but for the size of a letter or an ending, are as many as they are"""
    ne = ctx.choice('equations of M', [1, 2, 3, 4])
    ends = {'ending': ('p_1', 'p_2', 'q_1', 'q_2'), 'letters': ('w', 'W', 'g', 'G'), 'contained': ('a', 'aa', 'b', 'bb'), 'models': ('x', 'y', 'p', 'r')}[v]
    x1, x2, p1, p2 = ends
    tot = ('+', ('+', q(x1), q(x2)), ('+', q(p1), q(p2)))
    f = Fam(x1 + ' ' + x2, p1 + ' ' + p2, [('e0', ('-', tot, n('k0')))] + [('e%d' % i, q(ends[i]), n('k%d' % i)) for i in range(1, ne)], free=[p1, p2])
    ms = [build(ctx, f, nm) for nm in ('M', 'N')[:1 + (v == 'models')]]
    p = problem(ctx, *ms)
    p.resolve()
    verdict(ctx, p, (4 - ne) * len(ms))


def said_twice(ctx, v):
    """each equation counts, also one that says the same as another"""
    eqs = {'same': [('-', q('x'), q('a'))] * 2, 'same equality': [(q('x'), q('a'))] * 2, 'both forms': [('-', q('x'), q('a')), (q('x'), q('a'))], 'balanced': [('-', ('+', q('x'), q('y')), q('a'))] * 2}[v]
    f = Fam('x y', 'a', [('e%d' % i, *(e if isinstance(e[0], tuple) else (e,))) for i, e in enumerate(eqs)])
    m = build(ctx, f)
    p = problem(ctx, m)
    p.resolve()
    verdict(ctx, p, (2 if v == 'balanced' else 1) - 2)


def two_times(ctx, v):
    """each model has its own time, which adds nothing whether or not it appears"""
    ta, tb = v
    na, nb = ctx.choice('equations of M', [1, 2]), ctx.choice('equations of N', [1, 2])
    a = build(ctx, count(ctx, 1, 0, na, dyn=True, time=ta), 'M')
    b = build(ctx, count(ctx, 1, 0, nb, dyn=True, time=tb), 'N')
    p = problem(ctx, a, b)
    p.resolve()
    verdict(ctx, p, 2 - na - nb, time=ctx.choice('times', [['t_M', 't_N'], ['t_N', 't_M']]))


def specify(ctx, v):
    """specifying an unspecified parameter closes one degree of freedom"""
    m = build(ctx, count(ctx, 1, 1, 1))
    p = problem(ctx, m)
    p.resolve()
    verdict(ctx, p, 1)
    m.u0.setValue(ctx.real('val'))
    if v == 'resolve':
        p.resolve()
    verdict(ctx, p, 0)


def fix_variable(ctx, v):
    """a variable given a value is no unknown"""
    nv, ne = v
    m = build(ctx, count(ctx, nv, 0, ne))
    p = problem(ctx, m)
    k = ctx.choice('fixed', list(range(1, nv + 1)))
    first = ctx.flag('resolved before')
    if first:
        p.resolve()
        verdict(ctx, p, nv - ne)
    for i in range(k):
        m.variables['v%d_M' % i].setValue(ctx.real('fixed%d' % i))
    p.resolve()
    verdict(ctx, p, nv - k - ne)


class Ran(Exception):
    pass


def gate(ctx, v):
    """runSimulation stops before solving an unbalanced system, unless told not to check"""
    nv, nu, ne = v
    m = build(ctx, count(ctx, nv, nu, ne))
    p = problem(ctx, m)
    p.resolve()
    calls = []

    def solve(cls):
        calls.append(1)
        return {x: 0.0 for x in p.equation_block._var_list}
    solver_standins(ctx, None, solve)
    sim = ctx.mod('simulation').Simulation('S', 'd', problem=p)
    sim.setConfigurations()
    chk = ctx.choice('check', ['default', True, False])
    kw = {} if chk == 'default' else {'sanity_check': chk}
    e = ctx.raised(lambda: sim.runSimulation(show_output_msg=False, show_final_residuals=False, **kw))
    if nv + nu == ne or chk is False:
        ctx.check('solved', e is None and calls == [1], (str(e), calls))
    else:
        ctx.check('stopped before solving', e is not None and calls == [], calls)
        ctx.check('no output', sim.output is None)


def cases(tier):
    c = group(algebraic, [(v, u) for v in range(4) for u in range(3)])
    c.update(group(with_time, [(n, e) for n in (1, 2) for e in (1, 2, 3)]))
    c.update(group(dynamic, [(v, t, f) for v in (1, 2, 3) for t in (False, True) for f in ('list', 'name')]))
    c.update(group(dae_time, [(w, e) for w in ('rate', 'algebraic', 'both', 'none') for e in (2, 3)] + [('surplus', 3)]))
    ps = [(v, e) for v in range(3) for e in (1, 2, 3)]
    c.update(group(two_models, [(a, b) for a in ps for b in ps if tier == 'thorough' or (a[0] + b[0] - a[1] - b[1]) in (-1, 0, 1)]))
    c.update(group(specify, ['resolve', 'no resolve']))
    c.update(group(fix_variable, [(n, e) for n in (1, 2, 3) for e in (1, 2)]))
    c.update(group(gate, [(1, 0, 1), (2, 0, 1), (1, 0, 2), (1, 1, 1), (1, 1, 2), (2, 0, 2), (2, 1, 2)]))
    c.update(group(two_times, [(x, y) for x in (False, True) for y in (False, True)]))
    c.update(group(called_alike, ['ending', 'letters', 'contained', 'models']))
    c.update(group(said_twice, ['same', 'same equality', 'both forms', 'balanced']))
    return c
