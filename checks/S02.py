"""S02: a nonlinear problem is solved by the configured back end from the configured start."""
from .sims import *
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers']
BOUNDS = 'nonlinear families of one and two unknowns (one or two models), every declaration order, arbitrary coefficients and start values, polished start or not (success and failure); back ends symbolicsys and scipy.root by contract, sympy run for real where it solves in closed form; one family of eleven unknowns and one of four whose names contain each other, in three declaration orders'
ASSUMES = ['SymbolicSys.solve returns a root of the expressions when it reports success; scipy root may call the function anywhere and returns any point']
FAMS = [n for n in NLIN if n != 'free parameter']


def orders(ctx, f):
    return order_of(ctx, 'variables', len(f.vars)), order_of(ctx, 'equations', len(f.eqs))


def root_stub(ctx, rs, names, success, calls):
    def root(fun, x0, args=(), method='hybr', **k):
        calls.append((method, dict(zip(names, list(x0)))))
        for t in ('p', 'q'):
            env, _ = env_names(ctx, names, t)
            got = list(fun([env[n] for n in names]))
            ctx.check('polishing sees one residual per equation', len(got) == len(rs))
            for g, r in zip(got, rs):
                ctx.check_same('polishing sees the residuals', lambda: ctx.value(g, {}), lambda: r.res(env))

        class R:
            pass
        r = R()
        r.success = success
        r.x = [ctx.real('polished.' + n) for n in names]
        return r
    ctx.mod('solvers')
    ctx.boundary('scipy.optimize', 'root', root)


def wiring(ctx, v):
    name, conf, guess, polish = v
    f = NLIN[name]
    vo, eo = orders(ctx, f)
    p, ms, rs, names = steady(ctx, f, vorder=vo, eorder=eo)
    forbid(ctx, 'sp_solve', 'scp_solve')
    c = {} if conf == 'default' else {'nonlinear_solver': conf}
    g = {n: 1 for n in names}
    if guess:
        g = {n: ctx.real('guess.' + n) for n in names}
        c['initial_guess'] = told(ctx, g)
    calls = []
    if polish:
        kind, ok = polish
        c['initial_guess_solver'] = kind
        root_stub(ctx, rs, names, ok, calls)
        if ok:
            want = {n: ctx.real('polished.' + n) for n in names}
        else:
            want = g
    else:
        forbid(ctx, 'scp_root')
        want = g
    S = SymSys(ctx, rs, names).install()
    sim = simulation(ctx, p, **c)
    run(sim)
    if polish:
        ctx.check('polished once, by the method asked for', len(calls) == 1 and calls[0][0] == ('anderson' if polish[0] == 'anderson' else 'hybr'), [x[0] for x in calls])
        for n in names:
            ctx.check_same('polishing starts from the start values', calls[0][1][n], g[n])
    for n in names:
        ctx.check_same('the solver starts where it should', S.guess[n], want[n])
    if guess:
        ctx.check('the start given is still the one given', set(c['initial_guess']) == set(names))
        for n in names:
            ctx.check_same('the start given is still the one given', c['initial_guess'][n], g[n])
    same_solution(ctx, sim, names, S.x)


def two(ctx, v):
    p, ms, rs, names = steady(ctx, NLIN[v[0]], (LIN if v[1] in LIN and v[1] not in NLIN else NLIN)[v[1]])
    g = {n: ctx.real('guess.' + n) for n in names}
    S = SymSys(ctx, rs, names).install()
    sim = simulation(ctx, p, initial_guess=told(ctx, g))
    run(sim)
    for n in names:
        ctx.check_same('the solver starts where it should', S.guess[n], g[n])
    same_solution(ctx, sim, names, S.x)


def fails(ctx, v):
    p, ms, rs, names = steady(ctx, NLIN[v])
    SymSys(ctx, rs, names, success=False).install()
    sim = simulation(ctx, p)
    ctx.expect_raises('failure is reported', lambda: run(sim), 'NumericalError')
    ctx.check('and no output is kept', sim.output is None)


def fails_later(ctx, v):
    """a failure after a success does not leave the old answer as the new one"""
    p, ms, rs, names = steady(ctx, NLIN[v])
    S = SymSys(ctx, rs, names).install()
    sim = simulation(ctx, p)
    run(sim)
    x = S.x
    SymSys(ctx, rs, names, success=False).install()
    ctx.expect_raises('failure is reported', lambda: run(sim), 'NumericalError')


def again(ctx, v):
    """warm start and new parameters: each run solves the system of the moment"""
    p, ms, rs, names = steady(ctx, NLIN[v])
    S = SymSys(ctx, rs, names).install()
    sim = simulation(ctx, p)
    run(sim)
    first = S.x
    same_solution(ctx, sim, names, first)
    for o in ms[0].parameters.values():
        o.setValue(ctx.real('new.' + o.name))
        defined(ctx, o.value)
    p.resolve()
    rs2 = refs(*ms)
    S2 = SymSys(ctx, rs2, names).install()
    S2.n = 50
    sim.setConfigurations(initial_guess=dict(first))
    run(sim)
    for n in names:
        ctx.check_same('the solver starts where it should', S2.guess[n], first[n])
    same_solution(ctx, sim, names, S2.x)


def sympy_real(ctx, v):
    """closed-form solution by sympy"""
    ctx.partial = True          # solvable for positive values
    f = Fam('x y', 'a b', {'triangular': [('e1', ('-', q('x'), q('a'))), ('e2', ('*', q('x'), q('y')), q('b'))],
                           'product': [('e1', ('*', q('x'), q('y')), q('a')), ('e2', q('x'), ('*', q('b'), q('y')))]}[v])
    if v == 'product':
        f = Fam('x y', 'a b', [('e1', ('*', q('x'), q('y')), q('a')), ('e2', q('y'), q('b'))])
    vo, eo = orders(ctx, f)
    p, ms, rs, names = steady(ctx, f, vorder=vo, eorder=eo)
    forbid(ctx, 'SymbolicSys', 'scp_solve', 'scp_root')
    sim = simulation(ctx, p, nonlinear_solver='sympy')
    run(sim)
    got = {n: ctx.value(x, {}) for n, x in solution(ctx, sim, names).items()}
    for r in rs:
        ctx.check_same('the answer solves every equation', lambda: r.res(got), lambda: 0)
    same_solution(ctx, sim, names, got)


def unknown_name(ctx, v):
    p, ms, rs, names = steady(ctx, NLIN['product'])
    forbid(ctx, 'SymbolicSys', 'scp_solve', 'scp_root', 'sp_solve')
    sim = simulation(ctx, p, nonlinear_solver=v)
    e = ctx.raised(lambda: run(sim))
    ctx.check('an unknown back end is refused', type(e).__name__ == 'AbsentRequiredObjectError', type(e).__name__)
    ctx.check('no output', sim.output is None)


def cases(tier):
    confs = [(f, 'default', False, None) for f in FAMS] + [(f, 'default', True, None) for f in FAMS]
    confs += [('product', c, g, None) for c in ('*', 'symbolicsys', None) for g in (False, True)]
    pol = [(k, ok) for k in ('hybr', 'anderson', '') for ok in (True, False)]
    confs += [(f, 'default', g, pl) for f in (FAMS if tier == 'thorough' else ['product', 'quotient']) for g in (True, False) for pl in pol]
    confs += [(f, 'default', True, pl) for f in NLIN.more for pl in (None, ('hybr', True)) if f != 'chain' or pl is None]
    confs += [(f, 'default', False, None) for f in NLIN.more]
    if tier != 'thorough':
        confs += [('one', 'default', True, ('hybr', True)), ('one', 'default', False, ('anderson', True))]
    c = group(wiring, confs)
    c.update(group(two, [('product', 'quotient'), ('one', 'plain'), ('functions', 'one')]))
    c.update(group(fails, FAMS))
    c.update(group(fails_later, ['product']))
    c.update(group(again, ['product', 'one']))
    c.update(group(sympy_real, ['triangular', 'product']))
    c.update(group(unknown_name, ['newton']))
    return c
