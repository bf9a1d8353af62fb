"""S01: a linear problem is solved by the configured back end, and the answer solves the equations."""
from .sims import *
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers']
BOUNDS = 'linear families of one to three unknowns (one or two models), every declaration order, arbitrary coefficients with a non-singular matrix, arbitrary start values; back ends sympy (run for real on symbolic coefficients), scipy and symbolicsys (by contract); one family of eleven unknowns and one of four whose names contain each other, in three declaration orders'
ASSUMES = ['scipy.linalg.solve(A, b) returns x with A x = b; SymbolicSys.solve returns a root of the expressions when it reports success; sympy.solve is run for real']
FAMS = [n for n in LIN if n != 'free parameter']


def orders(ctx, f):
    return order_of(ctx, 'variables', len(f.vars)), order_of(ctx, 'equations', len(f.eqs)) if len(f.eqs) < 3 else some_orders(ctx, 'equations', len(f.eqs), [(0, 1, 2), (2, 1, 0)])


def regular(ctx, name, m='M'):
    """the coefficient matrix is not singular"""
    g = lambda x: ctx.real('%s.%s' % (m, x))
    if name == 'plain':
        ctx.assume(ctx.same(g('a') + g('b'), 0) == False if not ctx.symbolic else ~ctx.same(g('a') + g('b'), 0))
    if name == 'mixed':
        # x + y = a, z = b x, k y = z
        k = ctx.real('num.k')
        s = ctx.same(k + g('b'), 0)
        ctx.assume(s == False if not ctx.symbolic else ~s)


def scipy_stub(ctx, rs, names, calls):
    def solve(A, b, lower=False, overwrite_a=False, overwrite_b=False, check_finite=True, assume_a=None, transposed=False):
        calls.append(1)
        nn = len(names)
        # entries scipy does not read under the structure it was told
        part = {'sym': ('sym', lower), 'her': ('sym', lower), 'pos': ('sym', lower), 'symmetric': ('sym', lower), 'hermitian': ('sym', lower), 'positive definite': ('sym', lower),
                'diagonal': ('band', 0, 0), 'tridiagonal': ('band', 1, 1), 'upper triangular': ('band', 0, nn), 'lower triangular': ('band', nn, 0)}.get(assume_a)
        A0 = A
        if part or transposed:
            def entry(i, j):
                if transposed:
                    i, j = j, i
                if part and part[0] == 'sym':
                    return A0[max(i, j), min(i, j)] if part[1] else A0[min(i, j), max(i, j)]
                return A0[i, j] if not part or -part[1] <= j - i <= part[2] else 0
            import numpy as np
            A = np.array([[entry(i, j) for j in range(nn)] for i in range(nn)], dtype=object)
        ctx.check('a square matrix', tuple(A.shape) == (nn, nn) and len(rs) == nn, tuple(A.shape))
        ctx.check('one right-hand side per equation', b.size == nn)
        bb = b.reshape(-1)
        X = [ctx.real('any.%d' % i) for i in range(nn)]
        # which column belongs to which unknown: the order the names were assembled in
        env = dict(zip(names, X))
        for i in range(nn):
            s = 0
            for j in range(nn):
                s = s + A[i, j] * X[j]
            ctx.check_same('A x - b is the residual, for every x', lambda: ctx.value(s - bb[i], {}), lambda: rs[i].res(env))
        x = [ctx.real('root%d.%s' % (len(calls), n)) for n in names]
        import numpy as np
        calls.append(dict(zip(names, x)))
        o = np.empty(nn, dtype=object if ctx.symbolic else float)
        for i in range(nn):
            o[i] = x[i]
        return o
    ctx.mod('solvers')
    ctx.boundary('scipy.linalg', 'solve', solve)
    ctx.boundary('numpy.linalg', 'solve', lambda A, b: solve(A, b))


def sympy_real(ctx, v):
    ctx.partial = True          # regular for positive values
    f = LIN[v]
    regular(ctx, v)
    vo, eo = orders(ctx, f)
    p, ms, rs, names = steady(ctx, f, vorder=vo, eorder=eo)
    forbid(ctx, 'SymbolicSys', 'scp_solve', 'scp_root')
    sim = simulation(ctx, p, linear_solver=ctx.choice('named', ['sympy', None]) if v == 'plain' else 'sympy')
    run(sim)
    got = solution(ctx, sim, names)
    got = {n: ctx.value(x, {}) for n, x in got.items()}
    for r in rs:
        ctx.check_same('the answer solves every equation', lambda: r.res(got), lambda: 0)
    same_solution(ctx, sim, names, got)


def sympy_two(ctx, v):
    ctx.partial = True          # regular for positive values
    regular(ctx, v[0])
    regular(ctx, v[1], 'N')
    p, ms, rs, names = steady(ctx, LIN[v[0]], LIN[v[1]])
    forbid(ctx, 'SymbolicSys', 'scp_solve', 'scp_root')
    sim = simulation(ctx, p, linear_solver='sympy')
    run(sim)
    got = {n: ctx.value(x, {}) for n, x in solution(ctx, sim, names).items()}
    for r in rs:
        ctx.check_same('the answer solves every equation', lambda: r.res(got), lambda: 0)


def scipy_(ctx, v):
    f = LIN[v]
    vo, eo = orders(ctx, f)
    p, ms, rs, names = steady(ctx, f, vorder=vo, eorder=eo)
    calls = []
    forbid(ctx, 'SymbolicSys', 'sp_solve', 'scp_root')
    scipy_stub(ctx, rs, names, calls)
    sim = simulation(ctx, p, linear_solver='scipy')
    run(sim)
    ctx.check('solved once', len(calls) == 2)
    same_solution(ctx, sim, names, calls[-1])


def scipy_two(ctx, v):
    p, ms, rs, names = steady(ctx, LIN[v[0]], LIN[v[1]])
    calls = []
    scipy_stub(ctx, rs, names, calls)
    sim = simulation(ctx, p, linear_solver='scipy')
    run(sim)
    same_solution(ctx, sim, names, calls[-1])


def symsys(ctx, v):
    name, how = v
    f = LIN[name]
    vo, eo = orders(ctx, f)
    p, ms, rs, names = steady(ctx, f, vorder=vo, eorder=eo)
    forbid(ctx, 'sp_solve', 'scp_solve', 'scp_root')
    regular(ctx, name)
    S = SymSys(ctx, rs, names).install()
    conf = {} if how in ('default', 'guess') else {'linear_solver': 'symbolicsys'}
    if 'guess' in how:
        g = {n: ctx.real('guess.' + n) for n in names}
        conf['initial_guess'] = told(ctx, g)
    sim = simulation(ctx, p, **conf)
    run(sim)
    for n in names:
        ctx.check_same('start values: as given by name, or one', S.guess[n], g[n] if 'guess' in how else 1)
    same_solution(ctx, sim, names, S.x)
    if ctx.symbolic:
        for r in rs:
            ctx.check_same('the answer solves every equation', lambda: r.res({n: ctx.value(x, {}) for n, x in solution(ctx, sim, names).items()}), lambda: 0)


def fails(ctx, v):
    """a failed solution is reported, never returned"""
    p, ms, rs, names = steady(ctx, LIN[v])
    S = SymSys(ctx, rs, names, success=False).install()
    sim = simulation(ctx, p)
    ctx.expect_raises('failure is reported', lambda: run(sim), 'NumericalError')
    ctx.check('and no output is kept', sim.output is None)


def again(ctx, v):
    """run again with other parameter values: the new system is solved"""
    ctx.partial = True          # regular for positive values
    name, back = v
    regular(ctx, name)
    p, ms, rs, names = steady(ctx, LIN[name])
    calls = []
    for i in range(2):
        if i:
            for o in ms[0].parameters.values():
                o.setValue(ctx.real('new.' + o.name))
                ctx.assume(o.value > 0)
            p.resolve()
            rs = refs(*ms)
            k = ctx.real('num.k')
            ctx.assume(k > 0)
        if back == 'scipy':
            scipy_stub(ctx, rs, names, calls)
        if back == 'symbolicsys':
            S = SymSys(ctx, rs, names).install()
            S.n = 50 * i
        sim = simulation(ctx, p, linear_solver=back)
        run(sim)
        if back == 'symbolicsys':
            calls.append(S.x)
        got = {n: ctx.value(x, {}) for n, x in solution(ctx, sim, names).items()}
        if back == 'sympy':
            for r in rs:
                ctx.check_same('the answer solves every equation', lambda: r.res(got), lambda: 0)
        else:
            same_solution(ctx, sim, names, calls[-1])


def connected(ctx, v):
    """two models joined by a connection"""
    ctx.partial = True          # regular for positive values
    regular(ctx, 'plain')
    a = build(ctx, LIN['plain'], 'M')
    b = build(ctx, Fam('x y', 'a', [('e1', ('-', q('y'), ('*', q('a'), q('x'))))]), 'N')
    pos_pars(ctx, a, b)
    p = problem(ctx, a, b)
    p.createConnection(a, b, a.y(), b.x())
    p.resolve()
    names = list(p.equation_block._var_list)
    sim = simulation(ctx, p, linear_solver='sympy')
    run(sim)
    got = {n: ctx.value(x, {}) for n, x in solution(ctx, sim, names).items()}
    for r in refs(a, b):
        ctx.check_same('the answer solves every equation', lambda: r.res(got), lambda: 0)
    ctx.check_same('and the connection', lambda: got['y_M'], lambda: got['x_N'])


def cases(tier):
    c = group(sympy_real, FAMS)
    c.update(group(scipy_, FAMS))
    c.update(group(symsys, [(f, h) for f in FAMS for h in ('default', 'guess', 'named', 'named guess')]))
    c.update(group(sympy_real, ['names', 'four', 'decimals']))
    c.update(group(scipy_, ['names', 'chain', 'decimals']))
    c.update(group(symsys, [(f, h) for f in ('names', 'chain', 'decimals') for h in ('default', 'guess')]))
    two = [('plain', 'one'), ('one', 'mixed')] if tier == 'quick' else [(a, b) for a in FAMS for b in FAMS]
    c.update(group(sympy_two, [t for t in two if 'mixed' != t[1]]))
    c.update(group(scipy_two, two))
    c.update(group(fails, FAMS))
    c.update(group(again, [(f, b) for f in ('one', 'plain', 'equalities') for b in ('sympy', 'scipy', 'symbolicsys')]))
    c.update(group(connected, ['connected']))
    return c
