"""S04: dynamic results are kept under the right names, appended, renamed and reset."""
from .sims import *
from .S03 import conf, orders
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers', 'core.domain']
BOUNDS = 'one to three states, every declaration, equation and domain order, one to three steps, arbitrary solution values; renamed headers, one to three runs, reset between runs, problems whose domain holds more variables than are integrated, odeint and CVODE; one family of eleven unknowns and one of four whose names contain each other, in three declaration orders'
ASSUMES = ['odeint and CVode return arbitrary numbers']


def one_run(ctx, sim, O):
    run(sim)
    names, t, Y, k = O.runs[-1]
    return t, {n: [Y[i, j] for i in range(len(t))] for j, n in enumerate(names)}


def labels(ctx, v):
    name, n = v
    f = ODE[name]
    k = len(f.vars)
    vo = order_of(ctx, 'variables', k) if k < 3 else some_orders(ctx, 'variables', len(f.vars), [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    eo = order_of(ctx, 'equations', len(f.eqs))
    do = order_of(ctx, 'domain', k) if k < 3 else some_orders(ctx, 'domain', len(f.vars), [(0, 1, 2), (1, 2, 0), (2, 1, 0)])
    p, ms, rs, ys, ic = dynamic(ctx, f, vorder=vo, eorder=eo, dorder=do)
    es = [f.eqs[i] for i in eo]
    O = OdeInt(ctx, ic, rates(rs, es), ['t_M'], probe=0).install()
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=n))
    t, cols = one_run(ctx, sim, O)
    check_frame(ctx, ms[0].dom, 't_M', t, cols)
    ctx.check_same('first time is the initial time', t[0], ctx.real('t0'))
    ctx.check_same('last time is the end time', t[-1], ctx.real('te'))
    lst, dct = sim.getResults('list'), sim.getResults('dict')
    df = ms[0].dom.values['t_M']
    ctx.check('results as a list: one table', len(lst) == 1 and tuple(lst[0].shape) == (n + 1, k + 1))
    heads = list(df.columns)
    for i in range(n + 1):
        for j, h in enumerate(heads):
            ctx.check_same('results as a list', lambda: ctx.value(lst[0][i][j], {}), lambda: t[i] if h == 't_M' else cols[h][i])
    ctx.check('results as a dict: the time variable, then every column', set(dct) == {'t_M'} and set(dct['t_M']) == set(heads))
    for h in heads:
        for i in range(n + 1):
            ctx.check_same('results as a dict', lambda: ctx.value(dct['t_M'][h][i], {}), lambda: t[i] if h == 't_M' else cols[h][i])
    T, Y = sim.output
    names = O.runs[-1][0]
    for i in range(n + 1):
        ctx.check_same('times in the output', lambda: ctx.value(T[i], {}), lambda: t[i])


def cvode(ctx, v):
    """recorded alike when CVODE integrates"""
    name, n = v
    f = ODE[name]
    k = len(f.vars)
    vo = order_of(ctx, 'variables', k) if k < 3 else some_orders(ctx, 'variables', k, [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    do = order_of(ctx, 'domain', k) if k < 3 else some_orders(ctx, 'domain', k, [(0, 1, 2), (1, 2, 0), (2, 1, 0)])
    p, ms, rs, ys, ic = dynamic(ctx, f, vorder=vo, dorder=do)
    O = CVode(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=0).install()
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=n, differential_solver='CVODE'))
    t, cols = one_run(ctx, sim, O)
    check_frame(ctx, ms[0].dom, 't_M', t, cols)


def renamed(ctx, v):
    """headers may be renamed, all or some"""
    which, comp = v
    f = ODE['coupled']
    do = order_of(ctx, 'domain', 2)
    p, ms, rs, ys, ic = dynamic(ctx, f, dorder=do)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=0).install()
    ren = {'all': {'t_M': 'Time', 'x_M': 'X', 'y_M': 'Y'}, 'some': {'x_M': 'level'}, 'none': {}, 'unrelated': {'zz': 'ww'}, 'swapped': {'x_M': 'y_M', 'y_M': 'x_M'}}[which]
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=2, variable_name_map=dict(ren), compile_equations=comp))
    t, cols = one_run(ctx, sim, O)
    check_frame(ctx, ms[0].dom, 't_M', t, cols, renames=ren)
    for h, c in cols.items():
        got = ms[0].dom[('t_M', ren.get(h, h))]
        ctx.check('looked up by name', got.shape[-1] == 3 or got.size == 3)
        for i in range(3):
            ctx.check_same('values looked up by name', lambda: ctx.value(got.reshape(-1)[i], {}), lambda: c[i])


def runs(ctx, v):
    """further runs are appended; a reset empties the table"""
    script, ren = v
    f = ODE['coupled']
    do = order_of(ctx, 'domain', 2)
    p, ms, rs, ys, ic = dynamic(ctx, f, dorder=do)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=0).install()
    rmap = {'t_M': 'Time', 'x_M': 'X', 'y_M': 'Y'} if ren else {}
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1, variable_name_map=dict(rmap)))
    T, C = [], {y: [] for y in ys}
    for s in script:
        if s == 'r':
            sim.reset()
            T, C = [], {y: [] for y in ys}
            ctx.check('empty after a reset', len(ms[0].dom.values['t_M']) == 0)
            ctx.check('columns after a reset', set(ms[0].dom.values['t_M'].columns) == {'t_M'} | set(ys))
        else:
            t, cols = one_run(ctx, sim, O)
            T = T + list(t)
            C = {y: C[y] + cols[y] for y in ys}
            check_frame(ctx, ms[0].dom, 't_M', T, C, renames=rmap)


def as_given(ctx, sim, t, cols):
    """the results handed out are the whole table"""
    n = len(t)
    lst, dct = sim.getResults('list'), sim.getResults('dict')
    heads = list(sim.configurations['domain'].values['t_M'].columns)
    ctx.check('results as a list: one table', len(lst) == 1 and tuple(lst[0].shape) == (n, len(cols) + 1), [x.shape for x in lst])
    ctx.check('results as a dict: the time variable, then every column', set(dct) == {'t_M'} and set(dct['t_M']) == set(heads))
    for j, h in enumerate(heads):
        ctx.check('results as a dict: every row', len(dct['t_M'][h]) == n, len(dct['t_M'][h]))
        for i in range(n):
            want = t[i] if h == 't_M' else cols[h][i]
            ctx.check_same('results as a list', lambda: ctx.value(lst[0][i][j], {}), lambda: want)
            ctx.check_same('results as a dict', lambda: ctx.value(dct['t_M'][h][i], {}), lambda: want)


def continued(ctx, v):
    """a run that goes on from where the last one ended: its rows are appended, the common one included"""
    f, comp = ODE[v[0]], v[1]
    do = order_of(ctx, 'domain', len(f.vars)) if len(f.vars) < 3 else None
    p, ms, rs, ys, ic = dynamic(ctx, f, dorder=do)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=0).install()
    ts = [0.0, 1.0, 2.5, 4.0]
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1, initial_time=ts[0], end_time=ts[1], compile_equations=comp))
    T, C = [], {y: [] for y in ys}
    for k in range(2 if ctx.flag('once') else 3):
        sim.configurations.update(initial_time=ts[k], end_time=ts[k + 1])
        O.start = dict(ic)
        t, cols = one_run(ctx, sim, O)
        T = T + list(t)
        C = {y: C[y] + cols[y] for y in ys}
        check_frame(ctx, ms[0].dom, 't_M', T, C)
        as_given(ctx, sim, T, C)
        for y in ys:
            ic[y] = cols[y][-1]
        distinct(ctx, [ic[y] for y in ys])
        p.setInitialConditions(dict(ic))
        O.ic = dict(ic)


def apart(ctx, v):
    """two simulations over models of their own do not mix results"""
    f = ODE['coupled']
    p1, m1, r1, y1, ic1 = dynamic(ctx, f)
    m2 = build(ctx, ODE['one'], 'N')
    pos_pars(ctx, m2)
    p2 = problem(ctx, m2)
    p2.setTimeVariableName(['t_N'])
    p2.resolve()
    ic2 = {'x_N': ctx.real('ic.N')}
    p2.setInitialConditions({**ic2, 't_N': ctx.real('t0')})
    s1 = simulation(ctx, p1, **conf(ctx, m1[0], number_of_time_steps=1))
    s2 = simulation(ctx, p2, **conf(ctx, m2, number_of_time_steps=1))
    O = OdeInt(ctx, ic1, rates(r1, f.eqs), ['t_M'], probe=1).install()
    t1, c1 = one_run(ctx, s1, O)
    O2 = OdeInt(ctx, ic2, rates(m2.ref, ODE['one'].eqs, 'N'), ['t_N'], probe=1)
    O2.runs = [None]
    O2.install()
    run(s2)
    nm, t2, Y2, _ = O2.runs[-1]
    check_frame(ctx, m1[0].dom, 't_M', t1, c1, 'first')
    check_frame(ctx, m2.dom, 't_N', t2, {'x_N': [Y2[i, 0] for i in range(2)]}, 'second')


def cases(tier):
    c = group(labels, [(n, k) for n in ('one', 'coupled', 'explicit time', 'three', 'functions') for k in ((1, 3) if tier == 'thorough' else (2,) if n != 'three' else (1,))])
    c.update(group(labels, [(n, 1) for n in ODE.more]))
    c.update(group(cvode, [('one', 2), ('coupled', 1), ('three', 1)]))
    c.update(group(renamed, [(w, comp) for w in ('all', 'some', 'none', 'unrelated', 'swapped') for comp in (True, False)]))
    c.update(group(runs, [(s, r) for s in (('ss', 'srs', 'ssrs', 'rs') if tier == 'quick' else ('ss', 'srs', 'ssrs', 'rs', 'sss', 'srrs', 'ssrss')) for r in (False, True)]))
    c.update(group(continued, [(n, comp) for n in ('one', 'coupled', 'three') for comp in (True, False)]))
    c.update(group(apart, ['apart']))
    return c
