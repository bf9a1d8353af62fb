"""S03: a dynamic simulation hands the integrator the right rates, start and times."""
from .sims import *
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers', 'core.domain']
BOUNDS = 'ODE families of one to three states, every declaration order, compiled and interpreted, arbitrary initial conditions (pairwise distinct), parameters, states and times; one to four steps (and the default 100), explicit time lists, two models (sharing a time variable or each with its own), odeint and CVODE; one family of eleven unknowns and one of four whose names contain each other, in three declaration orders'
ASSUMES = ['odeint and CVode (assimulo, not installed here) may evaluate the rates anywhere and return arbitrary numbers; numba.jit is the identity']


def orders(ctx, f, full=True):
    return order_of(ctx, 'variables', len(f.vars)) if full else None, order_of(ctx, 'equations', len(f.eqs)) if len(f.eqs) < 3 or full else None


def conf(ctx, m, **k):
    c = dict(is_dynamic=True, domain=m.dom, end_time=ctx.real('te'), initial_time=ctx.real('t0'))
    c.update(k)
    return c


def rhs(ctx, v):
    name, comp, full = v
    f = ODE[name]
    vo, eo = orders(ctx, f, full)
    p, ms, rs, ys, ic = dynamic(ctx, f, vorder=vo, eorder=eo)
    es = [f.eqs[i] for i in eo] if eo else f.eqs
    O = OdeInt(ctx, ic, rates(rs, es), ['t_M']).install()
    n = 2
    sim = simulation(ctx, p, **conf(ctx, ms[0], compile_equations=comp, number_of_time_steps=n))
    run(sim)
    ctx.check('integrated once', len(O.runs) == 1)
    names, t, Y, k = O.runs[0]
    want = grid(ctx, ctx.real('t0'), ctx.real('te'), n)
    ctx.check('times: both ends and the steps between', len(t) == len(want), len(t))
    for a, b in zip(t, want):
        ctx.check_same('times', lambda: ctx.value(a, {}), lambda: b)


def cvode(ctx, v):
    """the same, handed to CVODE"""
    name, comp, n = v
    f = ODE[name]
    vo, eo = orders(ctx, f, len(f.vars) < 3)
    p, ms, rs, ys, ic = dynamic(ctx, f, vorder=vo, eorder=eo)
    es = [f.eqs[i] for i in eo] if eo else f.eqs
    O = CVode(ctx, ic, rates(rs, es), ['t_M']).install()
    sim = simulation(ctx, p, **conf(ctx, ms[0], compile_equations=comp, number_of_time_steps=n, differential_solver='CVODE'))
    run(sim)
    ctx.check('integrated once', len(O.runs) == 1)
    t = O.runs[0][1]
    want = grid(ctx, ctx.real('t0'), ctx.real('te'), n)
    ctx.check('times: both ends and the steps between', len(t) == len(want), len(t))
    for a, b in zip(t, want):
        ctx.check_same('times', lambda: ctx.value(a, {}), lambda: b)


def no_solver(ctx, v):
    """odeint is used when no integrator is named; an unknown one is refused"""
    f = ODE['coupled']
    p, ms, rs, ys, ic = dynamic(ctx, f)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=1).install()
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1, differential_solver=v))
    e = ctx.raised(lambda: run(sim))
    if v is None:
        ctx.check('integrated once', e is None and len(O.runs) == 1, str(e))
    else:
        ctx.check('refused', e is not None and O.runs == [] and sim.output is None)


def own_times(ctx, v):
    """two models, each with a time variable of its own"""
    a, b, comp, flip = v
    p, ms, rs, ys, ic = dynamic(ctx, ODE[a], ODE[b], times=['t_N', 't_M'] if flip else ['t_M', 't_N'])
    Domain = ctx.mod('core.domain').Domain
    dom = Domain('all', dimless(ctx), ms[0].t, '')
    for m in ms:
        for x in m.variables.values():
            if x is not m.t:
                x.distributeOnDomain(dom)
    rh = {**rates(ms[0].ref, ODE[a].eqs, 'M'), **rates(ms[1].ref, ODE[b].eqs, 'N')}
    O = OdeInt(ctx, ic, rh, ['t_M', 't_N']).install()
    sim = simulation(ctx, p, is_dynamic=True, domain=dom, end_time=ctx.real('te'), initial_time=ctx.real('t0'), number_of_time_steps=1, compile_equations=comp)
    run(sim)
    ctx.check('integrated once', len(O.runs) == 1)
    names, t, Y, k = O.runs[0]
    check_frame(ctx, dom, 't_M', t, {n: [Y[i, j] for i in range(2)] for j, n in enumerate(names)})


def steps(ctx, v):
    n, comp = v
    f = ODE['one']
    p, ms, rs, ys, ic = dynamic(ctx, f)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=1).install()
    k = {} if n == 'unset' else {'number_of_time_steps': n}
    sim = simulation(ctx, p, **conf(ctx, ms[0], compile_equations=comp, **k))
    run(sim)
    t = O.runs[0][1]
    m = 100 if n in ('unset', None) else n
    ctx.check('number of times', len(t) == m + 1, len(t))
    want = grid(ctx, ctx.real('t0'), ctx.real('te'), m)
    for i in ([0, 1, m // 2, m - 1, m] if m > 4 else range(m + 1)):
        ctx.check_same('times', lambda: ctx.value(t[i], {}), lambda: want[i])


def given_times(ctx, v):
    """an explicit list of times is used as it is"""
    import numpy as np
    v, form = v
    f = ODE['coupled']
    p, ms, rs, ys, ic = dynamic(ctx, f)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=1).install()
    ts = ctx.reals(*['time%d' % i for i in range(v)])
    arr = np.empty(v, dtype=object if ctx.symbolic else float)
    for i in range(v):
        arr[i] = ts[i]
    mine = arr if form == 'array' else form(ts)
    sim = simulation(ctx, p, **conf(ctx, ms[0], times_for_solution=mine, number_of_time_steps=7))
    run(sim)
    ctx.check('what was given is kept', len(mine) == v and sim.configurations['times_for_solution'] is mine)
    names, t, Y, kw = O.runs[0]
    check_frame(ctx, ms[0].dom, 't_M', ts, {nm: [Y[i, j] for i in range(v)] for j, nm in enumerate(names)}, 'results at the times given')
    ctx.check('number of times', len(t) == v)
    for a, b in zip(t, ts):
        ctx.check_same('times', lambda: ctx.value(a, {}), lambda: b)


def options(ctx, v):
    """solver options travel unchanged"""
    f = ODE['one']
    p, ms, rs, ys, ic = dynamic(ctx, f)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=1).install()
    o = {'rtol': ctx.real('rtol'), 'mxstep': 500} if v else {}
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1, configuration_args=dict(o)))
    run(sim)
    k = O.runs[0][3]
    ctx.check('the options asked for, no others', set(k) == set(o), k)
    for i in o:
        ctx.check_same('their values', k[i], o[i])


def two_models(ctx, v):
    """two dynamic models sharing one domain, or the second integrated along with the first"""
    a, b, comp = v
    Model, u = ctx.mod('model').Model, dimless(ctx)
    m1 = build(ctx, ODE[a], 'M')
    m2 = build(ctx, Fam(' '.join(ODE[b].vars), ' '.join(ODE[b].pars), ODE[b].eqs, time='t'), 'N', domain=False)
    for x in m2.variables.values():
        if x.name != 't_N':
            x.distributeOnDomain(m1.dom)
    m2.t = m1.t
    pos_pars(ctx, m1, m2)
    p = problem(ctx, m1, m2)
    p.setTimeVariableName(['t_M'])
    p.resolve()
    ys = [n for n in p.equation_block._var_list if n != 't_M']
    ic = {k: ctx.real('ic.' + k) for k in ys}
    distinct(ctx, list(ic.values()))
    p.setInitialConditions({**ic, 't_M': ctx.real('t0')})
    rh = {**rates(m1.ref, ODE[a].eqs, 'M'), **rates(m2.ref, ODE[b].eqs, 'N')}
    O = OdeInt(ctx, ic, rh, ['t_M']).install()
    sim = simulation(ctx, p, **conf(ctx, m1, number_of_time_steps=1, compile_equations=comp))
    run(sim)
    ctx.check('integrated once', len(O.runs) == 1)


def missing(ctx, v):
    """no start without initial conditions"""
    what, comp = v
    f = ODE['explicit time']
    p, ms, rs, ys, ic = dynamic(ctx, f, ics=False)
    cond = {'x_M': ctx.real('a'), 'y_M': ctx.real('b'), 't_M': ctx.real('t0')}
    cond.pop(what)
    p.setInitialConditions(cond)

    def no(*a, **k):
        ctx.check('nothing is integrated', False)
    ctx.mod('solvers')
    ctx.boundary('scipy.integrate', 'odeint', no)
    sim = simulation(ctx, p, **conf(ctx, ms[0], compile_equations=comp, number_of_time_steps=1))
    e = ctx.raised(lambda: run(sim))
    ctx.check('refused', e is not None)
    if what == 't_M':
        ctx.check('with the error for absent objects', type(e).__name__ == 'AbsentRequiredObjectError', type(e).__name__)
    ctx.check('no output', sim.output is None)


def again(ctx, v):
    """run again from other initial conditions and parameters"""
    name, comp = v
    f = ODE[name]
    p, ms, rs, ys, ic = dynamic(ctx, f)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=1).install()
    sim = simulation(ctx, p, **conf(ctx, ms[0], compile_equations=comp, number_of_time_steps=1))
    run(sim)
    for o in ms[0].parameters.values():
        o.setValue(ctx.real('new.' + o.name))
        defined(ctx, o.value)
    p.resolve()
    for k in ys:
        ic[k] = ctx.real('ic2.' + k)
    distinct(ctx, [ic[k] for k in ys])
    p.setInitialConditions({k: ic[k] for k in ys})
    O.rhs, O.ic, O.probe = rates(ms[0].ref, f.eqs), ic, 2
    run(sim)
    ctx.check('integrated twice', len(O.runs) == 2)


def named_time(ctx, v):
    """time variable named in the problem or in the configuration, as a name or a list"""
    f = ODE['explicit time']
    p, ms, rs, ys, ic = dynamic(ctx, f)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M']).install()
    k = {} if v == 'problem' else {'time_variable_name': 't_M' if v == 'name' else ['t_M']}
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1, **k))
    run(sim)
    ctx.check('integrated once', len(O.runs) == 1)


def cases(tier):
    th = tier == 'thorough'
    c = group(rhs, [(n, comp, th or len(ODE[n].vars) < 3) for n in ODE for comp in (True, False)])
    c.update(group(rhs, [(n, comp, False) for n in ODE.more for comp in (True, False)]))
    c.update(group(steps, [(n, comp) for n in (1, 2, 3, 4) for comp in (True, False)] + [('unset', True), (None, True)]))
    c.update(group(cvode, [(n, comp, k) for n, k in ([('coupled', 1), ('explicit time', 2), ('three', 1)] if not th else [(n, k) for n in ODE for k in (1, 2)]) for comp in (True, False)]))
    c.update(group(no_solver, [None, 'EULER']))
    et = 'explicit time'
    c.update(group(own_times, [(a, b, comp, fl) for a, b in [(et, et), ('coupled', et), (et, 'one'), ('one', 'coupled')] for comp in (True, False) for fl in ((False, True) if th or comp else (True,))]))
    c.update(group(given_times, [(k, f) for k in (1, 2, 3) for f in ('array', list)] + [(2, tuple)]))
    c.update(group(options, [True, False]))
    c.update(group(two_models, [(a, b, comp) for a, b in ([('coupled', 'one'), ('explicit time', 'coupled')] if not th else [(a, b) for a in ODE for b in ('one', 'coupled', 'explicit time')]) for comp in (True, False)]))
    c.update(group(missing, [(w, comp) for w in ('x_M', 'y_M', 't_M') for comp in (True, False)]))
    c.update(group(again, [(n, comp) for n in ('coupled', 'functions', 'explicit time') for comp in (True, False)]))
    c.update(group(named_time, ['problem', 'name', 'list']))
    return c
