"""S05: a differential-algebraic simulation is set up and recorded correctly."""
from .sims import *
from .S03 import conf
from .P04 import derivs
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers', 'core.domain']
BOUNDS = 'DAE families of two and three unknowns, every declaration, equation and domain order, arbitrary initial values and derivatives (pairwise distinct), parameters, states and times; one to three steps and the default number; renamed headers; one and two runs; one family of six unknowns and one of four whose names contain each other, in three declaration orders'
ASSUMES = ['Implicit_Problem/IDA (assimulo, not installed here) are stand-ins that evaluate the residual anywhere and return arbitrary numbers']


class Ida:
    """assimulo's Implicit_Problem and IDA by contract"""

    def __init__(self, ctx, ic, dic, rs, times, dnames, probe=2):
        self.ctx, self.ic, self.dic, self.rs, self.times, self.dnames, self.probe = ctx, ic, dic, rs, times, dnames, probe
        self.runs, self.log = [], []

    def install(self):
        outer, ctx = self, self.ctx

        class Implicit_Problem:
            def __init__(self, res=None, y0=None, yd0=None, t0=0.0, name='', **k):
                self.res, self.y0, self.yd0, self.t0 = res, y0, yd0, t0
                outer.log.append('problem')

        class IDA:
            def __init__(self, problem):
                self.problem = problem
                outer.log.append('solver')

            def make_consistent(self, *a):
                outer.log.append('consistent')

            def simulate(self, tfinal, ncp=0, ncp_list=None):
                p = self.problem
                names = who(ctx, p.y0, outer.ic)
                ctx.check('one initial derivative per unknown', len(list(p.yd0)) == len(names))
                for n, x in zip(names, list(p.yd0)):
                    ctx.check_same('initial derivatives: as given, zero for the others', lambda: ctx.value(x, {}), lambda: outer.dic.get(n, 0))
                ctx.check_same('initial time', p.t0, ctx.real('t0'))
                ctx.check('flags: 1 where differential, 0 where algebraic', [float(x) for x in p.algvar] == [1.0 if n in outer.dnames else 0.0 for n in names], list(p.algvar))
                for i in range(outer.probe):
                    env, tt = state_env(ctx, names, outer.times, 'pt%d' % i)
                    got = list(p.res(tt, [env[n] for n in names], [env['d/' + n] for n in names]))
                    ctx.check('one residual per equation', len(got) == len(outer.rs), len(got))
                    for g, r in zip(got, outer.rs):
                        ctx.check_same('residuals', lambda: ctx.value(g, {}), lambda: r.res(env))
                ctx.check_same('final time', tfinal, ctx.real('te'))
                t = list(ncp_list)
                Y, Yd = table(ctx, len(t), names, 'Y%d' % len(outer.runs)), table(ctx, len(t), names, 'Yd%d' % len(outer.runs))
                outer.runs.append((names, t, Y))
                outer.log.append('simulate')
                return t, Y, Yd
        ctx.mod('solvers')
        ctx.boundary('assimulo.problem', 'Implicit_Problem', Implicit_Problem)
        ctx.boundary('assimulo.solvers', 'IDA', IDA)
        return self


def setting(ctx, f, alg=None, orders=True, probe=2, dorder=True):
    k = len(f.vars)
    vo = eo = do = None
    if orders:
        vo = order_of(ctx, 'variables', k) if k < 3 else some_orders(ctx, 'variables', len(f.vars), [(0, 1, 2), (2, 0, 1), (1, 2, 0)])
        eo = order_of(ctx, 'equations', len(f.eqs)) if k < 3 else some_orders(ctx, 'equations', len(f.eqs), [(0, 1, 2), (2, 1, 0)])
    if dorder:
        do = order_of(ctx, 'domain', k) if k < 3 else some_orders(ctx, 'domain', len(f.vars), [(0, 1, 2), (1, 2, 0)])
    p, ms, rs, ys, ic = dynamic(ctx, f, vorder=vo, eorder=eo, dorder=do)
    dn = set(x + '_M' for e in f.eqs for x in derivs(e))
    dic = {n: ctx.real('icd.' + n) for n in ys if n in dn or alg == 'given'}
    p.setInitialConditions({n + '_d': x for n, x in dic.items()})
    I = Ida(ctx, ic, dic, rs, ['t_M'], dn, probe).install()
    return p, ms, rs, ys, ic, I


def wiring(ctx, v):
    name, alg, n = v
    p, ms, rs, ys, ic, I = setting(ctx, DAE[name], alg, dorder=False)
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=n))
    run(sim)
    ctx.check('made consistent, then simulated once', I.log.count('simulate') == 1 and 'consistent' in I.log and I.log.index('consistent') < I.log.index('simulate'), I.log)
    names, t, Y = I.runs[0]
    want = grid(ctx, ctx.real('t0'), ctx.real('te'), n)
    ctx.check('times: both ends and the steps between', len(t) == n + 1)
    for a, b in zip(t, want):
        ctx.check_same('times', lambda: ctx.value(a, {}), lambda: b)


def default_steps(ctx, v):
    """no number of steps: two per unit of time; no solver named: IDA"""
    f = DAE['linear constraint']
    p, ms, rs, ys, ic, I = setting(ctx, f, orders=False, dorder=False, probe=1)
    k, t0 = v, ctx.real('t0')
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=None, differential_algebraic_solver=ctx.choice('solver', ['IDA', None])))
    ctx.assume(ctx.same(ctx.real('te'), t0 + k))
    run(sim)
    names, t, Y = I.runs[0]
    ctx.check('two steps per unit of time', len(t) == 2 * k + 1, len(t))
    for a, b in zip(t, grid(ctx, t0, t0 + k, 2 * k)):
        ctx.check_same('times', lambda: ctx.value(a, {}), lambda: b)


def given_times(ctx, v):
    """the times given are used and recorded as they are"""
    n, form = v
    p, ms, rs, ys, ic, I = setting(ctx, DAE['linear constraint'], orders=False, dorder=False, probe=1)
    ts = ctx.reals(*['time%d' % i for i in range(n)])
    mine = form(ts)
    if form is list and ctx.flag('as an array'):
        import numpy as np
        mine = np.empty(n, dtype=object if ctx.symbolic else float)
        for i in range(n):
            mine[i] = ts[i]
    sim = simulation(ctx, p, **conf(ctx, ms[0], times_for_solution=mine, number_of_time_steps=7))
    run(sim)
    ctx.check('what was given is kept', len(mine) == n and sim.configurations['times_for_solution'] is mine)
    names, t, Y = I.runs[0]
    ctx.check('number of times', len(t) == n, len(t))
    for a, b in zip(t, ts):
        ctx.check_same('times', lambda: ctx.value(a, {}), lambda: b)
    check_frame(ctx, ms[0].dom, 't_M', ts, {x: [Y[i, j] for i in range(n)] for j, x in enumerate(names)}, 'results at the times given')


def labels(ctx, v):
    name, n, ren = v
    f = DAE[name]
    p, ms, rs, ys, ic, I = setting(ctx, f, probe=0)
    rmap = {'t_M': 'Time', 'x_M': 'X', 'z_M': 'Z'} if ren else {}
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=n, variable_name_map=dict(rmap)))
    run(sim)
    names, t, Y = I.runs[0]
    cols = {x: [Y[i, j] for i in range(n + 1)] for j, x in enumerate(names)}
    check_frame(ctx, ms[0].dom, 't_M', t, cols, renames=rmap)
    dct, lst = sim.getResults('dict'), sim.getResults('list')
    for h, c in cols.items():
        for i in range(n + 1):
            ctx.check_same('results as a dict', lambda: ctx.value(dct['t_M'][rmap.get(h, h)][i], {}), lambda: c[i])
    ctx.check('results as a list', len(lst) == 1 and tuple(lst[0].shape) == (n + 1, len(ys) + 1))


def twice(ctx, v):
    """a second run is appended; a reset empties the table"""
    f = DAE['linear constraint']
    p, ms, rs, ys, ic, I = setting(ctx, f, orders=False, probe=1)
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1))
    run(sim)
    if v == 'reset':
        sim.reset()
        ctx.check('empty after a reset', len(ms[0].dom.values['t_M']) == 0)
    run(sim)
    rr = I.runs[1:] if v == 'reset' else I.runs
    T = [t for r in rr for t in r[1]]
    cols = {}
    for names, t, Y in rr:
        for j, x in enumerate(names):
            cols.setdefault(x, []).extend(Y[i, j] for i in range(len(t)))
    check_frame(ctx, ms[0].dom, 't_M', T, cols)


def again(ctx, v):
    """other parameter values and initial conditions"""
    f = DAE[v]
    p, ms, rs, ys, ic, I = setting(ctx, f, orders=False, dorder=False, probe=1)
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1))
    run(sim)
    for o in ms[0].parameters.values():
        o.setValue(ctx.real('new.' + o.name))
        defined(ctx, o.value)
    p.resolve()
    for k in ys:
        ic[k] = ctx.real('ic2.' + k)
    distinct(ctx, [ic[k] for k in ys])
    p.setInitialConditions({k: ic[k] for k in ys})
    I.rs, I.probe = refs(*ms), 2
    run(sim)
    ctx.check('simulated twice', len(I.runs) == 2)


def missing(ctx, v):
    """no start without the initial conditions needed"""
    f = DAE['explicit time']
    p, ms, rs, ys, ic = dynamic(ctx, f, ics=False)
    cond = {'x_M': ctx.real('a'), 'z_M': ctx.real('b'), 't_M': ctx.real('t0'), 'x_M_d': ctx.real('c')}
    cond.pop(v)
    p.setInitialConditions(cond)
    I = Ida(ctx, {}, {}, rs, ['t_M'], {'x_M'}).install()
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1))
    e = ctx.raised(lambda: run(sim))
    ctx.check('refused', e is not None)
    if v == 't_M':
        ctx.check('with the error for absent objects', type(e).__name__ == 'AbsentRequiredObjectError', type(e).__name__)
    ctx.check('nothing was simulated', I.runs == [] and sim.output is None)


def balance(ctx, v):
    """an unbalanced system is not started"""
    f = DAE['linear constraint']
    f = Fam('x z', 'a b', f.eqs + [('e3', ('-', q('z'), q('a')))] if v == 'over' else [f.eqs[0], ('e2', ('-', ('+', q('z'), q('p')), ('*', q('b'), q('x'))))], time='t', free=['p'])
    if v == 'under':
        f.pars = ['a', 'b', 'p']
    p, ms, rs, ys, ic = dynamic(ctx, f)
    p.setInitialConditions({'x_M_d': ctx.real('icd')})
    I = Ida(ctx, ic, {}, rs, ['t_M'], {'x_M'}).install()
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1))
    e = ctx.raised(lambda: run(sim))
    ctx.check('refused', e is not None)
    ctx.check('nothing was simulated', I.runs == [])


def settings_kept(ctx, v):
    """a run leaves the settings it was given, and those other simulations get by default"""
    f = DAE[v]
    p, ms, rs, ys, ic, I = setting(ctx, f, orders=False, dorder=False, probe=1)
    mine = [] if ctx.flag('arguments named') else None
    kw = conf(ctx, ms[0], number_of_time_steps=1)
    if mine is not None:
        kw['arg_names'] = mine
    sim = simulation(ctx, p, **kw)
    photo = {k: (type(x), list(x) if isinstance(x, (list, dict)) else None) for k, x in sim.configurations.items()}
    conds = dict(p.initial_conditions)
    run(sim)
    for k, (t, x) in photo.items():
        y = sim.configurations[k]
        ctx.check('settings are kept', type(y) is t and (x is None or list(y) == x), (k, y))
    ctx.check("the caller's list", mine in (None, []), mine)
    ctx.check('initial conditions', list(p.initial_conditions) == list(conds) and p.time_variable_name == ['t_M'], p.time_variable_name)
    for k, x in conds.items():
        ctx.check_same('initial conditions', p.initial_conditions[k], x)
    other = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=1))
    for k in ('arg_names', 'args'):
        ctx.check('defaults of the next', list(other.configurations[k]) == [], other.configurations[k])
    for k in ('initial_guess', 'variable_name_map', 'configuration_args'):
        ctx.check('defaults of the next', k in kw or dict(other.configurations[k]) == {}, k)


def cases(tier):
    c = group(wiring, [(n, a, 1) for n in DAE for a in ('default', 'given')])
    c.update(group(wiring, [('linear constraint', 'default', n) for n in (2, 3)]))
    c.update(group(labels, [(n, 1, False) for n in DAE] + [('linear constraint', 3, True), ('nonlinear constraint', 2, False)]))
    c.update(group(wiring, [(n, 'default', 1) for n in DAE.more]))
    c.update(group(labels, [(n, 1, False) for n in DAE.more]))
    c.update(group(default_steps, [1, 2]))
    c.update(group(twice, ['append', 'reset']))
    c.update(group(again, ['linear constraint', 'explicit time', 'functions'] if tier == 'quick' else list(DAE)))
    c.update(group(missing, ['x_M', 'z_M', 't_M', 'x_M_d']))
    c.update(group(given_times, [(k, list) for k in (1, 2, 3)] + [(2, tuple)]))
    c.update(group(settings_kept, ['linear constraint', 'explicit time']))
    c.update(group(balance, ['over', 'under']))
    return c
