"""Simulations with stand-ins for the numerical libraries, which act by their contract:
they may call the functions they are given anywhere, and return arbitrary numbers (that
satisfy the equations whenever they report success)."""
from .system import *


def simulation(ctx, p, **conf):
    sim = ctx.mod('simulation').Simulation('S', 'simulation', problem=p)
    sim.setConfigurations(**conf)
    return sim


def run(sim, **kw):
    kw.setdefault('show_final_residuals', False)
    return sim.runSimulation(show_output_msg=False, **kw)


def fresh(ctx, tag):
    """a number the outside world chose"""
    return ctx.real(tag)


def get_fn(ctx, e, env):
    return ctx.value(e, env)


class World2:
    """records what the stand-ins were asked"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []
        self.n = 0

    def tag(self, what):
        self.n += 1
        return '%s%d' % (what, self.n)


class SymSys(World2):
    """pyneqsys.SymbolicSys by contract"""

    def __init__(self, ctx, rs, names, success=True):
        super().__init__(ctx)
        self.rs, self.names, self.success = rs, names, success
        self.guess, self.x = None, None

    def install(self):
        outer, ctx = self, self.ctx

        class SymbolicSys:
            def __init__(self, x=None, exprs=None, *a, **k):
                self.names = [str(i) for i in x]
                self.exprs = list(exprs)
                ctx.check('the unknowns, once each, are handed to the solver', sorted(self.names) == sorted(outer.names), self.names)
                env, _ = env_names(ctx, self.names, outer.tag('any'))
                ctx.check('one residual per equation is handed to the solver', len(self.exprs) == len(outer.rs))
                for e, r in zip(self.exprs, outer.rs):
                    ctx.check_same('the residuals handed to the solver', lambda: ctx.value(e, env), lambda: r.res(env))

            def solve(self, x0, *a, **k):
                outer.calls.append(('solve', k))
                ctx.check('the solver is not asked for less than six digits', k.get('tol') is None or k['tol'] <= 1e-6, k)
                outer.guess = dict(zip(self.names, list(x0)))
                ctx.check('a start value per unknown', len(list(x0)) == len(self.names))
                outer.x = {n: ctx.real(outer.tag('root.' + n)) for n in self.names}
                if outer.success:
                    for n in self.names:
                        defined(ctx, outer.x[n])
                    if ctx.symbolic:
                        for r in outer.rs:
                            ctx.define(ctx.same(r.res(outer.x), 0))
                return [outer.x[n] for n in self.names], {'success': outer.success, 'fun': [ctx.real(outer.tag('fun.%d' % i)) for i in range(len(self.names))], 'status': 1 if outer.success else 0, 'nfev': 3, 'njev': 2}
        ctx.mod('solvers')
        ctx.boundary('pyneqsys.symbolic', 'SymbolicSys', SymbolicSys)
        return self


def solver_standins(ctx, made, solve):
    """every solver class records how it is created and answers by `solve(class name)`"""
    sol = ctx.mod('solvers')
    for cls in ('LASolver', 'NLASolver', 'DSolver', 'DaeSolver'):
        def init(self, problem, solver=None, additional_configurations={}, cls=cls):
            self.problem, self.solver, self.additional_configurations = problem, solver, additional_configurations
            if made is not None:
                made(cls, problem, solver, additional_configurations)
        ctx.patch(getattr(sol, cls), '__init__', init)
        ctx.patch(getattr(sol, cls), 'solve', lambda self, *a, cls=cls, **k: solve(cls))


BACKENDS = {'sp_solve': ('sympy', 'solve'), 'scp_solve': ('scipy.linalg', 'solve'), 'scp_root': ('scipy.optimize', 'root'), 'SymbolicSys': ('pyneqsys.symbolic', 'SymbolicSys')}


def forbid(ctx, *names):
    """these back ends must not be used"""
    def no(*a, **k):
        ctx.check('only the configured back end is used', False)
    ctx.mod('solvers')
    for n in names:
        ctx.boundary(*BACKENDS[n], no)


def solution(ctx, sim, names):
    """sim.output as {name: value}"""
    out = sim.output
    ctx.check('a value for every unknown', sorted(str(k) for k in out) == sorted(names), [str(k) for k in out])
    return {str(k): v for k, v in out.items()}


def told(ctx, g):
    """a mapping by name, written down in this or in the opposite order"""
    ks = list(g)
    return {k: g[k] for k in (ks if len(ks) < 2 or not ctx.flag('written in the opposite order') else ks[::-1])}


def same_solution(ctx, sim, names, x):
    got = solution(ctx, sim, names)
    for n in names:
        ctx.check_same('each value under its own name', lambda: ctx.value(got[n], {}), lambda: x[n], exact=True)
    lst, dct = sim.getResults('list'), sim.getResults('dict')
    ctx.check('results as a list: one per unknown', len(lst) == len(names))
    for n, k in zip(lst, list(sim.output)):
        ctx.check_same('results as a list', lambda: ctx.value(n, {}), lambda: x[str(k)], exact=True)
    ctx.check('results as a dict: the unknowns', set(dct) == set(names), sorted(dct))
    for n in names:
        ctx.check_same('results as a dict', lambda: ctx.value(dct[n], {}), lambda: x[n], exact=True)


def steady(ctx, *fams, vorder=None, eorder=None, names='MNO', connect=None):
    ms = [build(ctx, f, nm, vorder=vorder if i == 0 else None, eorder=eorder if i == 0 else None) for i, (f, nm) in enumerate(zip(fams, names))]
    pos_pars(ctx, *ms)
    p = problem(ctx, *ms)
    p.resolve()
    return p, ms, refs(*ms), list(p.equation_block._var_list)


def dynamic(ctx, *fams, vorder=None, eorder=None, dorder=None, names='MNO', times=None, ics=True):
    """a resolved dynamic problem with arbitrary (pairwise distinct) initial conditions"""
    ms = [build(ctx, f, nm, vorder=vorder if i == 0 else None, eorder=eorder if i == 0 else None, dorder=dorder if i == 0 else None) for i, (f, nm) in enumerate(zip(fams, names))]
    pos_pars(ctx, *ms)
    p = problem(ctx, *ms)
    tn = times or [m.t.name for m in ms if hasattr(m, 't')]
    p.setTimeVariableName(tn)
    p.resolve()
    ys = [n for n in p.equation_block._var_list if n not in tn]
    ic = {}
    if ics:
        for k in ys:
            ic[k] = ctx.real('ic.' + k)
        distinct(ctx, [ic[k] for k in ys])
        t0 = ctx.real('t0')
        # in two calls: later conditions are added to earlier ones; in another order than that of the unknowns
        h, gs = (len(ys) + 1) // 2, ys[::-1]
        p.setInitialConditions({**{k: ic[k] for k in gs[:h]}, **{t: t0 for t in tn[1:]}})
        p.setInitialConditions({**{k: ic[k] for k in gs[h:]}, **{t: t0 for t in tn[:1]}})
        ic[''] = t0
    return p, ms, refs(*ms), ys, ic


def distinct(ctx, xs):
    for i in range(len(xs)):
        for j in range(i):
            c = ctx.same(xs[i], xs[j])
            if ctx.symbolic:
                ctx.assume(~c)
            else:
                ctx.assume(not c)


def who(ctx, y0, ic):
    """which variable each entry of y0 belongs to (initial conditions are pairwise distinct)"""
    out = []
    for x in list(y0):
        f = [n for n, v in ic.items() if n and bool(ctx.same(x, v))]
        ctx.check('each initial condition is used as given', len(f) == 1, f)
        out.append(f[0])
    ctx.check('one initial condition per unknown', len(set(out)) == len(out) and set(out) == set(n for n in ic if n), out)
    return out


def state_env(ctx, names, times, tag):
    env, _ = env_names(ctx, names, tag)
    t = ctx.real(tag + '.time')
    for k in times:
        env[k] = t
    return env, t


def table(ctx, nt, names, tag):
    """arbitrary solution values: nt rows, one column per name"""
    import numpy as np
    a = np.empty((nt, len(names)), dtype=object if ctx.symbolic else float)
    for i in range(nt):
        for j, n in enumerate(names):
            a[i, j] = ctx.real('%s.%d.%s' % (tag, i, n))
    return a


class OdeInt:
    """scipy.integrate.odeint by contract: calls f wherever it likes, returns any numbers"""

    def __init__(self, ctx, ic, rhs, times, probe=2):
        self.ctx, self.ic, self.rhs, self.times, self.probe = ctx, ic, rhs, times, probe
        self.runs = []
        self.start = None       # the first row, when it matters that it is the state started from

    def __call__(self, f, y0, t, args=(), **k):
        ctx = self.ctx
        names = who(ctx, y0, self.ic)
        for i in range(self.probe):
            env, tt = state_env(ctx, names, self.times, 'pt%d' % i)
            got = list(f([env[n] for n in names], tt))
            ctx.check('one rate per unknown', len(got) == len(names), len(got))
            for n, g in zip(names, got):
                ctx.check_same('rates', lambda: ctx.value(g, {}), lambda: self.rhs[n](env))
        t = list(t)
        Y = table(ctx, len(t), names, 'Y%d' % len(self.runs))
        if self.start is not None:
            for j, n in enumerate(names):
                Y[0, j] = self.start[n]
        self.runs.append((names, t, Y, k))
        return Y

    def install(self):
        self.ctx.mod('solvers')
        self.ctx.boundary('scipy.integrate', 'odeint', self)
        return self


class CVode(OdeInt):
    """assimulo's Explicit_Problem and CVode by contract"""

    def install(self):
        outer, ctx = self, self.ctx

        class Explicit_Problem:
            def __init__(self, rhs=None, y0=None, t0=None, p0=None, sw0=None, name=None):
                self.rhs, self.y0, self.t0 = rhs, y0, 0.0 if t0 is None else t0

        class CVode_:
            atol = rtol = 1e-6

            def __init__(self, problem):
                self.problem = problem

            def simulate(self, tfinal, ncp=0, ncp_list=None):
                p = self.problem
                ctx.check_same('integrated from the initial time', p.t0, ctx.real('t0'))
                ctx.check_same('integrated to the end time', tfinal, ctx.real('te'))
                ctx.check('the solver is not asked for less than four digits', self.rtol <= 1e-4, self.rtol)
                Y = OdeInt.__call__(outer, lambda y, t: p.rhs(t, y), p.y0, ncp_list)
                names, t, _, k = outer.runs[-1]
                return list(t), Y
        ctx.mod('solvers')
        ctx.boundary('assimulo.problem', 'Explicit_Problem', Explicit_Problem)
        ctx.boundary('assimulo.solvers', 'CVode', CVode_)

        def no(*a, **k):
            ctx.check('only the configured integrator is used', False)
        ctx.boundary('scipy.integrate', 'odeint', no)
        return self


def rates(rs, fam_eqs, model='M'):
    """{variable: reference of its rate} from elementary differential equations"""
    return {e[1][1] + '_' + model: r.r.val for r, e in zip(rs, fam_eqs)}


def grid(ctx, t0, te, n):
    return [t0 + (te - t0) * i / n for i in range(n + 1)]


def check_frame(ctx, dom, tname, times, cols, what='results', renames=None):
    """the domain's table: time first, each column under its variable's name"""
    import numpy as np
    ren = renames or {}
    df = dom.values[tname]
    ctx.check(what + ': columns', sorted(map(str, df.columns)) == sorted([ren.get(tname, tname)] + [ren.get(c, c) for c in cols]), list(map(str, df.columns)))
    ctx.check(what + ': one row per time', len(df) == len(times), (len(df), len(times)))
    for i in range(len(times)):
        ctx.check_same(what + ': times', lambda: ctx.value(df[ren.get(tname, tname)].iloc[i], {}), lambda: times[i])
        for c, col in cols.items():
            ctx.check_same(what + ': each value under its own variable', lambda: ctx.value(df[ren.get(c, c)].iloc[i], {}), lambda: col[i])
