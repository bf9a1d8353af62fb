"""O02: an optimization study evaluates the user's objective as is, and reports the best point it saw."""
from .optim import *
import itertools
PRELOAD = ['optimization', 'problem', 'model', 'connection', 'simulation', 'solvers', 'core.parameter', 'core.template_units', 'core.error_definitions']
BOUNDS = 'one to three parameters with arbitrary bounds; up to four candidate points with arbitrary coordinates and arbitrary objective values (ties included); minimization and maximization asked of the problem, of the study, or both; the four optimizers; runs repeated up to three times, problems exchanged; simulations of linear and nonlinear models inside the objective'
ASSUMES = ['pygmo is a stand-in acting by its contract: it may copy the problem, asks it for bounds, calls fitness at any points within them, and returns a point of least fitness among those']


class Evolving(Pygmo):
    """evolve(): evaluates arbitrary candidates, returns one of least fitness"""

    def __init__(self, ctx, dim, n, copies=False):
        super().__init__(ctx, copies)
        self.dim, self.n, self.seen, self.bounds = dim, n, [], []
        self.runs = 0

    def evolve(self, algo, pop):
        import numpy as np
        ctx = self.ctx
        self.runs += 1
        b = pop.prob.get_bounds()
        ctx.check('bounds: a pair', len(b) == 2)
        lo, hi = list(b[0]), list(b[1])
        ctx.check('bounds: one per parameter', len(lo) == self.dim and len(hi) == self.dim, (len(lo), len(hi)))
        self.bounds.append((lo, hi))
        X, F = [], []
        for i in range(self.n):
            x = np.empty(self.dim, dtype=object if ctx.symbolic else float)
            for j in range(self.dim):
                x[j] = ctx.real('x%d.%d.%d' % (self.runs, i, j))
            f = pop.prob.fitness(x)
            ctx.check('fitness: one value', len(f) == 1)
            X.append(x)
            F.append(f[0])
        best = ctx.choice('best%d' % self.runs, list(range(self.n)))
        for f in F:
            ctx.assume(F[best] <= f)
        self.log = [tuple([g, g * 10, ctx.real('log%d.%d' % (self.runs, g))] + [0] * (len(COLUMNS[algo_name(algo)]) - 3)) for g in (1, 2)]
        out = type(pop)()
        out.prob, out.size = pop.prob, pop.size
        out.champion_x = X[best]
        out.champion_f = np.array([F[best]], dtype=object if ctx.symbolic else float)
        return out


def algo_name(a):
    return [k for k, v in USES.items() if v[0] == a.uda.kind][0]


def opt_problem(ctx, dim, calls, maxi=None, bounds=None, fn=None, tag='objective'):
    O = ctx.mod('optimization')
    number = itertools.count()                      # of every evaluation, over all runs

    class P(O.OptimizationProblem):
        def DeclareObjectiveFunction(self, x):
            k = next(number)
            calls.append((list(x), self.simulation_instance, self.simulation_configuration))
            v = fn(self, x) if fn else ctx.real('%s%d' % (tag, k))
            calls[-1] = calls[-1] + (v,)
            return [v]
    kw = {} if maxi is None else {'is_maximization': maxi}
    if bounds is not None:
        kw['bounds'] = bounds
    return P(dim, 'name', 'description', **kw)


def box(ctx, dim, tag='b'):
    lo = [ctx.real('%s.lo%d' % (tag, i)) for i in range(dim)]
    hi = [ctx.real('%s.hi%d' % (tag, i)) for i in range(dim)]
    for a, b in zip(lo, hi):
        ctx.assume(a < b)
    return lo, hi


def go(opt):
    opt.runOptimization(print_output=False)


def best_of(ctx, opt, pg, calls, maxi, label='best'):
    x, f = opt.getResults()
    ctx.check(label + ': a point', len(x) == len(calls[0][0]) and len(f) == 1)
    for c in calls:
        ctx.check(label + ': no candidate is better', f[0] >= c[3] if maxi else f[0] <= c[3])
    hit = False
    for c in calls:
        e = ctx.all([ctx.same(a, b) for a, b in zip(x, c[0])] + [ctx.same(f[0], c[3])])
        hit = e if hit is False else (hit | e)
    ctx.check(label + ': the objective of that point', hit)


def extremum(ctx, v, n=3):
    """the result is the best candidate, and its objective as the user computed it"""
    name, dim, how = v
    pg = Evolving(ctx, dim, n, copies=ctx.flag('the problem is copied'))
    calls = []
    maxi = how != 'minimize'
    prob = opt_problem(ctx, dim, calls, maxi=True if how in ('problem', 'both') else None)
    prob()
    lo, hi = box(ctx, dim)
    conf = {'k': 1}
    sim = Sim(conf)
    gens, size = ctx.real('gens'), ctx.real('size')
    opt = study(ctx, sim=sim, prob=prob, pars=['p%d' % i for i in range(dim)], optimizer=name, constraints=(lo, hi) if ctx.flag('as a tuple') else [lo, hi],
                optimization_configuration={'number_of_generations': gens, 'number_of_individuals': size}, **({'is_maximization': True} if how in ('study', 'both') else {}))
    go(opt)
    ctx.check('the objective is computed once per candidate', len(calls) == n)
    for i, c in enumerate(calls):
        for j in range(dim):
            ctx.check_same('the objective gets the candidate', lambda: c[0][j], lambda: ctx.real('x1.%d.%d' % (i, j)))
        if not pg.copies:
            ctx.check('the objective runs the simulation of the study', c[1] is sim)
        ctx.check('the objective has the configuration of the study', isinstance(c[2], dict) and c[2] == conf)
    best_of(ctx, opt, pg, calls, maxi)
    blo, bhi = pg.bounds[0]
    for j in range(dim):
        ctx.check_same('lower bounds as declared', lambda: blo[j], lambda: lo[j])
        ctx.check_same('upper bounds as declared', lambda: bhi[j], lambda: hi[j])
    ctx.check_same('size of the population', lambda: pg.populations[-1].size, lambda: size)
    ctx.check('it ran', opt.run_sucessful is True and pg.runs == 1)
    a = [a for a in pg.algorithms if a is opt.optimization_mechanism]
    ctx.check('by the algorithm of the study', len(a) == 1 and algo_name(a[0]) == name)
    ctx.check_same('for the generations of the study', lambda: a[0].uda.got['gen'], lambda: gens)
    log = opt.getOptimizationLog()
    col = 'gbest' if name == 'pso' else 'Best'
    ctx.check('log: columns', list(log.columns) == COLUMNS[name], list(log.columns))
    for g in (0, 1):
        ctx.check('log: generations', log['Gen'].iloc[g] == g + 1 and log['Fevals'].iloc[g] == 10 * (g + 1))
        ctx.check_same('log: the objective, not its negative', lambda: log[col].iloc[g], lambda: (-1 if maxi else 1) * ctx.real('log1.%d' % (g + 1)))


def compared(ctx, v):
    """the comparison of a problem prefers the strictly better of two objectives"""
    prob = opt_problem(ctx, 1, [], maxi=True if v else None)
    f, g = ctx.real('f'), ctx.real('g')
    ctx.check('the better one', prob.DeclareFitnessComparison([f], [g]) == ((f > g) if v else (f < g)))


def repeated(ctx, v):
    """the result is that of the last run"""
    how, n = v
    pg = Evolving(ctx, 1, 2)
    calls = []
    maxi = how != 'minimize'
    prob = opt_problem(ctx, 1, calls, maxi=True if how == 'problem' else None)
    prob()
    lo, hi = box(ctx, 1)
    opt = study(ctx, prob=prob, optimizer=ctx.choice('optimizer', ['de', 'pso']), constraints=(lo, hi), is_maximization=how == 'study')
    for i in range(n):
        if i and ctx.flag('new bounds'):
            lo, hi = box(ctx, 1, 'b%d' % i)
            opt.setConstraints((lo, hi))
        if i and ctx.flag('prepared again'):
            prob()
        del calls[:]
        go(opt)
        best_of(ctx, opt, pg, calls, maxi)
        ctx.check_same('bounds of this run', lambda: pg.bounds[-1][0][0], lambda: lo[0])
        ctx.check_same('bounds of this run', lambda: pg.bounds[-1][1][0], lambda: hi[0])
    ctx.check('one evolution per run', pg.runs == n)


def in_turn(ctx, v):
    """one problem studied twice: each study runs its own simulation with its own configuration"""
    pg = Evolving(ctx, 1, 2)
    calls = []
    prob = opt_problem(ctx, 1, calls, maxi=True if v else None)
    prob()
    for i in range(2):
        lo, hi = box(ctx, 1, 'b%d' % i)
        s = Sim({'k': i})
        opt = study(ctx, sim=s, prob=prob, optimizer=('de', 'pso')[i], constraints=(lo, hi), **({'simulation_configuration': {'k': i + 5}} if ctx.flag('configuration given') else {}))
        conf = dict(opt.simulation_configuration)
        del calls[:]
        go(opt)
        best_of(ctx, opt, pg, calls, v)
        ctx.check('the simulation of this study', all(c[1] is s for c in calls))
        ctx.check('the configuration of this study', all(c[2] == conf and c[2]['k'] in (i, i + 5) for c in calls))
        ctx.check_same('bounds of this study', lambda: pg.bounds[-1][0][0], lambda: lo[0])


def exchanged(ctx, v):
    """a problem that is exchanged is the one solved"""
    pg = Evolving(ctx, 1, 2)
    ca, cb = [], []
    ma, mb = v
    a, b = opt_problem(ctx, 1, ca, maxi=ma), opt_problem(ctx, 1, cb, maxi=mb, tag='other')
    a(), b()
    lo, hi = box(ctx, 1)
    opt = study(ctx, prob=a, optimizer='de', constraints=(lo, hi))
    first = ctx.flag('first the other')
    if first:
        go(opt)
        best_of(ctx, opt, pg, ca, ma)
    del ca[:]
    opt.setOptimizationProblem(b)
    go(opt)
    ctx.check('only the problem of the study is evaluated', not ca and len(cb) == 2)
    best_of(ctx, opt, pg, cb, mb)


def two_studies(ctx, v):
    """studies of their own problems do not see each other"""
    pg = Evolving(ctx, 1, 2)
    ca, cb = [], []
    ma, mb = v
    a, b = opt_problem(ctx, 1, ca, maxi=ma), opt_problem(ctx, 1, cb, maxi=mb, tag='other')
    a(), b()
    la, lb = box(ctx, 1, 'a'), box(ctx, 1, 'b')
    sa, sb = Sim({'k': 1}), Sim({'k': 2})
    A = study(ctx, sim=sa, prob=a, constraints=la)
    B = study(ctx, sim=sb, prob=b, constraints=lb)
    for o in ctx.choice('order', [(A, B), (B, A)]):
        go(o)
    best_of(ctx, A, pg, ca, ma)
    best_of(ctx, B, pg, cb, mb)
    ctx.check('each its own simulation', all(c[1] is sa and c[2] == {'k': 1} for c in ca) and all(c[1] is sb and c[2] == {'k': 2} for c in cb))
    ctx.check('each its own bounds', all(any(bool(ctx.same(x[0][0], l[0][0])) for x in pg.bounds) for l in (la, lb)))


def one_dimensional(ctx, v):
    """bounds of a single parameter may be given as two numbers; bounds of the problem itself hold when the study gives none"""
    where, dim = v
    pg = Evolving(ctx, dim, 1)
    calls = []
    lo, hi = box(ctx, dim)
    given = (lo[0], hi[0]) if dim == 1 and ctx.flag('as numbers') else (lo, hi)
    if ctx.flag('as a list'):
        given = list(given)
    prob = opt_problem(ctx, dim, calls, bounds=given if where == 'problem' else None)
    prob()
    if where == 'set':
        prob.setBounds(given)
    opt = study(ctx, prob=prob, pars=['p%d' % i for i in range(dim)], **({'constraints': given} if where == 'study' else {}))
    go(opt)
    for j in range(dim):
        ctx.check_same('lower bounds', lambda: pg.bounds[0][0][j], lambda: lo[j])
        ctx.check_same('upper bounds', lambda: pg.bounds[0][1][j], lambda: hi[j])


def refused(ctx, v):
    """ill-formed studies do not run"""
    pg = Evolving(ctx, 2, 1)
    calls = []
    prob = opt_problem(ctx, 2, calls)
    lo, hi = box(ctx, 2)
    u = dimless(ctx)
    par = ctx.mod('core.parameter').Parameter
    pars = [par('p%d' % i, u, 'd') for i in range(2)]
    pars = [p.name for p in pars] if ctx.flag('parameters by name') else pars
    if v == 'not prepared':
        opt = study(ctx, prob=prob, pars=pars, constraints=(lo, hi))
    else:
        prob()
        here = [k for k in ('p0', 'p1', 'q') if ctx.flag('bounds of ' + k)]
        ctx.assume(not ('p0' in here and 'p1' in here))
        opt = study(ctx, prob=prob, pars=pars, constraints={k: (lo[0], hi[0]) for k in here})
    ctx.expect_raises('refused', lambda: go(opt), 'AbsentRequiredObjectError')
    ctx.check('nothing has run', pg.runs == 0 and not calls and opt.run_sucessful is False)
    ctx.expect_raises('no results', lambda: opt.getResults())


class Ref:
    """an equation of a family with the values its parameters should have"""

    def __init__(self, ctx, e, vals):
        self.ctx, self.e, self.vals = ctx, e, vals

    def ev(self, e, env):
        if e[0] == 'q':
            k = e[1] + '_M'
            return self.vals[k] if k in self.vals else env[k]
        if e[0] == 'n':
            return self.ctx.real('num.' + e[1]) if isinstance(e[1], str) else e[1]
        a, b = self.ev(e[1], env), self.ev(e[2], env)
        return a + b if e[0] == '+' else a - b if e[0] == '-' else a * b if e[0] == '*' else a / b

    def res(self, env):
        r = self.ev(self.e[1], env)
        return r - self.ev(self.e[2], env) if len(self.e) > 2 else r


def simulated(ctx, v):
    """the simulation inside the objective is solved at the candidate"""
    kind, name, par = v
    f = TYPES[kind][name]
    m = build(ctx, f)
    pos_pars(ctx, m)
    p = problem(ctx, m)
    p.resolve()
    names = list(p.equation_block._var_list)
    sim = simulation(ctx, p)
    pars = {q.name: q.value for q in m.parameters.values()}
    target = m.parameters[par + '_M']
    by = target if ctx.flag('parameter by object') else target.name
    calls = []
    solved = []

    def fn(self, x):
        s = self.simulation_instance
        ctx.assume(x[0] > 0)
        s[by].setValue(x[0])
        s.problem.resolve()
        s.setConfigurations(definition_dict=self.simulation_configuration)
        vals = {**pars, target.name: x[0]}
        rs = [Ref(ctx, e, vals) for e in f.eqs]
        sys_ = SymSys(ctx, rs, names)
        sys_.n = 50 * len(calls)
        sys_.install()
        run(s)
        got = solution(ctx, s, names)
        for q in s.problem.equation_block.parameter_dict.values():
            ctx.check_same('the candidate is used, the rest is kept', lambda: q.value, lambda: vals[q.name])
        for n_ in names:
            ctx.check_same('results of this candidate', lambda: s.getResults('dict')[n_], lambda: sys_.x[n_])
        solved.append(sys_.x)
        return s.getResults('dict')[names[0]]
    pg = Evolving(ctx, 1, 2, copies=ctx.flag('the problem is copied'))
    prob = opt_problem(ctx, 1, calls, fn=fn, maxi=True)
    prob()
    lo, hi = box(ctx, 1)
    opt = study(ctx, sim=sim, prob=prob, pars=[target], constraints=(lo, hi), optimizer='pso')
    go(opt)
    best_of(ctx, opt, pg, calls, True)
    ctx.check('one simulation per candidate', len(solved) == 2)
    if pg.copies:
        for q in m.parameters.values():
            ctx.check_same('candidates in a copy do not change the original', lambda: q.value, lambda: pars[q.name])


def cases(tier):
    deep = tier == 'thorough'
    hows = ['minimize', 'problem', 'study', 'both']
    if deep:
        ex = [(n, d, h) for n in USES for d in (1, 2, 3) for h in hows]
    else:
        ex = [('de', 1, 'minimize'), ('pso', 2, 'study'), ('ga', 1, 'problem'), ('sade', 2, 'both'), ('pso', 1, 'minimize'), ('de', 3, 'study')]
    r = group(partial(extremum, n=4 if deep else 3), ex)
    r.update(group(repeated, [(h, k) for h in hows[:3] for k in ((2, 3) if deep else (2,))]))
    tf = [(False, True), (True, False)]
    r.update(group(in_turn, [False, True]))
    r.update({**group(exchanged, tf), **group(two_studies, tf)})
    r.update(group(one_dimensional, [(w, d) for w in ('problem', 'set', 'study') for d in (1, 2, 3)]))
    r.update(group(refused, ['not prepared', 'missing bounds']))
    sim = [('linear', 'one', 'a'), ('linear', 'one', 'b'), ('nonlinear', 'product', 'a')]
    if deep:
        sim += [('linear', 'mixed', 'a'), ('linear', 'mixed', 'b'), ('linear', 'equalities', 'b'), ('nonlinear', 'one', 'b'), ('nonlinear', 'product', 'b'), ('nonlinear', 'quotient', 'a')]
    r.update(group(simulated, sim))
    r.update(group(compared, [False, True]))
    return r
