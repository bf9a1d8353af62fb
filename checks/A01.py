"""A01: the reports of models and problems tell what the models declare."""
from .sims import *
from .S07 import shown, rows
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers', 'analysis', 'core.domain']
BOUNDS = 'model families of one to three equations of every class, one and two models per problem, every subset of parameters specified, arbitrary values and evaluation points; reports of models, problems and through simulations, before and after changes; one family of eleven unknowns and one of four whose names contain each other, in three declaration orders'
ASSUMES = ['prettytable prints str() of its cells']
HEAD = ['Equation name', 'Description', 'Representation', 'Variables', 'Parameters', 'Constants', 'Equation type']
CLASS = {}


def kind_of(e, m):
    """linear, nonlinear or differential, from the declared formula"""
    unk = set()

    def deg(x):
        h = x[0]
        if h == 'q':
            o = getattr(m, x[1])
            return 0 if type(o).__name__ == 'Parameter' and o.is_specified else 1
        if h == 'n':
            return 0
        if h == 'd':
            return 'd'
        ds = [deg(a) for a in x[1:]]
        if 'd' in ds:
            return 'd'
        if h in '+-':
            return max(ds)
        if h == '*':
            return sum(ds) if sum(ds) < 2 else 2
        if h == '/':
            return ds[0] if ds[1] == 0 else 2
        return 2 if max(ds) else 0
    ds = [deg(x) for x in e[1:]]
    return 'differential' if 'd' in ds else 'linear' if max(ds) < 2 else 'nonlinear'


def parse(ctx, text, node):
    import sympy as sp
    expr = sp.sympify(node.repr_symbolic)
    loc = {str(s): s for s in expr.free_symbols | expr.atoms(sp.Symbol)}
    return sp.sympify(text, locals=loc)


def names_in(cell):
    return sorted(x.strip() for x in cell.split(',') if x.strip())


def agree(ctx, tab, m, fam, label):
    ctx.check(label + ': headings', tab[0] == HEAD, tab[0])
    body = tab[1:]
    ctx.check(label + ': one row per equation, in order', [r[0] for r in body] == [e[0] + '_' + m.name for e in fam.eqs], [r[0] for r in body])
    Parameter, Constant = ctx.mod('core.parameter').Parameter, ctx.mod('core.constant').Constant
    objs = {}
    for r in m.ref:
        objs.update(r.objs)
    env, der = env_names(ctx, [n for n in objs])
    tn = 't_' + m.name
    der = {(n, tn): env['d/' + n] for n in objs}
    for n, o in objs.items():
        if o.is_specified:
            env[n] = o.value
    for row, e, r in zip(body, fam.eqs, m.ref):
        eq = m.equations[row[0]]
        ctx.check(label + ': description', row[1] == 'equation ' + e[0], row[1])
        star = lambda cls: sorted(n + ('(*)' if o.is_specified else '') for n, o in r.objs.items() if isinstance(o, cls))
        ctx.check(label + ': parameters, those specified marked', names_in(row[4]) == star(Parameter), (row[4], star(Parameter)))
        ctx.check(label + ': constants, those specified marked', names_in(row[5]) == star(Constant), (row[5], star(Constant)))
        vs = sorted(n for n, o in r.objs.items() if not isinstance(o, (Parameter, Constant)))
        ctx.check(label + ': variables', names_in(row[3]) == vs, (row[3], vs))
        want = CLASS[e[0]] if e[0] in CLASS else kind_of(e, m)
        ctx.check(label + ': type of the equation', row[6] == want, (row, want))
        val = parse(ctx, row[2], eq.equation_expression)
        ctx.check_same(label + ': the representation is the equation', lambda: ctx.value(val, env, der), lambda: r.res(env))


def variant(ctx, f, free):
    return Fam(' '.join(f.vars), ' '.join(f.pars), f.eqs, time=f.time, free=free, cls=f.cls)


def model(ctx, v):
    """any subset of the parameters is specified"""
    kind, name = v
    f = TYPES[kind][name]
    f = variant(ctx, f, [p for p in f.pars if p in f.free or ctx.flag('free ' + p)])
    m = build(ctx, f)
    pos_pars(ctx, m)
    m()
    by = ctx.choice('by', ['model', 'simulation'])
    if by == 'model':
        tab = rows(shown(m._infoModelReport_))
    else:
        tab = rows(shown(lambda: simulation_of(ctx).report(m)))
    agree(ctx, tab, m, f, 'model')


def simulation_of(ctx):
    return ctx.mod('simulation').Simulation('S', 'd')


def again(ctx, v):
    """a report shows the model of the moment"""
    kind, name = v
    f = TYPES[kind][name]
    p = ctx.choice('parameter', f.pars)
    f = variant(ctx, f, [p])
    m = build(ctx, f)
    pos_pars(ctx, m)
    m()
    agree(ctx, rows(shown(m._infoModelReport_)), m, f, 'before')
    x = ctx.real('later')
    defined(ctx, x)
    getattr(m, p).setValue(x)
    m()
    agree(ctx, rows(shown(m._infoModelReport_)), m, f, 'after')
    agree(ctx, rows(shown(m._infoModelReport_)), m, f, 'once more')
    ctx.check_same('reporting changes nothing', lambda: getattr(m, p).value, lambda: x)


def of_problem(ctx, v):
    """all models of a problem, in order, and its class"""
    k1, n1, k2, n2, cls = v
    f, g = TYPES[k1][n1], TYPES[k2][n2]
    a, b = build(ctx, f, 'M'), build(ctx, g, 'N')
    pos_pars(ctx, a, b)
    order = ctx.choice('order', [(0, 1), (1, 0), (0,), (0, 2, 1)])
    h = Fam('x', 'a', [])                    # a model without equations has an empty table
    ms, fs = [(a, b, build(ctx, h, 'E') if 2 in order else None)[i] for i in order], [(f, g, h)[i] for i in order]
    p = problem(ctx, *ms)
    tn = [m.t.name for m in ms if hasattr(m, 't')]
    if tn:
        p.setTimeVariableName(tn)
    p.resolve()
    if len(ms) == 1:
        cls = k1
    by = ctx.choice('by', ['problem', 'simulation'])
    text = shown(p._infoProblemReport_ if by == 'problem' else lambda: simulation_of(ctx).report(p))
    lines = text.splitlines()
    ctx.check('the problem and its class', lines[0] == 'Problem: P (%s)' % cls, lines[0])
    heads = [l for l in lines if l.startswith('Model: ')]
    ctx.check('every model, in order', heads == ['Model: ' + m.name for m in ms], heads)
    parts = text.split('Model: ')[1:]
    for part, m, fam in zip(parts, ms, fs):
        agree(ctx, rows(part), m, fam, 'problem')


def with_constants(ctx, v):
    """constants and parameters, specified or not"""
    u = dimless(ctx)
    sp_ = {n: ctx.flag('specified ' + n) for n in ('c', 'p', 'x')}

    class M(ctx.mod('model').Model):
        def __init__(self):
            super().__init__('M', 'about')
            self.x = self.createVariable('x', u)
            self.c = self.createConstant('c', u)
            self.p = self.createParameter('p', u)
            for n in 'cpx':
                if sp_[n]:
                    getattr(self, n).setValue(ctx.real(n))

        def DeclareEquations(self):
            x, c, p = self.x, self.c, self.p
            T_ = {'sum': lambda: x() - c() * 2 - p(), 'equality': lambda: x() == c() + p(), 'product': lambda: x() * x() == c(), 'only': lambda: x() - 3}[v]
            self.createEquation('e', 'about e', T_())
    m = M()
    m()
    tab = rows(shown(m._infoModelReport_))
    ctx.check('one row', len(tab) == 2 and tab[1][0] == 'e_M' and tab[1][1] == 'about e')
    star = lambda n, there: ([n + '_M' + ('(*)' if sp_[n] else '')] if there else [])
    ctx.check('variables', names_in(tab[1][3]) == ['x_M'], tab[1][3])
    ctx.check('parameters, those specified marked', names_in(tab[1][4]) == star('p', v in ('sum', 'equality')), tab[1][4])
    ctx.check('constants, those specified marked', names_in(tab[1][5]) == star('c', v != 'only'), tab[1][5])
    ctx.check('type of the equation', tab[1][6] == ('nonlinear' if v == 'product' and not sp_['x'] else 'linear'), tab[1][6])
    val = parse(ctx, tab[1][2], m.equations['e_M'].equation_expression)
    env = {n + '_M': ctx.real('at.' + n) for n in 'xcp'}
    x, c, p = (env[n + '_M'] for n in 'xcp')
    want = {'sum': lambda: x - c * 2 - p, 'equality': lambda: x - (c + p), 'product': lambda: x * x - c, 'only': lambda: x - 3}[v]
    ctx.check_same('the representation is the equation', lambda: ctx.value(val, env), want)


def connected(ctx, v):
    """connections are reported with the model they were added to"""
    u = dimless(ctx)

    class M(ctx.mod('model').Model):
        def __init__(self, nm, typ, k):
            super().__init__(nm)
            self.xs = [self.createVariable('x%d' % i, u, is_exposed=True, type=typ) for i in range(k)]
            self.ignore_equation_warning = True

        def DeclareEquations(self):
            for i, x in enumerate(self.xs):
                self.createEquation('e%d' % i, 'own %d' % i, x() - ctx.real('%s%d' % (self.name, i)))
    a, b = M('A', 'output', v), M('B', 'input', 1)
    p = problem(ctx, a, b)
    p.createConnection(a, b, list(a.xs), list(b.xs))
    p.resolve()
    text = shown(p._infoProblemReport_)
    pa, pb = text.split('Model: ')[1:]
    ra, rb = rows(pa)[1:], rows(pb)[1:]
    ctx.check('own equations', len(ra) == v and len(rb) == 2, (len(ra), len(rb)))
    conn = [r for r in rb if '--->' in r[0]]
    ctx.check('the connection', len(conn) == 1)
    ctx.check('the variables connected', names_in(conn[0][3]) == sorted([x.name for x in a.xs + b.xs]), conn[0][3])
    ctx.check('type of the connection', conn[0][6] == 'linear')
    val = parse(ctx, conn[0][2], [e for n, e in b.equations.items() if '--->' in n][0].equation_expression)
    env = {x.name: ctx.real('at.' + x.name) for x in a.xs + b.xs}
    ctx.check_same('the representation is the connection', lambda: ctx.value(val, env), lambda: env[b.xs[0].name] - sum(env[x.name] for x in a.xs))


def refused(ctx):
    """only models and problems are reported"""
    s = simulation_of(ctx)
    u = dimless(ctx)
    for bad in (None, 3, 'M', [1], s, ctx.mod('core.variable').Variable('x', u, 'd'), ctx.real('x')):
        ctx.expect_raises('refused', lambda: s.report(bad), 'UnexpectedValueError')


def cases(tier):
    deep = tier == 'thorough'
    allf = [(k, n) for k in TYPES for n in TYPES[k]]
    pick = allf if deep else [('linear', 'plain'), ('linear', 'mixed'), ('nonlinear', 'product'), ('nonlinear', 'functions'), ('differential', 'coupled'), ('differential', 'explicit time'), ('differential-algebraic', 'residual form'), ('differential-algebraic', 'functions')]
    r = group(model, pick)
    r.update(group(model, MORE))
    r.update(group(again, pick if deep else [('linear', 'plain'), ('nonlinear', 'quotient'), ('differential', 'coupled')]))
    two = [('linear', 'plain', 'nonlinear', 'product', 'nonlinear'), ('linear', 'one', 'linear', 'mixed', 'linear'), ('differential', 'one', 'linear', 'plain', 'differential-algebraic')]
    if deep:
        two += [('nonlinear', 'quotient', 'nonlinear', 'one', 'nonlinear'), ('differential', 'coupled', 'differential', 'one', 'differential'), ('differential-algebraic', 'linear constraint', 'nonlinear', 'one', 'differential-algebraic')]
    r.update(group(of_problem, two))
    r.update(group(with_constants, ['sum', 'equality', 'product', 'only']))
    r.update(group(connected, [1, 2, 3]))
    r.update(single(refused))
    return r
