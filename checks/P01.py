"""P01: assembling a problem - the equations of every model, the quantities they mention, nothing else."""
from .system import *
PRELOAD = ['problem', 'model', 'connection']
BOUNDS = 'variables specified before or between resolutions; model families of one to three equations of every class, one to three models per problem, every declaration order of variables and equations, one to three resolutions, arbitrary parameter values and evaluation points; one family of eleven unknowns and one of four whose names contain each other, in three declaration orders; six models in one problem'
ALL = {(k, n): f for k, fs in TYPES.items() for n, f in fs.items()}
ANY = {**ALL, **{(k, n): TYPES[k][n] for k, n in MORE}}


def names(p):
    eb = p.equation_block
    return list(eb._var_list), list(eb._param_list)


def agree(ctx, p, *models):
    """the assembled block is exactly the models' equations"""
    eb = p.equation_block
    rs = refs(*models)
    ctx.check('the equations of all models, in order', [e.name for e in eb.equations] == [e.name + '_' + m.name for m in models for e in m.ref], [e.name for e in eb.equations])
    objs = {}
    for r in rs:
        objs.update(r.objs)
    Variable, Parameter = ctx.mod('core.variable').Variable, ctx.mod('core.parameter').Parameter
    vs = [n for m in models for n in m.variables if n in objs and not objs[n].is_specified]
    ps = [n for m in models for n in m.parameters if n in objs]
    ctx.check('unknowns: the unspecified variables mentioned, once each', sorted(eb._var_list) == sorted(vs), (eb._var_list, vs))
    ctx.check('parameters: those mentioned, once each', sorted(eb._param_list) == sorted(ps), (eb._param_list, ps))
    ctx.check('variables in order of declaration', list(eb._var_list) == vs, (eb._var_list, vs))
    ctx.check('the objects themselves', all(eb.variable_dict[n] is objs[n] for n in vs) and all(eb.parameter_dict[n] is objs[n] for n in ps))
    env, der = env_names(ctx, [n for n, o in objs.items() if not o.is_specified])
    times = [m.t.name for m in models if hasattr(m, 't')]
    der = {(n, t): env['d/' + n] for n in [k for k in env if not k.startswith('d/')] for t in times}
    ctx.check('one residual per equation', len(eb._equations_list) == len(rs))
    for r, e in zip(rs, eb._equations_list):
        ctx.check_same('residuals', lambda: ctx.value(e, env, der), lambda: r.res(env))


def single_model(ctx, v):
    f = ANY[v]
    k = len(f.vars)
    vo = order_of(ctx, 'variables', k)
    eo = (1, 2, 0) if len(f.eqs) == 3 <= k else order_of(ctx, 'equations', len(f.eqs))
    m = build(ctx, f, vorder=vo, eorder=eo)
    pos_pars(ctx, m)
    p = problem(ctx, m)
    p.resolve()
    agree(ctx, p, m)


def several(ctx, v):
    """one to three models, added together or one at a time"""
    ks, how = v
    ms = [build(ctx, ANY[k], name) for k, name in zip(ks, ['Mi', 'MI', 'mi'] if how == 'names in upper and lower case' else 'MNOPQR')]
    if how == 'one class':
        ms = [ms[0]] + [twin(ms[0], m.name) for m in ms[1:]]
    pos_pars(ctx, *ms)
    P = ctx.mod('problem').Problem
    p = P('P', 'd')
    if how not in ('one by one', 'one class'):
        p.addModels(ms)
    else:
        for m in ms:
            p.addModels(m)
    p.resolve()
    agree(ctx, p, *ms)


def again(ctx, v):
    """a further resolution rebuilds the same system, with the parameter values of the moment"""
    f = ALL[v]
    m = build(ctx, f)
    pos_pars(ctx, m)
    p = problem(ctx, m)
    p.resolve()
    before = names(p)
    agree(ctx, p, m)
    for o in m.parameters.values():
        if o.is_specified:
            o.setValue(ctx.real('new.' + o.name))
            defined(ctx, o.value)
    p.resolve()
    ctx.check('the same lists after a further resolution', names(p) == before, (names(p), before))
    agree(ctx, p, m)


def newly_specified(ctx, v):
    """a parameter specified between resolutions enters with its value"""
    f = LIN['free parameter'] if v == 'linear' else NLIN['free parameter']
    m = build(ctx, f)
    pos_pars(ctx, m)
    p = problem(ctx, m)
    p.resolve()
    agree(ctx, p, m)
    m.p.setValue(ctx.real('p.val'))
    p.resolve()
    agree(ctx, p, m)
    for e in p.equation_block._equations_list:
        ctx.check('no trace of the specified symbol', 'p_M' not in [str(s) for s in getattr(e, 'free_symbols', [])])


def fixed(ctx, v):
    """a variable given a value stands for it and is no unknown, from the next resolution on"""
    when, kind, name, x = v
    f = TYPES[kind][name]
    m = build(ctx, f)
    pos_pars(ctx, m)
    p = problem(ctx, m)
    o = m.variables[x + '_M']
    if when == 'before':
        o.setValue(ctx.real('fixed'))
        defined(ctx, o.value)
    p.resolve()
    agree(ctx, p, m)
    o.setValue(ctx.real('fixed later'))
    defined(ctx, o.value)
    p.resolve()
    agree(ctx, p, m)
    ctx.check('no unknown of that name', o.name not in p.equation_block._var_list and all(o.name not in [str(s) for s in getattr(e, 'free_symbols', [])] for e in p.equation_block._equations_list))
    ctx.check_same('it keeps its value', o.value, ctx.real('fixed later'))


def late(ctx, v):
    """objects created while the equations are being declared are seen"""
    f = ALL[v[1:]]
    m = build(ctx, f, late=v[0])
    for x in f.pars:
        defined(ctx, ctx.real('M.' + x))
    p = problem(ctx, m)
    p.resolve()
    agree(ctx, p, m)
    p.resolve()
    agree(ctx, p, m)


def replaced(ctx, v):
    """a model added under the name of an earlier one takes its place"""
    old, other, m = build(ctx, LIN['mixed']), build(ctx, LIN['plain'], 'N'), build(ctx, ALL[v])
    pos_pars(ctx, m, other)
    p = problem(ctx, old, other)
    if ctx.flag('resolved before'):
        p.resolve()
    p.addModels(m)
    p.resolve()
    agree(ctx, p, *([m, other]))


def unused(ctx, v):
    """what no equation mentions is not part of the system"""
    f = ALL[v]
    f = Fam(' '.join(f.vars) + ' w', ' '.join(f.pars) + ' r', f.eqs, f.time, f.free)
    m = build(ctx, f, vorder=order_of(ctx, 'variables', len(f.vars)) if len(f.vars) < 4 else None)
    pos_pars(ctx, m)
    p = problem(ctx, m)
    p.resolve()
    ctx.check('unused variable left out', 'w_M' not in p.equation_block._var_list)
    ctx.check('unused parameter left out', 'r_M' not in p.equation_block._param_list)
    agree(ctx, p, m)


def shared(ctx, v):
    """a connected variable appears once although two models' equations mention it"""
    u = dimless(ctx)
    Model = ctx.mod('model').Model

    class A(Model):
        def __init__(self):
            super().__init__('A', 'd')
            self.o = self.createVariable('o', u, 'd', is_exposed=True, type='output')
            self.k = self.createParameter('k', u, 'd')
            self.k.setValue(ctx.real('k'))

        def DeclareEquations(self):
            self.createEquation('e', 'd', self.o() - self.k())

    class B(Model):
        def __init__(self):
            super().__init__('B', 'd')
            self.i = self.createVariable('i', u, 'd', is_exposed=True, type='input')
            self.y = self.createVariable('y', u, 'd')

        def DeclareEquations(self):
            self.createEquation('e', 'd', self.y() - 2 * self.i())
    a, b = A(), B()
    P = ctx.mod('problem').Problem
    p = P('P', 'd')
    p.addModels([a, b] if v == 'forward' else [b, a])
    p.createConnection(a, b, a.o, b.i)
    p.resolve()
    eb = p.equation_block
    ctx.check('each once', sorted(eb._var_list) == ['i_B', 'o_A', 'y_B'], eb._var_list)
    env, _ = env_names(ctx, ['i_B', 'o_A', 'y_B'])
    want = {'e_A': env['o_A'] - ctx.real('k'), 'e_B': env['y_B'] - 2 * env['i_B']}
    ctx.check('three equations', len(eb.equations) == 3)
    for e, s in zip(eb.equations, eb._equations_list):
        w = want.get(e.name, env['i_B'] - env['o_A'])
        ctx.check_same('residuals', lambda: ctx.value(s, env), lambda: w)


def kept_apart(ctx, v):
    """two problems over different models do not see each other"""
    m1, m2 = build(ctx, ALL[v], 'M'), build(ctx, LIN['plain'], 'N')
    pos_pars(ctx, m1, m2)
    p1, p2 = problem(ctx, m1), problem(ctx, m2)
    p1.resolve()
    p2.resolve()
    agree(ctx, p1, m1)
    agree(ctx, p2, m2)
    ctx.check('separate registries', set(p1.models) == {'M'} and set(p2.models) == {'N'} and not set(p1.variable_dict) & set(p2.variable_dict) and not set(p1.parameter_dict) & set(p2.parameter_dict))


def cases(tier):
    ks = list(ALL)
    c = group(single_model, ks + MORE)
    L, N, D, DA = ('linear', 'plain'), ('nonlinear', 'product'), ('differential', 'coupled'), ('differential-algebraic', 'linear constraint')
    combos = [((L, N), 'list'), ((N, L), 'one by one'), ((D, L), 'list'), ((L, L), 'one by one'), ((L, N, L), 'list'), ((D, D), 'list'), ((DA, N), 'one by one')]
    combos += [((L, N, L), 'names in upper and lower case')]
    combos += [((k,) * n, 'one class') for k in (L, N, D) for n in (2, 3)]
    combos += [((L, N, L, N, L, N), 'list'), ((D, L, ('differential', 'names'), N), 'one by one'), ((('linear', 'names'), ('linear', 'chain'), ('nonlinear', 'names')), 'list')]
    if tier == 'thorough':
        combos += [((a, b), h) for a in ks for b in ks for h in ('list', 'one by one')]
    c.update(group(several, combos))
    c.update(group(again, ks))
    c.update(group(newly_specified, ['linear', 'nonlinear']))
    c.update(group(fixed, [(w, k, n, x) for w in ('before', 'between') for k, n, x in (('linear', 'plain', 'x'), ('linear', 'mixed', 'z'), ('nonlinear', 'product', 'y'), ('nonlinear', 'functions', 'x'),
                                                                                      ('differential-algebraic', 'linear constraint', 'z'), ('differential-algebraic', 'constraint first', 'w'))]))
    c.update(group(late, [(l,) + k for k in ks for l in (True, 'each time')]))
    c.update(group(replaced, [L, N, D, DA]))
    c.update(group(unused, ks if tier == 'thorough' else [L, N, D, DA]))
    c.update(group(shared, ['forward', 'backward']))
    c.update(group(kept_apart, [N, D]))
    return c
