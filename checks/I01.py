"""I01: objects of the same kind share nothing: a history of operations on one never shows in another."""
from .sims import *
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers', 'core.domain', 'core.property_package', 'plotter', 'optimization', 'unit_op_library']
BOUNDS = 'two instances of each kind (models, unit operations, problems, simulations, domains, plotters, property packages), every history of two or three operations, each on either instance, with arbitrary values; two runs of simulations sharing a problem'
ASSUMES = ['odeint and SymbolicSys are stand-ins with arbitrary answers']


class Ledger:
    """what a model should hold"""

    def __init__(self):
        self.variables, self.parameters, self.constants, self.equations = {}, {}, {}, {}
        self.exposed = {'input': [], 'output': []}
        self.inlets = {}


OPS = ['variable', 'input', 'output', 'parameter', 'constant', 'equation', 'inlets', 'more inlets']


def act(ctx, op, m, led, i):
    u = dimless(ctx)
    full = lambda n: '%s_%s' % (n, m.name)
    if op in ('variable', 'input', 'output'):
        k = {} if op == 'variable' else dict(is_exposed=True, type=op)
        x = ctx.real('value%d' % i)
        o = m.createVariable('v%d' % i, u, value=x, **k)
        led.variables[full('v%d' % i)] = (o, x)
        if k:
            led.exposed[op].append(o)
    elif op == 'parameter':
        o, x = m.createParameter('p', u), ctx.real('value%d' % i)
        o.setValue(x)
        led.parameters[full('p')] = (o, x)
    elif op == 'constant':
        x = ctx.real('value%d' % i)
        led.constants[full('c')] = (m.createConstant('c', u, value=x), x)
    elif op == 'equation':
        v = m.createVariable('w%d' % i, u, value=0)
        led.variables[full('w%d' % i)] = (v, 0)
        led.equations[full('e%d' % i)] = m.createEquation('e%d' % i, 'about', v() - ctx.real('value%d' % i))
    else:
        name = 'in' if op == 'inlets' else 'other'
        s = object()
        if name == 'in':
            m._setInlets(s)
        else:
            m._setInlets([s], name)
        led.inlets.setdefault(name, []).append(s)


def holds(ctx, m, led):
    for k in ('variables', 'parameters', 'constants'):
        reg, want = getattr(m, k), getattr(led, k)
        ctx.check('only its own ' + k, set(reg) == set(want), sorted(reg))
        for n in want:
            ctx.check('the objects it declared', reg[n] is want[n][0])
            ctx.check_same('with their values', lambda: reg[n].value, lambda: want[n][1])
    ctx.check('only its own equations', set(m.equations) == set(led.equations) and all(m.equations[n] is e for n, e in led.equations.items()))
    for s in ('input', 'output'):
        got = m.exposed_vars[s]
        ctx.check('only its own exposed variables', len(got) == len(led.exposed[s]) and all(a is b for a, b in zip(got, led.exposed[s])))
    ctx.check('only its own ports', set(m.ports) == {'inlets', 'outlets'} and set(m.ports['inlets']) == set(led.inlets) and not m.ports['outlets'])
    for n, l in led.inlets.items():
        got = m['inlets', n]
        ctx.check('inlets by name, once each, in order', len(got) == len(l) and all(a is b for a, b in zip(got, l)))
    flat = [s for l in led.inlets.values() for s in l]
    ctx.check('all inlets', len(m._inlets) == len(flat) and all(any(a is b for b in flat) for a in m._inlets))
    ctx.check('no connections of others', not m.connections)


def models(ctx, v, n=3):
    """two models, and one made afterwards"""
    kind = v[0]
    if kind == 'model':
        mk = lambda nm: ctx.mod('model').Model(nm, 'about')
    else:
        class U(ctx.mod('model').Model):
            def __init__(self, nm):
                super().__init__(nm, 'about')
        mk = U
    a, b = mk('A'), mk('B')
    la, lb = Ledger(), Ledger()
    for i in range(n):
        op = v[1] if i == 0 else ctx.choice('operation %d' % i, OPS)
        m, led = ctx.choice('on %d' % i, [(a, la), (b, lb)]) if i else (a, la)
        act(ctx, op, m, led, i)
    holds(ctx, a, la)
    holds(ctx, b, lb)
    c = mk('C')
    holds(ctx, c, Ledger())
    act(ctx, v[1], c, Ledger(), 9)
    holds(ctx, a, la)
    holds(ctx, b, lb)


def own_ports(ctx, v):
    """ports handed over are used, others are not"""
    M = ctx.mod('model').Model
    mine = {'inlets': {}, 'outlets': {}}
    a, b, c = M('A', ports=mine), M('B'), M('C')
    s, t = object(), object()
    first = ctx.flag('the other first')
    for m, x in ([(b, t), (a, s)] if first else [(a, s), (b, t)]):
        m._setInlets([x] if ctx.flag('as a list') else x, v)
    ctx.check('the ports handed over are used', a.ports is mine and mine['inlets'][v] == [s] and a['inlets', v] == [s])
    ctx.check('others are not', b['inlets', v] == [t] and not c.ports['inlets'])
    ctx.expect_raises('no such port', lambda: c['inlets', v])


# ------------------------------------------------------------------ problems
POPS = ['models', 'conditions', 'time', 'connect', 'resolve']


class Books:
    def __init__(self):
        self.models, self.conds, self.time, self.conn, self.resolved = [], {}, None, 0, False


def two_models(ctx, tag):
    u = dimless(ctx)

    class M(ctx.mod('model').Model):
        def __init__(self, nm):
            super().__init__(nm)
            self.x = self.createVariable('x', u, is_exposed=True, type='output')
            self.y = self.createVariable('y', u, is_exposed=True, type='input')
            self.p = self.createParameter('p', u)
            self.p.setValue(ctx.real(nm + '.p'))

        def DeclareEquations(self):
            self.createEquation('e', 'about', self.x() - self.p() * self.y())
    return M('A' + tag), M('B' + tag)


def pact(ctx, op, p, bk, ms, i):
    if op == 'models':
        m = ms[len(bk.models) % 2]
        p.addModels([m] if ctx.flag('as a list %d' % i) else m)
        if m not in bk.models:
            bk.models.append(m)
    elif op == 'conditions':
        k = ctx.choice('which %d' % i, ['x_A', 'z'])
        bk.conds[k] = ctx.real('condition%d' % i)
        p.setInitialConditions({k: bk.conds[k]})
    elif op == 'time':
        bk.time = ['t%d' % i]
        p.setTimeVariableName(bk.time[0] if ctx.flag('as a name %d' % i) else list(bk.time))
    elif op == 'connect':
        p.createConnection(ms[0], ms[1], ms[0].x, ms[1].y)
        bk.conn = 1
    elif bk.models:
        p.resolve()
        bk.resolved = True


def pholds(ctx, p, bk, ms):
    ctx.check('only its own models', list(p.models.values()) == bk.models and list(p.models) == [m.name for m in bk.models])
    ctx.check('only its own connections', len(p.connections) == bk.conn)
    ctx.check('only its own time', p.time_variable_name == bk.time)
    ctx.check('only its own initial conditions', set(p.initial_conditions) == set(bk.conds), sorted(p.initial_conditions))
    for k, c in bk.conds.items():
        ctx.check_same('the initial conditions set last', lambda: p.initial_conditions[k], lambda: c)
    own = [n for m in bk.models for n in m.variables]
    ctx.check('only its own variables', set(p.variable_dict) == set(own), sorted(p.variable_dict))
    ctx.check('only its own parameters', set(p.parameter_dict) == set(n for m in bk.models for n in m.parameters))
    ctx.check('resolved or not by itself', (p.equation_block is not None) == bk.resolved)
    if bk.resolved:
        want = sorted(n for m in bk.models for n in m.equations)
        got = sorted(e.name for e in p.equation_block.equations)
        ctx.check('equations of its own models', bool(got) and set(got) <= set(want), (got, want))


def problems(ctx, v, n=3):
    P = ctx.mod('problem').Problem
    mk = lambda nm: P(nm, 'about') if ctx.flag('described') else P(nm)
    a, b = mk('P'), P('Q')
    ma, mb = two_models(ctx, ''), two_models(ctx, '2')
    ba, bb = Books(), Books()
    for i in range(n):
        op = v if i == 0 else ctx.choice('operation %d' % i, POPS)
        p, bk, ms = ctx.choice('on %d' % i, [(a, ba, ma), (b, bb, mb)]) if i else (a, ba, ma)
        pact(ctx, op, p, bk, ms, i)
    pholds(ctx, a, ba, ma)
    pholds(ctx, b, bb, mb)
    c = P('R')
    pholds(ctx, c, Books(), ma)


# ------------------------------------------------------------------ simulations
def simulations(ctx, v):
    """running one simulation does not change what another was configured with, nor what new ones get by default"""
    name, n = v
    f = ODE[name]
    p, ms, rs, ys, ic = dynamic(ctx, f)
    q, qs, qr, qy, qc = None, None, None, None, None
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=1).install()
    S = ctx.mod('simulation').Simulation
    te = ctx.real('te')
    ctx.assume(te > ic[''])
    ctx.assume(ic[''] > 0)
    kw = dict(initial_time=ic[''], end_time=te, is_dynamic=True, number_of_time_steps=n, domain=ms[0].dom, output_headers=['time'] + ys)
    if ctx.flag('compiled') is False:
        kw['compile_equations'] = False
    a, b = S('a', 'd', problem=p), S('b', 'd', problem=p)
    order = ctx.choice('configured first', ['a', 'b'])
    for s in ([a, b] if order == 'a' else [b, a]):
        s.setConfigurations(**kw)
    before = {k: (list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else x) for k, x in b.configurations.items()}
    ctx.check('not the same configuration', a.configurations is not b.configurations)
    run(a)
    ctx.check('the other has no results', b.output is None)
    for k, x in before.items():
        y = b.configurations[k]
        if isinstance(x, (list, dict)):
            ctx.check('the configuration of the other is kept', type(y) is type(x) and len(y) == len(x), k)
        elif isinstance(x, (str, bool, type(None))):
            ctx.check('the configuration of the other is kept', y == x or (y is None and x is None), k)
    c = S('c', 'd', problem=p)
    ctx.check('no results yet', c.output is None and c.configurations is None and c.domain is None)
    c.setConfigurations(**kw)
    for k in ('arg_names', 'args'):
        ctx.check('arguments are those given', list(c.configurations[k]) == [], k)
    for k in ('initial_guess', 'configuration_args', 'variable_name_map'):
        ctx.check('mappings are those given', dict(c.configurations[k]) == {}, k)
    ms[0].dom._reset()
    run(c)
    ctx.check('one integration per run', len(O.runs) == 2)
    n1, t1, Y1, k1 = O.runs[0]
    n2, t2, Y2, k2 = O.runs[1]
    ctx.check('the same integration', n1 == n2 and len(t1) == len(t2) and sorted(k1) == sorted(k2), (n1, n2))
    for x, y in zip(t1, t2):
        ctx.check_same('the same times', lambda: x, lambda: y)
    check_frame(ctx, ms[0].dom, 't_M', t2, {nm: [Y2[i, j] for i in range(len(t2))] for j, nm in enumerate(n2)}, 'results of the last run')


def algebraic(ctx, v):
    """two simulations of two problems keep their own answers and settings"""
    (ka, na), (kb, nb) = v
    pa, ma, ra, va = steady(ctx, TYPES[ka][na], names='M')
    pb, mb, rb, vb = steady(ctx, TYPES[kb][nb], names='N')
    S = ctx.mod('simulation').Simulation
    a, b = S('a', 'd', problem=pa), S('b', 'd')
    b.setProblem(pb)
    ga = {k: ctx.real('guess.' + k) for k in va}
    gb = {k: ctx.real('guess.' + k) for k in vb}
    todo = ctx.choice('order', [('ca', 'cb', 'ra', 'rb'), ('ca', 'ra', 'cb', 'rb'), ('cb', 'ca', 'rb', 'ra'), ('ca', 'cb', 'rb', 'ra')])
    xs = {}
    ctx.check('plotters of their own', a.plotter is not b.plotter and a.plotter.simulation is a and b.plotter.simulation is b)
    for step in todo:
        s, g, rs, names = (a, ga, ra, va) if step[1] == 'a' else (b, gb, rb, vb)
        if step[0] == 'c':
            s.setConfigurations(initial_guess=dict(g))
        else:
            y = SymSys(ctx, rs, names)
            y.n = 100 * len(xs)
            y.install()
            run(s)
            xs[step[1]] = y.x
            for k in names:
                ctx.check_same('start values of its own', lambda: y.guess[k], lambda: g[k])
    same_solution(ctx, a, va, xs['a'])
    same_solution(ctx, b, vb, xs['b'])
    for s, g in ((a, ga), (b, gb)):
        ctx.check('settings of its own', set(s.configurations['initial_guess']) == set(g))
        for k in g:
            ctx.check_same('settings of its own', lambda: s.configurations['initial_guess'][k], lambda: g[k])
    c = S('c', 'd', problem=pa)
    c.setConfigurations()
    ctx.check('defaults for the next', dict(c.configurations['initial_guess']) == {} and list(c.configurations['args']) == [])


def shared_problem(ctx, v):
    """two problems made of the same model: each resolves it on its own"""
    kind, name = v
    f = TYPES[kind][name]
    m = build(ctx, f)
    pos_pars(ctx, m)
    p, q = problem(ctx, m, name='P'), problem(ctx, m, name='Q')
    if f.time:
        p.setTimeVariableName('t_M')
        q.setTimeVariableName('t_M')
    for x in ctx.choice('order', [(p, q), (q, p), (p, q, p)]):
        x.resolve()
    rs = refs(m)
    env, der = env_names(ctx, [k for r in rs for k in r.unknowns])
    for x in (p, q):
        ctx.check('each has its own block', x.equation_block is not None and len(x.equation_block._equations_list) == len(rs))
        for r, e in zip(rs, x.equation_block._equations_list):
            ctx.check_same('the equations of the model', lambda: ctx.value(e, env, der), lambda: r.res(env))
    ctx.check('blocks are not shared', p.equation_block is not q.equation_block)


def handed_over(ctx, v):
    """mappings handed to a constructor or setter stay the caller's"""
    from collections import OrderedDict
    ma, mb = two_models(ctx, ''), two_models(ctx, '2')
    P = ctx.mod('problem').Problem
    ms, cs = v([(ma[0].name, ma[0])]), v()
    a, b = P('P', 'd', ms, cs), P('Q', 'd', models=ms, connections=cs)
    cond = {'x_A': ctx.real('x'), 'z': ctx.real('z')}
    a.setInitialConditions(cond)
    b.setInitialConditions(cond)
    steps = {'model': lambda: a.addModels(ma[1]), 'connection': lambda: a.createConnection(ma[0], ma[1], ma[0].x, ma[1].y), 'condition': lambda: a.setInitialConditions({'x_A': ctx.real('other'), 'w': 1.0}), 'resolved': lambda: a.resolve()}
    for s in ctx.choice('steps', [('model', 'connection', 'resolved'), ('condition',), ('resolved', 'condition', 'model')]):
        steps[s]()
    ctx.check('the mapping handed over is as it was', list(ms) == ['A'] and len(cs) == 0 and set(cond) == {'x_A', 'z'})
    ctx.check_same('the mapping handed over is as it was', cond['x_A'], ctx.real('x'))
    ctx.check('the other problem is as it was', list(b.models) == ['A'] and len(b.connections) == 0 and set(b.initial_conditions) == {'x_A', 'z'} and b.equation_block is None)
    ctx.check_same('the other problem is as it was', b.initial_conditions['x_A'], ctx.real('x'))
    kept = dict(a.initial_conditions)
    cond['x_A'] = ctx.real('changed by the caller')
    cond['new'] = 2.0
    ctx.check('what the caller does to its mapping later is its own affair', all(set(p.initial_conditions) == set(k) for p, k in ((a, kept), (b, {'x_A', 'z'}))))
    ctx.check_same('what the caller does to its mapping later is its own affair', a.initial_conditions['x_A'], kept['x_A'])
    ctx.check_same('what the caller does to its mapping later is its own affair', b.initial_conditions['x_A'], ctx.real('x'))
    later = P('R', 'd')
    ctx.check('a later problem has nothing', not later.models and not later.connections and not later.variable_dict and not later.parameter_dict and not later.initial_conditions)


def twins(ctx, v):
    """two models of one class, built and assembled by turns, keep what is theirs"""
    kind, name = v
    f = TYPES[kind][name]
    a = build(ctx, f)
    b = twin(a, 'N')
    pos_pars(ctx, a, b)
    p, q_ = problem(ctx, a, name='P'), problem(ctx, b, name='Q')
    order = ctx.choice('order', [(p, q_), (q_, p), (p, q_, p)])
    for x in order:
        x.resolve()
    new = ctx.real('new')
    defined(ctx, new)
    old = {n: o.value for n, o in b.parameters.items()}
    o = list(a.parameters.values())[0]
    o.setValue(new)
    p.resolve()
    for n, x in b.parameters.items():
        ctx.check_same('values of the other', x.value, old[n])
    ctx.check_same('its own value', o.value, new)
    for x, m in ((p, a), (q_, b)):
        ctx.check('only its own equations', [e.name for e in x.equation_block.equations] == ['%s_%s' % (e.name, m.name) for e in m.ref])
        ctx.check('only its own unknowns', all(n.endswith('_' + m.name) and m.variables[n] is w for n, w in x.equation_block.variable_dict.items()))
        env, der = env_names(ctx, [k for r in m.ref for k in r.unknowns])
        der = {(n, 't_' + m.name): env['d/' + n] for n in env if not n.startswith('d/')}
        for r, e in zip(m.ref, x.equation_block._equations_list):
            ctx.check_same('the equations of the model', lambda: ctx.value(e, env, der), lambda: r.res(env))


def cases(tier):
    deep = tier == 'thorough'
    long = OPS if deep else ['inlets']
    r = group(partial(models, n=3), [('model', o) for o in long])
    r.update(group(partial(models, n=3 if deep else 2), [('subclass', o) for o in OPS]))
    r.update(group(own_ports, ['in', 'feed']))
    r.update(group(partial(problems, n=3 if deep else 2), POPS[:4]))
    r.update(group(simulations, [('coupled', 2), ('one', 1)] + ([('three', 3), ('explicit time', 2), ('functions', 2)] if deep else [])))
    pairs = [(('linear', 'plain'), ('nonlinear', 'product')), (('nonlinear', 'quotient'), ('nonlinear', 'one'))]
    if deep:
        pairs += [(('linear', 'mixed'), ('linear', 'one')), (('nonlinear', 'product'), ('linear', 'equalities')), (('linear', 'equalities'), ('nonlinear', 'quotient'))]
    r.update(group(algebraic, pairs))
    sh = [('linear', 'plain'), ('nonlinear', 'product'), ('differential', 'coupled'), ('differential-algebraic', 'residual form')]
    if deep:
        sh = [(k, n) for k in TYPES for n in TYPES[k] if n != 'free parameter']
    r.update(group(shared_problem, sh))
    r.update(group(twins, sh))
    from collections import OrderedDict
    r.update(group(handed_over, [dict, OrderedDict]))
    return r
