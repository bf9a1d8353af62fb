"""L04: the inlets of a model determine its inlet pressure and temperature."""
from .system import *
from .L01 import Package, implies
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'unit_op_library', 'core.property_package']
BOUNDS = 'one to three streams with arbitrary temperatures and pressures (ties included), over one or two ports, set alone or as a list; mixers, splitters, pumps and models without quantities of their own; one to three loads with values changed in between; one and two models sharing streams; custom functions'
ASSUMES = ['property packages are stand-ins; streams have a specified temperature and pressure (others are not supported)']


def streams(ctx, n, tag='S', lib=True):
    L = ctx.mod('unit_op_library')
    out = []
    for i in range(n):
        s = L.MaterialStream('%s%d' % (tag, i), 'd', Package(ctx, ('a',), 'pp%s%d' % (tag, i)))
        s.P.setValue(ctx.real('%s%d.P' % (tag, i)))
        s.T.setValue(ctx.real('%s%d.T' % (tag, i)))
        s.mdot.setValue(ctx.real('%s%d.mdot' % (tag, i)))
        s()
        out.append(s)
    return out


def make(ctx, kind, name='X'):
    if kind == 'bare':
        m = ctx.mod('model').Model(name, 'd')
        m.DeclareEquations = lambda: None
        return m
    return getattr(ctx.mod('unit_op_library'), kind)(name, 'd', Package(ctx))


def made(ctx, kind, name='X'):
    """a model, and the equations it has without inlets"""
    twin = make(ctx, kind, name)
    twin()
    return make(ctx, kind, name), set(twin.equations)


def feed(ctx, m, ss, how):
    if how == 'list':
        m._setInlets(list(ss))
    elif how == 'one by one':
        for s in ss:
            m._setInlets(s)
    else:
        m._setInlets(list(ss[:1]), 'first')
        if ss[1:]:
            m._setInlets(list(ss[1:]), 'rest')


def least(ctx, xs):
    m = xs[0]
    for x in xs[1:]:
        m = x if bool(x < m) else m
    return m


def totals(ctx, m, own, ss, label=''):
    """the equations added hold exactly when P_in and T_in are the least of the streams"""
    env = {}
    for n, o in list(m.variables.items()) + list(m.parameters.items()):
        env[n] = o.value if o.is_specified else ctx.real('at.' + n)
    new = {n: e for n, e in m.equations.items() if n not in own}
    z = ctx.all([ctx.same(ctx.value(e._getSymbolicObject('residual'), env), 0) for e in new.values()])
    P, T_ = env['P_in_' + m.name], env['T_in_' + m.name]
    lp, lt = [s.P.value for s in ss], [s.T.value for s in ss]
    okp, okt = ctx.same(P, least(ctx, lp)), ctx.same(T_, least(ctx, lt))
    ctx.check(label + 'the equations imply the least pressure', implies(ctx, z, okp))
    ctx.check(label + 'the equations imply the least temperature', implies(ctx, z, okt))
    ctx.check(label + 'they hold at the least pressure and temperature', implies(ctx, ctx.all([okp, okt]), z))


def state(s):
    return {n: (o, o.value, o.is_specified, o.name) for k in ('variables', 'parameters', 'constants') for n, o in getattr(s, k).items()}


def kept(ctx, s, was):
    now = state(s)
    ctx.check('streams keep their quantities', set(now) == set(was) and all(now[n][0] is was[n][0] and now[n][2] == was[n][2] and now[n][3] == was[n][3] for n in now))
    for n in was:
        ctx.check('streams keep their values', (now[n][1] is was[n][1]) or bool(ctx.same(now[n][1], was[n][1])))


def loaded(ctx, v):
    kind, n, how = v
    m, own = made(ctx, kind)
    ss = streams(ctx, n)
    was = [state(s) for s in ss]
    feed(ctx, m, ss, how)
    m()
    totals(ctx, m, own, ss)
    for q, d in (('P_in', {'m': -1, 'kg': 1, 's': -2}), ('T_in', {'K': 1}), ('mdot_in', {'kg': 1, 's': -1}), ('ndot_in', {'mol': 1, 's': -1}), ('H_in', {'m': 2, 'kg': 1, 's': -2, 'mol': -1})):
        if not hasattr(m, q):
            ctx.check('every inlet quantity exists', False, q)
        x = getattr(m, q)
        ctx.check('inlet quantities are inputs of the model', m.variables['%s_%s' % (q, m.name)] is x and any(x is y for y in m.exposed_vars['input']))
        ctx.check('inlet quantities have their units', all(x.units.dimension[k] == d.get(k, 0) for k in SI), q)
    for s, w in zip(ss, was):
        kept(ctx, s, w)


def reloaded(ctx, v):
    """values changed between loads are followed"""
    kind, n, loads = v
    m, own = made(ctx, kind)
    ss = streams(ctx, n)
    feed(ctx, m, ss, 'list')
    m()
    for k in range(1, loads):
        s = ctx.choice('changed before load %d' % k, ss)
        q = ctx.choice('quantity changed before load %d' % k, ['P', 'T'])
        getattr(s, q).setValue(ctx.real('later%d' % k))
        m()
    totals(ctx, m, own, ss, 'later: ')


def given_lists(ctx, v):
    """the lists of streams stay the caller's: one list for two ports or two models, grown afterwards"""
    m, own = made(ctx, 'Mixer')
    n2, own2 = made(ctx, 'Mixer', 'Y')
    ss = streams(ctx, 3)
    given = ss[:2]
    m._setInlets(given)
    if v == 'two models':
        n2._setInlets(given)
        n2._setInlets(ss[2])
    elif v == 'grown':
        given.append(ss[2])
    elif v == 'two ports':
        more_ = [ss[2]]
        m._setInlets(more_, 'second')
    ctx.check('the list given is still the caller\'s', given == (ss if v == 'grown' else ss[:2]), [s.name for s in given])
    m()
    totals(ctx, m, own, ss if v == 'two ports' else ss[:2])
    if v == 'two models':
        n2()
        totals(ctx, n2, own2, ss, 'second model: ')


def more(ctx, v):
    """inlets set after a load are followed"""
    m, own = made(ctx, v)
    ss = streams(ctx, 2)
    feed(ctx, m, ss[:1], 'list')
    m()
    totals(ctx, m, own, ss[:1], 'first: ')
    m._setInlets(ss[1])
    m()
    totals(ctx, m, own, ss, 'then: ')


def two(ctx, v):
    """models with a stream in common have totals of their own"""
    (a, oa), (b, ob) = made(ctx, v, 'X'), made(ctx, v, 'Y')
    ss = streams(ctx, 3)
    feed(ctx, a, ss[:2], 'list')
    feed(ctx, b, ss[1:], 'list')
    for m in ctx.choice('order', [(a, b), (b, a)]):
        m()
    totals(ctx, a, oa, ss[:2], 'first: ')
    totals(ctx, b, ob, ss[1:], 'second: ')
    # and neither has quantities of the stream that is not its own
    ctx.check('only quantities of its own streams', not any(n.endswith(ss[2].name) for n in a.variables) and not any(n.endswith(ss[0].name) for n in b.variables))


def in_problem(ctx, v):
    """the totals are part of the problem of the model"""
    kind, n = v
    m, own = made(ctx, kind)
    ss = streams(ctx, n)
    feed(ctx, m, ss, 'list')
    p = problem(ctx, m)
    p.resolve()
    eb = p.equation_block
    env = {x: ctx.real('at.' + x) for x in eb._var_list}
    for q in m.parameters.values():
        env[q.name] = q.value if q.is_specified else ctx.real('at.' + q.name)
    z = ctx.all([ctx.same(ctx.value(e, env), 0) for e in eb._equations_list])
    ctx.check('the inlet pressure is an unknown', 'P_in_X' in env and 'T_in_X' in env, sorted(env))
    okp = ctx.same(env['P_in_X'], least(ctx, [s.P.value for s in ss]))
    okt = ctx.same(env['T_in_X'], least(ctx, [s.T.value for s in ss]))
    ctx.check('solutions have the least pressure', implies(ctx, z, okp))
    ctx.check('solutions have the least temperature', implies(ctx, z, okt))
    if kind != 'bare':
        ctx.check('and so at the outlet', implies(ctx, z, ctx.same(env['T_out_X'], env['T_in_X'])))


def custom(ctx, v):
    """a function of the user takes the place of the generic one"""
    calls = []

    def total(main_model):
        calls.append(main_model)
        ctx.check('it finds every inlet once, in order', len(main_model._inlets) == len(ss) and all(a is b for a, b in zip(main_model._inlets, ss)), [s.name for s in main_model._inlets])
    m = ctx.mod('model').Model('X', 'd', function_for_inlets_totalization=total)
    decl = []
    m.DeclareVariables = lambda: decl.append(('variables', len(calls)))
    m.DeclareEquations = lambda: decl.append(('equations', len(calls)))
    other = ctx.mod('model').Model('Y', 'd')
    other.DeclareEquations = lambda: None
    ss = streams(ctx, v) if v else []
    if ss:
        feed(ctx, m, ss, ctx.choice('how', ['list', 'one by one', 'ports']))
    loads = ctx.choice('loads', [1, 2, 3])
    for k in range(loads):
        m()
        ctx.check('called once per load, if there are inlets', len(calls) == ((k + 1) if ss else 0) and all(c is m for c in calls), len(calls))
    ctx.check('between the variables and the equations', decl == [x for k in range(loads) for x in (('variables', k if ss else 0), ('equations', k + 1 if ss else 0))], decl)
    other()
    ctx.check('not for others', len(calls) == (loads if ss else 0))
    ctx.check('nothing is added but what the function adds', not m.equations and not m.variables)


def cases(tier):
    deep = tier == 'thorough'
    kinds = ['bare', 'Mixer', 'Splitter', 'SimplePump']
    hows = ['list', 'one by one', 'ports']
    L = [(k, n, h) for k in kinds for n in (1, 2, 3) for h in hows] if deep else [('bare', 1, 'list'), ('bare', 3, 'list'), ('Mixer', 2, 'one by one'), ('Splitter', 2, 'ports'), ('SimplePump', 2, 'list')]
    r = group(loaded, L)
    r.update(group(reloaded, [(k, n, l) for k in kinds for n in (1, 2) for l in (2, 3)] if deep else [('bare', 2, 2), ('Mixer', 1, 2)]))
    r.update(group(given_lists, ['two models', 'grown', 'two ports']))
    r.update(group(more, kinds if deep else ['Mixer']))
    r.update(group(two, kinds if deep else ['bare', 'Mixer']))
    r.update(group(in_problem, [(k, n) for k in kinds for n in (1, 2, 3)] if deep else [('Mixer', 2), ('bare', 1)]))
    r.update(group(custom, [0, 1, 2, 3]))
    return r
