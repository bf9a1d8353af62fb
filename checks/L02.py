"""L02: streams derive the missing flow from the molar mass, and pass their state on to their property package."""
from .system import *
from .L01 import Package, PH
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'unit_op_library', 'core.property_package']
BOUNDS = 'the three kinds of stream; each subset of specified quantities, specified before or between one to three loads, directly or in declarations of a subclass; arbitrary values and molar masses; with and without property package; one to three phases; one and two streams'
ASSUMES = ['property packages are stand-ins with arbitrary MW per phase that record what they are asked to calculate']
KINDS = ['HomogeneousMaterialStream', 'MaterialStream', 'MultiphasicMaterialStream']
Q = ['mdot', 'ndot', 'T', 'P', 'H']


def stream(ctx, kind, pp, name='S', cls=None):
    return (cls or getattr(ctx.mod('unit_op_library'), kind))(name, 'd', pp)


def check_calls(ctx, calls, given, vals, times):
    """the package is asked to calculate with what is specified, once per load"""
    want = [k for k in 'TP' if k in given]
    if not want:
        ctx.check('nothing to calculate', calls == [], calls)
        return
    ctx.check('calculated once per load', len(calls) == times, len(calls))
    for a, k in calls:
        ctx.check('temperature and pressure given by name when specified', a == () and sorted(k) == sorted(want), (a, sorted(k)))
        for w in want:
            ctx.check_same('the values specified', k[w], vals[w])


def flows(ctx, s, given, vals, mw):
    """mass flow = molar flow * molar mass (g/mol)"""
    for f in ('mdot', 'ndot'):
        o = getattr(s, f)
        if f in given:
            ctx.check_same('a specified flow is left alone', o.value, vals[f])
            ctx.check('and stays specified', o.is_specified == True)
    if mw is None or ('mdot' in given) == ('ndot' in given):
        for f in ('mdot', 'ndot'):
            ctx.check('nothing to derive from', getattr(s, f).is_specified == (f in given))
        return
    ctx.check('both flows known', s.mdot.is_specified == True and s.ndot.is_specified == True)
    m, n = s.mdot.value, s.ndot.value
    ctx.check_same('mass flow is molar flow times molar mass', lambda: m * 1000, lambda: n * mw)


def untouched(ctx, s, given, vals):
    for k in ('T', 'P', 'H'):
        o = getattr(s, k)
        ctx.check('state: specified as given', o.is_specified == (k in given))
        if k in given:
            ctx.check_same('state: value as given', o.value, vals[k])


def derive(ctx, v):
    kind, np_ = v
    pp = Package(ctx, PH[np_]) if np_ else None
    s = stream(ctx, kind, pp)
    given = [k for k in Q if ctx.flag('specify ' + k)]
    vals = {k: ctx.real('S.' + k) for k in given}
    for k in given:
        getattr(s, k).setValue(vals[k])
    loads = ctx.choice('loads', [1, 2])
    for i in range(loads):
        s()
        flows(ctx, s, given, vals, pp['*'].MW if pp else None)
        untouched(ctx, s, given, vals)
    if pp:
        check_calls(ctx, pp.calls, given, vals, loads)
    ctx.check('a stream has no equations', not s.equations and s.ignore_equation_warning is True)


def in_problem(ctx, v):
    """resolving a problem loads its streams"""
    kind, np_ = v
    pp = Package(ctx, PH[np_])
    s = stream(ctx, kind, pp)
    f = ctx.choice('flow', ['mdot', 'ndot'])
    vals = {f: ctx.real('S.' + f), 'T': ctx.real('S.T')}
    for k in vals:
        getattr(s, k).setValue(vals[k])
    p = problem(ctx, s)
    p.resolve()
    flows(ctx, s, list(vals), vals, pp['*'].MW)
    check_calls(ctx, pp.calls, list(vals), vals, 1)
    ctx.check('its quantities are known to the problem', all(n in p.parameter_dict and p.parameter_dict[n] is o for n, o in s.parameters.items()))


def between(ctx, v):
    """what is specified after a first load is followed at the next"""
    kind = v
    pp = Package(ctx)
    s = stream(ctx, kind, pp)
    s()
    ctx.check('nothing specified, nothing calculated', pp.calls == [] and not s.mdot.is_specified and not s.ndot.is_specified)
    given = [ctx.choice('first', Q), ctx.choice('second', Q)]
    vals = {k: ctx.real('S.' + k) for k in given}
    for k in vals:
        getattr(s, k).setValue(vals[k])
    s()
    flows(ctx, s, given, vals, pp['*'].MW)
    untouched(ctx, s, given, vals)
    check_calls(ctx, pp.calls, given, vals, 1)
    if 'T' in given or 'P' in given:
        k = 'T' if 'T' in given else 'P'
        vals[k] = ctx.real('new')
        getattr(s, k).setValue(vals[k])
        del pp.calls[:]
        s()
        check_calls(ctx, pp.calls, given, vals, 1)
        untouched(ctx, s, given, vals)


def two(ctx, v):
    """two streams derive their own flows"""
    ka, kb = v
    pa, pb = Package(ctx, ('a',), 'pa'), Package(ctx, ('b', 'a'), 'pb')
    a, b = stream(ctx, ka, pa, 'A'), stream(ctx, kb, pb, 'B')
    fa, fb = ctx.choice('first', ['mdot', 'ndot']), ctx.choice('second', ['mdot', 'ndot'])
    va, vb = {fa: ctx.real('A.f')}, {fb: ctx.real('B.f')}
    getattr(a, fa).setValue(va[fa])
    getattr(b, fb).setValue(vb[fb])
    for s in (a, b):
        s()
    flows(ctx, a, [fa], va, pa['*'].MW)
    flows(ctx, b, [fb], vb, pb['*'].MW)
    ctx.check('full names', sorted(a.parameters) == sorted(n[:-1] + 'A' for n in a.parameters) and set(a.parameters) & set(b.parameters) == set())


def fractions(ctx, v):
    """a molar and a mass fraction per phase"""
    pp = Package(ctx, PH[v])
    s = stream(ctx, 'MultiphasicMaterialStream', pp)
    names = ['%s_S' % k for k in Q] + ['%s_%s_S' % (f, p) for f in 'zw' for p in pp.phase_names]
    ctx.check('quantities of the stream', sorted(s.parameters) == sorted(names), sorted(s.parameters))
    for f in 'zw':
        for p in pp.phase_names:
            o = getattr(s, '%s_%s' % (f, p))
            ctx.check('fractions by phase', s.parameters['%s_%s_S' % (f, p)] is o)
            ctx.check('fractions are dimensionless', all(x == 0 for x in exps(o.units).values()))


def units(ctx, v):
    s = stream(ctx, v, Package(ctx))
    for k, d in {'ndot': (0, 0, -1, 0, 0, 1), 'mdot': (0, 1, -1, 0, 0, 0), 'T': (0, 0, 0, 0, 1, 0), 'P': (-1, 1, -2, 0, 0, 0), 'H': (2, 1, -2, 0, 0, -1)}.items():
        got = exps(getattr(s, k).units)
        for u, i in zip(('m', 'kg', 's', 'A', 'K', 'mol'), d):
            ctx.check('units of the quantities', got[u] == i, (k, u))


def cases(tier):
    c = group(derive, [(k, n) for k in KINDS for n in ((None, 1, 2) if k != KINDS[2] else (1, 2, 3))])
    c.update(group(in_problem, [(k, n) for k in KINDS for n in (1, 2)]))
    c.update(group(between, KINDS))
    c.update(group(two, [(a, b) for a in KINDS for b in KINDS]))
    c.update(group(fractions, [1, 2, 3]))
    c.update(group(units, KINDS))
    return c
