"""L01: the equations of the unit operations hold exactly when their balances hold."""
from .system import *
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'unit_op_library', 'core.property_package']
BOUNDS = 'mixer, splitter, valve, pump, heater and cooler with one phase; mixer, splitter and pump with one to three phases; arbitrary flows, pressures, temperatures, enthalpies, fractions, phase properties and parameters (specified or not); one to two instances, chained through connections; one to two resolutions'
ASSUMES = ['property packages are stand-ins with arbitrary MW, Cp and rho per phase']
UNITS = ['Mixer', 'Splitter', 'Valve', 'SimplePump', 'Heater', 'Cooler']
PARS = {'Valve': ['Delta_P', 'perc_open'], 'SimplePump': ['Delta_P'], 'Heater': ['Delta_P', 'Q'], 'Cooler': ['Delta_P', 'Q']}


class Phase:
    pass


class Package:
    """what a property package answers"""

    def __init__(self, ctx, names=('a',), tag='pp'):
        self.phase_names = list(names)
        self.number_of_phases = len(names)
        self.phases = {}
        for n in names:
            p = self.phases[n] = Phase()
            for k in ('MW', 'Cp', 'rho'):
                x = ctx.real('%s.%s.%s' % (tag, n, k))
                ctx.assume(x > 0)
                setattr(p, k, x)
        self.calls = []

    def __getitem__(self, n):
        return self.phases[self.phase_names[-1] if n == '*' else n]

    def calculate(self, *a, **k):
        self.calls.append((a, k))


def implies(ctx, a, b):
    if isinstance(a, bool):
        return b if a else True
    return (~a) | b


def references(kind, u, pp):
    """the balances, as functions of the values by short name"""
    w = lambda e, k: e[k + '_' + u]
    R = {'moles': lambda e: w(e, 'ndot_in') - w(e, 'ndot_out'),
         'mass': lambda e: w(e, 'mdot_in') - w(e, 'mdot_out')}
    energy = lambda e: w(e, 'ndot_out') * w(e, 'H_out') - w(e, 'ndot_in') * w(e, 'H_in')
    if kind in ('Heater', 'Cooler'):
        R['energy'] = lambda e: energy(e) - w(e, 'Q')
        R['temperature'] = lambda e: (w(e, 'T_out') - w(e, 'T_in')) * w(e, 'mdot_out') * pp['*'].Cp - w(e, 'Q')
    else:
        R['energy'] = energy
        R['temperature'] = lambda e: w(e, 'T_out') - w(e, 'T_in')
    sign = {'Mixer': 0, 'Splitter': 0, 'Valve': -1, 'Heater': -1, 'Cooler': -1, 'SimplePump': 1}[kind]
    R['pressure'] = lambda e: w(e, 'P_out') - w(e, 'P_in') - (sign * w(e, 'Delta_P') if sign else 0)
    if kind == 'Valve':
        R['volume'] = lambda e: w(e, 'Qdot_out') * pp['*'].rho - w(e, 'perc_open') * w(e, 'mdot_out')
    if len(pp.phase_names) > 1:
        last = pp.phase_names[-1]
        for f in 'zw':
            for ph in pp.phase_names:
                if kind in ('Mixer', 'Splitter') and ph == last:
                    continue
                R['fraction %s of %s' % (f, ph)] = lambda e, f=f, ph=ph: w(e, '%s_%s_in' % (f, ph)) - w(e, '%s_%s_out' % (f, ph))
            if kind in ('Mixer', 'Splitter'):
                for s in ('in', 'out'):
                    R['sum of %s %s' % (f, s)] = lambda e, f=f, s=s: sum(w(e, '%s_%s_%s' % (f, ph, s)) for ph in pp.phase_names) - 1
    return R


def point(ctx, models, tag):
    env = {}
    for m in models:
        for n, o in list(m.variables.items()) + list(m.parameters.items()):
            if o.is_specified:
                env[n] = o.value
            else:
                env[n] = ctx.real('%s.%s' % (tag, n))
                if n.startswith('mdot') and type(m).__name__ in ('Heater', 'Cooler'):
                    ctx.assume(env[n] != 0)        # the temperature balance divides by the flow
    return env


def balances(ctx, u, kind, pp, env, label=''):
    R = references(kind, u.name, pp)
    ctx.check(label + 'one equation per balance', len(u.equations) == len(R), (len(u.equations), len(R)))
    res = {n: ctx.value(e._getSymbolicObject('residual'), env) for n, e in u.equations.items()}
    ref = {n: f(env) for n, f in R.items()}
    zr = {n: ctx.same(x, 0) for n, x in res.items()}
    zf = {n: ctx.same(x, 0) for n, x in ref.items()}
    allr, allf = ctx.all(list(zr.values())), ctx.all(list(zf.values()))
    for n in R:
        ctx.check(label + 'the equations imply the balance of ' + n, implies(ctx, allr, zf[n]))
    for n in res:
        ctx.check(label + 'the balances imply every equation', implies(ctx, allf, zr[n]))


def make(ctx, kind, pp, name='U', spec=True):
    u = getattr(ctx.mod('unit_op_library'), kind)(name, 'd', pp)
    for q in PARS.get(kind, []):
        if spec:
            u.parameters['%s_%s' % (q, name)].setValue(ctx.real('%s.%s' % (name, q)))
    return u


PH = {1: ('a',), 2: ('a', 'b'), 3: ('b', 'a', 'c')}


def alone(ctx, v):
    """every residual is zero exactly when every balance holds"""
    kind, np_, spec = v
    pp = Package(ctx, PH[np_])
    u = make(ctx, kind, pp, spec=spec)
    u()
    balances(ctx, u, kind, pp, point(ctx, [u], 'at'))
    u()
    balances(ctx, u, kind, pp, point(ctx, [u], 'again'), 'reloaded: ')


def unsatisfied(ctx, v):
    """a point off one balance is off some equation (the balances are not vacuous)"""
    kind, np_ = v
    pp = Package(ctx, PH[np_])
    u = make(ctx, kind, pp)
    u()
    ones = {}
    for n, o in list(u.variables.items()) + list(u.parameters.items()):
        ones[n] = o.value if o.is_specified else ctx.real('at.' + n)
        if n.startswith(('mdot', 'ndot', 'perc')):
            ctx.assume(ones[n] > 0)
    for e in u.equations.values():
        z = ctx.same(ctx.value(e._getSymbolicObject('residual'), ones), 0)
        # each equation constrains something: moving away from a balance is noticed by it
        ctx.check('each equation is an equation between quantities of the unit', set(e.objects_declared) <= set(u.variables) | set(u.parameters) | set(u.constants) and len(e.objects_declared) > 0)


def surface(ctx, v):
    """streams enter and leave through exposed variables, with the units of what they are"""
    kind, np_ = v
    pp = Package(ctx, PH[np_])
    u = make(ctx, kind, pp)
    flows = {'ndot': (0, 0, -1, 0, 0, 1), 'mdot': (0, 1, -1, 0, 0, 0), 'T': (0, 0, 0, 0, 1, 0), 'P': (-1, 1, -2, 0, 0, 0), 'H': (2, 1, -2, 0, 0, -1)}
    fr = ['%s_%s' % (f, p) for f in 'zw' for p in pp.phase_names] if np_ > 1 else []
    for side, typ in (('in', 'input'), ('out', 'output')):
        want = ['%s_%s_U' % (f, side) for f in list(flows) + fr] + (['Qdot_out_U'] if kind == 'Valve' and side == 'out' else [])
        got = [x.name for x in u.exposed_vars[typ]]
        ctx.check('exposed as ' + typ, sorted(got) == sorted(want), got)
        for f in list(flows) + fr:
            x = getattr(u, '%s_%s' % (f, side))
            ctx.check('reached as an attribute', u.variables['%s_%s_U' % (f, side)] is x)
            d = flows.get(f, (0,) * 6)
            got = exps(x.units)
            for k, i in zip(('m', 'kg', 's', 'A', 'K', 'mol'), d):
                ctx.check('units of ' + f.split('_')[0], got[k] == i, (x.name, k, got[k]))
    ctx.check('described as built', u.name == 'U' and u.description == 'd' and u.property_package is pp)


def two(ctx, v):
    """two units side by side are independent"""
    ka, kb, na, nb = v
    pa, pb = Package(ctx, PH[na], 'pa'), Package(ctx, PH[nb], 'pb')
    a, b = make(ctx, ka, pa, 'A'), make(ctx, kb, pb, 'B')
    p = problem(ctx, a, b)
    p.resolve()
    balances(ctx, a, ka, pa, point(ctx, [a], 'at'), 'first: ')
    balances(ctx, b, kb, pb, point(ctx, [b], 'at'), 'second: ')


def chained(ctx, v):
    """connected in series: what leaves the first enters the second"""
    ka, kb, n = v
    pp = Package(ctx, PH[n])
    a, b = make(ctx, ka, pp, 'A'), make(ctx, kb, pp, 'B')
    p = problem(ctx, a, b)
    links = ['ndot', 'mdot', 'T', 'P', 'H'] + (['%s_%s' % (f, ph) for f in 'zw' for ph in pp.phase_names] if n > 1 else [])
    neq = len(references(ka, 'A', pp)) + len(references(kb, 'B', pp)) + len(links)
    for l in links:
        p.createConnection(a, b, getattr(a, l + '_out'), getattr(b, l + '_in'))
    p.resolve()
    ctx.check('all equations are in the problem', len(p.equation_block._equations_list) == neq, (len(p.equation_block._equations_list), neq))
    env = point(ctx, [a, b], 'at')
    res = [ctx.same(ctx.value(e, env), 0) for e in p.equation_block._equations_list]
    ok = ctx.all(res)
    for what in ('ndot', 'mdot') + (('T',) if ka not in ('Heater', 'Cooler') and kb not in ('Heater', 'Cooler') else ()):
        ctx.check('flow through the chain: ' + what, implies(ctx, ok, ctx.same(env[what + '_out_B'], env[what + '_in_A'])))
    dp = 0
    for k, x in ((ka, 'A'), (kb, 'B')):
        s = {'Mixer': 0, 'Splitter': 0, 'Valve': -1, 'Heater': -1, 'Cooler': -1, 'SimplePump': 1}[k]
        if s:
            dp = dp + s * env['Delta_P_' + x]
    ctx.check('pressure changes add up', implies(ctx, ok, ctx.same(env['P_out_B'], env['P_in_A'] + dp)))


def late_properties(ctx, v):
    """parameters changed between resolutions are followed"""
    kind = v
    pp = Package(ctx)
    u = make(ctx, kind, pp)
    p = problem(ctx, u)
    p.resolve()
    for q in PARS[kind]:
        u.parameters['%s_U' % q].setValue(ctx.real('new.' + q))
        ctx.assume(u.parameters['%s_U' % q].value > 0)
    if kind == 'Valve':
        pp['*'].rho = ctx.real('new.rho')
        ctx.assume(pp['*'].rho > 0)
    p.resolve()
    balances(ctx, u, kind, pp, point(ctx, [u], 'at'))


def cases(tier):
    multi = ['Mixer', 'Splitter', 'SimplePump']
    c = group(alone, [(k, 1, s) for k in UNITS for s in (True, False)] + [(k, n, True) for k in multi for n in (2, 3)])
    c.update(group(unsatisfied, [(k, 1) for k in UNITS] + [(k, 2) for k in multi]))
    c.update(group(surface, [(k, 1) for k in UNITS] + [(k, n) for k in multi for n in (2, 3)]))
    prs = [('Mixer', 'Valve', 1, 1), ('Heater', 'Cooler', 1, 1), ('SimplePump', 'SimplePump', 1, 2), ('Mixer', 'Splitter', 2, 1)]
    if tier == 'thorough':
        prs += [(a, b, 1, 1) for a in UNITS for b in UNITS]
    c.update(group(two, prs))
    ch = [('SimplePump', 'Valve', 1), ('Mixer', 'SimplePump', 1), ('Heater', 'Cooler', 1), ('Mixer', 'Splitter', 2), ('SimplePump', 'Mixer', 3)]
    if tier == 'thorough':
        ch += [(a, b, 1) for a in UNITS for b in UNITS]
    c.update(group(chained, ch))
    c.update(group(late_properties, ['Valve', 'SimplePump', 'Heater', 'Cooler']))
    return c
