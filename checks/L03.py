"""L03: property packages hold one entry per phase, keep their state, and combine without loss."""
from .system import *
PRELOAD = ['core.property_package']
BOUNDS = 'packages of one to three phases from a set of four names in any order, sums of two and three packages (with any overlap), arbitrary temperatures and pressures; several packages created before and after'
ASSUMES = ['thermo.chemical.Chemical is a stand-in that records its name, temperature and pressure']
NAMES = ['water', 'methanol', 'ethanol']         # one is contained in another
import itertools
LISTS = [list(p) for r in (1, 2, 3) for p in itertools.permutations(NAMES, r)]


def thermo(ctx):
    made = []

    class Chemical:
        def __init__(self, name, T, P):
            self.name, self.T, self.P, self.calls = name, T, P, []
            made.append(self)

        def calculate(self, *a, **k):
            self.calls.append((a, k))

    class Mod:
        pass
    t = Mod()
    t.chemical = Mod()
    t.chemical.Chemical = Chemical
    ctx.mod('core.property_package')
    ctx.boundary_module('thermo', t)
    return made


def pkg(ctx, names=None, **k):
    PP = ctx.mod('core.property_package').PropertyPackage
    return PP() if names is None else PP(phases=len(names), phase_names=names, **k)


def is_package(ctx, p, names, label='package'):
    ctx.check(label + ': phases in order', list(p.phase_names) == names, list(p.phase_names))
    ctx.check(label + ': an entry per phase', sorted(p.phases) == sorted(names) and all(p[n].name == n for n in names), sorted(p.phases))
    ctx.check(label + ': * is the last phase', p['*'] is p[names[-1]])


def built(ctx, v):
    thermo(ctx)
    names = list(v)
    given = list(names)
    p = pkg(ctx, given)
    is_package(ctx, p, names)
    ctx.check('number of phases as given', p.number_of_phases == len(names))
    given.append('later')
    is_package(ctx, p, names, 'after the list given changed')
    q = pkg(ctx)
    is_package(ctx, q, ['water'], 'default')
    e = ctx.raised(lambda: p['nosuch'])
    ctx.check('an unknown phase is not answered', e is not None)


def added(ctx, v):
    """a + b has the phases of a, then those of b that are new; b stays as it is"""
    a, b = [list(x) for x in v]
    thermo(ctx)
    pa, pb = pkg(ctx, list(a)), pkg(ctx, list(b))
    own, others = {n: pa[n] for n in a}, {n: pb[n] for n in b}
    r = pa + pb
    want = a + [n for n in b if n not in a]
    is_package(ctx, r, want, 'sum')
    ctx.check('entries of the first are its own', all(r[n] is own[n] for n in a))
    ctx.check('new entries are those of the second', all(r[n] is others[n] for n in b if n not in a))
    is_package(ctx, pb, b, 'second operand')
    ctx.check('second operand keeps its entries', all(pb[n] is others[n] for n in b))
    fresh = pkg(ctx)
    is_package(ctx, fresh, ['water'], 'created afterwards')
    T, P = ctx.real('T'), ctx.real('P')
    r.calculate(T, P)
    for n in want:
        ctx.check('every phase of the sum is calculated', len(r[n].calls) == 1)


def defaults_apart(ctx, v):
    """packages created with defaults are independent"""
    thermo(ctx)
    p, q = pkg(ctx), pkg(ctx)
    o = pkg(ctx, [v])
    p + o
    is_package(ctx, q, ['water'], 'other package')
    is_package(ctx, pkg(ctx), ['water'], 'created afterwards')
    is_package(ctx, p, ['water'] + [v] * (v != 'water'), 'sum')


def three(ctx, v):
    a, b, c = [list(x) for x in v]
    thermo(ctx)
    pa, pb, pc = pkg(ctx, list(a)), pkg(ctx, list(b)), pkg(ctx, list(c))
    r = (pa + pb) + pc
    want = list(a)
    for n in b + c:
        if n not in want:
            want.append(n)
    is_package(ctx, r, want, 'sum of three')


def refused(ctx, v):
    thermo(ctx)
    names = ['methanol', 'water']
    p = pkg(ctx, list(names))
    bad = {'number': lambda: ctx.real('n'), 'none': lambda: None, 'name': lambda: 'water', 'list': lambda: ['water'], 'dict': lambda: {'water': 1}}[v]()
    ctx.expect_raises('only packages can be added', lambda: p + bad, 'UnexpectedValueError')
    is_package(ctx, p, names, 'unchanged')


def state(ctx, v):
    """temperature and pressure are set from floats only"""
    thermo(ctx)
    p, q = pkg(ctx), pkg(ctx)
    ctx.check('defaults', p.T == 298.15 and p.P == 101325)
    order = ctx.flag('pressure first')
    T, P = ctx.real('T'), ctx.real('P')
    for w in (('P', 'T') if order else ('T', 'P')):
        if w == 'T':
            p.set_T(T)
        else:
            p.set_P(P)
    ctx.check_same('temperature as set', p.T, T)
    ctx.check_same('pressure as set', p.P, P)
    for bad in ('300', None, [300.0]):
        ctx.expect_raises('refused', lambda: p.set_T(bad), 'AbsentRequiredObjectError')
        ctx.expect_raises('refused', lambda: p.set_P(bad), 'AbsentRequiredObjectError')
    ctx.check_same('temperature kept', p.T, T)
    ctx.check_same('pressure kept', p.P, P)
    ctx.check('other packages keep theirs', q.T == 298.15 and q.P == 101325)


def calculated(ctx, v):
    """calculate(T, P) reaches every phase once"""
    names, form = v
    thermo(ctx)
    p = pkg(ctx, list(names))
    other = pkg(ctx, list(names))
    T, P = ctx.real('T'), ctx.real('P')
    want = {'both': (T, P), 'names': (T, P), 'T': (T, 101325), 'P': (298.15, P), 'none': (298.15, 101325)}[form]
    {'both': lambda: p.calculate(T, P), 'names': lambda: p.calculate(P=P, T=T), 'T': lambda: p.calculate(T=T), 'P': lambda: p.calculate(P=P), 'none': lambda: p.calculate()}[form]()
    for n in names:
        cs = p[n].calls
        ctx.check('each phase once', len(cs) == 1, len(cs))
        a, k = cs[0]
        got = list(a) + [k[x] for x in ('T', 'P')[len(a):]]
        ctx.check_same('temperature', got[0], want[0])
        ctx.check_same('pressure', got[1], want[1])
        ctx.check('not the phases of others', other[n].calls == [])


def cases(tier):
    ls = LISTS if tier == 'thorough' else [x for x in LISTS if len(x) < 3] + LISTS[-2:]
    c = group(built, [tuple(x) for x in LISTS])
    c.update(group(added, [(tuple(a), tuple(b)) for a in ls for b in ls]))
    c.update(group(defaults_apart, NAMES))
    c.update(group(three, [(tuple(a), tuple(b), tuple(c_)) for a in LISTS[:9] for b in LISTS[:9] for c_ in LISTS[:9]] if tier == 'thorough' else [(('water',), ('methanol',), ('ethanol', 'water')), (('water', 'methanol'), ('methanol',), ('methanol', 'ethanol')), (('ethanol',), ('ethanol',), ('ethanol',)), (('water',), ('ethanol',), ('methanol',)), (('ethanol', 'water'), ('water',), ('methanol',))]))
    c.update(group(refused, ['number', 'none', 'name', 'list', 'dict']))
    c.update(group(state, ['state']))
    c.update(group(calculated, [(tuple(l), f) for l in LISTS[::4] for f in ('both', 'names', 'T', 'P', 'none')]))
    return c
