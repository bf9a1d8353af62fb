"""O01: the optimizer runs with exactly the settings of the study."""
from .optim import *
PRELOAD = ['optimization', 'core.parameter', 'core.template_units', 'core.error_definitions']
BOUNDS = 'the four optimizers; arbitrary values for any subset of the numeric settings; every supported kind of crossover, mutation and selection; settings given as a dict, from a file, or not at all; one and two studies'
ASSUMES = ['pygmo is a stand-in with the documented parameters and defaults of pygmo 2; json is a faithful store']
NUM = [k for k, v in FULL.items() if not isinstance(v, str)]
KINDS = {'crossover_type': ['exponential', 'single', 'binomial', 'sbx'], 'mutation_type': ['gaussian', 'uniform', 'polynomial'], 'selection_type': ['tournament', 'truncated']}


def settings(ctx, tag='', which=None, kinds=True):
    s = {}
    for k in NUM if which is None else which:
        s[k] = ctx.real(tag + k)
    if kinds:
        for k, o in KINDS.items():
            s[k] = ctx.choice(tag + k, o)
    return s


def used(ctx, pg, opt, name, want, label='setting'):
    ctx.check('the study knows its optimizer', opt.optimizer == name)
    a = opt.optimization_mechanism
    ctx.check('an algorithm of that kind', isinstance(a, Algo) and a.uda.kind == USES[name][0])
    for p, s in USES[name][1].items():
        ctx.check('%s: passed on' % label, p in a.uda.given or want[s] is FULL[s], (p, s))
        if isinstance(want[s], str):
            ctx.check('%s: kind as set' % label, a.uda.got[p] == want[s], (p, a.uda.got[p], want[s]))
        else:
            ctx.check_same('%s: value as set' % label, lambda: a.uda.got[p], lambda: want[s])
    ctx.check('%s: columns of its log' % label, opt._pagmo_selected_algorithm_log_columns == COLUMNS[name])
    ctx.check('%s: log of its own kind' % label, opt._pagmo_selected_algorithm is pg.kinds[USES[name][0]])


def holds(ctx, opt, want, label='configuration'):
    got = opt.optimization_configuration
    ctx.check(label + ': every setting', set(got) == set(want), sorted(set(got) ^ set(want)))
    for k in want:
        if isinstance(want[k], str):
            ctx.check(label + ': kind', got[k] == want[k], (k, got[k]))
        else:
            ctx.check_same(label + ': value', lambda: got[k], lambda: want[k])


def given(ctx, v):
    """every setting given"""
    pg = Pygmo(ctx)
    s = settings(ctx, kinds=v == 'ga')
    user = dict(s)
    opt = study(ctx, optimizer=v, optimization_configuration=user)
    want = {**FULL, **s}
    holds(ctx, opt, want)
    used(ctx, pg, opt, v, want)
    ctx.check('what was given is not changed', set(user) == set(s) and all(user[k] is s[k] for k in s))


def partly(ctx, v, deep=False):
    """settings that are not given take the defaults"""
    pg = Pygmo(ctx)
    uses = [k for k in list(USES[v][1].values()) + ['number_of_individuals'] if k in NUM]
    if v == 'pso' and not deep:
        one = ctx.choice('the odd one', uses)
        which = [k for k in uses if (k == one) == ctx.flag('only the odd one is given')]
    else:
        which = [k for k in uses if ctx.flag('given ' + k)]
    s = settings(ctx, '', which, kinds=False)
    kind = ctx.choice('settings', ['dict', 'nothing'] if not s else ['dict'])
    opt = study(ctx, optimizer=v, optimization_configuration=None if kind == 'nothing' else s)
    want = {**FULL, **s}
    holds(ctx, opt, want)
    used(ctx, pg, opt, v, want)


def default_optimizer(ctx):
    pg = Pygmo(ctx)
    s = settings(ctx, kinds=False)
    opt = study(ctx, optimization_configuration=s)
    used(ctx, pg, opt, 'de', {**FULL, **s})


def from_file(ctx, v):
    """settings saved by one study and used by another"""
    pg = Pygmo(ctx)
    files = Files(ctx, 'optimization')
    s = settings(ctx, kinds=v == 'ga')
    a = study(ctx, optimizer=v, optimization_configuration=s)
    a.saveConfigurations('settings.json')
    ctx.check('saved under the name given', list(files.data) == ['settings.json'])
    holds(ctx, a, {**FULL, **s}, 'after saving')
    b = study(ctx, optimizer=v, optimization_configuration='settings.json')
    holds(ctx, b, {**FULL, **s}, 'loaded')
    used(ctx, pg, b, v, {**FULL, **s}, 'loaded setting')


def two_studies(ctx, v):
    """studies do not share settings"""
    first, second = v
    pg = Pygmo(ctx)
    s1, s2 = settings(ctx, 'a.', kinds=False), settings(ctx, 'b.', kinds=False)
    a = study(ctx, optimizer=first, optimization_configuration=s1)
    b = study(ctx, optimizer=second, optimization_configuration=s2)
    used(ctx, pg, a, first, {**FULL, **s1}, 'first')
    used(ctx, pg, b, second, {**FULL, **s2}, 'second')
    b.optimization_configuration['number_of_individuals'] = 7
    holds(ctx, a, {**FULL, **s1}, 'first')
    c, d = study(ctx, optimizer=first), study(ctx, optimizer=second)
    c.optimization_configuration['number_of_individuals'] = 7
    holds(ctx, d, FULL, 'defaults')
    e = study(ctx, optimizer=second)
    holds(ctx, e, FULL, 'defaults')
    used(ctx, pg, e, second, FULL, 'defaults')


def refused(ctx):
    pg = Pygmo(ctx)
    n = len(pg.algorithms)
    for bad in (None, 3, ['ga']):
        ctx.expect_raises('an optimizer that is neither a name nor a function', lambda: study(ctx, optimizer=bad), 'UnexpectedValueError')
    for bad in (3, [('number_of_generations', 2)], ctx.real('x')):
        ctx.expect_raises('settings that are neither a dict nor a file', lambda: study(ctx, optimization_configuration=bad), 'AbsentRequiredObjectError')
    ctx.check('no algorithm is created for what is refused', len(pg.algorithms) == n)


def sim_configuration(ctx, v):
    """where the configuration of the simulations comes from"""
    Pygmo(ctx)
    files = Files(ctx, 'optimization')
    own = {'initial_time': ctx.real('own.t0'), 'args': [1]}
    other = {'initial_time': ctx.real('other.t0'), 'args': [2]}
    files.data['conf.json'] = Text({'initial_time': ctx.real('file.t0'), 'args': [3]})
    sim = Sim(own if ctx.flag('the simulation is configured') else None)
    arg = {'dict': other, 'file': 'conf.json', 'none': None, 'number': 3}[v]
    if v == 'number' or (v == 'none' and sim.configurations is None):
        ctx.expect_raises('no configuration for the simulations', lambda: study(ctx, sim=sim, simulation_configuration=arg), 'AbsentRequiredObjectError')
        return
    opt = study(ctx, sim=sim, simulation_configuration=arg)
    want = {'dict': other, 'file': files.data['conf.json'].obj, 'none': own}[v]
    got = opt.simulation_configuration
    ctx.check('the configuration given', set(got) == set(want) and got['args'] == want['args'], got)
    ctx.check_same('the configuration given', lambda: got['initial_time'], lambda: want['initial_time'])
    ctx.check('the simulation keeps its own configuration', sim.configurations is None or sim.configurations is own)
    ctx.check('nothing has run yet', opt.best_parameters is None and opt.best_fitness is None and opt.run_sucessful is False)
    ctx.expect_raises('no results before a run', lambda: opt.getResults())


def cases(tier):
    names = list(USES)
    r = {**group(given, names), **group(from_file, names), **group(sim_configuration, ['dict', 'file', 'none', 'number']), **single(refused, default_optimizer)}
    pairs = [(a, b) for a in names for b in names] if tier == 'thorough' else [('de', 'pso'), ('ga', 'sade'), ('pso', 'pso')]
    return {**r, **group(two_studies, pairs), **group(partial(partly, deep=tier == 'thorough'), names)}
