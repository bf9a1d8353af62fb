"""S06: simulations are configured as asked, and dispatched by the class of their problem."""
from .sims import *
from .files import Files
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers', 'core.domain', 'optimization']
BOUNDS = 'every configuration option alone and every pair of options, given as keyword, as dictionary over keywords or from a file; arbitrary numeric values; linear, nonlinear, differential and differential-algebraic problems; one to three runs'
ASSUMES = ['json.dump/json.load are inverse (stand-in that keeps the object); solver classes are stand-ins that record their arguments']
DEFAULTS = dict(initial_time=0., end_time=None, linear_solver='symbolicsys', nonlinear_solver='*', differential_solver='ODEINT', differential_algebraic_solver='IDA', problem_type=None,
                is_dynamic=False, compile_equations=True, domain=None, time_variable_name=None, initial_guess={}, initial_guess_solver=None, arg_names=[], args=[], verbosity_solver=0,
                number_of_time_steps=100, configuration_args={}, print_output=False, output_headers=None, variable_name_map={}, compilation_mechanism='numpy', number_parameters_to_optimize=0,
                times_for_solution=None)
NUM = ['initial_time', 'end_time', 'verbosity_solver', 'number_of_time_steps']
BOOL = ['is_dynamic', 'compile_equations', 'print_output']


def value(ctx, k):
    if k in NUM:
        return ctx.real('conf.' + k)
    if k in BOOL:
        return not DEFAULTS[k]
    if k == 'number_parameters_to_optimize':
        return ctx.choice('number', [1, 2])
    if isinstance(DEFAULTS[k], dict):
        return {'x_M': ctx.real('conf.' + k)}
    if isinstance(DEFAULTS[k], list):
        return ['p_M', ctx.real('conf.' + k)]
    if isinstance(DEFAULTS[k], str):
        return ctx.choice('value of ' + k, ['given ' + k, None, ''])
    return 'given ' + k


def same_conf(ctx, conf, want, label):
    ctx.check(label + ': the known options', set(DEFAULTS) <= set(conf), sorted(set(DEFAULTS) - set(conf)))
    for k in DEFAULTS:
        w = want[k]
        g = conf[k]
        if k in NUM and w is not None and g is not None:
            ctx.check_same(label + ': ' + k, g, w)
        elif isinstance(w, (dict, list)):
            ctx.check(label + ': ' + k, type(g) is type(w) and len(g) == len(w), str(g)[:50])
            for i in (w if isinstance(w, dict) else range(len(w))):
                if isinstance(w[i], str):
                    ctx.check(label + ': ' + k, g[i] == w[i])
                else:
                    ctx.check_same(label + ': ' + k, g[i], w[i])
        else:
            ctx.check(label + ': ' + k, type(g) is type(w) and g == w, str(g)[:50])


def prob(ctx, kind='linear', name='plain'):
    f = TYPES[kind][name]
    m = build(ctx, f)
    p = problem(ctx, m)
    if f.time:
        p.setTimeVariableName('t_M')
    p.resolve()
    return p


def blank(ctx):
    p = ctx.mod('problem').Problem('P', 'nothing yet')
    p.setTimeVariableName('t_M')
    return p


def keyword(ctx, v):
    """one or two options as keywords, all others at their defaults"""
    p = blank(ctx)
    clocks = ctx.choice('times', ['clock_M', ['t_M', 't_N']]) if v == 'is_dynamic' else 'clock_M'
    p.setTimeVariableName(clocks)
    other = ctx.choice('together with', [None] + [k for k in ('end_time', 'linear_solver', 'is_dynamic', 'initial_guess', 'print_output', 'args') if k != v])
    given = {k: value(ctx, k) for k in [v] + [other] * (other is not None)}
    sim = simulation(ctx, p, **given)
    want = {**DEFAULTS, **given}
    if want['is_dynamic'] and want['time_variable_name'] is None:
        want['time_variable_name'] = clocks if isinstance(clocks, list) else [clocks]
    same_conf(ctx, sim.configurations, want, 'configuration')
    ctx.check('time variables of the problem are left alone', p.time_variable_name == (clocks if isinstance(clocks, list) else [clocks]), p.time_variable_name)


def dictionary(ctx, v):
    """a dictionary of definitions goes over the keywords"""
    p = blank(ctx)
    other = ctx.choice('keyword', [None] + [k for k in ('end_time', 'linear_solver', 'initial_guess', 'args', 'number_parameters_to_optimize') if k != v])
    kw = {} if other is None else {other: value(ctx, other)}
    both = ctx.flag('also as keyword') if v != 'number_parameters_to_optimize' else False
    d = {v: value(ctx, v)}
    if both:
        kw[v] = DEFAULTS[v] if v in BOOL else (ctx.real('overridden') if v in NUM else 'overridden')
    before = dict(d)
    sim = simulation(ctx, p, definition_dict=d, **kw)
    want = {**DEFAULTS, **kw, **d}
    same_conf(ctx, sim.configurations, want, 'dictionary')
    ctx.check('the dictionary given is not changed', list(d) == list(before) and all(d[k] is before[k] for k in d))


def from_file(ctx, v):
    """dumped configurations can be loaded into another simulation"""
    p = blank(ctx)
    store = Files(ctx, 'simulation').data
    given = {v: value(ctx, v)}
    a = simulation(ctx, p, **given)
    named = ctx.flag('file named')
    if named:
        a.dumpConfigurations('here.json')
    else:
        a.dumpConfigurations()
    f = 'here.json' if named else 'S-conf.json'
    ctx.check('dumped to the file named', list(store) == [f], list(store))
    b = simulation(ctx, p, configurations_file=f)
    want = {**DEFAULTS, **given}
    if want['is_dynamic']:
        want['time_variable_name'] = p.time_variable_name
    same_conf(ctx, b.configurations, want, 'from the file')
    same_conf(ctx, a.configurations, want, 'the simulation that dumped them')


def optimized_count(ctx, v):
    """the number of optimised parameters given as keyword goes over dictionary"""
    p = blank(ctx)
    a, b = ctx.choice('keyword', [0, 1, 2]), ctx.choice('dictionary', [None, 0, 1, 2])
    d = {'end_time': ctx.real('te')}
    if b is not None:
        d['number_parameters_to_optimize'] = b
    kw = {'number_parameters_to_optimize': a} if a or ctx.flag('explicit') else {}
    sim = simulation(ctx, p, definition_dict=d, **kw)
    ctx.check('number of optimised parameters', sim.configurations['number_parameters_to_optimize'] == (a or b or 0), sim.configurations['number_parameters_to_optimize'])


def recorders(ctx, log, answer):
    def solve(cls):
        log.append((cls, 'solve'))
        return answer
    solver_standins(ctx, lambda *a: log.append(a), solve)


WHICH = {'linear': ('LASolver', 'linear_solver'), 'nonlinear': ('NLASolver', 'nonlinear_solver'), 'differential': ('DSolver', 'differential_solver'), 'differential-algebraic': ('DaeSolver', 'differential_algebraic_solver')}
SMALL = {'linear': 'one', 'nonlinear': 'one', 'differential': 'one', 'differential-algebraic': 'linear constraint'}


def dispatch(ctx, v):
    """each class of problem goes to its solver, with the solver name and configuration given"""
    kind, explicit, given = v
    p = prob(ctx, kind, SMALL[kind])
    log, ans = [], {'x_M': ctx.real('answer')}
    recorders(ctx, log, ans)
    kw = {k[1]: 'solver for ' + n for n, k in WHICH.items()} if given else {}
    if explicit:
        kw['problem_type'] = kind
    dom = object()
    kw['domain'] = dom
    sim = simulation(ctx, p, **kw)
    run(sim, sanity_check=ctx.flag('check'))
    cls, conf = WHICH[kind]
    ctx.check('one solver of the right class, run once', [x[0] for x in log] == [cls, cls] and log[1][1] == 'solve', [x[0] for x in log])
    ctx.check('for this problem', log[0][1] is p)
    ctx.check('with the configured back end', log[0][2] == ('solver for ' + kind if given else DEFAULTS[conf]), log[0][2])
    ctx.check('and the configuration', log[0][3] is sim.configurations or dict(log[0][3]) == dict(sim.configurations))
    ctx.check('its answer is the output', sim.output is ans)
    ctx.check('the domain is remembered', sim.domain is dom)


def unknown(ctx, v):
    """what is no known class of problem is refused"""
    if v == 'empty':
        p = problem(ctx, ctx.mod('model').Model('M', 'nothing'))
        p.models['M'].ignore_equation_warning = True
        p.resolve()
    else:
        p = prob(ctx)
    log = []
    recorders(ctx, log, {})
    sim = simulation(ctx, p, **({'problem_type': 'quadratic'} if v == 'named' else {}))
    ctx.expect_raises('refused', lambda: run(sim), 'UnexpectedValueError')
    ctx.check('nothing solved', log == [] and sim.output is None)


def another(ctx, v):
    """setting another problem or configuration changes what the next run does"""
    p1, p2 = prob(ctx, 'linear', 'one'), prob(ctx, *v)
    log = []
    recorders(ctx, log, {'x_M': 1})
    sim = simulation(ctx, p1, linear_solver='first')
    run(sim)
    if ctx.flag('configure first'):
        sim.setConfigurations(linear_solver='second')
        sim.setProblem(p2)
    else:
        sim.setProblem(p2)
        sim.setConfigurations(linear_solver='second')
    run(sim)
    cls, conf = WHICH[v[0]]
    ctx.check('first run', log[0][:3] == ('LASolver', p1, 'first'))
    ctx.check('second run', log[2][:3] == (cls, p2, 'second' if v[0] == 'linear' else DEFAULTS[conf]), log[2][:3])


def two(ctx, v):
    """configurations of two simulations are their own"""
    p = blank(ctx)
    a = simulation(ctx, p)
    given = {v: value(ctx, v)}
    b = simulation(ctx, p, **given)
    want = {**DEFAULTS, **given}
    if want['is_dynamic']:
        want['time_variable_name'] = p.time_variable_name
    same_conf(ctx, a.configurations, DEFAULTS, 'the other simulation')
    same_conf(ctx, b.configurations, want, 'this simulation')
    a.setConfigurations(end_time=ctx.real('te'))
    same_conf(ctx, b.configurations, want, 'this simulation')
    b.setConfigurations()
    same_conf(ctx, b.configurations, DEFAULTS, 'configured again')


def cases(tier):
    c = group(keyword, list(DEFAULTS))
    c.update(group(dictionary, list(DEFAULTS)))
    c.update(group(from_file, list(DEFAULTS)))
    c.update(group(optimized_count, ['count']))
    c.update(group(dispatch, [(k, e, g) for k in WHICH for e in (False, True) for g in (False, True)]))
    c.update(group(unknown, ['empty', 'named']))
    c.update(group(another, [('linear', 'plain'), ('nonlinear', 'one'), ('differential', 'one'), ('differential-algebraic', 'linear constraint')]))
    c.update(group(two, list(DEFAULTS)))
    return c
