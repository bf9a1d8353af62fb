"""S07: results are shown as computed, and parameters are reached through the simulation."""
from .sims import *
from .S03 import conf
PRELOAD = ['problem', 'model', 'connection', 'simulation', 'solvers', 'core.domain']
BOUNDS = 'linear and nonlinear problems of one to three unknowns and dynamic ones of one to three states in every declaration order, arbitrary solution values and units; every parameter by name and by object; one to three and seven steps; residual tables of one and two models; rows printed during odeint, CVODE and IDA runs; one and two simulations; one family of eleven unknowns and one of four whose names contain each other, in three declaration orders'
ASSUMES = ['solvers are stand-ins with arbitrary answers; prettytable prints str() of its cells']


def answer(ctx, p, names, turned=False):
    out = {n: ctx.real('answer.' + n) for n in (reversed(names) if turned else names)}
    solver_standins(ctx, None, lambda cls: dict(out))
    return out


def printing(ctx):
    """prettytable applies its number formats to arbitrary numbers as it does to floats"""
    if ctx.symbolic:
        import prettytable
        from symx.values import SymReal, percent
        real = prettytable.PrettyTable._format_value

        def fmt(self, field, value):
            if isinstance(value, SymReal):
                f = self._float_format if value.kind == 'float' else self._int_format
                return percent('%%%s%s' % (f[field], 'f' if value.kind == 'float' else 'd'), value) if field in f else real(self, field, value)
            return real(self, field, value)
        ctx.patch(prettytable.PrettyTable, '_format_value', fmt)


def shown(f):
    import io, contextlib
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f()
    return b.getvalue()


def rows(text):
    """cells of the lines of a printed table"""
    return [[c.strip() for c in l.strip()[1:-1].split('|')] for l in text.splitlines() if l.startswith('|')]


def cell(ctx, label, text, val):
    """the printed cell denotes that value"""
    from symx.values import TOKS
    if ctx.symbolic and text in TOKS:
        ctx.check_same(label, TOKS[text], val)
    elif ctx.symbolic:
        ctx.check(label, text == str(val), (text, str(val)))
    else:
        ctx.check(label, abs(float(text) - float(val)) <= 1e-9 * max(1, abs(float(val))), (text, str(val)))


def template(name):
    return lambda ctx: getattr(ctx.mod('core.template_units'), name)


def composed(**e):
    return lambda ctx: U(ctx)('u', e)


UNITS = {**{n: template(n) for n in ('kg', 'm', 'K', 'J')}, 'm1/2 kg-1': composed(m=0.5, kg=-1), 'mol-1/2': composed(mol=-0.5), 's3/4 cd2': composed(s=0.75, cd=2)}


def told(text):
    """exponents of a printed unit"""
    import re
    return {d: float(e) for d, e in re.findall(r'([A-Za-z]+)\s*\^\s*\(?([-+0-9.e/]+)\)?', text)}


def algebraic(ctx, v):
    kind, name = v
    f = TYPES[kind][name]
    vo = order_of(ctx, 'variables', len(f.vars)) if len(f.vars) < 3 else some_orders(ctx, 'variables', len(f.vars), [(0, 1, 2), (2, 0, 1)])
    m = build(ctx, f, vorder=vo)
    us = {}
    for i, x in enumerate(f.vars):
        u = ctx.choice('unit of ' + x, [['kg', 'm', 'K'], ['m', 'm1/2 kg-1', 'mol-1/2'], ['K', 'J', 's3/4 cd2']][i]) if i < 3 else ['kg', 'm', 'K'][i % 3]
        us[x + '_M'] = UNITS[u](ctx)
        m.variables[x + '_M'].units = us[x + '_M']
    # units are exchanged after the equations were declared without them
    p = problem(ctx, m)
    for x in f.vars:
        m.variables[x + '_M'].units = dimless(ctx)
    p.resolve()
    for x in f.vars:
        m.variables[x + '_M'].units = us[x + '_M']
    names = list(p.equation_block._var_list)
    out = answer(ctx, p, names, turned=ctx.flag('answered in another order'))
    sim = simulation(ctx, p)
    ctx.expect_raises('nothing to show before a run', lambda: sim.showResults(), 'AssertionError')
    run(sim)
    printing(ctx)
    rs = rows(shown(sim.showResults))
    ctx.check('headings', rs[0] == ['Variable', 'Unit', 'Value'], rs[0])
    ctx.check('a row per unknown', sorted(r[0] for r in rs[1:]) == sorted(names), [r[0] for r in rs[1:]])
    for r in rs[1:]:
        cell(ctx, 'value shown', r[2], out[r[0]])
        ctx.check('unit shown', told(r[1]) == {d: float(e) for d, e in us[r[0]].dimension.items() if e}, (r[1], us[r[0]].dimension))
    ctx.expect_raises('unknown kind of result', lambda: sim.getResults('table'), 'UnexpectedValueError')
    lst, dct = sim.getResults(), sim.getResults('dict')
    ctx.check('as a dict', sorted(dct) == sorted(names))
    ctx.check('as a list', len(lst) == len(names))
    for n, x in zip(out, lst):
        ctx.check_same('as a dict', lambda: ctx.value(dct[n], {}), lambda: out[n])
        ctx.check_same('as a list: in the order of the output', lambda: ctx.value(x, {}), lambda: out[n])
    dct[names[0]] = 0
    ctx.check_same('the output is not changed through results', lambda: ctx.value(sim.getResults('dict')[names[0]], {}), lambda: out[names[0]])


def changed(ctx, v):
    """after another run, on this or another problem, the results are those of the last run only"""
    a, b, sym = v
    f, g = TYPES[a[0]][a[1]], TYPES[b[0]][b[1]]
    p1, p2 = problem(ctx, build(ctx, f)), problem(ctx, build(ctx, g, 'N'))
    p1.resolve()
    p2.resolve()
    if sym == 'same problem':
        p2 = p1
    sim = simulation(ctx, p1)
    import sympy as sp
    for i, p in enumerate((p1, p2, p1)):
        names = list(p.equation_block._var_list)
        out = {n: ctx.real('answer%d.%s' % (i, n)) for n in names}
        k = sp.Symbol if i % 2 else str
        solver_standins(ctx, None, lambda cls: {k(n): x for n, x in out.items()})
        sim.setProblem(p)
        run(sim)
        got = solution(ctx, sim, names)
        dct = sim.getResults('dict')
        ctx.check('as a dict', sorted(dct) == sorted(names), sorted(dct))
        lst = sim.getResults()
        ctx.check('as a list', len(lst) == len(names))
        for n, x in zip(names, lst):
            ctx.check_same('output', got[n], out[n])
            ctx.check_same('as a dict', dct[n], out[n])
            ctx.check_same('as a list', lambda: ctx.value(x, {}), lambda: out[n])


def dynamic_(ctx, v):
    name, n = v
    f = ODE[name]
    k = len(f.vars)
    vo = order_of(ctx, 'variables', k) if k < 3 else some_orders(ctx, 'variables', len(f.vars), [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    p, ms, rs, ys, ic = dynamic(ctx, f, vorder=vo)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=0).install()
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=n))
    ctx.expect_raises('nothing to show before a run', lambda: sim.showResults(), 'AssertionError')
    run(sim)
    names, t, Y, kk = O.runs[-1]
    # the headings are the user's, in the order of the integrator's columns
    heads = ['time'] + ['state ' + x for x in names]
    sim.configurations['output_headers'] = list(heads)
    printing(ctx)
    rr = rows(shown(sim.showResults))
    ctx.check('headings', rr[0] == heads, rr[0])
    ctx.check('a row per time', len(rr) == n + 2, len(rr))
    for i, r in enumerate(rr[1:]):
        for h, c in zip(heads, r):
            cell(ctx, 'value shown under its heading', c, t[i] if h == 'time' else Y[i][names.index(h[6:])])
    ctx.expect_raises('unknown kind of result', lambda: sim.getResults('table'), 'UnexpectedValueError')


def denoted(ctx, text):
    """the number a printed expression stands for"""
    import sympy as sp
    if not ctx.symbolic:
        return float(sp.sympify(text))
    import re
    from symx.values import TOKS
    e = sp.sympify(text, locals={n: ctx.token(TOKS[n]) for n in re.findall(r'sxv_\w+', text)})
    return ctx.value(e, {})


def residuals(ctx, v):
    """after a run the residual of every equation at the answer is shown under its name"""
    kind, name = v
    f = TYPES[kind][name]
    eo = order_of(ctx, 'equations', len(f.eqs)) if len(f.eqs) < 4 else None
    two = ctx.flag('two models') if kind == 'linear' else False
    m = build(ctx, f, eorder=eo)
    ms = [m, build(ctx, LIN['one'], 'N')] if two else [m]
    pos_pars(ctx, *ms)
    p = problem(ctx, *ms)
    p.resolve()
    names = list(p.equation_block._var_list)
    out = answer(ctx, p, names, turned=ctx.flag('answered in another order'))
    for x in out.values():
        defined(ctx, x)
    sim = simulation(ctx, p)
    printing(ctx)
    how = ctx.choice('asked', ['default', True, False])
    text = shown(lambda: sim.runSimulation(**({} if how == 'default' else {'show_final_residuals': how})))
    rr = rows(text)
    if how is False:
        ctx.check('not shown', rr == [])
        return
    ctx.check('headings', rr[0] == ['Equation', 'Residual'], rr[0])
    rs = refs(*ms)
    ctx.check('a row per equation', [r[0] for r in rr[1:]] == ['%s_%s' % (e.name, x.name) for x in ms for e in x.ref], [r[0] for r in rr[1:]])
    for r, e in zip(rr[1:], rs):
        if ctx.symbolic:
            ctx.check_same('residual shown', lambda: denoted(ctx, r[1]), lambda: e.res(out))
        else:
            w = float(e.res(out))
            ctx.check('residual shown', abs(denoted(ctx, r[1]) - w) <= 1e-9 * max(1, abs(w), *[abs(float(x)) for x in out.values()]), (r[1], w))


def printed(ctx, v):
    """with print_output a dynamic run prints its rows under the headings given"""
    name, n, back = v
    f = (DAE if back == 'IDA' else ODE)[name]
    if back == 'IDA':
        from .S05 import setting
        p, ms, rs, ys, ic, I = setting(ctx, f, orders=True, dorder=False, probe=0)
    else:
        p, ms, rs, ys, ic = dynamic(ctx, f, vorder=order_of(ctx, 'variables', len(f.vars)))
        I = (CVode if back == 'CVODE' else OdeInt)(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=0).install()
    heads = ['time'] + ['column %d' % i for i in range(len(ys))]
    k = {'differential_solver': back} if back != 'IDA' else {}
    on = ctx.flag('print')
    sim = simulation(ctx, p, **conf(ctx, ms[0], number_of_time_steps=n, print_output=on, output_headers=list(heads), **k))
    printing(ctx)
    rr = rows(shown(lambda: run(sim)))
    if not on:
        ctx.check('nothing is printed', rr == [])
        return
    names, t, Y = I.runs[-1][:3]
    ctx.check('headings', rr[0] == heads, rr[0])
    ctx.check('a row per time', len(rr) == n + 2, len(rr))
    for i, r in enumerate(rr[1:]):
        cell(ctx, 'time shown', r[0], t[i])
        for j, c in enumerate(r[1:]):
            cell(ctx, 'value shown', c, Y[i][j])


def parameters(ctx, v):
    """sim[parameter] is the parameter of the problem, by name or object; setting it is seen"""
    kind, name = v
    f = TYPES[kind][name]
    a, b = build(ctx, f), build(ctx, f, 'N')
    pos_pars(ctx, a, b)
    p = problem(ctx, a, b)
    if f.time:
        p.setTimeVariableName(['t_M', 't_N'])
    p.resolve()
    sim = simulation(ctx, p)
    for m in (a, b):
        for q in f.pars:
            o = m.parameters['%s_%s' % (q, m.name)]
            ctx.check('by name', sim[o.name] is o)
            ctx.check('by object', sim[o] is o)
            ctx.check('by an object of that name', sim[type(o)(o.name, o.units, 'd')] is o)
    foreign = type(o)('elsewhere_M', o.units, 'd')
    ctx.check('a quantity of no model of the problem is not answered', ctx.raised(lambda: sim[foreign]) is not None)
    for bad in (3, None, ('a_M',)):
        ctx.expect_raises('anything else is refused', lambda: sim[bad], 'UnexpectedValueError')
    e = ctx.raised(lambda: sim['nosuch_M'])
    ctx.check('an unknown name is not answered', e is not None)
    new = ctx.real('new')
    defined(ctx, new)
    x = '%s_M' % f.pars[0]
    sim[x].setValue(new)
    ctx.check_same('a value set through the simulation is the parameter\'s', a.parameters[x].value, new)
    p.resolve()
    env, der = env_names(ctx, [n for n in p.equation_block._var_list])
    for t in ('t_M', 't_N'):
        env['d/' + t] = 0
    der = {(n, 't_' + n[-1]): env['d/' + n] for n in p.equation_block._var_list}
    for e, r in zip(p.equation_block.equations, refs(a, b)):
        ctx.check_same('and enters the equations at the next resolution', lambda: ctx.value(e._getSymbolicObject('residual'), env, der), lambda: r.res(env))


def cases(tier):
    c = group(algebraic, [(k, n) for k in ('linear', 'nonlinear') for n in TYPES[k] if n != 'free parameter'])
    L, N = ('linear', 'plain'), ('nonlinear', 'product')
    c.update(group(changed, [(L, N, 'another'), (N, L, 'another'), (L, ('linear', 'mixed'), 'another'), (L, L, 'same problem'), (N, N, 'same problem')]))
    c.update(group(dynamic_, [(n, k) for n in ('one', 'coupled', 'three') for k in (1, 2, 3)] + [('one', 7)]))
    c.update(group(algebraic, [m for m in MORE if m[0] in ('linear', 'nonlinear')]))
    c.update(group(dynamic_, [(n, 2) for n in ODE.more]))
    c.update(group(residuals, [(k, n) for k in ('linear', 'nonlinear') for n in TYPES[k] if n != 'free parameter'] + [m for m in MORE if m[0] in ('linear', 'nonlinear') and m[1] != 'chain']))
    c.update(group(printed, [('one', 7, 'ODEINT'), ('coupled', 1, 'ODEINT'), ('one', 2, 'ODEINT'), ('coupled', 1, 'CVODE'), ('linear constraint', 1, 'IDA'), ('coefficients', 2, 'IDA')]))
    c.update(group(parameters, [m for m in MORE if m[1] in ('names', 'letters')]))
    c.update(group(parameters, [(k, n) for k in TYPES for n in TYPES[k] if n != 'free parameter']))
    return c
