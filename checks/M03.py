"""M03: incorporating another model copies its objects and equations under the new owner."""
from .system import *
PRELOAD = ['model']
BOUNDS = 'source models with up to three variables, two parameters, a constant and three equations (residual, equality, function, differential); with and without renaming; each subset of object kinds; arbitrary values, units and evaluation points; one and two steps of incorporation, renamed or not in each; names that others take over; local names that contain the separator or the name of the model'
FORMS = {
    'residuals': [('e1', ('-', ('*', q('a'), q('x')), q('y'))), ('e2', ('-', ('+', q('x'), q('k')), q('z')))],
    'equalities': [('e1', ('*', q('a'), q('x')), ('+', q('y'), q('b'))), ('e2', q('x'), ('*', q('z'), q('k')))],
    'literal side': [('e1', ('-', q('x'), q('a')), n(3)), ('e2', ('*', q('y'), q('z')), n(2))],
    'functions': [('e1', ('-', ('Max', q('x'), q('a')), q('z'))), ('e2', ('Exp', q('y')), ('*', q('b'), q('x')))],
    'free parameter': [('e1', ('-', ('*', q('f'), q('x')), q('y'))), ('e2', q('f'), ('+', q('z'), q('b')))],
    'powers': [('e1', ('-', ('**', q('x'), n(2)), ('/', q('y'), q('a'))))],
}
KINDS = ['variables', 'parameters', 'constants', 'equations']


# local names that contain the separator, the model's name, or both
ODD = dict(x='x_Sin', y='S_y', z='z_in', a='a_Sat', b='b_S', f='S', k='k_Sk', e1='eq_S_1', e2='e_S')


# renamed to the target 'S_S' each takes the name another one had
CLASH = dict(x='x', y='x_S', z='x_S_S', a='a_S', b='a', f='y_S', k='y', e1='e', e2='e_S')


def source(ctx, form, name='S', u=None, odd=False):
    names = CLASH if odd == 'clash' else ODD if odd else {}
    L = lambda i: names.get(i, i)
    Model = ctx.mod('model').Model
    u = u or dimless(ctx)
    m = Model(name, 'source')
    m.x = m.createVariable(L('x'), u, 'dx', lower_bound=ctx.real('x.lo'), is_exposed=True, type='input', latex_text='X')
    m.y = m.createVariable(L('y'), u, 'dy', value=ctx.real('y.start'), is_exposed=True, type='output')
    m.z = m.createVariable(L('z'), u, 'dz', is_exposed=True, type='input')
    if ctx.flag('z specified'):
        m.z.setValue(ctx.real('z.val'))
    for p in 'ab':
        o = m.createParameter(L(p), u, 'd' + p)
        o.setValue(ctx.real(p + '.val'))
        setattr(m, p, o)
    m.f = m.createParameter(L('f'), u, 'df', value=ctx.real('f.start'))
    m.k = m.createConstant(L('k'), u, 'dk')
    m.k.setValue(ctx.real('k.val'))
    if form == 'powers':
        for o in (m.a, m.b, m.k) + ((m.z,) if m.z.is_specified else ()):
            ctx.assume(o.value > 0)
    m.ref = []
    if form:
        for e in FORMS[form]:
            eq = Eq(L(e[0]), T(ctx, lambda g: getattr(m, g), e[1]), T(ctx, lambda g: getattr(m, g), e[2]) if len(e) > 2 else None)
            m.createEquation(L(e[0]), 'about ' + L(e[0]), eq.decl)
            m.ref.append(eq)
    return m


def photo(ctx, m):
    """everything observable about a model's objects, to compare later"""
    r = {k: dict(getattr(m, k)) for k in KINDS}
    a = {(k, nm): (o.name, o.owner_model_name, getattr(o, 'value', None), getattr(o, 'is_specified', None)) for k in KINDS for nm, o in r[k].items()}
    x = {e: list(v) for e, v in m.exposed_vars.items()}
    return r, a, x


def unchanged(ctx, m, ph, label):
    r, a, x = ph
    r2, a2, x2 = photo(ctx, m)
    ctx.check(label + ': same registries', all(list(r[k]) == list(r2[k]) and all(r[k][i] is r2[k][i] for i in r[k]) for k in KINDS))
    ctx.check(label + ': same exposure', all(len(x[e]) == len(x2[e]) and all(i is j for i, j in zip(x[e], x2[e])) for e in x))
    ok = list(a) == list(a2)
    ctx.check(label + ': same objects', ok)
    if ok:
        for i in a:
            ctx.check(label + ': names, owners, specification', a[i][0] == a2[i][0] and a[i][1] == a2[i][1] and a[i][3] == a2[i][3])
            if a[i][2] is not None:
                ctx.check_same(label + ': values', a[i][2], a2[i][2])


def new_name(s, t, nm, rw):
    return nm[:-len('_' + s.name)] + '_' + t.name if rw else nm


def copied(ctx, s, t, rw, kinds=KINDS[:3]):
    for k in KINDS[:3]:
        if k not in kinds:
            ctx.check('kinds left out are not copied', len(getattr(t, k)) == 0)
            continue
        src, got = getattr(s, k), getattr(t, k)
        ctx.check('the copies, in order', list(got) == [new_name(s, t, i, rw) for i in src], list(got))
        for nm, o in src.items():
            c = got[new_name(s, t, nm, rw)]
            ctx.check('a copy, not the same object', c is not o)
            ctx.check('name of the copy', c.name == new_name(s, t, nm, rw))
            ctx.check('owner of the copy', c.owner_model_name == t.name)
            ctx.check('description and class of the copy', c.description == o.description and c.latex_text == o.latex_text and type(c) is type(o))
            ctx.check('specification of the copy', c.is_specified == o.is_specified)
            ctx.check_same('value of the copy', c.value, o.value)
            ctx.check('units of the copy', same_dims(ctx, exps(c.units), exps(o.units)))
            if k == 'variables':
                ctx.check('exposure of the copy', c.is_exposed == o.is_exposed and c.type == o.type)
                ctx.check('bounds of the copy', c.is_lower_bounded == o.is_lower_bounded and c.is_upper_bounded == o.is_upper_bounded)
                if o.is_lower_bounded:
                    ctx.check_same('bound of the copy', c.lower_bound, o.lower_bound)
            ctx.check('reachable as an attribute', getattr(t, nm[:-len('_' + s.name)], None) is c)


def equations(ctx, s, t, rw, tag='at'):
    """equations of t mean those of s over t's objects"""
    ctx.check('the equations, in order', list(t.equations) == [(e.name + '_' + t.name) if rw else (e.name + '_' + s.name) for e in s.ref], list(t.equations))
    unk = sorted(set(i for e in s.ref for i in e.unknowns))
    env, _ = env_names(ctx, unk, tag)
    tenv = {new_name(s, t, i, rw): env[i] for i in unk}
    allq = {**t.variables, **t.parameters, **t.constants}
    for e, eq, old in zip(s.ref, t.equations.values(), s.equations.values()):
        ctx.check('a copy of the equation', eq is not old)
        ctx.check('owner of the equation', eq.owner_model_name == t.name)
        ctx.check('description of the equation', eq.description == 'about ' + e.name)
        ctx.check('class of the equation', eq.type == old.type and eq.equation_form == old.equation_form, (eq.type, old.type))
        ctx.check_same('residual over the copies', lambda: ctx.value(eq.eval(dict(tenv)), {}), lambda: e.res(env))
        ctx.check_same('residual expression over the copies', lambda: ctx.value(eq._getSymbolicObject('residual'), tenv), lambda: e.res(env))
        if e.r is not None:
            ctx.check_same('left side over the copies', lambda: ctx.value(eq.eval(dict(tenv), side='lhs'), {}), lambda: e.l.val(env))
            ctx.check_same('right side over the copies', lambda: ctx.value(eq.eval(dict(tenv), side='rhs'), {}), lambda: e.r.val(env))
        want = set(new_name(s, t, i, rw) for i in e.objs)
        ctx.check('objects of the equation', set(eq.objects_declared) == want, (sorted(eq.objects_declared), sorted(want)))
        ctx.check("they are the target's own", all(eq.objects_declared[i] is allq.get(i) for i in eq.objects_declared))
        ctx.check_same('residual of the source', lambda: ctx.value(old.eval(dict(env)), {}), lambda: e.res(env))
        ctx.check_same('residual expression of the source', lambda: ctx.value(old._getSymbolicObject('residual'), env), lambda: e.res(env))
        if e.r is not None:
            for side, x in (('lhs', e.l), ('rhs', e.r)):
                ctx.check_same('sides of the source', lambda: ctx.value(old.eval(dict(env), side=side), {}), lambda: x.val(env))
                ctx.check_same('side expressions of the source', lambda: ctx.value(old._getSymbolicObject('elementary', side), env), lambda: x.val(env))
                ctx.check_same('side expressions over the copies', lambda: ctx.value(eq._getSymbolicObject('elementary', side), tenv), lambda: x.val(env))


def target(ctx, name='T'):
    return ctx.mod('model').Model(name, 'target')


def whole(ctx, v):
    form, rw, nt = v[:3]
    s, t = source(ctx, form, *v[4:5], odd='clash' if 'clash' in v[3:] else 'odd names' in v[3:]), target(ctx, nt)
    ph = photo(ctx, s)
    t.incorporateFromExternalModel(s, rewrite_name=rw)
    copied(ctx, s, t, rw)
    for e in ('input', 'output'):
        ctx.check('exposed copies', [i.name for i in t.exposed_vars[e]] == [new_name(s, t, i.name, rw) for i in s.exposed_vars[e]] and all(i is t.variables[i.name] for i in t.exposed_vars[e]))
    equations(ctx, s, t, rw)
    unchanged(ctx, s, ph, 'source')


def assembled(ctx, v):
    """a problem of the target has the copies of the unknowns a problem of the source has"""
    form, rw = v
    s, t = source(ctx, form), target(ctx)
    want = [i for i in s.variables if any(i in e.unknowns for e in s.ref)]
    if ctx.flag('y specified later'):
        s.y.setValue(ctx.real('y.val'))
    t.incorporateFromExternalModel(s, rewrite_name=rw)
    ps, pt = problem(ctx, s), problem(ctx, t)
    ps.resolve()
    pt.resolve()
    bs, bt = ps.equation_block, pt.equation_block
    ctx.check('unknowns', list(bt.variable_dict) == [new_name(s, t, i, rw) for i in bs.variable_dict], list(bt.variable_dict))
    ctx.check('unknowns: the copies', all(o is t.variables[i] for i, o in bt.variable_dict.items()))
    ctx.check('parameters', list(bt.parameter_dict) == [new_name(s, t, i, rw) for i in bs.parameter_dict], list(bt.parameter_dict))
    ctx.check('class', pt._getProblemType() == ps._getProblemType())
    ctx.check('unknowns of the source', list(bs.variable_dict) == want, list(bs.variable_dict))


def default_call(ctx, v):
    """without options everything is incorporated and renamed"""
    s, t = source(ctx, v), target(ctx)
    t.incorporateFromExternalModel(s)
    copied(ctx, s, t, True)
    equations(ctx, s, t, True)


def subset(ctx, v):
    kinds, rw = v
    s, t = source(ctx, 'residuals'), target(ctx)
    ph = photo(ctx, s)
    t.incorporateFromExternalModel(s, incorporate_variables='variables' in kinds, incorporate_parameters='parameters' in kinds,
                                   incorporate_constants='constants' in kinds, incorporate_equations=False, rewrite_name=rw)
    copied(ctx, s, t, rw, kinds)
    ctx.check('no equations', len(t.equations) == 0)
    unchanged(ctx, s, ph, 'source')


def independent(ctx, v):
    """changing one side later does not show in the other"""
    s, t = source(ctx, 'free parameter'), target(ctx)
    t.incorporateFromExternalModel(s, rewrite_name=v)
    side, other = (s, t) if ctx.flag('change the source') else (t, s)
    ph = photo(ctx, other)
    for k in ('variables', 'parameters', 'constants'):
        for nm, o in getattr(side, k).items():
            o.setValue(ctx.real('new.' + nm))
    side.createVariable('w', dimless(ctx), 'late')
    unchanged(ctx, other, ph, 'other model')


def again(ctx, v):
    """incorporated again: the target holds, exposes and uses the latest copies"""
    form, rw = v
    s, t = source(ctx, form), target(ctx)
    t.incorporateFromExternalModel(s, rewrite_name=rw)
    first = dict(t.variables)
    s.a.setValue(ctx.real('a.new'))
    t.incorporateFromExternalModel(s, rewrite_name=rw)
    copied(ctx, s, t, rw)
    ctx.check('new copies', all(t.variables[i] is not first[i] for i in first))
    for e in ('input', 'output'):
        ctx.check('the latest copies are exposed', all(any(x is o for x in t.exposed_vars[e]) for o in t.variables.values() if o.is_exposed and o.type == e))
    equations(ctx, s, t, rw)


def existing(ctx, v):
    """the target keeps what it already had"""
    s, t = source(ctx, v), target(ctx)
    u = dimless(ctx)
    t.own = t.createVariable('own', u, 'd')
    t.par = t.createParameter('par', u, 'd')
    t.par.setValue(ctx.real('par.val'))
    ref = binop(ctx, '-', qterm(t.own), qterm(t.par))
    eo = t.createEquation('eo', 'd', ref.node)
    t.incorporateFromExternalModel(s)
    ctx.check('kept', t.variables.get('own_T') is t.own and t.parameters.get('par_T') is t.par and t.equations.get('eo_T') is eo)
    w = ctx.real('w')
    ctx.check_same('its equation', lambda: ctx.value(eo.eval({'own_T': w}), {}), lambda: w - ctx.real('par.val'))
    ctx.check('all together', set(t.variables) == {'own_T', 'x_T', 'y_T', 'z_T'} and set(t.equations) == {'eo_T'} | set(e.name + '_T' for e in s.ref))
    mix = binop(ctx, '*', qterm(t.own), qterm(t.x))
    e = t.createEquation('mix', 'd', mix.node)
    x = ctx.real('xx')
    ctx.check_same('copies and own quantities mix', lambda: ctx.value(e.eval({'own_T': w, 'x_T': x}), {}), lambda: w * x)


def chain(ctx, v):
    """incorporated twice in a row: the first target is a model like any other"""
    form, rw = v
    s, t, t2 = source(ctx, form), target(ctx), target(ctx, 'Third')
    t.incorporateFromExternalModel(s)
    t.ref = s.ref
    t2.incorporateFromExternalModel(t, rewrite_name=True)
    ctx.check('names after two steps', list(t2.variables) == ['x_Third', 'y_Third', 'z_Third'], list(t2.variables))
    unk = sorted(set(i for e in s.ref for i in e.unknowns))
    env, _ = env_names(ctx, unk)
    env3 = {i[:-2] + '_Third': env[i] for i in unk}
    for e, eq in zip(s.ref, t2.equations.values()):
        ctx.check('owner', eq.owner_model_name == 'Third')
        ctx.check_same('residual after two steps', lambda: ctx.value(eq.eval(dict(env3)), {}), lambda: e.res(env))


RATES = {
    'equalities': [('e1', d('x'), ('*', q('a'), q('y'))), ('e2', d('y'), ('-', q('b'), ('*', q('x'), q('y'))))],
    'residuals': [('e1', ('-', ('+', d('x'), ('*', q('a'), d('y'))), q('y'))), ('e2', ('-', q('x'), ('*', q('b'), q('y'))))],
    'time': [('e1', d('x'), ('+', q('t'), q('a'))), ('e2', ('*', q('b'), d('y')), ('-', q('x'), q('t')))],
}


def rates(ctx, v):
    """equations with derivatives: those of the copies, with respect to the copied time"""
    form, rw, nt, steps = v
    s = build(ctx, Fam('x y', 'a b', RATES[form], time='t'), 'S')
    s()
    t = target(ctx, nt)
    t.incorporateFromExternalModel(s, rewrite_name=rw)
    if steps == 2:
        t, mid = target(ctx, 'Third'), t
        t.incorporateFromExternalModel(mid, rewrite_name=rw)
    last = (lambda n: n[:-1] + t.name) if rw else (lambda n: n)
    env, der = env_names(ctx, ['x_S', 'y_S', 't_S'], time='t_S')
    tenv = {last(i): env[i] for i in ('x_S', 'y_S', 't_S')}
    tder = {(last(a), last(b)): x for (a, b), x in der.items()}
    ctx.check('the equations', list(t.equations) == [last(e.name + '_S') for e in s.ref], list(t.equations))
    for e, eq, old in zip(s.ref, t.equations.values(), s.equations.values()):
        ctx.check('class of the equation', eq.type == old.type and eq.equation_form == old.equation_form, (eq.type, old.type))
        ctx.check_same('residual over the copies', lambda: ctx.value(eq._getSymbolicObject('residual'), tenv, tder), lambda: e.res(env))
        ctx.check_same('residual of the source', lambda: ctx.value(old._getSymbolicObject('residual'), env, der), lambda: e.res(env))
        if e.r is not None:
            for side, x in (('lhs', e.l), ('rhs', e.r)):
                ctx.check_same('sides over the copies', lambda: ctx.value(eq._getSymbolicObject('elementary', side), tenv, tder), lambda: x.val(env))
        ctx.check('objects of the equation', set(eq.objects_declared) == set(last(i) for i in old.objects_declared), sorted(eq.objects_declared))


def kept_names(ctx, v):
    """incorporated without renaming, then incorporated again: objects and equations of all sources arrive"""
    mid, rw, second = v
    ss = [source(ctx, 'residuals', 'S1'), source(ctx, 'equalities', 'S2')] if second else [source(ctx, 'equalities')]
    t, t2 = target(ctx, mid), target(ctx, 'Third')
    for s in ss:
        t.incorporateFromExternalModel(s, rewrite_name=False)
    t2.incorporateFromExternalModel(t, rewrite_name=rw)
    last = (lambda n: n + '_Third') if rw else (lambda n: n)
    for k in KINDS[:3]:
        ctx.check('the copies after two steps', list(getattr(t2, k)) == [last(n) for s in ss for n in getattr(s, k)], list(getattr(t2, k)))
        for s in ss:
            for nm, o in getattr(s, k).items():
                c = getattr(t2, k)[last(nm)]
                ctx.check('name and owner after two steps', c.name == last(nm) and c.owner_model_name == 'Third' and c is not o)
                ctx.check_same('value after two steps', c.value, o.value)
    ctx.check('the equations after two steps', len(t2.equations) == sum(len(s.ref) for s in ss), list(t2.equations))
    for s in ss:
        env, _ = env_names(ctx, sorted(set(i for e in s.ref for i in e.unknowns)))
        env3 = {last(i): env[i] for i in env}
        for e in s.ref:
            eq = t2.equations[last(e.name + '_' + s.name)]
            ctx.check_same('residual after two steps', lambda: ctx.value(eq.eval(dict(env3)), {}), lambda: e.res(env))
            ctx.check('objects of the equation after two steps', set(eq.objects_declared) == set(last(i) for i in e.objs), sorted(eq.objects_declared))


def two_sources(ctx, v):
    """two sources with the same short names side by side (no renaming)"""
    s1, s2, t = source(ctx, 'residuals', 'S1'), source(ctx, 'equalities', 'S2'), target(ctx)
    for s in (s1, s2):
        t.incorporateFromExternalModel(s, rewrite_name=False)
    ctx.check('all variables side by side', list(t.variables) == ['x_S1', 'y_S1', 'z_S1', 'x_S2', 'y_S2', 'z_S2'], list(t.variables))
    ctx.check('all equations side by side', list(t.equations) == ['e1_S1', 'e2_S1', 'e1_S2', 'e2_S2'])
    for s in (s1, s2):
        env, _ = env_names(ctx, sorted(set(i for e in s.ref for i in e.unknowns)))
        for e in s.ref:
            ctx.check_same('residual', lambda: ctx.value(t.equations[e.name + '_' + s.name].eval(dict(env)), {}), lambda: e.res(env))


def units_kept(ctx, v):
    """arbitrary units travel along"""
    u = unit(ctx, 'u')
    want = exps(u)
    s, t = source(ctx, None, u=u), target(ctx)
    t.incorporateFromExternalModel(s, rewrite_name=v)
    for k in KINDS[:3]:
        for o in getattr(t, k).values():
            dims_are(ctx, 'units of the copies', o.units, want)


def cases(tier):
    names = ['T'] if tier == 'quick' else ['T', 'SS', 'a_b']
    c = group(whole, [(f, rw, nt) for f in FORMS for rw in (True, False) for nt in names])
    c.update(group(whole, [('residuals', True, 'SS'), ('equalities', True, 'x_S')]))
    c.update(group(whole, [(f, rw, 'T', 'odd names') for f in FORMS for rw in (True, False)] + [('residuals', True, 'SS', 'odd names')]))
    c.update(group(whole, [(f, True, 'T', '-', 'S_1') for f in FORMS] + [('residuals', True, 'a_b', 'odd names', 'p_S')]))
    c.update(group(whole, [(f, True, nt, 'clash') for f in FORMS for nt in ('S_S', 'T')] + [('equalities', False, 'S_S', 'clash')]))
    c.update(group(rates, [(f, rw, nt, k) for f in RATES for rw in (True, False) for nt, k in (('T', 1), ('S_S', 1), ('T', 2))]))
    c.update(group(assembled, [(f, rw) for f in FORMS for rw in (True, False)]))
    c.update(group(default_call, ['equalities'] if tier == 'quick' else list(FORMS)))
    import itertools
    c.update(group(subset, [(k, rw) for r in (0, 1, 2) for k in itertools.combinations(KINDS[:3], r) for rw in (True, False)]))
    c.update(group(independent, [True, False]))
    c.update(group(again, [(f, rw) for f in ('residuals', 'equalities') for rw in (True, False)]))
    c.update(group(existing, ['residuals', 'equalities']))
    c.update(group(chain, [(f, True) for f in FORMS]))
    c.update(group(kept_names, [(m, rw, two) for m in ('T', 'TT', 'Tank') for rw in (True, False) for two in (False, True)]))
    c.update(group(two_sources, ['two']))
    c.update(group(units_kept, [True, False]))
    return c
