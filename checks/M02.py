"""M02: an equation may only mention the model's own quantities (unless the check is waived)."""
from .system import *
PRELOAD = ['model']
BOUNDS = 'two models plus free-standing quantities; expressions of up to six operands over own/foreign/free-standing variables, parameters and constants (specified or not), residual or equality form; arbitrary values'
WHO = ['own variable', 'own parameter', 'own free parameter', 'own constant', 'own specified variable',
       'foreign variable', 'foreign parameter', 'foreign constant', 'lone variable', 'lone parameter', 'number']


def setting(ctx):
    Model = ctx.mod('model').Model
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant')
    u = dimless(ctx)
    A, B = Model('A', 'own'), Model('B', 'other')
    objs = {}
    for tag, M in (('own', A), ('foreign', B)):
        objs[tag + ' variable'] = M.createVariable('x', u, 'd')
        sv = objs[tag + ' specified variable'] = M.createVariable('z', u, 'd')
        sv.setValue(ctx.real(tag + '.z'))
        p = objs[tag + ' parameter'] = M.createParameter('p', u, 'd')
        p.setValue(ctx.real(tag + '.p'))
        objs[tag + ' free parameter'] = M.createParameter('q', u, 'd')
        c = objs[tag + ' constant'] = M.createConstant('c', u, 'd')
        c.setValue(ctx.real(tag + '.c'))
    objs['lone variable'] = m.Variable('x', u, 'd')
    objs['lone parameter'] = m.Parameter('p', u, 'd')
    objs['lone parameter'].setValue(ctx.real('lone.p'))
    return A, B, objs


def term(ctx, objs, who, tag):
    if who == 'number':
        v = ctx.real('num' + tag)
        return Term(v, lambda env: v, {}, {}, isnum=True)
    return qterm(objs[who])


def try_eq(ctx, A, B, t, decl, ok, check, res):
    before = [dict(getattr(M, k)) for M in (A, B) for k in ('variables', 'parameters', 'constants', 'equations')]
    kw = {} if check is None else {'check_equation': check}
    e = ctx.raised(lambda: A.createEquation('e', 'about e', decl, **kw))
    if ok or check is False:
        ctx.check('equation over declared quantities is accepted', e is None, str(e))
        ctx.check('registered under its full name', list(A.equations) == ['e_A'])
        eq = A.equations['e_A']
        ctx.check('description', eq.description == 'about e')
        ctx.check('objects of the equation', set(eq.objects_declared) == set(t.objs) and all(eq.objects_declared[k] is t.objs[k] for k in t.objs))
        env, _ = env_names(ctx, [k for k, o in t.objs.items() if not o.is_specified])
        ctx.check_same('residual', lambda: ctx.value(eq.eval(dict(env)), {}), lambda: res(env))
        A.equations.pop('e_A')
    else:
        ctx.check('equation over foreign quantities is rejected', e is not None and type(e).__name__ == 'UnexpectedObjectDeclarationError', type(e).__name__)
    after = [dict(getattr(M, k)) for M in (A, B) for k in ('variables', 'parameters', 'constants', 'equations')]
    ctx.check('registries are otherwise unchanged', all(list(x) == list(y) and all(x[k] is y[k] for k in x) for x, y in zip(before, after)))


def fine(*who):
    return all(w.startswith('own') or w == 'number' for w in who)


def two(ctx, v):
    """a residual over two operands"""
    a, op, b = v
    A, B, objs = setting(ctx)
    if op == '/':
        ctx.assume(ctx.real('own.p') > 0)
        ctx.assume(ctx.real('lone.p') > 0)
    t = binop(ctx, op, term(ctx, objs, a, '1'), term(ctx, objs, b, '2'))
    check = ctx.choice('check', [None, True, False])
    try_eq(ctx, A, B, t, t.node, fine(a, b), check, t.val)


def equality(ctx, v):
    a, b = v
    A, B, objs = setting(ctx)
    l, r = term(ctx, objs, a, '1'), term(ctx, objs, b, '2')
    l = binop(ctx, '*', l, Term(2, lambda env: 2, {}, {}, isnum=True))
    t = Term(None, None, {}, {**l.objs, **r.objs})
    check = ctx.choice('check', [None, True, False])
    try_eq(ctx, A, B, t, l.node == r.node, fine(a, b), check, lambda env: l.val(env) - r.val(env))


def three(ctx, v):
    """one intruder anywhere in a longer expression"""
    A, B, objs = setting(ctx)
    own = [term(ctx, objs, w, str(i)) for i, w in enumerate(['own variable', 'own parameter'])]
    x = term(ctx, objs, v, '9')
    pos = ctx.choice('position', [0, 1, 2])
    ts = own[:pos] + [x] + own[pos:]
    op = ctx.choice('op', ['+', '*'])
    t = binop(ctx, '-', binop(ctx, op, ts[0], ts[1]), ts[2])
    try_eq(ctx, A, B, t, t.node, fine(v), None, t.val)


def many(ctx, v):
    """one intruder anywhere among six quantities"""
    who, form = v
    A, B, objs = setting(ctx)
    own = [term(ctx, objs, w, str(i)) for i, w in enumerate(['own variable', 'own specified variable', 'own parameter', 'own free parameter', 'own constant'])]
    pos = ctx.choice('position', list(range(6)))
    ts = own[:pos] + [term(ctx, objs, who, '9')] + own[pos:]
    l = binop(ctx, '-', binop(ctx, '+', ts[0], ts[1]), ts[2])
    r = binop(ctx, '+', binop(ctx, '-', ts[3], ts[4]), ts[5])
    if form == 'equality':
        t = Term(None, None, {}, {**l.objs, **r.objs})
        try_eq(ctx, A, B, t, l.node == r.node, fine(who), None, lambda env: l.val(env) - r.val(env))
    else:
        t = binop(ctx, '*', l, r)
        try_eq(ctx, A, B, t, t.node, fine(who), None, t.val)


def nested(ctx, v):
    """inside a function, a power or a Max"""
    A, B, objs = setting(ctx)
    y, x = term(ctx, objs, 'own variable', '1'), term(ctx, objs, v, '9')
    k = ctx.choice('where', ['Exp', 'Sqrt', 'Max', 'Min', '**'])
    for n in ('own.p', 'own.c', 'own.z', 'foreign.p', 'foreign.c', 'lone.p'):
        ctx.assume(ctx.real(n) > 0)
    if k in ('Max', 'Min'):
        t = minmax(ctx, k, [y, x])
    elif k == '**':
        t = binop(ctx, '*', y, Term(x.node ** 2, lambda env: x.val(env) * x.val(env), {}, x.objs))
    else:
        t = binop(ctx, '+', y, func(ctx, k, x))
    try_eq(ctx, A, B, t, t.node, fine(v), None, t.val)


def homonym(ctx, v):
    """the same short name in two models is two quantities"""
    A, B, objs = setting(ctx)
    x, y = qterm(objs['own ' + v]), qterm(objs['foreign ' + v])
    t = binop(ctx, '-', x, y)
    try_eq(ctx, A, B, t, t.node, False, ctx.choice('check', [True, False]), t.val)


def called_alike(ctx, v):
    """a quantity the model does not hold is not its own, though its name ends like the names of the model's own"""
    origin, kind, form = v
    A, B, objs = setting(ctx)
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant')
    u = dimless(ctx)
    cls = {'variable': 'Variable', 'parameter': 'Parameter', 'constant': 'Constant'}[kind]
    if origin == 'lone':
        x = getattr(m, cls)('w_A', u, 'd')
    elif origin == 'removed':
        x = getattr(A, 'create' + cls)('w', u, 'd')
        getattr(A, kind + 's').pop('w_A')
        if hasattr(A, 'w'):
            del A.w
    elif origin == 'smaller letter':
        x = getattr(ctx.mod('model').Model('a', 'another'), 'create' + cls)({'variable': 'y', 'parameter': 'p', 'constant': 'c'}[kind], u, 'd')
        if kind == 'variable':
            objs['own other'] = A.createVariable('y', u, 'd')
    elif origin == 'larger letter':
        x = getattr(A, 'create' + cls)('Q', u, 'd')
        getattr(A, kind + 's').pop('Q_A')
    else:
        F = ctx.mod('model').Model('A' if origin == 'model of that name' else 'x_A', 'another')
        x = getattr(F, 'create' + cls)('w', u, 'd')
    if kind == 'constant' or ctx.flag('specified'):
        x.setValue(ctx.real('w.val'))
    y, x = qterm(objs['own variable']), qterm(x)
    first = ctx.flag('first')
    l, r = (x, y) if first else (y, x)
    if form == 'equality':
        t = Term(None, None, {}, {**l.objs, **r.objs})
        try_eq(ctx, A, B, t, l.node == r.node, False, ctx.choice('check', [None, True, False]), lambda env: l.val(env) - r.val(env))
    else:
        t = binop(ctx, '-', l, r)
        try_eq(ctx, A, B, t, t.node, False, ctx.choice('check', [None, True, False]), t.val)


def replace(ctx, v):
    """declaring again under the same name replaces; a rejected redeclaration leaves the old one"""
    A, B, objs = setting(ctx)
    x, p, f = qterm(objs['own variable']), qterm(objs['own parameter']), qterm(objs['foreign variable'])
    first = binop(ctx, '-', x, p)
    e1 = A.createEquation('e', 'first', first.node)
    ctx.check('the declaration is returned', e1 is A.equations['e_A'])
    env, _ = env_names(ctx, ['x_A', 'x_B'])
    if v == 'accepted':
        second = binop(ctx, '*', x, p)
        e2 = A.createEquation('e', 'second', second.node)
        ctx.check('replaced', list(A.equations) == ['e_A'] and A.equations['e_A'] is e2 and e2 is not e1)
        ctx.check_same('new meaning', lambda: ctx.value(A.equations['e_A'].eval(dict(env)), {}), lambda: second.val(env))
    else:
        ctx.expect_raises('rejected', lambda: A.createEquation('e', 'second', binop(ctx, '*', x, f).node), 'UnexpectedObjectDeclarationError')
        ctx.check('kept', list(A.equations) == ['e_A'] and A.equations['e_A'] is e1)
        ctx.check_same('old meaning', lambda: ctx.value(A.equations['e_A'].eval(dict(env)), {}), lambda: first.val(env))


def unnamed(ctx, v):
    """equations without a name are all kept, however many"""
    A, B, objs = setting(ctx)
    x, p = qterm(objs['own variable']), qterm(objs['own parameter'])
    t = binop(ctx, '-', x, p)
    es = [A.createEquation('', 'number %d' % i, t.node) for i in range(v)]
    ctx.check('all kept, in order', len(A.equations) == v and all(a is b for a, b in zip(A.equations.values(), es)), len(A.equations))
    ctx.check('names apart', len({e.name for e in es}) == v)


def cases(tier):
    ps = [(a, op, b) for a in WHO for b in WHO for op in '+*/' if not (a == b == 'number')]
    if tier == 'quick':
        ps = [(a, '+*/'[(i + j) % 2], b) for i, a in enumerate(WHO) for j, b in enumerate(WHO) if a[:3] == 'own' and b in ('own variable', 'number') or a == 'own variable' or (a[:3] != 'own' and b in ('own parameter',))]
    else:
        ps = [(a, op, b) for a, op, b in ps if op != '/' or b in ('own parameter', 'lone parameter')]
    c = group(two, ps)
    es = [(a, b) for a in WHO if a != 'number' for b in WHO]
    if tier == 'quick':
        es = [(a, b) for a, b in es if a == 'own variable' or b == 'own variable']
    c.update(group(equality, es))
    c.update(group(three, [w for w in WHO if w != 'number']))
    c.update(group(many, [(w, f) for w in (WHO if tier == 'thorough' else ['number', 'foreign variable', 'foreign parameter', 'foreign constant', 'lone variable', 'lone parameter']) for f in ('residual', 'equality')]))
    c.update(group(nested, [w for w in WHO if w != 'number']))
    c.update(group(homonym, ['variable', 'parameter', 'constant', 'free parameter']))
    c.update(group(called_alike, [(o, k, f) for o in ('lone', 'removed', 'smaller letter', 'larger letter', 'model of that name', 'model named alike') for k in ('variable', 'parameter', 'constant') for f in ('residual', 'equality')]))
    c.update(group(unnamed, [2, 300]))
    c.update(group(replace, ['accepted', 'rejected']))
    return c
