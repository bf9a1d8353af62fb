"""R03 conversions of an equation: residual form, compiled functions, call"""
from .terms import *
from .R01 import side, env_of, objects, SIDES, E
PRELOAD = ['core.variable', 'core.parameter', 'core.constant', 'core.equation']
BOUNDS = 'both forms, sides from every operand kind by one operation/function; every argument order (two rotations) and with unused extra arguments; all values symbolic'
ASSUMES = ['sympy.lambdify must accept the call (it is really made) and its result computes the expression over its named arguments']


def call(ctx, f, names, env):
    return ctx.value(f(*[env[n] for n in names]), {})


def compiled(ctx, v):
    ka, kb = v
    w = World(ctx, ())
    a, b = side(ctx, w, ka, '1'), side(ctx, w, kb, '2')
    if a.isnum and b.isnum:
        return
    env = env_of(ctx, a, b)
    eq = E(ctx)('e', 'd', a.node == b.node)
    if a.isnum:
        a, b = b, a
    names = list(eq.equation_expression.symbolic_map)
    ctx.check('arguments are the objects of the equation', sorted(names) == sorted(objects(a, b)), names)
    mech = ctx.choice('mech', [None, 'numpy', 'math'])
    if mech == 'math' and (ka, kb).count('max'):
        mech = 'numpy'
    kw = {} if mech is None else dict(compilation_mechanism=mech)
    f = eq._convertToFunction(**kw)
    ctx.check_same('compiled residual', lambda: call(ctx, f, names, env), lambda: a.val(env) - b.val(env))
    l, r = eq._convertToFunction(side='lhs', **kw), eq._convertToFunction(side='rhs', **kw)
    ctx.check_same('compiled left side', lambda: call(ctx, l, names, env), lambda: a.val(env))
    ctx.check_same('compiled right side', lambda: call(ctx, r, names, env), lambda: b.val(env))
    # explicit argument list, other order, with an extra unused name
    order = names[1:] + names[:1] + ['zz']
    env['zz'] = ctx.real('at.zz')
    m = {n: None for n in order}
    g = eq._convertToFunction(m, **kw)
    ctx.check_same('compiled over an explicit argument order', lambda: call(ctx, g, order, env), lambda: a.val(env) - b.val(env))
    g = eq._convertToFunction(m, 'rhs', **kw)
    ctx.check_same('compiled side over an explicit argument order', lambda: call(ctx, g, order, env), lambda: b.val(env))


def compiled_residual(ctx, v):
    w = World(ctx, ())
    a = side(ctx, w, v, '1')
    env = env_of(ctx, a)
    eq = E(ctx)('e', 'd', a.node)
    f = eq._convertToFunction()
    names = list(eq.equation_expression.symbolic_map)
    ctx.check_same('compiled residual', lambda: call(ctx, f, names, env), lambda: a.val(env))
    for s in ('lhs', 'rhs'):
        ctx.expect_raises('a residual equation has no sides to compile', lambda: eq._convertToFunction(side=s), 'AbsentRequiredObjectError')


def to_residual(ctx, v):
    """putting an equation in residual form keeps left minus right"""
    ka, kb = v
    w = World(ctx, ())
    a, b = w.leaf(ka, 'a'), w.leaf(kb, 'b')
    eq = E(ctx)('e', 'd', a.node == b.node)
    env, der = env_for(ctx, [a, b])
    if a.isnum:
        a, b = b, a
    before = eq.equation_expression
    eq._convertToResidualForm()
    d = a.diff or b.diff
    ctx.check('class is kept', (eq.type == 'differential') == d, eq.type)
    if d:
        ctx.check('a differential equation ends in residual form', eq.equation_form == 'residual', eq.equation_form)
    ctx.check_same('value of the residual form', lambda: ctx.value(eq.equation_expression.symbolic_object, env, der), lambda: a.val(env) - b.val(env))
    eq._convertToResidualForm()
    ctx.check_same('conversion is idempotent', lambda: ctx.value(eq.equation_expression.symbolic_object, env, der), lambda: a.val(env) - b.val(env))


def redeclared(ctx, v):
    """functions compiled after the equation is declared anew are those of the new declaration; those compiled before stay"""
    first, second = v
    w = World(ctx, ())
    a, b, c = side(ctx, w, 'x', '1'), side(ctx, w, 'p', '2'), side(ctx, w, 'x*y', '3')
    env = env_of(ctx, a, b, c)
    forms = {'equality': (lambda: a.node == b.node, lambda: a.val(env) - b.val(env), lambda: a.val(env), lambda: b.val(env)),
             'swapped': (lambda: b.node == a.node, lambda: b.val(env) - a.val(env), lambda: b.val(env), lambda: a.val(env)),
             'other': (lambda: c.node == b.node, lambda: c.val(env) - b.val(env), lambda: c.val(env), lambda: b.val(env)),
             'residual': (lambda: a.node + b.node, lambda: a.val(env) + b.val(env), None, None)}
    args = {n: None for n in sorted(objects(a, b, c))}
    explicit = ctx.flag('explicit arguments')
    eq = E(ctx)('e', 'd', forms[first][0]())
    made = []

    def compile_all(form):
        for side_, want in zip((None, 'lhs', 'rhs'), forms[form][1:]):
            if want is None:
                continue
            names = list(args) if explicit else list(eq.equation_expression.symbolic_map)
            made.append((eq._convertToFunction(dict(args) if explicit else None, side_), names, want))
    compile_all(first)
    eq.setResidual(forms[second][0]())
    compile_all(second)
    for f, names, want in made:
        ctx.check_same('what was declared when it was compiled', lambda: call(ctx, f, names, env), want)


def call_forms(ctx, v):
    w = World(ctx, ())
    a, b = w.leaf(v, 'a'), w.leaf('var', 'b')
    eq = E(ctx)('e', 'd', a.node == b.node)
    env, der = env_for(ctx, [a, b])
    val = lambda n: ctx.value(n.symbolic_object, env, der)
    ctx.check_same('call 0 is the left side', lambda: val(eq(0)), lambda: a.val(env))
    ctx.check_same('call 1 is the right side', lambda: val(eq(1)), lambda: b.val(env))
    ctx.check_same('call without index is the right side', lambda: val(eq()), lambda: b.val(env))
    ctx.expect_raises('other indexes are rejected', lambda: eq(2), 'UnexpectedValueError')
    ctx.check_same('symbolic right side', lambda: ctx.value(eq._getSymbolicObject(), env, der), lambda: b.val(env))
    ctx.check_same('symbolic left side', lambda: ctx.value(eq._getSymbolicObject(side='lhs'), env, der), lambda: a.val(env))
    ctx.check_same('symbolic residual', lambda: ctx.value(eq._getSymbolicObject('residual'), env, der), lambda: a.val(env) - b.val(env))
    ctx.check('maps of the sides', set(eq._getSymbolicMap(side='lhs')) == set(a.objs) and set(eq._getSymbolicMap()) == {'b'})
    r = E(ctx)('e', 'd', b.node - a.node)
    ctx.check_same('call of a residual equation', lambda: val(r()), lambda: b.val(env) - a.val(env))


def cases(tier):
    ps = [(a, b) for a in SIDES for b in SIDES if not (a == b == 'num')]
    if tier == 'quick':
        ps = [(a, b) for a, b in ps if a in ('x', 'num', 'p', 'x*y') or b in ('p/x',)]
    c = group(compiled, ps)
    c.update(group(compiled_residual, [s for s in SIDES if s not in ('num', 'p')]))
    c.update(group(to_residual, [(a, b) for a in KINDS for b in KINDS if not (a in ('num', 'inum') and b in ('num', 'inum'))]))
    fs = ['equality', 'swapped', 'other', 'residual']
    c.update(group(redeclared, [(f, g) for f in fs for g in fs if f != g]))
    c.update(group(call_forms, ['var', 'par', 'diff', 'upar']))
    return c
