"""E03 values of expressions"""
from .terms import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant']
BOUNDS = 'all positive real values of the unknowns and specified quantities (all signs where the operation is total), every operand kind in both positions, every nesting of two operations and of functions/extrema with an operation; transcendental functions are uninterpreted functions shared by both sides (their own values are the numeric library\'s)'
ASSUMES = ['exponentials, logarithms and trigonometric functions are uninterpreted; powers with symbolic exponents are uninterpreted with p=0,1,2,-1 axioms']


def value_is(ctx, label, t, terms, pos=True):
    env, der = env_for(ctx, terms)
    if pos:
        positive(ctx, env)
    value_in(ctx, label, t, terms, env, der)


def nonzero(ctx, env, ts):
    for t in ts:
        ctx.assume(t.val(env) != 0)


def value_in(ctx, label, t, terms, env, der):
    ctx.check_same(label, lambda: ctx.value(t.node.symbolic_object, env, der), lambda: t.val(env))
    # representation: specified quantities appear by name
    env2 = dict(env)
    for u in terms:
        for n, q in u.objs.items():
            if q.is_specified:
                env2[n] = q.value
    ctx.check_same('representation: ' + label, lambda: ctx.value(t.node.repr_symbolic, env2, der), lambda: t.val(env))


def known_pos(ctx, ts):
    for t in ts:
        if t.known:
            ctx.assume(t.val({}) > 0)


def one(ctx, v):
    op, ka, kb = v
    w = World(ctx, ())
    a, b = w.leaf(ka, 'a'), w.leaf(kb, 'b')
    if op in ('/', '**'):
        known_pos(ctx, [a, b])
    r = binop(ctx, op, a, b)
    value_is(ctx, 'value of %s' % op, r, [a, b], op in ('/', '**'))


def same_quantity(ctx, v):
    """both operands are the same quantity"""
    op, k = v
    w = World(ctx, ())
    a = w.leaf(k, 'a')
    known_pos(ctx, [a])
    r = binop(ctx, op, a, a)
    value_is(ctx, 'value of %s with itself' % op, r, [a])


def nested(ctx, v):
    op1, op2, ks = v
    w = World(ctx, ())
    ts = [w.leaf(k, n) for k, n in zip(ks, 'abc')]
    known_pos(ctx, ts) if '**' in (op1, op2) else nonzero(ctx, {}, [t for t in ts if t.known])
    r = binop(ctx, op1, ts[0], ts[1])
    if r.known and op2 in ('/', '**'):
        ctx.assume(r.val({}) > 0)
    side = ctx.flag('side')
    x, y = (r, ts[2]) if side else (ts[2], r)
    if x.isnum and op2 == '**':
        return
    env, der = env_for(ctx, ts)
    if '**' in (op1, op2):
        positive(ctx, env)
        if op1 == '-':
            ctx.assume(r.val(env) > 0)
    else:
        if op1 == '/':
            nonzero(ctx, env, [ts[1]])
        if op2 == '/':
            nonzero(ctx, env, [y])
    r2 = binop(ctx, op2, x, y)
    f = lambda label, t: value_in(ctx, label, t, ts, env, der)
    f('value of nested %s' % op2, r2)
    f('inner expression keeps its value', r)


def tree(ctx, v):
    """(a o1 b) o (c o2 d), also with quantities occurring on both sides"""
    o1, o = v
    w = World(ctx, ())
    ks = ctx.choice('ks', TREES)
    o2 = ctx.choice('o2', list('+-*/'))
    ts = []
    for k in ks:
        ts.append(ts[int(k)] if k.isdigit() else w.leaf(k, 'abcd'[len(ts)]))
    env, der = env_for(ctx, ts)
    nonzero(ctx, env, ts if '/' in (o1, o2, o) else [])
    r1, r2 = binop(ctx, o1, ts[0], ts[1]), binop(ctx, o2, ts[2], ts[3])
    if o == '/':
        nonzero(ctx, env, [r2])
    r = binop(ctx, o, r1, r2)
    value_in(ctx, 'value of a tree', r, ts, env, der)


TREES = [('var', 'var', '0', '1'), ('var', 'num', 'par', '0'), ('num', 'var', 'con', 'upar'), ('diff', 'par', '0', 'num')]


def intpow(ctx, v):
    w = World(ctx, ())
    a = w.leaf('var', 'a')
    r = a.node ** v
    t = Term(r, lambda env: ctx.fn.pow(a.val(env), v), {}, a.objs)
    value_is(ctx, 'integer power', t, [a])
    b = w.leaf('par', 'b')
    ctx.assume(b.val({}) > 0)
    t = Term(b.node ** v, lambda env: ctx.fn.pow(b.val(env), v), {}, b.objs)
    value_is(ctx, 'integer power of a specified quantity', t, [b])


def known_exponent(ctx, v):
    """a specified quantity, or a float, whose value happens to be an integer; the base may have any sign"""
    n, k = v
    w = World(ctx, ())
    a = w.leaf('var', 'a')
    b = w.par('b', U(ctx)('z', {}), k, value=n) if k != 'num' else None
    t = Term(a.node ** (b.node if b else n), lambda env: ctx.fn.pow(a.val(env), int(n)), {}, dict(a.objs, **(b.objs if b else {})))
    env, der = env_for(ctx, [a])
    if n < 0:
        nonzero(ctx, env, [a])
    value_in(ctx, 'power with a specified exponent', t, [a] + ([b] if b else []), env, der)


def elem(ctx, v):
    F, k = v
    w = World(ctx, ())
    a = w.leaf(k, 'a')
    known_pos(ctx, [a])
    r = func(ctx, F, a)
    value_is(ctx, 'value of function', r, [a])


def elem_nested(ctx, v):
    F, op = v
    w = World(ctx, ())
    a, b, c = w.leaf('var', 'a'), w.leaf('par', 'b'), w.leaf('var', 'c')
    known_pos(ctx, [b])
    x = binop(ctx, op, a, b)
    env, der = env_for(ctx, [a, b, c])
    positive(ctx, env)
    ctx.assume(x.val(env) > 0)
    r = func(ctx, F, x)
    value_is(ctx, 'value of function of %s' % op, r, [a, b])
    r2 = binop(ctx, op, c, r) if op != '/' else binop(ctx, '*', c, r)
    value_is(ctx, 'value of operation on a function', r2, [a, b, c])


def mm(ctx, v):
    F, ks = v
    w = World(ctx, ())
    args = [w.leaf(k, 'abcd'[i]) for i, k in enumerate(ks)]
    r = minmax(ctx, F, args)
    value_is(ctx, 'value of extremum', r, args, False)
    x = w.leaf('var', 'x')
    r2 = binop(ctx, ctx.choice('op', ['-', '*']), x, r)
    value_is(ctx, 'value of operation on an extremum', r2, args + [x], False)


def cases(tier):
    c = {}
    for op in BINOPS:
        c.update(group(one, [(op, a, b) for a, b in pairs() if not (op == '**' and a in ('num', 'inum'))]))
    c.update(group(same_quantity, [(o, k) for o in BINOPS for k in ('var', 'par', 'upar', 'con')]))
    c.update(group(intpow, [-3, -2, -1, 0, 1, 2, 3, 4]))
    c.update(group(known_exponent, [(n, k) for n in (-3, 2.0, 3, 3.0) for k in ('Parameter', 'Constant', 'num')]))
    c.update(group(elem, [(F, k) for F in FUNCS for k in KINDS]))
    c.update(group(elem_nested, [(F, o) for F in FUNCS for o in '+-*/']))
    ks = [('var', 'par', 'var'), ('var', 'upar', 'num')] if tier == 'quick' else [('var', 'par', 'var'), ('diff', 'par', 'con'), ('upar', 'num', 'var'), ('par', 'ipar', 'var'), ('var', 'var', 'num'), ('var', 'var', 'var')]
    c.update(group(nested, [(o1, o2, k) for o1 in BINOPS for o2 in BINOPS for k in ks]))
    c.update(group(tree, [(o1, o2) for o1 in '+-*/' for o2 in '+-*/']))
    mixes = [('var', 'var'), ('var', 'par'), ('var', 'num'), ('num', 'var'), ('con', 'upar'), ('num', 'inum'), ('var', 'par', 'var'), ('num', 'var', 'par'), ('diff', 'var'), ('var', 'par', 'upar', 'con')]
    if tier == 'thorough':
        mixes += [('num', 'var', 'num', 'var'), ('var',), ('var', 'par', 'var', 'con', 'num')]
    c.update(group(mm, [(F, m) for F in ('Min', 'Max') for m in mixes]))
    return c
