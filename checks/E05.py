"""E05 linear / nonlinear / differential classification"""
from .terms import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant']
BOUNDS = 'every operand kind in both positions, every nesting of two (thorough: also three) operations, functions and extrema; all values of the specified quantities and of the unknowns symbolic; linearity is decided as midpoint affinity over all pairs of points, solver-refutable'


def cls(n):
    d = n.equation_type
    return [k for k in ('is_linear', 'is_nonlinear', 'is_differential') if d.get(k) == True]


def sound(ctx, label, t):
    """exactly one class; differential iff a derivative occurs; linear only if affine in the unknowns"""
    c = cls(t.node)
    ctx.check(label + ': exactly one class', len(c) == 1, c)
    ctx.check(label + ': differential exactly when it contains a derivative', (c == ['is_differential']) == t.diff, c)
    if c == ['is_linear']:
        us = sorted(t.unknowns)
        u = {n: ctx.real('u.' + n) for n in us}
        v = {n: ctx.real('v.' + n) for n in us}
        for x in list(u.values()) + list(v.values()):
            ctx.assume(x > 0)
        mid = {n: (u[n] + v[n]) / 2 for n in us}
        f = lambda env: ctx.value(t.node.symbolic_object, env)
        ctx.check_same(label + ': linear expressions are affine in their unknowns', lambda: f(mid) * 2, lambda: f(u) + f(v))


def literal(ctx, label, t, affine):
    """a plainly affine expression must not be called nonlinear"""
    if affine and not t.diff:
        ctx.check(label + ': affine expressions are classified linear', cls(t.node) == ['is_linear'])


def one(ctx, v):
    op, ka, kb = v
    w = World(ctx, ())
    a, b = w.leaf(ka, 'a'), w.leaf(kb, 'b')
    for t in (a, b):
        if t.known:
            ctx.assume(t.val({}) > 0)
        if not t.isnum:
            sound(ctx, 'operand', t)
    r = binop(ctx, op, a, b)
    sound(ctx, op, r)
    literal(ctx, op, r, op in '+-' or (op == '*' and (a.known or b.known)) or (op == '/' and b.known and not a.isnum))


def nested(ctx, v):
    op1, op2, ks = v
    w = World(ctx, ())
    ts = [w.leaf(k, n) for k, n in zip(ks, 'abc')]
    for t in ts:
        if t.known:
            ctx.assume(t.val({}) > 0)
    r = binop(ctx, op1, ts[0], ts[1])
    if r.known:
        ctx.assume(r.val({}) > 0)
    side = ctx.flag('side')
    x, y = (r, ts[2]) if side else (ts[2], r)
    if x.isnum and op2 == '**':
        return
    r2 = binop(ctx, op2, x, y)
    sound(ctx, 'nested ' + op2, r2)
    sound(ctx, 'inner', r)
    lin1 = op1 in '+-' or (op1 == '*' and (ts[0].known or ts[1].known)) or (op1 == '/' and ts[1].known and not ts[0].isnum)
    literal(ctx, 'nested', r2, lin1 and (op2 in '+-' or (op2 == '*' and (x.known or y.known)) or (op2 == '/' and y.known and not x.isnum)))


TREES = [('var', 'var', '0', '1'), ('var', 'par', 'var', '0'), ('par', 'var', '1', 'num'), ('var', 'diff', 'par', 'con'), ('con', 'par', 'var', '2')]


def three(ctx, v):
    o1, o3 = v
    o2 = ctx.choice('o2', BINOPS)
    w = World(ctx, ())
    ks = ctx.choice('ks', TREES)
    ts = []
    for k in ks:
        ts.append(ts[int(k)] if k.isdigit() else w.leaf(k, 'abcd'[len(ts)]))
    for t in ts:
        if t.known:
            ctx.assume(t.val({}) > 0)
    r1 = binop(ctx, o1, ts[0], ts[1])
    r2 = binop(ctx, o2, ts[2], ts[3])
    if r1.known:
        ctx.assume(r1.val({}) > 0)
    if r2.known:
        ctx.assume(r2.val({}) > 0)
    if (o2 == '-' or o2 == '**') and ts[2] is ts[3] and o3 in ('/', '**'):
        return
    r = binop(ctx, o3, r1, r2)
    sound(ctx, 'three operations', r)


def power(ctx, v):
    """an expression of several quantities raised to a plain number, possibly used further"""
    op, ks, n = v
    w = World(ctx, ())
    ts = [w.leaf(k, x) for k, x in zip(ks, 'ab')]
    for t in ts:
        if t.known:
            ctx.assume(t.val({}) > 0)
    r = binop(ctx, op, ts[0], ts[1])
    if r.known:
        ctx.assume(r.val({}) > 0)
    r2 = binop(ctx, '**', r, Term(n, lambda env: n, {}, {}, isnum=True))
    sound(ctx, 'power', r2)
    sound(ctx, 'base', r)
    c = w.leaf('var', 'c')
    sound(ctx, 'sum with a power', binop(ctx, '+', c, r2))
    sound(ctx, 'power less a quantity', binop(ctx, '-', r2, c))


def elem(ctx, v):
    F, k = v
    w = World(ctx, ())
    a = w.leaf(k, 'a')
    if a.known:
        ctx.assume(a.val({}) > 0)
    r = func(ctx, F, a)
    sound(ctx, 'function', r)
    if r.known:
        ctx.assume(ctx.value(r.node.symbolic_object, {}) != 0)
    b = w.leaf('var', 'b')
    for op in ('+', '*', '/'):
        for x, y in ((b, r), (r, b)):
            s = binop(ctx, op, x, y)
            sound(ctx, 'function ' + op, s)


def elem_of(ctx, v):
    """a function of a compound of two operands"""
    F, op, ks = v
    w = World(ctx, ())
    ts = [w.leaf(k, 'ab'[i]) for i, k in enumerate(ks)]
    for t in ts:
        if t.known:
            ctx.assume(t.val({}) > 0)
    a = binop(ctx, op, *ts)
    if a.known:
        ctx.assume(a.val({}) > 0)
    r = func(ctx, F, a)
    sound(ctx, 'function of a compound', r)
    c = w.leaf('par', 'c')
    ctx.assume(c.val({}) > 0)
    for x, y in ((c, r), (r, c)):
        s = binop(ctx, '*', x, y)
        sound(ctx, 'multiple of a function', s)


def mm(ctx, v):
    F, ks = v
    w = World(ctx, ())
    args = [w.leaf(k, 'abcd'[i]) for i, k in enumerate(ks)]
    r = minmax(ctx, F, args)
    sound(ctx, 'extremum', r)
    x = w.leaf('var', 'x')
    for op in ('+', '*'):
        sound(ctx, 'extremum ' + op, binop(ctx, op, x, r))


def cases(tier):
    c = {}
    for op in BINOPS:
        c.update(group(one, [(op, a, b) for a, b in pairs() if not (op == '**' and a in ('num', 'inum'))]))
    c.update(group(elem, [(F, k) for F in FUNCS for k in KINDS if k not in ('num', 'inum')]))
    c.update(group(power, [(o, k, n) for o in '+-*/' for k in (('var', 'var'), ('var', 'par'), ('diff', 'var')) for n in (2, 3, -1, 2.0, 0.5)]))
    inner = [('var', 'par'), ('diff', 'par'), ('var', 'diff'), ('par', 'con'), ('var', 'var')]
    c.update(group(elem_of, [(F, o, k) for F in (FUNCS if tier == 'thorough' else ['Sin', 'Exp', 'Sqrt', 'Abs']) for o in '+*' for k in inner if F in FUNCS]))
    ks = [('var', 'par', 'var'), ('con', 'num', 'diff'), ('var', 'var', 'par')] if tier == 'quick' else [('var', 'var', 'par'), ('var', 'var', 'con'), ('diff', 'var', 'num'), ('var', 'par', 'var'), ('diff', 'par', 'con'), ('upar', 'num', 'var'), ('con', 'num', 'diff'), ('par', 'ipar', 'var'), ('var', 'var', 'num'), ('var', 'par', 'diff')]
    c.update(group(nested, [(o1, o2, k) for o1 in BINOPS for o2 in BINOPS for k in ks]))
    mixes = [('var', 'var'), ('var', 'par'), ('var', 'num'), ('num', 'var'), ('con', 'upar'), ('var', 'par', 'var'), ('diff', 'var'), ('par', 'con', 'num')]
    c.update(group(mm, [(F, m) for F in ('Min', 'Max') for m in mixes]))
    c.update(group(three, [(a, b) for a in BINOPS for b in BINOPS]))
    return c
