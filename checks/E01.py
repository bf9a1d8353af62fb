"""E01 dimensions of arithmetic expressions"""
from .terms import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant']
BOUNDS = 'all real dimension exponents and values; one operation over every pair of operand kinds (variable, specified/unspecified parameter, constant, derivative, real and integer literal, both operand orders) and every nesting of two operations; base dimensions: one symbolic in nested cases, all seven in single ones'


def rej(ctx, label):
    return lambda e: ctx.check(label, e is not None)


def one(ctx, v):
    op, ka, kb = v
    w = World(ctx, SI if op in '+-' else ('m', 'kg', 'K'))
    a, b = w.leaf(ka, 'a'), w.leaf(kb, 'b')
    if op == '/' and b.known:
        ctx.assume(b.val({}) != 0)
    if a.known and op == '**':
        ctx.assume(a.val({}) > 0)
    if op == '**' and a.isnum:
        return
    if a.isnum and op == '/' and b.known:
        pass
    da, db = dict(a.dims), dict(b.dims)
    r = binop(ctx, op, a, b, rej(ctx, 'incoherent %s is rejected' % op))
    if r is not None:
        dims_are(ctx, 'dimension of %s' % op, r.node.unit_object, r.dims)
    for t, d in ((a, da), (b, db)):
        if not t.isnum:
            dims_are(ctx, 'operand expression keeps its dimension', t.node.unit_object, d)
            for q in t.objs.values():
                if not t.diff:
                    dims_are(ctx, 'operand quantity keeps its dimension', q.units, d)


def nested(ctx, v):
    op1, op2, ks = v
    w = World(ctx, ('m',))
    ts = [w.leaf(k, n) for k, n in zip(ks, 'abc')]
    for t in ts:
        if t.known:
            ctx.assume(t.val({}) > 0)
    r = binop(ctx, op1, ts[0], ts[1], rej(ctx, 'incoherent inner %s is rejected' % op1))
    if r is None:
        return
    side = ctx.flag('side')
    x, y = (r, ts[2]) if side else (ts[2], r)
    if x.isnum and op2 == '**':
        return
    r2 = binop(ctx, op2, x, y, rej(ctx, 'incoherent outer %s is rejected' % op2))
    if r2 is None:
        return
    dims_are(ctx, 'dimension of nested %s' % op2, r2.node.unit_object, r2.dims)
    dims_are(ctx, 'inner expression keeps its dimension', r.node.unit_object, r.dims)


def sevens(ctx, v):
    """all seven base dimensions through a product/quotient/power"""
    w = World(ctx, SI)
    a, b = w.leaf('var', 'a'), w.leaf('par', 'b')
    ctx.assume(b.val({}) > 0)
    r = binop(ctx, v, a, b if v != '**' else w.num('p'))
    dims_are(ctx, 'seven-dimension %s' % v, r.node.unit_object, r.dims)


def shared(ctx, v):
    """operands that share their unit, their quantity or the expression itself"""
    op, how, kind = v
    m = ctx.ns('core.variable', 'core.parameter', 'core.constant')
    u = unit(ctx, 'u', ('m', 'kg'))
    d = exps(u)

    def make(n):
        o = getattr(m, kind)(n, u, 'd')
        if kind != 'Variable':
            o.setValue(ctx.real('v' + n))
            ctx.assume(ctx.real('v' + n) != 0)
        return o
    a = make('a')
    b = make('b') if how == 'unit' else a
    x = a()
    y = x if how == 'expression' else b()
    r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()
    dims_are(ctx, 'dimension of %s of operands alike' % op, r.unit_object, {k: {'+': d[k], '-': d[k], '*': 2 * d[k], '/': 0 * d[k]}[op] for k in d})
    for n in (x, y):
        dims_are(ctx, 'operand expression keeps its dimension', n.unit_object, d)
    for o in (a, b):
        dims_are(ctx, 'operand quantity keeps its dimension', o.units, d)
    dims_are(ctx, 'the unit keeps its dimension', u, d)


def cases(tier):
    c = {}
    for op in BINOPS:
        c.update(group(one, [(op, a, b) for a, b in pairs() if not (op == '**' and a in ('num', 'inum'))]))
    c.update(group(sevens, ['*', '/', '**']))
    c.update(group(shared, [(o, h, k) for o in '+-*/' for h in ('unit', 'quantity', 'expression') for k in ('Variable', 'Parameter')]))
    ks = [('var', 'par', 'var')] if tier == 'quick' else [('var', 'par', 'var'), ('diff', 'par', 'con'), ('upar', 'num', 'var'), ('par', 'ipar', 'var'), ('var', 'var', 'num')]
    c.update(group(nested, [(o1, o2, k) for o1 in BINOPS for o2 in BINOPS for k in ks]))
    return c
