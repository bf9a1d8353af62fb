"""E04 which quantities an expression mentions"""
from .terms import *
PRELOAD = ['core.variable', 'core.parameter', 'core.constant']
BOUNDS = 'every operand kind in both positions, every nesting of two operations, functions and extrema; all values symbolic; the time variable of a derivative is not counted as mentioned'


def maps_are(ctx, label, t):
    n = t.node
    ctx.check(label + ': mentions exactly its quantities', set(n.symbolic_map) == set(t.objs), (sorted(n.symbolic_map), sorted(t.objs)))
    ctx.check(label + ': mentions the quantities themselves', all(n.symbolic_map.get(k) is q for k, q in t.objs.items()))
    u = t.unknowns
    ctx.check(label + ': unknowns are exactly the unspecified quantities', set(n.variable_map) == set(u), (sorted(n.variable_map), sorted(u)))
    ctx.check(label + ': unknowns are the quantities themselves', all(n.variable_map.get(k) is q for k, q in u.items()))
    fs = {s.name for s in getattr(n.symbolic_object, 'free_symbols', ()) if type(s).__name__ != 'Tok'} - {'tt'}
    ctx.check(label + ': no unknown outside the list', fs <= set(u), (sorted(fs), sorted(u)))


def one(ctx, v):
    op, ka, kb = v
    w = World(ctx, ())
    a, b = w.leaf(ka, 'a'), w.leaf(kb, 'b')
    if op == '**' and a.known:
        ctx.assume(a.val({}) > 0)
    if op == '/' and b.known:
        ctx.assume(b.val({}) != 0)
    r = binop(ctx, op, a, b)
    maps_are(ctx, op, r)
    for t in (a, b):
        if not t.isnum:
            maps_are(ctx, 'operand', t)


def nested(ctx, v):
    op1, op2, ks = v
    w = World(ctx, ())
    ts = [w.leaf(k, n) for k, n in zip(ks, 'abc')]
    for t in ts:
        if t.known:
            ctx.assume(t.val({}) > 0)
    r = binop(ctx, op1, ts[0], ts[1])
    if r.known:
        ctx.assume(r.val({}) > 0)
    side = ctx.flag('side')
    x, y = (r, ts[2]) if side else (ts[2], r)
    if x.isnum and op2 == '**':
        return
    r2 = binop(ctx, op2, x, y)
    maps_are(ctx, 'nested ' + op2, r2)
    maps_are(ctx, 'inner', r)
    for t in ts:
        if not t.isnum:
            maps_are(ctx, 'operand', t)
    # further use of an operand does not change earlier results
    d = w.leaf('var', 'd')
    if not ts[2].isnum:
        binop(ctx, '+', ts[2], d)
        binop(ctx, '*', r, d)
    maps_are(ctx, 'later use', r2)
    maps_are(ctx, 'later use', r)


def elem(ctx, v):
    F, k = v
    w = World(ctx, ())
    a = w.leaf(k, 'a')
    if a.known:
        ctx.assume(a.val({}) > 0)
    r = func(ctx, F, a)
    maps_are(ctx, 'function', r)
    b = w.leaf('var', 'b')
    maps_are(ctx, 'sum with a function', binop(ctx, '+', b, r))
    maps_are(ctx, 'function', r)


def mm(ctx, v):
    F, ks = v
    w = World(ctx, ())
    args = [w.leaf(k, 'abcd'[i]) for i, k in enumerate(ks)]
    r = minmax(ctx, F, args)
    maps_are(ctx, 'extremum', r)
    x = w.leaf('var', 'x')
    maps_are(ctx, 'product with an extremum', binop(ctx, '*', r, x))
    for t in args:
        if not t.isnum:
            maps_are(ctx, 'argument', t)


def reuse(ctx):
    """a quantity mentioned several times, specified between uses"""
    w = World(ctx, ())
    a, b = w.leaf('upar', 'a'), w.leaf('var', 'b')
    qa = a.objs['a']
    e1 = a.node * b.node
    qa.setValue(ctx.real('va'))
    e2 = qa() * b.node
    ctx.check('expression taken before specification keeps its unknowns', set(e1.variable_map) == {'a', 'b'})
    ctx.check('expression taken after specification does not', set(e2.variable_map) == {'b'})
    ctx.check('both mention both', set(e1.symbolic_map) == set(e2.symbolic_map) == {'a', 'b'})
    e3 = e2 + e2
    ctx.check('sum with itself', set(e3.symbolic_map) == {'a', 'b'} and set(e3.variable_map) == {'b'})


def alike(ctx, v):
    """both operands the same quantity, by two calls or the very same expression"""
    op, k, how = v
    w = World(ctx, ())
    a, y = w.leaf(k, 'a'), w.leaf('var', 'y')
    q = a.objs['a']
    if a.known:
        ctx.assume(a.val({}) > 0)
    left = a.node
    right = left if how == 'same' else q()
    f = {'+': lambda l, r: l + r, '-': lambda l, r: l - r, '*': lambda l, r: l * r, '/': lambda l, r: l / r}[op]
    r = f(left, right)
    u = {'a'} if 'a' in a.unknowns else set()
    ctx.check('alike: mentions the quantity', set(r.symbolic_map) == {'a'} and r.symbolic_map['a'] is q, sorted(r.symbolic_map))
    ctx.check('alike: unknowns', set(r.variable_map) == u, sorted(r.variable_map))
    r2 = y.node * r
    ctx.check('product with them: mentions both', set(r2.symbolic_map) == {'a', 'y'}, sorted(r2.symbolic_map))
    ctx.check('product with them: unknowns', set(r2.variable_map) == u | {'y'}, sorted(r2.variable_map))


def long(ctx, v):
    """many quantities in one expression"""
    op, n = v
    w = World(ctx, ())
    ts = [w.leaf('par' if i % 3 == 2 else 'var', 'q%02d' % i) for i in range(n)]
    f = {'+': lambda l, r: l + r, '-': lambda l, r: l - r, '*': lambda l, r: l * r}[op]
    for t in ts:
        if t.known:
            ctx.assume(t.val({}) > 0)
    left = ts[0].node
    for t in ts[1:]:
        left = f(left, t.node)
    right = ts[-1].node
    for t in reversed(ts[:-1]):
        right = f(t.node, right)
    allq, unk = {}, set()
    for t in ts:
        allq.update(t.objs)
        unk |= set(t.unknowns)
    for lab, r in (('chain to the left', left), ('chain to the right', right)):
        ctx.check(lab + ': mentions all', set(r.symbolic_map) == set(allq) and all(r.symbolic_map[k] is q for k, q in allq.items()), sorted(r.symbolic_map))
        ctx.check(lab + ': all unknowns', set(r.variable_map) == unk, sorted(r.variable_map))


def cases(tier):
    c = {}
    for op in BINOPS:
        c.update(group(one, [(op, a, b) for a, b in pairs() if not (op == '**' and a in ('num', 'inum'))]))
    c.update(group(elem, [(F, k) for F in FUNCS for k in KINDS]))
    ks = [('var', 'par', 'diff'), ('con', 'num', 'var')] if tier == 'quick' else [('var', 'par', 'var'), ('diff', 'par', 'con'), ('upar', 'num', 'var'), ('con', 'num', 'var'), ('par', 'ipar', 'var'), ('var', 'var', 'num'), ('var', 'par', 'diff')]
    c.update(group(nested, [(o1, o2, k) for o1 in BINOPS for o2 in BINOPS for k in ks]))
    mixes = [('var', 'var'), ('var', 'par'), ('var', 'num'), ('num', 'var'), ('con', 'upar'), ('num', 'inum'), ('var', 'par', 'var'), ('diff', 'var'), ('var', 'par', 'upar', 'con')]
    c.update(group(mm, [(F, m) for F in ('Min', 'Max') for m in mixes]))
    c.update(single(reuse))
    c.update(group(alike, [(o, k, h) for o in '+-*/' for k in ('var', 'par', 'upar', 'con') for h in ('same', 'calls')]))
    c.update(group(long, [(o, n) for o in '+-*' for n in ((12,) if tier == 'quick' else (9, 12, 20))]))
    return c
