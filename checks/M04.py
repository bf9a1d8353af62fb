"""M04: connections - accepted exactly between exposed sides, and meaning sum(inputs) = sum(outputs)."""
from .system import *
PRELOAD = ['problem', 'model', 'connection']
BOUNDS = 'two to three models, one to three variables on each side, any exposure of each; arbitrary values; default and custom expressions, node form, source given as a model or by name; repeated connections'


def pair(ctx):
    Model, Problem = ctx.mod('model').Model, ctx.mod('problem').Problem
    A, B = Model('A', 'a'), Model('B', 'b')
    p = Problem('P', 'p')
    p.addModels([A, B])
    return p, A, B


EXPO = ['', 'input', 'output']


def mk(ctx, m, n, e):
    u = dimless(ctx)
    return m.createVariable(n, u, 'd', is_exposed=e != '', type=e)


def snapshot(p, *ms):
    return [dict(m.equations) for m in ms] + [dict(p.connections)] + [list(m.exposed_vars[e]) for m in ms for e in ('input', 'output')]


def same_snapshot(a, b):
    return all(list(x) == list(y) and (not isinstance(x, dict) or all(x[k] is y[k] for k in x)) for x, y in zip(a, b))


def total(env, vs):
    r = 0
    for x in vs:
        r = r + env[x.name]
    return r


def direct(ctx, v):
    """one to three variables on each side, exposure arbitrary"""
    no, ni, as_list = v
    p, A, B = pair(ctx)
    eo = [ctx.choice('out%d' % i, EXPO if i == 0 else ['output', 'input']) for i in range(no)]
    ei = [ctx.choice('in%d' % i, EXPO if i == 0 else ['input', 'output']) for i in range(ni)]
    os_ = [mk(ctx, A, 'q_o%d' % i, e) for i, e in enumerate(eo)]
    is_ = [mk(ctx, B, 'q_i%d' % i, e) for i, e in enumerate(ei)]
    oarg, iarg = (os_ if as_list else os_[0]), (is_ if as_list else is_[0])
    before = snapshot(p, A, B)
    ok = all(e == 'output' for e in eo) and all(e == 'input' for e in ei)
    about = {'description': 'about it'} if ok and ctx.flag('described') else {}
    e = ctx.raised(lambda: p.createConnection(A, B, oarg, iarg, **about))
    if not ok:
        ctx.check('connection of variables not exposed that way is rejected', e is not None and type(e).__name__ == 'ExposedVariableError', type(e).__name__)
        ctx.check('nothing changes on rejection', same_snapshot(before, snapshot(p, A, B)))
        return
    ctx.check('connection between exposed variables is accepted', e is None, str(e))
    ctx.check('recorded once, in the problem and in the receiving model', len(p.connections) == 1 and len(B.equations) == 1 and len(A.equations) == 0)
    conn = list(B.equations.values())[0]
    ctx.check('the same equation in both', list(p.connections.values())[0] is conn)
    if about:
        ctx.check('described as asked', conn.description == 'about it', conn.description)
    ctx.check('under its own name', list(B.equations) == [conn.name], (list(B.equations), conn.name))
    ctx.check('the name tells the variables connected', all(x.name in conn.name and x.name in list(p.connections)[0] for x in os_ + is_), (conn.name, list(p.connections)))
    ctx.check('the variables connected are recorded', all(x.name in conn.output_var_name for x in os_) and all(x.name in conn.input_var_name for x in is_), (conn.output_var_name, conn.input_var_name))
    env, _ = env_names(ctx, [x.name for x in os_ + is_])
    ctx.check_same('inputs minus outputs', lambda: ctx.value(conn.eval(dict(env)), {}), lambda: total(env, is_) - total(env, os_))
    ctx.check('objects of the connection', set(conn.objects_declared) == set(x.name for x in os_ + is_) and all(conn.objects_declared[x.name] is x for x in os_ + is_))
    ctx.check('an algebraic linear equation', conn.type == 'linear', conn.type)


def counted_twice(ctx, v):
    """a variable given twice counts twice"""
    p, A, B = pair(ctx)
    os_ = [mk(ctx, A, 'o%d' % i, 'output') for i in range(2)]
    is_ = [mk(ctx, B, 'i%d' % i, 'input') for i in range(2)]
    outs = [os_[i] for i in map(int, v[0])]
    ins = [is_[i] for i in map(int, v[1])]
    p.createConnection(A, B, outs, ins)
    conn, = B.equations.values()
    env, _ = env_names(ctx, sorted(set(x.name for x in outs + ins)))
    ctx.check_same('inputs minus outputs', lambda: ctx.value(conn.eval(dict(env)), {}), lambda: total(env, ins) - total(env, outs))


def wrong_side(ctx, v):
    """sides may not be swapped, and the variables must belong to the models named"""
    p, A, B = pair(ctx)
    o, i = mk(ctx, A, 'o', 'output'), mk(ctx, B, 'i', 'input')
    C = ctx.mod('model').Model('C', 'c')
    co, ci = mk(ctx, C, 'o', 'output'), mk(ctx, C, 'i', 'input')
    p.addModels(C)
    calls = {'swapped variables': (A, B, i, o), 'swapped models': (B, A, o, i), 'foreign output': (A, B, co, i), 'foreign input': (A, B, o, ci),
             'mixed list': (A, B, [o, co], [i]), 'mixed list of inputs': (A, B, [o], [i, ci]), 'output as input': (A, B, o, o)}
    before = snapshot(p, A, B, C)
    ctx.expect_raises('rejected', lambda: p.createConnection(*calls[v]), 'ExposedVariableError')
    ctx.check('nothing changes on rejection', same_snapshot(before, snapshot(p, A, B, C)))


def same_named(ctx, v):
    """a variable that is merely called like an exposed one is not that variable"""
    side, form, origin = v
    p, A, B = pair(ctx)
    o, i = mk(ctx, A, 'o', 'output'), mk(ctx, B, 'i', 'input')
    own = o if side == 'output' else i
    if origin == 'model':
        F = ctx.mod('model').Model('A' if side == 'output' else 'B', 'another of that name')
        x = mk(ctx, F, own.name[:-2], side)
    else:
        x = ctx.mod('core.variable').Variable(own.name, dimless(ctx), 'd', is_exposed=True, type=side)
    args = [x if side == 'output' else o, x if side == 'input' else i]
    if form == 'list':
        args = [[a] for a in args]
    elif form == 'beside':
        args = [[o, x] if side == 'output' else [o], [i, x] if side == 'input' else [i]]
    ctx.check('called alike', x.name == own.name)
    before = snapshot(p, A, B)
    ctx.expect_raises('rejected', lambda: p.createConnection(A, B, *args), 'ExposedVariableError')
    ctx.check('nothing changes on rejection', same_snapshot(before, snapshot(p, A, B)))


def custom(ctx, v):
    """a custom expression replaces the default"""
    p, A, B = pair(ctx)
    o, i = mk(ctx, A, 'o', 'output'), mk(ctx, B, 'i', 'input')
    k = B.createParameter('k', dimless(ctx), 'd')
    k.setValue(ctx.real('k'))
    to, ti, tk = qterm(o), qterm(i), qterm(k)
    if v == 'residual':
        t = binop(ctx, '-', binop(ctx, '*', ti, tk), to)
        decl, res = t.node, t.val
    else:
        l = binop(ctx, '*', ti, tk)
        decl, res = l.node == to.node, lambda env: l.val(env) - to.val(env)
    p.createConnection(A, B, o, i, expr=decl, description='mine')
    conn = list(B.equations.values())[0]
    env, _ = env_names(ctx, [o.name, i.name])
    ctx.check_same('the custom expression', lambda: ctx.value(conn.eval(dict(env)), {}), lambda: res(env))
    ctx.check('its description', conn.description == 'mine')


def node(ctx, v):
    """node form: any expressions, exposed or not; input minus output, held by the receiving model"""
    p, A, B = pair(ctx)
    o, i = mk(ctx, A, 'o', ''), mk(ctx, B, 'i', '')
    src = {'model': A, 'name': 'A', 'other name': 'feed', 'its own name': 'B', 'itself': B, 'no name': ''}[v]
    k = ctx.real('k')
    to = binop(ctx, '*', qterm(o), Term(k, lambda env: k, {}, {}, isnum=True))
    ti = qterm(i)
    p.createConnection(src, B, to.node, ti.node)
    ctx.check('held by the receiving model only', len(B.equations) == 1 and len(A.equations) == 0)
    eq = list(B.equations.values())[0]
    env, _ = env_names(ctx, [o.name, i.name])
    ctx.check_same('input minus output', lambda: ctx.value(eq.eval(dict(env)), {}), lambda: env[i.name] - env[o.name] * k)


def node_repeat(ctx, v):
    """several node connections between the same models are all kept"""
    p, A, B = pair(ctx)
    how, n = v
    pairs = [(mk(ctx, A, 'o%d' % j, ''), mk(ctx, B, 'i%d' % j, '')) for j in range(n)]
    src = {'model': A, 'name': 'A', 'no name': ''}[how]
    for o, i in pairs:
        p.createConnection(src, B, o(), i())
    ctx.check('all kept', len(B.equations) == n, list(B.equations))
    env, _ = env_names(ctx, [x.name for pr in pairs for x in pr])
    for (o, i), eq in zip(pairs, B.equations.values()):
        ctx.check_same('each its own meaning', lambda: ctx.value(eq.eval(dict(env)), {}), lambda: env[i.name] - env[o.name])


def renewed(ctx, v):
    """the same variables connected once more: the later connection holds, alone"""
    p, A, B = pair(ctx)
    o, i = mk(ctx, A, 'o', 'output'), mk(ctx, B, 'i', 'input')
    k = ctx.real('k')
    to, ti = qterm(o), qterm(i)
    l = binop(ctx, '*', ti, Term(k, lambda env: k, {}, {}, isnum=True))
    e = binop(ctx, '-', l, to)
    ways = [lambda: p.createConnection(A, B, o, i, expr=e.node), lambda: p.createConnection(A, B, o, i)]
    if v == 'default last':
        first, last = ways
    else:
        last, first = ways
    first()
    last()
    ctx.check('recorded once, in the problem and in the receiving model', len(p.connections) == 1 and len(B.equations) == 1 and len(A.equations) == 0)
    conn = list(B.equations.values())[0]
    ctx.check('the same equation in both', list(p.connections.values())[0] is conn)
    env, _ = env_names(ctx, [o.name, i.name])
    ctx.check_same('the later meaning', lambda: ctx.value(conn.eval(dict(env)), {}), lambda: env[i.name] * (1 if v == 'default last' else k) - env[o.name])


def bad_source(ctx, v):
    p, A, B = pair(ctx)
    o, i = mk(ctx, A, 'o', ''), mk(ctx, B, 'i', '')
    before = snapshot(p, A, B)
    ctx.expect_raises('source must be a model or a name', lambda: p.createConnection(v, B, o(), i()), 'AbsentRequiredObjectError')
    ctx.check('nothing changes on rejection', same_snapshot(before, snapshot(p, A, B)))


def several(ctx, v):
    """independent connections among three models"""
    p, A, B = pair(ctx)
    C = ctx.mod('model').Model('C', 'c')
    p.addModels(C)
    ao, bi, bo, ci = mk(ctx, A, 'o', 'output'), mk(ctx, B, 'i', 'input'), mk(ctx, B, 'o', 'output'), mk(ctx, C, 'i', 'input')
    ai = mk(ctx, A, 'i', 'input')
    cs = [(A, B, ao, bi), (B, C, bo, ci), (B, A, bo, ai), (A, C, ao, ci)]
    for i in order_of(ctx, 'order', 3) if v == 'order' else range(4):
        p.createConnection(*cs[i])
    used = 3 if v == 'order' else 4
    ctx.check('all recorded', len(p.connections) == used and sum(len(m.equations) for m in (A, B, C)) == used)
    env, _ = env_names(ctx, [x.name for x in (ao, bi, bo, ci, ai)])
    for (s, t, o, i) in cs[:used]:
        found = [e for e in t.equations.values() if set(e.objects_declared) == {o.name, i.name}]
        ctx.check('held by the receiving model', len(found) == 1)
        ctx.check_same('input minus output', lambda: ctx.value(found[0].eval(dict(env)), {}), lambda: env[i.name] - env[o.name])


def solved_with(ctx, v):
    """connections take part in the assembled problem and survive a reload"""
    p, A, B = pair(ctx)
    o, i = mk(ctx, A, 'o', 'output'), mk(ctx, B, 'i', 'input')
    k = A.createParameter('k', dimless(ctx), 'd')
    k.setValue(ctx.real('k'))
    A.DeclareEquations = lambda: A.createEquation('e', 'd', o() - k())
    p.createConnection(A, B, o, i)
    for _ in range(v):
        p.resolve()
    eb = p.equation_block
    env, _ = env_names(ctx, ['o_A', 'i_B'])
    got = [ctx.value(e, env) for e in eb._equations_list]
    want = [env['o_A'] - ctx.real('k'), env['i_B'] - env['o_A']]
    ctx.check('two equations', len(got) == 2)
    for a, b in zip(got, want):
        ctx.check_same('assembled residuals', lambda: a, lambda: b)
    ctx.check('both unknowns', set(eb._var_list) == {'o_A', 'i_B'})


def specified(ctx, v):
    """a specified variable enters with its value"""
    p, A, B = pair(ctx)
    o, i = mk(ctx, A, 'o', 'output'), mk(ctx, B, 'i', 'input')
    w, free = (o, i) if v == 'output' else (i, o)
    w.setValue(ctx.real('val'))
    p.createConnection(A, B, o, i)
    conn = list(B.equations.values())[0]
    x = ctx.real('x')
    env = {free.name: x}
    ctx.check_same('inputs minus outputs', lambda: ctx.value(conn.eval(dict(env)), {}), lambda: (x - ctx.real('val')) if v == 'output' else (ctx.real('val') - x))
    ctx.check('the unknown that remains', list(conn.equation_expression.variable_map) == [free.name])


def cases(tier):
    mx = 2 if tier == 'quick' else 3
    c = group(direct, [(1, 1, False)] + [(a, b, True) for a in range(1, mx + 1) for b in range(1, mx + 1)])
    c.update(group(counted_twice, [('00', '0'), ('0', '00'), ('010', '1'), ('0', '101')]))
    c.update(group(direct, [(1, 3, True), (3, 1, True)]))
    c.update(group(wrong_side, ['swapped variables', 'swapped models', 'foreign output', 'foreign input', 'mixed list', 'mixed list of inputs', 'output as input']))
    c.update(group(same_named, [(a, b, o) for a in ('output', 'input') for b in ('single', 'list', 'beside') for o in ('model', 'lone')]))
    c.update(group(custom, ['residual', 'equality']))
    c.update(group(node, ['model', 'name', 'other name', 'its own name', 'itself', 'no name']))
    c.update(group(node_repeat, [(h, 3) for h in ['model', 'name', 'no name']] + [('model', 130), ('no name', 130)]))
    c.update(group(renewed, ['default last', 'custom last']))
    c.update(group(bad_source, [None, 3, 2.5]))
    c.update(group(several, ['order', 'all']))
    c.update(group(solved_with, [1, 2, 3]))
    c.update(group(specified, ['output', 'input']))
    return c
