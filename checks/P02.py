"""P02: the problem class follows from the classes of its equations."""
from .system import *
PRELOAD = ['problem', 'model', 'connection', 'simulation']
BOUNDS = 'every combination of one to three models, each holding any mix of linear, nonlinear and differential equations in any order; chosen sequences of four to seven equations over one or two models (with arbitrary parameter values); residual and equality forms'
EQ = {
    'L': [('-', lin(('a', 'x'), ('b', 'y')), q('c'))],
    'L=': [q('x'), ('+', ('*', q('a'), q('y')), q('b'))],
    'N': [('-', ('*', q('x'), q('y')), q('a'))],
    'N=': [('Exp', q('x')), ('*', q('a'), q('y'))],
    'D': [d('x'), ('*', q('a'), q('x'))],
    'D-': [('-', ('+', d('x'), q('y')), q('a'))],
    'DN': [d('y'), ('*', q('x'), q('y'))],
}


def fam(kinds):
    return Fam('x y', 'a b c', [('e%d' % i, *EQ[k]) for i, k in enumerate(kinds)], time='t')


def want(kinds):
    c = set(k[0] for k in kinds)
    if 'D' in c:
        return 'differential' if c == {'D'} else 'differential-algebraic'
    return {frozenset('N'): 'nonlinear', frozenset('LN'): 'nonlinear', frozenset('L'): 'linear', frozenset(): None}[frozenset(c)]


def one_model(ctx, v):
    """any sequence of up to three equation kinds in one model"""
    kinds = [v] + [ctx.choice('kind%d' % i, ['', 'L', 'L=', 'N', 'N=', 'D', 'D-', 'DN']) for i in (1, 2)]
    kinds = [k for k in kinds if k]
    m = build(ctx, fam(kinds))
    p = problem(ctx, m)
    p.resolve()
    ctx.check('class of the problem', p._getProblemType() == want(kinds), (kinds, p._getProblemType()))
    g = p.equation_block._equation_groups
    ctx.check('the classes partition the equations', sorted(e.name for x in g.values() for e in x) == sorted('e%d_M' % i for i in range(len(kinds))))
    for nm, ks in (('linear', 'L'), ('nonlinear', 'N'), ('differential', 'D')):
        ctx.check('equations of each class, in order', [e.name for e in g[nm]] == ['e%d_M' % i for i, k in enumerate(kinds) if k[0] == ks], (nm, [e.name for e in g[nm]]))


def across(ctx, v):
    """spread over up to three models"""
    kinds = [v] + [ctx.choice('kind%d' % i, ['', 'L', 'N', 'D']) for i in (1, 2)]
    ms = [build(ctx, fam([k]), nm) for k, nm in zip(kinds, 'MNO') if k]
    p = problem(ctx, *ms)
    p.resolve()
    ctx.check('class of the problem', p._getProblemType() == want([k for k in kinds if k]), p._getProblemType())


def many(ctx, v):
    """longer systems, in one model or spread over two"""
    kinds = [{'L': 'L=', 'N': 'N', 'D': 'D', 'R': 'DN'}[c] for c in v]
    at = ctx.choice('second model from', [len(kinds), len(kinds) - 1, 1])
    ms = [build(ctx, fam(kinds[:at]), 'M')] + ([build(ctx, fam(kinds[at:]), 'N')] if at < len(kinds) else [])
    p = problem(ctx, *ms)
    p.resolve()
    ctx.check('class of the problem', p._getProblemType() == want(kinds), (kinds, p._getProblemType()))
    g = p.equation_block._equation_groups
    for nm, ks in (('linear', 'L'), ('nonlinear', 'N'), ('differential', 'D')):
        ctx.check('number of equations of each class', len(g[nm]) == sum(k[0] == ks for k in kinds), (nm, len(g[nm])))


def empty(ctx, v):
    m = build(ctx, fam([]))
    p = problem(ctx, m)
    p.resolve()
    ctx.check('no equations, no class', p._getProblemType() is None)
    sim = ctx.mod('simulation').Simulation('S', 'd', problem=p)
    sim.setConfigurations()
    ctx.expect_raises('and nothing to simulate', lambda: sim.runSimulation(), 'UnexpectedValueError')


def changes(ctx, v):
    """specifying a quantity can lower the class at the next resolution"""
    f = Fam('x y', 'a p', [('e1', ('-', ('*', q('x'), q('p')), q('a'))), ('e2', q('y'), q('x'))], free=['p'])
    m = build(ctx, f)
    p = problem(ctx, m)
    p.resolve()
    ctx.check('product of unknowns', p._getProblemType() == 'nonlinear')
    m.p.setValue(ctx.real('p.val'))
    p.resolve()
    ctx.check('linear once one factor is known', p._getProblemType() == 'linear')


def connected(ctx, v):
    """a connection counts as an equation of its class"""
    a, b = build(ctx, fam([v]), 'M'), build(ctx, fam([]), 'N')
    P = ctx.mod('problem').Problem
    p = P('P', 'd')
    p.addModels([a, b])
    p.createConnection(a, b, a.x(), b.x())
    p.resolve()
    ctx.check('class with a linear connection', p._getProblemType() == want([v, 'L']), p._getProblemType())


def cases(tier):
    c = group(one_model, list(EQ))
    c.update(group(across, ['L', 'N', 'D']))
    c.update(group(many, ['DDDL', 'DDDDN', 'LDRDR', 'NRRRRRL', 'LLLLLN', 'NLLLLL', 'DDDDDD', 'LLLLLD', 'NNNNNL', 'RNNNNN', 'LLLLLL', 'NNNNNN', 'LLNNDD']))
    c.update(group(empty, ['empty']))
    c.update(group(changes, ['changes']))
    c.update(group(connected, list(EQ)))
    return c
