"""Models, problems and formulas shared by the system-level harnesses.

A formula is a nested tuple: ('q', name) quantity of the model, ('d', x, t) derivative,
('n', number or input name) literal, (op, a, b) with op in + - * / **, ('Max'|'Min', ...),
('Exp'|'Log'|..., a).  T() builds it with the real operators together with its meaning."""
from .terms import *
from collections import OrderedDict


def qterm(q):
    dims, objs = exps(q.units), {q.name: q}
    if q.is_specified:
        v = q.value
        return Term(q(), lambda env: v, dims, objs)
    return Term(q(), lambda env, n=q.name: env[n], dims, objs)


PARTIAL = ('/', '**', 'Log', 'Log10', 'Sqrt', 'Tan')


def is_partial(e):
    """a formula that is not defined for every value"""
    return isinstance(e, tuple) and (e[0] in PARTIAL or any(is_partial(a) for a in e))


def T(ctx, get, e):
    h = e[0]
    if h in PARTIAL:
        ctx.partial = True
    if h == 'q':
        return qterm(get(e[1]))
    if h == 'd':
        x, t = get(e[1]), get(e[2])
        du, dt = exps(x.units), exps(t.units)
        return Term(x.Diff(t), lambda env, n=x.name: env['d/' + n], {k: du[k] - dt[k] for k in SI}, {x.name: x}, diff=True)
    if h == 'n':
        v = ctx.real('num.' + e[1]) if isinstance(e[1], str) else e[1]
        return Term(v, lambda env: v, {}, {}, isnum=True)
    if h in ('Max', 'Min'):
        return minmax(ctx, h, [T(ctx, get, a) for a in e[1:]])
    if h in FUNCS:
        return func(ctx, h, T(ctx, get, e[1]))
    return binop(ctx, h, T(ctx, get, e[1]), T(ctx, get, e[2]))


class Eq:
    """one declared equation and what it means"""

    def __init__(self, name, l, r=None):
        self.name, self.l, self.r = name, l, r

    @property
    def decl(self):
        return self.l.node if self.r is None else (self.l.node == self.r.node)

    def res(self, env):
        return self.l.val(env) if self.r is None else self.l.val(env) - self.r.val(env)

    @property
    def objs(self):
        return {**self.l.objs, **(self.r.objs if self.r else {})}

    @property
    def unknowns(self):
        return [n for n, q in self.objs.items() if not q.is_specified]


class Fam:
    """a model family: names of variables, parameters (specified or not), and equations"""

    def __init__(self, vars, pars, eqs, time=None, free=(), cls=None):
        self.vars, self.pars, self.eqs, self.time, self.free, self.cls = vars.split(), pars.split(), eqs, time, list(free), cls


def q(n): return ('q', n)
def d(x): return ('d', x, 't')
def n(v): return ('n', v)


def lin(*terms):
    """a*x + b*y ..."""
    r = None
    for a, x in terms:
        t = ('*', q(a), q(x))
        r = t if r is None else ('+', r, t)
    return r


def dimless(ctx):
    return ctx.mod('core.template_units').dimless


def build(ctx, fam, name='M', vorder=None, eorder=None, dorder=None, values=True, domain=True, pvals=None, late=False):
    """the real model of a family; m.ref is the list of Eq of its last declaration"""
    Model = ctx.mod('model').Model
    u = dimless(ctx)
    ctx.partial = getattr(ctx, 'partial', False) or any(is_partial(e) for e in fam.eqs)

    def create(m):
        vs = list(fam.vars)
        if vorder:
            vs = [vs[i] for i in vorder]
        for x in vs:
            setattr(m, x, m.createVariable(x, u, 'variable ' + x))
        for p in fam.pars:
            o = m.createParameter(p, u, 'parameter ' + p)
            setattr(m, p, o)
            if p not in fam.free:
                o.setValue(pvals[p] if pvals else ctx.real('%s.%s' % (m.name, p)))
        if fam.time:
            m.t = m.createVariable('t', u, 'time')
            if domain:
                m.dom = ctx.mod('core.domain').Domain('dom', u, m.t, 'time domain')
                ds = list(fam.vars)
                if dorder:
                    ds = [ds[i] for i in dorder]
                for x in ds:
                    getattr(m, x).distributeOnDomain(m.dom)

    class M(Model):
        def __init__(self, name=name):
            super().__init__(name, 'model ' + name)
            self.ref, self.size = [], len(fam.eqs)
            if not late:
                create(self)

        def DeclareVariables(self):
            if late == 'each time' or late and not self.variables:
                create(self)

        def DeclareEquations(self):
            es = list(fam.eqs)
            if eorder:
                es = [es[i] for i in eorder]
            self.ref = []
            for e in es:
                nm, l = e[0], e[1]
                eq = Eq(nm, T(ctx, lambda k: getattr(self, k), l), T(ctx, lambda k: getattr(self, k), e[2]) if len(e) > 2 else None)
                self.createEquation(nm, 'equation ' + nm, eq.decl)
                self.ref.append(eq)
    return M()


def twin(m, name):
    """another model of the same class"""
    return type(m)(name)


def problem(ctx, *models, name='P'):
    p = ctx.mod('problem').Problem(name, 'problem ' + name)
    p.addModels(list(models))
    return p


def env_names(ctx, names, tag='at', pos=True, time='t_M'):
    env, der = {}, {}
    for k in names:
        env[k] = ctx.real('%s.%s' % (tag, k))
        if pos and getattr(ctx, 'partial', True):
            ctx.assume(env[k] > 0)
        env['d/' + k] = ctx.real('%s.d%s' % (tag, k))
        der[(k, time)] = env['d/' + k]
    return env, der


def defined(ctx, x):
    if getattr(ctx, 'partial', True):
        ctx.assume(x > 0)


def pos_pars(ctx, *models):
    """specified values at which every formula is defined (any value, if that is so everywhere)"""
    if not getattr(ctx, 'partial', True):
        return
    for m in models:
        for p in m.parameters.values():
            if p.is_specified:
                ctx.assume(p.value > 0)


def refs(*models):
    for m in models:
        assert len(m.ref) == m.size, 'the equations of %s were never declared' % m.name
    return [e for m in models for e in m.ref]


def order_of(ctx, name, k):
    """a symbolic permutation of range(k) (beyond three: one of three)"""
    import itertools
    return some_orders(ctx, name, k, list(itertools.permutations(range(k))) if k < 4 else None)


def some_orders(ctx, name, k, perms):
    if k > 3 or (perms and len(perms[0]) != k):
        r = list(range(k))
        perms = [tuple(r), tuple(reversed(r)), tuple(r[1::2] + r[::2])]
    return ctx.choice(name, perms)


# ------------------------------------------------------------------ families
LIN = {
    'plain': Fam('x y', 'a b c', [('e1', ('-', lin(('a', 'x'), ('b', 'y')), q('c'))), ('e2', ('-', q('x'), q('y')))]),
    'equalities': Fam('x y', 'a b', [('e1', ('*', q('a'), q('x')), ('+', q('y'), q('b'))), ('e2', q('y'), n('k'))]),
    'mixed': Fam('x y z', 'a b', [('e1', ('-', ('+', q('x'), q('y')), q('a'))), ('e2', q('z'), ('*', q('b'), q('x'))), ('e3', ('-', ('*', n('k'), q('y')), q('z')))]),
    'one': Fam('x', 'a b', [('e1', ('-', ('/', q('x'), q('a')), q('b')))]),
    'free parameter': Fam('x', 'a p', [('e1', ('-', q('x'), q('p'))), ('e2', q('p'), ('*', n('k'), q('a')))], free=['p']),
}
NLIN = {
    'product': Fam('x y', 'a b', [('e1', ('-', ('*', q('x'), q('y')), q('a'))), ('e2', q('x'), ('+', q('y'), q('b')))]),
    'quotient': Fam('x y', 'a', [('e1', ('/', q('x'), q('y')), q('a')), ('e2', ('-', ('*', q('x'), q('x')), n('k')))]),
    'functions': Fam('x y', 'a', [('e1', ('Exp', q('x')), ('*', q('a'), q('y'))), ('e2', ('-', ('Max', q('x'), q('y')), q('a')))]),
    'one': Fam('x', 'a b', [('e1', ('-', ('*', ('*', q('a'), q('x')), q('x')), q('b')))]),
    'free parameter': Fam('x', 'a p', [('e1', ('-', ('*', q('x'), q('p')), q('a'))), ('e2', q('p'), ('+', n('k'), q('x')))], free=['p']),
}
ODE = {
    'coupled': Fam('x y', 'a b', [('e1', d('x'), ('-', ('*', q('a'), q('x')), q('y'))), ('e2', d('y'), ('*', ('*', q('b'), q('x')), q('y')))], time='t'),
    'one': Fam('x', 'a', [('e1', d('x'), ('*', q('a'), q('x')))], time='t'),
    'explicit time': Fam('x y', 'a', [('e1', d('x'), ('+', ('*', q('a'), q('t')), q('y'))), ('e2', d('y'), ('-', q('x'), q('t')))], time='t'),
    'constant rate': Fam('x y', 'a', [('e1', d('x'), q('a')), ('e2', d('y'), ('-', q('y'), q('x')))], time='t'),
    'literal rate': Fam('x y', 'a', [('e1', d('x'), n('k')), ('e2', d('y'), ('*', q('a'), q('x')))], time='t'),
    'functions': Fam('x y', 'a', [('e1', d('x'), ('*', q('a'), ('Max', q('x'), q('y')))), ('e2', d('y'), ('-', ('Exp', q('x')), ('Min', q('y'), n('k'))))], time='t'),
    'three': Fam('x y z', 'a b', [('e1', d('x'), ('-', q('y'), q('z'))), ('e2', d('y'), ('*', q('a'), q('z'))), ('e3', d('z'), ('/', q('x'), q('b')))], time='t'),
}
DAE = {
    'linear constraint': Fam('x z', 'a b', [('e1', d('x'), ('-', q('z'), ('*', q('a'), q('x')))), ('e2', ('-', q('z'), ('*', q('b'), q('x'))))], time='t'),
    'nonlinear constraint': Fam('x z', 'a', [('e1', d('x'), ('*', q('a'), q('z'))), ('e2', ('*', q('z'), q('x')), q('a'))], time='t'),
    'residual form': Fam('x z', 'a', [('e1', ('-', ('+', d('x'), q('x')), q('z'))), ('e2', q('z'), ('+', q('x'), q('a')))], time='t'),
    'coefficients': Fam('x y z', 'a', [('e1', ('-', ('*', q('a'), d('x')), q('z'))), ('e2', ('+', d('y'), ('*', n('k'), d('x'))), q('y')), ('e3', ('-', ('+', q('z'), q('x')), q('y')))], time='t'),
    'explicit time': Fam('x z', 'a', [('e1', d('x'), ('+', q('z'), q('t'))), ('e2', ('-', q('z'), ('*', q('a'), q('t'))))], time='t'),
    'constraint first': Fam('z x w', 'a', [('e1', ('-', ('*', q('z'), q('w')), q('x'))), ('e2', d('x'), ('-', q('a'), q('z'))), ('e3', ('-', q('w'), q('x')))], time='t'),
    'functions': Fam('x z', 'a', [('e1', d('x'), ('-', ('Max', q('z'), q('x')), q('a'))), ('e2', ('-', q('z'), ('Exp', q('x'))))], time='t'),
}


class Fams(dict):
    """the families of a class; further ones are found by name, but not listed"""
    def __init__(self, d, more):
        super().__init__(d)
        self.more = more

    def __missing__(self, k):
        return self.more[k]

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.more


def xs(k): return ['x%d' % i for i in range(1, k + 1)]
def chain(k, first, step): return [('e1', first)] + [('e%d' % i, q('x%d' % i), step(i)) for i in range(2, k + 1)]


# more unknowns than ten (their names sort differently as text), and names that contain each other, differ in the size of a letter or mean something to sympy
TIMES = lambda a, b: ('*', a, b)
# literals that a rounded copy of the equations would lose (exact in binary and in 15 digits, so that sympy's own arithmetic on them is exact)
FINE, SMALL, LARGE = 1 + 2.0 ** -10, 3 * 2.0 ** -12, 12345.25
# every function offered, and extrema of three
WAVE = ('-', TIMES(('Sin', q('x')), q('a')), ('Max', q('x'), q('y'), q('z')))
WAVE2 = ('+', ('Cos', q('y')), ('Min', q('z'), q('x'), q('y')))
WAVE3 = ('-', ('Abs', q('z')), TIMES(q('a'), ('Exp', q('x'))))
LIN = Fams(LIN, {
    'chain': Fam(' '.join(xs(11)), 'a b', chain(11, ('-', q('x1'), q('b')), lambda i: ('+', TIMES(q('a'), q('x%d' % (i - 1))), n('k')))),
    'four': Fam(' '.join(xs(4)), 'a b', chain(4, ('-', q('x1'), q('b')), lambda i: ('+', TIMES(q('a'), q('x%d' % (i - 1))), n('k')))),
    'decimals': Fam('x y', 'a', [('e1', ('-', ('+', q('x'), TIMES(n(FINE), q('y'))), q('a'))), ('e2', q('y'), TIMES(n(SMALL), ('-', q('a'), n(LARGE))))]),
    'letters': Fam('x X y', 'a A', [('e', ('-', q('x'), q('a'))), ('E', q('X'), TIMES(q('A'), q('x'))), ('r', ('-', ('+', q('y'), q('X')), q('x')))]),
    'names': Fam('x x1 xx E', 'x11 S', [('e', ('-', q('x'), q('x11'))), ('ee', q('x1'), TIMES(q('S'), q('x'))), ('e1', ('-', ('+', q('xx'), q('x1')), q('x'))), ('I', q('E'), ('+', q('xx'), n('k')))]),
})
NLIN = Fams(NLIN, {
    'waves': Fam('x y z', 'a', [('e1', WAVE), ('e2', WAVE2, q('a')), ('e3', WAVE3)]),
    'chain': Fam(' '.join(xs(11)), 'a b', chain(11, ('-', TIMES(q('x1'), q('x1')), q('b')), lambda i: ('+', TIMES(q('x1' if i == 5 else 'a'), q('x%d' % (i - 1))), n('k')))),
    'decimals': Fam('x y', 'a', [('e1', ('-', ('+', TIMES(q('x'), q('y')), TIMES(n(FINE), q('y'))), q('a'))), ('e2', q('y'), TIMES(n(SMALL), ('-', q('a'), n(LARGE))))]),
    'letters': Fam('x X y', 'a A', [('e', ('-', TIMES(q('x'), q('x')), q('a'))), ('E', q('X'), TIMES(q('A'), q('x'))), ('r', ('-', TIMES(q('y'), q('X')), q('x')))]),
    'names': Fam('x x1 xx E', 'x11 S', [('e', ('-', TIMES(q('x'), q('x')), q('x11'))), ('ee', q('x1'), TIMES(q('S'), q('x'))), ('e1', ('-', TIMES(q('xx'), q('x1')), q('x'))), ('I', q('E'), ('+', q('xx'), n('k')))]),
})
ODE = Fams(ODE, {
    'waves': Fam('x y z', 'a', [('e1', d('x'), WAVE), ('e2', d('y'), WAVE2), ('e3', d('z'), WAVE3)], time='t'),
    'chain': Fam(' '.join(xs(11)), 'a', [('e%d' % i, d('x%d' % i), ('-', q('x%d' % (i % 11 + 1)), TIMES(q('a'), q('x%d' % i)))) for i in range(1, 12)], time='t'),
    'decimals': Fam('x y', 'a', [('e1', d('x'), ('-', TIMES(n(FINE), q('y')), q('x'))), ('e2', d('y'), TIMES(n(SMALL), ('-', TIMES(q('x'), q('t')), n(LARGE))))], time='t'),
    'letters': Fam('x T X', 'a A', [('e', d('x'), TIMES(q('A'), q('T'))), ('E', d('X'), ('-', q('t'), q('x'))), ('r', d('T'), ('+', TIMES(q('a'), q('X')), n('k')))], time='t'),
    'names': Fam('t1 xt tt E', 'ta S', [('e', d('xt'), TIMES(q('ta'), q('tt'))), ('ee', d('t1'), ('-', q('E'), q('t'))), ('e1', d('E'), TIMES(q('S'), q('t1'))), ('I', d('tt'), ('+', q('xt'), n('k')))], time='t'),
    'stem': Fam('x t_M', 'a', [('e1', d('t_M'), ('-', TIMES(q('a'), q('x')), q('t'))), ('e2', d('x'), q('t_M'))], time='t'),
    'contained': Fam('zx x mt', 'b ab', [('r', d('zx'), TIMES(q('ab'), q('mt'))), ('er', d('x'), ('-', q('b'), q('x'))), ('e', d('mt'), ('+', q('zx'), n('k')))], time='t'),
})
DAE = Fams(DAE, {
    'waves': Fam('x y z', 'a', [('e1', d('x'), WAVE), ('e2', WAVE2, q('a')), ('e3', ('-', d('z'), WAVE3))], time='t'),
    'chain': Fam(' '.join(xs(6)), 'a', [('e%d' % i, d('x%d' % i), ('-', q('x%d' % (i + 1)), TIMES(q('a'), q('x%d' % i)))) if i in (1, 3, 4) else ('e%d' % i, ('-', q('x%d' % i), TIMES(q('a'), q('x%d' % (i - 1))))) for i in range(1, 7)], time='t'),
    'decimals': Fam('x z', 'a', [('e1', d('x'), ('-', TIMES(n(FINE), q('z')), q('x'))), ('e2', q('z'), TIMES(n(SMALL), ('-', TIMES(q('x'), q('t')), n(LARGE))))], time='t'),
    'letters': Fam('x T X', 'a A', [('e', d('x'), TIMES(q('A'), q('T'))), ('E', ('-', q('X'), ('-', q('t'), q('x')))), ('r', d('T'), ('+', TIMES(q('a'), q('X')), n('k')))], time='t'),
    'names': Fam('t1 xt tt E', 'ta S', [('e', d('xt'), TIMES(q('ta'), q('tt'))), ('ee', ('-', q('t1'), ('-', q('E'), q('t')))), ('e1', d('E'), TIMES(q('S'), q('t1'))), ('I', q('tt'), ('+', q('xt'), n('k')))], time='t'),
    'contained': Fam('zx x mt mmt', 'b ab', [('r', d('zx'), TIMES(q('ab'), q('mt'))), ('er', ('-', q('x'), ('+', q('mmt'), q('b')))), ('e', TIMES(q('zx'), q('b')), d('mt')), ('ee', q('mmt'), ('+', q('mt'), q('t')))], time='t'),
    'mass': Fam('x y t_M z', 'a b', [('e1', ('-', ('+', ('+', d('x'), d('y')), d('t_M')), TIMES(q('a'), q('x')))), ('e2', ('-', d('x'), d('t_M')), q('z')), ('e3', ('-', TIMES(n('k'), d('t_M')), q('y'))), ('e4', q('z'), ('-', TIMES(q('b'), q('x')), q('t_M')))], time='t'),
    'right side': Fam('z x', 'a', [('e1', ('-', q('z'), TIMES(q('a'), q('x'))), d('x')), ('e2', ('+', q('z'), n('k')), ('+', q('x'), q('a')))], time='t'),
})
TYPES = {'linear': LIN, 'nonlinear': NLIN, 'differential': ODE, 'differential-algebraic': DAE}
MORE = [(k, n) for k, fs in TYPES.items() for n in fs.more]
