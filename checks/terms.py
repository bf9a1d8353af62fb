"""Reference semantics of equation expressions, next to the real ones.

A Term pairs an expression built by the real code with what it must mean: its value as a
function of the unknowns' values, its dimension, the quantities it mentions, and whether it
contains a derivative."""
from .common import *

FUNCS = {'Log': 'log', 'Log10': 'log10', 'Sqrt': 'sqrt', 'Abs': 'abs', 'Exp': 'exp', 'Sin': 'sin', 'Cos': 'cos', 'Tan': 'tan'}


class Reject(Exception):
    """the reference says this combination must be rejected"""


class Term:
    def __init__(self, node, val, dims, objs, diff=False, isnum=False, known=None):
        self.node, self.val, self.dims, self.objs, self.diff, self.isnum = node, val, dims, objs, diff, isnum

    @property
    def unknowns(self):
        return {n: o for n, o in self.objs.items() if not (o.is_specified)}

    @property
    def known(self):
        return not self.unknowns


class World:
    """creates quantities and remembers the environment"""

    def __init__(self, ctx, dims=('m',)):
        self.ctx = ctx
        self.dims = list(dims)
        self.m = ctx.ns('core.variable', 'core.parameter', 'core.constant', 'core.quantity', 'core.domain')
        self.t = None
        self.vars = []

    def unit(self, name, dimless=False):
        if dimless:
            return U(self.ctx)(name, {})
        return unit(self.ctx, 'u' + name, self.dims)

    def var(self, name, u=None, cls='Variable'):
        q = getattr(self.m, cls)(name, u if u is not None else self.unit(name), 'd')
        self.vars.append(name)
        return Term(q(), lambda env, n=name: env[n], exps(q.units), {name: q})

    def par(self, name, u=None, cls='Parameter', kind='float', value=None):
        q = getattr(self.m, cls)(name, u if u is not None else self.unit(name), 'd')
        v = value if value is not None else self.ctx.real('val.' + name, kind)
        q.setValue(v)
        return Term(q(), lambda env, v=v: v, exps(q.units), {name: q})

    def num(self, name, kind='float'):
        v = self.ctx.real('num.' + name, kind)
        return Term(v, lambda env: v, {}, {}, isnum=True)

    def diff(self, name, u=None):
        if self.t is None:
            self.t = self.m.Variable('tt', self.unit('tt'), 'time')
            self.dom = self.m.Domain('dom', self.t.units, self.t, 'd')
        q = self.m.Variable(name, u if u is not None else self.unit(name), 'd')
        q.distributeOnDomain(self.dom)
        du, dt = exps(q.units), exps(self.t.units)
        return Term(q.Diff(self.t), lambda env, n=name: env['d/' + n], {d: du[d] - dt[d] for d in SI}, {name: q}, diff=True)

    def leaf(self, kind, name, u=None):
        if kind == 'var':
            return self.var(name, u)
        if kind == 'par':
            return self.par(name, u)
        if kind == 'ipar':
            return self.par(name, u, kind='int')
        if kind == 'con':
            return self.par(name, u, 'Constant')
        if kind == 'upar':
            return self.var(name, u, 'Parameter')
        if kind == 'diff':
            return self.diff(name, u)
        if kind == 'num':
            return self.num(name)
        if kind == 'inum':
            return self.num(name, 'int')
        raise KeyError(kind)


def env_for(ctx, terms, tag='x'):
    """fresh unknown values for every quantity the terms mention (time included)"""
    env, der = {}, {}
    for t in terms:
        for n in t.objs:
            if n not in env:
                env[n] = ctx.real('%s.%s' % (tag, n))
                env['d/' + n] = ctx.real('%s.d%s' % (tag, n))
                der[(n, 'tt')] = env['d/' + n]
    return env, der


def pow_(ctx, a, b):
    return ctx.fn.pow(a, b)


def combine(ctx, op, a, b):
    """reference result of a op b (Term with node=None) or Reject"""
    objs = {**a.objs, **b.objs}
    d = a.diff or b.diff
    if op in '+-':
        f = (lambda env: a.val(env) + b.val(env)) if op == '+' else (lambda env: a.val(env) - b.val(env))
        if a.isnum:
            dims = b.dims
        elif b.isnum:
            dims = a.dims
        else:
            if not eq_all(ctx, a.dims, b.dims):
                raise Reject()
            dims = a.dims
        return Term(None, f, dims, objs, d)
    if op == '*':
        return Term(None, lambda env: a.val(env) * b.val(env), {k: a.dims.get(k, 0) + b.dims.get(k, 0) for k in SI}, objs, d)
    if op == '/':
        return Term(None, lambda env: a.val(env) / b.val(env), {k: a.dims.get(k, 0) - b.dims.get(k, 0) for k in SI}, objs, d)
    if op == '**':
        f = lambda env: pow_(ctx, a.val(env), b.val(env))
        if b.isnum:
            p = b.val(None)
            return Term(None, f, {k: a.dims.get(k, 0) * p for k in SI}, objs, d)
        if not eq_all(ctx, b.dims, {}):
            raise Reject()
        if eq_all(ctx, a.dims, {}):
            return Term(None, f, {}, objs, d)
        if b.known:
            p = b.val({})
            return Term(None, f, {k: a.dims.get(k, 0) * p for k in SI}, objs, d)
        raise Reject()
    raise KeyError(op)


def real_op(op, a, b):
    x, y = a.node, b.node
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    if op == '/':
        return x / y
    if op == '**':
        return x ** y


def binop(ctx, op, a, b, on_reject=None):
    """apply op for real; returns the Term, or None when both sides reject. Calls on_reject(exc or None)."""
    try:
        r = combine(ctx, op, a, b)
    except Reject:
        e = ctx.raised(real_op, op, a, b)
        if on_reject:
            on_reject(e)
        return None
    r.node = real_op(op, a, b)
    return r


def func(ctx, F, a, on_reject=None):
    f = getattr(ctx.mod('core.equation_operators'), F)
    if not a.isnum and not eq_all(ctx, a.dims, {}):
        e = ctx.raised(f, a.node)
        if on_reject:
            on_reject(e)
        return None
    g = getattr(ctx.fn, FUNCS[F])
    return Term(f(a.node), lambda env: g(a.val(env)), {}, dict(a.objs), a.diff)


def minmax(ctx, F, args, on_reject=None):
    f = getattr(ctx.mod('core.equation_operators'), F)
    g = ctx.fn.min if F == 'Min' else ctx.fn.max
    ds = [a.dims for a in args if not a.isnum]
    if any(not eq_all(ctx, ds[0], d) for d in ds[1:]):
        e = ctx.raised(f, *[a.node for a in args])
        if on_reject:
            on_reject(e)
        return None
    objs = {}
    for a in args:
        objs.update(a.objs)
    return Term(f(*[a.node for a in args]), lambda env: g(*[a.val(env) for a in args]), ds[0] if ds else {}, objs, any(a.diff for a in args))


BINOPS = ['+', '-', '*', '/', '**']
KINDS = ['var', 'par', 'con', 'upar', 'diff', 'num', 'inum']


def pairs():
    return [(a, b) for a in KINDS for b in KINDS if not (a in ('num', 'inum') and b in ('num', 'inum'))]


def positive(ctx, env):
    """stay inside the domain of the real-valued functions: positive unknowns"""
    for v in env.values():
        ctx.assume(v > 0)
