"""D01: a domain keeps, per independent variable, a table with exactly the columns and rows registered."""
from .sims import *
import numpy as np
PRELOAD = ['model', 'core.domain', 'core.variable', 'core.parameter', 'core.template_units']
BOUNDS = 'one and two independent variables, zero to three dependent objects in every order of distribution, one to three registrations of one to three rows of arbitrary values, given as arrays or lists; renaming of any headers; resets; one and two domains'


def objs(ctx, ni, nd, tag='M', dorder=None):
    m = ctx.ns('core.variable', 'core.parameter')
    u = dimless(ctx)
    D = ctx.mod('core.domain').Domain
    ind = [m.Variable('t%d_%s' % (ni - i, tag), u, 'd') for i in range(ni)]              # in no alphabetical order
    if ni == 1:
        dom = D('dom', u, ctx.choice('independent variable given', ['alone', 'in a list']) == 'alone' and ind[0] or ind, 'about')
    else:
        dom = D('dom', u, ind, 'about')
    ctx.check('not set before anything is distributed', dom.is_set == False and dom.values is None)
    dep = [m.Variable('%s_%s' % (('x1', 'b', 'x0', 'a')[i], tag), u, 'd') for i in range(nd)]
    for x in ([dep[i] for i in dorder] if dorder else dep):
        ctx.check('no domain before', x.domain is None)
        x.distributeOnDomain(dom)
        ctx.check('the variable knows its domain', x.domain is dom)
    if not nd:
        dom()
    return dom, ind, dep


def heads(ind, dep, dorder=None):
    return [x.name for x in ind] + [x.name for x in ([dep[i] for i in dorder] if dorder else dep)]


def rows(ctx, tag, n, k, as_list=False):
    a = np.empty((n, k), dtype=object if ctx.symbolic else float)
    for i in range(n):
        for j in range(k):
            a[i, j] = ctx.real('%s.%d.%d' % (tag, i, j))
    return [list(r) for r in a] if as_list else a


def holds(ctx, dom, var, hs, want, label='table'):
    df = dom.values[var.name]
    ctx.check(label + ': headers in order', list(df.columns) == hs, list(df.columns))
    ctx.check(label + ': rows', len(df) == len(want), (len(df), len(want)))
    for i, r in enumerate(want):
        for h, x in zip(hs, r):
            ctx.check_same(label + ': each value in its row and column', lambda: ctx.value(df[h].iloc[i], {}), lambda: x)


def registers(ctx, v):
    """each registration is appended below the earlier ones"""
    nd, as_list = v
    do = order_of(ctx, 'distribution', nd)
    dom, (t,), dep = objs(ctx, 1, nd, dorder=do)
    hs = heads([t], dep, do)
    holds(ctx, dom, t, hs, [])
    ctx.check('set once something is distributed', dom.is_set == True)
    ctx.check('dependent objects as distributed', list(dom.dependent_objs.values()) == [dep[i] for i in do] and all(dom.dependent_objs[x.name] is x for x in dep))
    all_rows = []
    for r in range(ctx.choice('registrations', [1, 2, 3])):
        new = rows(ctx, 'r%d' % r, ctx.choice('rows', [1, 2, 3]), nd + 1, as_list)
        if ctx.flag('named'):
            dom._register(new, t)
        else:
            dom._register(new)
        all_rows += [list(x) for x in new]
        holds(ctx, dom, t, hs, all_rows)


def copied(ctx, v):
    """what the caller does to the rows later does not show in the table"""
    nd, as_list, before = v
    dom, (t,), dep = objs(ctx, 1, nd)
    hs = heads([t], dep)
    kept, mine = [], []
    for r in range(before + 1):
        new = rows(ctx, 'r%d' % r, 2, nd + 1, as_list)
        kept += [list(x) for x in new]
        mine.append(new)
        dom._register(new)
    for new in mine:
        for i in range(2):
            for j in range(nd + 1):
                new[i][j] = ctx.real('later.%d.%d' % (i, j))
    holds(ctx, dom, t, hs, kept, 'table')


def exchanged(ctx, v):
    """headers may take the names of each other"""
    dom, (t,), dep = objs(ctx, 1, 2)
    hs = heads([t], dep)
    a = rows(ctx, 'a', 2, 3)
    dom._register(a)
    x, y = hs[1], hs[2]
    mp = {'swapped': {x: y, y: x}, 'swapped back': {y: x, x: y}, 'moved on': {x: y, y: 'last'}, 'round': {hs[0]: x, x: y, y: hs[0]}}[v]
    dom._renameHeaders(mp)
    holds(ctx, dom, t, [mp.get(h, h) for h in hs], [list(r) for r in a], 'renamed')


def wrong_width(ctx, v):
    """rows of another width are refused and nothing is lost"""
    nd, w = v
    dom, (t,), dep = objs(ctx, 1, nd)
    hs = heads([t], dep)
    first = rows(ctx, 'a', 2, nd + 1)
    if ctx.flag('not the first'):
        dom._register(first)
        kept = [list(x) for x in first]
    else:
        kept = []
    e = ctx.raised(lambda: dom._register(rows(ctx, 'b', 2, w)))
    ctx.check('refused', e is not None)
    holds(ctx, dom, t, hs, kept, 'kept')


def reset(ctx, v):
    """a reset empties the table and keeps the columns"""
    nd = v
    dom, (t,), dep = objs(ctx, 1, nd)
    hs = heads([t], dep)
    a = rows(ctx, 'a', 2, nd + 1)
    dom._register(a)
    dom._reset()
    holds(ctx, dom, t, hs, [], 'reset')
    b = rows(ctx, 'b', 1, nd + 1)
    dom._register(b)
    holds(ctx, dom, t, hs, [list(x) for x in b], 'registered again')
    late = ctx.ns('core.variable').Variable('late_M', dimless(ctx), 'd')
    late.distributeOnDomain(dom)
    dom._reset()
    holds(ctx, dom, t, hs + ['late_M'], [], 'reset after another was distributed')
    c = rows(ctx, 'c', 1, nd + 2)
    dom._register(c)
    holds(ctx, dom, t, hs + ['late_M'], [list(x) for x in c], 'registered with another')


def renamed(ctx, v):
    """renamed headers keep their columns, also for later rows"""
    nd = v
    dom, (t,), dep = objs(ctx, 1, nd)
    hs = heads([t], dep)
    a = rows(ctx, 'a', 2, nd + 1)
    dom._register(a)
    which = [h for h in hs if ctx.flag('rename ' + h)]
    mp = {h: 'new ' + h for h in which}
    if ctx.flag('and another'):
        mp['nosuch'] = 'never'
    dom._renameHeaders(mp)
    nh = [mp.get(h, h) for h in hs]
    holds(ctx, dom, t, nh, [list(x) for x in a], 'renamed')
    b = rows(ctx, 'b', 1, nd + 1)
    dom._register(b)
    holds(ctx, dom, t, nh, [list(x) for x in a] + [list(x) for x in b], 'after renaming')
    ctx.check('the variables keep their names', [x.name for x in [t] + dep] == hs)


def lookup(ctx, v):
    """dom[independent, dependent(s)]: the columns asked for, in the order asked"""
    nd = v
    dom, (t,), dep = objs(ctx, 1, nd)
    hs = heads([t], dep)
    a = rows(ctx, 'a', ctx.choice('rows', [1, 2, 3]), nd + 1)
    dom._register(a)
    for h in hs:
        got = dom[t.name, h]
        ctx.check('one column', tuple(got.shape) == (1, len(a)), got.shape)
        for i in range(len(a)):
            ctx.check_same('one column', lambda: ctx.value(got[0][i], {}), lambda: a[i][hs.index(h)])
    import itertools
    ask = ctx.choice('asked', [list(p) for r in (1, 2) for p in itertools.product(hs, repeat=r)])
    for it in (t.name, [t.name]):
        got = dom[it, ask]
        ctx.check('several columns', tuple(got.shape) == (len(ask), len(a)), got.shape)
        for k, h in enumerate(ask):
            for i in range(len(a)):
                ctx.check_same('several columns in the order asked', lambda: ctx.value(got[k][i], {}), lambda: a[i][hs.index(h)])
    e = ctx.raised(lambda: dom[t.name, 'nosuch'])
    ctx.check('an unknown header is not answered', e is not None)
    e = ctx.raised(lambda: dom['nosuch', hs[0]])
    ctx.check('an unknown independent variable is not answered', e is not None)


def two_independent(ctx, v):
    """one table per independent variable"""
    nd = v
    dom, (s, t), dep = objs(ctx, 2, nd)
    hs = heads([s, t], dep)
    a, b = rows(ctx, 'a', 2, nd + 2), rows(ctx, 'b', 1, nd + 2)
    first = ctx.flag('the other first')
    if first:
        dom._register(b, t)
    dom._register(a, s)
    if not first:
        dom._register(b, t)
    holds(ctx, dom, s, hs, [list(x) for x in a], 'first table')
    holds(ctx, dom, t, hs, [list(x) for x in b], 'second table')
    h = hs[-1]
    both = dom[[s.name, s.name], h]
    ctx.check('asked twice', tuple(both.shape) == (2, 2))
    for i in range(2):
        ctx.check_same('asked twice', lambda: ctx.value(both[1][i], {}), lambda: a[i][-1])
    c = rows(ctx, 'c', 1, nd + 2)
    dom._register(c, s)
    holds(ctx, dom, s, hs, [list(x) for x in a] + [list(x) for x in c], 'first table')
    holds(ctx, dom, t, hs, [list(x) for x in b], 'second table')
    d = rows(ctx, 'd', 1, nd + 2)
    dom._register(d)
    holds(ctx, dom, s, hs, [list(x) for x in a] + [list(x) for x in c], 'first table')
    holds(ctx, dom, t, hs, [list(x) for x in b] + [list(x) for x in d], 'rows of no named variable belong to the last one')
    dom._reset()
    holds(ctx, dom, s, hs, [], 'reset')
    holds(ctx, dom, t, hs, [], 'reset')


def lookup_two(ctx, v):
    """several columns of several tables: table by table, each in the order asked"""
    nd, n = v
    dom, (s, t), dep = objs(ctx, 2, nd)
    hs = heads([s, t], dep)
    tab = {s.name: rows(ctx, 'a', n, nd + 2), t.name: rows(ctx, 'b', n, nd + 2)}
    dom._register(tab[s.name], s)
    dom._register(tab[t.name], t)
    iv = ctx.choice('tables', [[s.name, t.name], [t.name, s.name], [t.name]])
    cols = ctx.choice('columns', [[hs[0], hs[-1]], [hs[-1], hs[1]], list(reversed(hs)), [hs[1]]])
    got = dom[iv, cols]
    ctx.check('a row per table and column', tuple(got.shape) == (len(iv) * len(cols), n), got.shape)
    for k, (i, h) in enumerate((i, h) for i in iv for h in cols):
        for r in range(n):
            ctx.check_same('table by table', lambda: ctx.value(got[k][r], {}), lambda: tab[i][r][hs.index(h)])


def renamed_all(ctx, v):
    """renaming holds for the table of every independent variable"""
    dom, (s, t), dep = objs(ctx, 2, v)
    hs = heads([s, t], dep)
    a, b = rows(ctx, 'a', 2, v + 2), rows(ctx, 'b', 1, v + 2)
    mp = {h: 'new ' + h for h in hs if ctx.flag('rename ' + h)}
    early = ctx.flag('before anything is registered')
    if early:
        dom._renameHeaders(mp)
    dom._register(a, s)
    dom._register(b, t)
    if not early:
        dom._renameHeaders(mp)
    nh = [mp.get(h, h) for h in hs]
    holds(ctx, dom, s, nh, [list(x) for x in a], 'first table renamed')
    holds(ctx, dom, t, nh, [list(x) for x in b], 'second table renamed')


def two_domains(ctx, v):
    """domains do not see each other"""
    d1, (t1,), x1 = objs(ctx, 1, 2, 'M')
    d2, (t2,), x2 = objs(ctx, 1, 1, 'N')
    a, b = rows(ctx, 'a', 2, 3), rows(ctx, 'b', 1, 2)
    d1._register(a)
    holds(ctx, d2, t2, heads([t2], x2), [], 'other domain')
    d2._register(b)
    if v == 'reset':
        d1._reset()
        a = []
    if v == 'rename':
        d2._renameHeaders({t1.name: 'gone', x1[0].name: 'gone too'})
    holds(ctx, d1, t1, heads([t1], x1), [list(x) for x in a], 'this domain')
    holds(ctx, d2, t2, heads([t2], x2), [list(x) for x in b], 'other domain')
    if v == 'move':
        x2[0].distributeOnDomain(d1)
        ctx.check('a variable moved to another domain is in that one', x2[0].domain is d1 and x2[0].name in d1.dependent_objs)


def parameters_too(ctx, v):
    """whatever was given to the domain is kept as it is"""
    u = dimless(ctx)
    t = ctx.ns('core.variable').Variable('t', u, 'd')
    lo, hi = {'t': ctx.real('lo')}, {'t': ctx.real('hi')}
    D = ctx.mod('core.domain').Domain
    a = D('a', u, t, 'about a', lo, hi)
    b = D('b', u, t)
    ctx.check('as given', (a.name, a.description, b.name, b.description) == ('a', 'about a', 'b', ''))
    ctx.check('bounds as given', a.lower_bound == lo and a.upper_bound == hi and list(b.lower_bound) == ['all'] and b.lower_bound['all'] is None and b.upper_bound['all'] is None)
    ctx.check('units as given', a.units is u)
    ctx.check('independent variables', list(a.independent_vars.values()) == [t] and list(a.independent_vars) == ['t'])


def derivative(ctx, v):
    """a derivative requires that the variable is distributed on a domain"""
    m = ctx.ns('core.variable', 'core.parameter')
    u = dimless(ctx)
    t, x = m.Variable('t', u, 'd'), m.Variable('x', u, 'd')
    e = ctx.expect_raises('no derivative outside a domain', lambda: x.Diff(t), 'AbsentRequiredObjectError')
    dom = ctx.mod('core.domain').Domain('dom', u, t, 'd')
    y = m.Variable('y', u, 'd')
    y.distributeOnDomain(dom)
    ctx.expect_raises('still none', lambda: x.Diff(t), 'AbsentRequiredObjectError')
    x.distributeOnDomain(dom)
    e = ctx.raised(lambda: x.Diff(t))
    ctx.check('accepted within a domain', e is None, str(e))


def cases(tier):
    big = [0, 1, 2] if tier == 'quick' else [0, 1, 2, 3]
    c = group(registers, [(n, l) for n in big for l in (False, True)])
    c.update(group(wrong_width, [(n, w) for n in (1, 2, 3) for w in (1, 2, 3, 4, 5) if w != n + 1]))
    c.update(group(reset, big))
    c.update(group(renamed, big))
    c.update(group(lookup, big))
    c.update(group(two_independent, big))
    c.update(group(lookup_two, [(1, 1), (1, 2), (2, 2)]))
    c.update(group(renamed_all, big))
    c.update(group(two_domains, ['plain', 'reset', 'rename', 'move']))
    c.update(group(copied, [(n, l, b) for n in (0, 2) for l in (False, True) for b in (0, 1)]))
    c.update(group(exchanged, ['swapped', 'swapped back', 'moved on', 'round']))
    c.update(group(parameters_too, ['as given']))
    c.update(group(derivative, ['derivative']))
    return c
