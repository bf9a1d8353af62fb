"""G01: a plot shows exactly the series asked for."""
from .sims import *
from .D01 import objs, rows
import numpy as np
PRELOAD = ['plotter', 'simulation', 'model', 'core.domain', 'core.variable', 'core.parameter', 'core.template_units']
BOUNDS = 'one and two abscissae, one to three series of one to three points, arbitrary values; given as arrays or looked up by name in a domain of up to three dependent variables; with and without labels, markers, legend, grid, file and window; one to three plots in a row, by plotter or by simulation'
ASSUMES = ['matplotlib.pyplot is a stand-in that records what is drawn']


class Plt:
    def __init__(self, ctx):
        self.ctx = ctx
        self.reset()
        self.figures = []
        self.shown, self.saved = [], []
        ctx.mod('plotter')
        ctx.boundary_module('matplotlib.pyplot', self)

    def reset(self):
        self.series, self.lim, self.xl, self.yl, self.gr, self.leg = [], None, None, None, None, False

    def figure_state(self):
        return dict(series=list(self.series), lim=self.lim, xl=self.xl, yl=self.yl, gr=self.gr, leg=self.leg)

    def plot(self, x, y, *a, **k):
        self.series.append((list(x), list(y), a, k))

    def xlim(self, a, b):
        self.lim = (a, b)

    def xlabel(self, s, **k):
        self.xl = s

    def ylabel(self, s, **k):
        self.yl = s

    def grid(self, b=True, **k):
        self.gr = b

    def legend(self, *a, **k):
        self.leg = True

    def savefig(self, f, **k):
        self.saved.append((f, self.figure_state()))

    def show(self):
        self.shown.append(self.figure_state())

    def figure(self, *a, **k):
        self.reset()

    def tight_layout(self, *a, **k):
        pass

    def close(self, *a):
        self.clf()

    def clf(self):
        self.figures.append(self.figure_state())
        self.reset()


def arr(ctx, tag, *shape):
    a = np.empty(shape, dtype=object if ctx.symbolic else float)
    for i in np.ndindex(*shape):
        a[i] = ctx.real(tag + '.' + '.'.join(map(str, i)))
    return a


def rising(ctx, *xs):
    for x in xs:
        for a, b in zip(list(x), list(x)[1:]):
            ctx.assume(a < b)


def same_list(ctx, label, got, want):
    got, want = list(got), list(want)
    ctx.check(label + ': length', len(got) == len(want), (len(got), len(want)))
    for g, w in zip(got, want):
        ctx.check_same(label, lambda: ctx.value(g, {}), lambda: w)


def drawn(ctx, fig, xs, ys, labels=None, markers=None, linewidth=2.5, label='plot'):
    ctx.check(label + ': every series against every abscissa', len(fig['series']) == len(xs) * len(ys), len(fig['series']))
    k = 0
    for x in xs:
        for j, y in enumerate(ys):
            gx, gy, a, kw = fig['series'][k]
            k += 1
            same_list(ctx, label + ': abscissa', gx, x)
            same_list(ctx, label + ': ordinate', gy, y)
            ctx.check(label + ': label of its own', kw.get('label') == (labels[j] if labels else None), kw.get('label'))
            ctx.check(label + ': marker of its own', kw.get('marker') == (markers[j] if markers else None), kw.get('marker'))
            ctx.check_same(label + ': line width', lambda: kw.get('linewidth'), lambda: linewidth)
    lo, hi = fig['lim']
    for e in xs[-1]:
        ctx.check(label + ': the whole range is shown', ctx.all([lo <= e, e <= hi]))
    for b in (lo, hi):
        hit = False
        for e in xs[-1]:
            c = ctx.same(b, e)
            hit = c if hit is False else (hit | c)
        ctx.check(label + ': nothing beyond the range', hit)


def options(ctx, ny):
    o = dict(labels=None, markers=None)
    if ctx.flag('labels'):
        o['labels'] = ['label %d' % i for i in range(ny)]
    if ctx.flag('markers'):
        o['markers'] = ['o', 's', '*'][:ny]
    return o


def target(ctx, by):
    """the object asked to plot"""
    if by == 'plotter':
        return ctx.mod('plotter').Plotter()
    return ctx.mod('simulation').Simulation('S', 'd')


def arrays(ctx, v):
    nx, ny, n, by = v
    plt = Plt(ctx)
    o = options(ctx, ny)
    w = ctx.real('width')
    shape = ctx.choice('shape', ['rows', 'columns'])
    X, Y = [arr(ctx, 'x%d' % i, n) for i in range(nx)], [arr(ctx, 'y%d' % i, n) for i in range(ny)]
    if nx > 1 or ny > 2:
        rising(ctx, *X)
    form = (lambda a: a) if shape == 'rows' else (lambda a: a.reshape(-1, 1))
    target(ctx, by).plotTimeSeries(x_data=[form(a) for a in X], y_data=[form(a) for a in Y], linewidth=w, show_plot=False, **o)
    ctx.check('one figure', len(plt.figures) == 1 and not plt.series)
    ctx.check('no window, no file', not plt.shown and not plt.saved)
    drawn(ctx, plt.figures[0], X, Y, o['labels'], o['markers'], w)


def furniture(ctx, v):
    """axes, grid, legend, window and file"""
    plt = Plt(ctx)
    X, Y = arr(ctx, 'x', 1, 2), arr(ctx, 'y', 1, 2)
    rising(ctx, X[0])
    kw, want = {}, dict(xl='time', yl='output', gr=False, leg=False)
    if ctx.flag('x label'):
        kw['x_label'] = want['xl'] = 'abscissa'
    if ctx.flag('y label'):
        kw['y_label'] = want['yl'] = 'ordinate'
    if ctx.flag('grid'):
        kw['grid'] = want['gr'] = True
    if ctx.flag('legend'):
        kw['legend'] = want['leg'] = True
    show, save = ctx.choice('window', [None, True, False]), ctx.flag('file')
    if show is not None:
        kw['show_plot'] = show
    if save:
        kw['save_file'] = 'file.png'
    target(ctx, v).plotTimeSeries(x_data=X, y_data=Y, **kw)
    fig = plt.figures[0]
    ctx.check('axes', fig['xl'] == want['xl'] and fig['yl'] == want['yl'], (fig['xl'], fig['yl']))
    ctx.check('grid', fig['gr'] is want['gr'])
    ctx.check('legend', fig['leg'] is want['leg'])
    drawn(ctx, fig, [X[0]], [Y[0]])
    ctx.check('shown unless told otherwise', len(plt.shown) == (0 if show is False else 1))
    ctx.check('saved where told', [f for f, _ in plt.saved] == (['file.png'] if save else []))
    for st in plt.shown + [s for _, s in plt.saved]:
        ctx.check('complete when shown or saved', all(st[k] == want[k] for k in want) and len(st['series']) == 1)
    ctx.check('cleared for the next', len(plt.figures) == 1 and not plt.series and plt.lim is None)


def by_name(ctx, v):
    """series looked up in a domain by name"""
    nd, by = v
    plt = Plt(ctx)
    dom, (t,), dep = objs(ctx, 1, nd)
    n = ctx.choice('rows', [1, 3])
    a = rows(ctx, 'a', n, nd + 1)
    dom._register(a)
    rising(ctx, a[:, 0], a[:, 1])
    hs = [t.name] + [x.name for x in dep]
    import itertools
    ask = ctx.choice('asked', [list(p) for r in (1, 2) for p in itertools.permutations(hs[1:], r)])
    xn = ctx.choice('abscissa', hs[:2])
    o = options(ctx, len(ask))
    target(ctx, by).plotTimeSeries(x_data=xn, y_data=list(ask), data=dom, show_plot=False, **o)
    col = lambda h: [a[i][hs.index(h)] for i in range(n)]
    drawn(ctx, plt.figures[0], [col(xn)], [col(h) for h in ask], o['labels'], o['markers'])
    for bad in ((t.name, ['nosuch']), ('nosuch', [hs[1]])):
        ctx.expect_raises('unknown names are refused', lambda: target(ctx, by).plotTimeSeries(x_data=bad[0], y_data=bad[1], data=dom, show_plot=False), 'ValueError')
    ctx.check('nothing is drawn for them', len(plt.figures) == 1 and not plt.series and not plt.shown and not plt.saved)
    ctx.check('the data is kept', len(dom.values[t.name]) == n)


def of_two(ctx, v):
    """a domain of two independent variables: series come from the table of the first"""
    plt = Plt(ctx)
    dom, (s, t), dep = objs(ctx, 2, 1)
    a, b = rows(ctx, 'a', 2, 3), rows(ctx, 'b', 2, 3)
    dom._register(a, s)
    dom._register(b, t)
    rising(ctx, a[:, 0], a[:, 1])
    hs = [s.name, t.name, dep[0].name]
    xn = ctx.choice('abscissa', hs[:2])
    ask = ctx.choice('asked', [hs[2:], hs[1:], hs[:2]])
    target(ctx, v).plotTimeSeries(x_data=xn, y_data=list(ask), data=dom, show_plot=False)
    col = lambda h: [a[i][hs.index(h)] for i in range(2)]
    drawn(ctx, plt.figures[0], [col(xn)], [col(h) for h in ask])


def in_a_row(ctx, v):
    """a plot shows nothing of the plots before it"""
    plt = Plt(ctx)
    A, B = target(ctx, v), target(ctx, v)
    figs = []
    for k in range(3):
        p = ctx.choice('by %d' % k, [A, B]) if k else A
        ny = ctx.choice('series %d' % k, [1, 2])
        X, Y = arr(ctx, 'x%d' % k, 1, 2), arr(ctx, 'y%d' % k, ny, 2)
        rising(ctx, X[0])
        p.plotTimeSeries(x_data=X, y_data=Y, show_plot=ctx.flag('window %d' % k))
        figs.append((X, Y))
    ctx.check('a figure each', len(plt.figures) == 3)
    for (X, Y), f in zip(figs, plt.figures):
        drawn(ctx, f, list(X), list(Y))


def of_results(ctx, v):
    """results of a simulation, plotted by the names of its variables or renamed headers"""
    name, n = v
    plt = Plt(ctx)
    f = ODE[name]
    p, ms, rs, ys, ic = dynamic(ctx, f)
    O = OdeInt(ctx, ic, rates(rs, f.eqs), ['t_M'], probe=0).install()
    te = ctx.real('te')
    ctx.assume(te > ic[''])
    ctx.assume(ic[''] > 0)
    ren = ctx.flag('renamed')
    mp = {k: 'new ' + k for k in ys + ['t_M']} if ren else {}
    sim = simulation(ctx, p, initial_time=ic[''], end_time=te, is_dynamic=True, number_of_time_steps=n, domain=ms[0].dom, variable_name_map=mp, output_headers=['time'] + ys)
    run(sim)
    names, t, Y, _ = O.runs[0]
    ask = ctx.choice('asked', [ys, ys[::-1], ys[-1:]])
    sim.plotTimeSeries(x_data=mp.get('t_M', 't_M'), y_data=[mp.get(k, k) for k in ask], data=ms[0].dom, show_plot=False)
    drawn(ctx, plt.figures[0], [t], [[Y[i, names.index(k)] for i in range(len(t))] for k in ask])
    got = sim.getResults('list')[0]
    ctx.check('results are kept', len(got) == len(t))


def cases(tier):
    deep = tier == 'thorough'
    both = ['plotter', 'simulation']
    shapes = [(nx, ny, n) for nx in (1, 2) for ny in (1, 2, 3) for n in (1, 2, 3)] if deep else [(1, 1, 3), (1, 3, 2), (2, 2, 1), (1, 2, 1)]
    r = group(arrays, [(*s, b) for s in shapes for b in both])
    r.update(group(furniture, both if deep else ['simulation']))
    r.update(group(by_name, [(k, b) for k in ((1, 2, 3) if deep else (2,)) for b in both]))
    r.update(group(of_two, both))
    r.update(group(in_a_row, both if deep else ['plotter']))
    r.update(group(of_results, [('coupled', 2)] + ([('one', 1), ('three', 2), ('explicit time', 3)] if deep else [])))
    return r
