"""M01: declarations - every object lands in the right registry of its own model, as described."""
from .common import *
PRELOAD = ['model']
BOUNDS = 'two models, up to three declarations in any order and any mix of kinds, names from a set including shared and underscored ones and ones that end like full names, arbitrary units, values and bounds'
NAMES = ['x', 'y', 'x_1']
KINDS = ['variables', 'parameters', 'constants']
MAKE = {'variables': 'createVariable', 'parameters': 'createParameter', 'constants': 'createConstant'}
CLS = {'variables': 'Variable', 'parameters': 'Parameter', 'constants': 'Constant'}


def models(ctx):
    M = ctx.mod('model').Model
    return M('A', 'first'), M('B', 'second')


def describe(ctx, o, kind, name, m, u, dims, val, text=None):
    full = name + '_' + m.name
    ctx.check('full name', o.name == full, o.name)
    ctx.check('class of the object', type(o).__name__ == CLS[kind] or any(c.__name__ == CLS[kind] for c in type(o).__mro__), type(o).__name__)
    ctx.check_same('value', o.value, val)
    dims_are(ctx, 'units', o.units, dims)
    ctx.check('description', o.description == 'about ' + name, o.description)
    ctx.check('latex text', o.latex_text == (text or name), o.latex_text)
    ctx.check('owner', o.owner_model_name == m.name, o.owner_model_name)
    ctx.check('not specified by its declaration', o.is_specified == False)
    reg = getattr(m, kind)
    ctx.check('registered under its full name', full in reg and reg[full] is o)


def one(ctx, v):
    """one declaration of each kind: attributes and registry"""
    kind, text = v
    a, b = models(ctx)
    name = ctx.choice('name', NAMES)
    u = unit(ctx, 'u')
    dims = exps(u)
    val = ctx.real('val')
    kw = {} if text is None else {'latex_text': text}
    o = getattr(a, MAKE[kind])(name, u, description='about ' + name, value=val, **kw)
    describe(ctx, o, kind, name, a, u, dims, val, text)
    for k in KINDS:
        ctx.check('the other registries are untouched', len(getattr(a, k)) == (1 if k == kind else 0))
        ctx.check('the other model is untouched', len(getattr(b, k)) == 0)
    ctx.check('nothing is exposed', a.exposed_vars == {'input': [], 'output': []} and b.exposed_vars == {'input': [], 'output': []})


def defaults(ctx, v):
    a, b = models(ctx)
    u = unit(ctx, 'u')
    o = getattr(a, MAKE[v])('x', u)
    ctx.check_same('default value', o.value, 0)
    ctx.check('default description', o.description == '')
    ctx.check('default latex text', o.latex_text == 'x')
    if v == 'variables':
        ctx.check('no bounds by default', o.is_lower_bounded == False and o.is_upper_bounded == False and o.lower_bound is None and o.upper_bound is None)
        ctx.check('not exposed by default', o.is_exposed == False)


def bounds(ctx, v):
    """bound flags follow the bounds"""
    lo, up = v
    a, b = models(ctx)
    kw = {}
    if lo:
        kw['lower_bound'] = ctx.real('lo')
    if up:
        kw['upper_bound'] = ctx.real('up')
    fl, fu = ctx.flag('said lower'), ctx.flag('said upper')
    o = a.createVariable('x', unit(ctx, 'u'), 'd', is_lower_bounded=fl, is_upper_bounded=fu, value=ctx.real('val'), **kw)
    ctx.check('lower flag follows the bound', o.is_lower_bounded == lo)
    ctx.check('upper flag follows the bound', o.is_upper_bounded == up)
    if lo:
        ctx.check_same('lower bound', o.lower_bound, ctx.real('lo'))
    else:
        ctx.check('no lower bound', o.lower_bound is None)
    if up:
        ctx.check_same('upper bound', o.upper_bound, ctx.real('up'))
    else:
        ctx.check('no upper bound', o.upper_bound is None)
    ctx.check_same('value is not clipped', o.value, ctx.real('val'))


def sequence(ctx, v):
    """several declarations over two models"""
    ms = models(ctx)
    want = {(m.name, k): {} for m in ms for k in KINDS}
    expo = {m.name: {'input': [], 'output': []} for m in ms}
    objs = []
    for i in range(v):
        m = ctx.choice('model%d' % i, ms) if i else ms[0]
        k = ctx.choice('kind%d' % i, KINDS)
        n = ctx.choice('name%d' % i, NAMES[:2])
        val = ctx.real('val%d' % i)
        kw = {}
        if k == 'variables':
            e = ctx.choice('expose%d' % i, ['', 'input', 'output'])
            if e:
                kw = dict(is_exposed=True, type=e)
                expo[m.name][e].append(n + '_' + m.name)
        o = getattr(m, MAKE[k])(n, U(ctx)('u%d' % i, {'m': ctx.real('e%d' % i)}), 'about ' + n, value=val, **kw)
        reg = want[(m.name, k)]
        reg[n + '_' + m.name] = (o, val, ctx.real('e%d' % i))
        objs.append(o)
    ctx.check('every declaration is a new object', len(set(map(id, objs))) == len(objs))
    for m in ms:
        ins, outs = m._infoInputOutputVariables(False)
        ctx.check('the names of inputs and outputs are told', list(ins) == expo[m.name]['input'] and list(outs) == expo[m.name]['output'], (ins, outs))
        m._gatherObjectsInfo_()
        ctx.check('the names of all objects are told', all(list(m.objects_info[k]) == list(want[(m.name, k)]) for k in KINDS), m.objects_info)
    for m in ms:
        for k in KINDS:
            got, w = getattr(m, k), want[(m.name, k)]
            ctx.check('registry names, in order of declaration', list(got) == list(w), (list(got), list(w)))
            for n in w:
                ctx.check('the latest declaration wins', got[n] is w[n][0])
                ctx.check_same('values are independent', got[n].value, w[n][1])
                ctx.check_same('units are independent', got[n].units.dimension['m'], w[n][2])
        for e in ('input', 'output'):
            got = [x.name for x in m.exposed_vars[e]]
            ctx.check('exposed variables', set(got) == set(expo[m.name][e]), (got, expo[m.name][e]))
            for nm, (o, _, _) in want[(m.name, 'variables')].items():
                if o.is_exposed and o.type == e:
                    ctx.check('the latest declaration is the one exposed', any(x is o for x in m.exposed_vars[e]))


def redeclared(ctx, v):
    """declared again under the same name: a new object with nothing of the old one"""
    kind, same = v
    a, b = models(ctx)
    u = unit(ctx, 'u')
    x = ctx.real('x')
    kw = dict(is_lower_bounded=True, lower_bound=ctx.real('lo'), is_exposed=True, type='input') if kind == 'variables' else {}
    old = getattr(a, MAKE[kind])('q', u, 'first', value=x, latex_text='Q', **kw)
    old.setValue(x)
    y = x if same else ctx.real('y')
    new = getattr(a, MAKE[kind])('q', u, 'first' if same else 'second', value=y)
    ctx.check('a new object', new is not old and getattr(a, kind)['q_' + a.name] is new and len(getattr(a, kind)) == 1)
    ctx.check('not yet specified', new.is_specified == False)
    ctx.check_same('with the value declared', new.value, y)
    ctx.check('and the texts declared', new.latex_text == 'q' and new.description == ('first' if same else 'second'), (new.latex_text, new.description))
    if kind == 'variables':
        ctx.check('and the bounds and exposure declared', new.is_lower_bounded == False and new.lower_bound is None and new.is_exposed == False and not any(i is new for i in a.exposed_vars['input']))
    ctx.check('the old one is as it was', old.is_specified == True and old.description == 'first')
    ctx.check_same('the old one is as it was', old.value, x)


def exposure(ctx, v):
    """an exposed variable is listed on its side only"""
    a, b = models(ctx)
    o = a.createVariable('x', unit(ctx, 'u'), 'd', is_exposed=True, type=v)
    p = a.createVariable('y', unit(ctx, 'u'), 'd', is_exposed=False, type=v)
    other = 'output' if v == 'input' else 'input'
    ctx.check('listed on its side', len(a.exposed_vars[v]) == 1 and a.exposed_vars[v][0] is o)
    ctx.check('not listed on the other side', len(a.exposed_vars[other]) == 0)
    ctx.check('not listed in the other model', len(b.exposed_vars[v]) == 0 and len(b.exposed_vars[other]) == 0)
    ctx.check('marked exposed', o.is_exposed == True and o.type == v and p.is_exposed == False)


def subclass(ctx, v):
    """objects created before Model.__init__ runs survive it, and a reload keeps them"""
    Model = ctx.mod('model').Model
    u = unit(ctx, 'u')
    val = ctx.real('val')

    class Early(Model):
        def __init__(self, name):
            self.name = name
            if v == 'before':
                self.variables = {}
                self.parameters = {}
                self.exposed_vars = {'input': [], 'output': []}
                self.x = self.createVariable('x', u, 'd', value=val)
                self.p = self.createParameter('p', u, 'd', value=val)
            super().__init__(name, 'd')
            if v != 'before':
                self.x = self.createVariable('x', u, 'd', value=val)
                self.p = self.createParameter('p', u, 'd', value=val)

        def DeclareEquations(self):
            self.eq = self.createEquation('e', 'd', self.x() - self.p())
    m = Early('M')
    m.p.setValue(val)
    for i in range(2):
        m()
        ctx.check('variable kept', list(m.variables) == ['x_M'] and m.variables['x_M'] is m.x)
        ctx.check('parameter kept', list(m.parameters) == ['p_M'] and m.parameters['p_M'] is m.p)
        ctx.check('one equation per declaration', list(m.equations) == ['e_M'])
        ctx.check_same('value kept', m.p.value, val)
        ctx.check('specification kept', m.p.is_specified == True and m.x.is_specified == False)


def order(ctx, v):
    """declarations are run constants, parameters, variables, equations"""
    Model = ctx.mod('model').Model
    log = []

    class M(Model):
        def DeclareConstants(self): log.append('c'); self.c = self.createConstant('c', unit(ctx, 'u'), 'd'); self.c.setValue(ctx.real('vc'))
        def DeclareParameters(self): log.append('p'); self.p = self.createParameter('p', self.c.units, 'd', value=self.c.value); self.p.setValue(self.c.value)
        def DeclareVariables(self): log.append('v'); self.x = self.createVariable('x', self.p.units, 'd', lower_bound=self.p.value)
        def DeclareEquations(self): log.append('e'); self.e = self.createEquation('e', 'd', self.x() - self.p() - self.c())
    m = M('M', 'd')
    m()
    ctx.check('order of declaration', log == ['c', 'p', 'v', 'e'], log)
    ctx.check_same('values flow through', m.x.lower_bound, ctx.real('vc'))
    x = ctx.real('x')
    ctx.check_same('equation', lambda: ctx.value(m.e.eval({'x_M': x}), {}), lambda: x - 2 * ctx.real('vc'))


def suffixed(ctx, v):
    """a name that ends like the full name of another object is a name like any other"""
    kind, names = v
    a, b = models(ctx)
    u = unit(ctx, 'u')
    x = a.createVariable('base', u, 'd')
    x.setValue(ctx.real('x'))
    got = []
    for i, n in enumerate(names):
        if kind == 'equations':
            o = a.createEquation(n, 'about ' + n, x() - x() * (i + 2))
        else:
            o = getattr(a, MAKE[kind])(n, u, 'about ' + n, value=ctx.real('val%d' % i))
        got.append(o)
    reg = getattr(a, kind)
    want = ['base_A'] * (kind == 'variables') + [n + '_A' for n in names]
    ctx.check('each under its own full name', list(reg) == want, list(reg))
    for i, (n, o) in enumerate(zip(names, got)):
        ctx.check('registered', reg[n + '_A'] is o and o.name == n + '_A' and o.description == 'about ' + n)
        if kind == 'equations':
            ctx.check_same('residual of its own', lambda: ctx.value(o.eval(), {}), lambda: -(i + 1) * ctx.real('x'))
        else:
            ctx.check_same('value of its own', o.value, ctx.real('val%d' % i))
    ctx.check('nothing elsewhere', not getattr(b, kind) and all(len(getattr(a, k)) == (k == 'variables') for k in KINDS + ['equations'] if k != kind))


def cases(tier):
    c = group(one, [(k, t) for k in KINDS for t in (None, '\\alpha', '{P}_{in}', '')])
    c.update(group(defaults, KINDS))
    c.update(group(bounds, [(l, u) for l in (False, True) for u in (False, True)]))
    c.update(group(sequence, [2] if tier == 'quick' else [2, 3], max_paths=40000, budget_s=4000))
    c.update(group(redeclared, [(k, s) for k in KINDS for s in (True, False)]))
    c.update(group(exposure, ['input', 'output']))
    c.update(group(subclass, ['before', 'after']))
    c.update(group(order, ['order']))
    lists = [('x', 'x_A', 'x_A_A'), ('A', '_A', 'xA'), ('x_B', 'x', 'B')]
    c.update(group(suffixed, [(k, l) for k in KINDS + ['equations'] for l in lists]))
    return c
