"""Imports /repo/src/sloth afresh for every run.  In symbolic mode the parsed source of each
module gets three semantics-preserving rewrites so that symbolic numbers can flow through it
(builtin conversions and type tests go through shims, `is` is aware of symbolic booleans, and
function entry is recorded); library boundaries (numpy constructors, sympy.lambdify, numba.jit)
are replaced by models of their contracts.  In concrete mode the modules are untouched."""
import ast, builtins, importlib, importlib.abc, importlib.util, os, sys, types, re
import numpy as np
import sympy as sp
from . import values as V
from .values import SymReal, SymBool, Tok

REPO = os.environ.get('SX_REPO', '/repo')
SYMBOLIC = False
FUNCS = set()
_code = {}
_cfg = {'numba': 'identity'}


class Rewrite(ast.NodeTransformer):
    SHIM = {'float', 'int', 'bool', 'isinstance', 'type', 'str'}

    def __init__(self, modname):
        self.stack = [modname]

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.SHIM:
            n.func = ast.copy_location(ast.Name('__sx_' + n.func.id + '__', ast.Load()), n.func)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('evalf', 'n'):
            return ast.copy_location(ast.Call(ast.Name('__sx_evalf__', ast.Load()), [n.func.value, ast.Constant(n.func.attr)] + n.args, n.keywords), n)
        if isinstance(n.func, ast.Name) and n.func.id == 'map' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in ('float', 'int', 'bool', 'str'):
            n.args[0] = ast.copy_location(ast.Name('__sx_' + n.args[0].id + '__', ast.Load()), n.args[0])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            f = '__sx_eq__' if isinstance(n.ops[0], ast.Eq) else '__sx_ne__'
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.comparators[0]], []), n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            f = '__sx_is__' if isinstance(n.ops[0], ast.Is) else '__sx_isnot__'
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.comparators[0]], []), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__sx_mod__', ast.Load()), [n.left, n.right], []), n)
        return n

    def _func(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        hook = ast.Expr(ast.Call(ast.Name('__sx_enter__', ast.Load()), [ast.Constant('.'.join(self.stack))], []))
        pos = 1 if (n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str)) else 0
        n.body.insert(pos, hook)
        self.stack.pop()
        return n
    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n


# ---------------------------------------------------------------- shims
def sx_float(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymReal):
            return SymReal(x.n, x.d, 'float')
        if isinstance(x, SymBool):
            return V.lift(x)
        if isinstance(x, Tok):
            return sx_float(V.CUR.tok_value(x))
        if isinstance(x, str) and V.CUR is not None and x in V.CUR.label_map:
            return V.CUR.label_map[x]
        if isinstance(x, sp.Basic) and x.atoms(Tok) and not (x.free_symbols - x.atoms(Tok)):
            return V.lift(V.evalexpr(x, {}))
    return float(*a)


def sx_int(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymReal):
            if x.kind == 'int':
                return x
            if V.CUR.is_int(x) is True or bool(V.CUR.is_int(x)):
                return SymReal(x.n, x.d, 'int')
            return x.__trunc__()
        if isinstance(x, SymBool):
            return V.lift(x)
    return int(*a)


def sx_bool(*a):
    return bool(*a)


def sx_str(*a, **k):
    return str(*a, **k)


def sx_isinstance(x, c):
    if isinstance(x, SymReal):
        if isinstance(c, tuple):
            return any(sx_isinstance(x, ci) for ci in c)
        if c is float:
            return x.kind == 'float'
        if c is int:
            return x.kind == 'int'
        if c in (bool, str, list, dict, tuple):
            return False
        if getattr(c, '__module__', '') == 'numpy':
            return issubclass(float if x.kind == 'float' else int, c)
        if c.__module__ == 'numbers':
            return issubclass(float if x.kind == 'float' else int, c)
        return isinstance(0.0 if x.kind == 'float' else 0, c)
    if isinstance(x, SymBool):
        return isinstance(True, c)
    return isinstance(x, c)


def sx_type(*a):
    if len(a) == 1:
        if isinstance(a[0], SymReal):
            return float if a[0].kind == 'float' else int
        if isinstance(a[0], SymBool):
            return bool
    return type(*a)


def sx_is(a, b):
    if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)):
        return bool(a == b)
    if isinstance(b, SymBool) and isinstance(a, bool):
        return bool(b == a)
    return a is b


def sx_isnot(a, b):
    return not sx_is(a, b)


def sx_eq(a, b):
    """printed numbers are the same text when they print from the same number"""
    if isinstance(a, str) and isinstance(b, str) and V.CUR is not None and V.CUR.label_map and a != b:
        names = sorted(V.CUR.label_map, key=len, reverse=True)
        pat = re.compile('|'.join(map(re.escape, names)) + r'|(?<![\w.])-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?(?![\w.])')
        if pat.sub('#', a) == pat.sub('#', b):
            f = lambda t: V.CUR.label_map[t] if t in V.CUR.label_map else float(t)
            r = True
            for x, y in zip(pat.findall(a), pat.findall(b)):
                if x != y:
                    r = (f(x) == f(y)) if r is True else r & (f(x) == f(y))
            return r
    return a == b


def sx_ne(a, b):
    if isinstance(a, str) and isinstance(b, str):
        r = sx_eq(a, b)
        return ~r if isinstance(r, SymBool) else not r
    return a != b


def sx_evalf(obj, attr, *a, **k):
    """sympy numerical evaluation: exact when the point is symbolic"""
    if isinstance(obj, sp.Basic):
        subs = k.get('subs') or (a[1] if len(a) > 1 else None) or {}
        if _has_sym(list(subs.values())) or obj.atoms(Tok):
            for v in subs.values():
                sp.sympify(v)
            try:
                r = V.lift(V.evalexpr(obj, {str(n): v for n, v in subs.items()}))
                n, chop = (a[0] if a else k.get('n', 15)), (a[3] if len(a) > 3 else k.get('chop', False))
                if n < 15:
                    r = V.significant(r, n)
                if chop:
                    eps = 10.0 ** -n if chop is True else chop
                    r = 0.0 if bool(abs(r) < eps) else r
                return r
            except V.Unbound:
                pass
    return getattr(obj, attr)(*a, **k)


def sx_mod(a, b):
    return V.percent(a, b) if isinstance(a, str) else a % b


def sx_enter(name):
    FUNCS.add(name)


# ---------------------------------------------------------------- library models
def _has_sym(x):
    if isinstance(x, (SymReal, SymBool, Tok)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(_has_sym(i) for i in x.flat)
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    if isinstance(x, sp.MatrixBase):
        return any(i.atoms(Tok) for i in x)
    if isinstance(x, sp.Basic):
        return bool(x.atoms(Tok))
    return False


def _tosym(x):
    if isinstance(x, sp.Basic):
        return V.evalexpr(x, {})
    if isinstance(x, SymBool):
        return V.lift(x)
    return x


def _lossy(dtype):
    """significant bits of a format narrower than float; -1: whole numbers; None: values are kept"""
    try:
        d = np.dtype(dtype)
    except TypeError:
        return None
    if d.kind in 'iu':
        return -1
    return {2: 11, 4: 24}.get(d.itemsize) if d.kind == 'f' else None


class NumpyModel(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')

    def __getattr__(self, k):
        return getattr(np, k)

    @staticmethod
    def array(x, dtype=None, *a, **k):
        if _has_sym(x):
            if isinstance(x, sp.MatrixBase):
                x = x.tolist()
            r = np.array(x, dtype=object)
            if dtype is not None and dtype is not object:
                flat = np.empty(r.shape, dtype=object)
                bits = _lossy(dtype)
                for i in np.ndindex(r.shape):
                    flat[i] = _tosym(r[i])
                    if bits and isinstance(flat[i], SymReal):
                        flat[i] = V.CUR.stored(flat[i], bits) if bits > 0 else flat[i].__trunc__()
                r = flat
            return r
        return np.array(x, dtype, *a, **k) if dtype is not None or a or k else np.array(x)

    @staticmethod
    def asarray(x, dtype=None, *a, **k):
        return NumpyModel.array(x, dtype, *a, **k)

    @staticmethod
    def linspace(a, b, n=50, **k):
        if isinstance(a, (SymReal,)) or isinstance(b, SymReal):
            n = int(n)
            if n == 1:
                return np.array([a], dtype=object)
            return np.array([a + (b - a) * i / (n - 1) for i in range(n)], dtype=object)
        return np.linspace(a, b, int(n), **k)


class SympyModel(types.ModuleType):
    def __init__(self):
        super().__init__('sympy')

    def __getattr__(self, k):
        return getattr(sp, k)

    @staticmethod
    def lambdify(args, expr, *a, **k):
        return model_lambdify(args, expr, *a, **k)


_IDX = re.compile(r'^(\w+)\[(\d+)\]$')


class _Env(dict):
    def __missing__(self, k):
        m = _IDX.match(k)
        if m and m.group(1) in self:
            return self[m.group(1)][int(m.group(2))]
        raise KeyError(k)

    def __contains__(self, k):
        if dict.__contains__(self, k):
            return True
        m = _IDX.match(k)
        return bool(m) and dict.__contains__(self, m.group(1))


def model_lambdify(args, expr, *a, **k):
    """sympy.lambdify: the real call is made (it must succeed); the function returned
    evaluates the same expressions over symbolic numbers, with the functions that the caller
    puts behind names (modules given as dictionaries) where the generated code calls them."""
    real = sp.lambdify(args, expr, *a, **k)
    heads, missing = _heads(real, args, expr, a[0] if a else k.get('modules'))
    single = isinstance(args, (str, sp.Symbol))
    names = [str(i) for i in ([args] if single else args)]

    def ev(e, env):
        if isinstance(e, (list, tuple)):
            return type(e)([ev(i, env) for i in e])
        if isinstance(e, np.ndarray):
            return np.array([ev(i, env) for i in e], dtype=object)
        if isinstance(e, sp.MatrixBase):
            return np.array([[ev(i, env) for i in r] for r in e.tolist()], dtype=object)
        try:
            return V.evalexpr(e, env)
        except V.Unbound as u:
            raise NameError('name %r is not defined' % str(u))

    def f(*vals):
        if len(vals) != len(names):
            raise TypeError('_lambdifygenerated() takes %d positional arguments but %d were given' % (len(names), len(vals)))
        if missing:
            raise NameError('name %r is not defined' % missing[0])
        before, V.HEADS = V.HEADS, heads
        try:
            return ev(expr, _Env(zip(names, vals)))
        finally:
            V.HEADS = before
    return f


def _heads(real, args, expr, modules):
    """the callables given by name that the generated code really calls, and the names it uses that nothing defines"""
    import math, mpmath
    code = getattr(real, '__code__', None)
    if code is None:
        return {}, []
    known = {}
    for n, fn in (('min', V.fmin), ('max', V.fmax), ('abs', V.fabs_)):
        known[id(getattr(builtins, n))] = fn
    for n, fn in (('sin', V.fsin), ('cos', V.fcos), ('tan', V.ftan), ('exp', V.fexp), ('log', V.flog), ('sqrt', V.fsqrt)):
        for m in (math, np, mpmath):
            known[id(getattr(m, n))] = fn
    known[id(np.minimum)], known[id(np.maximum)] = V.fmin, V.fmax
    heads = {}
    for m in reversed(modules if isinstance(modules, (list, tuple)) else [modules]):
        if isinstance(m, dict):
            for n, fn in m.items():
                if n in code.co_names:
                    heads[n] = known.get(id(fn), fn)
    flat = [expr] if isinstance(expr, (str, sp.Basic, sp.MatrixBase)) else list(np.array(expr, dtype=object).flat)
    missing = [n for n in code.co_names if n not in real.__globals__ and not hasattr(builtins, n)]
    return heads, [n for n in missing if n in _applied(flat)]


def _applied(flat):
    """names of the functions applied in the expressions: only these may be missing (an attribute or a token is not a name)"""
    out = set()
    for e in flat:
        if isinstance(e, sp.Basic):
            out |= {V._head(i) for i in sp.preorder_traversal(e)} - {None}
    return out


def identity_jit(f=None, *a, **k):
    if f is None or not callable(f):
        return lambda g: g
    return f


NPM, SPM = NumpyModel(), SympyModel()
MODELS = {id(np): NPM, id(sp): SPM}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    return m


def _replace_globals(d):
    import numba
    fm = {id(np.array): NPM.array, id(np.asarray): NPM.asarray, id(np.linspace): NPM.linspace, id(sp.lambdify): SPM.lambdify,
          id(numba.jit): identity_jit, id(numba.njit): identity_jit}
    for k, v in list(d.items()):
        if v is np:
            d[k] = NPM
        elif v is sp:
            d[k] = SPM
        elif id(v) in fm:
            d[k] = fm[id(v)]


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != 'src' and not name.startswith('src.'):
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            sp_ = importlib.util.spec_from_loader(name, self, is_package=True)
            sp_.submodule_search_locations = [base]
            sp_.origin = f if os.path.exists(f) else None
            return sp_
        if os.path.exists(base + '.py'):
            s = importlib.util.spec_from_loader(name, self)
            s.origin = base + '.py'
            return s
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        spec = module.__spec__
        if spec.origin is None:
            return
        module.__file__ = spec.origin
        d = module.__dict__
        key = (spec.origin, SYMBOLIC)
        if key not in _code:
            src = open(spec.origin).read()
            tree = ast.parse(src, spec.origin)
            if SYMBOLIC:
                short = spec.name.replace('src.sloth.', '')
                tree = ast.fix_missing_locations(Rewrite(short).visit(tree))
            _code[key] = compile(tree, spec.origin, 'exec', dont_inherit=True)
        if SYMBOLIC:
            d.update(__sx_float__=sx_float, __sx_int__=sx_int, __sx_bool__=sx_bool, __sx_isinstance__=sx_isinstance, __sx_str__=sx_str, __sx_evalf__=sx_evalf,
                     __sx_type__=sx_type, __sx_mod__=sx_mod, __sx_is__=sx_is, __sx_eq__=sx_eq, __sx_ne__=sx_ne, __sx_isnot__=sx_isnot, __sx_enter__=sx_enter)
        exec(_code[key], d)
        if SYMBOLIC:
            _replace_globals(d)
        elif _cfg['numba'] == 'identity':
            import numba
            for k, v in list(d.items()):
                if v is numba.jit or v is numba.njit:
                    d[k] = identity_jit


FINDER = Finder()


def install():
    if FINDER not in sys.meta_path:
        sys.meta_path.insert(0, FINDER)
    stub_assimulo()


def stub_assimulo():
    if 'assimulo' in sys.modules:
        return
    try:
        import assimulo  # noqa
        return
    except ImportError:
        pass
    a = types.ModuleType('assimulo')
    p = types.ModuleType('assimulo.problem')
    s = types.ModuleType('assimulo.solvers')
    a.problem, a.solvers = p, s

    class Missing:
        def __init__(self, *a, **k):
            raise RuntimeError('assimulo is not installed')
    for m, ns in ((p, ['Explicit_Problem', 'Implicit_Problem']), (s, ['CVode', 'IDA'])):
        for n in ns:
            setattr(m, n, type(n, (Missing,), {}))
    sys.modules.update({'assimulo': a, 'assimulo.problem': p, 'assimulo.solvers': s})


def begin(symbolic, numba=None):
    """forget all modules of the system under test; next import is fresh"""
    global SYMBOLIC
    install()
    SYMBOLIC = symbolic
    _cfg['numba'] = numba or 'identity'
    for k in [k for k in sys.modules if k == 'src' or k.startswith('src.')]:
        del sys.modules[k]


def get(name):
    install()
    return importlib.import_module(name)
