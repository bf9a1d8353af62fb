"""Symbolic values: SymReal (rational function over z3 reals), SymBool, and the
"number algebra" (functions that act on SymReal and on plain Python floats alike)."""
import hashlib, math, numbers, re
from fractions import Fraction
import z3
import sympy as sp
from sympy.core.function import AppliedUndef

CUR = None          # the running symbolic context (None in concrete mode)


def set_current(ctx):
    global CUR
    CUR = ctx


class EngineLimit(Exception):
    """The encoding cannot represent this operation."""


ONE = z3.RealVal(1)


def const(x):
    """python/sympy/numpy number -> z3 numeral (floats by their shortest decimal)."""
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise EngineLimit('non-finite float constant')
        return z3.RealVal(str(nice_fraction(float(x))))
    if isinstance(x, numbers.Integral):
        return z3.RealVal(int(x))
    if isinstance(x, numbers.Real):
        return const(float(x))
    raise EngineLimit('not a number: %r' % (type(x),))


def nice_fraction(f):
    """The simplest rational whose double is f (1/3 for 0.333..., 1/10 for 0.1)."""
    fr = Fraction(f).limit_denominator(10 ** 6)
    if float(fr) == f:
        return fr
    return Fraction(repr(f))


def is_num(x):
    return isinstance(x, (int, float, Fraction)) or (isinstance(x, numbers.Real) and not isinstance(x, SymReal))


class Tok(sp.Symbol):
    """sympy stand-in for a SymReal that entered a sympy expression."""
    def __float__(self):
        return float(CUR.tok_value(self))

    def __int__(self):
        return int(CUR.tok_value(self))


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return CUR.decide(self.t)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.t
        if isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __eq__(self, o):
        t = self._o(o)
        if t is None:
            return False
        return SymBool(self.t == t)

    def __ne__(self, o):
        t = self._o(o)
        if t is None:
            return True
        return SymBool(self.t != t)

    def __and__(self, o):
        return SymBool(z3.And(self.t, self._o(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, self._o(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __hash__(self):
        return hash(bool(self))

    def __float__(self):
        return float(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return '<symbool>'


def lift(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymBool):
        return SymReal(z3.If(x.t, z3.RealVal(1), z3.RealVal(0)), kind='int')
    if is_num(x):
        return SymReal(const(x), kind='int' if isinstance(x, numbers.Integral) else 'float')
    if isinstance(x, sp.Basic) and x.is_number:
        return evalexpr(x, {})
    return None


class SymReal:
    __slots__ = ('n', 'd', 'kind')
    __array_priority__ = 1000

    def __init__(self, n, d=None, kind='float'):
        self.n = n
        self.d = d
        self.kind = kind

    # ---- helpers
    @property
    def den(self):
        return ONE if self.d is None else self.d

    def term(self):
        return self.n if self.d is None else self.n / self.d

    def conc(self):
        """Fraction if this is a numeral, else None"""
        if self.d is None:
            t = z3.simplify(self.n)
            if z3.is_rational_value(t):
                return Fraction(t.numerator_as_long(), t.denominator_as_long())
        return None

    def _k(self, o):
        return 'int' if self.kind == 'int' and o.kind == 'int' else 'float'

    def _bin(self, o, f, sf, swap=False):
        if isinstance(o, sp.Basic) and not o.is_number:
            a, b = self._sympy_(), o
            return sf(b, a) if swap else sf(a, b)
        o2 = lift(o)
        if o2 is None:
            return NotImplemented
        return f(o2, self) if swap else f(self, o2)

    @staticmethod
    def _add(a, b):
        k = a._k(b)
        if a.d is None and b.d is None:
            return SymReal(a.n + b.n, None, k)
        if a.d is not None and b.d is not None and a.d.eq(b.d):
            return SymReal(a.n + b.n, a.d, k)
        return SymReal(a.n * b.den + b.n * a.den, a.den * b.den, k)

    @staticmethod
    def _sub(a, b):
        return SymReal._add(a, SymReal(-b.n, b.d, b.kind))

    @staticmethod
    def _mul(a, b):
        d = None
        if a.d is not None or b.d is not None:
            d = a.den * b.den if (a.d is not None and b.d is not None) else (a.d if a.d is not None else b.d)
        return SymReal(a.n * b.n, d, a._k(b))

    @staticmethod
    def _div(a, b):
        if bool(SymBool(b.n == 0)):
            raise ZeroDivisionError('symbolic division by zero')
        n = a.n if b.d is None else a.n * b.d
        d = b.n if a.d is None else a.d * b.n
        return SymReal(n, d, 'float')

    def __add__(self, o): return self._bin(o, SymReal._add, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, SymReal._add, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, SymReal._sub, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, SymReal._sub, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, SymReal._mul, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, SymReal._mul, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._bin(o, SymReal._div, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, SymReal._div, lambda a, b: a / b, True)
    def __pow__(self, o): return self._bin(o, npow, lambda a, b: a ** b)
    def __rpow__(self, o): return self._bin(o, npow, lambda a, b: a ** b, True)
    def __neg__(self): return SymReal(-self.n, self.d, self.kind)
    def __pos__(self): return self
    def __abs__(self):
        return SymReal(z3.If(self.n >= 0, self.n, -self.n),
                       None if self.d is None else z3.If(self.d >= 0, self.d, -self.d), self.kind)

    # ---- comparisons
    def _cmp(self, o, f):
        b = lift(o)
        if b is None:
            return NotImplemented
        if self.d is None and b.d is None:
            return SymBool(f(self.n, b.n))
        s = self.den * b.den
        return SymBool(f(self.n * b.den * s, b.n * self.den * s))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, sp.Basic) and not o.is_number:
            return self._sympy_() == o
        b = lift(o)
        if b is None:
            return NotImplemented
        if self.d is None and b.d is None:
            return SymBool(self.n == b.n)
        return SymBool(self.n * b.den == b.n * self.den)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SymBool(z3.Not(r.t)) if isinstance(r, SymBool) else not r

    def __bool__(self):
        return CUR.decide(self.n != 0)

    # ---- C boundary: concretise (recorded)
    def __float__(self):
        return float(CUR.concretize(self, 'float()'))

    def __int__(self):
        return int(CUR.concretize(self, 'int()'))

    __index__ = None

    def __round__(self, n=None):
        r = rounded(self, n or 0)
        return SymReal(r.n, r.d, 'int') if n is None else r

    def __trunc__(self):
        t = self.term()
        return SymReal(z3.ToReal(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))), kind='int')

    def __floor__(self):
        return SymReal(z3.ToReal(z3.ToInt(self.term())), kind='int')

    def __ceil__(self):
        return SymReal(-z3.ToReal(z3.ToInt(-self.term())), kind='int')

    def rint(self): return rounded(self, 0)

    def __hash__(self):
        # structural: equal numerals hash alike, other terms by their canonical form
        c = self.conc()
        return hash(c) if c is not None else hash(token_name(self))

    # ---- numpy ufunc method protocol on object arrays
    def exp(self): return fexp(self)
    def sin(self): return fsin(self)
    def cos(self): return fcos(self)
    def tan(self): return ftan(self)
    def log(self): return flog(self)
    def log10(self): return flog10(self)
    def sqrt(self): return fsqrt(self)
    def conjugate(self): return self
    @property
    def real(self): return self
    def is_integer(self): return CUR.is_int(self)
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def item(self): return self

    def _sympy_(self):
        c = self.conc()
        if c is not None:
            return sp.Integer(c.numerator) if c.denominator == 1 and self.kind == 'int' else sp.Float(float(c))
        return CUR.token(self)

    def __str__(self):
        return CUR.label(self) if CUR is not None else '<sym>'
    __repr__ = __str__

    def __format__(self, spec):
        return str(formatted(self, spec))


numbers.Real.register(SymReal)

# ------------------------------------------------------------------ printing and rounding
_SPEC = re.compile(r'^[<>=^+\- #0,_]*\d*[,_]?(?:\.(\d+))?([a-zA-Z%]?)$')


def formatted(x, spec):
    """the number denoted by format(x, spec)"""
    m = _SPEC.match(spec)
    if not m:
        return x
    prec, t = m.group(1), m.group(2)
    prec = None if prec is None else int(prec)
    if t in ('f', 'F'):
        return rounded(x, 6 if prec is None else prec)
    if t in ('g', 'G', 'n') or (t == '' and prec is not None):
        return significant(x, 6 if prec is None else max(prec, 1))
    if t in ('e', 'E'):
        return significant(x, 7 if prec is None else prec + 1)
    if t == 'd':
        return x.__trunc__()
    return x


def percent(a, b):
    """a % b where a is text"""
    vals = b if isinstance(b, tuple) else (b,)
    if not isinstance(b, dict) and any(isinstance(v, (SymReal, Tok)) for v in vals):
        vals = [CUR.tok_value(v) if isinstance(v, Tok) else v for v in vals]
        out, it = [], iter(vals)
        for piece in re.split(r'(%[#0\- +]*(?:\*|\d*)(?:\.\d+)?[a-zA-Z%])', a):
            if piece == '%%':
                out.append('%')
            elif piece.startswith('%') and len(piece) > 1:
                v = next(it)
                if isinstance(v, SymReal):
                    out.append(str(v) if piece[-1] in 'sra' else format(v, re.sub(r'^[#0\- +]*\d*', '', piece[1:]).replace('i', 'd').replace('u', 'd')))
                else:
                    out.append(piece % v)
            else:
                out.append(piece)
        return ''.join(out)
    return a % b


def rounded(x, places):
    """nearest multiple of 10**-places"""
    t, k = _canon(x.term()), z3.RealVal(10 ** places) if places >= 0 else z3.Q(1, 10 ** -places)
    u = uf('places%d' % places)(t)
    CUR.axiom(z3.IsInt(u * k))
    CUR.axiom(z3.And(2 * k * (u - t) <= 1, 2 * k * (t - u) <= 1))
    return SymReal(u)


def significant(x, digits):
    """x rounded to so many significant digits (stated for 1e-9 <= |x| < 1e13)"""
    if digits >= 17:
        return x
    t = _canon(x.term())
    u = uf('digits%d' % digits)(t)
    CUR.axiom(z3.Implies(t == 0, u == 0))
    p10 = lambda e: z3.RealVal(str(Fraction(10) ** e))
    for e in range(-9, 13):
        a = z3.If(t >= 0, t, -t)
        k = p10(digits - 1 - e)
        CUR.axiom(z3.Implies(z3.And(p10(e) <= a, a < p10(e + 1)), z3.And(z3.IsInt(u * k), 2 * k * (u - t) <= 1, 2 * k * (t - u) <= 1)))
    return SymReal(u)


# ------------------------------------------------------------------ functions
_UF = {}


def uf(name, n=1):
    if (name, n) not in _UF:
        _UF[(name, n)] = z3.Function('f_' + name, *([z3.RealSort()] * (n + 1)))
    return _UF[(name, n)]


def _canon(t):
    """sum of monomials in a fixed order (z3's own order depends on term age)"""
    return _sorted(z3.simplify(t, som=True))


def _sorted(t):
    if z3.is_add(t) or z3.is_mul(t):
        cs = sorted([_sorted(c) for c in t.children()], key=lambda c: (not z3.is_rational_value(c), c.sexpr()))
        return z3.Sum(cs) if z3.is_add(t) else z3.Product(cs)
    return t


TOKS = {}           # token name -> the term it stands for (terms are context independent)


def token_name(x):
    key = '%s|%s|%s' % (_canon(x.n).sexpr(), '' if x.d is None else _canon(x.d).sexpr(), x.kind)
    name = 'sxv_' + hashlib.sha1(key.encode()).hexdigest()[:12]
    if name not in TOKS:
        TOKS[name] = SymReal(x.n, x.d, x.kind)
    return name


def _uf1(name, pyf):
    def f(x):
        x = _up(x)
        if isinstance(x, SymReal):
            return SymReal(uf(name)(_canon(x.term())))
        return pyf(float(x))
    f.__name__ = 'f' + name
    return f


fsin = _uf1('sin', math.sin)
fcos = _uf1('cos', math.cos)
ftan = _uf1('tan', math.tan)


def fexp(x):
    x = _up(x)
    if isinstance(x, SymReal):
        u = uf('exp')(_canon(x.term()))
        CUR.axiom(u > 0)
        return SymReal(u)
    return math.exp(float(x))


def flog(x):
    x = _up(x)
    if isinstance(x, SymReal):
        u = uf('log')(_canon(x.term()))
        c = x.conc()
        if c is not None and c > 0:
            CUR.axiom(u > 0 if c > 1 else (u < 0 if c < 1 else u == 0))
        return SymReal(u)
    return math.log(float(x))


def flog10(x):
    x = _up(x)
    if isinstance(x, SymReal):
        return flog(x) / flog(lift(10))
    return math.log10(float(x))


def npow(a, b):
    """a ** b on numbers / SymReals"""
    if CUR is not None and not isinstance(b, int):
        b = _up(b)
    if not isinstance(a, SymReal) and not isinstance(b, SymReal):
        return float(a) ** float(b) if not (isinstance(b, int) and b >= 0) else a ** b
    a, b = lift(a), lift(b)
    c = b.conc()
    if c is not None and c.denominator == 1 and abs(c) <= 12:
        n = int(c)
        r = SymReal(z3.RealVal(1), kind=a.kind)
        for _ in range(abs(n)):
            r = SymReal._mul(r, a)
        if n < 0:
            r = SymReal._div(SymReal(z3.RealVal(1)), r)
        else:
            r.kind = a.kind
        return r
    ca = a.conc()
    if ca == 1:
        return SymReal(z3.RealVal(1))
    if c is None:
        return pow_term(a, _canon(b.term()))
    if c < 0:
        return SymReal._div(SymReal(z3.RealVal(1)), npow(a, -c))
    whole = c.numerator // c.denominator
    c = c - whole
    ta = _canon(a.term())
    u = uf('pow', 2)(ta, z3.RealVal(str(c)))
    CUR.axiom(z3.Implies(ta > 0, u > 0))
    if c == Fraction(1, 2):
        CUR.axiom(z3.Implies(ta >= 0, z3.And(u >= 0, u * u == ta)))
    r = SymReal(u)
    return SymReal._mul(r, npow(a, whole)) if whole else r


def pow_term(a, tb):
    """a ** tb for a symbolic exponent: a**(b + k) is a**b * a**k for whole k > 0"""
    ta = _canon(a.term())
    nb = _canon(-tb)
    if (len(nb.sexpr()), nb.sexpr()) < (len(tb.sexpr()), tb.sexpr()):
        return SymReal._div(SymReal(ONE), pow_term(a, nb))
    if z3.is_add(tb):
        k = [t for t in tb.children() if z3.is_rational_value(t)]
        if len(k) == 1 and k[0].denominator_as_long() == 1 and 0 < abs(k[0].numerator_as_long()) <= 4:
            rest = [t for t in tb.children() if not z3.is_rational_value(t)]
            return SymReal._mul(pow_term(a, _canon(z3.Sum(rest))), npow(a, k[0].numerator_as_long()))
    u = uf('pow', 2)(ta, tb)
    CUR.axiom(z3.Implies(tb == 0, u == 1))
    CUR.axiom(z3.Implies(tb == 1, u == ta))
    CUR.axiom(z3.Implies(tb == 2, u == ta * ta))
    CUR.axiom(z3.Implies(z3.And(tb == -1, ta != 0), u * ta == 1))
    CUR.axiom(z3.Implies(ta > 0, u > 0))
    return SymReal(u)


def fsqrt(x):
    x = _up(x)
    if isinstance(x, SymReal):
        return npow(x, Fraction(1, 2))
    return math.sqrt(float(x))


def fabs_(x):
    return abs(x)


def fmin(*xs):
    if any(isinstance(x, SymReal) for x in xs):
        xs = [lift(x) for x in xs]
        r = xs[0]
        for x in xs[1:]:
            r = SymReal(z3.If((x < r).t, x.term(), r.term()))
        return r
    return min(float(x) for x in xs)


def fmax(*xs):
    if any(isinstance(x, SymReal) for x in xs):
        xs = [lift(x) for x in xs]
        r = xs[0]
        for x in xs[1:]:
            r = SymReal(z3.If((x > r).t, x.term(), r.term()))
        return r
    return max(float(x) for x in xs)


class Fn:
    exp, sin, cos, tan, log, log10, sqrt = fexp, fsin, fcos, ftan, flog, flog10, fsqrt
    abs, min, max, pow = fabs_, fmin, fmax, npow
    for _k in list(vars()):
        if not _k.startswith('_'):
            vars()[_k] = staticmethod(vars()[_k])


# ------------------------------------------------------------------ sympy -> value
class Unbound(Exception):
    """An expression mentions a symbol the environment does not bind."""


HEADS = {}   # functions that a call of lambdify puts behind printed names (see loader.model_lambdify)


def _head(e):
    """the name a function application is printed with"""
    for cls, n in ((sp.exp, 'exp'), (sp.log, 'log'), (sp.sin, 'sin'), (sp.cos, 'cos'), (sp.tan, 'tan'), (sp.Abs, 'abs'), (sp.Min, 'Min'), (sp.Max, 'Max')):
        if isinstance(e, cls):
            return n
    return type(e).__name__ if isinstance(e, AppliedUndef) else None


def evalexpr(e, env, derivs=None):
    """Value of `e` (number, SymReal, sympy expression) with symbols bound by name in env;
    Derivative(u, t) is looked up in derivs[(name_u, name_t)]."""
    if isinstance(e, SymReal) or is_num(e):
        return e
    if isinstance(e, str):
        e = sp.Symbol(e)
    if hasattr(e, 'item') and not isinstance(e, sp.Basic):
        return evalexpr(e.item(), env, derivs)
    if not isinstance(e, sp.Basic):
        if hasattr(e, '_mpf_') or hasattr(e, '__float__'):
            return float(e)
        raise Unbound('not an expression: %r' % (type(e),))

    def ev(x):
        return evalexpr(x, env, derivs)
    if HEADS and isinstance(e, sp.Basic) and _head(e) in HEADS:
        return HEADS[_head(e)](*[ev(a) for a in e.args])
    if isinstance(e, Tok):
        return CUR.tok_value(e)
    if isinstance(e, sp.Symbol):
        if e.name in env:
            return env[e.name]
        raise Unbound(e.name)
    if isinstance(e, sp.Integer):
        return int(e)
    if isinstance(e, sp.Rational):
        f = Fraction(int(e.p), int(e.q))
        return f if CUR is not None else float(f)
    if isinstance(e, sp.Float):
        return float(e)
    if e in (sp.zoo, sp.nan, sp.oo, -sp.oo):
        raise ZeroDivisionError('expression is %s' % e)
    if isinstance(e, sp.NumberSymbol):
        if CUR is not None and e is sp.E:
            return fexp(lift(1))
        return float(e)
    if isinstance(e, sp.Add):
        r = 0
        for a in e.args:
            r = ev(a) + r
        return r
    if isinstance(e, sp.Mul):
        r = 1
        for a in e.args:
            r = ev(a) * r
        return r
    if isinstance(e, sp.Pow):
        b, x = e.args
        if b is sp.E:
            return fexp(ev(x))
        return npow(ev(b), ev(x))
    if isinstance(e, sp.exp):
        return fexp(ev(e.args[0]))
    if isinstance(e, sp.log):
        r = flog(ev(e.args[0]))
        if len(e.args) > 1:
            r = r / flog(_up(ev(e.args[1])))
        return r
    for cls, f in ((sp.sin, fsin), (sp.cos, fcos), (sp.tan, ftan)):
        if isinstance(e, cls):
            return f(ev(e.args[0]))
    if isinstance(e, sp.Abs):
        return abs(ev(e.args[0]))
    if isinstance(e, sp.Min):
        return fmin(*[ev(a) for a in e.args])
    if isinstance(e, sp.Max):
        return fmax(*[ev(a) for a in e.args])
    if isinstance(e, AppliedUndef) and type(e).__name__ in ('Min', 'Max', 'Abs'):
        return {'Min': fmin, 'Max': fmax, 'Abs': fabs_}[type(e).__name__](*[ev(a) for a in e.args])
    if isinstance(e, sp.Derivative):
        u = e.args[0]
        ts = []
        for v in e.args[1:]:
            s, n = (v[0], v[1]) if isinstance(v, (tuple, sp.Tuple)) else (v, 1)
            ts += [str(s)] * int(n)
        key = (str(u),) + tuple(ts)
        if derivs is not None and key in derivs:
            return derivs[key]
        raise Unbound('Derivative%r' % (key,))
    raise Unbound('unsupported expression %s' % type(e).__name__)


def _up(x):
    return lift(x) if CUR is not None else x


def sameval(a, b, tol=1e-9):
    """SymBool/bool: a and b denote the same number."""
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        a, b = lift(a), lift(b)
        d = SymReal._sub(a, b)
        return SymBool(_canon(d.n) == 0)
    a, b = complex(a), complex(b)
    if a == b:
        return True
    if a != a or b != b:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
