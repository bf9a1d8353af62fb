"""Path-exploring symbolic executor for the Python code under /repo.

One *case* is a function `case(ctx)` that drives the real code through `ctx`.  The same
function is executed (a) symbolically - inputs are SymReal terms, every branch on one is a
solver query, every ctx.check is an assertion the solver decides for all values on that
path - and (b) concretely, on the untransformed modules with ordinary floats, to confirm
counterexamples and to validate each path's encoding with a witness."""
import contextlib, io, itertools, sys, time, traceback, os, re
from fractions import Fraction
import z3
import sympy as sp
from . import values as V
from .values import SymReal, SymBool, Tok, EngineLimit
from . import loader


class PathAbort(BaseException):
    """This path ends here (assumption infeasible / violation already recorded)."""


class TooManyPaths(Exception):
    pass


NICE = ['2', '3', '1/2', '5', '-3/2', '7', '5/4', '-2', '11', '3/4', '13', '-5', '1', '17/2', '-1/4', '0', '4', '-1', '10', '100']
ROUGH = ['1/10', '7/30', '13/11', '-3/10', '22/7', '5/3', '17/10', '-1/7', '23/9', '9/13']     # no float holds them exactly


class Base:
    symbolic = False

    def __init__(self):
        self.labels = {}
        self._patches, self._modules = [], []
        self.log = []
        self._fresh = 0
        self.reduced = 0        # > 0: harnesses narrow their wide inputs (see common.unit)

    def wide(self):
        """asked by a harness about to make a wide input: should it narrow it?"""
        return self.reduced > 0

    # -- modules of the system under test
    def mod(self, name):
        return loader.get('src.sloth.' + name)

    def ns(self, *mods):
        """merged public namespace of the modules"""
        class NS(object):
            pass
        o = NS()
        for m in mods:
            for k, v in vars(self.mod(m)).items():
                if not k.startswith('__'):
                    setattr(o, k, v)
        return o

    def patch(self, obj, attr, new):
        old = getattr(obj, attr, None)
        had = attr in getattr(obj, '__dict__', {}) or old is not None
        setattr(obj, attr, new)
        self._patches.append((obj, attr, old, had))

    def boundary(self, home, attr, new):
        """replace `home.attr` (home: name of a library module) by a stand-in, wherever the code under
        test holds a reference to it, under whatever name"""
        import importlib
        lib = importlib.import_module(home)
        real = getattr(lib, attr)
        for n, m in list(sys.modules.items()):
            if n.startswith('src.sloth'):
                for k, v in list(vars(m).items()):
                    if v is real:
                        self.patch(m, k, new)
        self.patch(lib, attr, new)

    def boundary_module(self, name, new):
        """the same for a whole library module"""
        import importlib
        real = importlib.import_module(name)
        for n, m in list(sys.modules.items()):
            if n.startswith('src.sloth'):
                for k, v in list(vars(m).items()):
                    if v is real:
                        self.patch(m, k, new)
        if '.' in name:
            self.patch(sys.modules[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], new)
        self._modules.append((name, real))
        sys.modules[name] = new

    def unpatch(self):
        for name, real in reversed(self._modules):
            sys.modules[name] = real
        self._modules = []
        for obj, attr, old, had in reversed(self._patches):
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self._patches = []

    def reals(self, *names, **k):
        return [self.real(n, **k) for n in names]

    def raised(self, f, *a, **k):
        """Run f; the exception it raised or None."""
        try:
            f(*a, **k)
            return None
        except Exception as e:
            if isinstance(e, EngineLimit) or self._engine_error():
                raise
            return e

    def expect_raises(self, label, f, *names):
        """f must raise (an exception whose class name is in names, if given)"""
        e = self.raised(f)
        if e is None:
            return self.check(label, False, 'no exception raised')
        ok = not names or any(type(c) and c.__name__ in names for c in type(e).__mro__)
        return self.check(label, ok, 'raised %s: %s' % (type(e).__name__, str_safe(e)))

    def _engine_error(self):
        return False

    def value(self, e, env, derivs=None):
        return V.evalexpr(e, env, derivs)

    def same(self, a, b):
        return V.sameval(a, b)

    def check_same(self, label, a, b, exact=False):
        """a, b: thunks or values; Unbound symbols in an expression falsify the check.
        exact: no rounding allowance in concrete runs (values that are passed on, not computed)."""
        try:
            a = a() if callable(a) else a
            b = b() if callable(b) else b
            r = V.sameval(a, b) if self.symbolic or not exact else a == b
        except V.Unbound as e:
            return self.check(label, False, 'unbound symbol %s' % e)
        return self.check(label, r, None if self.symbolic else '%s vs %s' % (a, b))

    def all(self, conds):
        r = True
        for c in conds:
            if isinstance(c, SymBool):
                r = c if r is True else (r & c if isinstance(r, SymBool) else r)
            elif not c:
                return False
        return r

    fn = V.Fn


def str_safe(e):
    try:
        return str(e)
    except Exception:
        return '<unprintable>'


class Violation(BaseException):
    def __init__(self, label, detail):
        super().__init__('%s: %s' % (label, detail))
        self.label, self.detail = label, detail


class ConcCtx(Base):
    """Plain concrete run on given inputs."""
    symbolic = False

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.reduced = int(inputs.get('__reduced', 0))
        self.violations = []

    def real(self, name, kind='float', **k):
        v = self.inputs.get(name)
        if v is None:
            v = 2.0 if kind == 'float' else 2
        f = Fraction(v) if not isinstance(v, float) else v
        return int(f) if kind == 'int' else float(f)

    def fresh(self, hint='v', kind='float'):
        self._fresh += 1
        return self.real('%s!%d' % (hint, self._fresh), kind)

    def choice(self, name, options):
        i = self.inputs.get(name, 0)
        return options[int(Fraction(i))]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        if not c:
            raise PathAbort('assumption fails')

    def define(self, c):
        pass

    def check(self, label, cond, detail=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            self.violations.append((label, detail or 'check is false'))
            raise Violation(*self.violations[-1])
        return True


class SymCtx(Base):
    symbolic = True

    def __init__(self, ex, prefix):
        super().__init__()
        self.ex = ex
        self.prefix = prefix
        self.trace = []          # decisions taken
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.timeout_ms)
        self.inputs = {}         # name -> (z3 const, kind)
        self.tokens = {}
        self.label_map = {}
        self.incomplete = []
        self.axioms = set()
        self.fp_known = {}
        self.unknown = 0
        self.limit = None
        self.model_cache = None
        self.reduced = ex.reduced
        self.lossy = False       # a value went through a format that does not keep it

    def stored(self, x, digits):
        """x kept in a format of so many significant bits"""
        self.lossy = True
        t = V.lift(x).term()
        r = z3.FreshReal('stored')
        e = z3.If(t >= 0, t, -t) * z3.RealVal('1/%d' % 2 ** digits)
        self._add(r <= t + e)
        self._add(r >= t - e)
        return V.SymReal(r, None, 'float')

    def wide(self):
        self.ex.reducible = True
        return self.reduced > 0

    # -- inputs
    def real(self, name, kind='float', lo=None, hi=None):
        if name in self.inputs:
            c = self.inputs[name][0]
        else:
            if kind == 'int':
                c = z3.Int(name)
                self.inputs[name] = (c, 'int')
            else:
                c = z3.Real(name)
                self.inputs[name] = (c, 'float')
        t = z3.ToReal(c) if kind == 'int' else c
        if lo is not None:
            self._add(t >= V.const(lo))
        if hi is not None:
            self._add(t <= V.const(hi))
        return SymReal(t, None, kind)

    def fresh(self, hint='v', kind='float'):
        self._fresh += 1
        return self.real('%s!%d' % (hint, self._fresh), kind)

    def choice(self, name, options):
        """a symbolic selector: one path per option"""
        if len(options) == 1:
            return options[0]
        c = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = (c, 'choice')
            self._add(z3.And(c >= 0, c < len(options)))
        for i in range(len(options) - 1):
            if self.decide(c == i):
                return options[i]
        return options[-1]

    def flag(self, name):
        return self.choice(name, [False, True])

    # -- solver plumbing
    def _add(self, t):
        self.solver.add(t)
        self.model_cache = None

    def axiom(self, t):
        k = t.get_id()
        if k not in self.axioms:
            self.axioms.add(k)
            self._keep = getattr(self, '_keep', [])
            self._keep.append(t)
            self._add(t)

    def sat(self, *assumps):
        t0 = time.time()
        r = self.solver.check(*assumps)
        self.ex.stats['solver_s'] += time.time() - t0
        self.ex.stats['queries'] += 1
        if r == z3.unknown:
            r = self.retry(assumps)
        return r

    def retry(self, assumps):
        """second opinion on a fresh non-incremental nlsat-capable solver"""
        for mk in (lambda: z3.Solver(), lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.SolverFor('QF_UFNRA')):
            t0 = time.time()
            try:
                s = mk()
                s.set('timeout', self.ex.timeout_ms * 3)
                for a in self.solver.assertions():
                    s.add(a)
                for a in assumps:
                    s.add(a)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.ex.stats['solver_s'] += time.time() - t0
            self.ex.stats['queries'] += 1
            if r != z3.unknown:
                if r == z3.sat:
                    self.last_model = s.model()
                return r
        return z3.unknown

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            k = None
            rt = self.sat(t)
            rf = self.sat(z3.Not(t)) if rt != z3.unsat else z3.sat
            if rt == z3.unknown or rf == z3.unknown:
                self.unknown += 1
                self.ex.note('unknown branch')
            if rt != z3.unsat and rf != z3.unsat:
                b = True
                self.ex.push(self.trace + [False])
                self.ex.stats['branches'] += 1
            else:
                b = rt != z3.unsat
        self.trace.append(b)
        if len(self.trace) > self.ex.max_depth:
            raise EngineLimit('branch depth')
        self._add(t if b else z3.Not(t))
        return b

    def assume(self, c):
        if isinstance(c, SymBool):
            self._add(c.t)
            if self.sat() == z3.unsat:
                raise PathAbort('infeasible')
        elif not c:
            raise PathAbort('infeasible')

    def define(self, c):
        """a stub contract: constrains values the environment returned"""
        if isinstance(c, SymBool):
            self._add(c.t)

    def check(self, label, cond, detail=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.ex.stats['obligations'] += 1
        if isinstance(cond, SymBool):
            t = z3.simplify(cond.t)
            r = self.sat(z3.Not(t))
            if r == z3.unsat:
                self.ex.stats['discharged'] += 1
                self.ex.stats['discharged_by_solver'] += 1
                self._add(t)
                return True
            if r == z3.unknown:
                self.ex.unknown_check(self, label, z3.Not(t))
                self._add(t)
                return True
            self.ex.candidate(self, label, z3.Not(t), detail)
            # continue under the assumption that it held, if possible
            if self.sat(t) == z3.unsat:
                raise PathAbort('violated')
            self._add(t)
            return False
        if cond:
            self.ex.stats['discharged'] += 1
            return True
        self.ex.candidate(self, label, z3.BoolVal(True), detail)
        raise PathAbort('violated')

    # -- services for values.py
    def _model(self):
        if self.model_cache is None:
            if self.sat() != z3.sat:
                raise EngineLimit('no model')
            self.model_cache = self.solver.model()
        return self.model_cache

    def concretize(self, x, why):
        c = x.conc()
        if c is None:
            v = self._model().eval(x.term(), model_completion=True)
            if not z3.is_rational_value(v):
                raise EngineLimit('cannot concretise')
            c = Fraction(v.numerator_as_long(), v.denominator_as_long())
            if self.sat(x.term() != v) != z3.unsat:     # otherwise this is its only value
                self.incomplete.append(why)
            self._add(x.term() == v)
            self.model_cache = None
        if x.kind == 'int' or c.denominator == 1 and x.kind == 'int':
            return int(c)
        return float(c)

    def token(self, x):
        name = V.token_name(x)
        if name not in self.tokens:
            self.tokens[name] = Tok(name, real=True)
        return self.tokens[name]

    def tok_value(self, tok):
        return V.TOKS[tok.name]

    def label(self, x):
        c = x.conc()
        if c is not None:
            return str(int(c)) if x.kind == 'int' else str(float(c))
        t = self.token(x)
        self.label_map[t.name] = x
        return t.name

    def is_int(self, x):
        if x.kind == 'int':
            return True
        c = x.conc()
        if c is not None:
            return c.denominator == 1
        return SymBool(z3.IsInt(x.term()))

    def _engine_error(self):
        return self.limit is not None

    def model_inputs(self, extra=(), salt=0):
        """A model of the path (and extra) with small, distinct, exactly representable inputs."""
        s = z3.Solver()
        s.set('timeout', 1500)
        for a in self.solver.assertions():
            s.add(a)
        for a in extra:
            s.add(a)
        r = s.check()
        if r != z3.sat:
            s = z3.Tactic('qfnra-nlsat').solver()
            s.set('timeout', 4000)
            for a in self.solver.assertions():
                s.add(a)
            for a in extra:
                s.add(a)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.sat:
                return None
            m = s.model()
            return self._read(m)
        s.set('timeout', 300)
        names = [n for n, (c, k) in self.inputs.items() if k != 'choice']
        pool = ROUGH if self.lossy else NICE
        m = s.model()
        for j, n in enumerate(names):
            c, k = self.inputs[n]
            for q in range(4):
                v = pool[(j + salt * 7 + q * 5) % len(pool)]
                if k == 'int' and '/' in v:
                    continue
                cv = z3.IntVal(v) if k == 'int' else z3.RealVal(v)
                s.push()
                s.add(c == cv)
                if s.check() == z3.sat:
                    m = s.model()
                    break
                s.pop()
        return self._read(m)

    def _read(self, m):
        out = {'__reduced': str(self.reduced)} if self.reduced else {}
        for n, (c, k) in self.inputs.items():
            v = m.eval(c, model_completion=True)
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            if z3.is_int_value(v):
                out[n] = str(v.as_long())
            else:
                out[n] = '%d/%d' % (v.numerator_as_long(), v.denominator_as_long())
        return out


class Explorer:
    """Explores all paths of one case."""

    def __init__(self, case, timeout_ms=10000, max_paths=4000, max_depth=400, budget_s=600, witness='all', known=(), patience=None):
        self.case = case
        self.patience = patience     # () -> seconds the full-width exploration may take; None: no narrowing
        self.reduced = 0
        self.reducible = False
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.budget_s = budget_s
        self.witness = witness
        self.stats = dict(solver_s=0.0, queries=0, branches=0, obligations=0, discharged=0,
                          discharged_by_solver=0, paths=0, aborted=0, witnesses=0)
        self.work = []
        self.violations = []     # confirmed: dict(label, inputs, detail)
        self.unconfirmed = []
        self.unknown = []
        self.incomplete = {}
        self.notes = {}
        self.labels = {}
        self.samples = []
        self.errors = []
        self._cands = []

    def note(self, k):
        self.notes[k] = self.notes.get(k, 0) + 1

    def push(self, prefix):
        self.work.append(prefix)

    def unknown_check(self, ctx, label, neg):
        self.unknown.append(label)

    def candidate(self, ctx, label, neg, detail):
        if any(v['label'] == label for v in self.violations):
            return
        models = []
        for salt in range(3):
            m = ctx.model_inputs((neg,), salt)
            if m is not None and m not in models:
                models.append(m)
        self._cands.append((label, models, detail))

    def run(self):
        t0 = t1 = time.time()
        self.work = [[]]
        base = 0
        while self.work:
            n = self.stats['paths'] + self.stats['aborted'] - base
            if self.reducible and not self.reduced and self.patience and not self.violations and (n >= self.max_paths or time.time() - t0 > self.patience()):
                # the code branches on every one of the wide inputs: explore the narrowed ones completely instead
                self.reduced, self.work, base, t0 = 1, [[]], self.stats['paths'] + self.stats['aborted'], time.time()
                self.incomplete['narrowed inputs (the code branches too often on the full width)'] = 1
                continue
            if n >= self.max_paths or time.time() - t0 > self.budget_s:
                done = self.stats['paths'] - base
                why = 'path/time budget exhausted after %d paths (%d pending)' % (self.stats['paths'], len(self.work))
                if done >= 500:
                    self.incomplete[why] = 1      # held on everything explored, which is less than everything within the bounds
                else:
                    self.errors.append(why)
                break
            self.one(self.work.pop())
            if len(self.violations) >= 3:
                break
        self.stats['wall_s'] = time.time() - t1
        return self

    def one(self, prefix):
        ctx = SymCtx(self, prefix)
        self._cands = []
        V.set_current(ctx)
        loader.begin(symbolic=True)
        done = False
        crash = None
        try:
            with quiet():
                self.case(ctx)
            done = True
        except PathAbort:
            self.stats['aborted'] += 1
        except EngineLimit as e:
            self.incomplete['engine limit: %s' % e] = self.incomplete.get('engine limit: %s' % e, 0) + 1
            crash = ('engine', e)
        except RecursionError as e:
            crash = ('exc', e)
        except Exception as e:
            crash = ('exc', e)
            self.tb = traceback.format_exc()
        finally:
            ctx.unpatch()
            V.set_current(ctx)
        for w in ctx.incomplete:
            self.incomplete[w] = self.incomplete.get(w, 0) + 1
        for k, n in ctx.labels.items():
            self.labels[k] = self.labels.get(k, 0) + n
        try:
            if self._cands:
                self.confirm(ctx)
            if crash is not None:
                self.handle_crash(ctx, crash)
            elif done:
                self.stats['paths'] += 1
                if not self._cands and self.witness == 'all' or (isinstance(self.witness, int) and self.stats['witnesses'] < self.witness):
                    self.run_witness(ctx)
        finally:
            V.set_current(None)

    def confirm(self, ctx):
        for label, models, detail in self._cands:
            ok = False
            for m in models:
                r = concrete(self.case, m)
                if r is not None and r[0] == 'violation':
                    self.violations.append(dict(label=r[1], inputs=m, detail=r[2]))
                    ok = True
                    break
            if not ok:
                self.unconfirmed.append(dict(label=label, inputs=models[:1], detail=str(detail)))

    def handle_crash(self, ctx, crash):
        kind, e = crash
        for salt in range(3):
            try:
                m = ctx.model_inputs((), salt)
            except Exception:
                m = None
            if m is None:
                continue
            r = concrete(self.case, m)
            if r is not None and r[0] == 'violation':
                self.violations.append(dict(label=r[1], inputs=m, detail=r[2]))
                return
            self.stats['witnesses'] += 1
        if kind == 'exc':
            k = 'symbolic-only %s: %s' % (type(e).__name__, str_safe(e)[:200])
            self.incomplete[k] = self.incomplete.get(k, 0) + 1
            if os.environ.get('SX_DEBUG'):
                sys.stderr.write(self.tb)

    def run_witness(self, ctx):
        m = ctx.model_inputs((), self.stats['paths'])
        if m is None:
            self.note('no witness model')
            return
        r = concrete(self.case, m)
        self.stats['witnesses'] += 1
        if len(self.samples) < 3:
            self.samples.append(m)
        if r is None:
            return
        if r[0] == 'violation':
            self.violations.append(dict(label=r[1], inputs=m, detail='(found by the path witness) ' + str(r[2])))
        elif r[0] == 'abort':
            self.note('witness left its path')


def _extreme(inputs):
    for x in inputs.values():
        try:
            if abs(Fraction(str(x))) > 50:
                return True
        except (ValueError, ZeroDivisionError):
            pass
    return False


def concrete(case, inputs):
    """Run the case on the plain, untransformed code. None | ('violation', label, detail) | ('abort',)"""
    prev = V.CUR
    V.set_current(None)
    ctx = ConcCtx(inputs)
    loader.begin(symbolic=False)
    try:
        with quiet():
            case(ctx)
        # (the code under test may have swallowed it)
        return ('violation', *ctx.violations[0]) if ctx.violations else None
    except Violation as e:
        return ('violation', *ctx.violations[0])
    except PathAbort:
        return ('abort',)
    except Exception as e:
        if ctx.violations:
            return ('violation', *ctx.violations[0])
        tb = traceback.extract_tb(e.__traceback__)
        if isinstance(e, (OverflowError, ZeroDivisionError)) and os.path.basename(tb[-1].filename) == 'values.py':
            return ('abort',)       # the chosen point is outside the range of double arithmetic
        if isinstance(e, OverflowError) and _extreme(inputs):
            return ('abort',)       # likewise, with plain numbers inside the code under test
        where = [f for f in tb if '/repo/' in f.filename or 'sloth' in f.filename]
        loc = where[-1] if where else tb[-1]
        return ('violation', 'no-unexpected-exception', '%s: %s at %s:%s' % (type(e).__name__, str_safe(e)[:300], os.path.basename(loc.filename), loc.lineno))
    finally:
        ctx.unpatch()
        V.set_current(prev)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = _Null()
    try:
        yield
    finally:
        sys.stdout = old
