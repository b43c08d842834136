"""Meaning of the library functions the code calls (assumed contracts on dependencies).
Anything not listed here raises Unsupported (the function is then outside the verifier's reach)."""
import builtins
import types
import copy as _copy
from fractions import Fraction
from . import terms as tm
from . import arrays as ar
from .terms import T, S, lift, num, add, sub, mul, div, ite, le, lt, eq, band, bor, bnot, Unsupported, K
from .arrays import A1, M2, SList, asA1, is_scalar, val, concat, lam, extremum, argext, asum, dot
from .core import E_, PathEnd


class Rec:
    """absorbs plotting / file-system calls"""

    def __init__(self, name="rec"):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Rec(self._name + "." + k)

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        return Rec(self._name + "()")

    def __getitem__(self, k):
        return Rec(self._name + "[]")

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter([Rec(self._name + "[i]"), Rec(self._name + "[i]")])

    def __deepcopy__(self, memo):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class World:
    """recorded interaction with the outside: ODE solver calls, files, random draws"""

    def reset(self):
        self.ode, self.files, self.dirs, self.draws, self.loads, self.interps, self.vals = [], [], [], [], [], [], []
        self.patch = {}


W = World()
W.reset()


# ------------------------------------------------------------------ elementwise
def elem(f):
    def g(x, *a, **k):
        k.pop("dtype", None)
        if k:
            raise Unsupported("keyword %s" % list(k))
        if isinstance(x, (list, tuple)):
            x = np_array(x)
        if isinstance(x, (A1, M2)):
            return x.map(lambda e: f(val(e)))
        if isinstance(x, SList):
            return x.arr().map(lambda e: f(val(e)))
        if type(x).__name__ == "ndarray":
            return np_array(x.tolist()).map(lambda e: f(val(e)))
        if not is_scalar(x):
            raise Unsupported("function of %s" % type(x).__name__)
        return f(val(x))
    return g


def elem2(f):
    def g(x, y, **k):
        if k:
            raise Unsupported("keyword %s" % list(k))
        if isinstance(x, (list, tuple)):
            x = np_array(x)
        if isinstance(y, (list, tuple)):
            y = np_array(y)
        if isinstance(x, A1):
            return x._bin(y, lambda a, b: f(val(a), val(b)))
        if isinstance(y, A1):
            return y._bin(x, lambda a, b: f(val(a), val(b)), True)
        if isinstance(x, M2) or isinstance(y, M2):
            raise Unsupported("2-d elementwise")
        return f(val(x), val(y))
    return g


def sfn(name):
    return lambda x: S(tm.fn(name, tm.toreal(tm.asnum(lift(x)))))


HALF = num(Fraction(1, 2), "R")


def s_sqrt(x):
    return S(tm.power(tm.toreal(lift(x)), HALF))


def s_sin(x):
    t = lift(x)
    if tm.isnum(t) and tm.nv(t) == 0:
        return S(num(0, "R"))
    return S(tm.fn("sin", tm.toreal(t)))


def s_cos(x):
    t = lift(x)
    if tm.isnum(t) and tm.nv(t) == 0:
        return S(num(1, "R"))
    return S(tm.fn("cos", tm.toreal(t)))


def s_sign(x):
    t = lift(x)
    return S(ite(lt(num(0), t), num(1, "R"), ite(lt(t, num(0)), num(-1, "R"), num(0, "R"))))


def s_max(a, b):
    a, b = lift(a), lift(b)
    return S(ite(lt(a, b), b, a))


def s_min(a, b):
    a, b = lift(a), lift(b)
    return S(ite(lt(b, a), b, a))


def s_floor(x):
    t = lift(x)
    if t.sort == "I":
        return S(t)
    if tm.isnum(t):
        return S(num(tm.nv(t).__floor__()))
    return S(tm.mk("floor", (t,), "I"))


def s_ceil(x):
    return -s_floor(-val(x))


def s_int(x):
    """int(): truncation toward zero"""
    t = lift(x)
    if t is None:
        return builtins.int(x)
    if t.sort == "B":
        return S(ite(t, num(1), num(0)))
    if t.sort == "I":
        return int(tm.nv(t)) if tm.isnum(t) else S(t)
    if tm.isnum(t):
        return int(tm.nv(t))
    k = E_.entailed(le(num(0), t))
    if k is True:
        return s_floor(S(t))
    return S(ite(le(num(0), t), lift(s_floor(S(t))), lift(s_ceil(S(t)))))


RAD = S(div(tm.PI, num(180)))
DEG = S(div(num(180), tm.PI))


def np_array(x, dtype=None, copy=None, **k):
    if isinstance(x, (A1,)):
        return x.copy()
    if isinstance(x, M2):
        return x
    if isinstance(x, SList):
        return x.arr()
    if isinstance(x, SRange):
        return A1(x.n, lambda i: S(add(x.a, i)))
    if type(x).__name__ == "ndarray":
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        if any(isinstance(e, (list, tuple, A1)) for e in x):
            rows = [np_array(e) for e in x]
            if any(isinstance(r, M2) for r in rows):
                raise Unsupported("3-d array")
            return M2(rows=rows)
        if all(is_scalar(e) for e in x):
            return A1(0, items=[val(e) for e in x])
        if all(isinstance(e, str) for e in x):
            return list(x)
        raise Unsupported("array of objects")
    if is_scalar(x):
        return val(x)
    raise Unsupported("array of %s" % type(x).__name__)


def shape_arg(n):
    if isinstance(n, (tuple, list)):
        if len(n) == 1:
            return shape_arg(n[0])
        raise Unsupported("2-d allocation")
    return ar.nterm(n)


def filled(v):
    def f(n, *a, **k):
        if isinstance(n, (tuple, list)) and len(n) == 2:
            r, c = [ar.nterm(x) for x in n]
            if tm.isnum(r) and tm.isnum(c):
                return M2(rows=[A1(c, lambda i: v) for _ in range(int(tm.nv(r)))])
        return A1(shape_arg(n), lambda i: v)
    return f


ZERO, ONE = K("0"), K("1")


def np_full(n, v, **k):
    return A1(shape_arg(n), lambda i: val(v))


def np_linspace(a, b, n=50, endpoint=True, **k):
    n = ar.nterm(n)
    a, b = val(a), val(b)
    den = sub(n, num(1)) if endpoint else n
    return A1(n, lambda i: a + (b - a) * S(div(tm.toreal(i), tm.toreal(den))) if not (tm.isnum(i) and tm.nv(i) == 0)
              else a + K("0"))


def np_arange(*a, **k):
    k.pop("dtype", None)
    if len(a) == 1:
        a = (0,) + a
    step = val(a[2]) if len(a) > 2 else val(k.get("step", 1))
    st, en = val(a[0]), val(a[1])
    if lift(st).sort == "I" and lift(en).sort == "I" and lift(step).sort == "I":
        if tm.isnum(lift(step)) and tm.nv(lift(step)) == 1:
            n = sub(lift(en), lift(st))
        else:
            n = lift(s_ceil((en - st) / step))
    else:
        n = lift(s_ceil((en - st) / step))
    if not tm.isnum(n):
        pos = E_.entailed(le(num(0), n))
        if pos is not True:
            n = ite(le(num(0), n), n, num(0))
    elif tm.nv(n) < 0:
        n = num(0)
    zero = tm.isnum(lift(st)) and tm.nv(lift(st)) == 0
    return A1(n, (lambda i: S(tm.mul(i, lift(step)))) if zero else (lambda i: st + S(tm.mul(i, lift(step)))))


def np_concatenate(parts, axis=0, **k):
    if isinstance(parts, (A1,)):
        raise Unsupported("concatenate")
    return concat(list(parts))


def np_append(a, v, axis=None):
    r = concat([a, v])
    if isinstance(a, A1) and is_scalar(v):
        r.grown = (a, [v])
    return r


def np_delete(a, k, axis=None):
    a = asA1(a)
    if tm.isnum(ar.nterm(k)) and tm.nv(ar.nterm(k)) == 0:
        r = a[1:]
        r.view = False
        return r
    if tm.isnum(ar.nterm(k)) and tm.nv(ar.nterm(k)) == -1:
        r = a[:-1]
        r.view = False
        return r
    raise Unsupported("delete at a general index")


def np_insert(a, k, v, axis=None):
    a = asA1(a)
    if tm.isnum(ar.nterm(k)) and tm.nv(ar.nterm(k)) == 0:
        return concat([v, a])
    raise Unsupported("insert at a general index")


def np_cross(a, b, **k):
    a, b = asA1(a), asA1(b)
    if a.items is None or b.items is None or len(a.items) != 3 or len(b.items) != 3:
        raise Unsupported("cross product of non-3-vectors")
    x, y = a.items, b.items
    return A1(0, items=[x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]])


def np_norm(v, ord=None, axis=None, keepdims=False):
    if ord is not None and ord != 2 or axis is not None:
        raise Unsupported("norm with ord/axis")
    if is_scalar(v):
        return abs(val(v))
    v = asA1(np_array(v))
    return s_sqrt(asum(v * v))


def np_where(c, *ab):
    if len(ab) != 2:
        raise Unsupported("where without values")
    a, b = ab
    if isinstance(c, A1):
        c2 = c.copy()
        f = []
        for x in (a, b):
            if isinstance(x, (A1, list)):
                x = asA1(x).copy()
                ar.same_len(c2.n, x.n)
                f.append(x.t)
            else:
                f.append(lambda i, x=x: lift(x))
        return A1(c2.n, lambda i: S(ite(c2.t(i), f[0](i), f[1](i))))
    ct = lift(c)
    if is_scalar(a) and is_scalar(b):
        return S(ite(ct, lift(a), lift(b)))
    raise Unsupported("where")


def np_clip(x, lo, hi, **k):
    f = lambda e: (lambda y: s_min(y, val(hi)) if hi is not None else y)(s_max(val(e), val(lo)) if lo is not None else val(e))
    return elem(f)(x)


def np_outer(a, b):
    a, b = asA1(a), asA1(b)
    return M2(rows=[A1(0, items=[x * y for y in b.items]) for x in a.items])


def np_stack_rows(parts, axis=0):
    if axis != 0:
        raise Unsupported("stack axis")
    return np_array(list(parts))


def np_trapz(y, x=None, dx=1, **k):
    y = asA1(y)
    if x is None:
        raise Unsupported("trapz without x")
    c = cumtrapz(y, x, initial=0)
    return c[-1]


def cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = asA1(y)
    if x is None:
        d = val(dx)
        x = A1(y.n, lambda i: S(tm.mul(tm.toreal(i), lift(d))))
    x = asA1(x)
    ar.same_len(y.n, x.n)
    if bool(S(tm.lt(y.n, num(1)))):
        raise ValueError("At least one point is required along `axis`.")
    if initial is not None and bool(val(initial) != 0):
        raise ValueError("`initial` must be `None` or `0`.")
    ys, xs = y.copy(), x.copy()
    if ys.items is not None and xs.items is not None:
        acc, out = val(0), []
        for k in range(1, len(ys.items)):
            acc = acc + (xs.items[k] - xs.items[k - 1]) * (ys.items[k] + ys.items[k - 1]) / 2
            out.append(acc)
        return A1(0, items=([val(initial)] if initial is not None else []) + out)
    ly, lx = lam(lambda i: ys.at(i)), lam(lambda i: xs.at(i))
    # ctz(k): trapezoidal integral from sample 0 to sample k; ctz(0) = 0
    g = lambda i: (S(num(0, "R")) if tm.isnum(i) and tm.nv(i) == 0 else S(tm.app("cumtrapz", (ly, lx, i))))
    if initial is None:
        return A1(sub(ys.n, num(1)), lambda i: g(add(i, num(1))))
    ini = val(initial)

    def h(i):
        if tm.isnum(i):
            return ini if tm.nv(i) == 0 else g(i)
        if E_.known(lt(num(0), i)) or (not E_.has_bound(i) and E_.entailed(lt(num(0), i))):
            return g(i)
        return S(ite(eq(i, num(0)), tm.toreal(lift(ini)), lift(g(i))))
    return A1(ys.n, h)


class Interp:
    """scipy interp1d: an uninterpreted function of the tabulated data inside the table's range,
    `fill` outside; linear interpolation of a constant table is computed exactly"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        self.x, self.y = asA1(np_array(x)).copy(), asA1(np_array(y)).copy()
        ar.same_len(self.x.n, self.y.n)
        self.kind, self.bounds_error, self.fill_value = kind, bounds_error, fill_value
        W.interps.append(self)
        if isinstance(fill_value, str):
            self.lo = self.hi = None
            self.extra = fill_value
        else:
            self.extra = None
            if isinstance(fill_value, tuple):
                self.lo, self.hi = val(fill_value[0]), val(fill_value[1])
            else:
                self.lo = self.hi = val(fill_value) if fill_value is not None else None
        self.key = None

    def __deepcopy__(self, memo):
        return self

    def bounds(self):
        return lift(extremum(self.x, False)), lift(extremum(self.x, True))

    def _key(self):
        if self.key is None:
            self.key = (lam(lambda i: self.x.at(i)), lam(lambda i: self.y.at(i)), self.x.n)
        return self.key

    def inner(self, q):
        xs, ys = self.x.items, self.y.items
        if self.kind == "linear" and xs is not None and all(tm.isnum(lift(e)) for e in xs):
            pts = sorted(zip([tm.nv(lift(e)) for e in xs], [lift(e) for e in ys]), key=lambda p: p[0])
            r = None
            for (x0, y0), (x1, y1) in reversed(list(zip(pts, pts[1:]))):
                seg = add(y0, mul(sub(y1, y0), mul(num(1 / (x1 - x0), "R"), sub(q, num(x0, "R")))))
                r = seg if r is None else ite(lt(q, num(x1, "R")), seg, r)
            return r
        a, b, n = self._key()
        return tm.app("interp_" + str(self.kind), (a, b, n, q))

    def one(self, q):
        q = tm.toreal(lift(q))
        r = self.inner(q)
        if self.extra == "extrapolate":
            return S(r)
        if self.lo is None:
            if self.bounds_error is False:
                raise Unsupported("NaN fill")
            E_.notes.add("interp1d raises outside its table")
            return S(r)
        lo, hi = self.bounds()
        return S(ite(lt(q, lo), tm.toreal(lift(self.lo)), ite(lt(hi, q), tm.toreal(lift(self.hi)), r)))

    def __call__(self, q):
        if isinstance(q, (list, tuple)):
            q = np_array(q)
        if isinstance(q, A1):
            return q.map(self.one)
        return self.one(q)


def np_interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = asA1(np_array(xp)), asA1(np_array(fp))
    f = Interp(xp, fp, fill_value=(left if left is not None else fp[0], right if right is not None else fp[-1]),
               bounds_error=False)
    return f(x)


def np_loadtxt(fname, *a, **k):
    if k.get("usecols") is not None:
        raise Unsupported("loadtxt usecols")
    W.loads.append(fname)
    nm = str(fname)
    n, m = tm.var("rows:" + nm, "I"), tm.var("cols:" + nm, "I")
    E_.assume(band(le(num(2), n), le(num(1), m)))
    mat = M2(n=n, m=m, f=lambda i, j: S(tm.app("table:" + nm, (i, j))))
    if k.get("unpack"):
        return mat.T
    return mat


def np_savetxt(fname, data, *a, **k):
    if isinstance(data, (list, tuple)):
        data = np_array(data) if not any(isinstance(e, A1) for e in data) else [e.copy() for e in data]
    W.files.append((fname, data.copy() if isinstance(data, A1) else data))


class NpRandom:
    def normal(self, loc=0.0, scale=1.0, size=None):
        k = len(W.draws)
        W.draws.append(("normal", loc, scale, size))
        nm = "gauss%d" % k
        if size is None:
            v = val(loc) + val(scale) * S(tm.var(nm))
            W.vals.append((k, v))
            return v
        return A1(shape_arg(size), lambda i: val(loc) + val(scale) * S(tm.app(nm, (i,))))

    def seed(self, *a):
        return None

    def __getattr__(self, k):
        raise Unsupported("numpy.random.%s" % k)


class PyRandom:
    def _draw(self, kind, *a):
        k = len(W.draws)
        W.draws.append((kind,) + a)
        return k

    def choice(self, seq):
        k = self._draw("choice", seq)
        if isinstance(seq, (list, tuple)) and not all(is_scalar(e) for e in seq):
            # an arbitrary element of a list of objects: branch over it
            for e in seq[:-1]:
                if E_.choose():
                    W.draws[k] = ("choice", seq, e)
                    W.vals.append((k, e))
                    return e
            W.draws[k] = ("choice", seq, seq[-1])
            W.vals.append((k, seq[-1]))
            return seq[-1]
        arr = asA1(seq)
        i = tm.var("choice%d" % k, "I")
        E_.assume(band(le(num(0), i), lt(i, arr.n)))
        W.vals.append((k, arr.at(i)))
        return arr.at(i)

    def randint(self, a, b):
        k = self._draw("randint", a, b)
        i = tm.var("randint%d" % k, "I")
        E_.assume(band(le(lift(a), i), le(i, lift(b))))
        W.vals.append((k, S(i)))
        return S(i)

    def gauss(self, mu, s):
        k = self._draw("normal", mu, s, None)
        v = val(mu) + val(s) * S(tm.var("gauss%d" % k))
        W.vals.append((k, v))
        return v
    normalvariate = gauss

    def seed(self, *a):
        return None

    def __getattr__(self, k):
        raise Unsupported("random.%s" % k)


# ------------------------------------------------------------------ ODE solvers
def _ode_rows(k, n, y0, width):
    for j in range(width):
        E_.assume(eq(tm.app("ode%d_%d" % (k, j), (num(0),)), tm.toreal(lift(y0[j]))))
    return lambda i, j: S(tm.app("ode%d_%d" % (k, int(tm.nv(j))), (i,)))


def odeint(func, y0, t, args=(), rtol=None, atol=None, **kw):
    t = asA1(t)
    y0 = list(y0) if not isinstance(y0, A1) else list(y0.items)
    k = len(W.ode)
    W.ode.append(dict(kind="odeint", fun=lambda tt, yy: func(yy, tt, *args) if not kw.get("tfirst") else func(tt, yy, *args),
                      y0=y0, t=t.copy(), args=args, rtol=rtol, atol=atol,
                      events=None, kw={x: v for x, v in kw.items() if x != "tfirst"}))
    f = _ode_rows(k, t.n, y0, len(y0))
    W.ode[k]["y"] = [A1(t.n, lambda i, j=j: f(i, num(j))) for j in range(len(y0))]
    W.ode[k]["tout"] = t.copy()
    return M2(n=t.n, m=num(len(y0)), f=f)


class OdeResult:
    pass


def solve_ivp(fun, t_span, y0, method="RK45", t_eval=None, dense_output=False, events=None, vectorized=False, args=None,
              **kw):
    y0 = list(y0) if not isinstance(y0, A1) else list(y0.items)
    args = args or ()
    k = len(W.ode)
    if t_eval is None:
        raise Unsupported("solve_ivp without t_eval")
    t = asA1(t_eval)
    W.ode.append(dict(kind="solve_ivp", fun=lambda tt, yy: fun(tt, yy, *args), y0=y0, t=t.copy(), t_span=t_span,
                      args=args, rtol=kw.get("rtol"), atol=kw.get("atol"), events=events, method=method, kw=kw))
    r = OdeResult()
    m = tm.var("odelen%d" % k, "I")
    E_.assume(band(le(num(1), m), le(m, t.n)))
    f = _ode_rows(k, m, y0, len(y0))
    ts = t.copy()
    r.t = A1(m, lambda i: ts.at(i))
    W.ode[k]["y"] = [A1(m, lambda i, j=j: f(i, num(j))) for j in range(len(y0))]
    W.ode[k]["tout"] = A1(m, lambda i: ts.at(i))
    r.y = M2(n=num(len(y0)), m=m, f=lambda i, j: f(j, i))
    r.status, r.success = 0, True
    return r


# ------------------------------------------------------------------ builtins
class SRange:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = lift(a), lift(b), step

    @property
    def n(self):
        return sub(self.b, self.a)

    def slen(self):
        return S(self.n)


def b_range(*a):
    if len(a) == 1:
        a = (0,) + a
    ts = [lift(x) for x in a]
    if any(t is None for t in ts):
        return builtins.range(*a)
    if all(tm.isnum(t) for t in ts):
        return builtins.range(*[int(tm.nv(t)) for t in ts])
    if len(a) == 3 and not (tm.isnum(ts[2]) and tm.nv(ts[2]) == 1):
        raise Unsupported("range step")
    return SRange(a[0], a[1])


class SEnum:
    def __init__(self, x, start=0):
        self.x, self.start = x, start


class SZip:
    def __init__(self, xs):
        self.xs = xs


def symbolic_iter(x):
    if isinstance(x, SRange):
        return True
    if isinstance(x, A1):
        return x.items is None
    if isinstance(x, SList):
        return symbolic_iter(x.arr())
    if isinstance(x, M2):
        return not tm.isnum(x.n)
    if isinstance(x, SEnum):
        return symbolic_iter(x.x)
    if isinstance(x, SZip):
        return any(symbolic_iter(e) for e in x.xs)
    return False


def iter_len(x):
    if isinstance(x, SEnum):
        return iter_len(x.x)
    if isinstance(x, SZip):
        ns = [iter_len(e) for e in x.xs]
        for m in ns[1:]:
            ar.same_len(ns[0], m)
        return ns[0]
    if isinstance(x, SRange):
        return x.n
    if isinstance(x, (A1, M2)):
        return x.n
    if isinstance(x, SList):
        return x.arr().n
    if isinstance(x, (list, tuple)):
        return num(len(x))
    raise Unsupported("iteration")


def iter_at(x, i):
    if isinstance(x, SEnum):
        return (S(add(i, lift(x.start))) if not (tm.isnum(lift(x.start)) and tm.nv(lift(x.start)) == 0) else S(i),
                iter_at(x.x, i))
    if isinstance(x, SZip):
        return tuple(iter_at(e, i) for e in x.xs)
    if isinstance(x, SRange):
        return S(add(x.a, i)) if not (tm.isnum(x.a) and tm.nv(x.a) == 0) else S(i)
    if isinstance(x, A1):
        return x.at(i)
    if isinstance(x, SList):
        return x.arr().at(i)
    if isinstance(x, M2):
        return x[S(i)]
    return asA1(x).at(i)


def b_enumerate(x, start=0):
    if symbolic_iter(x):
        return SEnum(x, start)
    return builtins.enumerate(x, start)


def b_zip(*xs, **k):
    if any(symbolic_iter(x) for x in xs):
        return SZip(xs)
    return builtins.zip(*xs)


def b_len(x):
    if hasattr(x, "slen"):
        return x.slen()
    return builtins.len(x)


def b_max(*a, **k):
    if k:
        return builtins.max(*a, **k)
    if len(a) == 1:
        a = a[0]
        if isinstance(a, (A1, SList)):
            return extremum(asA1(a), True)
        a = list(a)
    if any(isinstance(x, S) for x in a):
        r = val(a[0])
        for x in a[1:]:
            r = s_max(r, val(x))
        return r
    return builtins.max(a)


def b_min(*a, **k):
    if k:
        return builtins.min(*a, **k)
    if len(a) == 1:
        a = a[0]
        if isinstance(a, (A1, SList)):
            return extremum(asA1(a), False)
        a = list(a)
    if any(isinstance(x, S) for x in a):
        r = val(a[0])
        for x in a[1:]:
            r = s_min(r, val(x))
        return r
    return builtins.min(a)


def b_sum(x, start=0):
    if isinstance(x, (A1, SList)):
        return asum(asA1(x)) + start
    r = val(start) if is_scalar(start) else start
    for e in x:
        r = r + e
    return r


class b_float(float):
    def __new__(cls, x=0.0):
        if isinstance(x, str):
            return K(x) if x.strip().lower() not in ("nan", "inf", "-inf", "infinity") else builtins.float(x)
        if isinstance(x, A1):
            if x.items is not None and len(x.items) == 1:
                return b_float(x.items[0])
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        t = lift(x)
        if t is None:
            return builtins.float(x)
        return S(tm.toreal(tm.asnum(t)))


class b_int(int):
    def __new__(cls, x=0, *a):
        if isinstance(x, str) or a:
            return builtins.int(x, *a)
        return s_int(x)


def b_isinstance(x, cls):
    cl = cls if isinstance(cls, tuple) else (cls,)
    cl = tuple({b_float: float, b_int: int}.get(c, c) for c in cl)
    if isinstance(x, S):
        import numbers
        t = x.t
        for c in cl:
            if c in (float, numbers.Real, numbers.Number) and t.sort != "B":
                return True
            if c in (int, numbers.Integral) and t.sort == "I":
                return True
            if c is bool and t.sort == "B":
                return True
        return S in cl
    if isinstance(x, A1):
        return any(c in (A1, NdarrayMarker) for c in cl)
    return builtins.isinstance(x, cl)


class NdarrayMarker:
    pass


def b_list(x=()):
    if isinstance(x, (A1, SList)) and symbolic_iter(x):
        s = SList(asA1(x).copy())
        return s
    return builtins.list(x)


def b_round(x, n=None):
    if isinstance(x, S):
        if tm.isnum(x.t):
            f = tm.nv(x.t)
            return S(num(builtins.round(f, n or 0)))
        raise Unsupported("round() of a symbolic value")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_any(x):
    if isinstance(x, A1):
        if x.items is not None:
            return S(bor(*[lift(e) for e in x.items]))
        raise Unsupported("any() over a symbolic array")
    r = False
    for e in x:
        r = bor(lift(r), lift(e)) if isinstance(e, S) or isinstance(r, T) else (r or e)
        if isinstance(r, T):
            r = S(r)
    return r


def b_all(x):
    if isinstance(x, A1):
        if x.items is not None:
            return S(band(*[lift(e) for e in x.items]))
        src = x.copy()
        raise Unsupported("all() over a symbolic array")
    ts = [lift(e) for e in x]
    return S(band(*ts))


def b_print(*a, **k):
    return None


def dv(a, b):
    """true division; exact on literals"""
    if isinstance(a, (int, float)) and not isinstance(a, bool) and isinstance(b, (int, float)):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return S(lift(a)) / S(lift(b))
    return a / b


def b_pow(a, b):
    if isinstance(a, int) and isinstance(b, S):
        return S(lift(a)) ** b
    return a ** b


def b_map(f, *xs):
    if len(xs) == 1 and symbolic_iter(xs[0]):
        x = xs[0]
        return A1(iter_len(x), lambda i: f(iter_at(x, i)))
    return builtins.map(f, *xs)


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=b_len, range=b_range, max=b_max, min=b_min, sum=b_sum, float=b_float, int=b_int,
                isinstance=b_isinstance, enumerate=b_enumerate, zip=b_zip, list=b_list, round=b_round,
                any=b_any, all=b_all, print=b_print, pow=b_pow, map=b_map)


class NS:
    def __init__(self, name, real=None, **k):
        self.__dict__.update(k)
        self.__name__ = name
        self._real = real

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        real = self._real
        if real is not None:
            try:
                import importlib
                m = importlib.import_module(real)
                if not hasattr(m, k):
                    raise AttributeError("module '%s' has no attribute '%s'" % (real, k))
            except ImportError:
                pass
        raise Unsupported("%s.%s" % (self.__name__, k))


def mk_numpy():
    u = {}
    for nm in ("exp", "log", "log10", "log2", "arccos", "arcsin", "arctan", "sinh", "cosh", "tanh", "arcsinh", "arctanh",
               "arccosh"):
        u[nm] = elem(sfn(nm))
    u["sin"], u["cos"] = elem(s_sin), elem(s_cos)
    u["tan"] = elem(lambda x: S(tm.fn("tan", tm.toreal(lift(x)))))
    u["sqrt"] = elem(s_sqrt)
    u["cbrt"] = elem(lambda x: x ** Fraction(1, 3))
    u["abs"] = u["absolute"] = u["fabs"] = elem(abs)
    u["sign"] = elem(s_sign)
    u["floor"], u["ceil"] = elem(lambda x: S(tm.toreal(lift(s_floor(x))))), elem(lambda x: S(tm.toreal(lift(s_ceil(x)))))
    u["square"] = elem(lambda x: x * x)
    u["negative"] = elem(lambda x: -x)
    u["deg2rad"] = u["radians"] = elem(lambda x: x * RAD)
    u["rad2deg"] = u["degrees"] = elem(lambda x: x * DEG)
    u["isnan"] = u["isinf"] = elem(lambda x: S(tm.FALSE))
    u["isfinite"] = elem(lambda x: S(tm.TRUE))
    u["arctan2"] = elem2(lambda a, b: S(tm.fn("arctan2", tm.toreal(lift(a)), tm.toreal(lift(b)))))
    u["maximum"], u["minimum"] = elem2(s_max), elem2(s_min)
    u["power"] = u["float_power"] = elem2(lambda a, b: a ** b)
    u["add"], u["subtract"] = elem2(lambda a, b: a + b), elem2(lambda a, b: a - b)
    u["multiply"] = elem2(lambda a, b: a * b)
    u["divide"] = u["true_divide"] = elem2(lambda a, b: a / b)
    u["hypot"] = elem2(lambda a, b: s_sqrt(a * a + b * b))
    u["mod"] = u["remainder"] = elem2(lambda a, b: a % b)
    u["logical_and"] = elem2(lambda a, b: a & b)
    u["logical_or"] = elem2(lambda a, b: a | b)
    u["logical_not"] = elem(lambda a: ~a)
    inv = {"acos": "arccos", "asin": "arcsin", "atan": "arctan", "atan2": "arctan2"}
    u.update(pi=S(tm.PI), e=None, array=np_array, asarray=np_array, asfarray=np_array, ascontiguousarray=np_array,
             atleast_1d=lambda x: x if isinstance(x, (A1, M2)) else asA1(np_array(x if isinstance(x, (list, tuple)) else [x])),
             copy=lambda x: x.copy() if isinstance(x, A1) else np_array(x),
             zeros=filled(ZERO), ones=filled(ONE), empty=filled(ZERO), full=np_full,
             zeros_like=lambda x, **k: filled(ZERO)(asA1(x).n), ones_like=lambda x, **k: filled(ONE)(asA1(x).n),
             empty_like=lambda x, **k: filled(ZERO)(asA1(x).n), full_like=lambda x, v, **k: np_full(asA1(x).n, v),
             linspace=np_linspace, arange=np_arange, concatenate=np_concatenate, append=np_append, delete=np_delete,
             hstack=np_concatenate, insert=np_insert, vstack=np_stack_rows, stack=np_stack_rows,
             cross=np_cross, dot=dot, matmul=dot, inner=dot, vdot=dot, outer=np_outer,
             transpose=lambda x: x.T, where=np_where, clip=np_clip,
             max=lambda x, **k: extremum(x, True), min=lambda x, **k: extremum(x, False),
             amax=lambda x, **k: extremum(x, True), amin=lambda x, **k: extremum(x, False),
             argmax=lambda x, **k: argext(x, True), argmin=lambda x, **k: argext(x, False),
             sum=lambda x, **k: asum(np_array(x)), mean=lambda x, **k: asum(np_array(x)) / S(tm.toreal(asA1(np_array(x)).n)),
             average=lambda x, **k: asum(np_array(x)) / S(tm.toreal(asA1(np_array(x)).n)),
             trapz=np_trapz, trapezoid=np_trapz, interp=np_interp, loadtxt=np_loadtxt, genfromtxt=np_loadtxt,
             savetxt=np_savetxt,
             random=NpRandom(), ndarray=NdarrayMarker, float64=b_float, any=b_any, all=b_all,
             errstate=lambda **k: Rec("errstate"), seterr=lambda **k: None, newaxis=None,
             linalg=NS("numpy.linalg", "numpy.linalg", norm=np_norm))
    u["float32"] = b_float
    u["int64"] = u["int32"] = b_int
    u["nan"] = float("nan")
    u["inf"] = float("inf")
    for a, b in inv.items():
        u[a] = u[b]
    ns = NS("numpy", "numpy", **u)
    ns.fft = None
    return ns


NUMPY = mk_numpy()
_m = {k: getattr(NUMPY, k) for k in ("sin", "cos", "tan", "exp", "log", "log10", "log2", "sqrt", "sinh", "cosh", "tanh", "pi",
                                     "hypot", "fabs", "degrees", "radians")}
_m.update(acos=NUMPY.arccos, asin=NUMPY.arcsin, atan=NUMPY.arctan, atan2=NUMPY.arctan2, asinh=NUMPY.arcsinh,
          atanh=NUMPY.arctanh, acosh=NUMPY.arccosh,
          floor=s_floor, ceil=s_ceil, pow=lambda a, b: val(a) ** val(b), copysign=lambda a, b: S(ite(le(num(0), lift(b)), tm.absolute(lift(a)), tm.neg(tm.absolute(lift(a))))),
          isnan=lambda x: False, inf=float("inf"), isclose=lambda a, b, **k: S(eq(lift(a), lift(b))))
MATH = NS("math", "math", **_m)
INTEGRATE = NS("scipy.integrate", None, odeint=odeint, solve_ivp=solve_ivp, cumulative_trapezoid=cumtrapz,
               cumtrapz=cumtrapz, trapezoid=np_trapz, trapz=np_trapz)
INTERPOLATE = NS("scipy.interpolate", None, interp1d=Interp)


class Optimize:
    def __getattr__(self, k):
        h = W.patch.get("optimize." + k)
        if h is not None:
            return h
        raise Unsupported("scipy.optimize.%s" % k)


OPTIMIZE = Optimize()
SCIPY = NS("scipy", None, integrate=INTEGRATE, interpolate=INTERPOLATE, optimize=OPTIMIZE)
RANDOM = PyRandom()


class OsPath:
    def __getattr__(self, k):
        import os
        return getattr(os.path, k)


class OsShim:
    path = OsPath()

    def makedirs(self, p, *a, **k):
        W.dirs.append(p)

    mkdir = makedirs

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("os.%s" % k)


class CopyShim:
    deepcopy = staticmethod(_copy.deepcopy)
    copy = staticmethod(_copy.copy)


PLT = Rec("plt")
MPL = Rec("matplotlib")
MPL.__dict__["pyplot"] = PLT
MPL.__dict__["rcParams"] = Rec("rcParams")


class Patched:
    """a module whose members are supplied by the contract (c.external)"""

    def __init__(self, name):
        self._n = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        nm = self._n + "." + k

        class _Late:
            def __call__(s, *a, **kw):
                f = W.patch.get(nm)
                if f is None:
                    raise Unsupported(nm)
                return f(*a, **kw)

            def __getattr__(s, q):
                if q.startswith("__"):
                    raise AttributeError(q)
                f = W.patch.get(nm)
                if f is None:
                    return Rec(nm + "." + q)
                return getattr(f, q)
        return _Late()


MODULES = {"numpy": NUMPY, "numpy.linalg": NUMPY.linalg, "math": MATH, "scipy": SCIPY, "scipy.integrate": INTEGRATE,
           "scipy.interpolate": INTERPOLATE, "scipy.optimize": OPTIMIZE, "random": RANDOM, "os": OsShim(), "os.path": OsPath(),
           "copy": CopyShim(), "matplotlib": MPL, "matplotlib.pyplot": PLT,
           "pandas": Patched("pandas"), "astropy.coordinates": Patched("astropy.coordinates"),
           "astropy.time": Patched("astropy.time"), "astropy": Patched("astropy")}
