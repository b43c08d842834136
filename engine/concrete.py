"""Concrete mode of the contract API: the same contracts executed on the real, unmodified code (run under the
project's own interpreter).  Used to replay the verifier's counterexamples, as a cross-check of the symbolic
semantics, and as the labelled bounded stand-in for functions outside the verifier's reach.

    python -m engine.concrete            # JSON lines in, JSON lines out
    python -m engine.concrete FILE.json  # replay one file
"""
import hashlib
import importlib
import inspect
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings
from .base import REG, Common, Reject, load_all

REPO = os.environ.get("AMAT_REPO", "/repo")


class Rec:
    def __init__(self, name="rec"):
        self.__dict__["_name"] = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Rec(self._name + "." + k)

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        return Rec(self._name + "()")

    def __getitem__(self, k):
        return Rec(self._name)

    def __setitem__(self, k, v):
        pass

    def __iter__(self):
        return iter([Rec(self._name), Rec(self._name)])

    def __deepcopy__(self, m):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class World:
    def reset(self):
        self.ode, self.files, self.dirs, self.draws, self.loads, self.interps, self.vals = [], [], [], [], [], [], []
        self.patch = {}


W = World()
W.reset()
np = None
MODS = {}


def setup():
    """import the real code from the working tree, with plotting disabled"""
    global np
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import numpy
    np = numpy
    np.seterr(all="ignore")
    d = os.path.join(REPO, "AMAT")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            m = importlib.import_module("AMAT." + f[:-3])
            assert os.path.abspath(m.__file__).startswith(os.path.abspath(REPO)), m.__file__
            MODS[f[:-3]] = m
    import matplotlib
    import matplotlib.pyplot as plt
    for m in MODS.values():
        for k, v in list(vars(m).items()):
            if v is plt or v is matplotlib:
                setattr(m, k, Rec("plt"))


def h01(*a):
    d = hashlib.sha256(repr(a).encode()).digest()
    return int.from_bytes(d[:7], "big") / float(1 << 56)


class Fn:
    """seeded smooth function standing for an arbitrary one"""

    def __init__(self, name, arity, lo, hi, scale, seed, sign=False):
        self.name, self.arity, self.sign = name, arity, sign
        self.lo, self.hi = lo, hi
        self.w = [(0.6 + 2.0 * h01(name, seed, "w", k)) / scale for k in range(arity)]
        self.p = 6.28 * h01(name, seed, "p")
        self.nargs = arity

    def __call__(self, *a):
        if len(a) != self.arity:
            raise TypeError(self.name)
        z = self.p
        for x, w in zip(a, self.w):
            z = z + (np.asarray(x, dtype=float) if isinstance(x, (list, np.ndarray)) else x) * w
        s = np.sin(z)
        if self.sign:
            r = np.where(s >= 0, 1.0, -1.0)
            return float(r) if np.ndim(r) == 0 else r
        r = self.lo + (self.hi - self.lo) * (0.5 + 0.5 * s)
        return float(r) if np.ndim(r) == 0 else r

    def __deepcopy__(self, m):
        return self


def ode_solution(k, t, y0, seed):
    n = len(t)
    out = np.zeros((n, len(y0)))
    for j in range(len(y0)):
        w = 0.5 + 3.0 * h01("ode", seed, k, j)
        a = 0.02 + 0.1 * h01("odea", seed, k, j)
        u = np.arange(n) / max(1.0, n - 1.0)
        out[:, j] = float(y0[j]) * (1 + a * np.sin(w * u * 3)) + 0.3 * a * np.sin(w * u * 2) * (0.02 if j == 0 else 1)
    return out


def fake_odeint(func, y0, t, args=(), rtol=None, atol=None, **kw):
    t = np.array(t, dtype=float)
    y0 = [float(v) for v in y0]
    k = len(W.ode)
    tf = kw.pop("tfirst", False)
    W.ode.append(dict(kind="odeint", fun=(lambda tt, yy: func(tt, yy, *args)) if tf else (lambda tt, yy: func(yy, tt, *args)),
                      y0=y0, t=t, args=args, rtol=rtol, atol=atol, events=None, kw=kw))
    y = ode_solution(k, t, y0, W.seed)
    W.ode[k]["y"], W.ode[k]["tout"] = [y[:, j].copy() for j in range(len(y0))], t.copy()
    return y


class OdeResult:
    pass


def fake_solve_ivp(fun, t_span, y0, method="RK45", t_eval=None, dense_output=False, events=None, vectorized=False,
                   args=None, **kw):
    t = np.array(t_eval, dtype=float)
    y0 = [float(v) for v in y0]
    args = args or ()
    k = len(W.ode)
    W.ode.append(dict(kind="solve_ivp", fun=lambda tt, yy: fun(tt, yy, *args), y0=y0, t=t, t_span=t_span, args=args,
                      rtol=kw.get("rtol"), atol=kw.get("atol"), events=events, method=method, kw=kw))
    m = len(t) if h01("odelen", W.seed, k) < 0.5 else max(1, int(len(t) * h01("odelen2", W.seed, k)))
    y = ode_solution(k, t, y0, W.seed)[:m]
    r = OdeResult()
    W.ode[k]["y"], W.ode[k]["tout"] = [y[:, j].copy() for j in range(len(y0))], t[:m].copy()
    r.t, r.y, r.status, r.success = t[:m], y.T.copy(), 0, True
    r.t_events, r.y_events = [], []
    return r


def fake_savetxt(fname, data, *a, **k):
    if isinstance(data, (list, tuple)):
        data = [np.array(e) for e in data] if any(isinstance(e, np.ndarray) for e in data) else np.array(data)
    W.files.append((fname, np.array(data) if isinstance(data, np.ndarray) else data))


def fake_loadtxt(fname, *a, **k):
    W.loads.append(fname)
    nm = str(fname)
    n, m = 6 + int(6 * h01("rows", nm, W.seed)), 6
    t = np.array([[0.5 + h01("table", nm, W.seed, i, j) for j in range(m)] for i in range(n)])
    t[:, 0] = np.cumsum(t[:, 0])
    if k.get("unpack"):
        return t.T
    return t


def fake_makedirs(p, *a, **k):
    W.dirs.append(p)


def fake_choice(seq):
    k = len(W.draws)
    e = seq[int(h01("choice", W.seed, k) * len(seq))]
    W.draws.append(("choice", seq, e))
    W.vals.append((k, e))
    return e


def fake_randint(a, b):
    k = len(W.draws)
    W.draws.append(("randint", a, b))
    W.vals.append((k, a + int(h01("randint", W.seed, k) * (b - a + 1))))
    return W.vals[-1][1]


def gval(k, i=0):
    return math.sqrt(-2 * math.log(max(1e-9, h01("g", W.seed, k, i)))) * math.cos(6.283 * h01("g2", W.seed, k, i))


def fake_gauss(mu=0.0, sigma=1.0):
    k = len(W.draws)
    W.draws.append(("normal", mu, sigma, None))
    W.vals.append((k, mu + sigma * gval(k)))
    return mu + sigma * gval(k)


def fake_normal(loc=0.0, scale=1.0, size=None):
    k = len(W.draws)
    W.draws.append(("normal", loc, scale, size))
    if size is None:
        W.vals.append((k, loc + scale * gval(k)))
        return loc + scale * gval(k)
    return np.array([loc + scale * gval(k, i) for i in range(int(size))])


class Ghost:
    pass


class Failed(Exception):
    pass


class Conc(Common):
    mode = "conc"
    sym = False

    def __init__(self, con, seed, over, hint=False):
        self.contract, self.seed, self.over, self.hint = con, seed, over or {}, hint
        self.np, self.pi = np, math.pi
        self.rnd = random.Random("%s/%s" % (con.name, seed))
        self.vars, self.viol, self.n = {}, [], 0
        self.undo = []
        self.W = W
        self.cnt = 0

    # ---------------------------------------------------------------- inputs
    def cls(self, mod, name):
        return getattr(MODS[mod], name)

    def mod(self, name):
        return MODS[name]

    def _val(self, name, draw):
        if name not in self.vars:
            if name in self.over:
                self.vars[name] = self.over[name]
            else:
                self.vars[name] = draw()
        return self.vars[name]

    def real(self, name, lo=-1.0, hi=1.0):
        return float(self._val(name, lambda: self.rnd.uniform(lo, hi)))

    def pos(self, name, lo=0.1, hi=10.0):
        def d():
            if lo > 0 and hi / lo > 100:
                return math.exp(self.rnd.uniform(math.log(lo), math.log(hi)))
            return self.rnd.uniform(lo, hi)
        v = float(self._val(name, d))
        if not v > 0:
            raise Reject(name)
        return v

    def rng(self, name, lo, hi, strict=False):
        lo, hi = float(lo), float(hi)
        v = float(self._val(name, lambda: self.rnd.uniform(lo, hi)))
        if not (lo <= v <= hi) or strict and not (lo < v < hi):
            raise Reject(name)
        return v

    def int(self, name, lo, hi):
        v = int(self._val(name, lambda: self.rnd.randint(lo, hi)))
        if v < lo or v > hi:
            raise Reject(name)
        return v

    def boolean(self, name):
        return bool(self._val(name, lambda: self.rnd.random() < 0.5))

    def pick(self, name, options):
        n = "$" + name
        if n in self.over and isinstance(self.over[n], int):
            i = self.over[n]
        else:
            # walk through the options first, then random
            i = self.seed % len(options) if len(self.picks()) == 0 else self.rnd.randrange(len(options))
        self.vars[n] = i
        return options[i]

    name = pick

    def picks(self):
        return [k for k in self.vars if k.startswith("$")]

    def array(self, name, lo=0.0, hi=1.0, n=None, minlen=1, positive=False, increasing=False):
        if n is None:
            n = self.int("len_" + name, minlen, max(minlen, 9))
        k = self.over.get("%stretch")
        if k:
            from .evalnum import wide
            lo, hi = wide((lo, hi), k)
        a = np.array([lo + (hi - lo) * h01(name, self.seed, i) for i in range(int(n))])
        if increasing:
            a = np.sort(a) + np.arange(len(a)) * (hi - lo) * 1e-3
        return a

    def vec3(self, name, scale=1.0):
        return np.array([self.real("%s_%s" % (name, k), -scale, scale) for k in "xyz"])

    def vec(self, items):
        return np.array(items)

    def fun(self, name, arity=1, lo=0.0, hi=1.0, scale=1.0, facts=None):
        return Fn(name, arity, lo, hi, scale, self.seed)

    def signfun(self, name, scale=1.0, lo=0.0, hi=1.0):
        return Fn(name, 1, lo, hi, scale, self.seed, sign=True)

    def require(self, cond):
        if not cond:
            raise Reject("precondition")
    given = require

    def fresh(self, name, lo=-1.0, hi=1.0):
        self.cnt += 1
        return lo + (hi - lo) * h01("fresh", name, self.cnt, self.seed)

    def fresh_array(self, name, n=None, lo=-1.0, hi=1.0, first=None):
        self.cnt += 1
        if n is None:
            n = 1 + int(7 * h01("freshlen", name, self.cnt, self.seed))
        c = self.cnt
        a = np.array([lo + (hi - lo) * h01("fresh", name, c, self.seed, i) for i in range(int(n))])
        if first is not None and len(a):
            a[0] = first
        return a

    def fresh_len(self, name="n", lo=1, hi=8):
        self.cnt += 1
        return lo + int((hi - lo + 1) * h01("freshlen", name, self.cnt, self.seed))

    # ---------------------------------------------------------------- logic
    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not a

    def implies(self, a, b):
        return (not a) or bool(b)

    def close(self, a, b, rtol=1e-7, atol=0.0):
        return bool(abs(a - b) <= rtol * max(abs(a), abs(b)) + atol)

    def lit(self, text):
        return float(text)

    def branch(self, c):
        return bool(c)

    def length(self, a):
        return len(a)

    def interp(self, x, y, kind="linear", **k):
        from scipy.interpolate import interp1d
        return interp1d(x, y, kind, **k)

    def cumtrapz(self, y, x, initial=None):
        from scipy.integrate import cumulative_trapezoid
        return cumulative_trapezoid(y, x, initial=initial)

    def floor(self, x):
        return int(x)

    def arr(self, n, fn):
        return np.array([float(fn(k)) for k in range(int(n))])

    # ---------------------------------------------------------------- ensures
    def fail(self, name, detail):
        if len(self.viol) < 8:
            self.viol.append({"check": name, "detail": str(detail)[:400]})

    def check(self, name, cond, **k):
        self.n += 1
        try:
            ok = bool(cond)
        except ValueError:
            ok = bool(np.all(cond))
        if not ok:
            self.fail(name, "condition is false")

    def le(self, name, a, b, atol=0.0, rtol=1e-9):
        self.n += 1
        a, b = float(a), float(b)
        if not a <= b + atol + rtol * max(abs(a), abs(b)):
            self.fail(name, "%r <= %r is false" % (a, b))

    def eq(self, name, a, b, rtol=1e-9, atol=0.0, scale=None):
        self.n += 1
        rtol = max(rtol, 1e-7)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return self.fail(name, "%d values, expected %d" % (len(a), len(b)))
            for k, (x, y) in enumerate(zip(a, b)):
                self.eq("%s[%d]" % (name, k), x, y, rtol, atol, scale)
            return
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            if not (type(a) == type(b) and a == b):
                self.fail(name, "%r, expected %r" % (a, b))
            return
        try:
            if isinstance(a, (list, tuple)):
                a = np.array(a)
            if isinstance(b, (list, tuple)):
                b = np.array(b)
            if np.shape(a) != np.shape(b):
                return self.fail(name, "shape %s, expected %s" % (np.shape(a), np.shape(b)))
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            return self.fail(name, "not numeric: %s" % e)
        if x.size == 0:
            return
        s = np.maximum(np.abs(x), np.abs(y))
        if x.ndim:
            s = np.maximum(s, 1e-3 * np.nanmax(np.where(np.isfinite(s), s, 0)))
        if scale is not None:
            s = np.maximum(s, scale)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(x - y) <= rtol * s + atol) | (x == y) | (np.isnan(x) & np.isnan(y)))
        if np.any(bad):
            i = np.argmax(bad)
            self.fail(name, "%r, expected %r%s" % (float(x.flat[i]), float(y.flat[i]),
                                                    " at %d of %d" % (i, x.size) if x.ndim else ""))

    def forall(self, name, n, fn):
        self.n += 1
        for k in range(int(n)):
            if not fn(k):
                return self.fail(name, "false at index %d of %d" % (k, n))

    def same(self, name, a, b, **k):
        self.n += 1
        if a is b:
            return
        try:
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                if np.shape(a) == np.shape(b):
                    return self.eq(name, a, b)
                return self.fail(name, "array changed")
            if isinstance(a, float) or isinstance(b, float):
                return self.eq(name, a, b)
            if a == b:
                return
        except Exception:
            pass
        self.fail(name, "changed from %r to %r" % (a, b))

    def snapshot(self, obj):
        out, seen = {}, set()

        def isobj(v):
            return type(v).__module__.startswith("AMAT") and hasattr(v, "__dict__") and not isinstance(v, type) and not callable(v)

        def walk(o, p):
            if id(o) in seen:
                return
            seen.add(id(o))
            for k, v in o.__dict__.items():
                if isobj(v):
                    walk(v, p + k + ".")
                else:
                    out[p + k] = v.copy() if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v)
        walk(obj, "")
        return out

    def raises(self, name, fn, exc=Exception):
        self.n += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            return self.fail(name, "raised %s instead" % type(e).__name__)
        self.fail(name, "did not raise")

    # ---------------------------------------------------------------- world
    def stub(self, cls, name, handler):
        real = getattr(cls, name, None)
        if real is None:
            return
        sig = inspect.signature(real)

        def g(self_, *a, **k):
            b = sig.bind(self_, *a, **k)
            b.apply_defaults()
            return handler(*list(b.arguments.values()))
        old = cls.__dict__.get(name)
        setattr(cls, name, g)
        self.undo.append((cls, name, old))

    def given_angle(self, name, s, k):
        return math.atan2(s, k)

    def orthopair(self, name, n, m):
        n, m = [float(x) for x in n], [float(x) for x in m]
        d, a = math.asin(max(-1, min(1, n[2]))), math.atan2(n[1], n[0])
        z = math.atan2(-math.sin(a) * m[0] + math.cos(a) * m[1],
                       -math.sin(d) * (math.cos(a) * m[0] + math.sin(a) * m[1]) + math.cos(d) * m[2])
        self.require(math.cos(d) > 1e-3)
        return d, a, z

    def replace(self, mod, name, value):
        m = self.mod(mod)
        self.undo.append((m, name, m.__dict__.get(name)))
        setattr(m, name, value)

    def cut(self, cls, attr, fn):
        pass

    def rewrite(self, name, value, new):
        return value
    rootrewrite = rewrite

    def hide(self, value):
        return value
    reveal = hide

    def split(self, name, *pairs):
        return [a for a, b in pairs]

    def angle(self, name, value, s, k):
        return value

    def hyper(self, name, value, X):
        return value

    def runs(self, begin, end, rows):
        """the contract of one iteration is checked afterwards, on the whole record"""

    def samestr(self, a, b):
        return str(a) == str(b)

    def track(self, obj):
        pass

    def template(self, fn):
        pass
    candidate = invariant = template

    def ghost(self, **k):
        r = Ghost()
        r.__dict__.update(k)
        return r

    def external(self, name, h):
        """replace an external function (by dotted name) wherever the code imported it"""
        W.patch[name] = h
        path = name.split(".")
        alias = {"optimize": "scipy.optimize"}
        modname = ".".join(path[:-1])
        m = importlib.import_module(alias.get(modname, modname))
        orig = getattr(m, path[-1])
        self.patch(m, path[-1], h)
        for mm in MODS.values():
            for k, v in list(vars(mm).items()):
                if v is orig:
                    self.patch(mm, k, h)

    def patch(self, obj, name, v):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, v)

    def finish(self):
        for cls, name, old in reversed(self.undo):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        self.undo = []


def install(c):
    import scipy.integrate
    for m in MODS.values():
        for k, v in list(vars(m).items()):
            if v is scipy.integrate.odeint:
                c.patch(m, k, fake_odeint)
            if v is scipy.integrate.solve_ivp:
                c.patch(m, k, fake_solve_ivp)
    c.patch(scipy.integrate, "odeint", fake_odeint)
    c.patch(scipy.integrate, "solve_ivp", fake_solve_ivp)
    c.patch(np, "savetxt", fake_savetxt)
    c.patch(np, "loadtxt", fake_loadtxt)
    c.patch(os, "makedirs", fake_makedirs)
    c.patch(os, "mkdir", fake_makedirs)
    c.patch(random, "choice", fake_choice)
    c.patch(random, "randint", fake_randint)
    c.patch(random, "gauss", fake_gauss)
    c.patch(random, "normalvariate", fake_gauss)
    c.patch(np.random, "normal", fake_normal)
    import builtins
    c.patch(builtins, "print", lambda *a, **k: None)


class Stuck(BaseException):
    """an execution of the real code that did not come to an end"""


def _alarm(sig, frame):
    raise Stuck()


def run(name, seed, over=None, hint=False, profile=False):
    con = REG[name]
    c = Conc(con, seed, over, hint)
    W.reset()
    W.seed = seed
    r = {"contract": name, "seed": seed, "violations": [], "rejected": None, "error": None}
    funcs = set()
    pre = os.path.join(REPO, "AMAT")

    def prof(fr, ev, arg):
        if ev == "call" and fr.f_code.co_filename.startswith(pre):
            funcs.add("%s:%s" % (os.path.basename(fr.f_code.co_filename), getattr(fr.f_code, "co_qualname", fr.f_code.co_name)))
    try:
        install(c)
        if profile:
            sys.setprofile(prof)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(20 if hint else 100)
        con.fn(c)
    except Stuck:
        if hint:
            r["rejected"] = "stuck"
        else:
            tb = traceback.extract_tb(sys.exc_info()[2])
            at = [f for f in tb if f.filename.startswith(pre)]
            r["error"] = {"type": "Stuck", "text": "no end within 100 s", "in_repo": bool(at),
                          "at": "%s:%d" % (os.path.relpath(at[-1].filename, REPO), at[-1].lineno) if at else None, "trace": ""}
    except Reject as e:
        r["rejected"] = str(e)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        at = [f for f in tb if f.filename.startswith(pre)]
        inrepo = bool(at)
        r["error"] = {"type": type(e).__name__, "text": str(e)[:300], "in_repo": inrepo,
                      "at": "%s:%d" % (os.path.relpath(at[-1].filename, REPO), at[-1].lineno) if at else None,
                      "trace": traceback.format_exc()[-900:]}
    finally:
        signal.alarm(0)
        sys.setprofile(None)
        c.finish()
    r["violations"] = c.viol
    r["checks"] = c.n
    r["inputs"] = c.vars
    if profile:
        r["functions"] = sorted(funcs)
    return r


def main():
    setup()
    load_all()
    if len(sys.argv) > 1:
        job = json.load(open(sys.argv[1]))
        r = run(job["contract"], job["seed"], job.get("inputs") if job.get("hint") else job.get("over"), job.get("hint", False))
        print(json.dumps(r, indent=1, default=str))
        return 1 if (r["violations"] or (r["error"] and r["error"]["in_repo"])) else 0
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    out.write(json.dumps({"ready": True}) + "\n")
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        t0 = time.time()
        try:
            r = run(job["contract"], job["seed"], job.get("over"), job.get("hint", False), job.get("profile", False))
        except Exception as e:
            r = {"contract": job["contract"], "seed": job["seed"], "violations": [], "rejected": None, "checks": 0,
                 "error": {"type": type(e).__name__, "text": str(e), "in_repo": False, "at": None,
                           "trace": traceback.format_exc()[-900:]}, "inputs": {}}
        r["secs"] = time.time() - t0
        r["id"] = job.get("id")
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()
    return 0


if __name__ == "__main__":
    from engine import concrete as _c      # one module identity for contracts and driver
    sys.exit(_c.main())
