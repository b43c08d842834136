"""Symbolic mode of the contract API: contracts -> proof obligations."""
import inspect
import os
import sys
import time
import traceback
from fractions import Fraction
from . import terms as tm, arrays as ar, shim, loops, core
from .terms import T, S, TRUE, FALSE, lift, num, band, bor, bnot, eq, le, lt, ite, sub, Unsupported
from .arrays import A1, M2, SList, val, asA1
from .core import E_, Ob, PathEnd, RestartAll, Infeasible
from .base import REG, Common, Reject
from .loader import Loader

LOADER = None


def loader():
    global LOADER
    if LOADER is None:
        LOADER = Loader()
    return LOADER


class Name:
    """one of a finite set of texts, decided only where the code looks at it"""
    __slots__ = ("key", "options", "left", "vars")

    def __init__(self, key, options, vars_):
        self.key, self.options, self.left, self.vars = key, list(options), list(options), vars_
        self.note()

    def note(self):
        self.vars["$" + self.key] = self.options.index(self.left[0])

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, Name):
            o = o.text()
        if o not in self.left:
            return False
        if len(self.left) > 1:
            if E_.choose():
                self.left = [o]
                self.note()
                return True
            self.left.remove(o)
            self.note()
            return False
        return True

    def __ne__(self, o):
        return not self == o

    def text(self):
        for o in list(self.left):
            if self == o:
                break
        return self.left[0]

    def __hash__(self):
        return hash(self.text())

    def __str__(self):
        return self.text()

    def __repr__(self):
        return "<%s>" % self.key

    def __format__(self, f):
        return format(self.text(), f)

    def __add__(self, o):
        return self.text() + o

    def __radd__(self, o):
        return o + self.text()

    def __contains__(self, o):
        return o in self.text()

    def __len__(self):
        return len(self.text())

    def __iter__(self):
        return iter(self.text())

    def __getitem__(self, k):
        return self.text()[k]

    def __bool__(self):
        return all(self.left) or bool(self.text())

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return getattr(self.text(), a)

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self


class UF:
    """uninterpreted function of reals; elementwise on arrays"""

    def __init__(self, name, arity, facts=None):
        self.name, self.arity, self.facts = name, arity, facts

    def __call__(self, *a):
        if len(a) != self.arity:
            raise TypeError("%s() takes %d arguments" % (self.name, self.arity))
        for x in a:
            if isinstance(x, (A1, list)):
                if self.arity == 1:
                    return asA1(x).map(self)
                raise Unsupported("vector argument")
        t = tm.app(self.name, tuple(tm.toreal(tm.asnum(lift(x))) for x in a))
        if self.facts is not None:
            if not E_.has_bound(t):
                E_.assume(lift(self.facts(S(t))))
        return S(t)

    def __deepcopy__(self, m):
        return self


class Sym(Common):
    mode = "sym"
    np = shim.NUMPY
    pi = S(tm.PI)
    sym = True

    def __init__(self, contract):
        self.contract = contract
        self.vars = {}
        self.hidden = {}
        self.undo = []
        self.nobs = 0
        self.W = shim.W

    # ---------------------------------------------------------------- inputs
    def cls(self, mod, name):
        return getattr(loader().load("AMAT." + mod), name)

    def mod(self, name):
        return loader().load("AMAT." + name)

    ranges = {}

    def real(self, name, lo=-1.0, hi=1.0):
        if name not in self.vars:
            self.vars[name] = S(tm.var(name))
            self.ranges[name] = (float(lo), float(hi))
        return self.vars[name]

    def pos(self, name, lo=0.1, hi=10.0):
        v = self.real(name, lo, hi)
        E_.assume(lt(num(0), v.t))
        return v

    def rng(self, name, lo, hi, strict=False):
        v = self.real(name, lo, hi)
        f = lt if strict else le
        E_.assume(band(f(num(tm.flt(lo)) if isinstance(lo, float) else num(lo), v.t),
                       f(v.t, num(tm.flt(hi)) if isinstance(hi, float) else num(hi))))
        return v

    def int(self, name, lo, hi):
        if name not in self.vars:
            self.vars[name] = S(tm.var(name, "I"))
            E_.assume(band(le(num(lo), self.vars[name].t)))
        return self.vars[name]

    def boolean(self, name):
        """an arbitrary True/False, explored both ways"""
        v = tm.var(name, "B")
        return bool(S(v))

    def pick(self, name, options):
        """every one of a finite set of options"""
        for k, o in enumerate(options[:-1]):
            if E_.choose():
                self.vars["$" + name] = k
                return o
        self.vars["$" + name] = len(options) - 1
        return options[-1]

    def name(self, name, options):
        """every one of a finite set of texts, distinguished only where the code distinguishes them"""
        return Name(name, options, self.vars)

    def array(self, name, lo=0.0, hi=1.0, n=None, minlen=1, positive=False, increasing=False):
        if n is None:
            n = tm.var("len_" + name, "I")
            E_.assume(le(num(minlen), n))
        else:
            n = ar.nterm(n)
        a = A1(n, lambda i: S(tm.app(name, (i,))))
        if positive:
            E_.forall(n, lambda i: lt(num(0), tm.app(name, (i,))))
        if increasing:
            E_.forall(sub(n, num(1)), lambda i: lt(tm.app(name, (i,)), tm.app(name, (tm.add(i, num(1)),))))
        return a

    def vec3(self, name, scale=1.0):
        return A1(0, items=[self.real("%s_%s" % (name, k), -scale, scale) for k in "xyz"])

    def vec(self, items):
        return A1(0, items=[val(x) for x in items])

    def fun(self, name, arity=1, lo=0.0, hi=1.0, scale=1.0, facts=None):
        self.ranges[name] = (lo, hi)
        return UF(name, arity, facts)

    def signfun(self, name, scale=1.0, lo=0.0, hi=1.0):
        """arbitrary function into {-1, +1}"""
        return UF(name, 1, lambda y: (y == 1) | (y == -1))

    def require(self, cond):
        if isinstance(cond, S):
            cond = cond.t
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        E_.assume(cond)
        if not E_.feasible():
            raise Infeasible()

    def given(self, cond):
        """require without the feasibility query"""
        E_.assume(cond.t if isinstance(cond, S) else cond)

    def fresh(self, name, lo=-1.0, hi=1.0):
        return S(E_.fresh(name))

    def fresh_array(self, name, n=None, lo=-1.0, hi=1.0, first=None):
        nm = E_.fresh("arr_" + name).args[0]
        if n is None:
            n = E_.fresh("len_" + name, "I")
            E_.assume(le(num(1), n))
        else:
            n = ar.nterm(n)
        a = A1(n, lambda i: S(tm.app(nm, (i,))))
        if first is not None:
            E_.assume(eq(tm.app(nm, (num(0),)), tm.toreal(lift(first))))
        return a

    def fresh_len(self, name="n", lo=1, hi=8):
        n = E_.fresh(name, "I")
        E_.assume(le(num(lo), n))
        return S(n)

    # ---------------------------------------------------------------- logic
    def ite(self, c, a, b):
        ct = lift(c)
        return S(ite(ct, lift(a), lift(b)))

    def and_(self, *a):
        return S(band(*[lift(x) for x in a]))

    def or_(self, *a):
        return S(bor(*[lift(x) for x in a]))

    def not_(self, a):
        return S(bnot(lift(a)))

    def implies(self, a, b):
        return S(bor(bnot(lift(a)), lift(b)))

    def close(self, a, b, rtol=1e-9, atol=0.0):
        return S(eq(lift(a), lift(b)))

    def lit(self, text):
        return tm.K(text)

    def branch(self, c):
        return bool(c)

    def length(self, a):
        return shim.b_len(a)

    def floor(self, x):
        """whole part of a number that is not negative"""
        return shim.BUILTINS["int"](x)

    def interp(self, x, y, kind="linear", **k):
        return shim.Interp(x, y, kind, **k)

    def cumtrapz(self, y, x, initial=None):
        return shim.cumtrapz(y, x, initial=initial)

    def arr(self, n, fn):
        """array of length n with entries fn(k)"""
        return A1(ar.nterm(n), lambda i: val(fn(S(i))))

    # ---------------------------------------------------------------- ensures
    def _ob(self, name, goal):
        self.nobs += 1
        ob = Ob(name, goal, E_.pc, E_.univ, E_.path_id)
        ob.spec = self.contract.name
        E_.obs.append(ob)

    def check(self, name, cond, **k):
        if isinstance(cond, S):
            cond = cond.t
        elif cond is True:
            cond = TRUE
        elif cond is False or cond is None:
            cond = FALSE
        elif not isinstance(cond, T):
            cond = TRUE if cond else FALSE
        self._ob(name, cond)

    def le(self, name, a, b, **k):
        self._ob(name, le(lift(a), lift(b)))

    def eq(self, name, a, b, rtol=1e-9, atol=0.0, scale=None):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b):
                return self._ob(name + ": number of values", FALSE)
            for k, (x, y) in enumerate(zip(a, b)):
                self.eq("%s[%d]" % (name, k), x, y)
            return
        if isinstance(a, (A1, SList, list)) or isinstance(b, (A1, SList, list)):
            if not isinstance(a, (A1, SList, list)) or not isinstance(b, (A1, SList, list)):
                return self._ob(name + ": array", FALSE)
            a, b = asA1(a), asA1(b)
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return self._ob(name + ": length", FALSE)
                for k, (x, y) in enumerate(zip(a.items, b.items)):
                    self.eq("%s[%d]" % (name, k), x, y)
                return
            self._ob(name + ": length", eq(a.n, b.n) if a.n is not b.n else TRUE)
            k = E_.fresh("k", "I")
            pc0, set0 = list(E_.pc), set(E_.pcset)
            E_.assume(band(le(num(0), k), lt(k, a.n)))
            E_.assume(band(lt(k, b.n)))
            self._ob(name + "[k]", self._eqt(a.at(k), b.at(k)))
            E_.pc, E_.pcset = pc0, set0
            return
        if isinstance(a, M2) or isinstance(b, M2):
            if not (isinstance(a, M2) and isinstance(b, M2)) or a.rows is None or b.rows is None:
                raise Unsupported("matrix comparison")
            return self.eq(name, list(a.rows), list(b.rows))
        self._ob(name, self._eqt(a, b))

    def _eqt(self, a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            if isinstance(a, str) and isinstance(b, str):
                return TRUE if a == b else FALSE
            return TRUE if a is b else FALSE
        if x.sort == "B" or y.sort == "B":
            if x.sort == y.sort:
                return eq(x, y)
            return eq(tm.asnum(x), tm.asnum(y))
        return eq(x, y)

    def forall(self, name, n, fn):
        """fn(k) holds for every 0 <= k < n"""
        k = E_.fresh("k", "I")
        pc0, set0 = list(E_.pc), set(E_.pcset)
        E_.assume(band(le(num(0), k), lt(k, ar.nterm(n))))
        self.check(name, fn(S(k)))
        E_.pc, E_.pcset = pc0, set0

    def same(self, name, a, b, **k):
        """unchanged value (frame conditions)"""
        if a is b or loops.same_value(a, b):
            return self._ob(name, TRUE)
        if isinstance(a, A1) and isinstance(b, A1) or (lift(a) is not None and lift(b) is not None):
            return self.eq(name, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return self.eq(name, list(a), list(b))
        try:
            r = bool(a == b)
        except Unsupported:
            raise
        except Exception:
            r = False
        self._ob(name, TRUE if r else FALSE)

    def snapshot(self, obj):
        out, seen = {}, set()

        def walk(o, p):
            if id(o) in seen:
                return
            seen.add(id(o))
            for k, v in o.__dict__.items():
                if loops.is_obj(v):
                    walk(v, p + k + ".")
                else:
                    out[p + k] = v.copy() if isinstance(v, A1) else v
        walk(obj, "")
        return out

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except (PathEnd, RestartAll, Unsupported):
            raise
        except exc:
            return self._ob(name, TRUE)
        except Exception:
            pass
        self._ob(name, FALSE)

    # ---------------------------------------------------------------- world
    def stub(self, cls, name, handler):
        """calls of cls.name are answered by its contract"""
        real = getattr(cls, name, None)
        if real is None:
            return
        sig = inspect.signature(real)

        def g(self_, *a, **k):
            b = sig.bind(self_, *a, **k)
            b.apply_defaults()
            args = list(b.arguments.values())
            return handler(*args)
        old = cls.__dict__.get(name)
        setattr(cls, name, g)
        self.undo.append((cls, name, old))

    def replace(self, mod, name, value):
        """the module-level name stands for something else during this contract"""
        m = self.mod(mod)
        old = m.__dict__.get(name)
        setattr(m, name, value)
        self.undo.append((m, name, old))

    def cut(self, cls, attr, fn):
        """cut point: fn(object, value) proves facts about the value assigned to the attribute and returns what stands for it"""
        cuts = cls.__dict__.get("_cuts_")
        if cuts is None:
            cuts = {}
            old = cls.__dict__.get("__setattr__")

            def sa(o, k, v):
                f = cuts.get(k)
                if f is not None:
                    try:
                        v = f(o, v)
                    except AttributeError:
                        pass
                object.__setattr__(o, k, v)
            cls._cuts_ = cuts
            cls.__setattr__ = sa
            self.undo += [(cls, "_cuts_", None), (cls, "__setattr__", old)]
        cuts[attr] = fn

    def rewrite(self, name, value, new):
        """the value is the given expression (proved); the expression stands for it from here on"""
        self.eq(name, value, new)
        if isinstance(new, (list, tuple)):
            return A1(0, items=[val(x) for x in new])
        return new

    def hide(self, value):
        """an arbitrary number for the value: what is proved about it holds for every value; see reveal"""
        x = E_.fresh("hid")
        self.hidden[x] = tm.toreal(lift(value))
        return S(x)

    def reveal(self, x):
        """the expression with the hidden values back in place"""
        return S(tm.subst(tm.toreal(lift(x)), self.hidden))

    def split(self, name, *pairs):
        """values proved equal to the given expressions, which are returned"""
        for k, (a, b) in enumerate(pairs):
            self.eq("%s[%d]" % (name, k), a, b)
        return [b for a, b in pairs]

    def rootrewrite(self, name, value, new):
        """as rewrite, proved as equal squares and equal signs"""
        self.rooteq(name, value, new)
        return new

    def angle(self, name, value, s, k):
        """an angle known by its sine and cosine (proved)"""
        self.eq(name + ": cosine", self.np.cos(value), k)
        self.rooteq(name + ": sine", self.np.sin(value), s)
        x = E_.fresh("ang")
        E_.trigdefs[x] = (tm.toreal(lift(s)), tm.toreal(lift(k)))
        E_.assume(eq(tm.fn("sin", x), tm.toreal(lift(s))))
        E_.assume(eq(tm.fn("cos", x), tm.toreal(lift(k))))
        return S(x)

    def hyper(self, name, value, X):
        """a hyperbolic angle known by its sinh (proved), written as the log of X > 0 (sinh is injective)"""
        self.rooteq(name + ": sinh", self.np.sinh(value), (X - 1 / X) / 2)
        return self.np.log(X)

    def given_angle(self, name, s, k):
        """an angle in (-pi, pi] with the given sine and cosine (squares adding to one)"""
        self.eq(name + ": unit circle", s * s + k * k, 1)
        x = E_.fresh(name)
        E_.trigdefs[x] = (tm.toreal(lift(s)), tm.toreal(lift(k)))
        E_.assume(eq(tm.fn("sin", x), tm.toreal(lift(s))))
        E_.assume(eq(tm.fn("cos", x), tm.toreal(lift(k))))
        return S(x)

    def orthopair(self, name, n, m):
        """latitude, longitude and direction angle (sin, cos each) of an orthonormal pair n, m with n off the poles:
        n = (cd ca, cd sa, sd), m = cz (-sd ca, -sd sa, cd) + sz (-sa, ca, 0).  Orthonormality is proved; that every such pair
        has this form (cd > 0) is a theorem of trigonometry"""
        dot = lambda a, b: a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
        self.eq(name + ": first is a unit vector", dot(n, n), 1)
        self.eq(name + ": second is a unit vector", dot(m, m), 1)
        self.eq(name + ": orthogonal", dot(n, m), 0)
        d, a, z = (S(E_.fresh(x)) for x in ("dl", "al", "zt"))
        self.given(self.np.cos(d) > 0)
        return d, a, z

    def rooteq(self, name, a, b):
        """a = b, proved as equal squares and equal signs when not directly"""
        ta, tb = tm.toreal(lift(a)), tm.toreal(lift(b))
        z = E_.ctx(E_.pc, E_.univ)
        if z.zero(sub(ta, tb)):
            return self._ob(name, eq(ta, tb))
        self._ob(name + " (squares)", eq(tm.mul(ta, ta), tm.mul(tb, tb)))
        try:
            na, nb = z.to_term(z.norm(ta)), z.to_term(z.norm(tb))
        except Exception:
            na, nb = ta, tb
        o = num(0)
        if z.signed(na, False) and z.signed(nb, False):
            return self._ob(name + " (sign)", band(le(o, na), le(o, nb)))
        self._ob(name + " (sign)", bor(band(le(o, na), le(o, nb)), band(le(na, o), le(nb, o))))

    def runs(self, begin, end, rows):
        """loops of unknown length go by the inductive rule: begin(k) and end(k) surround iteration k, in which `end` states what the
        iteration must have done; rows: functions whose values at 0..k-1 the first rows of an array may hold"""
        loops.RUNS.append((begin, end, rows))

    def samestr(self, a, b):
        """the texts agree, numbers printed in them included"""
        return tm.same_text(str(a), str(b), lambda x, y: x is y or E_.ctx(E_.pc, E_.univ).zero(sub(x, y)))

    def track(self, obj):
        loops.ROOTS.append(obj)

    def ghost(self, **k):
        g = loops.Ghost()
        g.__dict__.update(k)
        loops.ROOTS.append(g)
        return g

    def template(self, fn):
        loops.TEMPLATES.append(fn)

    def candidate(self, fn):
        """possible invariant about any one scalar a loop changes"""
        loops.UNARY.append(fn)

    def invariant(self, fn):
        """possible loop invariant about ghost state and objects"""
        loops.STATE.append(fn)

    def external(self, name, h):
        shim.W.patch[name] = h

    def finish(self):
        for cls, name, old in reversed(self.undo):
            if old is None:
                delattr(cls, name)
            else:
                setattr(cls, name, old)
        self.undo = []


def run_contract(name, ms=4000, keep=False, brief=(), hard=600):
    """explore and discharge one contract -> result dict; obligations whose names start with one of `brief` get little solver time"""
    brief = tuple(brief)
    con = REG[name]
    t0 = time.time()
    E_.reset_all()
    E_.lamreps = None
    E_.deadline = t0 + con.budget
    res = {"contract": name, "obligations": [], "error": None, "paths": 0, "restarts": 0}
    loops.QMEMO.clear()

    def one():
        shim.W.reset()
        del loops.ROOTS[:]
        del loops.TEMPLATES[:]
        del loops.UNARY[:]
        del loops.STATE[:]
        del loops.RUNS[:]
        c = Sym(con)
        try:
            con.fn(c)
        except (PathEnd, RestartAll, Unsupported, RecursionError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            at = [f for f in tb if "/AMAT/" in f.filename]
            ob = Ob("runs to completion (%s: %s%s)" % (type(e).__name__, str(e)[:80],
                    " at %s:%d" % (os.path.basename(at[-1].filename), at[-1].lineno) if at else ""),
                    FALSE, E_.pc, E_.univ, E_.path_id)
            ob.spec = "exc"
            ob.fn = traceback.format_exc()[-1200:]
            E_.obs.append(ob)
        finally:
            c.finish()
            one.picks[E_.path_id] = {k: v for k, v in c.vars.items() if k.startswith("$")}
    one.picks = {}
    Sym.ranges = E_.ranges = {}
    try:
        while True:
            E_.obs = []
            try:
                E_.explore(one)
                break
            except RestartAll:
                res["restarts"] += 1
                if res["restarts"] > 60:
                    raise Unsupported("loop invariants do not stabilise")
    except Unsupported as e:
        res["error"] = "outside the verifier's subset: %s" % e
    except RecursionError:
        res["error"] = "outside the verifier's subset: recursion"
    except Exception as e:
        res["error"] = "verifier error: %s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-1500:]
    res["paths"] = E_.stats["paths"]
    seen = {}
    for ob in E_.obs:
        if min(E_.deadline + con.budget, t0 + hard) < time.time():
            ob.status, ob.backend = "open", None
            ob.secs = 0
        else:
            key = (ob.goal, tuple(ob.pc))
            if key in seen:
                ob.status, ob.backend, ob.secs = seen[key]
            else:
                E_.discharge(ob, ms=100 if brief and ob.name.startswith(brief) else ms)
                seen[key] = (ob.status, ob.backend, 0.0)
    # what the first pass left open gets more time, as long as it is little
    left = [ob for ob in E_.obs if ob.status != "proved" and ob.goal is not FALSE and not (brief and ob.name.startswith(brief))]
    if 0 < len(left) <= 24:
        t_end = min(time.time() + max(20.0, 0.5 * con.budget), t0 + hard + 30)
        memo = {}
        for ob in left:
            key = (ob.goal, tuple(ob.pc))
            if key in memo:
                ob.status, ob.backend = memo[key]
            elif time.time() < t_end:
                E_.discharge(ob, ms=4 * ms)
                memo[key] = (ob.status, ob.backend)
    for ob in E_.obs:
        res["obligations"].append({"name": ob.name, "status": ob.status, "backend": ob.backend,
                                   "secs": round(ob.secs, 3), "path": ob.path,
                                   "exc": ob.fn if ob.spec == "exc" else None})
    res["invariants"] = [c.text for ls in E_.loopstate.values() for c in (ls["cands"] or [])][:60]
    res["stats"] = dict(E_.stats)
    res["notes"] = sorted(E_.notes)
    res["wall"] = time.time() - t0
    if keep:
        res["obs"] = E_.obs
    else:
        res["hints"] = hints(E_.obs, one.picks)
    return res


def model_inputs(m):
    import z3
    d = {}
    for v in m.decls():
        if v.arity() == 0 and not v.name().startswith("$"):
            x = m[v]
            try:
                if z3.is_rational_value(x):
                    d[v.name()] = float(x.as_fraction())
                elif z3.is_int_value(x):
                    d[v.name()] = x.as_long()
                elif z3.is_algebraic_value(x):
                    d[v.name()] = float(x.approx(12).as_fraction())
                elif z3.is_true(x) or z3.is_false(x):
                    d[v.name()] = bool(z3.is_true(x))
            except Exception:
                pass
    return d


PURE = ("num", "var", "true", "false", "add", "mul", "app", "le", "lt", "eq", "not", "and", "or", "ite", "abs", "toreal", "floor")


def pure(ts):
    """no interpreted transcendental function occurs, so a solver model is a genuine counterexample of the obligation"""
    seen = set()
    for t in ts:
        tm.subterms(t, seen)
    for t in seen:
        if t.op == "pow" and t.args[1].op == "num" and tm.nv(t.args[1]).denominator == 1:
            continue
        if t.op == "app" and (t.args[0].startswith("$") or any(isinstance(a, T) and a.op == "lam" for a in t.args[1:])):
            return False
        if t.op not in PURE:
            return False
    return True


def in_ranges(pc, ranges):
    """prefer counterexamples of ordinary magnitude"""
    out = []
    for n, (lo, hi) in ranges.items():
        v = tm.var(n)
        out.append(band(le(num(tm.flt(lo)), v), le(v, num(tm.flt(hi)))))
    return out


def hints(obs, picks, limit=8):
    """inputs suggested for open obligations (to be replayed on the real code)"""
    from . import evalnum
    out, names = [], {}
    for k, ob in enumerate(obs):
        if ob.status == "proved" or len(out) >= limit:
            continue
        if names.get(ob.name, 0) >= 2:
            continue
        names[ob.name] = names.get(ob.name, 0) + 1
        models, verdict = [], "unknown"
        used = [n for n in Sym.ranges if tm.var(n) in set().union(*[tm.subterms(t) for t in ob.pc + [ob.goal]])]
        box = in_ranges(ob.pc, {n: Sym.ranges[n] for n in used})
        for pc, g in ((ob.pc + box, ob.goal), (ob.pc, ob.goal), (ob.pc + box, FALSE), (ob.pc, FALSE)):
            try:
                r, m = E_.smt(pc, g, ob.univ, ms=1500, want_model=True)
            except Exception:
                continue
            if r == "sat" and m is not None:
                models.append(model_inputs(m))
                if g is ob.goal and not ob.univ and pure(ob.pc + [ob.goal]):
                    verdict = "counter-model"
                if len(models) >= 2:
                    break
        try:
            ref = evalnum.refute(ob.goal, ob.pc + (E_.instances(ob.pc + [ob.goal], ob.univ) if ob.univ else []), Sym.ranges, models)
        except Exception:
            ref = None
        if ref is not None:
            models.insert(0, {n: v for n, v in ref.items() if not n.startswith("$")})
            verdict = "refuted"
        out.append({"obligation": ob.name, "models": models, "verdict": verdict, "exc": ob.fn if ob.spec == "exc" else None,
                    "picks": picks.get(ob.path, {}), "goal": tm.show(ob.goal, 7)[:1500],
                    "path": [tm.show(t, 4)[:300] for t in ob.pc[-12:]]})
    return out
