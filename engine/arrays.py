"""Arrays of symbolic length.  A1(n, f): n an integer term, f index term -> element.
Arrays of known small length hold their elements in a list."""
from . import terms as tm
from .terms import T, S, TRUE, FALSE, lift, num, add, sub, mul, ite, le, lt, eq, band, bnot, Unsupported
from .core import E_
import numbers


def is_scalar(x):
    return lift(x) is not None


def isarr(x):
    return isinstance(x, (A1, M2)) or type(x).__name__ == "ndarray"


def val(x):
    """element -> python value kept as S (or other object)"""
    t = lift(x)
    return S(t) if t is not None else x


def toint(t):
    return t


def nterm(x):
    t = lift(x)
    if t is None:
        raise Unsupported("array length")
    if t.sort == "R":
        if tm.isnum(t) and tm.nv(t).denominator == 1:
            return num(int(tm.nv(t)))
        raise Unsupported("real-valued length")
    return t


BOUND = {}
NONNEG_APPS = ("argmax", "argmin", "argfirst")


def bvar(depth=0):
    v = BOUND.get(depth)
    if v is None:
        v = BOUND[depth] = tm.var("$k%s" % depth, "I")
    return v


LAMDEPTH = [0]


def lam(f):
    """closed lambda term over an integer index.  The binder's number exceeds those of the lambdas inside
    the body, so nothing is ever captured and equal bodies give equal terms."""
    d = LAMDEPTH[0]
    LAMDEPTH[0] += 1
    try:
        k = bvar("t%d" % d)
        c = le(num(0), k)
        new = c not in E_.pcset
        if new:
            E_.pc.append(c)
            E_.pcset.add(c)
        try:
            body = lift(f(k))
        finally:
            if new:
                E_.pcset.discard(c)
                if c in E_.pc:
                    E_.pc.remove(c)
        if body is None:
            raise Unsupported("array of non-scalars")
    finally:
        LAMDEPTH[0] -= 1
    h = 0
    for u in tm.subterms(body):
        if u.op == "lam":
            h = max(h, 1 + int(u.args[0].args[0][2:]))
    v = bvar(h)
    return tm.mk("lam", (v, tm.subst(body, {k: v})), "I")


class A1:
    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, n, f=None, items=None):
        if items is not None:
            self.items = list(items)
            self._n = None
            self._f = None
        else:
            n = simp_int(n if isinstance(n, T) else nterm(n))
            if tm.isnum(n) and tm.nv(n) <= 40:
                self.items = [val(f(num(i))) for i in range(int(tm.nv(n)))]
                self._n, self._f = None, None
            else:
                self.items = None
                self._n, self._f = n, f
        self.view = False
        self.memo = {}
        self.ver = 0

    # ---------------------------------------------------------------- basics
    @property
    def n(self):
        return num(len(self.items)) if self.items is not None else self._n

    def at(self, i):
        """element at index term i (0 <= i < n)"""
        if self.items is not None:
            if tm.isnum(i):
                k = int(tm.nv(i))
                if not 0 <= k < len(self.items):
                    return self.items[k] if -len(self.items) <= k < 0 else S(tm.app("$oob", (i,)))
                return self.items[k]
            ts = [lift(x) for x in self.items]
            if not ts:
                return S(tm.app("$empty", (i,)))
            if any(t is None for t in ts):
                raise Unsupported("symbolic index into a list of objects")
            r = ts[-1]
            for k in range(len(ts) - 2, -1, -1):
                r = ite(eq(i, num(k)), ts[k], r)
            return S(r)
        i = simp_int(i)
        r = self.memo.get(i)
        if r is None:
            r = val(self._f(i))
            self.memo[i] = r
        return r

    def t(self, i):
        return lift(self.at(i))

    @property
    def shape(self):
        return (S(self.n) if self.items is None else len(self.items),)

    @property
    def size(self):
        return self.shape[0]

    ndim = 1

    @property
    def T(self):
        return self

    def slen(self):
        return len(self.items) if self.items is not None else S(self.n)

    def __len__(self):
        if self.items is not None:
            return len(self.items)
        raise Unsupported("len() of a symbolic array outside the shim")

    def __iter__(self):
        if self.items is None:
            raise Unsupported("iteration over a symbolic array")
        return iter(list(self.items))

    def copy(self):
        r = A1(0, items=self.items) if self.items is not None else A1(self._n, self._f)
        return r

    def __deepcopy__(self, memo):
        return self.copy()

    __copy__ = copy

    def astype(self, *_a, **_k):
        return self.copy()

    def tolist(self):
        if self.items is not None:
            return list(self.items)
        return self.copy()

    def flatten(self):
        return self.copy()

    ravel = flatten

    def reshape(self, *a):
        return self.copy()

    def __repr__(self):
        if self.items is not None:
            return "A1%r" % (self.items,)
        return "A1(n=%s)" % tm.show(self.n, 3)

    # ---------------------------------------------------------------- indexing
    def norm_index(self, k):
        t = nterm(k)
        if tm.isnum(t):
            if tm.nv(t) < 0:
                return add(self.n, t)
            return t
        return self.wrap(t)

    def wrap(self, t):
        """python's negative indices"""
        if t.op == "app" and t.args[0] in NONNEG_APPS:
            return t
        c = lt(t, num(0))
        k = E_.known(c)
        if k is None:
            k = E_.entailed(c)
        if k is True:
            return simp_int(add(self.n, t))
        if k is False:
            return t
        if E_.quiet:
            return t
        return ite(c, add(self.n, t), t)

    def bounds(self, sl):
        if sl.step is not None and sl.step != 1:
            raise Unsupported("strided slice")

        def lim(x, default):
            if x is None:
                return default
            t = nterm(x)
            if tm.isnum(t):
                if tm.nv(t) < 0:
                    t = add(self.n, t)
                    if tm.isnum(t) and tm.nv(t) < 0:
                        t = num(0)
                    return t
                if tm.nv(t) == 0:
                    return t
            if t is self.n:
                return t
            if tm.isnum(t) and tm.isnum(self.n):
                return t if tm.nv(t) <= tm.nv(self.n) else self.n
            if not tm.isnum(t):
                w = self.wrap(t)
                if w.op == "ite":
                    w = ite(w.args[0], ite(lt(w.args[1], num(0)), num(0), w.args[1]), w.args[2])
                t = w
            k = E_.entailed(le(t, self.n))
            if k is True:
                return t
            if k is False:
                return self.n
            return ite(le(t, self.n), t, self.n)
        return lim(sl.start, num(0)), lim(sl.stop, self.n)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) == 1:
                return self[k[0]]
            raise Unsupported("multi-index on a vector")
        if isinstance(k, slice):
            a, b = self.bounds(k)
            if tm.isnum(a) and tm.nv(a) == 0 and b is self.n:
                r = self.copy()
                r.view = True
                r.src = self
                return r
            if self.items is not None and tm.isnum(a) and tm.isnum(b):
                r = A1(0, items=self.items[int(tm.nv(a)):int(tm.nv(b))])
                r.view = True
                return r
            src = self.copy()
            n = sub(b, a)
            if not tm.isnum(n) and E_.entailed(le(num(0), n)) is not True:
                n = ite(le(num(0), n), n, num(0))
            r = A1(n, (lambda i: src.at(add(i, a))))
            r.view = True
            return r
        if isinstance(k, A1):
            if k.items is not None:
                return A1(0, items=[self[x] for x in k.items])
            s = self.copy()
            if lift(k.at(bvar(9))) is not None and lift(k.at(bvar(9))).sort == "B":
                raise Unsupported("boolean mask")
            return A1(k.n, lambda i: s.at(s.norm_index(k.at(i))))
        if isinstance(k, (list,)):
            return A1(0, items=[self[x] for x in k])
        return self.at(self.norm_index(k))

    def touch(self):
        if self.view:
            raise Unsupported("write through a slice")
        self.ver += 1
        if E_writes is not None:
            E_writes.append(self)

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            a, b = self.bounds(k)
            self.touch()
            full = tm.isnum(a) and tm.nv(a) == 0 and b is self.n
            if isarr(v):
                v = asA1(v)
                same_len(sub(b, a), v.n)
                w = v.copy()
                g = lambda i: w.at(sub(i, a) if not (tm.isnum(a) and tm.nv(a) == 0) else i)
            else:
                if not is_scalar(v):
                    raise Unsupported("slice assignment of %s" % type(v).__name__)
                g = lambda i: v
            if full:
                if self.items is not None:
                    self.items = [val(g(num(i))) for i in range(len(self.items))]
                else:
                    self._f, self.memo = g, {}
                return
            if self.items is not None and tm.isnum(a) and tm.isnum(b):
                for i in range(int(tm.nv(a)), int(tm.nv(b))):
                    self.items[i] = val(g(num(i)))
                return
            old = self.copy()
            self.to_sym()
            self._f = lambda i: S(ite(band(le(a, i), lt(i, b)), lift(g(i)), lift(old.at(i))))
            self.memo = {}
            return
        i0 = self.norm_index(k)
        self.touch()
        if self.items is not None and tm.isnum(i0):
            self.items[int(tm.nv(i0))] = val(v)
            return
        if isarr(v):
            v = asA1(v)
            v = v.at(num(0))
        old = self.copy()
        self.to_sym()
        vt = lift(v)
        if vt is None:
            raise Unsupported("storing an object in a symbolic array")
        self.stores = getattr(self, "stores", [])
        self.stores.append((i0, vt))
        self._f = lambda i: S(vt if i is i0 else ite(eq(i, i0), vt, lift(old.at(i))))
        self.memo = {}

    def to_sym(self):
        if self.items is not None:
            src = A1(0, items=self.items)
            self._n, self._f, self.items = num(len(src.items)), src.at, None
            self.memo = {}

    # ---------------------------------------------------------------- arithmetic
    def _bin(self, o, f, rev=False):
        if isinstance(o, M2):
            return NotImplemented
        if isinstance(o, (list, tuple)) or type(o).__name__ == "ndarray":
            o = asA1(o)
        if isinstance(o, A1):
            if o.items is not None and self.items is not None:
                a, b = self.items, o.items
                if len(a) != len(b):
                    if len(b) == 1:
                        b = b * len(a)
                    elif len(a) == 1:
                        a = a * len(b)
                    else:
                        raise ValueError("operands could not be broadcast together")
                return A1(0, items=[f(x, y) if not rev else f(y, x) for x, y in zip(a, b)])
            x, y = self.copy(), o.copy()
            if o.items is not None and len(o.items) == 1 and not is_one(self.n):
                c = o.items[0]
                return A1(self.n, (lambda i: f(c, x.at(i))) if rev else (lambda i: f(x.at(i), c)))
            same_len(self.n, o.n)
            n = self.n
            return A1(n, (lambda i: f(y.at(i), x.at(i))) if rev else (lambda i: f(x.at(i), y.at(i))))
        if not is_scalar(o):
            return NotImplemented
        o = val(o)
        if self.items is not None:
            return A1(0, items=[f(o, x) if rev else f(x, o) for x in self.items])
        x = self.copy()
        return A1(self.n, (lambda i: f(o, x.at(i))) if rev else (lambda i: f(x.at(i), o)))

    def map(self, f):
        if self.items is not None:
            return A1(0, items=[f(x) for x in self.items])
        x = self.copy()
        return A1(self.n, lambda i: f(x.at(i)))

    def __neg__(self):
        return self.map(lambda x: -x)

    def __pos__(self):
        return self

    def __abs__(self):
        return self.map(abs)

    def __bool__(self):
        if self.items is not None and len(self.items) == 1:
            return bool(self.items[0])
        raise Unsupported("truth value of an array")

    def __float__(self):
        if self.items is not None and len(self.items) == 1:
            return float(self.items[0])
        raise Unsupported("float() of an array")

    def max(self, *a, **k):
        return extremum(self, True)

    def min(self, *a, **k):
        return extremum(self, False)

    def sum(self, *a, **k):
        return asum(self)

    def mean(self, *a, **k):
        return asum(self) / S(tm.toreal(self.n))

    def argmax(self, *a, **k):
        return argext(self, True)

    def argmin(self, *a, **k):
        return argext(self, False)

    def dot(self, o):
        return dot(self, o)

    def append(self, *_a):
        raise AttributeError("'numpy.ndarray' object has no attribute 'append'")


E_writes = None


def _mk(opname):
    import operator
    f = getattr(operator, opname)
    fv = lambda a, b: f(val(a), val(b))
    return (lambda s, o: s._bin(o, fv)), (lambda s, o: s._bin(o, fv, True))


for _n in ("add", "sub", "mul", "truediv", "pow", "floordiv", "mod"):
    _a, _b = _mk(_n)
    setattr(A1, "__%s__" % _n, _a)
    setattr(A1, "__r%s__" % _n, _b)
for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    _a, _b = _mk(_n)
    setattr(A1, "__%s__" % _n, _a)
A1.__hash__ = object.__hash__


def is_one(n):
    return tm.isnum(n) and tm.nv(n) == 1


def same_len(a, b):
    if a is b:
        return
    if tm.isnum(a) and tm.isnum(b):
        if tm.nv(a) != tm.nv(b):
            raise ValueError("operands could not be broadcast together")
        return
    g = eq(a, b)
    if g in E_.pcset:
        return
    if E_.ctx(E_.pc, E_.univ).zero(sub(a, b)):
        return
    if E_.prove(g, E_.pc, E_.univ, ms=1000):
        return
    raise Unsupported("array lengths %s and %s not provably equal" % (tm.show(a, 3), tm.show(b, 3)))


def asA1(x):
    if isinstance(x, A1):
        return x
    if isinstance(x, M2):
        raise Unsupported("2-d array used as vector")
    if type(x).__name__ == "ndarray":
        x = x.tolist()
    if isinstance(x, SList):
        return x.arr()
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            if is_scalar(e):
                out.append(val(e))
            elif isinstance(e, A1) and e.items is not None and len(e.items) == 1:
                out.append(e.items[0])
            else:
                raise Unsupported("nested array")
        return A1(0, items=out)
    if is_scalar(x):
        return A1(0, items=[val(x)])
    raise Unsupported("array from %s" % type(x).__name__)


class M2:
    """2-d array; rows: list of A1 (concrete) or f(i,j) with lengths n, m"""
    __array_ufunc__ = None

    def __init__(self, rows=None, n=None, m=None, f=None):
        self.rows = rows
        if rows is not None:
            self.n, self.m = num(len(rows)), rows[0].n if rows else num(0)
            self.f = lambda i, j: (rows[int(tm.nv(i))] if tm.isnum(i) else _pick(rows, i)).at(j)
        else:
            self.n, self.m, self.f = n, m, f

    @property
    def shape(self):
        return tuple(int(tm.nv(x)) if tm.isnum(x) else S(x) for x in (self.n, self.m))

    ndim = 2

    def slen(self):
        return self.shape[0]

    def __len__(self):
        return int(tm.nv(self.n))

    @property
    def T(self):
        f = self.f
        if tm.isnum(self.n) and tm.isnum(self.m):
            return M2(rows=[A1(self.n, (lambda i, j=j: f(i, num(j)))) for j in range(int(tm.nv(self.m)))])
        return M2(n=self.m, m=self.n, f=lambda i, j: f(j, i))

    def ix(self, k, n):
        t = nterm(k)
        if tm.isnum(t) and tm.nv(t) < 0:
            return add(n, t)
        return t

    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if isinstance(a, slice) and isinstance(b, slice):
                raise Unsupported("2-d slice")
            if isinstance(a, slice):
                j = self.ix(b, self.m)
                return A1(self.n, lambda i: f(i, j))[a]
            if isinstance(b, slice):
                i = self.ix(a, self.n)
                return A1(self.m, lambda j: f(i, j))[b]
            return f(self.ix(a, self.n), self.ix(b, self.m))
        if isinstance(k, slice):
            if k.start is None and k.stop is None:
                return self
            raise Unsupported("row slice")
        i = self.ix(k, self.n)
        if self.rows is not None and tm.isnum(i):
            return self.rows[int(tm.nv(i))]
        return A1(self.m, lambda j: f(i, j))

    def __setitem__(self, k, v):
        raise Unsupported("assignment into a 2-d array")

    def __iter__(self):
        if not tm.isnum(self.n):
            raise Unsupported("iteration over a symbolic matrix")
        return iter([self[i] for i in range(int(tm.nv(self.n)))])

    def map(self, g):
        f = self.f
        if self.rows is not None:
            return M2(rows=[r.map(g) for r in self.rows])
        return M2(n=self.n, m=self.m, f=lambda i, j: g(f(i, j)))

    def _bin(self, o, op, rev=False):
        if isinstance(o, M2):
            if self.rows is not None and o.rows is not None:
                return M2(rows=[op(a, b) for a, b in zip(self.rows, o.rows)])
            raise Unsupported("matrix arithmetic")
        if is_scalar(o):
            o = val(o)
            return self.map((lambda x: op(o, x)) if rev else (lambda x: op(x, o)))
        if isinstance(o, A1) and self.rows is not None:
            # broadcast along the last axis (numpy aligns trailing axes)
            same_len(self.m, o.n)
            return M2(rows=[op(o, r) if rev else op(r, o) for r in self.rows])
        raise Unsupported("matrix arithmetic")

    def __deepcopy__(self, memo):
        return self

    def dot(self, o):
        return dot(self, o)


def _pick(rows, i):
    raise Unsupported("symbolic row index")


import operator as _op
for _n in ("add", "sub", "mul", "truediv", "pow"):
    _f = getattr(_op, _n)
    setattr(M2, "__%s__" % _n, (lambda f: lambda s, o: s._bin(o, f))(_f))
    setattr(M2, "__r%s__" % _n, (lambda f: lambda s, o: s._bin(o, f, True))(_f))


class SList:
    """a python list whose length may be symbolic (append/extend/index/iterate by rule)"""

    def __init__(self, parts=None):
        self.base = parts            # A1 or None
        self.tail = []

    def arr(self):
        r = self.base if self.base is not None else A1(0, items=[])
        if self.tail:
            r = concat([r, A1(0, items=[val(x) for x in self.tail])])
        return r

    def append(self, x):
        self.tail.append(x)

    def slen(self):
        return self.arr().slen()

    def __getitem__(self, k):
        return self.arr()[k]

    def __iter__(self):
        return iter(self.arr())

    def __len__(self):
        return len(self.arr())


def concat(parts):
    parts = [asA1(p) for p in parts]
    if all(p.items is not None for p in parts):
        return A1(0, items=[x for p in parts for x in p.items])
    r = parts[0].copy()
    for p in parts[1:]:
        if p.items is not None and not p.items:
            continue
        if r.items is not None and not r.items:
            r = p.copy()
            continue
        r = _cat2(r, p.copy())
    return r


def _cat2(a, b):
    na = a.n

    def f(i):
        # resolve statically when possible
        d = sub(i, na)
        if tm.isnum(i) and tm.isnum(na):
            return a.at(i) if tm.nv(i) < tm.nv(na) else b.at(d)
        dp = poly_int(d)
        if dp is not None:
            return b.at(num(dp)) if dp >= 0 else a.at(i)
        c = lt(i, na)
        k = E_.known(c)
        if k is None and not E_.has_bound(i):
            k = E_.entailed(c)
        if k is True:
            return a.at(i)
        if k is False:
            return b.at(simp_int(d))
        x, y = lift(a.at(i)), lift(b.at(simp_int(d)))
        return S(ite(c, x, y))
    return A1(add(na, b.n), f)


def ipoly(t):
    """integer polynomial normal form {monomial: coefficient}; a monomial is a sorted tuple of terms"""
    if t.op == "num":
        if tm.nv(t).denominator != 1:
            return None
        return {(): int(tm.nv(t))} if tm.nv(t) else {}
    if t.op == "add":
        r = {}
        for a in t.args:
            p = ipoly(a)
            if p is None:
                return None
            for k, v in p.items():
                r[k] = r.get(k, 0) + v
        return {k: v for k, v in r.items() if v}
    if t.op == "mul":
        r = {(): 1}
        for a in t.args:
            p = ipoly(a)
            if p is None or len(p) * len(r) > 60:
                return None
            q = {}
            for k1, v1 in r.items():
                for k2, v2 in p.items():
                    k = tuple(sorted(k1 + k2, key=lambda x: x.uid))
                    q[k] = q.get(k, 0) + v1 * v2
            r = {k: v for k, v in q.items() if v}
        return r
    return {(t,): 1}


_SIMP = {}


def simp_int(d):
    """canonical form of an integer expression"""
    if d.op in ("num", "var", "app") or d.sort != "I":
        return d
    r = _SIMP.get(d)
    if r is None:
        p = ipoly(d)
        if p is None:
            r = d
        else:
            parts = []
            for k, v in sorted(p.items(), key=lambda kv: [x.uid for x in kv[0]]):
                if k:
                    parts.append(mul(*((num(v),) + k)) if v != 1 else mul(*k))
            c = p.get((), 0)
            if c or not parts:
                parts.append(num(c))
            r = add(*parts)
        _SIMP[d] = r
        _SIMP[r] = r
    return r


def lin(t):
    p = ipoly(t)
    if p is None:
        return None
    return p.get((), 0), {(k[0] if len(k) == 1 else mul(*k)): v for k, v in p.items() if k}


def poly_int(d):
    p = lin(d)
    if p is not None and not p[1]:
        return p[0]
    return None


def extremum(a, mx):
    a = asA1(a)
    if a.items is not None:
        if not a.items:
            raise ValueError("max() arg is an empty sequence")
        r = lift(a.items[0])
        for x in a.items[1:]:
            x = lift(x)
            r = ite(lt(r, x) if mx else lt(x, r), x, r)
        return S(r)
    src = a.copy()
    l = lam(lambda i: src.at(i))
    name = "amax" if mx else "amin"
    m = tm.app(name, (l, src.n))
    w = tm.app("$w_" + name, (l, src.n), "I")
    E_.forall(src.n, lambda i: (le(src.t(i), m) if mx else le(m, src.t(i))))
    E_.assume(bor_nonempty(src.n, band(le(num(0), w), lt(w, src.n), eq(src.t(w), m))))
    return S(m)


def bor_nonempty(n, f):
    return tm.bor(le(n, num(0)), f)


def argext(a, mx):
    a = asA1(a)
    probe = a.t(num(0)) if a.items else lift(a.at(bvar(8)))
    if probe is not None and probe.sort == "B":
        if not mx:
            raise Unsupported("argmin of booleans")
        src = a.copy()
        l = lam(lambda i: S(ite(src.t(i), num(1), num(0))))
        w = tm.app("argfirst", (l, src.n), "I")
        # first true index, 0 when none is true
        some = tm.var("$some%d" % l.uid, "B")
        E_.assume(band(le(num(0), w)))
        E_.assume(bor_nonempty(src.n, lt(w, src.n)))
        E_.assume(tm.bor(src.t(w), eq(w, num(0))))
        E_.forall(src.n, lambda i: tm.bor(le(w, i), bnot(src.t(i))))
        E_.forall(src.n, lambda i: tm.bor(src.t(w), bnot(src.t(i))))
        return S(w)
    src = a.copy()
    if src.items is not None:
        b, bi = src.t(num(0)), num(0)
        for k in range(1, len(src.items)):
            x = src.t(num(k))
            c = lt(b, x) if mx else lt(x, b)
            b, bi = ite(c, x, b), ite(c, num(k), bi)
        return S(bi)
    l = lam(lambda i: src.at(i))
    w = tm.app("argmax" if mx else "argmin", (l, src.n), "I")
    E_.assume(band(le(num(0), w)))
    E_.assume(bor_nonempty(src.n, lt(w, src.n)))
    E_.forall(src.n, lambda i: (le(src.t(i), src.t(w)) if mx else le(src.t(w), src.t(i))))
    return S(w)


def asum(a):
    a = asA1(a)
    if a.items is not None:
        r = num(0)
        for x in a.items:
            r = add(r, tm.asnum(lift(x)))
        return S(r)
    src = a.copy()
    return S(tm.app("sum", (lam(lambda i: S(tm.asnum(src.t(i)))), src.n)))


def dot(a, b):
    if isinstance(a, M2) and isinstance(b, M2):
        bt = b.T
        if a.rows is None or bt.rows is None:
            raise Unsupported("symbolic matrix product")
        return M2(rows=[A1(0, items=[dot(r, c) for c in bt.rows]) for r in a.rows])
    if isinstance(a, M2):
        if a.rows is None:
            raise Unsupported("symbolic matrix product")
        b = asA1(b)
        return A1(0, items=[dot(r, b) for r in a.rows])
    if isinstance(b, M2):
        return dot(b.T, a)
    if is_scalar(a) or is_scalar(b):
        return val(a) * b if not is_scalar(b) else a * val(b)
    a, b = asA1(a), asA1(b)
    if a.items is not None and b.items is not None and len(a.items) != len(b.items):
        raise ValueError("shapes not aligned")
    return asum(a * b)
