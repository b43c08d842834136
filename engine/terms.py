"""Hash-consed symbolic terms and the value class `S` the real code is executed on.

A term is (op, args).  Sorts: 'R' real, 'I' integer, 'B' boolean.
Machine floats are mathematical reals here (recorded as an assumption)."""
from fractions import Fraction
import math
import re

_INTERN = {}


class T(complex):
    """an interned term; the number it carries is its creation order, so that hashing (hence every
    iteration over a set of terms) is the same on every run"""
    __slots__ = ("op", "args", "sort", "uid", "_n")

    def _no(self, *a):
        raise TypeError("arithmetic on a raw term")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = __abs__ = _no
    __float__ = __int__ = _no

    def __repr__(self):
        return show(self)


def mk(op, args, sort):
    key = (op, args, sort)
    t = _INTERN.get(key)
    if t is None:
        t = T(len(_INTERN) + 1)
        t.op, t.args, t.sort = op, args, sort
        t.uid = len(_INTERN)
        t._n = None
        _INTERN[key] = t
    return t


def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if t.op == "num":
        f = t.args[0]
        return str(f) if f.denominator == 1 else ("%.12g" % float(f))
    if t.op == "var":
        return t.args[0]
    if t.op in ("true", "false", "pi"):
        return t.op
    if depth <= 0:
        return "…"
    a = [show(x, depth - 1) for x in t.args]
    if t.op == "add":
        return "(" + " + ".join(a) + ")"
    if t.op == "mul":
        return "*".join(a)
    if t.op == "pow":
        return "%s^%s" % (a[0], a[1])
    if t.op in ("fn", "app"):
        return "%s(%s)" % (a[0], ", ".join(a[1:]))
    if t.op in ("le", "lt", "eq"):
        return "(%s %s %s)" % (a[0], {"le": "<=", "lt": "<", "eq": "=="}[t.op], a[1])
    return "%s(%s)" % (t.op, ", ".join(a))


TRUE = mk("true", (), "B")
FALSE = mk("false", (), "B")
PI = mk("pi", (), "R")


def num(f, sort=None):
    if isinstance(f, bool):
        f = int(f)
    if isinstance(f, int):
        return mk("num", (Fraction(f),), sort or "I")
    if isinstance(f, float):
        f = flt(f)
    return mk("num", (Fraction(f),), sort or "R")


def flt(x):
    """The rational a decimal literal denotes (not its binary rounding)."""
    if math.isinf(x) or math.isnan(x):
        raise Unsupported("non-finite constant")
    return Fraction(repr(float(x)))


class Unsupported(Exception):
    """The source leaves the subset the engine can reason about."""


def isnum(t):
    return t.op == "num"


def nv(t):
    return t.args[0]


def join(*ts):
    return "I" if all(t.sort == "I" for t in ts) else "R"


def add(*ts):
    parts, c, so = [], Fraction(0), join(*ts)
    for t in ts:
        if t.op == "num":
            c += nv(t)
        elif t.op == "add":
            for u in t.args:
                if u.op == "num":
                    c += nv(u)
                else:
                    parts.append(u)
        else:
            parts.append(t)
    if not parts:
        return num(c, so)
    if c != 0:
        parts.append(num(c, so))
    if len(parts) == 1:
        return parts[0]
    return mk("add", tuple(parts), so)


def mul(*ts):
    parts, c, so = [], Fraction(1), join(*ts)
    for t in ts:
        if t.op == "num":
            c *= nv(t)
        elif t.op == "mul":
            for u in t.args:
                if u.op == "num":
                    c *= nv(u)
                else:
                    parts.append(u)
        else:
            parts.append(t)
    if c == 0 or not parts:
        return num(c, so)
    if c != 1:
        parts.insert(0, num(c, so))
    if len(parts) == 1:
        return parts[0]
    return mk("mul", tuple(parts), so)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def power(b, e):
    if isnum(e):
        ev = nv(e)
        if ev == 1:
            return b
        if ev == 0:
            return num(1)
        if isnum(b):
            bv = nv(b)
            if ev.denominator == 1 and (bv != 0 or ev > 0) and abs(ev) < 200:
                r = bv ** int(ev)
                return num(r, "I" if (b.sort == "I" and r.denominator == 1 and ev > 0 and e.sort == "I") else "R")
            if bv == 1:
                return num(1)
            if bv == 0 and ev > 0:
                return num(0)
        if ev.denominator == 1 and ev > 0 and b.sort == "I" and e.sort == "I":
            return mk("pow", (b, e), "I")
    return mk("pow", (b, num(nv(e), "R") if isnum(e) else e), "R")


def div(a, b):
    if isnum(b):
        if nv(b) == 0:
            raise Unsupported("division by the constant zero")
        if isnum(a):
            return num(nv(a) / nv(b), "R")
        r = mul(num(1 / nv(b), "R"), a)
        return r
    return mul(a if a.sort == "R" else toreal(a), power(b, num(-1)))


def toreal(t):
    if t.sort == "R":
        return t
    if t.op == "num":
        return num(nv(t), "R")
    return mk("toreal", (t,), "R")


def fn(name, *args):
    return mk("fn", (name,) + tuple(args), "R")


def app(name, args, sort="R"):
    return mk("app", (name,) + tuple(args), sort)


def var(name, sort="R"):
    return mk("var", (name,), sort)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if a.sort in "RI" and b.sort in "RI":
            a, b = toreal(a), toreal(b)
    if a.sort == "B":
        return bor(band(c, a), band(bnot(c), b))
    return mk("ite", (c, a, b), a.sort)


def le(a, b):
    if isnum(a) and isnum(b):
        return TRUE if nv(a) <= nv(b) else FALSE
    if a is b:
        return TRUE
    return mk("le", (a, b), "B")


def lt(a, b):
    if isnum(a) and isnum(b):
        return TRUE if nv(a) < nv(b) else FALSE
    if a is b:
        return FALSE
    return mk("lt", (a, b), "B")


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if isnum(a) and isnum(b):
        return TRUE if nv(a) == nv(b) else FALSE
    if a is b:
        return TRUE
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", (a, b), "B")


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def band(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            return FALSE
        if t is TRUE:
            continue
        for u in (t.args if t.op == "and" else (t,)):
            if u not in out:
                out.append(u)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def bor(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            return TRUE
        if t is FALSE:
            continue
        for u in (t.args if t.op == "or" else (t,)):
            if u not in out:
                out.append(u)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def absolute(a):
    if isnum(a):
        return num(abs(nv(a)), a.sort)
    return mk("abs", (a,), a.sort)


# ------------------------------------------------------------------ traversal
def subst(t, m, memo=None):
    """Replace terms (by identity) using mapping m."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ("num", "var"):
        memo[t] = t
        return t
    new = tuple(subst(a, m, memo) if isinstance(a, T) else a for a in t.args)
    r = t if all(x is y for x, y in zip(new, t.args)) else rebuild(t.op, new, t.sort)
    memo[t] = r
    return r


def rebuild(op, a, sort):
    if op == "add":
        return add(*a)
    if op == "mul":
        return mul(*a)
    if op == "pow":
        return power(*a)
    if op == "ite":
        return ite(*a)
    if op == "le":
        return le(*a)
    if op == "lt":
        return lt(*a)
    if op == "eq":
        return eq(*a)
    if op == "not":
        return bnot(*a)
    if op == "and":
        return band(*a)
    if op == "or":
        return bor(*a)
    if op == "abs":
        return absolute(*a)
    if op == "toreal":
        return toreal(*a)
    return mk(op, a, sort)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        for a in u.args:
            if isinstance(a, T):
                stack.append(a)
    return seen


# ------------------------------------------------------------------ engine hook
class _Eng:
    decide = None


ENG = _Eng()


# ------------------------------------------------------------------ value class
def lift(x):
    """Python value -> T, or None when x is not a scalar."""
    if isinstance(x, S):
        return x.t
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return num(x)
    if isinstance(x, float):
        return num(flt(x))
    if isinstance(x, Fraction):
        return num(x)
    tn = type(x).__module__
    if tn == "numpy":
        import numpy as np
        if isinstance(x, np.bool_):
            return TRUE if bool(x) else FALSE
        if isinstance(x, np.integer):
            return num(int(x))
        if isinstance(x, np.floating):
            return num(flt(float(x)))
        if isinstance(x, np.ndarray) and x.shape == ():
            return lift(x.item())
    return None


def asnum(t):
    """bool terms used in arithmetic"""
    if t.sort == "B":
        return ite(t, num(1), num(0))
    return t


def _arith(f):
    def op(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return S(f(asnum(self.t), asnum(o)))

    def rop(self, other):
        o = lift(other)
        if o is None:
            return NotImplemented
        return S(f(asnum(o), asnum(self.t)))
    return op, rop


def floordiv(a, b):
    if isnum(a) and isnum(b):
        return num(nv(a) // nv(b), join(a, b))
    q = div(a, b)
    return mk("floor", (q,), "I")


def modulo(a, b):
    if isnum(a) and isnum(b):
        return num(nv(a) % nv(b), join(a, b))
    return sub(a, mul(b, floordiv(a, b)))


class S:
    """A symbolic scalar."""
    __slots__ = ("t",)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _arith(add)
    __sub__, __rsub__ = _arith(sub)
    __mul__, __rmul__ = _arith(mul)
    __truediv__, __rtruediv__ = _arith(div)
    __pow__, __rpow__ = _arith(power)
    __floordiv__, __rfloordiv__ = _arith(floordiv)
    __mod__, __rmod__ = _arith(modulo)

    def __neg__(self):
        return S(neg(asnum(self.t)))

    def __pos__(self):
        return self

    def __abs__(self):
        return S(absolute(self.t))

    def _cmp(self, other, f):
        o = lift(other)
        if o is None:
            return NotImplemented
        r = f(asnum(self.t), asnum(o))
        return S(r)

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        ot = lift(o)
        if ot is None:
            if o is None or isinstance(o, str):
                return False
            return NotImplemented
        if self.t.sort == "B" or ot.sort == "B":
            if self.t.sort == ot.sort:
                return S(eq(self.t, ot))
            return S(eq(asnum(self.t), asnum(ot)))
        return S(eq(self.t, ot))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return S(bnot(r.t)) if isinstance(r, S) else not r

    def __hash__(self):
        return hash(self.t)

    def __and__(self, o):
        ot = lift(o)
        if ot is None:
            return NotImplemented
        return S(band(self.t, ot))
    __rand__ = __and__

    def __or__(self, o):
        ot = lift(o)
        if ot is None:
            return NotImplemented
        return S(bor(self.t, ot))
    __ror__ = __or__

    def __invert__(self):
        return S(bnot(self.t))

    def __bool__(self):
        t = self.t
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.sort != "B":
            t = bnot(eq(t, num(0)))
            if t is TRUE:
                return True
            if t is FALSE:
                return False
        return ENG.decide(t)

    def __index__(self):
        if isnum(self.t) and nv(self.t).denominator == 1:
            return int(nv(self.t))
        raise Unsupported("symbolic value used as a concrete integer")

    def __int__(self):
        if isnum(self.t):
            return int(nv(self.t))
        raise Unsupported("symbolic value used as a concrete integer")

    def __float__(self):
        if isnum(self.t):
            return float(nv(self.t))
        raise Unsupported("symbolic value used as a concrete float")

    def __round__(self, n=None):
        return self

    def __format__(self, spec):
        return text_token(self.t, spec)

    def __str__(self):
        return text_token(self.t, "")

    def __repr__(self):
        return "S[%s]" % show(self.t)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy scalar look-alikes
    @property
    def T(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    @property
    def real(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def conjugate(self):
        return self


def K(text):
    """A numeric literal of the source, at its exact decimal value."""
    return S(num(Fraction(text)))


# ------------------------------------------------------------------ numbers printed into text
TOKENS = {}
TOKEN = re.compile("\u27e6(\\d+)\u27e7")


def text_token(t, spec):
    """what a printed number looks like in a text: a mark that stands for (number, format)"""
    if t.op == "num" and t.sort == "I" and not spec:
        return str(int(nv(t)))
    k = TOKENS.setdefault((t, spec), len(TOKENS))
    return "\u27e6%d\u27e7" % k


def same_text(a, b, same):
    """equal texts, given equality of the printed numbers"""
    if a == b:
        return True
    x, y = TOKEN.split(a), TOKEN.split(b)
    if len(x) != len(y) or x[::2] != y[::2]:
        return False
    back = {str(k): v for v, k in TOKENS.items()}
    return all(p == q or back[p][1] == back[q][1] and same(back[p][0], back[q][0]) for p, q in zip(x[1::2], y[1::2]))
