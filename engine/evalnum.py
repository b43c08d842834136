"""Numeric evaluation of verification conditions: searches an assignment that satisfies a path condition and
falsifies the goal.  A hit is a counterexample of the obligation itself (uninterpreted functions get a fixed
pseudo-random interpretation); it is used to tell `refuted` from `not proved`."""
import hashlib
import math
from .terms import T


def h01(*a):
    d = hashlib.sha256(repr(a).encode()).digest()
    return int.from_bytes(d[:7], "big") / float(1 << 56)


class Bad(Exception):
    pass


def wide(r, k):
    """the customary range of an input, widened k times (assumptions about the input are checked separately)"""
    lo, hi = r
    if 0 <= lo <= hi:
        return lo / k, hi * k
    return lo * k if lo < 0 else lo / k, hi * k if hi > 0 else hi / k


class Ev:
    def __init__(self, seed, ranges, over=None, stretch=1):
        self.seed, self.over = seed, over or {}
        self.ranges = ranges if stretch == 1 else {n: wide(r, stretch) for n, r in ranges.items()}
        self.memo = {}

    def var(self, t):
        n = t.args[0]
        if n in self.over:
            v = self.over[n]
        elif t.sort == "B":
            v = h01(n, self.seed) < 0.5
        elif t.sort == "I":
            v = int(h01(n, self.seed) * 9)
        else:
            lo, hi = self.ranges.get(n, (-1.0, 1.0))
            u = h01(n, self.seed)
            if lo > 0 and hi / lo > 100:
                v = math.exp(math.log(lo) + u * (math.log(hi) - math.log(lo)))
            else:
                v = lo + u * (hi - lo)
        return v

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._ev(t)
            if isinstance(r, complex) or (isinstance(r, float) and not math.isfinite(r)):
                raise Bad()
            self.memo[t] = r
        return r

    def _ev(self, t):
        op = t.op
        if op == "num":
            return float(t.args[0]) if t.sort != "I" else int(t.args[0])
        if op == "var":
            return self.var(t)
        if op == "pi":
            return math.pi
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "add":
            return math.fsum(self.ev(a) for a in t.args) if t.sort == "R" else sum(self.ev(a) for a in t.args)
        if op == "mul":
            r = 1
            for a in t.args:
                r = r * self.ev(a)
            return r
        try:
            if op == "pow":
                b, e = self.ev(t.args[0]), self.ev(t.args[1])
                return math.pow(b, e)
            if op == "fn":
                return self.fn(t.args[0], [self.ev(a) for a in t.args[1:]])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Bad()
        if op == "toreal":
            return float(self.ev(t.args[0]))
        if op == "floor":
            return int(math.floor(self.ev(t.args[0])))
        if op == "abs":
            return abs(self.ev(t.args[0]))
        if op == "ite":
            return self.ev(t.args[1]) if self.ev(t.args[0]) else self.ev(t.args[2])
        if op in ("le", "lt", "eq"):
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            if op == "le":
                return a <= b
            if op == "lt":
                return a < b
            return close(a, b)
        if op == "not":
            return not self.ev(t.args[0])
        if op == "and":
            return all(self.ev(a) for a in t.args)
        if op == "or":
            return any(self.ev(a) for a in t.args)
        if op == "app":
            args = []
            for a in t.args[1:]:
                if isinstance(a, T):
                    if a.op == "lam":
                        raise Bad()
                    args.append(self.ev(a))
                else:
                    args.append(a)
            nm = t.args[0]
            if t.sort == "B":
                return h01(nm, args, self.seed) < 0.5
            if t.sort == "I":
                return int(9 * h01(nm, args, self.seed))
            if nm.startswith("$"):
                raise Bad()
            lo, hi = self.ranges.get(nm, (0.2, 1.7))
            z = 6.28 * h01(nm, self.seed)
            for k, a in enumerate(args):
                if isinstance(a, bool) or not isinstance(a, (int, float)):
                    z += 6 * h01(a)
                else:
                    z += a * (0.5 + h01(nm, k, self.seed))
            return lo + (hi - lo) * (0.5 + 0.5 * math.sin(z))
        raise Bad()

    def fn(self, n, a):
        f = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "log": math.log, "arccos": math.acos,
             "arcsin": math.asin, "arctan": math.atan, "arctan2": math.atan2, "sinh": math.sinh, "cosh": math.cosh,
             "tanh": math.tanh, "arctanh": math.atanh, "arcsinh": math.asinh, "arccosh": math.acosh}.get(n)
        if n == "sign":
            return float((a[0] > 0) - (a[0] < 0))
        if f is None:
            raise Bad()
        return f(*a)


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-300


def falsified(ev, g, tol=1e-5):
    """goal false by a margin"""
    if g.op == "and":
        return any(falsified(ev, a, tol) for a in g.args)
    if g.op == "or":
        return all(falsified(ev, a, tol) for a in g.args)
    if g.op == "eq":
        a, b = ev.ev(g.args[0]), ev.ev(g.args[1])
        if isinstance(a, bool) or isinstance(b, bool):
            return bool(a) != bool(b)
        return abs(a - b) > tol * max(abs(a), abs(b), mag(ev, g.args[0]) * 1e-6, mag(ev, g.args[1]) * 1e-6)
    if g.op in ("le", "lt"):
        a, b = ev.ev(g.args[0]), ev.ev(g.args[1])
        return a > b + 1e-6 * max(abs(a), abs(b), 1e-9)
    if g.op == "not" and g.args[0].op in ("le", "lt"):
        a, b = ev.ev(g.args[0].args[0]), ev.ev(g.args[0].args[1])
        return a < b - 1e-6 * max(abs(a), abs(b), 1e-9)
    return not ev.ev(g)


def mag(ev, t):
    if t.op == "add":
        return max(abs(ev.ev(a)) for a in t.args)
    return abs(ev.ev(t))


def refute(goal, pc, ranges, models=(), tries=400):
    """an assignment (dict) with pc true and goal false, or None"""
    for k in range(tries):
        over = models[k % len(models)] if models and k % 2 else {}
        ev = Ev(k, ranges, over, 1 if k < tries // 2 else 4 if k < 3 * tries // 4 else 16)
        try:
            if not all(ev.ev(p) if p.op != "eq" else ev.ev(p) for p in pc):
                continue
            if falsified(ev, goal, 1e-5 if k < tries // 2 else 1e-3):
                return {t.args[0]: v for t, v in ev.memo.items() if t.op == "var"}
        except (Bad, OverflowError, ZeroDivisionError, RecursionError, TypeError):
            continue
    return None
