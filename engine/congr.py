"""Congruence modulo normal forms: subterms and comparisons of a proof obligation that denote the same value although
written differently are identified.  Numeric evaluation only proposes candidates; every identification is proved by the
normal-form prover (arguments equal => applications equal; differences proportional => comparisons equivalent)."""
import math
import zlib
from fractions import Fraction
from . import terms as tm
from .terms import T, num, sub, mul, le, lt
from .evalnum import Ev, Bad


def crc(s):
    return zlib.crc32(s.encode())


class Probe(Ev):
    """total evaluation (consistent on equal arguments), used for guessing only"""

    def _ev(self, t):
        if t.op == "lam":
            return float(t.uid)
        if t.op == "app":
            args = [self.ev(a) if isinstance(a, T) else a for a in t.args[1:]]
            z = sum((3.7 + k) * (a if isinstance(a, (int, float)) else crc(str(a)) % 1000) for k, a in enumerate(args))
            lo, hi = self.ranges.get(t.args[0], (0.2, 1.7))
            h = (crc(t.args[0]) % 1009) / 160.0
            if t.sort == "B":
                return math.sin(z + h) > 0
            v = lo + (hi - lo) * (0.5 + 0.5 * math.sin(z + h))
            return int(9 * (0.5 + 0.5 * math.sin(z + h))) if t.sort == "I" else v
        if t.op == "pow":
            b, e = self.ev(t.args[0]), self.ev(t.args[1])
            try:
                return math.pow(b, e)
            except (ValueError, OverflowError, ZeroDivisionError):
                try:
                    return math.pow(abs(b) or 1e-3, e)
                except OverflowError:
                    raise Bad()
        if t.op == "fn" and t.args[0] in ("arccos", "arcsin"):
            x = self.ev(t.args[1])
            return Ev.fn(self, t.args[0], [x]) if abs(x) <= 1 else x
        return Ev._ev(self, t)


def near(a, b):
    return abs(a - b) <= 1e-7 * max(abs(a), abs(b)) + 1e-280


def evals(E, ts):
    """value vectors of the terms at three random points (None where undefined)"""
    if getattr(E, "probes", None) is None or E.probes[0].ranges is not E.ranges:
        E.probes = [Probe(k, E.ranges) for k in (11, 12, 13)]
    out = {}
    for t in ts:
        v = []
        for p in E.probes:
            try:
                x = p.ev(t)
                v.append(float(x))
            except (Bad, OverflowError, ZeroDivisionError, RecursionError, TypeError, ValueError, KeyError):
                v = None
                break
        out[t] = v
    return out


def head(t):
    if t.op == "pow":
        e = t.args[1]
        if tm.isnum(e):
            return None if tm.nv(e).denominator == 1 else ("pow", tm.nv(e)), t.args[:1]
        return ("pow",), t.args
    if t.op == "fn":
        return ("fn", t.args[0], len(t.args)), t.args[1:]
    if t.op == "app" and t.sort == "R" and all(isinstance(a, T) and a.sort in "RI" for a in t.args[1:]):
        return ("app", t.args[0], len(t.args)), t.args[1:]
    return None


def unify(E, goal, pc, univ):
    """(goal, pc) with congruent subterms and equivalent comparisons identified; None when nothing changed"""
    ts = [goal] + list(pc)
    seen = set()
    for t in ts:
        tm.subterms(t, seen)
    if len(seen) > 6000:
        return None
    groups = {}
    for t in seen:
        h = head(t)
        if h and h[0] and not E.has_bound(t):
            groups.setdefault(h[0], []).append(t)
    groups = {h: sorted(g, key=lambda t: t.uid) for h, g in groups.items() if len(g) > 1}
    m, tried = {}, 0
    ctx = None

    def zero(d):
        nonlocal ctx
        if ctx is None:
            ctx = E.ctx(pc, univ)
        return ctx.zero(d)
    for t in sorted((x for g in groups.values() for x in g), key=lambda t: t.uid):
        h, args = head(t)
        g = groups[h]
        va = evals(E, args)
        for u in g:
            if u.uid >= t.uid:
                break
            if u in m:
                continue
            ub = head(u)[1]
            vb = evals(E, ub)
            if any(va[x] is None or vb[y] is None or not all(map(near, va[x], vb[y])) for x, y in zip(args, ub)):
                continue
            tried += 1
            if tried > 40:
                break
            if all(x is y or zero(sub(tm.subst(x, m), tm.subst(y, m))) for x, y in zip(args, ub)):
                m[t] = u
                break
    if m:
        ts = [fix(t, m) for t in ts]
    # comparisons
    seen = set()
    for t in ts:
        tm.subterms(t, seen)
    cmps = sorted((t for t in seen if t.op in ("le", "lt") and t.args[0].sort == "R" or t.op in ("le", "lt") and t.args[1].sort == "R"),
                  key=lambda t: t.uid)
    cmps = [t for t in cmps if not E.has_bound(t)]
    reps, cm = [], {}
    for t in cmps[:120]:
        d = sub(t.args[1], t.args[0])
        v = evals(E, [d])[d]
        if v is None or not all(v):
            continue
        hit = None
        for (d2, v2, t2) in reps:
            k = v[0] / v2[0]
            if not all(near(x, k * y) for x, y in zip(v, v2)):
                continue
            q = Fraction(k).limit_denominator(10**7)
            if q == 0 or not near(float(q), k):
                continue
            tried += 1
            if tried > 60:
                break
            if zero(sub(d, mul(num(q), d2))):
                hit = (q, t2)
                break
        if hit is None:
            reps.append((d, v, t))
        else:
            q, t2 = hit
            a, b = t2.args if q > 0 else (t2.args[1], t2.args[0])
            n = (le if t.op == "le" else lt)(a, b)
            if n is not t:
                cm[t] = n
    if cm:
        ts = [tm.subst(t, cm) for t in ts]
    if not m and not cm:
        return None
    return ts[0], ts[1:]


def fix(t, m):
    for _ in range(12):
        n = tm.subst(t, m)
        if n is t:
            return t
        t = n
    return t
