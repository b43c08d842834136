"""Path exploration, path conditions and proof obligations.

The real functions are executed on symbolic values; a branch on a symbolic condition is
decided by the path condition (back ends below) or explored both ways; ensures become
obligations `path condition |= goal`, discharged by `prove`:
  norm  - normal forms (engine/norm.py): equational goals
  z3    - SMT over reals/integers with uninterpreted functions (facts of sqrt/sin/cos/... instantiated)
  cvc5  - second SMT opinion on what z3 leaves open."""
import time
from fractions import Fraction
import z3
from z3 import z3core
from . import terms as tm
from .terms import T, S, TRUE, FALSE, lift, num, var, band, bnot, bor, eq, le, lt, add, sub, mul, Unsupported
from .norm import Ctx


class PathEnd(Exception):
    """this path is finished (infeasible or a loop iteration that has been checked)"""


class RestartAll(Exception):
    """loop candidates changed: the exploration of the contract starts over"""


class Infeasible(PathEnd):
    pass


class Universal:
    def __init__(self, n, f):
        self.n, self.f = n, f


class Ob:
    __slots__ = ("name", "goal", "pc", "univ", "status", "backend", "secs", "path", "spec", "fn")

    def __init__(self, name, goal, pc, univ, path):
        self.name, self.goal, self.pc, self.univ, self.path = name, goal, list(pc), list(univ), path
        self.status, self.backend, self.secs, self.spec, self.fn = None, None, 0.0, None, None


KEYS = {}


class Engine:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self.pc, self.univ = [], []
        self.pcset = set()
        self.prefix, self.pos, self.trail = [], 0, []
        self.fresh_n = {}
        self.obs = []
        self.loopstate = {}
        self.stats = {"decide_z3": 0, "z3": 0.0, "norm": 0.0, "cvc5": 0.0, "paths": 0}
        self.tz = {}
        self.maxpaths = 3000
        self.deadline = None
        self.notes = set()
        self.path_id = 0
        self.dmemo = {}
        self.smemo = {}
        self.quiet = 0
        self.ranges = {}
        self.probes = None
        self.trigdefs = {}

    # ------------------------------------------------------------ state
    def fresh(self, name, sort="R"):
        k = self.fresh_n.get(name, 0)
        self.fresh_n[name] = k + 1
        return var(name if k == 0 else "%s#%d" % (name, k), sort)

    def assume(self, t):
        if isinstance(t, S):
            t = t.t
        if t is True or t is TRUE:
            return
        if t is False or t is FALSE:
            raise Infeasible()
        for u in (t.args if t.op == "and" else (t,)):
            if u not in self.pcset:
                self.pc.append(u)
                self.pcset.add(u)

    def forall(self, n, f):
        self.univ.append(Universal(n, f))

    def known(self, t):
        if t is TRUE or t in self.pcset:
            return True
        if t is FALSE or bnot(t) in self.pcset:
            return False
        if t.op in ("le", "lt"):
            a, b = t.args
            if t.op == "le" and lt(a, b) in self.pcset:
                return True
            if t.op == "lt" and lt(b, a) in self.pcset:
                return False
        return None

    def decide(self, t):
        k = self.known(t)
        if k is not None:
            return k
        if t.op == "and":
            # python-level arrays of conditions
            pass
        r = self.entailed(t)
        if r is not None:
            self.assume(t if r else bnot(t))
            return r
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos]
        else:
            ch = True
        self.pos += 1
        self.trail.append(ch)
        self.assume(t if ch else bnot(t))
        return ch

    def choose(self):
        """an unconstrained binary choice (loop rules)"""
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos]
        else:
            ch = True
        self.pos += 1
        self.trail.append(ch)
        return ch

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        """run fn on every feasible path"""
        todo = [[]]
        n = 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > self.maxpaths:
                raise Unsupported("more than %d paths" % self.maxpaths)
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of the contract exhausted")
            self.pc, self.univ, self.pcset = [], [], set()
            self.fresh_n = {}
            self.prefix, self.pos, self.trail = pre, 0, []
            self.path_id = n
            self.stats["paths"] += 1
            try:
                fn()
            except PathEnd:
                pass
            for i in range(len(pre), len(self.trail)):
                if self.trail[i] is True:
                    todo.append(self.trail[:i] + [False])

    def sub_explore(self, fn, limit=64):
        """explore fn from the current state; returns [(extra conditions, value)]; the caller
        restores any mutable state at the start of fn"""
        save = (self.prefix, self.pos, self.trail)
        pc0, u0, fr0 = list(self.pc), list(self.univ), dict(self.fresh_n)
        out, todo, n = [], [[]], 0
        frmax = dict(fr0)
        try:
            while todo:
                pre = todo.pop()
                n += 1
                if n > limit:
                    raise Unsupported("too many paths through a loop body")
                self.pc, self.univ, self.pcset = list(pc0), list(u0), set(pc0)
                self.fresh_n = dict(fr0)
                self.prefix, self.pos, self.trail = pre, 0, []
                try:
                    v = fn()
                    out.append((self.pc[len(pc0):], self.univ[len(u0):], v))
                except PathEnd:
                    pass
                for k, v in self.fresh_n.items():
                    frmax[k] = max(frmax.get(k, 0), v)
                for i in range(len(pre), len(self.trail)):
                    if self.trail[i] is True:
                        todo.append(self.trail[:i] + [False])
        finally:
            self.prefix, self.pos, self.trail = save
            self.pc, self.univ, self.pcset = pc0, u0, set(pc0)
            self.fresh_n = frmax
        return out

    # ------------------------------------------------------------ SMT
    def z(self, t):
        r = self.tz.get(t)
        if r is None:
            r = self._z(t)
            self.tz[t] = r
        return r

    def uf(self, name, args, sort):
        so = [a.sort() for a in args]
        rs = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[sort]
        key = "%s/%s" % (name, "".join(str(s)[0] for s in so))
        return z3.Function(key, *(so + [rs]))(*args)

    def _z(self, t):
        op = t.op
        if op == "num":
            f = t.args[0]
            if t.sort == "I":
                return z3.IntVal(int(f))
            return z3.RealVal("%d/%d" % (f.numerator, f.denominator))
        if op == "var":
            return {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[t.sort](t.args[0])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "pi":
            return z3.Real("$pi")
        if op == "app":
            args = []
            for a in t.args[1:]:
                if isinstance(a, T):
                    args.append(self.lamconst(a) if a.op == "lam" else self.z(a))
                else:
                    args.append(z3.StringVal(str(a)))
            return self.uf("app_" + t.args[0], args, t.sort)
        if op == "fn":
            return self.uf("fn_" + t.args[0], [self.R(a) for a in t.args[1:]], "R")
        if op == "add":
            a = [self.z(x) for x in t.args]
            if t.sort == "R":
                a = [self.R(x) for x in t.args]
            return z3.Sum(a)
        if op == "mul":
            a = [self.R(x) for x in t.args] if t.sort == "R" else [self.z(x) for x in t.args]
            return z3.Product(a)
        if op == "pow":
            b, e = t.args
            if e.op == "num":
                q = e.args[0]
                zb = self.R(b) if t.sort == "R" else self.z(b)
                if q.denominator == 1 and 0 < q <= 12:
                    return z3.Product([zb] * int(q))
                if q.denominator == 1 and -12 <= q < 0:
                    return 1 / z3.Product([zb] * int(-q))
                return self.uf("pow_%s" % q, [zb], "R")
            return self.uf("pow", [self.R(b), self.R(e)], "R")
        if op == "toreal":
            return z3.ToReal(self.z(t.args[0]))
        if op == "floor":
            return z3.ToInt(self.R(t.args[0]))
        if op == "abs":
            a = self.z(t.args[0])
            return z3.If(a >= 0, a, -a)
        if op == "ite":
            c, a, b = t.args
            if t.sort == "R":
                return z3.If(self.z(c), self.R(a), self.R(b))
            return z3.If(self.z(c), self.z(a), self.z(b))
        if op in ("le", "lt", "eq"):
            a, b = t.args
            if a.sort != b.sort:
                x, y = self.R(a), self.R(b)
            else:
                x, y = self.z(a), self.z(b)
            return x <= y if op == "le" else (x < y if op == "lt" else x == y)
        if op == "not":
            return z3.Not(self.z(t.args[0]))
        if op == "and":
            return z3.And([self.z(a) for a in t.args])
        if op == "or":
            return z3.Or([self.z(a) for a in t.args])
        if op == "lam":
            return self.lamconst(t)
        raise Unsupported("cannot translate %s" % op)

    def R(self, t):
        r = self.z(t)
        if t.sort == "I":
            r = z3.ToReal(r)
        return r

    def lamconst(self, lam):
        rep = self.lamrep(lam)
        return z3.Int("$lam%d" % rep.uid)

    lamreps = None

    def lamrep(self, lam):
        if self.lamreps is None:
            self.lamreps = []
        for r in self.lamreps:
            if r is lam:
                return r
        for r in self.lamreps:
            d = sub(r.args[1], lam.args[1])
            if self.ctx(None, None).zero(d):
                return r
        self.lamreps.append(lam)
        return lam

    def lemmas(self, ts):
        """facts about the interpreted functions that occur"""
        out, seen = [], set()
        for t in ts:
            tm.subterms(t, seen)
        trig = {}
        for t in list(seen):
            if t.op == "pi":
                p = z3.Real("$pi")
                out.append(z3.And(p > z3.RealVal("3.14159265358"), p < z3.RealVal("3.14159265359")))
            elif t.op == "fn":
                n = t.args[0]
                z = self.z(t)
                if n in ("sin", "cos"):
                    trig.setdefault(t.args[1], {})[n] = z
                    out.append(z3.And(z >= -1, z <= 1))
                elif n == "exp":
                    out.append(z > 0)
                elif n == "arccos":
                    p = z3.Real("$pi")
                    out.append(z3.And(z >= 0, z <= p, p > 3, p < 4))
                elif n in ("arcsin", "arctan"):
                    p = z3.Real("$pi")
                    out.append(z3.And(2 * z >= -p, 2 * z <= p, p > 3, p < 4))
                elif n == "sign":
                    a = self.R(t.args[1])
                    out.append(z == z3.If(a > 0, z3.RealVal(1), z3.If(a < 0, z3.RealVal(-1), z3.RealVal(0))))
            elif t.op == "pow" and t.args[1].op == "num" and t.args[1].args[0].denominator != 1:
                q = t.args[1].args[0]
                z, b = self.z(t), self.R(t.args[0])
                if q > 0:
                    out.append(z >= 0)
                    out.append(z3.Implies(b > 0, z > 0))
                else:
                    out.append(z > 0)
                if q == Fraction(1, 2):
                    out.append(z3.Implies(b >= 0, z * z == b))
                elif q == Fraction(-1, 2):
                    out.append(z3.Implies(b > 0, z * z * b == 1))
            elif t.op == "pow" and t.args[1].op == "num" and t.args[1].args[0] < 0:
                pass
        for a, d in trig.items():
            if len(d) == 2:
                out.append(d["sin"] * d["sin"] + d["cos"] * d["cos"] == 1)
        return out

    def indices(self, ts):
        seen = set()
        for t in ts:
            tm.subterms(t, seen)
        idx = []
        for t in seen:
            if t.op == "app":
                for a in t.args[1:]:
                    if isinstance(a, T) and a.sort == "I" and a.op != "lam" and not self.has_bound(a):
                        if a not in idx:
                            idx.append(a)
        idx.sort(key=lambda t: t.uid)
        return idx

    def has_bound(self, t):
        return bool(self.free_bound(t))

    def free_bound(self, t):
        """bound variables occurring free in t"""
        if t._n is None:
            if t.op == "var":
                t._n = frozenset([t]) if t.args[0].startswith("$k") else frozenset()
            elif t.op == "lam":
                t._n = self.free_bound(t.args[1]) - {t.args[0]}
            else:
                r = frozenset()
                for a in t.args:
                    if isinstance(a, T):
                        r |= self.free_bound(a)
                t._n = r
        return t._n

    def instances(self, ts, univ, rounds=2, cap=60):
        self.quiet += 1
        try:
            return self._instances(ts, univ, rounds, cap)
        finally:
            self.quiet -= 1

    def _instances(self, ts, univ, rounds, cap):
        out, done = [], set()
        base = list(ts)
        for _ in range(rounds):
            new = []
            idx = self.indices(base + out)[:cap]
            for u in univ:
                for i in idx:
                    if (id(u), i) in done:
                        continue
                    done.add((id(u), i))
                    f = bor(bnot(band(le(num(0), i), lt(i, u.n))), u.f(i))
                    new.append(f)
            if not new:
                break
            out += new
        return out

    def keys(self, t):
        r = KEYS.get(t)
        if r is None:
            r = set()
            for u in tm.subterms(t):
                if u.op == "var":
                    r.add(u)
                elif u.op == "app":
                    r.add(u.args[0])
            KEYS[t] = r
        return r

    def relevant(self, pc, goal):
        """assumptions connected to the goal through shared variables / applications"""
        keys = self.keys
        ks = [(t, keys(t)) for t in pc]
        have = keys(goal)
        out, changed = [], True
        left = ks
        while changed:
            changed = False
            nl = []
            for t, k in left:
                if k & have or not k:
                    out.append(t)
                    have |= k
                    changed = True
                else:
                    nl.append((t, k))
            left = nl
        return out

    def smt(self, pc, goal, univ=(), ms=2000, want_model=False):
        """'proved' / 'sat' / 'unknown'  for pc |= goal"""
        t0 = time.time()
        neg = bnot(goal)
        near = want_model == "near"
        if near:
            want_model = False
        pc = self.relevant(pc, goal) if not want_model and not near else pc
        ts = list(pc) + [neg]
        inst = self.instances(ts, univ)
        ts += inst
        key = None
        if not want_model:
            key = (frozenset(ts), neg, ms)
            if key in self.smemo:
                return self.smemo[key], None
        if key is not None and not near:
            # the facts about the very same quantities often suffice
            kg = self.keys(goal)
            near = [t for t in pc if self.keys(t) <= kg]
            if len(pc) > len(near) + 4:
                r, _ = self.smt(near, goal, (), min(ms, 100), "near")
                if r == "proved":
                    self.smemo[key] = r
                    return r, None
        s = z3.Solver()
        s.set("rlimit", int(ms) * (300 if ms <= 400 else 2500))          # a resource bound, so that the outcome does not depend on the load
        s.set("timeout", int(ms) * 3)
        raw, h = s.ctx.ref(), s.solver
        for t in ts:
            z3core.Z3_solver_assert(raw, h, self.z(t).as_ast())
        for f in self.lemmas(ts):
            z3core.Z3_solver_assert(raw, h, f.as_ast())
        r = s.check()
        self.stats["z3"] += time.time() - t0
        if key is not None:
            self.smemo[key] = "proved" if r == z3.unsat else ("sat" if r == z3.sat else "unknown")
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            return "sat", (s.model() if want_model else s)
        return "unknown", s

    def entailed(self, t):
        if self.quiet:
            return None
        key = (t, len(self.pc), self.pc[-1] if self.pc else None, len(self.univ))
        if key in self.dmemo and self.dmemo[key][1] == tuple(self.pc):
            return self.dmemo[key][0]
        self.stats["decide_z3"] += 1
        res = None
        try:
            if t.op == "eq" and t.args[0].sort in "RI":
                if self.ctx(self.pc, self.univ).zero(sub(*t.args)):
                    res = True
            elif t.op in ("le", "lt"):
                c = self.ctx(self.pc, self.univ)
                if t.op == "le" and c.zero(sub(*t.args)):
                    res = True
                elif t.op == "lt" and c.zero(sub(*t.args)):
                    res = False
        except Unsupported:
            pass
        if res is None and self.integral(t):
            # index arithmetic is decided by index facts alone
            near = [u for u in self.pc if self.integral(u)]
            if self.smt(near, t, (), 250, "near")[0] == "proved":
                res = True
            elif self.smt(near, bnot(t), (), 250, "near")[0] == "proved":
                res = False
        elif res is None:
            r, _ = self.smt(self.pc, t, self.univ, ms=250)
            if r == "proved":
                res = True
            else:
                r, _ = self.smt(self.pc, bnot(t), self.univ, ms=250)
                if r == "proved":
                    res = False
        self.dmemo[key] = (res, tuple(self.pc))
        return res

    def integral(self, t):
        k = self.keys(t)
        return bool(k) and all(isinstance(u, T) and u.sort == "I" for u in k)

    def feasible(self):
        r, _ = self.smt(self.pc, FALSE, self.univ, ms=1500)
        return r != "proved"

    # ------------------------------------------------------------ normal-form context
    def ctx(self, pc, univ):
        pos, nn, rules = set(), set(), {}
        for t in (pc or ()):
            if t.op == "lt" and tm.isnum(t.args[0]) and tm.nv(t.args[0]) >= 0:
                pos.add(t.args[1])
            elif t.op == "le" and tm.isnum(t.args[0]):
                if tm.nv(t.args[0]) > 0:
                    pos.add(t.args[1])
                elif tm.nv(t.args[0]) == 0:
                    nn.add(t.args[1])
        pos = {p for p in pos}
        oracle = None
        if pc is not None:
            memo = {}

            def oracle(c, p, strict):
                try:
                    t = c.to_term(p)
                except (Unsupported, RecursionError):
                    return False
                k = (t, strict)
                if k not in memo:
                    if len(memo) > 40:
                        return False
                    g = lt(num(0), t) if strict else le(num(0), t)
                    try:
                        memo[k] = not self.fails(g, pc) and self.smt(pc, g, univ or (), ms=150)[0] == "proved"
                    except Exception:
                        memo[k] = False
                return memo[k]
        return Ctx(positive=pos, nonneg=nn, sign_oracle=oracle, defs=self.trigdefs)

    # ------------------------------------------------------------ prover
    def prove(self, goal, pc, univ, depth=0, budget=None, ms=4000):
        """returns backend name or None"""
        if budget is None:
            budget = [60]
        if goal is TRUE or goal in pc:
            return "trivial"
        if goal.op == "and":
            used = set()
            for g in goal.args:
                b = self.prove(g, pc, univ, depth, budget, ms)
                if b is None:
                    return None
                used.add(b)
            return best(used)
        budget[0] -= 1
        if budget[0] < 0:
            return None
        if any(u.op == "ite" for u in tm.subterms(goal)):
            m = {}
            for t in pc:
                if t.op in ("le", "lt", "eq", "not", "var"):
                    m[t] = TRUE
                    m[bnot(t)] = FALSE
                    if t.op == "lt":
                        m[le(*t.args)] = TRUE
                        m[bnot(le(*t.args))] = FALSE
            goal = tm.subst(goal, m)
            if goal is TRUE:
                return "trivial"
        if goal.op == "eq" and goal.args[0].sort in "RI":
            t0 = time.time()
            d = sub(*goal.args)
            d2 = self.apply_eqs(d, pc)
            r = self.ctx(pc, univ).zero(d2)
            self.stats["norm"] += time.time() - t0
            if r:
                return "norm"
            if depth == 0:
                u = self.congruent(goal, pc, univ)
                if u is not None:
                    return self.prove(u[0], u[1], univ, 1, budget, ms)
            c = first_cond(d2)
            if c is not None and depth < 14:
                k = self.holds(c, pc, univ)
                if k is not None:
                    return self.prove(mkeq0(settle(d2, c, k)), pc + [c if k else bnot(c)], univ, depth + 1, budget, ms)
                used = set()
                for k in (True, False):
                    npc = pc + [c if k else bnot(c)]
                    b = self.prove(mkeq0(settle(d2, c, k)), npc, univ, depth + 1, budget, ms)
                    if b is None:
                        break
                    used.add(b)
                else:
                    return best(used)
        else:
            if depth == 0:
                u = self.congruent(goal, pc, univ)
                if u is not None:
                    return self.prove(u[0], u[1], univ, 1, budget, ms)
            c = first_cond(goal)
            if c is not None and depth < 10:
                r, _ = self.smt(pc, goal, univ, ms=1000)
                if r == "proved":
                    return "z3"
                k = self.holds(c, pc, univ)
                used = set()
                for kk in ((True, False) if k is None else (k,)):
                    b = self.prove(settle(goal, c, kk), pc + [c if kk else bnot(c)], univ, depth + 1, budget, ms)
                    if b is None:
                        break
                    used.add(b)
                else:
                    return best(used)
        if goal.op in ("le", "lt") and "R" in (goal.args[0].sort, goal.args[1].sort):
            t0 = time.time()
            ok = self.ctx(pc, univ).signed(sub(goal.args[1], goal.args[0]), goal.op == "lt")
            self.stats["norm"] += time.time() - t0
            if ok:
                return "norm"
        try:
            r, s = self.smt(pc, goal, univ, ms=ms)
        except z3.Z3Exception:
            return None
        if r == "proved":
            return "z3"
        if r == "unknown" and s is not None:
            t0 = time.time()
            ok = cvc5_unsat(s, ms)
            self.stats["cvc5"] += time.time() - t0
            if ok:
                return "cvc5"
        # the path itself may be impossible
        return None

    def congruent(self, goal, pc, univ):
        from . import congr
        t0 = time.time()
        try:
            return congr.unify(self, goal, self.relevant(pc, goal), univ)
        finally:
            self.stats["norm"] += time.time() - t0

    def holds(self, c, pc, univ):
        if c in pc:
            return True
        if bnot(c) in pc:
            return False
        for x, v in ((c, True), (bnot(c), False)):
            if x.op in ("le", "lt") and "R" in (x.args[0].sort, x.args[1].sort):
                t0 = time.time()
                ok = self.ctx(pc, univ).signed(sub(x.args[1], x.args[0]), x.op == "lt")
                self.stats["norm"] += time.time() - t0
                if ok:
                    return v
        if self.smt(pc, c, univ, ms=600)[0] == "proved":
            return True
        if self.smt(pc, bnot(c), univ, ms=600)[0] == "proved":
            return False
        return None

    def fails(self, g, pc):
        """g is false at a sampled point that satisfies what is assumed about the same quantities (only saves solver time)"""
        from . import evalnum
        kg = self.keys(g)
        if not all(u.op == "var" and u.args[0] in self.ranges for u in kg):
            return False
        near = [t for t in pc if self.keys(t) <= kg]
        for k in range(24):
            ev = evalnum.Ev(k, self.ranges, {})
            try:
                if all(ev.ev(t) for t in near) and evalnum.falsified(ev, g):
                    return True
            except (evalnum.Bad, OverflowError, ZeroDivisionError, RecursionError, TypeError):
                continue
        return False

    def apply_eqs(self, d, pc):
        m = {}
        for t in pc:
            if t.op == "eq" and t.args[0].sort in "RI":
                a, b = t.args
                for x, y in ((a, b), (b, a)):
                    if x.op in ("var", "app") and x not in tm.subterms(y) and x not in m:
                        m[x] = y
                        break
        for _ in range(4):
            if not m:
                break
            n = tm.subst(d, m)
            if n is d:
                break
            d = n
        return d

    def discharge(self, ob, ms=4000):
        t0 = time.time()
        try:
            b = self.prove(ob.goal, ob.pc, ob.univ, ms=ms)
            if b is None and ob.pc:
                r, _ = self.smt(ob.pc, FALSE, ob.univ, ms=max(1500, ms // 3))
                if r == "proved":
                    b = "z3"
        except (Unsupported, RecursionError, z3.Z3Exception):
            b = None
        ob.secs = time.time() - t0
        ob.status = "proved" if b else "open"
        ob.backend = b
        return ob.status


def mkeq0(d):
    return eq(d, num(0))


def best(used):
    for b in ("cvc5", "z3", "norm", "trivial"):
        if b in used:
            return b
    return "trivial"


def first_cond(t):
    """an ite / abs / floor-free condition to split on (innermost first)"""
    best_c, todo, seen = None, [t], set()
    while todo:
        u = todo.pop()
        if u in seen:
            continue
        seen.add(u)
        if u.op == "ite" and not E_.has_bound(u.args[0]):
            c = u.args[0]
            if c.op in ("and", "or"):
                for a in c.args:
                    if best_c is None or a.uid < best_c.uid:
                        best_c = a if a.op != "not" else a.args[0]
            else:
                if c.op == "not":
                    c = c.args[0]
                if best_c is None or c.uid < best_c.uid:
                    best_c = c
        for a in u.args:
            if isinstance(a, T):
                todo.append(a)
    return best_c


def settle(t, c, k):
    nc = bnot(c)
    m = {c: TRUE if k else FALSE, nc: FALSE if k else TRUE}
    return tm.subst(t, m)


def cvc5_unsat(solver, ms):
    try:
        import cvc5
        txt = solver.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(ms)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + txt, "q")
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if out and str(out).strip() in ("unsat", "sat", "unknown"):
                res = str(out).strip()
        return res == "unsat"
    except Exception:
        return False


E_ = Engine()
tm.ENG.decide = lambda t: E_.decide(t)
