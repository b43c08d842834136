"""Back end 1: normal forms for real terms (generalised Laurent polynomials over
transcendental / radical atoms) and a complete zero test for the resulting ring,
modulo sin^2+cos^2=1, angle addition, inverse-trig rewrites, radicals, and known signs.

`Ctx.zero(t)` returning True is a proof that t == 0 wherever both sides are defined
(non-zero denominators, non-negative radicands)."""
from fractions import Fraction
from math import gcd, floor, ceil, isqrt
from . import terms as tm
from .terms import T, Unsupported

F0, F1 = Fraction(0), Fraction(1)


class TooBig(Exception):
    pass


MAXTERMS = 40000


class Restart(Exception):
    pass


def _ex(e):
    return e


class Ctx:
    def __init__(self, positive=(), nonneg=(), opaque=(), sign_oracle=None, defs=None, rules=None):
        self.atoms = []          # index -> tuple
        self.index = {}          # key -> index
        self.byfn = {}           # name -> [index]
        self.positive = set(positive)
        self.trigpos = any(t.op == "fn" for t in self.positive)
        self.nonneg = set(nonneg) | self.positive
        self.opaque = set(opaque)
        self.memo = {}
        self.angden = {}
        self.sign_oracle = sign_oracle
        self.trigdefs = defs or {}      # angle variable -> (sine, cosine)
        self.rules = rules or []      # list of (T lhs atom-able, T rhs): oriented rewrites atom^k -> poly
        self._rule_atoms = {}
        self._in_sign = False

    # ---------------------------------------------------------------- atoms
    def atom(self, key):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.index[key] = i
            self.atoms.append(key)
        return i

    def akind(self, i):
        return self.atoms[i][0]

    def apos(self, i):
        """strictly positive atom (given definedness)"""
        a = self.atoms[i]
        if a[0] in ("pi", "num"):
            return True
        if a[0] == "t":
            return a[1] in self.positive
        if a[0] == "fn":
            return a[1] in ("exp", "cosh")
        if a[0] in ("sin", "cos"):
            return self.trigpos and self.atom_term(i) in self.positive
        if a[0] == "poly":
            return self.ppos(self.frozen[a[1]])
        return False

    def aneg(self, i):
        """a sum known to be negative (or zero)"""
        return self.atoms[i][0] == "poly" and self.pnonneg(self.pscale(self.frozen[self.atoms[i][1]], -F1))

    def anonneg(self, i):
        a = self.atoms[i]
        if self.apos(i):
            return True
        if a[0] == "t":
            return a[1] in self.nonneg
        if a[0] == "abs":
            return True
        if a[0] == "fn":
            return a[1] in ("arccos",)
        if a[0] == "poly":
            return self.pnonneg(self.frozen[a[1]])
        return False

    # ------------------------------------------------------------ polynomials
    @staticmethod
    def const(c):
        c = Fraction(c)
        return {(): c} if c else {}

    def ap(self, i, e=F1):
        """atom i to the power e, as a reduced polynomial"""
        return self.reduce_mono(((i, Fraction(e)),), F1)

    @staticmethod
    def padd(a, b):
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, F0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    @staticmethod
    def pscale(a, c):
        if not c:
            return {}
        return {m: v * c for m, v in a.items()}

    def needs(self, m):
        for i, e in m:
            k = self.atoms[i][0]
            if k == "poly":
                if e >= 1:
                    return True
            elif k == "sin":
                if e >= 2 or e < 0:
                    if e >= 2:
                        return True
            elif k == "num":
                if e >= 1 or e < 0:
                    return True
            elif k == "abs":
                if e >= 2 or e <= -2:
                    return True
            elif k == "ipow":
                pass
            if i in self._rule_atoms and e >= self._rule_atoms[i][0]:
                return True
        return False

    def reduce_mono(self, m, c):
        """monomial (raw exponents) * c -> reduced polynomial"""
        m = tuple((i, e) for i, e in m if e != 0)
        if not self.needs(m):
            return {m: c} if c else {}
        rest = []
        factors = []
        for i, e in m:
            k = self.atoms[i][0]
            if i in self._rule_atoms and e >= self._rule_atoms[i][0]:
                k0, rhs = self._rule_atoms[i]
                q = int(e // k0)
                factors.append((rhs, q))
                if e - q * k0:
                    rest.append((i, e - q * k0))
            elif k == "poly" and e >= 1:
                n = int(floor(e))
                f = e - n
                factors.append((self.frozen[self.atoms[i][1]], n))
                if f:
                    rest.append((i, f))
            elif k == "sin" and e >= 2:
                n = int(e // 2)
                ci = self.atom(("cos", self.atoms[i][1]))
                factors.append(({(): F1, ((ci, Fraction(2)),): -F1}, n))
                if e - 2 * n:
                    rest.append((i, e - 2 * n))
            elif k == "num" and (e >= 1 or e < 0):
                n = int(floor(e))
                c = c * Fraction(self.atoms[i][1]) ** n
                if e - n:
                    rest.append((i, e - n))
            elif k == "abs" and (e >= 2 or e <= -2):
                n = int(e / 2)  # toward zero
                sq = self.pmul(self.frozen[self.atoms[i][1]], self.frozen[self.atoms[i][1]])
                if n > 0:
                    factors.append((sq, n))
                else:
                    factors.append((self.pinv(sq), -n))
                if e - 2 * n:
                    rest.append((i, e - 2 * n))
            else:
                rest.append((i, e))
        r = {tuple(rest): c}
        for p, n in factors:
            for _ in range(n):
                r = self.pmul(r, p)
        return r

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for i, e in b:
            v = d.get(i, F0) + e
            if v:
                d[i] = v
            else:
                d.pop(i, None)
        return tuple(sorted(d.items()))

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 4 * MAXTERMS:
            raise TooBig()
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                c = c1 * c2
                if self.needs(m):
                    for m3, c3 in self.reduce_mono(m, c).items():
                        v = r.get(m3, F0) + c3
                        if v:
                            r[m3] = v
                        else:
                            r.pop(m3, None)
                else:
                    v = r.get(m, F0) + c
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        if len(r) > MAXTERMS:
            raise TooBig()
        return r

    frozen = None

    def freeze(self, p):
        key = frozenset(p.items())
        if self.frozen is None:
            self.frozen = {}
        self.frozen[key] = p
        return key

    # ------------------------------------------------------------ signs
    def mono_sign(self, m, c, strict=False):
        """+1 if c*m is known >=0 (or >0 when strict), -1 if known <=0, None unknown"""
        s = 1 if c > 0 else -1
        for i, e in m:
            if self.apos(i):
                continue
            if e.denominator == 1 and e % 2 == 0:
                if strict:
                    return None
                continue
            if not strict and self.anonneg(i) and e > 0:
                continue
            if e.denominator != 1 and not strict:
                continue           # a defined fractional power is non-negative
            return None
        return s

    def by_quotient(self, p, strict):
        """p = N * M, decided by the signs of N (term by term, or a sum assumed positive) and of M's atoms"""
        if all(e > 0 for m in p for i, e in m if self.atoms[i][0] == "poly"):
            return False
        try:
            N, M = self.combine(p)
        except TooBig:
            return False
        if not M:
            return False
        k = 1
        for i, e in M:
            if self.apos(i):
                continue
            if e.denominator == 1 and e % 2 == 0:
                continue           # the atom is inverted, hence not zero
            if not self.aneg(i):
                return False
            k = -k
        N = self.pscale(N, Fraction(k))
        if self.known_sum(N):
            return True
        return all(self.mono_sign(m, c) == 1 for m, c in N.items()) and (
            not strict or any(self.mono_sign(m, c, True) == 1 for m, c in N.items()))

    def pnonneg(self, p):
        if all(self.mono_sign(m, c) == 1 for m, c in p.items()):
            return True
        if self.known_sum(p) or self.by_quotient(p, False):
            return True
        return self._oracle(p, 0)

    def ppos(self, p):
        ok = all(self.mono_sign(m, c) == 1 for m, c in p.items())
        if ok and any(self.mono_sign(m, c, True) == 1 for m, c in p.items()):
            return True
        if self.known_sum(p) or self.by_quotient(p, True):
            return True
        return self._oracle(p, 1)

    sums = None

    def known_sum(self, p):
        """p is a positive multiple of a sum assumed positive"""
        if self.sums is None:
            self.sums = set()
            out = set()
            for t in self.positive:
                if t.op == "add":
                    try:
                        q = self.norm(t)
                    except (TooBig, Unsupported):
                        continue
                    if len(q) > 1:
                        out.add(frozenset(self.pscale(q, 1 / self.content(q)).items()))
            self.sums = out
        return bool(self.sums) and len(p) > 1 and frozenset(self.pscale(p, 1 / self.content(p)).items()) in self.sums

    def _oracle(self, p, strict):
        if self.sign_oracle is None or self._in_sign or self.known_sum(self.pscale(p, -F1)):
            return False
        self._in_sign = True
        try:
            return self.sign_oracle(self, p, strict)
        finally:
            self._in_sign = False

    # ------------------------------------------------------------ powers
    def numpow(self, c, q):
        """c > 0 rational, q rational -> poly"""
        if q.denominator == 1:
            return self.const(c ** int(q))
        coef, mono = F1, []
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor(n):
                e = q * k * sg
                fl = floor(e)
                coef *= Fraction(pr) ** fl
                if e - fl:
                    mono.append((self.atom(("num", pr)), e - fl))
        d = {}
        for i, e in mono:
            d[i] = d.get(i, F0) + e
        return self.reduce_mono(tuple(sorted(d.items())), coef)

    def content(self, p):
        """p = c * p', leading coefficient of p' positive and coefficients coprime integers"""
        num, den = 0, 1
        for c in p.values():
            num = gcd(num, abs(c.numerator))
            den = den * c.denominator // gcd(den, c.denominator)
        c = Fraction(num, den)
        return c

    def lead(self, p):
        return max(p.keys())

    def combine(self, p):
        """p = N * M with M a monomial of negative-power poly/sin atoms; returns (N, M)"""
        for _ in range(8):
            mins = {}
            for m in p:
                for i, e in m:
                    if self.atoms[i][0] in ("poly", "sin") and e < 0:
                        if e < mins.get(i, F0):
                            mins[i] = e
            if not mins:
                return p, ()
            mm = tuple(sorted((i, Fraction(ceil(-e))) for i, e in mins.items()))
            # every monomial gets the factor; atoms with poly kind are expanded on the fly
            r = {}
            for m, c in p.items():
                q = self.reduce_mono(self.mmul(m, mm), c)
                r = self.padd(r, q)
                if len(r) > MAXTERMS:
                    raise TooBig()
            inv = tuple((i, -e) for i, e in mm)
            n2, m2 = self.combine(r)
            return n2, self.mmul(inv, m2)
        raise TooBig()

    def pinv(self, p):
        return self.ppow(p, Fraction(-1))

    def ppow(self, p, q):
        q = Fraction(q)
        if q == 0:
            return self.const(1)
        if q.denominator == 1 and q > 0:
            r = self.const(1)
            n = int(q)
            if n > 40:
                if len(p) == 1:
                    (m, c), = p.items()
                    return self.reduce_mono(tuple((i, e * q) for i, e in m), c ** n)
                raise TooBig()
            b = p
            while n:
                if n & 1:
                    r = self.pmul(r, b)
                n >>= 1
                if n:
                    b = self.pmul(b, b)
            return r
        if not p:
            if q > 0:
                return {}
            raise Unsupported("zero denominator")
        if len(p) > 1:
            N, M = self.combine(p)
            N = self._monofactor(N)
        else:
            N, M = p, ()
        if isinstance(N, tuple):          # (poly, monomial factor)
            N, M2 = N
            M = self.mmul(M, M2)
        if not N:
            if q > 0:
                return {}
            raise Unsupported("zero denominator")
        if len(N) == 1:
            (m, c), = N.items()
            m = self.mmul(m, M)
            return self.monopow(m, c, q)
        # N genuinely a sum
        if q.denominator == 2:
            sq = self.squarefactor(N)
            if sq is not None:
                base, rest = sq
                r = self.pmul(self.ppow(self.pabs(base), 2 * q), self.ppow(rest, q))
                if M:
                    return self.pmul(r, self.monopow(M, F1, q)) if all(e % 2 == 0 or self.anonneg(i) for i, e in M) else self.ppow_plain(N, M, q)
                return r
        return self.ppow_plain(N, M, q)

    def squarefactor(self, N):
        """N = base^2 * rest for a known base (a poly atom or 1 - cos^2)"""
        if any(e.denominator != 1 or e < 0 for m in N for i, e in m):
            return None
        deg = {}
        for m in N:
            for i, e in m:
                deg[i] = max(deg.get(i, F0), e)
        for j, d in deg.items():
            a = self.atoms[j]
            if a[0] == "cos" and d >= 2:
                groups = {}
                for m, c in N.items():
                    dd = dict(m)
                    e = int(dd.pop(j, 0))
                    groups.setdefault(tuple(sorted(dd.items())), {})[e] = c
                if all(sum(c for e, c in g.items() if e % 2 == par) == 0 for g in groups.values() for par in (0, 1)):
                    rest = {}
                    for m, g in groups.items():
                        qs = {}
                        for e in range(int(max(g)) - 1):
                            v = g.get(e, F0) + qs.get(e - 2, F0)
                            qs[e] = v
                            if v:
                                rest[self.mmul(m, ((j, Fraction(e)),) if e else ())] = v
                    return self.ap(self.atom(("sin", a[1]))), rest
        if len(N) > 200:
            return None
        b = self.psqrt(N)
        if b is not None:
            return b, self.const(1)
        for i in list(self.byfn.get("poly", [])):
            b = self.frozen[self.atoms[i][1]]
            if len(b) > 12 or any(e.denominator != 1 or e < 0 for m in b for j, e in m):
                continue
            if any(2 * e > deg.get(j, F0) for m in b for j, e in m):
                continue
            b2 = self.pmul(b, b)
            rest = self.pdiv(N, b2)
            if rest is not None:
                return b, rest
        return None

    def psqrt(self, N):
        """s with s^2 = N (checked by multiplication), or None"""
        vs = sorted({i for m in N for i, e in m})

        def key(m):
            d = dict(m)
            return tuple(d.get(i, F0) for i in vs)
        ld = max(N, key=key)
        kd, c = key(ld), N[ld]
        if c <= 0 or any(e % 2 for e in kd):
            return None
        rn, rd = isqrt(c.numerator), isqrt(c.denominator)
        if rn * rn != c.numerator or rd * rd != c.denominator:
            return None
        c = Fraction(rn, rd)
        k0 = tuple(e / 2 for e in kd)
        s = {tuple((i, e) for i, e in zip(vs, k0) if e): c}
        for _ in range(40):
            r = self.padd(N, self.pscale(self.pmul(s, s), -F1))
            if not r:
                return s
            lr = max(r, key=key)
            e = [x - y for x, y in zip(key(lr), k0)]
            if any(x < 0 for x in e):
                return None
            m = tuple((i, x) for i, x in zip(vs, e) if x)
            if m in s:
                return None
            s = self.padd(s, {m: r[lr] / (2 * c)})
        return None

    def pdiv(self, N, D):
        """exact polynomial quotient, or None (checked by multiplication)"""
        vs = sorted({i for m in D for i, e in m} | {i for m in N for i, e in m})

        def key(m):
            d = dict(m)
            return tuple(d.get(i, F0) for i in vs)
        ld = max(D, key=key)
        kd, cd = key(ld), D[ld]
        r, out, n = dict(N), {}, 0
        while r:
            n += 1
            if n > 400:
                return None
            lr = max(r, key=key)
            e = [x - y for x, y in zip(key(lr), kd)]
            if any(x < 0 for x in e):
                return None
            m = tuple((i, x) for i, x in zip(vs, e) if x)
            c = r[lr] / cd
            out[m] = out.get(m, F0) + c
            for md, c2 in D.items():
                mm = self.mmul(md, m)
                v = r.get(mm, F0) - c * c2
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
        if self.padd(self.pmul(out, D), self.pscale(N, -F1)):
            return None
        return out

    def ppow_plain(self, N, M, q):
        c = self.content(N)
        Np = self.pscale(N, 1 / c)
        sgn = F1
        if q.denominator == 1:
            if Np[self.lead(Np)] < 0:
                Np = self.pscale(Np, -F1)
                if q % 2:
                    sgn = -F1
        if 2 < len(Np) <= 12 and q.denominator == 1:
            for j in list(self.byfn.get("poly", [])):
                b = self.frozen[self.atoms[j][1]]
                if len(b) < len(Np) and len(b) <= 4 and all(e.denominator == 1 and e > 0 for m in (*b, *Np) for _, e in m):
                    d = self.pdiv(Np, b)
                    if d is not None:
                        r = self.pmul(self.ap(j, q), self.ppow(d, q))
                        r = self.pscale(r, sgn * c ** int(q))
                        return self.pmul(r, self.monopow(M, F1, q)) if M else r
        if 2 < len(Np) <= 40 and q.denominator == 2 and not M:
            for j in list(self.byfn.get("poly", [])):
                b = self.frozen[self.atoms[j][1]]
                if len(b) < len(Np) and len(b) <= 4 and all(e.denominator == 1 and e > 0 for m in (*b, *Np) for _, e in m):
                    d = self.pdiv(Np, b)
                    if d is None:
                        continue
                    if self.apos(j):
                        r = self.pmul(self.ap(j, q), self.ppow(d, q))
                    elif self.aneg(j):
                        r = self.pmul(self.ppow_plain(self.pscale(b, -F1), (), q), self.ppow(self.pscale(d, -F1), q))
                    else:
                        continue
                    return self.pmul(r, self.numpow(c, q))
        i = self.polyatom(Np)
        if q.denominator == 1:
            r = self.const(sgn * c ** int(q))
            r = self.pmul(r, self.ap(i, q))
            return self.pmul(r, self.monopow(M, F1, q)) if M else r
        # fractional power
        if M:
            # split off factors of M of known sign, keep the rest under the root
            keep, flip = [], False
            out = self.const(1)
            for j, e in M:
                if self.apos(j):
                    out = self.pmul(out, self.ap(j, e * q))
                elif (e * q * 2).denominator == 1 and e % 2 == 0:
                    out = self.pmul(out, self.absatom_pow(j, e * q))
                elif e % 2 == 1 and self.aneg(j):
                    Np = self.pscale(Np, -F1)
                    out = self.pmul(out, self.ppow_plain(self.pscale(self.frozen[self.atoms[j][1]], -F1), (), e * q))
                    flip = True
                else:
                    keep.append((j, e))
            if flip:
                out = self.pmul(out, self.numpow(c, q))
                return self.pmul(out, self.ppow(self.pmul(Np, self.reduce_mono(tuple(keep), F1)), q))
            if keep:
                # N*keep >= 0 is all we know: root of N*prod(a^e); make exponents positive by a^2
                mono = []
                for j, e in keep:
                    if e < 0 and e.denominator == 1:
                        k = e % 2
                        mono.append((j, k))
                        out = self.pmul(out, self.absatom_pow(j, (e - k) * q))
                    else:
                        mono.append((j, e))
                big = self.pmul(Np, self.reduce_mono(tuple((j, e) for j, e in mono if e), F1))
                i = self.polyatom(big)
                return self.pmul(self.pmul(out, self.numpow(c, q)), self.ap(i, q))
            return self.pmul(self.pmul(out, self.numpow(c, q)), self.ap(i, q))
        return self.pmul(self.numpow(c, q), self.ap(i, q))

    def _monofactor(self, N):
        """extract the common monomial factor: N = N' * M2"""
        if len(N) <= 1:
            return N
        it = iter(N)
        common = dict(next(it))
        for m in it:
            d = dict(m)
            for i in list(common):
                if i in d:
                    e = d[i]
                    if (e > 0) == (common[i] > 0):
                        common[i] = min(common[i], e) if e > 0 else max(common[i], e)
                    else:
                        del common[i]
                else:
                    del common[i]
            # atoms with negative exponents in some monomials: factor them out completely
        neg = {}
        for m in N:
            for i, e in m:
                if e < 0 and self.atoms[i][0] not in ("poly", "sin"):
                    neg[i] = min(neg.get(i, F0), e)
        for i, e in neg.items():
            common[i] = e
        common = {i: e for i, e in common.items() if e.denominator == 1 or True}
        if not common:
            return N
        M2 = tuple(sorted(common.items()))
        inv = tuple((i, -e) for i, e in M2)
        r = {}
        for m, c in N.items():
            r = self.padd(r, self.reduce_mono(self.mmul(m, inv), c))
        return (r, M2)

    def absatom_pow(self, j, e):
        """|atom j| ^ e"""
        if self.anonneg(j):
            return self.ap(j, e)
        if e.denominator == 1 and e % 2 == 0:
            return self.ap(j, e)
        if self.aneg(j):
            if e.denominator == 1:
                return self.pscale(self.ap(j, e), -F1)
            return self.ppow_plain(self.pscale(self.frozen[self.atoms[j][1]], -F1), (), e)
        i = self.atom(("abs", self.freeze({((j, F1),): F1})))
        return self.ap(i, e)

    def monopow(self, m, c, q):
        if q.denominator == 1:
            r = self.const(c ** int(q))
            return self.pmul(r, self.reduce_mono(tuple((i, e * q) for i, e in m), F1)) if m else r
        out = self.const(1)
        keep = []
        for i, e in m:
            if self.anonneg(i):
                out = self.pmul(out, self.ap(i, e * q))
            elif e.denominator == 1 and e % 2 == 0 and (e * q).denominator in (1, 2, 4):
                out = self.pmul(out, self.absatom_pow(i, e * q))
            elif e.denominator != 1 and (e.denominator % 2 == 0):
                out = self.pmul(out, self.ap(i, e * q))       # defined => base >= 0
            else:
                keep.append((i, e))
        for i, e in list(keep):
            if e.denominator == 1 and e % 2 == 1 and self.aneg(i):
                keep.remove((i, e))
                c = -c
                out = self.pmul(out, self.ppow_plain(self.pscale(self.frozen[self.atoms[i][1]], -F1), (), e * q))
        if not keep:
            if c < 0:
                raise Unsupported("negative radicand")
            return self.pmul(out, self.numpow(c, q))
        if len(keep) == 1 and c > 0 and keep[0][1] == 1:
            # defined root of a single atom => atom >= 0
            i, e = keep[0]
            return self.pmul(self.pmul(out, self.numpow(c, q)), self.ap(i, q))
        if len(keep) == 1 and c > 0 and keep[0][1].denominator == 1 and keep[0][1] % 2 == 1:
            i, e = keep[0]
            return self.pmul(self.pmul(out, self.numpow(c, q)), self.ap(i, e * q))
        ac = abs(c)
        big = {tuple(keep): F1 if c > 0 else -F1}
        i = self.polyatom(big)
        return self.pmul(self.pmul(out, self.numpow(ac, q)), self.ap(i, q))

    def polyatom(self, p):
        key = ("poly", self.freeze(p))
        if key in self.index:
            return self.index[key]
        # an existing atom that is the same polynomial in disguise?
        for i in self.byfn.get("poly", []):
            q = self.frozen[self.atoms[i][1]]
            if len(q) + len(p) < 400:
                d = self.padd(p, self.pscale(q, -F1))
                if self.pzero(d):
                    return i
        i = self.atom(key)
        self.byfn.setdefault("poly", []).append(i)
        return i

    # ------------------------------------------------------------ zero test
    def pzero(self, p):
        if not p:
            return True
        N, _ = self.combine(p)
        return not N

    # ------------------------------------------------------------ trig
    def split_angle(self, p):
        """angle polynomial -> list of (base key monomial, coefficient)"""
        return [(m, c) for m, c in p.items()]

    def sincos(self, p):
        """(sin p, cos p) as polys"""
        s, c = {}, self.const(1)
        for m, k in sorted(p.items()):
            s1, c1 = self.sc_mono(m, k)
            s, c = (self.padd(self.pmul(s, c1), self.pmul(c, s1)),
                    self.padd(self.pmul(c, c1), self.pscale(self.pmul(s, s1), -F1)))
        return s, c

    def angkey(self, m):
        return tuple(sorted((("t%d" % self.atoms[i][1].uid) if self.atoms[i][0] == "t" else repr(self.atoms[i]), e)
                            for i, e in m))

    def sc_mono(self, m, k):
        if m == ((self.atom(("pi",)), F1),):
            r = self.sc_pi(k)
            if r is not None:
                return r
        if not m:
            # a rational number of radians
            kk = abs(k)
            key = ("rad", kk)
            si, ci = self.atom(("sin", key)), self.atom(("cos", key))
            s, c = self.ap(si), self.ap(ci)
            return (s if k > 0 else self.pscale(s, -F1)), c
        ak = self.angkey(m)
        unit = self.angden.get(ak)
        if unit is None:
            unit = abs(k)
            if len(m) == 1 and (self.atoms[m[0][0]][0] == "fn" or self.atoms[m[0][0]][0] == "t" and self.atoms[m[0][0]][1] in self.trigdefs):
                unit = Fraction(1, k.denominator)
            self.angden[ak] = unit
        if (k / unit).denominator != 1:
            # a new unit for this angle: start over with the common one
            g = Fraction(gcd(k.numerator * unit.denominator, unit.numerator * k.denominator),
                         k.denominator * unit.denominator)
            if max(abs(k), unit) / g <= 12:
                self.angden[ak] = g
                raise Restart()
        n = k / unit
        if n.denominator != 1 or abs(n) > 12:
            key = ("ang", m, abs(k))
            si, ci = self.atom(("sin", key)), self.atom(("cos", key))
            s, c = self.ap(si), self.ap(ci)
            return (s if k > 0 else self.pscale(s, -F1)), c
        n = int(n)
        s1, c1 = self.sc_base(m, unit)
        s, c = {}, self.const(1)
        for _ in range(abs(n)):
            s, c = (self.padd(self.pmul(s, c1), self.pmul(c, s1)),
                    self.padd(self.pmul(c, c1), self.pscale(self.pmul(s, s1), -F1)))
        if n < 0:
            s = self.pscale(s, -F1)
        return s, c

    def sc_pi(self, k):
        k = k % 2
        half = Fraction(1, 2)
        tab = {F0: (0, 1), half: (1, 0), F1: (0, -1), Fraction(3, 2): (-1, 0)}
        if k in tab:
            a, b = tab[k]
            return self.const(a), self.const(b)
        q = k % half
        if q in (Fraction(1, 6), Fraction(1, 3), Fraction(1, 4)):
            def val(x):      # sin(x*pi), x in (0,1/2)
                if x == Fraction(1, 6):
                    return self.const(half)
                if x == Fraction(1, 3):
                    return self.pscale(self.numpow(Fraction(3), half), half)
                return self.pscale(self.numpow(Fraction(2), half), half)
            s, c = val(q), val(half - q)
            n = int((k - q) / half)
            for _ in range(n):
                s, c = c, self.pscale(s, -F1)
            return s, c
        return None

    def sc_base(self, m, k):
        """sin/cos of k*m, an indecomposable angle"""
        if len(m) == 1 and m[0][1] == 1 and k == 1:
            a = self.atoms[m[0][0]]
            if a[0] == "t" and a[1] in self.trigdefs:
                s, k = self.trigdefs[a[1]]
                return self.norm(s), self.norm(k)
            if a[0] == "fn" and a[1] in ("arccos", "arcsin", "arctan", "arctan2"):
                args = [self.frozen[x] for x in a[2]]
                one = self.const(1)
                if a[1] == "arccos":
                    x = args[0]
                    return self.ppow(self.padd(one, self.pscale(self.pmul(x, x), -F1)), Fraction(1, 2)), x
                if a[1] == "arcsin":
                    x = args[0]
                    return x, self.ppow(self.padd(one, self.pscale(self.pmul(x, x), -F1)), Fraction(1, 2))
                if a[1] == "arctan":
                    x = args[0]
                    c = self.ppow(self.padd(one, self.pmul(x, x)), Fraction(-1, 2))
                    return self.pmul(x, c), c
                y, x = args
                r = self.ppow(self.padd(self.pmul(x, x), self.pmul(y, y)), Fraction(-1, 2))
                return self.pmul(y, r), self.pmul(x, r)
        key = ("ang", m, k)
        return self.ap(self.atom(("sin", key))), self.ap(self.atom(("cos", key)))

    # ------------------------------------------------------------ functions
    def fnatom(self, name, args):
        key = ("fn", name, tuple(self.freeze(a) for a in args))
        if key in self.index:
            return self.index[key]
        for i in self.byfn.get((name, len(args)), []):
            old = [self.frozen[x] for x in self.atoms[i][2]]
            try:
                if all(self.pzero(self.padd(a, self.pscale(b, -F1))) for a, b in zip(args, old)):
                    return i
            except TooBig:
                pass
        i = self.atom(key)
        self.byfn.setdefault((name, len(args)), []).append(i)
        return i

    def negative_lead(self, p):
        return bool(p) and p[self.lead(p)] < 0

    def func(self, name, args):
        one = self.const(1)
        if name == "sin":
            return self.sincos(args[0])[0]
        if name == "cos":
            return self.sincos(args[0])[1]
        if name == "tan":
            s, c = self.sincos(args[0])
            return self.pmul(s, self.pinv(c))
        x = args[0]
        if name == "exp":
            if not x:
                return one
            if len(x) == 1:
                (m, c), = x.items()
                if len(m) == 1 and m[0][1] == 1:
                    a = self.atoms[m[0][0]]
                    if a[0] == "fn" and a[1] == "log":
                        return self.ppow(self.frozen[a[2][0]], c)
            # split sums: exp(a+b) = exp(a)exp(b), each exp(c*m) = exp(m)^c
            r = one
            for m, c in x.items():
                if not m:
                    i = self.fnatom("exp", [self.const(1)])
                else:
                    i = self.fnatom("exp", [{m: F1}])
                r = self.pmul(r, self.ap(i, c))
            return r
        if name in ("log", "log10", "log2"):
            base = {"log10": 10, "log2": 2}.get(name)
            r = {}
            if len(x) == 1:
                (m, c), = x.items()
                if c > 0 and all(self.apos(i) or len(m) == 1 for i, e in m):
                    r = self.lognum(c)
                    for i, e in m:
                        a = self.atoms[i]
                        if a[0] == "fn" and a[1] == "exp":
                            r = self.padd(r, self.pscale(self.frozen[a[2][0]], e))
                        elif a[0] == "num":
                            r = self.padd(r, self.pscale(self.lognum(Fraction(a[1])), e))
                        else:
                            r = self.padd(r, self.pscale(self.ap(self.fnatom("log", [{((i, F1),): F1}])), e))
                    if base:
                        r = self.pmul(r, self.pinv(self.lognum(Fraction(base))))
                    return r
            r = self.ap(self.fnatom("log", [x]))
            if base:
                r = self.pmul(r, self.pinv(self.lognum(Fraction(base))))
            return r
        if name in ("arcsin", "arctan", "sinh", "arcsinh", "tanh", "arctanh"):
            if not x:
                return {}
            if name == "arcsin" and x == one:
                return self.pscale(self.ap(self.atom(("pi",))), Fraction(1, 2))
            if name == "arctan" and x == one:
                return self.pscale(self.ap(self.atom(("pi",))), Fraction(1, 4))
            if self.negative_lead(x):
                return self.pscale(self.func(name, [self.pscale(x, -F1)]), -F1)
            if name == "tanh":
                return self.pmul(self.func("sinh", [x]), self.pinv(self.func("cosh", [x])))
            if name == "sinh":
                r = self.hyp(x, "sinh")
                if r is not None:
                    return r
        if name == "cosh":
            if not x:
                return one
            if self.negative_lead(x):
                x = self.pscale(x, -F1)
            r = self.hyp(x, "cosh")
            if r is not None:
                return r
            return self.ap(self.fnatom("cosh", [x]))
        if name == "arccos":
            pi = self.ap(self.atom(("pi",)))
            if not x:
                return self.pscale(pi, Fraction(1, 2))
            if x == one:
                return {}
            if self.negative_lead(x):
                return self.padd(pi, self.pscale(self.func(name, [self.pscale(x, -F1)]), -F1))
        if name == "arctan2":
            pass
        return self.ap(self.fnatom(name, args))

    def hyp(self, x, which):
        if len(x) == 1:
            (m, c), = x.items()
            if len(m) == 1 and m[0][1] == 1 and c in (1, 2):
                a = self.atoms[m[0][0]]
                if a[0] == "fn" and a[1] == "arcsinh":
                    y = self.frozen[a[2][0]]
                    y2 = self.pmul(y, y)
                    ch = self.ppow(self.padd(self.const(1), y2), Fraction(1, 2))
                    if c == 1:
                        return y if which == "sinh" else ch
                    if which == "sinh":
                        return self.pscale(self.pmul(y, ch), Fraction(2))
                    return self.padd(self.const(1), self.pscale(y2, Fraction(2)))
                if a[0] == "fn" and a[1] == "arctanh" and c == 2:
                    y = self.frozen[a[2][0]]
                    y2 = self.pmul(y, y)
                    d = self.pinv(self.padd(self.const(1), self.pscale(y2, -F1)))
                    return self.pmul(self.pscale(y, Fraction(2)) if which == "sinh" else self.padd(self.const(1), y2), d)
        if len(x) > 1 and all(len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][:2] == ("fn", "arcsinh") and c.denominator == 1 and abs(c) <= 4
                              for m, c in x.items()):
            sh, ch = {}, self.const(1)
            for m, c in x.items():
                y = self.frozen[self.atoms[m[0][0]][2][0]]
                k = self.ppow(self.padd(self.const(1), self.pmul(y, y)), Fraction(1, 2))
                if c < 0:
                    y = self.pscale(y, -F1)
                for _ in range(abs(int(c))):
                    sh, ch = (self.padd(self.pmul(sh, k), self.pmul(ch, y)), self.padd(self.pmul(ch, k), self.pmul(sh, y)))
            return sh if which == "sinh" else ch
        if x and all(len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][:2] == ("fn", "log") for m in x):
            e = self.func("exp", [x])
            return self.pscale(self.padd(e, self.pscale(self.pinv(e), Fraction(1 if which == "cosh" else -1))), Fraction(1, 2))
        return None

    def lognum(self, c):
        r = {}
        for n, sg in ((c.numerator, 1), (c.denominator, -1)):
            for pr, k in factor(n):
                r = self.padd(r, self.pscale(self.ap(self.fnatom("log", [self.const(pr)])), Fraction(k * sg)))
        return r

    # ------------------------------------------------------------ terms -> polys
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._norm(t)
            if len(r) > MAXTERMS:
                raise TooBig()
            self.memo[t] = r
        return r

    def tatom(self, t):
        return self.ap(self.atom(("t", t)))

    def _norm(self, t):
        op = t.op
        if t in self.opaque:
            return self.tatom(t)
        if op == "num":
            return self.const(t.args[0])
        if op == "var":
            return self.tatom(t)
        if op == "pi":
            return self.ap(self.atom(("pi",)))
        if op == "add":
            r = {}
            for a in t.args:
                r = self.padd(r, self.norm(a))
            return r
        if op == "mul":
            r = self.const(1)
            for a in sorted((self.norm(a) for a in t.args), key=len):
                r = self.pmul(r, a)
            return r
        if op == "toreal":
            return self.norm(t.args[0])
        if op == "pow":
            b, e = t.args
            if e.op == "num":
                return self.ppow(self.norm(b), e.args[0])
            ne = self.norm(e)
            if not ne or (len(ne) == 1 and () in ne):
                return self.ppow(self.norm(b), ne.get((), F0))
            return self.ap(self.fnatom("pow", [self.norm(b), ne]))
        if op == "fn":
            return self.func(t.args[0], [self.norm(a) for a in t.args[1:]])
        if op == "abs":
            x = t.args[0]
            if x.op == "mul":
                r = self.const(1)
                for f in x.args:
                    r = self.pmul(r, self.norm(tm.absolute(f)))
                return r
            if x.op == "pow" and x.args[1].op == "num" and x.args[1].args[0].denominator == 1:
                return self.ppow(self.norm(tm.absolute(x.args[0])), x.args[1].args[0])
            return self.pabs(self.norm(x))
        if op == "floor":
            return self.ap(self.fnatom("floor", [self.norm(t.args[0])]))
        if op == "app":
            args = []
            for a in t.args[1:]:
                if isinstance(a, T) and a.op == "lam":
                    args.append(self.norm(a.args[1]))
                elif isinstance(a, T) and a.sort == "B":
                    args.append(self.tatom(a))
                elif isinstance(a, T):
                    args.append(self.norm(a))
                else:
                    args.append(self.ap(self.atom(("s", a))))
            i = self.fnatom("app:" + t.args[0], args)
            return self.ap(i)
        if op == "ite":
            c, a, b = t.args
            na, nb = self.norm(a), self.norm(b)
            if na == nb:
                return na
            return self.ap(self.fnatom("ite", [self.tatom(c), na, nb]))
        if op == "lam":
            return self.norm(t.args[1])
        if t.sort == "B":
            return self.tatom(t)
        return self.tatom(t)

    def pabs(self, p):
        if not p:
            return p
        if len(p) == 1:
            (m, c), = p.items()
            r = self.const(abs(c))
            keep = []
            for i, e in m:
                if self.anonneg(i) or (e.denominator == 1 and e % 2 == 0) or e.denominator != 1:
                    r = self.pmul(r, self.ap(i, e))
                else:
                    keep.append((i, e))
            for i, e in keep:
                r = self.pmul(r, self.absatom_pow(i, e))
            return r
        if 2 < len(p) <= 40 and all(e.denominator == 1 and e > 0 for m in p for _, e in m):
            for j in list(self.byfn.get("poly", [])):
                b = self.frozen[self.atoms[j][1]]
                if len(b) < len(p) and len(b) <= 4 and all(e.denominator == 1 and e > 0 for m in b for _, e in m):
                    d = self.pdiv(p, b)
                    if d is not None:
                        if self.apos(j):
                            return self.pmul(b, self.pabs(d))
                        if self.aneg(j):
                            return self.pscale(self.pmul(b, self.pabs(d)), -F1)
        if self.pnonneg(p):
            return p
        if self.pnonneg(self.pscale(p, -F1)):
            return self.pscale(p, -F1)
        c = self.content(p)
        q = self.pscale(p, 1 / c)
        if self.negative_lead(q):
            q = self.pscale(q, -F1)
        for i in self.byfn.get("abs", []):
            o = self.frozen[self.atoms[i][1]]
            if self.pzero(self.padd(q, self.pscale(o, -F1))) or self.pzero(self.padd(q, o)):
                return self.pscale(self.ap(i), c)
        i = self.atom(("abs", self.freeze(q)))
        self.byfn.setdefault("abs", []).append(i)
        return self.pscale(self.ap(i), c)

    # ------------------------------------------------------------ polys -> terms
    def atom_term(self, i):
        a = self.atoms[i]
        k = a[0]
        if k == "t":
            return a[1]
        if k == "pi":
            return tm.PI
        if k == "num":
            return tm.num(Fraction(a[1]), "R")
        if k == "poly":
            return self.to_term(self.frozen[a[1]])
        if k == "abs":
            return tm.absolute(self.to_term(self.frozen[a[1]]))
        if k in ("sin", "cos"):
            key = a[1]
            if key[0] == "rad":
                return tm.fn(k, tm.num(key[1], "R"))
            _, m, c = key
            return tm.fn(k, self.to_term({m: c}))
        if k == "fn" and not a[1].startswith("app:") and a[1] not in ("ite", "floor", "pow"):
            return tm.fn(a[1], *[self.to_term(self.frozen[x]) for x in a[2]])
        return tm.var("$a%d" % i)      # an unconstrained stand-in

    def to_term(self, p):
        out = []
        for m, c in p.items():
            f = [tm.num(c, "R")]
            for i, e in m:
                f.append(tm.power(self.atom_term(i), tm.num(e, "R")))
            out.append(tm.mul(*f))
        return tm.add(*out) if out else tm.num(0)

    def run(self, f):
        for _ in range(12):
            try:
                return f()
            except Restart:
                self.memo.clear()
                self.atoms.clear()
                self.index.clear()
                self.byfn.clear()
                self.frozen = {}
                self._rule_atoms = {}
                self.sums = None
        raise TooBig()

    def install_rules(self):
        """rules: (atom term, exponent k, rhs term): atom^k -> rhs"""
        for lhs, k, rhs in self.rules:
            p = self.norm(lhs)
            if len(p) == 1:
                (m, c), = p.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    i = m[0][0]
                    r = self.norm(rhs)
                    self._rule_atoms[i] = (Fraction(k), r)
        if self.rules:
            self.memo.clear()

    def signed(self, t, strict):
        """True = proved >= 0 (> 0 if strict) by the signs of the terms of the normal form"""
        def factor(f):
            """sign of a factor: 1 or -1 (strict), 0 unknown"""
            if f.op == "pow" and f.args[1].op == "num" and f.args[1].args[0].denominator == 1:
                k = factor(f.args[0])
                return k if f.args[1].args[0] % 2 else k * k
            p = self.norm(f)
            return 1 if self.ppos(p) else -1 if self.ppos(self.pscale(p, -F1)) else 0

        def go():
            self.frozen = self.frozen or {}
            if self.rules and not self._rule_atoms:
                self.install_rules()
            if t.op == "mul":
                k = 1
                for f in t.args:
                    k *= factor(f)
                    if not k:
                        break
                if k:
                    return k == 1
            elif t.op == "add" and self.known_sum(self.norm(t)):
                return True
            p = self.norm(t)
            N, M = self.combine(p)
            for q in (p, N) if all(self.apos(i) for i, _ in M) else (p,):
                if all(self.mono_sign(m, c) == 1 for m, c in q.items()) and (
                        not strict or any(self.mono_sign(m, c, True) == 1 for m, c in q.items())):
                    return True
            return False
        try:
            return self.run(go)
        except (TooBig, RecursionError, Unsupported):
            return False

    def zero(self, t):
        """True = proved identically zero. False = not proved."""
        def go():
            self.frozen = self.frozen or {}
            if self.rules and not self._rule_atoms:
                self.install_rules()
            return self.pzero(self.norm(t))
        try:
            return self.run(go)
        except (TooBig, RecursionError, Unsupported):
            return False


_FACT = {}


def factor(n):
    n = abs(n)
    if n in _FACT:
        return _FACT[n]
    k, out, d = n, [], 2
    while d * d <= k and d < 20000:
        e = 0
        while k % d == 0:
            k //= d
            e += 1
        if e:
            out.append((d, e))
        d += 1 if d == 2 else 2
    if k > 1:
        out.append((k, 1))
    _FACT[n] = out
    return out
