"""C21 deflection maneuvers on approach"""
from engine.base import contract


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def add(*terms):
    return [sum((k * v[j] for k, v in terms[1:]), terms[0][0] * terms[0][1][j]) for j in range(3)]


class Deflection:
    """two hyperbolas with one excess velocity, by the contract of Approach (C19)"""

    def __init__(self, c):
        s, k = c.np.sin, c.np.cos
        self.c = c
        P = self.P = c.planet(dens=False)
        self.V, self.A = c.pos("V", 2e3, 3e4), c.pos("A", 1e5, 1e7)       # excess speed, |semi-major axis|
        P.GM = self.A * self.V * self.V
        self.vinf = c.vec3("vinf", 20.0)
        d, a, z = c.real("dl", -1.4, 1.4), c.real("al", -3.1, 3.1), c.real("zt", -3.1, 3.1)
        self.n = [k(d) * k(a), k(d) * s(a), s(d)]                          # direction of the maneuver point
        e1, e2 = [-s(d) * k(a), -s(d) * s(a), k(d)], [-s(a), k(a), 0]
        self.m = add((k(z), e1), (s(z), e2))
        self.u = add((-s(z), e1), (k(z), e2))
        self.legs, self.seen, self.ids = {}, [], []

    def leg(self, tag, probe, first):
        """what Approach is to be asked for this leg"""
        c = self.c

        class Leg:
            pass
        L = Leg()
        L.tag, L.rp, L.psi, L.probe, L.first = tag, c.pos("rp" + tag, 3e6, 8e7), c.real("psi" + tag, 0.0, 6.28), probe, first
        L.hEI = c.pos("hEI" + tag, 1e5, 2e6) if probe else None
        L.planetObj, L.a = self.P, -1 * self.A
        L.v_inf_mag = self.V
        self.legs[tag] = L
        return L

    def conic(self, L, e, h, p, q, ct=None):
        """hyperbola of eccentricity e and angular momentum h with periapsis along p, motion there along q"""
        c = self.c
        s, k = c.np.sin, c.np.cos
        L.e, L.h = e, h
        L.rp_vec_bi_unit, L.rp_vec_bi = c.vec(p), c.vec([L.rp * x for x in p])
        L.rp_vec_bi_mag = L.rp
        L.r_mag_bi = lambda t: L.h * L.h / self.P.GM / (1 + L.e * k(t))

        def pos(t):
            if not L.first:
                return c.vec([L.r_mag_bi(t) * (x * k(t) + y * s(t)) for x, y in zip(p, q)])
            c.eq("maneuver radius", L.r_mag_bi(t), self.r, rtol=1e-7)
            c.check("maneuver point on the inbound leg", t <= 0)
            return c.vec([self.r * x for x in self.n])
        L.pos_vec_bi = pos

    def generic(self, L):
        """a leg this contract says nothing about"""
        c = self.c
        e, h = 1 + c.pos("ex" + L.tag, 0.05, 4.0), c.pos("h" + L.tag, 1e11, 1e12)
        p, q = c.vec3("p" + L.tag), c.vec3("q" + L.tag)
        self.conic(L, e, h, list(p), list(q))

    def make(self, cls, *legs):
        c, a = self.c, self

        def given(x, y):
            return x is y or getattr(x, "t", 0) is getattr(y, "t", 1) or isinstance(x, float) and x == y

        def approach(arrivalPlanet, v_inf_vec_icrf_kms, rp, psi, is_entrySystem=False, h_EI=None):
            c.same("same excess velocity", v_inf_vec_icrf_kms if v_inf_vec_icrf_kms is a.vinf else list(v_inf_vec_icrf_kms),
                   a.vinf if v_inf_vec_icrf_kms is a.vinf else list(a.vinf))
            a.ids.append(arrivalPlanet)
            left = [L for L in legs if L not in a.seen]
            L = [x for x in left if given(x.rp, rp) and given(x.psi, psi)]
            c.check("asked for the trajectories given", len(L) == 1)
            L = (L or left)[0]
            a.seen.append(L)
            c.check("entry trajectory of leg " + L.tag, bool(is_entrySystem) == L.probe and (not L.probe or given(h_EI, L.hEI)))
            return L
        c.replace("maneuver", "Approach", approach)
        c.replace("maneuver", "Planet", lambda ID: (a.ids.append(ID), a.P)[1])
        args = []
        for L in legs:
            args += [L.rp, L.psi] + ([L.hEI] if L.probe else [])
        M = c.cls("maneuver", cls)(self.P.ID, self.vinf, *args, self.r / self.P.RP)
        c.check("the planet asked for", all(i == self.P.ID for i in a.ids))
        c.check("both trajectories", len(a.seen) == len(legs))
        return M

    def impulse(self, M, before, after):
        c = self.c
        d = [y - x for x, y in zip(list(before), list(after))]
        c.eq("impulse is the velocity difference", list(M.dv_maneuver_vec), d, rtol=1e-9, scale=1e4)
        c.eq("its magnitude", M.dv_maneuver_mag * M.dv_maneuver_mag, dot(d, d), rtol=1e-7, scale=1e2)


class ProbeLeg:
    """the maneuver point lies on the first probe's own hyperbola at tan(-theta/2) = w; kk = tan(beta/2)"""

    def __init__(self, D, L, cls):
        c = D.c
        kk, w = c.rng("kk", 0.0, 1.0, strict=True), c.pos("w", 0.2, 1.2)
        c.given(1 - kk * kk > 0)
        if not c.sym:
            c.require(kk > 0.05)
        c.require(1 - kk * kk * w * w > (0 if c.sym else 0.01))
        self.D, self.kk, self.w = D, kk, w
        A, V = D.A, D.V
        L.rp = A * 2 * kk * kk / (1 - kk * kk)
        D.r = A * 2 * kk * kk / (1 - kk * kk) * (1 + w * w) / (1 - kk * kk * w * w)
        self.e, self.h = (1 + kk * kk) / (1 - kk * kk), L.rp * V / kk
        ct, st = (1 - w * w) / (1 + w * w), -2 * w / (1 + w * w)
        # n = p ct + q st
        self.p = add((ct, D.n), (-st, D.m))
        self.q = add((st, D.n), (ct, D.m))
        vr, vt = D.P.GM / self.h * self.e * st, self.h / D.r
        self.vel = add((vr, D.n), (vt, D.m))
        D.conic(L, self.e, self.h, self.p, self.q)
        q = c.np.sqrt(1 + w * w)
        half = c.given_angle("half", w / q, 1 / q)
        tag = {"": "_probe"}.get(L.tag, "_probe" + L.tag)
        X = (1 + kk * w) / (1 - kk * w)
        self.H = c.np.log(X)
        e, H = self.e, self.H
        c.given(e * (X - 1 / X) / 2 - H > 0)        # sinh x >= x for x >= 0, e > 1
        C = c.cls("maneuver", cls)

        def theta(o, v):
            c.check("inbound", v <= 0)
            c.angle("true anomaly", v, st, ct)
            c.given(half > 0)
            return -2 * half
        c.cut(C, "theta_star_dv" + tag, theta)
        c.cut(C, "H_dv" + tag, lambda o, v: c.hyper("hyperbolic anomaly", v, X))
        self.X = X

    def tof(self):
        """Kepler's time from the maneuver point to periapsis, in days"""
        D = self.D
        return D.A / D.V * (self.e * (self.X - 1 / self.X) / 2 - self.H) / 86400


@contract("C21", "ProbeOrbiterDeflection.__init__", samples=60, budget=120)
def deflection_probe(c):
    """probe leg: velocity of its own hyperbola at the maneuver radius, time by Kepler's equation"""
    D = Deflection(c)
    a, b = D.leg("", True, True), D.leg("2", False, False)
    L = ProbeLeg(D, a, "ProbeOrbiterDeflection")
    D.generic(b)
    M = D.make("ProbeOrbiterDeflection", a, b)
    c.eq("maneuver radius", M.r_dv, D.r, rtol=1e-9)
    c.eq("maneuver point", list(M.r_vec_dv), [D.r * x for x in D.n], rtol=1e-6, scale=D.r)
    c.eq("probe velocity", list(M.v_vec_dv_probe), L.vel, rtol=1e-6, scale=D.V)
    c.eq("probe time of flight", M.TOF_probe, L.tof(), rtol=1e-6)


@contract("C21", "ProbeProbeDeflection.__init__", samples=60, budget=120)
def deflection_probe_pair(c):
    """first probe: velocity of its own hyperbola at the maneuver radius; both times by Kepler's equation on each probe's hyperbola"""
    D = Deflection(c)
    a, b = D.leg("1", True, True), D.leg("2", True, False)
    L = ProbeLeg(D, a, "ProbeProbeDeflection")
    # second probe: eccentricity by k2, its own anomaly at that radius by tan(-theta/2) = w2; its energy need not be that of the first here
    k2, w2 = c.rng("k2", 0.0, 1.0, strict=True), c.pos("w2", 0.2, 1.2)
    c.given(1 - k2 * k2 > 0)
    if not c.sym:
        c.require(k2 > 0.05)
    c.require(1 - k2 * k2 * w2 * w2 > (0 if c.sym else 0.01))
    A2 = D.r * (1 - k2 * k2) * (1 - k2 * k2 * w2 * w2) / (2 * k2 * k2 * (1 + w2 * w2))
    b.rp, b.a = A2 * 2 * k2 * k2 / (1 - k2 * k2), -1 * A2
    e2, h2 = (1 + k2 * k2) / (1 - k2 * k2), c.np.sqrt(D.P.GM * b.rp) * c.np.sqrt(2 / (1 - k2 * k2))
    D.conic(b, e2, h2, list(c.vec3("p2")), list(c.vec3("q2")))
    X2 = (1 + k2 * w2) / (1 - k2 * w2)
    H2 = c.np.log(X2)
    c.given(e2 * (X2 - 1 / X2) / 2 - H2 > 0)        # sinh x >= x for x >= 0, e > 1
    q2 = c.np.sqrt(1 + w2 * w2)
    half2 = c.given_angle("half2", w2 / q2, 1 / q2)
    C = c.cls("maneuver", "ProbeProbeDeflection")

    def theta(o, v):
        c.angle("true anomaly of the second", v, -2 * w2 / (1 + w2 * w2), (1 - w2 * w2) / (1 + w2 * w2))
        c.given(half2 > 0)
        return -2 * half2
    c.cut(C, "theta_star_dv_probe2", theta)
    c.cut(C, "H_dv_probe2", lambda o, v: c.hyper("hyperbolic anomaly of the second", v, X2))
    M = D.make("ProbeProbeDeflection", a, b)
    c.eq("maneuver radius", M.r_dv, D.r, rtol=1e-9)
    c.eq("maneuver point", list(M.r_vec_dv), [D.r * x for x in D.n], rtol=1e-6, scale=D.r)
    c.eq("first probe's velocity", list(M.v_vec_dv_probe1), L.vel, rtol=1e-6, scale=D.V)
    c.eq("first probe's time of flight", M.TOF_probe1, L.tof(), rtol=1e-6)
    c.eq("second probe's time of flight", M.TOF_probe2 * 86400, c.np.sqrt(A2 * A2 * A2 / D.P.GM) * (e2 * (X2 - 1 / X2) / 2 - H2), rtol=1e-6)


class SpaceLeg:
    """a transfer of less than half a turn from the maneuver point to the periapsis vector of the leg, any |semi-major axis| A = g^2/2.
    s - r = a1^2, s - rp = a2^2, s - chord = a3^2 give every such triangle (s half the perimeter)"""

    def __init__(self, D, L, cls, tag):
        c = D.c
        q = c.np.sqrt
        a1, a2, a3, g = c.pos("a1", 500.0, 5e3), c.pos("a2", 500.0, 5e3), c.pos("a3", 500.0, 5e3), c.pos("g", 300.0, 5e3)
        s = a1 * a1 + a2 * a2 + a3 * a3
        D.A = A = g * g / 2
        V = D.V
        D.P.GM = A * V * V
        r, rp, ch = a2 * a2 + a3 * a3, a1 * a1 + a3 * a3, a1 * a1 + a2 * a2
        D.r, L.rp = r, rp
        for l in D.legs.values():
            l.a = -1 * A
        cd, sd = (s * a3 * a3 - a1 * a1 * a2 * a2) / (r * rp), 2 * a1 * a2 * a3 * q(s) / (r * rp)
        # the leg's periapsis: cd n + sd (ct m + st u)
        f = c.real("plane", -3.1, 3.1)
        self.tau = add((c.np.cos(f), D.m), (c.np.sin(f), D.u))
        self.nu = add((-c.np.sin(f), D.m), (c.np.cos(f), D.u))
        self.p2 = add((cd, D.n), (sd, self.tau))
        self.D, self.r, self.rp, self.cd, self.sd, self.A = D, r, rp, cd, sd, A
        # Lambert: semi-latus rectum for this branch, Lagrange's angles
        x, y = q(s) / g, a3 / g
        self.x, self.y = x, y
        sh = x * q(1 + y * y) + y * q(1 + x * x)
        w = 2 * a1 * a2 / ch
        self.P, self.h = A * w * w * sh * sh, A * V * w * sh
        C = c.cls("maneuver", cls)
        t = {"_space": ("delta_theta_star_space", "C", "alpha_prime", "beta_prime", "P_space")}.get(
            tag, ("delta_theta_star" + tag, "C" + tag[-1], "alpha_prime" + tag[-1], "beta_prime" + tag[-1], "P" + tag))
        c.cut(C, t[0], lambda o, v: c.angle("transfer angle", v, sd, cd))
        c.cut(C, t[1], lambda o, v: c.rootrewrite("chord", v, ch))
        c.cut(C, t[4], lambda o, v: c.rewrite("semi-latus rectum", v, self.P))
        self.fg = {}
        for n in "fg":
            c.cut(C, n + tag, lambda o, v, n=n: self.fg.setdefault(n, c.hide(v)))

    def ensures(self, v, tof):
        """the velocity carries the spacecraft from the maneuver point to the periapsis vector in the time of flight, with the approach energy"""
        c, D, r, rp = self.D.c, self.D, self.r, self.rp
        GM, A, V = D.P.GM, D.A, D.V
        v = list(v)
        vr, vt = dot(v, D.n), dot(v, self.tau)
        cr, ct = (rp * self.cd - (1 - rp / self.P * (1 - self.cd)) * r) * self.h / (r * rp * self.sd), self.h / r
        if len(self.fg) == 2:
            # for any Lagrange coefficients, then for those of the code
            f, g = self.fg["f"], self.fg["g"]
            c.split("velocity components", (vr, (rp * self.cd - f * r) / g), (vt, rp * self.sd / g))
            F, = c.split("Lagrange coefficient f", (c.reveal(f), 1 - rp / self.P * (1 - self.cd)))
            G = c.rootrewrite("Lagrange coefficient g", c.reveal(g), r * rp * self.sd / self.h)
            vr, vt = (rp * self.cd - F * r) / G, rp * self.sd / G
        c.eq("radial velocity", vr, cr, rtol=1e-6, scale=V)
        c.eq("transverse velocity", vt, ct, rtol=1e-6, scale=V)
        if not c.sym:
            cr, ct = vr, vt
        c.eq("velocity in the plane of departure and arrival", dot(v, self.nu), 0, scale=V, rtol=1e-6)
        c.eq("energy of the approach", cr * cr + ct * ct, V * V + 2 * GM / r, rtol=1e-6)
        h = r * ct
        c.eq("conic through the aimed periapsis vector", h * h / (GM * rp), 1 + (h * h / (GM * r) - 1) * self.cd - cr * h / GM * self.sd, rtol=1e-5, scale=1.0)
        c.check("short way round", ct > 0)
        al, be = 2 * c.np.arcsinh(self.x), 2 * c.np.arcsinh(self.y)
        t = A / V * ((c.np.sinh(al) - al) - (c.np.sinh(be) - be))         # Lagrange's time of flight
        c.eq("time of flight", tof * 86400, t, rtol=1e-5, scale=t)


@contract("C21", "ProbeOrbiterDeflection.__init__", samples=60, budget=120)
def deflection_space(c):
    """after the impulse the spacecraft has the approach energy and reaches its own periapsis vector in the stated time"""
    D = Deflection(c)
    a, b = D.leg("", True, True), D.leg("2", False, False)
    L = SpaceLeg(D, b, "ProbeOrbiterDeflection", "_space")
    D.conic(b, 1 + c.pos("ex2", 0.05, 4.0), c.pos("h2", 1e11, 1e12), L.p2, list(c.vec3("q2")))
    other(D, a)
    M = D.make("ProbeOrbiterDeflection", a, b)
    L.ensures(M.v_vec_dv_space, M.TOF_space)


def other(D, a):
    """the first leg passes the maneuver point inbound; nothing else is used of it"""
    c = D.c
    e, w = 1 + c.pos("ex" + a.tag, 0.05, 4.0), c.pos("w" + a.tag, 0.2, 1.0)
    ct = (1 - w * w) / (1 + w * w)
    h = c.np.sqrt(D.P.GM * D.r * (1 + e * ct))
    D.conic(a, e, h, list(c.vec3("p" + a.tag)), list(c.vec3("q" + a.tag)))


@contract("C21", "OrbiterOrbiterDeflection.__init__", samples=60, budget=120)
def deflection_orbiter_pair(c):
    """each spacecraft of a pair: velocity with the approach energy that reaches its own periapsis vector in the stated time"""
    which = c.pick("leg", (1, 2))
    D = Deflection(c)
    a, b = D.leg("1", False, True), D.leg("2", False, False)
    L = SpaceLeg(D, a if which == 1 else b, "OrbiterOrbiterDeflection", "_space%d" % which)
    k = "%d" % (3 - which)              # the other spacecraft
    for n in ("C", "alpha_prime", "beta_prime", "P_space", "f_space", "g_space"):
        c.cut(c.cls("maneuver", "OrbiterOrbiterDeflection"), n + k, lambda o, v: c.hide(v))
    if which == 1:
        e = 1 + c.pos("ex1", 0.05, 4.0)
        D.conic(a, e, c.np.sqrt(D.P.GM * D.r * (1 + e * L.cd)), L.p2, list(c.vec3("q1")))
        c.require(1 + e * L.cd > 0)
        D.generic(b)
    else:
        D.conic(b, 1 + c.pos("ex2", 0.05, 4.0), c.pos("h2", 1e11, 1e12), L.p2, list(c.vec3("q2")))
        other(D, a)
    M = D.make("OrbiterOrbiterDeflection", a, b)
    c.eq("maneuver radius", M.r_dv, D.r, rtol=1e-9)
    c.eq("maneuver point", list(M.r_vec_dv), [D.r * x for x in D.n], rtol=1e-6, scale=D.r)
    L.ensures(M.v_vec_dv_space1 if which == 1 else M.v_vec_dv_space2, M.TOF_space1 if which == 1 else M.TOF_space2)


@contract("C21", "ProbeOrbiterDeflection.__init__ ProbeProbeDeflection.__init__ OrbiterOrbiterDeflection.__init__", samples=30, budget=60)
def deflection_impulse(c):
    """the impulse is the difference between the velocities of the two trajectories at the maneuver point"""
    cls, va, vb = c.pick("kind", (("ProbeOrbiterDeflection", "v_vec_dv_probe", "v_vec_dv_space"), ("ProbeProbeDeflection", "v_vec_dv_probe1", "v_vec_dv_probe2"),
                                  ("OrbiterOrbiterDeflection", "v_vec_dv_space1", "v_vec_dv_space2")))
    D = Deflection(c)
    D.r = c.pos("r", 1e8, 1e10)
    one = cls == "ProbeOrbiterDeflection"
    a, b = D.leg("" if one else "1", cls[:5] == "Probe", True), D.leg("2", cls == "ProbeProbeDeflection", False)
    other(D, a)
    D.generic(b)
    for n in (va, vb):
        c.cut(c.cls("maneuver", cls), n, lambda o, v: c.vec([c.hide(x) for x in list(v)]))
    if not c.sym:
        b.h, b.e = c.np.sqrt(D.P.GM * D.r * 1.1), 1.3
    M = D.make(cls, a, b)
    D.impulse(M, getattr(M, va), getattr(M, vb))


@contract("C21", "ProbeProbeDeflection.__init__", samples=10, budget=20)
def second_probe(c):
    """after the impulse the second probe has the approach energy"""
    D = Deflection(c)
    a, b = D.leg("1", True, True), D.leg("2", True, False)
    S, R, Q = D.n, D.m, D.u
    A, V = D.A, D.V
    w = c.pos("w", 0.2, 1.0)
    ct, st = (1 - w * w) / (1 + w * w), -2 * w / (1 + w * w)
    pq = []
    for L in (a, b):
        kk, psi = c.rng("kk" + L.tag, 0.3, 0.9, strict=True), c.real("ring" + L.tag, 0.0, 6.28)
        sb, cb = 2 * kk / (1 + kk * kk), (1 - kk * kk) / (1 + kk * kk)
        p = add((cb, S), (sb * c.np.cos(psi), R), (sb * c.np.sin(psi), Q))
        q = add((1 / sb, S), (-cb / sb, p))
        pq.append((kk, p, q))
        L.rp = A * 2 * kk * kk / (1 - kk * kk)
    k1, p, q = pq[0]
    D.r = A * 2 * k1 * k1 / (1 - k1 * k1) * (1 + w * w) / (1 - k1 * k1 * w * w)
    D.n = add((ct, p), (st, q))
    for L, (kk, p, q) in zip((a, b), pq):
        D.conic(L, (1 + kk * kk) / (1 - kk * kk), L.rp * V / kk, p, q)
    k2 = pq[1][0]
    c.require((D.r / A + 1) * (1 - k2 * k2) < (1 + k2 * k2) * (D.r / A) and D.r > b.rp * (1 if c.sym else 1.05))
    M = D.make("ProbeProbeDeflection", a, b)
    v = list(M.v_vec_dv_probe2)
    c.eq("energy of the approach", dot(v, v), V * V + 2 * D.P.GM / D.r, rtol=1e-4)
