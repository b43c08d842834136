"""C23 probe targeting and orbiter deflection from orbit"""
from engine.base import contract
from contracts.c22_orbit import frame, dot


class Burn:
    """an impulse dV along the velocity; just after it the orbiter is at radius r along n with radial and transverse speeds vr, vt
    (n and the direction of motion m arbitrary), on a bound inclined orbit with elements a, e, h, O, i, om and true anomaly t"""

    def __init__(self, c, suffix):
        s, k = c.np.sin, c.np.cos
        self.c, self.suffix = c, suffix
        P = self.P = c.planet(dens=False)
        r, v, v1 = c.pos("r", 3e6, 8e7), c.pos("v", 3e3, 3e4), c.pos("v1", 3e3, 3e4)
        g = c.real("g", -1.0, 1.0)
        c.given(k(g) > 0)
        if not c.sym:
            P.GM = r * v * v / c.real("x", 0.2, 1.8)
        GM = P.GM
        self.r, self.v = r, v
        vr, vt = self.vr, self.vt = v * s(g), v * k(g)
        vv = v * v
        c.given(2 * GM / r - vv > 0)
        h = self.h = r * vt
        self.a = 1 / (2 / r - vv / GM)
        ec, es = h * h / (GM * r) - 1, vr * h / GM
        c.given(ec * ec + es * es > 0)
        e = self.e = c.np.sqrt(ec * ec + es * es)
        if not c.sym:
            c.require(e > 0.02)
        ct, st = ec / e, es / e
        t = c.given_angle("t", st, ct)
        self.rp, self.ra = self.a * (1 - e), self.a * (1 + e)
        O, i, om = c.real("node", 0.05, 6.2), c.real("i", 0.05, 3.0), c.real("argp", 0.05, 6.2)
        c.given(s(i) > 0)
        self.O, self.i, self.om, self.t = O, i, om, t
        p, q = frame(c, O, i, om)
        n, m = [x * ct + y * st for x, y in zip(p, q)], [y * ct - x * st for x, y in zip(p, q)]
        d, a, z = c.orthopair("position and direction of motion", n, m)
        self.n = [k(d) * k(a), k(d) * s(a), s(d)]
        self.m = [x * k(z) + y * s(z) for x, y in zip([-s(d) * k(a), -s(d) * s(a), k(d)], [-s(a), k(a), 0])]
        nn, mm = self.n, self.m
        # before: the same direction, the speed less dV
        dV = self.dV = v - v1
        self.v1 = [v1 * (s(g) * x + k(g) * y) for x, y in zip(nn, mm)]
        self.unit = [s(g) * x + k(g) * y for x, y in zip(nn, mm)]
        self.ts = c.real("ts", 0.0, 6.28)
        self.V = c.vehicle(P, state=False)
        C = self.cls = c.cls("orbiter", "Orbiter")
        self.B = C.__new__(C)
        self.B.vehicle = self.V
        rw = lambda nm, new: c.cut(C, nm + suffix, lambda o, x: c.rewrite(nm, x, new))
        h = lambda o, x: c.rootrewrite("h", x, self.h)
        if suffix == "_probe_orbit":
            c.cut(C, "h_post_maneuver", h)
        c.cut(C, "h" + suffix, h)
        rw("a", self.a)
        c.cut(C, "e" + suffix, lambda o, x: c.rootrewrite("e", x, e))
        nrm = [nn[1] * mm[2] - nn[2] * mm[1], nn[2] * mm[0] - nn[0] * mm[2], nn[0] * mm[1] - nn[1] * mm[0]]
        sph = lambda nm, a, b: c.cut(C, nm + suffix, lambda o, x: c.rewrite(nm, x, a) is None or c.vec(b))
        sph("h_vec_bi", [self.h * x for x in nrm], [self.h * x for x in (s(O) * s(i), -k(O) * s(i), k(i))])
        sph("e_vec_bi", [e * (x * ct - y * st) for x, y in zip(nn, mm)], [e * x for x in p])
        rw("h_vec_bi_unit", [s(O) * s(i), -k(O) * s(i), k(i)])
        c.cut(C, "i" + suffix, lambda o, x: c.angle("i", x, s(i), k(i)) is None or i)
        rw("N_vec_bi_unit", [k(O), s(O), 0])
        c.cut(C, "OMEGA" + suffix, lambda o, x: c.angle("OMEGA", x, s(O), k(O)) is None or O)
        rw("e_vec_bi_unit", p)
        c.cut(C, "omega" + suffix, lambda o, x: c.angle("omega", x, s(om), k(om)) is None or om)

    def before(self, pos, vel):
        """position and velocity before the burn, by the contract of those methods"""
        c, C = self.c, self.cls
        self.curve = [c.fun("curve" + x, 1, -3e7, 3e7) for x in "xyz"]

        def p(o, t):
            if t is self.ts:
                return c.vec([self.r * x for x in self.n])
            return self.other(t)

        def v(o, t):
            c.check("velocity before the burn where it is made", t is self.ts)
            return c.vec(self.v1)
        c.stub(C, pos, p)
        c.stub(C, vel, v)

    def other(self, t):
        return self.along(t)

    def along(self, ts):
        """positions at an array of anomalies"""
        c = self.c
        return c.np.array([c.arr(c.length(ts), lambda j, f=f: f(ts[j])) for f in self.curve])

    def ensures(self, B, dv):
        c, x = self.c, self.suffix
        s, k = c.np.sin, c.np.cos
        g = lambda n: getattr(B, n + x)
        c.eq("impulse along the velocity", list(dv), [self.dV * y for y in self.unit], rtol=1e-7, scale=abs(self.dV) + 1 if not c.sym else 1)
        c.eq("semi-major axis after", g("a"), self.a, rtol=1e-5)
        c.eq("eccentricity after", g("e"), self.e, rtol=1e-5, scale=1.0)
        c.eq("angular momentum after", g("h"), self.h, rtol=1e-5)
        c.eq("inclination", k(g("i")), k(self.i), rtol=1e-6, scale=1.0)
        c.eq("node", [k(g("OMEGA")), s(g("OMEGA"))], [k(self.O), s(self.O)], rtol=1e-5, scale=1.0)
        c.eq("argument of periapsis", [k(g("omega")), s(g("omega"))], [k(self.om), s(self.om)], rtol=1e-4, scale=1.0)


@contract("C23", "Orbiter.compute_orbiter_deflection_trajectory", samples=60, budget=120)
def orbiter_deflection(c):
    """the orbit after the deflection burn is that of the state just after it; the plotted orbit is one whole revolution of it"""
    X = Burn(c, "_orbiter_defl")
    X.before("pos_vec_bi_probe", "vel_vec_bi_probe")
    c.stub(X.cls, "pos_vec_bi_orbiter_defl", lambda o, ts: X.along(ts))
    B = X.B
    n = c.int("n", 2, 9)
    B.compute_orbiter_deflection_trajectory(X.ts, X.dV, n)
    X.ensures(B, B.dV_vec_orbiter_deflection)
    c.eq("periapsis after", B.r_periapsis_orbiter_defl, X.rp, rtol=1e-5)
    c.eq("apoapsis after", B.r_apoapsis_orbiter_defl, X.ra, rtol=1e-5)
    c.eq("periapsis altitude after", B.h_periapsis_orbiter_defl, X.rp - X.P.RP, rtol=1e-5, scale=X.rp)
    for m, arr in enumerate((B.x_orbiter_defl_arr, B.y_orbiter_defl_arr, B.z_orbiter_defl_arr)):
        c.eq("deflected orbit " + "xyz"[m], arr, c.arr(n, lambda j: X.curve[m](2 * c.pi * j / (n - 1)) / X.P.RP), rtol=1e-7, scale=10.0)


class Entry(Burn):
    """a burn after which the probe meets the top of the atmosphere, at latitude and longitude la, lo with inertial velocity w"""

    def __init__(self, c):
        super().__init__(c, "_probe_orbit")
        s, k = c.np.sin, c.np.cos
        P = self.P
        if c.sym:
            self.rE = P.RP + P.h_skip
            c.given(self.rp < self.rE)
            c.given(self.rE <= self.ra)
        else:
            self.rE = self.rp + (self.ra - self.rp) * c.real("f", 0.05, 0.95)
            P.RP = self.rE - P.h_skip
            c.require(P.RP > 0)
        self.la, self.lo = c.real("la", -1.4, 1.4), c.real("lo", -3.1, 3.1)
        c.given(k(self.la) > 0)
        self.nE = [k(self.la) * k(self.lo), k(self.la) * s(self.lo), s(self.la)]
        self.w = list(c.vec3("w", 2e4))
        self.before("pos_vec_bi", "vel_vec_bi")
        c.stub(self.cls, "pos_vec_bi_probe", self.pos)
        c.stub(self.cls, "vel_vec_bi_probe", lambda o, t: self.at_entry(t) or c.vec(self.w))
        c.cut(self.cls, "r_vec_bi_probe_entry_unit", lambda o, x: c.rewrite("entry direction", x, self.nE))
        for n, a in (("latitude", self.la), ("longitude", self.lo)):
            c.cut(self.cls, n + "_probe_entry_bi", lambda o, x, n=n, a=a: c.angle(n, x, s(a), k(a)))

    def at_entry(self, t):
        c = self.c
        c.eq("entry anomaly", self.e * c.np.cos(t), self.h * self.h / (self.P.GM * self.rE) - 1, rtol=1e-4, scale=1.0)
        c.check("entry on the inbound leg", c.and_(t >= c.pi, t <= 2 * c.pi))

    def pos(self, o, t):
        c = self.c
        try:
            c.length(t)
        except TypeError:
            self.at_entry(t)
            return c.vec([self.rE * x for x in self.nE])
        return self.along(t)

    def relative(self):
        w, W, r = self.w, self.P.OMEGA, self.rE
        return [w[0] + W * r * self.nE[1], w[1] - W * r * self.nE[0], w[2]]


@contract("C23", "Orbiter.compute_probe_targeting_trajectory Orbiter.vel_vec_probe_entry_atm", samples=60, budget=120)
def probe_targeting(c):
    """orbit after the targeting burn is that of the state just after it; the probe's entry state is where it meets the atmosphere inbound"""
    X = Entry(c)
    B, P = X.B, X.P
    s, k = c.np.sin, c.np.cos
    n = c.int("n", 2, 9)
    B.compute_probe_targeting_trajectory(X.ts, X.dV, n)
    X.ensures(B, B.dV_vec_probe_targeting)
    c.eq("periapsis after", B.r_periapsis_probe, X.rp, rtol=1e-5)
    c.eq("apoapsis after", B.r_apoapsis_probe, X.ra, rtol=1e-5)
    c.eq("periapsis altitude after", B.h_periapsis_probe, X.rp - P.RP, rtol=1e-5, scale=X.rp)
    c.eq("entry interface at the top of the atmosphere", [B.h_EI, B.r_EI], [P.h_skip, X.rE])
    w = X.w
    c.eq("entry position", list(B.r_vec_bi_probe_entry), [X.rE * x for x in X.nE], scale=X.rE)
    c.eq("entry velocity", list(B.v_bi_vec_probe_entry), w)
    v = B.v_bi_mag_probe_entry
    c.eq("inertial entry speed", v * v, dot(w, w), rtol=1e-7)
    c.eq("latitude and longitude give the position", [k(B.latitude_probe_entry_bi) * k(B.longitude_probe_entry_bi),
         k(B.latitude_probe_entry_bi) * s(B.longitude_probe_entry_bi), s(B.latitude_probe_entry_bi)], X.nE, rtol=1e-7, scale=1.0)
    rel = X.relative()
    c.eq("atmosphere-relative velocity", list(B.v_vec_probe_entry_atm), rel, rtol=1e-7, scale=2e4)
    c.eq("atmosphere-relative speed", B.v_mag_probe_entry_atm * B.v_mag_probe_entry_atm, dot(rel, rel), rtol=1e-7, scale=1e6)
    te = B.theta_star_probe_entry
    for m, arr in enumerate((B.x_probe_orbit_arr, B.y_probe_orbit_arr, B.z_probe_orbit_arr)):
        c.eq("probe arc from burn to entry " + "xyz"[m], arr, c.arr(n, lambda j: X.curve[m](X.ts + (te - X.ts) * j / (n - 1)) / P.RP), rtol=1e-7, scale=10.0)


@contract("C23", "Orbiter.compute_probe_targeting_trajectory", samples=10, budget=60)
def probe_entry_angles(c):
    """flight-path angle and heading at entry are those of the atmosphere-relative velocity"""
    X = Entry(c)
    B = X.B
    s, k = c.np.sin, c.np.cos
    B.compute_probe_targeting_trajectory(X.ts, X.dV, 3)
    rel = X.relative()
    up = dot(rel, X.nE)
    c.eq("atmosphere-relative flight-path angle", s(B.gamma_atm_probe_entry) * B.v_mag_probe_entry_atm, up, rtol=1e-6, scale=1e4)
    hor = c.np.sqrt(dot(rel, rel) - up * up)
    lo = X.lo
    c.eq("heading from east in the horizontal plane", k(B.heading_atm_probe_entry) * hor, dot(rel, [-s(lo), k(lo), 0]), rtol=1e-6, scale=1e4)


class Ellipse:
    """a bound inclined orbit and a point on it, held in the orbiter's attributes"""

    def __init__(self, c, suffix, apsis=True):
        s, k = c.np.sin, c.np.cos
        P = c.planet(dens=False)
        rp, kk, w = c.pos("rp", 3e6, 8e7), c.pos("kk", 0.1, 0.9), c.real("w", -2.0, 2.0)
        c.given(1 - kk * kk > 0)
        e = (1 - kk * kk) / (1 + kk * kk)
        self.a, self.e = rp / (1 - e), e
        self.h = c.np.sqrt(P.GM * rp) * c.np.sqrt(1 + e)
        ct, st = (w * w - 1) / (1 + w * w), 2 * w / (1 + w * w)            # w = 0 at apoapsis
        t = c.given_angle("t", st, ct)
        O, i, u = c.real("node", 0.05, 6.2), c.real("i", 0.05, 3.0), c.real("arg", 0.05, 6.2)
        om = u - t
        self.t, self.P, self.w = t, P, w
        self.r = rp * (1 + w * w) / (w * w + kk * kk)
        self.n, self.m = frame(c, O, i, u)
        C = c.cls("orbiter", "Orbiter")
        B = self.B = C.__new__(C)
        B.vehicle = c.vehicle(P, state=False)
        B.i, B.OMEGA, B.omega = i, O, om
        if not apsis:
            B.omega = c.real("argp before", 0.05, 6.2)      # the burn moved the periapsis
        for n, x in (("a", self.a), ("e", e), ("h", self.h), ("i", i), ("OMEGA", O), ("omega", om)):
            setattr(B, n + suffix, x)

    def position(self, c, name, v):
        c.eq(name, list(v), [self.r * x for x in self.n], rtol=1e-6, scale=self.r)

    def velocity(self, c, name, v, inward):
        v, n, m = list(v), self.n, self.m
        w2 = self.P.GM * (2 / self.r - 1 / self.a)
        c.eq(name + ": speed by vis-viva", dot(v, v), w2, rtol=1e-6)
        nu = [n[1] * m[2] - n[2] * m[1], n[2] * m[0] - n[0] * m[2], n[0] * m[1] - n[1] * m[0]]
        c.eq(name + ": in the orbit plane", dot(v, nu), 0, rtol=1e-6, scale=c.np.sqrt(w2))
        vt = self.h / self.r
        c.le(name + ": transverse speed at most the orbit's", dot(v, m), vt, rtol=1e-7)
        c.le(name + ": transverse speed (within one part in a million)", vt * c.lit("0.999999"), dot(v, m))
        if inward:
            c.le(name + ": descending", dot(v, n), 0, atol=1e-3)
        else:
            c.le(name + ": climbing", 0, dot(v, n), atol=1e-3)


@contract("C23", "Orbiter.pos_vec_bi_probe Orbiter.pos_vec_bi_orbiter_defl", samples=40, budget=60)
def positions_after_burn(c):
    """positions on the deflected orbit, and on the probe's after a burn that left the periapsis direction in place"""
    suffix, method, apsis = c.pick("orbit", (("_probe_orbit", "pos_vec_bi_probe", True), ("_orbiter_defl", "pos_vec_bi_orbiter_defl", False)))
    E = Ellipse(c, suffix, apsis)
    E.position(c, "position", getattr(E.B, method)(E.t))


@contract("C23", "Orbiter.pos_vec_bi_probe", samples=10, budget=20)
def positions_after_any_burn(c):
    """positions on the probe's orbit after any burn"""
    E = Ellipse(c, "_probe_orbit", apsis=False)
    E.position(c, "position by pos_vec_bi_probe", E.B.pos_vec_bi_probe(E.t))


@contract("C23", "Orbiter.vel_vec_bi_probe Orbiter.vel_vec_bi", samples=60, budget=60)
def velocities(c):
    """velocity on either leg"""
    suffix, method = c.pick("orbit", (("_probe_orbit", "vel_vec_bi_probe"), ("", "vel_vec_bi")))
    down = c.pick("descending", (True, False))
    E = Ellipse(c, suffix)
    c.require(E.w < 0 if down else E.w > 0)
    E.velocity(c, "velocity", getattr(E.B, method)(E.t), down)
