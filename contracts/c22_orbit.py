"""C24 propulsive orbiter (C22, C23: orbiter after aerocapture)"""
from engine.base import contract


def frame(c, O, i, w):
    """periapsis and in-plane quadrature directions of the orbit (node, inclination, argument of periapsis)"""
    s, k = c.np.sin, c.np.cos
    p = [k(O) * k(w) - s(O) * k(i) * s(w), s(O) * k(w) + k(O) * k(i) * s(w), s(i) * s(w)]
    q = [-k(O) * s(w) - s(O) * k(i) * k(w), -s(O) * s(w) + k(O) * k(i) * k(w), s(i) * k(w)]
    return p, q


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


class Insertion:
    """a propulsive insertion at the periapsis of an arbitrary approach"""

    def __init__(self, c):
        P = c.planet(dens=False)

        class Appr:
            pass
        A = Appr()
        A.planetObj, A.rp = P, c.pos("rp", 3e6, 8e7)
        m = c.pos("m", 1.05, 4.0)          # apoapsis over periapsis radius is m^2
        c.require(m > 1)
        self.m = m
        A.i, A.OMEGA, A.omega = c.real("i", 0.01, 3.1), c.real("node", 0.0, 6.28), c.real("argp", 0.0, 6.28)
        self.p, self.q = frame(c, A.OMEGA, A.i, A.omega)
        A.r_vec_rp_bi = c.vec([A.rp * x for x in self.p])
        A.v_vec_rp_bi = c.vec3("va", 2e4)
        self.ra = A.rp * m * m
        self.alt = (self.ra - P.RP) / 1000
        self.a, self.e = (A.rp + self.ra) / 2, (self.ra - A.rp) / (self.ra + A.rp)
        self.A, self.P = A, P
        self.O = c.cls("orbiter", "PropulsiveOrbiter")(A, self.alt)


@contract("C24", "PropulsiveOrbiter.__init__ PropulsiveOrbiter.vel_vec_bi PropulsiveOrbiter.r_mag_bi", samples=60, budget=120)
def insertion(c):
    """orbit between the approach's periapsis and the requested apoapsis in the approach plane; insertion impulse is the velocity difference there"""
    I = Insertion(c)
    O, A, P, a, e = I.O, I.A, I.P, I.a, I.e
    c.eq("semi-major axis", O.a, a)
    c.eq("eccentricity", O.e, e)
    c.eq("periapsis", O.a * (1 - O.e), A.rp)
    c.eq("apoapsis", O.a * (1 + O.e), I.ra)
    c.eq("angular momentum", O.h * O.h, P.GM * a * (1 - e * e))
    c.eq("plane and periapsis direction", [O.i, O.OMEGA, O.omega], [A.i, A.OMEGA, A.omega])
    v2 = P.GM * (2 / A.rp - 1 / a)
    c.eq("periapsis speed by vis-viva", O.vp * O.vp, v2, rtol=1e-7)
    vp = list(O.vp_vec)
    c.eq("periapsis velocity has that speed", dot(vp, vp), v2, rtol=1e-7)
    n = [I.p[1] * I.q[2] - I.p[2] * I.q[1], I.p[2] * I.q[0] - I.p[0] * I.q[2], I.p[0] * I.q[1] - I.p[1] * I.q[0]]
    c.eq("velocity in the orbit plane", dot(vp, n), 0, scale=O.vp, rtol=1e-6)
    t = dot(vp, I.q)
    c.le("velocity along the direction of motion (within one part in a million)", v2 * c.lit("0.999998"), t * t)
    c.le("velocity along the direction of motion, not against it", 0, t)
    c.eq("insertion impulse", list(O.DV_OI_vec), [x - y for x, y in zip(list(A.v_vec_rp_bi), vp)], rtol=1e-7, scale=2e4)
    d = [x - y for x, y in zip(list(A.v_vec_rp_bi), vp)]
    c.eq("impulse magnitude", O.DV_OI_mag * O.DV_OI_mag, dot(d, d), rtol=1e-7, scale=1e6)
    va = list(A.v_vec_rp_bi)
    c.eq("speed difference", O.DV_OI_mag_check, c.np.sqrt(dot(va, va)) - c.np.sqrt(v2), rtol=1e-7, scale=1e4)
    c.eq("radius", O.r_mag_bi(c.real("ts", -3.0, 3.0)) * (1 + e * c.np.cos(c.real("ts", -3.0, 3.0))), a * (1 - e * e), rtol=1e-7)


@contract("C24", "PropulsiveOrbiter.pos_vec_bi PropulsiveOrbiter.compute_orbit_trajectory", samples=40, budget=120)
def orbit_positions(c):
    """positions are those of the orbit's ellipse about the planet; the plotted orbit is one whole revolution"""
    I = Insertion(c)
    O, P, a, e = I.O, I.P, I.a, I.e
    t = c.real("ts", -3.1, 3.1)
    s, k = c.np.sin, c.np.cos
    at = lambda t: [a * (1 - e * e) / (1 + e * k(t)) * (x * k(t) + y * s(t)) for x, y in zip(I.p, I.q)]
    c.given(1 + e * k(t) > 0)
    c.eq("position", list(O.pos_vec_bi(t)), at(t), rtol=1e-7, scale=a)
    n = c.int("n", 2, 9)
    O.compute_orbit_trajectory(n)
    ts = lambda j: 2 * c.pi * j / (n - 1)
    for m, arr in enumerate((O.x_orbit_arr, O.y_orbit_arr, O.z_orbit_arr)):
        c.eq("plotted orbit " + "xyz"[m], arr, c.arr(n, lambda j: at(ts(j))[m] / P.RP), rtol=1e-7, scale=10.0)


@contract("C24", "PropulsiveOrbiter.compute_timed_orbit_trajectory PropulsiveOrbiter.compute_E PropulsiveOrbiter.compute_theta_star PropulsiveOrbiter.pos_vec_bi",
          samples=40, budget=120)
def timed_orbit(c):
    """position at each time is that of Kepler's equation"""
    I = Insertion(c)
    O, A, P, a, e = I.O, I.A, I.P, I.a, I.e
    s, k = c.np.sin, c.np.cos
    kep = c.fun("kepler", 1, 0.0, 6.0)

    def newton(f, x0, *args, **kw):
        if args or set(kw) - {"tol", "rtol", "maxiter", "fprime", "fprime2"}:
            raise TypeError("newton arguments")
        M = -1 * f(0 * x0)
        for x in (c.fresh("x", 0.0, 6.0),) if c.sym else (0.3, 2.0, 5.0):
            c.eq("equation solved is Kepler's", f(x), x - e * s(x) - M, rtol=1e-7, scale=10.0)
        return kep(M)
    c.external("optimize.newton", newton)
    n, T = c.int("n", 2, 9), c.pos("T", 10.0, 1e6)
    O.compute_timed_orbit_trajectory(T, n)
    t = lambda j: T * j / (n - 1)
    mot = c.np.sqrt(P.GM / (a * a * a))
    c.eq("times", O.t_array, c.arr(n, t), rtol=1e-9, scale=T)
    c.eq("mean anomalies", O.M_array, c.arr(n, lambda j: mot * t(j)), rtol=1e-7, scale=1.0)
    c.eq("period", O.P * mot, 2 * c.pi)
    E = lambda j: kep(O.M_array[j])
    c.eq("eccentric anomalies", O.E_array, c.arr(n, E), rtol=1e-7)
    b = A.rp * I.m
    for m, arr in enumerate((O.x_timed_orbit_arr, O.y_timed_orbit_arr, O.z_timed_orbit_arr)):
        c.eq("position " + "xyz"[m], arr, c.arr(n, lambda j: (a * (k(E(j)) - e) * I.p[m] + b * s(E(j)) * I.q[m]) / P.RP), rtol=1e-6, scale=10.0)


class Exit:
    """an atmospheric exit on an arbitrary coast ellipse: periapsis rp, eccentricity (1-k^2)/(1+k^2), exit outbound at tan(theta/2) = w,
    any plane; the target periapsis is u^2 of the apoapsis radius.  GM = rp vp^2 (1+k^2)/2 ranges over all positive values as vp does"""

    def __init__(self, c, cuts=True):
        s, k = c.np.sin, c.np.cos
        self.c = c
        P = self.P = c.planet(dens=False)
        rp, vp = c.pos("rp", 3e6, 8e7), c.pos("vp", 3e3, 3e4)
        kk, w, u = c.rng("kk", 0.0, 1.0, strict=True), c.pos("w", 0.05, 1.5), c.rng("u", 0.0, 1.0, strict=True)
        c.given(1 - kk * kk > 0)
        c.given(1 - u * u > 0)
        O, i, om = c.real("node", 0.05, 6.2), c.real("i", 0.05, 3.0), c.real("argp", 0.05, 6.2)
        c.given(s(i) > 0)
        self.rp, self.vp, self.kk, self.O, self.i, self.om = rp, vp, kk, O, i, om
        P.GM = rp * vp * vp * (1 + kk * kk) / 2
        self.e, self.a = (1 - kk * kk) / (1 + kk * kk), rp * (1 + kk * kk) / (2 * kk * kk)
        self.h, self.ra = rp * vp, rp / (kk * kk)
        ct, st = self.ct, self.st = (1 - w * w) / (1 + w * w), 2 * w / (1 + w * w)
        self.t = c.given_angle("t", st, ct)
        r = self.r = rp * (1 + w * w) / (1 + kk * kk * w * w)
        vr, vt = self.vr, self.vt = vp * (1 - kk * kk) * w / (1 + w * w), vp * (1 + kk * kk * w * w) / (1 + w * w)
        self.v = c.np.sqrt(vr * vr + vt * vt)
        p, q = self.p, self.q = frame(c, O, i, om)
        self.n = [x * ct + y * st for x, y in zip(p, q)]
        self.m = [y * ct - x * st for x, y in zip(p, q)]
        d, a, z = c.orthopair("exit point and direction of motion", self.n, self.m)
        self.nn = [k(d) * k(a), k(d) * s(a), s(d)]
        self.mm = [x * k(z) + y * s(z) for x, y in zip([-s(d) * k(a), -s(d) * s(a), k(d)], [-s(a), k(a), 0])]
        # atmosphere-relative state of that inertial one
        ve, vn = vt * s(z) - P.OMEGA * r * k(d), vt * k(z)
        c.given(ve * ve + vn * vn > 0)
        hor = c.np.sqrt(ve * ve + vn * vn)
        vrel = c.np.sqrt(vr * vr + ve * ve + vn * vn)
        g = c.given_angle("g", vr / vrel, hor / vrel)
        psi = c.given_angle("psi", vn / hor, ve / hor)
        V = self.V = c.vehicle(P, state=False)
        n, idx = c.int("n", 1, 6), c.int("index", 1, 6)
        c.require(idx <= n)
        for nm, x in (("rc", r), ("thetac", a), ("phic", d), ("vc", vrel), ("psic", psi), ("gammac", g)):
            f = c.fun("past_" + nm, 1, 0.0, 1.0)
            setattr(V, nm, c.arr(n, lambda j, x=x, f=f: c.ite(j == idx - 1, x, f(j))))
        V.index = idx
        self.rt = self.ra * u * u
        self.e2, self.a2 = (1 - u * u) / (1 + u * u), self.ra * (1 + u * u) / 2
        C = self.cls = c.cls("orbiter", "Orbiter")
        vel = [vr * x + vt * y for x, y in zip(self.n, self.m)]
        vel2 = [vr * x + vt * y for x, y in zip(self.nn, self.mm)]
        rw = lambda nm, new: c.cut(C, nm, lambda o, v: c.rewrite(nm, v, new))

        def stages(nm, *new):
            done = []

            def f(o, v):
                if len(done) == len(new):
                    return v
                done.append(1)
                return (c.rootrewrite if nm == "h" else c.rewrite)(nm, v, new[len(done) - 1])
            c.cut(C, nm, f)
        c.cut(C, "terminal_r_vec", lambda o, v: c.rewrite("terminal_r_vec", v, [r * x for x in self.nn]) is None or c.vec([r * x for x in self.n]))
        rw("terminal_r_hat_vec", self.n)
        c.cut(C, "terminal_v_ie_vec", lambda o, v: c.rewrite("terminal_v_ie_vec", v, vel2) is None or c.vec(vel))
        for x, j in (("v_ie_x", 0), ("v_ie_y", 1), ("v_ie_z", 2)):
            rw(x, vel2[j])
        rw("v_ie_mag", self.v)
        c.cut(C, "terminal_fpa_ie_rad", lambda o, v: c.angle("terminal_fpa_ie_rad", v, vr / self.v, vt / self.v))
        h2 = rp * vp * u / kk * c.np.sqrt(1 + kk * kk) / c.np.sqrt(1 + u * u)
        stages("a", self.a, self.a2)
        stages("e", self.e, self.e2)
        stages("h", self.h, h2)
        nrm = [s(O) * s(i), -k(O) * s(i), k(i)]
        rw("h_vec_bi_unit", nrm)
        c.cut(C, "i", lambda o, v: c.angle("i", v, s(i), k(i)) is None or i)
        rw("N_vec_bi_unit", [k(O), s(O), 0])
        c.cut(C, "OMEGA", lambda o, v: c.angle("OMEGA", v, s(O), k(O)) is None or O)
        rw("e_vec_bi_unit", p)
        c.cut(C, "omega", lambda o, v: c.angle("omega", v, s(om), k(om)) is None or om)
        c.cut(C, "theta_star_exit", lambda o, v: c.angle("theta_star_exit", v, st, ct) is None or self.t)
        rw("r_apoapsis_mag", self.ra)

    def make(self):
        self.B = self.cls(self.V, (self.rt - self.P.RP) / 1000)
        return self.B

    def at(self, t, a, e):
        s, k = self.c.np.sin, self.c.np.cos
        return [a * (1 - e * e) / (1 + e * k(t)) * (x * k(t) + y * s(t)) for x, y in zip(self.p, self.q)]


@contract("C22", "Orbiter.__init__ Orbiter.compute_exit_state_atm_relative Orbiter.compute_exit_state_inertial Orbiter.compute_coast_orbital_elements "
          "Orbiter.compute_theta_star_exit Orbiter.compute_coast_trajectory Orbiter.pos_vec_bi Orbiter.r_mag_bi", samples=60, budget=240)
def coast(c):
    """the coast after aerocapture is the Kepler orbit of the inertial exit state, out to its apoapsis"""
    X = Exit(c)
    B = X.make()
    s, k = c.np.sin, c.np.cos
    P = X.P
    vel = [X.vr * x + X.vt * y for x, y in zip(X.n, X.m)]
    c.eq("exit position", list(B.terminal_r_vec), [X.r * x for x in X.n], rtol=1e-6, scale=X.r)
    c.eq("exit inertial velocity", list(B.terminal_v_ie_vec), vel, rtol=1e-6, scale=X.v)
    c.eq("exit inertial flight-path angle", s(B.terminal_fpa_ie_rad) * X.v, X.vr, rtol=1e-6, scale=X.v)
    c.eq("in degrees", s(B.terminal_fpa_ie_deg * c.pi / 180) * X.v, X.vr, rtol=1e-6, scale=X.v)
    c.eq("apoapsis radius", B.r_apoapsis_mag, X.ra, rtol=1e-6)
    c.eq("normal", list(B.h_vec_bi_unit), [s(X.O) * s(X.i), -k(X.O) * s(X.i), k(X.i)], rtol=1e-6, scale=1.0)
    c.eq("inclination", k(B.i), k(X.i), rtol=1e-6, scale=1.0)
    c.eq("node", [k(B.OMEGA), s(B.OMEGA)], [k(X.O), s(X.O)], rtol=1e-5, scale=1.0)
    c.eq("argument of periapsis", [k(B.omega), s(B.omega)], [k(X.om), s(X.om)], rtol=1e-5, scale=1.0)
    c.eq("true anomaly at exit", [k(B.theta_star_exit), s(B.theta_star_exit)], [X.ct, X.st], rtol=1e-5, scale=1.0)
    n = c.length(B.x_coast_arr)
    ts = lambda j: X.t + (c.pi - X.t) * j / (n - 1)
    for m, arr in enumerate((B.x_coast_arr, B.y_coast_arr, B.z_coast_arr)):
        c.eq("coast arc " + "xyz"[m], arr, c.arr(n, lambda j: X.at(ts(j), X.a, X.e)[m] / P.RP), rtol=1e-5, scale=X.ra / P.RP)


@contract("C22", "Orbiter.compute_post_PRM_orbital_elements Orbiter.compute_PRM_dv Orbiter.vel_vec_bi Orbiter.compute_orbit_trajectory", samples=60, budget=240)
def periapsis_raise(c):
    """the raise burn at apoapsis gives the target periapsis at unchanged apoapsis; its cost is the speed difference there"""
    X = Exit(c)
    B = X.make()
    P = X.P
    c.eq("target periapsis", B.a * (1 - B.e), X.rt, rtol=1e-6)
    c.eq("same apoapsis", B.a * (1 + B.e), X.ra, rtol=1e-6)
    c.eq("semi-major axis", B.a, X.a2, rtol=1e-6)
    c.eq("eccentricity", B.e, X.e2, rtol=1e-5, scale=1.0)
    c.eq("angular momentum", B.h * B.h, P.GM * X.a2 * (1 - X.e2 * X.e2), rtol=1e-6)
    v1, v2 = X.h / X.ra, c.np.sqrt(P.GM * (2 / X.ra - 1 / X.a2))
    c.eq("apoapsis speed before", B.v_apoapsis_mag_coast, v1, rtol=1e-5)
    c.eq("apoapsis speed after", B.v_apoapsis_mag_orbit, v2, rtol=1e-6)
    c.eq("burn", list(B.PRM_dv_vec), [x - y for x, y in zip(list(B.v_apoapsis_vec_orbit), list(B.v_apoapsis_vec_coast))], rtol=1e-9, scale=v2)
    c.eq("burn cost is the speed difference", B.PRM_dv_mag * B.PRM_dv_mag, (v2 - v1) * (v2 - v1), rtol=1e-4, scale=v2 * v2 * 1e-2)
    n = c.length(B.x_orbit_arr)
    ts = lambda j: c.pi + 2 * c.pi * j / (n - 1)
    for m, arr in enumerate((B.x_orbit_arr, B.y_orbit_arr, B.z_orbit_arr)):
        c.eq("orbit " + "xyz"[m], arr, c.arr(n, lambda j: X.at(ts(j), X.a2, X.e2)[m] / P.RP), rtol=1e-5, scale=X.ra / P.RP)
