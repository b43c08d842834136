"""C19 arrival hyperbola, C20 entry state"""
from engine.base import contract


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


class Arrival:
    """every arrival: excess velocity V along (th, ph), periapsis radius rp and turn parameter kk = tan(beta/2), psi, any planet.
    GM = rp*V^2/(e-1) ranges over all positive values as kk does"""

    def __init__(self, c, entry=False):
        s, k = c.np.sin, c.np.cos
        self.c = c
        P = self.P = c.planet(dens=False)
        P.a0, P.d0 = c.real("a0", -3.1, 3.1), c.real("d0", -1.5, 1.5)
        V, rp, kk = c.pos("V", 2.0, 40.0), c.pos("rp", 3e6, 8e7), c.rng("kk", 0.0, 1.0, strict=True)
        c.given(1 - kk * kk > 0)
        th, ph, psi = c.real("th", 0.01, 3.13), c.real("ph", -3.14, 3.14), c.real("psi", -3.14, 3.14)
        c.given(s(th) > 0)
        self.V, self.rp, self.kk, self.th, self.ph, self.psi = V * 1000, rp, kk, th, ph, psi
        self.e = (1 + kk * kk) / (1 - kk * kk)
        P.GM = rp * self.V * self.V / (self.e - 1)
        self.sb, self.cb = 2 * kk / (1 + kk * kk), (1 - kk * kk) / (1 + kk * kk)
        sb, cb = self.sb, self.cb
        self.S = [s(th) * k(ph), s(th) * s(ph), k(th)]
        R = [k(th) * k(ph), k(th) * s(ph), -s(th)]
        Q = [-s(ph), k(ph), 0]
        mix = lambda x, y, z: [x * a + y * b + z * d for a, b, d in zip(R, Q, self.S)]
        self.p = mix(sb * k(psi), sb * s(psi), cb)
        self.u = mix(s(psi), -k(psi), 0)
        self.q = cross(self.u, self.p)
        self.h = rp * self.V / kk
        # inverse of the pole rotation
        X = [k(c.pi / 2 + P.a0), s(c.pi / 2 + P.a0), 0]
        Z = [k(P.d0) * k(P.a0), k(P.d0) * s(P.a0), s(P.d0)]
        Y = cross(Z, X)
        w = self.S
        self.vec = c.vec([V * (w[0] * X[j] + w[1] * Y[j] + w[2] * Z[j]) for j in range(3)])
        self.cz = self.u[2]
        c.given(1 - self.cz * self.cz > 0)
        self.si = c.np.sqrt(1 - self.cz * self.cz)
        self.mod = c.mod("approach")
        self.ids = []

    def anomaly(self, name="w"):
        """a true anomaly on the inbound leg, tan(-theta/2) = w"""
        c = self.c
        w = c.rng(name, 0.0, 1.4)
        self.ct, self.st = (1 - w * w) / (1 + w * w), -2 * w / (1 + w * w)
        c.require(1 - self.kk * self.kk * w * w > (0 if c.sym else 0.01))      # 1 + e cos > 0
        return c.given_angle("t", self.st, self.ct)

    def build(self, cuts="", **k):
        c = self.c
        A = self.mod.Approach
        c.replace("approach", "Planet", lambda ID: (self.ids.append(ID), self.P)[1])
        s, kk = c.np.sin, c.np.cos
        V = self.V / 1000
        cut = lambda n, f: c.cut(A, n, f)
        rw = lambda n, new: cut(n, lambda o, v: c.rewrite(n, v, new))
        rw("v_inf_vec_bi_kms", [V * x for x in self.S])
        rw("v_inf_mag_kms", V)
        rw("e", self.e)
        cut("beta", lambda o, v: c.angle("beta", v, self.sb, self.cb))
        rw("h", self.h)
        cut("phi_1", lambda o, v: c.angle("phi_1", v, s(self.ph), kk(self.ph)))
        cut("phi_2", lambda o, v: c.angle("phi_2", v, s(self.th), kk(self.th)))
        rw("rp_vec_bi_unit", self.p)
        rw("h_vec_bi_unit", self.u)
        u, si = self.u, self.si
        cut("i", lambda o, v: c.angle("i", v, si, u[2]))
        rw("N_vec_bi_unit", [-u[1] / si, u[0] / si, 0])
        cut("OMEGA", lambda o, v: c.angle("OMEGA", v, u[0] / si, -u[1] / si))
        rw("e_vec_bi_unit", self.p)
        p = self.p
        cut("omega", lambda o, v: c.angle("omega", v, p[2] / si, (p[1] * u[0] - p[0] * u[1]) / si))
        for n in cuts.split():
            if n == "T_vec_bi_unit":
                rw(n, [s(self.ph), -kk(self.ph), 0])
            elif n == "R_vec_bi_unit":
                rw(n, cross(self.S, [s(self.ph), -kk(self.ph), 0]))
        return A(self.P.ID, self.vec, self.rp, self.psi, **k)


@contract("C19", "Approach.__init__ Approach.ICRF_to_BI Approach.BI_to_BI_dprime Approach.R1 Approach.R2 Approach.R3", samples=60, budget=240)
def arrival_hyperbola(c):
    """the hyperbola has the given excess velocity, periapsis radius and orientation"""
    a = Arrival(c)
    A = a.build()
    V, e = a.V, a.e
    c.check("the planet asked for", a.ids == [a.P.ID])
    c.eq("excess velocity in the body frame", list(A.v_inf_vec_bi), [V * x for x in a.S], rtol=1e-7, scale=V)
    c.eq("excess speed", A.v_inf_mag, V)
    c.eq("eccentricity", A.e, e, rtol=1e-7)
    c.eq("semi-major axis", A.a, -a.P.GM / (V * V))
    c.eq("angular momentum", A.h, a.h, rtol=1e-7)
    c.eq("asymptote angle", c.np.cos(A.beta), 1 / e, rtol=1e-7)
    c.eq("periapsis vector", list(A.rp_vec_bi), [a.rp * x for x in a.p], rtol=1e-7, scale=a.rp)
    c.eq("periapsis radius", dot(list(A.rp_vec_bi), list(A.rp_vec_bi)), a.rp * a.rp, rtol=1e-7)
    c.eq("turn angle of the asymptote", dot(list(A.rp_vec_bi), list(A.v_inf_vec_bi)), a.rp * V / e, scale=a.rp * V)
    c.eq("eccentricity vector", list(A.e_vec_bi), [e * x for x in a.p], rtol=1e-7, scale=e)
    c.eq("orbit normal", list(A.h_vec_bi_unit), a.u, rtol=1e-6, scale=1.0)
    c.eq("inclination", c.np.cos(A.i), a.u[2], scale=1.0, rtol=1e-6)
    c.eq("position on the periapsis ring", list(A.rp_vec_bi_dprime), [a.rp * a.sb * c.np.cos(a.psi), a.rp * a.sb * c.np.sin(a.psi), a.rp * a.cb],
         rtol=1e-7, scale=a.rp)
    c.eq("position on the periapsis ring, closed form", list(A.rp_vec_bi_dprime_analytic), list(A.rp_vec_bi_dprime), rtol=1e-7, scale=a.rp)


@contract("C19", "Approach.__init__", samples=60, budget=240)
def b_plane(c):
    """S, T, R are an orthonormal triad about the planet's pole and B is the aim point of this hyperbola"""
    a = Arrival(c)
    A = a.build(cuts="T_vec_bi_unit R_vec_bi_unit")
    s, k = c.np.sin, c.np.cos
    ph = a.ph
    S, T, R = list(A.S_vec_bi_unit), list(A.T_vec_bi_unit), list(A.R_vec_bi_unit)
    c.eq("S along the excess velocity", S, a.S, rtol=1e-7, scale=1.0)
    c.eq("T = S x pole, normalised", T, [s(ph), -k(ph), 0], rtol=1e-6, scale=1.0)
    c.eq("R = S x T", R, cross(a.S, [s(ph), -k(ph), 0]), rtol=1e-6, scale=1.0)
    B = list(A.B_vec_bi_unit)
    c.eq("B = S x orbit normal", B, cross(a.S, a.u), rtol=1e-6, scale=1.0)
    c.eq("B magnitude", A.b_mag, a.h / a.V, rtol=1e-7)
    th = A.b_plane_angle_theta
    c.eq("B-plane angle", B, [x * k(th) + y * s(th) for x, y in zip(T, R)], rtol=1e-6, scale=1.0)


@contract("C19", "Approach.pos_vec_bi Approach.vel_vec_bi Approach.r_mag_bi Approach.pos_vec_bi_dprime", samples=60, budget=240)
def approach_trajectory(c):
    """position and velocity on the inbound leg are those of the conic through periapsis"""
    a = Arrival(c)
    A = a.build()
    w = a.anomaly()
    ct, st = a.ct, a.st
    r = a.rp * (1 + a.e) / (1 + a.e * ct)
    n = [x * ct + y * st for x, y in zip(a.p, a.q)]
    m = [y * ct - x * st for x, y in zip(a.p, a.q)]
    c.eq("radius", A.r_mag_bi(w), r, rtol=1e-7)
    c.eq("position", list(A.pos_vec_bi(w)), [r * x for x in n], rtol=1e-6, scale=r)
    vr, vt = a.P.GM / a.h * a.e * st, a.h / r
    vel = list(A.vel_vec_bi(w))
    c.eq("velocity", vel, [vr * x + vt * y for x, y in zip(n, m)], rtol=1e-6, scale=a.V + vt)
    # the double-prime frame: R, Q, S components
    rr = [c.np.cos(a.th) * c.np.cos(a.ph), c.np.cos(a.th) * c.np.sin(a.ph), -c.np.sin(a.th)]
    qq = [-c.np.sin(a.ph), c.np.cos(a.ph), 0]
    c.eq("position in the double-prime frame", list(A.pos_vec_bi_dprime(w)), [r * dot(n, rr), r * dot(n, qq), r * dot(n, a.S)], rtol=1e-6, scale=r)


class Entry(Arrival):
    """arrival of an entry system: the entry interface is met on the inbound leg at true anomaly t"""

    def setup(self):
        c, P = self.c, self.P
        t = self.anomaly()
        self.r = self.rp * (1 + self.e) / (1 + self.e * self.ct)
        self.h_EI = self.r - P.RP
        n = [x * self.ct + y * self.st for x, y in zip(self.p, self.q)]
        m = [y * self.ct - x * self.st for x, y in zip(self.p, self.q)]
        self.vr, self.vt = P.GM / self.h * self.e * self.st, self.h / self.r
        self.vr = self.V * (1 + self.kk * self.kk) * self.st / (2 * self.kk)
        self.v = c.np.sqrt(self.V * self.V + 2 * P.GM / self.r)
        self.t, self.n, self.m = t, n, m

    def make(self, cuts=""):
        c = self.c
        A = self.mod.Approach
        self.setup()
        c.eq("radial speed of the conic", self.vr, self.P.GM / self.h * self.e * self.st, rtol=1e-6, scale=self.V)
        d, a, z = self.dl, self.al, self.zt = c.orthopair("entry point and direction of motion", self.n, self.m)
        s, k = c.np.sin, c.np.cos
        n = [k(d) * k(a), k(d) * s(a), s(d)]
        m = [x * k(z) + y * s(z) for x, y in zip([-s(d) * k(a), -s(d) * s(a), k(d)], [-s(a), k(a), 0])]
        r = self.r
        vel = [self.vr * x + self.vt * y for x, y in zip(self.n, self.m)]
        vel2 = [self.vr * x + self.vt * y for x, y in zip(n, m)]
        c.cut(A, "theta_star_entry", lambda o, v: c.check("inbound", v <= 0) or c.angle("theta_star_entry", v, self.st, self.ct))
        c.cut(A, "r_vec_entry_bi", lambda o, v: c.rewrite("r_vec_entry_bi", v, [r * x for x in self.n]) is None or c.vec([r * x for x in n]))
        c.cut(A, "v_vec_entry_bi", lambda o, v: c.rewrite("v_vec_entry_bi", v, vel) is None or c.vec(vel2))
        rw = lambda nm, new: c.cut(A, nm, lambda o, v: c.rewrite(nm, v, new))
        rw("r_vec_entry_bi_unit", n)
        rw("r_vec_entry_bi_mag", r)
        sv, kv = self.vr / self.v, self.vt / self.v
        c.cut(A, "gamma_entry_inertial", lambda o, v: c.angle("gamma_entry_inertial", v, sv, kv))
        rw("v_vec_entry_bi_unit", [x / self.v for x in vel2])
        c.cut(A, "latitude_entry_bi", lambda o, v: c.angle("latitude_entry_bi", v, s(d), k(d)))
        c.cut(A, "longitude_entry_bi", lambda o, v: c.angle("longitude_entry_bi", v, s(a), k(a)))
        if not c.sym:
            n, vel2 = [float(x) for x in self.n], [float(x) for x in vel]
        self.nn, self.vv = n, vel2
        self.A = self.build(is_entrySystem=True, h_EI=self.h_EI)
        return self.A


@contract("C20", "Approach.__init__ Approach.pos_vec_bi Approach.vel_vec_bi Approach.vel_vec_entry_atm", samples=60, budget=300)
def entry_state(c):
    """the entry state lies on the hyperbola at the interface, inbound; its coordinates and atmosphere-relative velocity describe it"""
    a = Entry(c)
    A = a.make()
    s, k, r = c.np.sin, c.np.cos, a.r
    V = a.V
    c.eq("entry radius", A.r_EI, a.P.RP + a.h_EI)
    c.eq("position on the interface", list(A.r_vec_entry_bi), [r * x for x in a.nn], rtol=1e-6, scale=r)
    if not c.sym:
        c.check("inbound", A.theta_star_entry <= 0)
    c.eq("speed by vis-viva", A.v_entry_inertial_mag * A.v_entry_inertial_mag, V * V + 2 * a.P.GM / r, rtol=1e-7)
    c.eq("velocity", list(A.v_vec_entry_bi), a.vv, rtol=1e-6, scale=V)
    c.eq("inertial flight-path angle", s(A.gamma_entry_inertial) * A.v_entry_inertial_mag, a.vr, rtol=1e-6, scale=V)
    la, lo = A.latitude_entry_bi, A.longitude_entry_bi
    c.eq("latitude and longitude give the position", [r * k(la) * k(lo), r * k(la) * s(lo), r * s(la)], [r * x for x in a.nn], rtol=1e-6, scale=r)
    w = a.P.OMEGA
    rel = [a.vv[0] + w * r * a.nn[1], a.vv[1] - w * r * a.nn[0], a.vv[2]]
    c.eq("atmosphere-relative velocity", list(A.v_vec_entry_atm), rel, rtol=1e-6, scale=V)
    c.eq("atmosphere-relative speed", A.v_entry_atm_mag * A.v_entry_atm_mag, dot(rel, rel), rtol=1e-6)
    c.eq("atmosphere-relative flight-path angle", s(A.gamma_entry_atm) * A.v_entry_atm_mag, dot(rel, a.nn), rtol=1e-6, scale=V)
    c.eq("flight-path angle from the vectors", s(A.gamma_entry_inertial_check), s(A.gamma_entry_inertial), rtol=1e-6, scale=1.0)
    c.eq("latitude in closed form", c.np.tan(A.latitude_entry_bi_analytic) * k(la), s(la), rtol=1e-6, scale=1.0)
    east = [-s(lo), k(lo), 0]
    c.eq("recorded heading", c.np.cos(A.heading_entry_atm) * A.v_entry_atm_mag, dot(rel, east), rtol=1e-6, scale=V)


@contract("C20", "Approach.__init__", samples=10, budget=60)
def entry_heading(c):
    """the heading is the angle of the horizontal atmosphere-relative velocity from east"""
    a = Entry(c)
    A = a.make()
    s, k, r, w = c.np.sin, c.np.cos, a.r, a.P.OMEGA
    rel = [a.vv[0] + w * r * a.nn[1], a.vv[1] - w * r * a.nn[0], a.vv[2]]
    lo = A.longitude_entry_bi
    up = dot(rel, a.nn)
    hor = c.np.sqrt(dot(rel, rel) - up * up)
    c.eq("heading from east in the horizontal plane", c.np.cos(A.heading_entry_atm) * hor, dot(rel, [-s(lo), k(lo), 0]), rtol=1e-6, scale=a.V)
