"""C27 visibility"""
from engine.base import contract


class Direction:
    """ephemeris positions of observer and target bodies, and the unit direction between them in the body frame"""

    def __init__(self, c, P, observer="URANUS"):
        self.c = c
        P.a0, P.d0 = c.real("a0", -3.1, 3.1), c.real("d0", -1.5, 1.5)
        obs, tar = c.vec3("obs", 1e9), c.vec3("tar", 1e9)
        self.obs, self.tar = obs, tar
        d = [tar[k] - obs[k] for k in range(3)]
        n2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
        c.given(n2 > 0)
        self.dist = c.np.sqrt(n2)
        u = [x / self.dist for x in d]
        s, k = c.np.sin, c.np.cos
        X = [k(c.pi / 2 + P.a0), s(c.pi / 2 + P.a0), 0]
        Z = [k(P.d0) * k(P.a0), k(P.d0) * s(P.a0), s(P.d0)]
        Y = [Z[1] * X[2] - Z[2] * X[1], Z[2] * X[0] - Z[0] * X[2], Z[0] * X[1] - Z[1] * X[0]]
        self.n = [sum(a * b for a, b in zip(w, u)) for w in (X, Y, Z)]
        self.asked, self.files, self.times = [], [], []

        class Q:
            def __init__(self, v):
                self.value = v

        class Pos:
            def __init__(self, v):
                self.x, self.y, self.z = Q(v[0]), Q(v[1]), Q(v[2])

        class Ctx:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

        class Ephem:
            @staticmethod
            def set(f):
                self.files.append(f)
                return Ctx()

        def body(name, t):
            self.asked.append((name, t))
            return Pos(obs if name == self.observer else tar), None
        c.external("astropy.coordinates.get_body_barycentric_posvel", body)
        c.external("astropy.coordinates.solar_system_ephemeris", Ephem)
        c.external("astropy.time.Time", lambda d, scale=None, **k: (self.times.append((d, scale)), ("time", d))[1])

    observer = None


def bodies(c, D):
    """observer and target bodies; a lander or orbiter at Titan is at Saturn for the ephemeris"""
    where = c.pick("observer", list(c.PLANETS))
    D.observer = "SATURN" if where == "TITAN" else where
    target = c.pick("target", [b for b in ("EARTH", "VENUS", "JUPITER", "SATURN", "SUN") if b != D.observer])
    return where, target


@contract("C27", "LanderToPlanet.__init__ Visibility.ICRF_to_BI Visibility.R1 Visibility.R3", samples=40)
def lander_to_planet(c):
    """elevation of the target body over one rotation at the lander's latitude, and visibility as elevation above the horizon"""
    P = c.planet(dens=False)
    D = Direction(c, P)
    where, target = bodies(c, D)
    ids = []
    c.replace("visibility", "Planet", lambda ID: (ids.append(ID), P)[1])
    c.given(c.or_(P.OMEGA > 0, P.OMEGA < 0))
    n, lat = c.int("n", 2, 9), c.real("lat", -89.0, 89.0)
    V = c.cls("visibility", "LanderToPlanet")(target, where, lat, "2030-01-01", num_points=n)
    c.check("bodies and date", ids == [where] and sorted(D.asked) == sorted([(D.observer, ("time", "2030-01-01")), (target, ("time", "2030-01-01"))]))
    c.eq("range", V.range, D.dist * 1000, rtol=1e-9)
    c.eq("direction in the body frame", list(V.obs_tar_pos_vec_bi_unit), D.n, rtol=1e-9, scale=1.0)
    s, k = c.np.sin, c.np.cos
    la = lat * c.pi / 180

    def zen(j):
        lo = 360 * j / (n - 1) * c.pi / 180
        return k(la) * k(lo) * D.n[0] + k(la) * s(lo) * D.n[1] + s(la) * D.n[2]
    c.eq("longitudes are those the rotation reaches at the times", c.arr(n, lambda j: V.t_array[j] * P.OMEGA * 180 / c.pi), V.longitude_array,
         rtol=1e-9, scale=360.0)
    c.eq("longitudes", V.longitude_array, c.arr(n, lambda j: 360 * j / (n - 1)), rtol=1e-9, scale=360.0)
    c.eq("zenith angles", V.beta_array, c.arr(n, lambda j: c.np.arccos(zen(j)) * 180 / c.pi), rtol=1e-7, scale=180.0)
    el = lambda j: 90 - c.np.arccos(zen(j)) * 180 / c.pi
    c.eq("elevations", V.elevation_array, c.arr(n, lambda j: c.ite(el(j) > 0, el(j), 0)), rtol=1e-7, scale=90.0)
    c.eq("number of samples", c.length(V.visible_array), n)
    c.forall("visible exactly when above the horizon", n, lambda j: (V.visible_array[j] == True) == (V.elevation_array[j] > 0))


class TimedOrbit:
    """an orbiter with an arbitrary timed trajectory (contract: C24), never at the centre"""

    def __init__(self, c, n):
        self.asked = []
        self.arr = [c.array(x, -8.0, 8.0, n=n) for x in ("ox", "oy", "oz")]
        self.c = c

    def compute_timed_orbit_trajectory(self, t_seconds, num_points=101):
        self.asked.append((t_seconds, num_points))
        self.x_timed_orbit_arr, self.y_timed_orbit_arr, self.z_timed_orbit_arr = self.arr


@contract("C27", "LanderToOrbiter.__init__", samples=40)
def lander_to_orbiter(c):
    """at each time: distance between the rotating lander and the orbiter, its elevation above the lander's horizon, visibility"""
    P = c.planet(dens=False)
    ids = []
    c.replace("visibility", "Planet", lambda ID: (ids.append(ID), P)[1])
    n, lat, T = c.int("n", 2, 9), c.real("lat", -89.0, 89.0), c.pos("T", 10.0, 1e6)
    O = TimedOrbit(c, n)
    where = c.pick("body", list(c.PLANETS))
    V = c.cls("visibility", "LanderToOrbiter")(where, lat, O, T, num_points=n)
    c.check("body and orbiter", ids == [where] and len(O.asked) == 1)
    c.eq("trajectory over the same times", list(O.asked[0]), [T, n])
    s, k = c.np.sin, c.np.cos
    la = lat * c.pi / 180
    t = lambda j: T * j / (n - 1)
    up = lambda j: [k(la) * k(P.OMEGA * t(j)), k(la) * s(P.OMEGA * t(j)), s(la)]
    los = lambda j: [P.RP * O.arr[q][j] - P.RP * up(j)[q] for q in range(3)]
    nrm = lambda v: c.np.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    c.eq("times", V.t_array, c.arr(n, t), rtol=1e-9, scale=T)
    c.eq("ranges", V.range_array, c.arr(n, lambda j: nrm(los(j))), rtol=1e-6, scale=P.RP)
    beta = lambda j: c.np.arccos(sum(a * b for a, b in zip(up(j), los(j))) / nrm(los(j))) * 180 / c.pi
    c.eq("zenith angles", V.beta_array, c.arr(n, beta), rtol=1e-5, scale=180.0)
    c.eq("elevations", V.elevation_array, c.arr(n, lambda j: c.ite(90 - beta(j) > 0, 90 - beta(j), 0)), rtol=1e-5, scale=90.0)
    c.eq("number of samples", c.length(V.visible_array), n)
    c.forall("visible exactly when above the horizon", n, lambda j: (V.visible_array[j] == True) == (V.elevation_array[j] > 0))


@contract("C27", "OrbiterToPlanet.__init__ Visibility.ICRF_to_BI", samples=60)
def orbiter_to_planet(c):
    """the target body is hidden exactly when the line of sight meets the planet's sphere ahead of the orbiter"""
    P = c.planet(dens=False)
    D = Direction(c, P)
    where, target = bodies(c, D)
    ids = []
    c.replace("visibility", "Planet", lambda ID: (ids.append(ID), P)[1])
    n, T = c.int("n", 2, 9), c.pos("T", 10.0, 1e6)
    O = TimedOrbit(c, n)
    V = c.cls("visibility", "OrbiterToPlanet")(target, where, O, "2030-01-01", T, num_points=n)
    c.check("bodies and date", ids == [where] and sorted(D.asked) == sorted([(D.observer, ("time", "2030-01-01")), (target, ("time", "2030-01-01"))]))
    c.eq("trajectory over the same times", list(O.asked[0]), [T, n])
    c.eq("times", V.t_array, c.arr(n, lambda j: T * j / (n - 1)), rtol=1e-9, scale=T)
    c.eq("range", V.range, D.dist * 1000, rtol=1e-9)
    c.eq("direction in the body frame", list(V.obs_tar_pos_vec_bi_unit), D.n, rtol=1e-9, scale=1.0)
    a = lambda j: [O.arr[q][j] for q in range(3)]
    along = lambda j: sum(x * y for x, y in zip(a(j), D.n))
    imp2 = lambda j: sum(x * x for x in a(j)) - along(j) * along(j)
    c.eq("distance of the line of sight from the centre", c.arr(n, lambda j: V.d_array[j] * V.d_array[j]), c.arr(n, imp2), rtol=1e-6, scale=64.0)
    c.eq("number of samples", c.length(V.visible_array), n)
    c.forall("hidden exactly behind the planet", n, lambda j: (V.visible_array[j] == True) == c.or_(V.d_array[j] >= 1, along(j) >= 0))
