"""C10 stagnation-point heating"""
from engine.base import contract

# convective: q = k sqrt(rho / RN) v^3 (W/cm2) for the terrestrial planets and Titan, Jupiter and Saturn
K_CON = dict(VENUS="1.8960e-8", EARTH="1.7623e-8", MARS="1.8980e-8", JUPITER="0.6556e-8", SATURN="0.6356e-8", TITAN="1.7407e-8")


def setup(c, ids=None):
    ID = c.pick("planet", ids or c.PLANETS)
    V = c.vehicle(c.planet(ID), state=False)
    P = V.planetObj
    n = c.int("n", 1, 9)
    r = P.RP + c.array("h", 0.0, 1e5, n=n)
    v = c.array("v", 4000.0, 20000.0, n=n, positive=True)
    return ID, V, P, n, r, v


@contract("C10", "Vehicle.qStagConvective", samples=48)
def convective_heating(c):
    """Sutton-Graves type correlation of every planet, at every sample of the history"""
    ID, V, P, n, r, v = setup(c)
    rho = lambda k: P.density_int(r[k] - P.RP)
    q = V.qStagConvective(r, v)
    if ID in K_CON:
        K = c.lit(K_CON[ID])
        c.eq("convective rate", q, c.arr(n, lambda k: K * (rho(k) / V.RN)**c.lit("0.5") * v[k]**3))
    else:
        c.eq("convective rate", q, c.arr(n, lambda k: c.lit("2.24008e-7") * rho(k)**c.lit("0.45213") * v[k]**c.lit("2.6918") * c.np.sqrt(c.lit("0.291") / V.RN)))


@contract("C10", "Vehicle.qStagRadiative", samples=96)
def radiative_heating(c):
    """radiative correlation of every planet over its velocity ranges; none at Mars and Titan"""
    ID, V, P, n, r, v = setup(c)
    rho = lambda k: P.density_int(r[k] - P.RP)
    q = V.qStagRadiative(r, v)
    L = c.lit
    if ID in ("MARS", "TITAN"):
        c.eq("no radiative heating", q, c.arr(n, lambda k: L("0.0") * k))
    elif ID in ("JUPITER", "SATURN"):
        c.eq("radiative rate", q, c.arr(n, lambda k: L("9.7632379e-40") * (2 * V.RN)**(-L("0.17905")) * rho(k)**L("1.763827469") * v[k]**L("10.993852") / 10))
    elif ID in ("URANUS", "NEPTUNE"):
        c.eq("radiative rate", q, c.arr(n, lambda k: L("0.008125812") * rho(k)**L("0.49814") * (v[k] / 10000)**L("15.113") * (V.RN / L("0.291"))))
    elif ID == "VENUS":
        def f(k):
            w = rho(k)**L("1.2") * V.RN**L("0.49")
            return c.ite(v[k] < 8000, L("3.33e-34") * v[k]**L("10.0") * w,
                         c.ite(v[k] < 10000, L("1.22e-16") * v[k]**L("5.5") * w, L("3.07e-48") * v[k]**L("13.4") * w))
        c.eq("radiative rate", q, c.arr(n, f))
    else:
        # Tauber-Sutton: the velocity function is tabulated between 9 and 16 km/s, zero below, constant above
        x = [9000, 10000, 11000, 12000, 13000, 14000, 15000, 16000]
        y = [L("1.5"), 35, 151, 359, 660, 1065, 1550, 2040]
        g = c.interp(c.vec([L("%d.0" % a) for a in x]), c.vec(y), "linear", fill_value=(L("0.0"), L("2040.0")), bounds_error=False)
        c.eq("radiative rate", q, c.arr(n, lambda k: L("47360.0") * V.RN**L("0.6") * rho(k)**L("1.22") * g(v[k])))


@contract("C10", "Vehicle.qStagTotal", samples=32)
def total_heating(c):
    """total = convective + radiative, never negative"""
    ID, V, P, n, r, v = setup(c)
    a, b, t = V.qStagConvective(r, v), V.qStagRadiative(r, v), V.qStagTotal(r, v)
    c.eq("total rate", t, c.arr(n, lambda k: a[k] + b[k]))


@contract("C10", "Vehicle.computeHeatingForMultipleRN", samples=32)
def nose_radius_sweep(c):
    """every nose radius of the sweep gets its own peak rate and heat load; the vehicle keeps its nose radius"""
    ID, V, P, n, r, v = setup(c, ("VENUS", "MARS", "NEPTUNE"))
    t = c.array("t", 0.0, 100.0, n=n, increasing=True)
    m = c.int("m", 1, 4)
    rn = c.array("rn", 0.1, 2.0, n=m, positive=True)
    RN0 = V.RN
    snap = c.snapshot(V)
    qmax, J = V.computeHeatingForMultipleRN(t, r, v, rn)
    c.frame("sweep", V, snap)
    c.eq("nose radius restored", V.RN, RN0)
    c.eq("one peak per radius", c.length(qmax), m)
    c.eq("one heat load per radius", c.length(J), m)
    k = c.int("k", 0, 3)
    c.require(k < m)
    V.RN = rn[k]
    q = V.qStagTotal(r, v)
    c.eq("peak rate", qmax[k], c.np.max(q))
    c.eq("heat load", J[k], c.cumtrapz(q, t, initial=0)[n - 1])
