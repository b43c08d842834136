"""C01 reference scales and unit round trips, C02 atmosphere tables, C03 planetary constants"""
from engine.base import contract

TABLE = {
    #            RP          OMEGA          GM            rho0       CPCV      J2          J3         a0          d0
    "VENUS": ("6051.8E3", "-2.99237E-7", "3.248599E14", "64.790", "1.289", "4.458E-6", "0.0", "272.76", "67.16"),
    "EARTH": ("6371.0E3", "7.272205E-5", "3.986004E14", "1.2250", "1.4", "1082.60E-6", "-2.532E-6", "0.0", "90.0"),
    "MARS": ("3389.5E3", "7.088253E-5", "4.282837E13", "0.020", "1.289", "1960.45E-6", "31.5E-6", "317.68143", "52.88650"),
    "JUPITER": ("69911.0E3", "1.758518E-04", "1.26686534E17", "0.16288", "1.4348", "14736E-6", "0.0", "268.056595", "64.495303"),
    "SATURN": ("58232.0E3", "1.6379E-4", "3.7931187E16", "0.19847", "1.4348", "16298E-6", "0.0", "40.589", "83.537"),
    "TITAN": ("2575.0E3", "4.5451280E-6", "8.9780000E12", "5.43500", "1.4", "31.808E-6", "-1.880E-6", "39.4827", "83.4279"),
    "URANUS": ("25559.0E3", "-1.01237E-4", "5.793939E15", "0.37880", "1.45", "3343.3E-6", "0.0", "257.311", "-15.175"),
    "NEPTUNE": ("24622.0E3", "1.083385E-4", "6.8365299E15", "0.44021", "1.45", "3411E-6", "0.0", "299.36", "43.36"),
}
# threshold, skip-out, trapped, low altitude (m)
LIMITS = {
    "VENUS": ("180E3", "180E3", "10E3", "60E3"), "EARTH": ("120E3", "120E3", "10E3", "50E3"),
    "MARS": ("120E3", "120E3", "10E3", "50E3"), "JUPITER": ("1000E3", "1000E3", "50E3", None),
    "SATURN": ("1000E3", "1000E3", "50E3", None), "TITAN": ("1000E3", "1000E3", "30E3", "300E3"),
    "URANUS": ("1500E3", "1500E3", "10E3", "10E3"), "NEPTUNE": ("1000E3", "1000E3", "10E3", "100E3"),
}


class Other(str):
    """an identifier different from every literal the code may compare it with"""

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = str.__hash__


@contract("C03", "Planet.__init__", samples=24)
def planet_constants(c):
    """each supported body carries its physical constants"""
    ID = c.pick("body", list(TABLE))
    P = c.cls("planet", "Planet")(ID)
    RP, OM, GM, rho0, cpcv, J2, J3, a0, d0 = [c.lit(x) for x in TABLE[ID]]
    c.eq("identifier", P.ID, ID)
    c.eq("radius", P.RP, RP)
    c.eq("rotation rate", P.OMEGA, OM)
    c.eq("gravitational parameter", P.GM, GM)
    c.eq("reference density", P.rho0, rho0)
    c.eq("specific heat ratio", P.CPCV, cpcv)
    c.eq("J2", P.J2, J2)
    c.eq("J3", P.J3, J3)
    c.eq("pole right ascension", P.a0, a0 * c.pi / 180)
    c.eq("pole declination", P.d0, d0 * c.pi / 180)
    for nm, v in zip(("h_thres", "h_skip", "h_trap", "h_low"), LIMITS[ID]):
        if v is not None:
            c.eq("altitude limit " + nm, getattr(P, nm), c.lit(v))


@contract("C03", "Planet.__init__", samples=4)
def planet_identifier_total(c):
    """every other identifier is rejected with ValueError"""
    cls = c.cls("planet", "Planet")
    c.raises("any other identifier is rejected", lambda: cls(Other("PLUTO")), ValueError)
    for s in ("venus", "Venus", "", "VENUS ", "SUN", "MOON", "MERCURY", "PLUTO"):
        c.raises("identifier %r is rejected" % s, lambda: cls(s), ValueError)


@contract("C01", "Planet.__init__", samples=16)
def reference_scales(c):
    """circular speed at the surface, time scale RP/Vref, nondimensional rotation; rotation sign kept"""
    ID = c.pick("body", list(TABLE))
    P = c.cls("planet", "Planet")(ID)
    c.eq("reference speed", P.Vref * P.Vref * P.RP, P.GM)
    c.check("reference speed positive", P.Vref > 0)
    c.eq("time scale", P.tau * P.Vref, P.RP)
    c.eq("rotation scale", P.OMEGAbar * P.Vref, P.OMEGA * P.RP)
    c.eq("standard gravity", P.EARTHG, c.lit("9.80665"))
    for nm in ("ATM", "density_int", "temp_int", "pressure_int", "sonic_int"):
        c.check("no atmosphere loaded: " + nm, getattr(P, nm) is None)


@contract("C01", "Planet.nonDimState Planet.dimensionalize Planet.computeR Planet.computeH Planet.rbar", samples=40)
def unit_round_trip(c):
    """nondimensionalise / dimensionalise are inverse and scale each component by its own reference"""
    P = c.planet(dens=False)
    b = c.snapshot(P)
    t, r, th, ph, v, ps, g, d = [c.real(n, 0.5, 9.0) for n in ("t", "r", "theta", "phi", "v", "psi", "gam", "drange")]
    nd = P.nonDimState(r, th, ph, v, ps, g, d)
    c.eq("nondimensional state", tuple(nd), (r / P.RP, th, ph, v / P.Vref, ps, g, d / P.RP))
    back = P.dimensionalize(t / P.tau, *nd)
    c.eq("round trip", tuple(back), (t, r, th, ph, v, ps, g, d))
    dm = P.dimensionalize(t, r, th, ph, v, ps, g, d)
    c.eq("dimensional state", tuple(dm), (t * P.tau, r * P.RP, th, ph, v * P.Vref, ps, g, d * P.RP))
    c.eq("nondimensional again", tuple(P.nonDimState(*dm[1:])), (r, th, ph, v, ps, g, d))
    c.eq("radius of altitude", P.computeR(r), P.RP + r)
    c.eq("altitude of radius", P.computeH(r), r - P.RP)
    c.eq("altitude round trip", P.computeH(P.computeR(r)), r, rtol=1e-6, atol=1e-6)
    c.eq("nondimensional radius", P.rbar(r), r / P.RP)
    c.frame("conversion", P, b)


@contract("C01", "Planet.nonDimState Planet.dimensionalize Planet.computeR Planet.computeH", samples=30)
def unit_round_trip_arrays(c):
    """the conversions apply entry by entry to histories"""
    P = c.planet(dens=False)
    n = c.int("n", 1, 9)
    t, r, th, ph, v, ps, g, d = [c.array(x, 0.5, 9.0, n=n) for x in ("t", "r", "theta", "phi", "v", "psi", "gam", "drange")]
    dm = P.dimensionalize(t, r, th, ph, v, ps, g, d)
    c.eq("dimensional histories", tuple(dm), (t * P.tau, r * P.RP, th, ph, v * P.Vref, ps, g, d * P.RP))
    nd = P.nonDimState(*dm[1:])
    c.eq("nondimensional histories", tuple(nd), (r, th, ph, v, ps, g, d))
    c.eq("altitude history", P.computeH(P.computeR(r)), r, rtol=1e-6, atol=1e-6)


@contract("C02", "Planet.density Planet.rho Planet.rho2 Planet.rhobar", samples=60)
def density_lookup(c):
    """tabulated inside [0, threshold], vacuum above, reference density below the surface"""
    P = c.planet()
    h = c.real("h", -3e5, 1.5e6)
    lo = c.ite(h > P.h_thres, 0, c.ite(h < 0, P.rho0, P.density_int(h)))
    c.eq("density at altitude", P.density(h), lo)
    th, ph = c.real("theta"), c.real("phi")
    c.eq("density at radius", P.rho(P.RP + h, th, ph), lo, rtol=1e-4)
    c.eq("density at nondimensional radius", P.rho2((P.RP + h) / P.RP, th, ph), lo, rtol=1e-4)
    c.eq("relative density", P.rhobar((P.RP + h) / P.RP, th, ph), lo / P.rho0, rtol=1e-4)
    for nm, x in (("at the surface", 0), ("at the threshold", P.h_thres)):
        c.eq("density %s is tabulated" % nm, P.density(x), P.density_int(x))


@contract("C02", "Planet.densityvectorized Planet.tempvectorized Planet.presvectorized Planet.avectorized Planet.rhovectorized "
          "Planet.pressurevectorized Planet.temperaturevectorized Planet.sonicvectorized", samples=40)
def vectorised_lookup(c):
    """array look-ups agree with the tabulated functions at every entry, by altitude and by radius"""
    P = c.planet()
    h = c.array("h", 0.0, 5e5)
    n = c.length(h)
    b = c.snapshot(P)
    r = P.RP + h
    for nm, f, fn in (("density", P.densityvectorized, P.density_int), ("temperature", P.tempvectorized, P.temp_int),
                      ("pressure", P.presvectorized, P.pressure_int), ("speed of sound", P.avectorized, P.sonic_int)):
        c.eq(nm + " by altitude", f(h), c.arr(n, lambda k: fn(h[k])))
    for nm, f, fn in (("density", P.rhovectorized, P.density_int), ("pressure", P.pressurevectorized, P.pressure_int),
                      ("temperature", P.temperaturevectorized, P.temp_int), ("speed of sound", P.sonicvectorized, P.sonic_int)):
        c.eq(nm + " by radius", f(r), c.arr(n, lambda k: fn(h[k])), rtol=1e-4)
    c.frame("look-up", P, b)


@contract("C02", "Planet.loadAtmosphereModel", samples=40)
def atmosphere_table(c):
    """the named columns are tabulated against altitude in metres; outside the table: vacuum, and huge sound speed"""
    P = c.planet(dens=False)
    km = c.pick("unit", [False, True])
    kind = c.pick("kind", ["linear", "cubic"])
    cols = c.pick("cols", [(0, 1, 2, 3), (0, 3, 1, 2), (2, 1, 0, 3)]) if c.sym else c.pick("cols", [(0, 1, 2, 3), (0, 3, 1, 2), (0, 5, 2, 4)])
    P.loadAtmosphereModel("atm.dat", *cols, kind, km)
    M = c.np.loadtxt("atm.dat")
    H = M[:, cols[0]] * (1000 if km else 1)
    T, p, rho = M[:, cols[1]], M[:, cols[2]], M[:, cols[3]]
    c.eq("the given file is read", c.W.loads[0], "atm.dat")
    c.eq("altitude column", P.ATM_height, H)
    c.eq("temperature column", P.ATM_temp, T)
    c.eq("pressure column", P.ATM_pressure, p)
    c.eq("density column", P.ATM_density, rho)
    a = c.np.sqrt(P.CPCV * p / rho)
    c.eq("sound speed column", P.ATM_sonic, a)
    h = c.real("h", -3.0, 1.0 if km is False else 9000.0)
    for nm, f, y, fill in (("temperature", P.temp_int, T, 0), ("pressure", P.pressure_int, p, 0), ("density", P.density_int, rho, 0),
                           ("sound speed", P.sonic_int, a, c.lit("1e20"))):
        ref = c.interp(H, y, kind, fill_value=fill, bounds_error=False)
        c.eq(nm + " interpolation", f(h) + 0, ref(h) + 0)


@contract("C02", "Planet.loadMonteCarloDensityFile2 Planet.loadMonteCarloDensityFile3", samples=40)
def perturbed_density_tables(c):
    """low/mean/high/perturbation columns of a perturbed-atmosphere file"""
    P = c.planet(dens=False)
    km = c.pick("unit", [False, True])
    M = c.np.loadtxt("mc.dat")
    i = c.pick("cols", [(0, 1, 2, 3, 4), (1, 4, 0, 2, 3)])
    h, lo, av, hi, pt = P.loadMonteCarloDensityFile2("mc.dat", *i, km)
    f = 1000 if km else 1
    c.eq("altitude", h, M[:, i[0]] * f)
    c.eq("low", lo, M[:, i[1]])
    c.eq("mean", av, M[:, i[2]])
    c.eq("high", hi, M[:, i[3]])
    c.eq("perturbation", pt, M[:, i[4]] - M[:, i[2]])
    h, lo, av, hi, pt = P.loadMonteCarloDensityFile3("mc.dat", *i[:4], km)
    c.eq("altitude (3)", h, M[:, i[0]] * f)
    c.eq("mean (3)", av, M[:, i[1]])
    c.eq("low (3)", lo, M[:, i[1]] * (1 - M[:, i[2]] / 100))
    c.eq("high (3)", hi, M[:, i[1]] * (1 + M[:, i[2]] / 100))
    c.eq("perturbation (3)", pt, M[:, i[3]] - M[:, i[1]])


@contract("C02", "Planet.loadAtmosphereModel5 Planet.loadAtmosphereModel6 Planet.pSigmaFunc Planet.nSigmaFunc", samples=60)
def perturbed_density_profile(c):
    """profile i is the i-th block of NPOS rows: mean + sigma*(high-mean or mean-low by sign of sigma) [+ perturbation]"""
    P = c.planet(dens=False)
    NPOS, i = c.int("NPOS", 2, 5), c.int("i", 1, 3)
    n = c.int("n", 2, 15)
    c.require(NPOS * i <= n)
    H = c.array("H", 0.0, 1e5, n=n, increasing=True)
    lo, av, hi, pt = [c.array(x, 0.1, 1.0, n=n) for x in ("low", "avg", "high", "pert")]
    s = c.real("sigma", -3.0, 3.0)
    h = c.real("h", 0.0, 1e5)
    a, b = (i - 1) * NPOS, i * NPOS
    dev = c.ite(s >= 0, 1, 0)
    base = c.arr(NPOS, lambda k: av[a + k] + s * (dev * (hi[a + k] - av[a + k]) + (1 - dev) * (av[a + k] - lo[a + k])))
    full = c.arr(NPOS, lambda k: base[k] + pt[a + k])
    hh = c.arr(NPOS, lambda k: H[a + k])
    f5 = P.loadAtmosphereModel5(H, lo, av, hi, pt, s, NPOS, i)
    f6 = P.loadAtmosphereModel6(H, lo, av, hi, s, NPOS, i)
    c.eq("with perturbation", f5(h) + 0, c.interp(hh, full, "linear", fill_value=0, bounds_error=False)(h) + 0)
    c.eq("without perturbation", f6(h) + 0, c.interp(hh, base, "linear", fill_value=0, bounds_error=False)(h) + 0)
