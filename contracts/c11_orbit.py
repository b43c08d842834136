"""C11 orbit after the atmospheric pass, C16 orbit-raise costs"""
from engine.base import contract
from contracts.c07_propagation import entry


def conic(c, P, r, vr, vt2):
    """semi-major axis, eccentricity squared of the conic of radius r, radial speed vr, transverse speed squared vt2"""
    E = (vr * vr + vt2) / 2 - P.GM / r
    a = -P.GM / (2 * E)
    e2 = 1 + 2 * E * r * r * vt2 / (P.GM * P.GM)
    return E, a, e2


def inertial(c, P, r, v, g, ph, ps):
    """radial speed and transverse speed squared, planet rotation included"""
    s, k = c.np.sin, c.np.cos
    east = v * k(g) * k(ps) + P.OMEGA * r * k(ph)
    north = v * k(g) * s(ps)
    return v * s(g), east * east + north * north


def final(c, V):
    n = c.length(V.rc)
    return [x[n - 1] for x in (V.rc, V.vc, V.gammac, V.thetac, V.phic, V.psic)]


@contract("C11", "Vehicle.compute_ApoapsisAltitudeKm Vehicle.compute_PeriapsisAltitudeKm Vehicle.computeEnergyScalar Vehicle.computeAngMomScalar "
          "Vehicle.computeSemiMajorAxisScalar Vehicle.computeEccScalar", samples=60)
def exit_orbit(c):
    """apoapsis and periapsis of the conic of the inertial exit state"""
    V = c.vehicle(state=False)
    P = V.planetObj
    r = P.RP + c.pos("h", 1e4, 1e6)
    v = P.Vref * c.pos("vbar", 0.3, 1.2)
    g, th, ph, ps = c.real("g", -0.5, 1.2), c.real("th", -3.1, 3.1), c.rng("ph", -1.5, 1.5), c.real("ps", -3.1, 3.1)
    vr, vt2 = inertial(c, P, r, v, g, ph, ps)
    E, a, e2 = conic(c, P, r, vr, vt2)
    c.given(E != 0)
    c.given(vr * vr + vt2 > 0)
    ap, pe = V.compute_ApoapsisAltitudeKm(r, v, g, th, ph, ps), V.compute_PeriapsisAltitudeKm(r, v, g, th, ph, ps)
    e = c.np.sqrt(e2)
    c.eq("apoapsis altitude", ap, (a * (1 + e) - P.RP) / 1000, rtol=1e-6, scale=1e3)
    c.eq("periapsis altitude", pe, (a * (1 - e) - P.RP) / 1000, rtol=1e-6, scale=1e3)


@contract("C11", "Vehicle.computeEnergyScalar Vehicle.computeAngMomScalar Vehicle.computeSemiMajorAxisScalar Vehicle.computeEccScalar", samples=60)
def conic_elements(c):
    """energy, angular momentum, semi-major axis and eccentricity of a planar state"""
    V = c.vehicle(state=False)
    P = V.planetObj
    r = P.RP + c.pos("h", 1e4, 1e6)
    v, g = P.Vref * c.pos("vbar", 0.3, 1.2), c.real("g", -1.0, 1.2)
    E, a, e2 = conic(c, P, r, v * c.np.sin(g), v * v * c.np.cos(g) * c.np.cos(g))
    c.given(E != 0)
    En, h = V.computeEnergyScalar(r, v), V.computeAngMomScalar(r, v, g)
    c.eq("energy", En, E, scale=1e3)
    c.eq("angular momentum", h, r * v * c.np.cos(g))
    c.eq("semi-major axis", V.computeSemiMajorAxisScalar(En), a, rtol=1e-6)
    c.eq("eccentricity", V.computeEccScalar(h, En), c.np.sqrt(e2), scale=1.0)


def verdict(c, P, r, a, apo_km, target):
    """overshoot when the orbit is open or reaches the target apoapsis, undershoot otherwise and for every deep dive"""
    return c.ite((r - P.RP) / 1000 < P.h_low / 1000, 1, c.ite(c.or_(apo_km >= target, a < 0), -1, 1))


def aimed(c, which):
    V, t_sec, dt, dd = entry(c)
    P = V.planetObj
    target = c.pos("target_apo_km", 200.0, 20000.0)
    snap = c.snapshot(V)
    ans = (V.hitsTargetApoapsis if which == 1 else V.hitsTargetApoapsis2)(t_sec, dt, dd, target)
    out = [k for k in snap if k.split(".")[0] not in ("planetObj",)]
    for k in ("gamma0_deg", "h0_km", "v0_kms", "psi0_deg", "theta0_deg", "phi0_deg", "drange0_km", "heatLoad0", "tol", "LD", "beta", "CD", "CL", "mass", "A", "RN"):
        if k in snap:
            c.same("entry set-up kept: " + k, snap[k], getattr(V, k))
    return V, P, target, ans


@contract("C11", "Vehicle.hitsTargetApoapsis", samples=60, budget=120)
def target_apoapsis_relative(c):
    """verdict from the conic of the planet-relative exit state"""
    V, P, target, ans = aimed(c, 1)
    r, v, g, th, ph, ps = final(c, V)
    E, a, e2 = conic(c, P, r, v * c.np.sin(g), v * v * c.np.cos(g) * c.np.cos(g))
    c.given(E != 0)
    apo = (a * (1 + c.np.sqrt(e2)) - P.RP) / 1000
    c.eq("verdict", ans, verdict(c, P, r, a, apo, target))


@contract("C11", "Vehicle.hitsTargetApoapsis2", samples=60, budget=120)
def target_apoapsis_inertial(c):
    """verdict from the conic of the inertial exit state"""
    V, P, target, ans = aimed(c, 2)
    r, v, g, th, ph, ps = final(c, V)
    vr, vt2 = inertial(c, P, r, v, g, ph, ps)
    E, a, e2 = conic(c, P, r, vr, vt2)
    c.given(E != 0)
    c.given(vr * vr + vt2 > 0)
    apo = (a * (1 + c.np.sqrt(e2)) - P.RP) / 1000
    c.eq("verdict", ans, verdict(c, P, r, a, apo, target))


@contract("C11", "Vehicle.isCaptured", samples=40, budget=120)
def capture_verdict(c):
    """captured exactly when the final energy is negative"""
    V, t_sec, dt, dd = entry(c)
    P = V.planetObj
    ans = V.isCaptured(t_sec, dt, dd)
    r, v = final(c, V)[:2]
    c.eq("verdict", ans, c.ite(v * v / 2 - P.GM / r < 0, -1, 1))


@contract("C11", "Planet.__init__ Vehicle.hitsTargetApoapsis", samples=8)
def target_apoapsis_limits(c):
    """the deep-dive limit the verdict needs exists for every supported body"""
    ID = c.pick("body", list(c.PLANETS))
    P = c.cls("planet", "Planet")(ID)
    c.check("%s has a deep-dive altitude" % ID, hasattr(P, "h_low"))


@contract("C16", "Vehicle.compute_periapsis_raise_DV Vehicle.compute_apoapsis_raise_DV", samples=60)
def orbit_raise_cost(c):
    """burn at apoapsis (periapsis) from the current to the target orbit: difference of the two vis-viva speeds there"""
    V = c.vehicle(state=False)
    P = V.planetObj
    hp, ha, hx = c.pos("hp", 50.0, 500.0), c.pos("ha", 500.0, 50000.0), c.pos("target", 60.0, 60000.0)
    rp, ra, rx = P.RP + hp * 1000, P.RP + ha * 1000, P.RP + hx * 1000
    vv = lambda r, s: c.np.sqrt(P.GM * (2 / r - 2 / s))
    c.eq("periapsis raise", V.compute_periapsis_raise_DV(hp, ha, hx), vv(ra, ra + rx) - vv(ra, ra + rp), rtol=1e-6, scale=1.0)
    c.eq("apoapsis raise", V.compute_apoapsis_raise_DV(hp, ha, hx), vv(rp, rp + rx) - vv(rp, rp + ra), rtol=1e-6, scale=1.0)
    if c.branch(c.and_(hx >= hp, hx <= ha)):
        c.le("raising the periapsis costs", 0, V.compute_periapsis_raise_DV(hp, ha, hx), atol=1e-6)
    if c.branch(hx >= ha):
        c.le("raising the apoapsis costs", 0, V.compute_apoapsis_raise_DV(hp, ha, hx), atol=1e-6)
