"""C04 aerodynamic forces"""
from engine.base import contract


def state(c):
    return (c.pos("r", 2.1e6, 8.1e7), c.real("theta", -3.0, 3.0), c.real("phi", -1.5, 1.5), c.pos("v", 100.0, 4e4))


@contract("C04", "Vehicle.__init__ Vehicle.setInitialState", samples=40)
def vehicle_coefficients(c):
    """drag coefficient follows from the ballistic coefficient, lift coefficient from L/D"""
    V = c.vehicle(state=False)
    P = V.planetObj
    c.eq("ballistic coefficient", V.CD * V.A * V.beta, V.mass)
    c.eq("lift-to-drag ratio", V.CL, V.LD * V.CD)
    c.eq("nondimensional area", V.Abar * V.mass, V.A * P.rho0 * P.RP)
    c.eq("nondimensional mass", V.mbar, 1)
    for k in ("mass", "beta", "LD", "A", "alpha", "RN"):
        c.eq("input " + k, getattr(V, k), c.vars[k])
    c.check("planet", V.planetObj is P)
    x = [c.real("s%d" % k, -90.0, 90.0) for k in range(8)]
    b = c.snapshot(V)
    V.setInitialState(*x)
    nm = ("h0_km", "theta0_deg", "phi0_deg", "v0_kms", "psi0_deg", "gamma0_deg", "drange0_km", "heatLoad0")
    for k, y in zip(nm, x):
        c.eq("initial " + k, getattr(V, k), y)
        c.eq("reference " + k, getattr(V, k + "_ref"), y)
    c.frame("setting the state", V, b, allowed=nm + tuple(k + "_ref" for k in nm))
    V.setSolverParams(c.pos("tol", 1e-8, 1e-5))
    c.eq("tolerance", V.tol, c.vars["tol"])


@contract("C04", "Vehicle.L Vehicle.D Vehicle.a_s Vehicle.a_n Vehicle.a_w", samples=60)
def aerodynamic_forces(c):
    """half rho v^2 A C; drag opposes the motion; lift is rotated by the bank angle"""
    V = c.vehicle(state=False)
    P = V.planetObj
    r, th, ph, v = state(c)
    de = c.real("delta", -3.2, 3.2)
    rho = P.density(r - P.RP)
    qA = rho * v * v * V.A / 2
    c.eq("lift", V.L(r, th, ph, v), qA * V.LD * V.mass / (V.beta * V.A))
    c.eq("drag", V.D(r, th, ph, v), qA * V.mass / (V.beta * V.A))
    c.eq("lift over drag", V.L(r, th, ph, v), V.LD * V.D(r, th, ph, v))
    c.eq("deceleration", V.a_s(r, th, ph, v, de), -rho * v * v / (2 * V.beta))
    L = V.LD * rho * v * v / (2 * V.beta)
    an, aw = V.a_n(r, th, ph, v, de), V.a_w(r, th, ph, v, de)
    c.eq("lift in the vertical plane", an, L * c.np.cos(de))
    c.eq("lift out of plane", aw, L * c.np.sin(de))
    c.eq("bank keeps the lift magnitude", an * an + aw * aw, L * L)


@contract("C04", "Vehicle.Lbar Vehicle.Dbar Vehicle.a_sbar Vehicle.a_nbar Vehicle.a_wbar", samples=60)
def aerodynamic_forces_nondimensional(c):
    """the nondimensional accelerations are the dimensional ones divided by GM/RP^2"""
    V = c.vehicle(state=False)
    P = V.planetObj
    r, th, ph, v = state(c)
    de = c.real("delta", -3.2, 3.2)
    rb, vb = r / P.RP, v / P.Vref
    g0 = P.GM / (P.RP * P.RP)
    rho = P.density(r - P.RP)
    a = rho * v * v / (2 * V.beta)
    t = 1e-4      # r - RP is recomputed through r/RP in floating point
    c.eq("drag", V.Dbar(rb, th, ph, vb) * g0, a, rtol=t)
    c.eq("lift", V.Lbar(rb, th, ph, vb) * g0, V.LD * a, rtol=t)
    c.eq("along velocity", V.a_sbar(rb, th, ph, vb, de) * g0, -a, rtol=t)
    c.eq("in the vertical plane", V.a_nbar(rb, th, ph, vb, de) * g0, V.LD * a * c.np.cos(de), rtol=t)
    c.eq("out of plane", V.a_wbar(rb, th, ph, vb, de) * g0, V.LD * a * c.np.sin(de), rtol=t)


@contract("C04", "Vehicle.Lvectorized Vehicle.Dvectorized Vehicle.a_svectorized Vehicle.a_nvectorized Vehicle.a_wvectorized", samples=40)
def aerodynamic_forces_histories(c):
    """array versions agree with the scalar formulae at every sample"""
    V = c.vehicle(state=False)
    P = V.planetObj
    n = c.int("n", 1, 9)
    h = c.array("h", 0.0, 1e5, n=n)
    r = P.RP + h
    th, ph, v = c.array("theta", n=n), c.array("phi", n=n), c.array("v", 100.0, 4e4, n=n)
    de = c.real("delta", -3.2, 3.2)
    q = lambda k: P.density_int(r[k] - P.RP) * v[k] * v[k] / 2
    c.eq("lift", V.Lvectorized(r, th, ph, v), c.arr(n, lambda k: q(k) * V.A * V.CL))
    c.eq("drag", V.Dvectorized(r, th, ph, v), c.arr(n, lambda k: q(k) * V.A * V.CD))
    c.eq("along velocity", V.a_svectorized(r, th, ph, v, de), c.arr(n, lambda k: -q(k) / V.beta))
    c.eq("in the vertical plane", V.a_nvectorized(r, th, ph, v, de), c.arr(n, lambda k: V.LD * q(k) / V.beta * c.np.cos(de)))
    c.eq("out of plane", V.a_wvectorized(r, th, ph, v, de), c.arr(n, lambda k: V.LD * q(k) / V.beta * c.np.sin(de)))
    c.eq("inputs untouched", r, P.RP + h)


@contract("C04", "Vehicle.setCDMachFunction Vehicle.D Vehicle.Dvectorized Vehicle.Dbar Vehicle.computeMachScalar Vehicle.computeMach", samples=40)
def drag_of_mach(c):
    """a user supplied drag curve is evaluated at the local Mach number, in every variant of the drag"""
    V = c.vehicle(state=False)
    P = V.planetObj
    V.userDefinedCDMach = True
    f = c.fun("cdmach", 1, 0.5, 2.0, 10.0)
    V.setCDMachFunction(f)
    r, th, ph, v = state(c)
    h = r - P.RP
    M = v / P.sonic_int(h)
    rho = P.density(h)
    c.eq("Mach number", V.computeMachScalar(r, v), M)
    c.eq("drag", V.D(r, th, ph, v), rho * v * v * V.A * f(M) / 2)
    c.eq("drag, nondimensional", V.Dbar(r / P.RP, th, ph, v / P.Vref) * P.GM / (P.RP * P.RP), rho * v * v * V.A * f(M) / (2 * V.mass), rtol=1e-4)
    n = c.int("n", 1, 9)
    H = c.array("h", 0.0, 1e5, n=n)
    R = P.RP + H
    vv = c.array("vv", 100.0, 4e4, n=n)
    c.eq("Mach history", V.computeMach(R, vv), c.arr(n, lambda k: vv[k] / P.sonic_int(R[k] - P.RP)))
    c.eq("drag history", V.Dvectorized(R, R, R, vv),
         c.arr(n, lambda k: P.density_int(R[k] - P.RP) * vv[k] * vv[k] / 2 * V.A * f(vv[k] / P.sonic_int(R[k] - P.RP))))
