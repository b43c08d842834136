"""C06 equations of motion"""
from engine.base import contract


def setup(c):
    V = c.vehicle(state=False)
    y = [c.pos("r", 1.0, 1.2), c.real("theta", -3.0, 3.0), c.real("phi", -1.4, 1.4), c.pos("v", 0.2, 3.0), c.real("psi", -3.0, 3.0),
         c.real("gam", -1.4, 1.0), c.real("drange", 0.0, 1.0)]
    t, de = c.real("t", 0.0, 5.0), c.real("delta", -3.2, 3.2)
    c.given(c.np.cos(y[2]) > 0)
    c.given(c.np.cos(y[5]) + c.lit("0.01") > 0)
    return V, y, t, de


@contract("C06", "Vehicle.EOM Vehicle.EOM2", samples=60)
def eom_kinematics(c):
    """the position part of the right-hand side is the velocity resolved on the local axes; both right-hand sides agree"""
    V, y, t, de = setup(c)
    r, th, ph, v, psi, g, d = y
    f, f2 = V.EOM(y, t, de), V.EOM2(t, y, de)
    c.eq("the two right-hand sides agree", list(f), list(f2))
    s, co = c.np.sin, c.np.cos
    c.eq("altitude rate", f[0], v * s(g), atol=1e-13)
    c.eq("longitude rate", f[1] * r * co(ph), v * co(g) * co(psi), atol=1e-13)
    c.eq("latitude rate", f[2] * r, v * co(g) * s(psi), atol=1e-13)
    c.eq("ground speed", f[6], v * co(g), atol=1e-13)
    c.eq("velocity components recompose the speed", f[0] * f[0] + (f[1] * r * co(ph)) * (f[1] * r * co(ph)) + f[2] * r * f[2] * r, v * v)


@contract("C06", "Vehicle.EOM Vehicle.cfvbar Vehicle.gsbar Vehicle.a_sbar", samples=60)
def eom_energy(c):
    """the Jacobi energy v^2/2 + U(r, phi) - (Omega r cos phi)^2/2 changes only through drag"""
    V, y, t, de = setup(c)
    P = V.planetObj
    r, th, ph, v, psi, g, d = y
    f = V.EOM(y, t, de)
    s, co = c.np.sin(ph), c.np.cos(ph)
    J2, J3, W = P.J2, P.J3, P.OMEGAbar
    dU_dr = 1 / r**2 - 3 * J2 * (3 * s**2 - 1) / 2 / r**4 - 4 * J3 * (5 * s**3 - 3 * s) / 2 / r**5
    dU_dphi = J2 * 3 * s * co / r**3 + J3 * (15 * s**2 - 3) * co / 2 / r**4
    dE = v * f[3] + dU_dr * f[0] + dU_dphi * f[2] - W * W * (r * co * co * f[0] - r * r * co * s * f[2])
    c.eq("energy rate is minus drag times speed", dE, -v * V.Dbar(r, th, ph, v), atol=1e-11, rtol=1e-7)


@contract("C06", "Vehicle.EOM Vehicle.cfpsibar Vehicle.copsibar Vehicle.cfgammabar Vehicle.cogammabar Vehicle.a_nbar Vehicle.a_wbar Vehicle.gwbar Vehicle.gnbar",
          samples=60)
def eom_turn_rates(c):
    """flight-path and heading rates: gravity, lift, transport, Coriolis and centrifugal terms of a rotating planet
    (with the regularisation cos(gamma) -> cos(gamma) + 0.01 in the denominators of the heading equation)"""
    V, y, t, de = setup(c)
    P = V.planetObj
    r, th, ph, v, psi, g, d = y
    f = V.EOM(y, t, de)
    s, co = c.np.sin, c.np.cos
    W = P.OMEGAbar
    cr = co(g) + c.lit("0.01")
    L = V.Lbar(r, th, ph, v)
    c.eq("flight-path rate", f[5] * v, L * co(de) + V.gnbar(r, ph, g, psi) + v * v / r * co(g) + 2 * W * v * co(ph) * co(psi)
         + W * W * r * co(ph) * (co(g) * co(ph) + s(g) * s(ph) * s(psi)), rtol=1e-7, atol=1e-11)
    c.eq("heading rate", f[4] * v * cr * r * co(ph),
         r * co(ph) * (L * s(de) + V.gwbar(r, ph, g, psi)) - v * v * cr * co(g) * co(psi) * s(ph)
         - W * W * r * r * s(ph) * co(ph) * co(ph) * co(psi)
         + 2 * W * v * r * co(ph) * (s(g) * co(ph) * s(psi) - cr * s(ph)), rtol=1e-7, atol=1e-11)


@contract("C06", "Vehicle.EOM", samples=60)
def eom_symmetries(c):
    """rotational symmetry about the pole, independence of time and downrange, mirror symmetry of the bank angle at the equator"""
    V, y, t, de = setup(c)
    r, th, ph, v, psi, g, d = y
    f = V.EOM(y, t, de)
    f2 = V.EOM([r, c.real("th2"), ph, v, psi, g, c.real("d2")], c.real("t2"), de)
    c.eq("longitude, time and downrange do not enter", list(f), list(f2))
    a = V.EOM([r, th, ph, v, psi, g, d], t, -de)
    c.eq("bank sign: altitude, speed, path", [a[0], a[1], a[2], a[3], a[5], a[6]], [f[0], f[1], f[2], f[3], f[5], f[6]])
    L = V.Lbar(r, th, ph, v)
    c.eq("bank sign: heading", (f[4] - a[4]) * v * (c.np.cos(g) + c.lit("0.01")), 2 * L * c.np.sin(de), atol=1e-9, rtol=1e-6)
