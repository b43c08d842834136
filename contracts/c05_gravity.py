from engine.base import contract


@contract("C05", "Vehicle.grbar Vehicle.gphibar Vehicle.gthetabar Vehicle.gsbar Vehicle.gnbar Vehicle.gwbar", samples=40)
def gravity_is_zonal_gradient(c):
    """gravity = gradient of -(1/r)(1 - J2/r^2 P2(sin phi) - J3/r^3 P3(sin phi)), projected on the wind axes"""
    V = c.vehicle(state=False)
    P = V.planetObj
    r = c.pos("r", 1.0, 1.5)
    phi, g, psi = c.real("phi", -1.5, 1.5), c.real("gam", -1.5, 1.5), c.real("psi", -3.0, 3.0)
    s, co = c.np.sin(phi), c.np.cos(phi)
    # U = -1/r + J2 P2(s)/r^3 + J3 P3(s)/r^4 ;  g_r = -dU/dr, g_phi = -(1/r) dU/dphi
    P2, P3 = (3 * s**2 - 1) / 2, (5 * s**3 - 3 * s) / 2
    dP2, dP3 = 3 * s * co, (15 * s**2 - 3) * co / 2
    gr = -1 / r**2 + 3 * P.J2 * P2 / r**4 + 4 * P.J3 * P3 / r**5
    gp = -(P.J2 * dP2 / r**4 + P.J3 * dP3 / r**5)
    c.eq("radial component", V.grbar(r, phi), gr)
    c.eq("meridional component", V.gphibar(r, phi), gp, rtol=1e-9, atol=1e-12)
    c.eq("no azimuthal component", V.gthetabar(r, phi), 0)
    gs, gn, gw = V.gsbar(r, phi, g, psi), V.gnbar(r, phi, g, psi), V.gwbar(r, phi, g, psi)
    sg, cg, sp, cp = c.np.sin(g), c.np.cos(g), c.np.sin(psi), c.np.cos(psi)
    c.eq("along velocity", gs, sg * gr + cg * sp * gp, atol=1e-12)
    c.eq("normal to velocity", gn, cg * gr - sg * sp * gp, atol=1e-12)
    c.eq("out of plane", gw, cp * gp, atol=1e-12)
    c.eq("magnitude preserved", gs**2 + gn**2 + gw**2, gr**2 + gp**2)
