"""C14 what-if propagations leave the vehicle untouched, C15 bank controller"""
import copy
from engine.base import contract
from contracts.c07_propagation import problem, histories


def args(c, P):
    h0 = c.pos("h_start_km", 50.0, 900.0)
    a = dict(h0_km=h0, theta0_deg=c.real("th_deg", -180.0, 180.0), phi0_deg=c.real("ph_deg", -80.0, 80.0), v0_kms=c.pos("v_kms", 3.0, 30.0),
             gamma0_deg=c.real("ga_deg", -80.0, 60.0), psi0_deg=c.real("ps_deg", -180.0, 180.0), drange0_km=c.real("dr_km", 0.0, 500.0),
             heatLoad0=c.real("J0", 0.0, 100.0), t_sec=c.pos("t_sec", 1.0, 30.0), dt=c.pos("dt", 0.3, 4.0), delta_deg=c.real("de_deg", -180.0, 180.0),
             density_mes_int=c.fun("measured", 1, 1e-6, 1.0, 5e4, facts=lambda y: y > 0))
    c.require(c.and_(h0 * 1000 > P.h_trap, h0 * 1000 < P.h_skip))
    return a


UTIL = {"propogateEntry_util": False, "propogateEntry_util2": False, "propogateEntry_utilD": True, "propogateEntry_utilD2": True}


@contract("C14", ["Vehicle." + k for k in UTIL], samples=80, budget=240)
def whatif_propagation(c):
    """flies a copy from the given state through the given density (drag variants: after jettison); the vehicle is untouched"""
    V = c.vehicle()
    P = V.planetObj
    b1, ratio = c.pos("beta1", 10.0, 200.0), c.pos("betaRatio", 1.0, 20.0)
    V.setDragModulationVehicleParams(b1, ratio)
    a = args(c, P)
    name = c.pick("function", list(UTIL))
    # the copy that is to be flown
    X = copy.deepcopy(V)
    X.planetObj.density_int = a["density_mes_int"]
    if UTIL[name]:
        X.beta = b1 * ratio
        X.CD = X.mass / (X.beta * X.A)
    Q = X.planetObj
    snap = c.snapshot(V)
    out = getattr(V, name)(*list(a.values()))
    c.frame("what-if", V, snap)
    c.check("planet kept", V.planetObj is P)
    c.check("one initial value problem is solved", len(c.W.ode) == 1)
    rec = c.W.ode[0]
    d = c.pi / 180
    y0 = [1 + a["h0_km"] * 1000 / P.RP, a["theta0_deg"] * d, a["phi0_deg"] * d, a["v0_kms"] * 1000 / P.Vref, a["psi0_deg"] * d,
          a["gamma0_deg"] * d, a["drange0_km"] * 1000 / P.RP]
    problem(c, X, rec, y0, a["t_sec"], a["dt"], a["delta_deg"] * d)
    m = c.length(rec["tout"])
    idx, flag = V.classifyTrajectory(c.arr(m, lambda k: rec["y"][0][k] * P.RP))
    hs = histories(c, V, P, rec, idx)
    c.check("fifteen results", len(out) == 15)
    for k, nm in enumerate("t_minc h_kmc v_kmsc phi_degc psi_degc theta_degc gamma_degc drange_kmc".split()):
        c.eq(nm, out[k], hs[nm], rtol=1e-6, atol=1e-6 if nm == "h_kmc" else 0.0)
    c.eq("end flag", out[8], flag)
    r, v, n = hs["rc"], hs["vc"], idx
    q = lambda k: Q.density_int(r[k] - P.RP) * v[k] * v[k] / 2
    c.eq("drag acceleration", out[14], c.arr(n, lambda k: c.np.sqrt((q(k) / X.beta)**2) / P.EARTHG))
    c.eq("dynamic pressure", out[10], c.arr(n, lambda k: q(k) / 101325))
    c.eq("stagnation pressure", out[11], c.arr(n, lambda k: (P.pressure_int(r[k] - P.RP) + q(k)) / 101325))
    qt = X.qStagTotal(r, v)
    c.eq("total heating", out[12], qt)
    J = c.cumtrapz(qt, hs["tc"], initial=0)
    c.eq("heat load", out[13], c.arr(n, lambda k: a["heatLoad0"] + J[k]))
    if not UTIL[name]:
        c.eq("total acceleration", out[9], c.arr(n, lambda k: c.np.sqrt((q(k) / X.beta)**2 * (1 + X.LD * X.LD)) / P.EARTHG))


PREDICT = {"predictApoapsisAltitudeKm_withLiftUp": "propogateEntry_util", "predictApoapsisAltitudeKm_withLiftUp2": "propogateEntry_util2",
           "predictApoapsisAltitudeKm_afterJettision": "propogateEntry_utilD", "predictApoapsisAltitudeKm_afterJettision2": "propogateEntry_utilD2"}


@contract("C14", ["Vehicle." + k for k in PREDICT], samples=60)
def predicted_apoapsis(c):
    """the predicted apoapsis is the apoapsis of the last sample of the what-if flight from the given state"""
    V = c.vehicle()
    P = V.planetObj
    a = args(c, P)
    name = c.pick("function", list(PREDICT))
    n = c.int("n", 1, 9)
    hist = [c.array("x%d" % k, 0.1, 5.0, n=n, positive=k in (1, 2)) for k in range(8)]
    calls = []

    def handler(self, *x):
        calls.append(1)
        c.check("flown by the vehicle", self is V)
        x = list(x)
        c.check("measured density", x[11] is a["density_mes_int"])
        c.eq("what-if set-up", x[:11], list(a.values())[:11])
        e = [c.array("l%d" % k, n=n) for k in range(6)]
        return tuple(hist) + (1.0,) + tuple(e)
    c.stub(type(V), PREDICT[name], handler)
    snap = c.snapshot(V)
    ap = getattr(V, name)(*list(a.values()))
    c.frame("prediction", V, snap)
    c.check("one what-if flight", len(calls) == 1)
    d = c.pi / 180
    L = [x[n - 1] for x in hist]      # time, altitude, speed, latitude, heading, longitude, path angle, downrange
    c.eq("predicted apoapsis", ap, V.compute_ApoapsisAltitudeKm(P.RP + L[1] * 1000, L[2] * 1000, L[6] * d, L[5] * d, L[3] * d, L[4] * d), scale=1e3)


@contract("C14", "Vehicle.dummyVehicle", samples=20)
def stand_in_vehicle(c):
    """an independent copy of the vehicle and its planet, flying through the given density"""
    V = c.vehicle()
    P = V.planetObj
    rho = c.fun("measured", 1, 1e-6, 1.0, 5e4, facts=lambda y: y > 0)
    snap = c.snapshot(V)
    D = V.dummyVehicle(rho)
    c.frame("copying", V, snap)
    c.check("another vehicle", D is not V)
    c.check("another planet", D.planetObj is not P)
    c.check("given density", D.planetObj.density_int is rho)
    c.check("vehicle keeps its density", V.planetObj is P)
    d2 = c.snapshot(D)
    for k in snap:
        if k != "planetObj.density_int":
            c.same("copied: " + k, snap[k], d2.get(k))
    D.beta = D.beta * 2
    D.planetObj.RP = D.planetObj.RP * 2
    c.frame("changing the copy", V, snap)


@contract("C15", "Vehicle.psuedoController Vehicle.setMaxRollRate", samples=80)
def bank_controller(c):
    """the bank angle moves towards the command, never faster than the limit, never past it, and reaches it when it can"""
    V = c.vehicle(state=False)
    rate, cmd, ini, h = c.pos("rate", 1.0, 30.0), c.real("cmd", -180.0, 180.0), c.real("ini", -180.0, 180.0), c.pos("h", 0.1, 5.0)
    near = c.pick("near", (False, True))
    if near:
        cmd = ini + c.real("off", -20.0, 20.0)
    V.setMaxRollRate(rate)
    snap = c.snapshot(V)
    out = V.psuedoController(cmd, ini, h)
    c.frame("controller", V, snap)
    c.check("two values", len(out) == 2)
    new, state = out
    c.eq("the reported state is the new bank angle", state, new, scale=1.0)
    ab = lambda x: c.ite(x >= 0, x, -x)
    c.le("rate limit", ab(new - ini), rate * h, atol=1e-9)
    c.le("never past the command", ab(cmd - new) + ab(new - ini), ab(cmd - ini), atol=1e-9)
    reach = ab(cmd - ini) <= rate * h
    if c.branch(reach):
        c.eq("a reachable command is reached", new, cmd, scale=1.0)
    else:
        c.eq("otherwise the bank moves at the limit", ab(new - ini), rate * h, scale=1.0)
