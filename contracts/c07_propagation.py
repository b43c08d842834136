"""C07 trajectory propagation set-up and outputs, C08 classification and truncation"""
from engine.base import contract


def solve(c, V, which, y0, t_sec, dt, de):
    f = V.solveTrajectory if which == 1 else V.solveTrajectory2
    n0 = len(c.W.ode)
    out = f(*(list(y0) + [t_sec, dt, de]))
    c.check("one initial value problem is solved", len(c.W.ode) == n0 + 1)
    return out, c.W.ode[-1]


def problem(c, V, rec, y0, t_sec, dt, de, label=""):
    """the initial value problem handed to the integrator"""
    P = V.planetObj
    c.eq(label + "initial state", list(rec["y0"]), list(y0), rtol=1e-9)
    t, n = rec["t"], c.length(rec["t"])
    c.check(label + "grid starts at zero", t[0] == 0)
    c.eq(label + "output step", t, c.arr(n, lambda k: k * (dt / P.tau)))
    c.le(label + "grid reaches the requested duration", t_sec, (n - 1) * dt)
    c.le(label + "grid stops within a step of the requested duration", (n - 1) * dt, t_sec + dt)
    c.eq(label + "relative tolerance", rec["rtol"], V.tol)
    c.eq(label + "absolute tolerance", rec["atol"], V.tol)
    y = [c.pos("yr", 1.0, 1.2), c.real("yth"), c.real("yph"), c.pos("yv", 0.3, 2.0), c.real("yps"), c.real("yga"), c.real("yd")]
    c.eq(label + "right-hand side is the equations of motion at the bank angle", list(rec["fun"](c.real("yt"), y)),
         list(V.EOM(y, c.vars["yt"], de)))
    if rec["kind"] == "solve_ivp":
        c.eq(label + "integration starts at zero", rec["t_span"][0], 0)
        c.eq(label + "integration covers the grid", rec["t_span"][1], t[n - 1])
        ev = rec["events"]
        ev = list(ev) if isinstance(ev, (list, tuple)) else [ev]
        c.check(label + "one stopping event", len(ev) == 1 and callable(ev[0]))
        c.check(label + "the event is terminal", bool(getattr(ev[0], "terminal", False)))
        lim = -88 * c.pi / 180
        e = ev[0](c.vars["yt"], y, *rec["args"])
        g = y[5]
        c.check(label + "the event is a vertical dive", c.and_(c.implies(e > 0, g > lim), c.implies(g > lim, e > 0), c.implies(g < lim, e < 0)))


def entry(c):
    V = c.vehicle()
    P = V.planetObj
    # the flight starts inside the atmosphere
    c.require(c.and_(V.h0_km * 1000 > P.h_trap, V.h0_km * 1000 < P.h_skip))
    t_sec, dt, de = c.pos("t_sec", 1.0, 30.0), c.pos("dt", 0.3, 4.0), c.real("delta_deg", -180.0, 180.0)
    return V, t_sec, dt, de


@contract("C07", "Vehicle.solveTrajectory Vehicle.solveTrajectory2 Vehicle.hit_EFPA_90 Vehicle.EOM Vehicle.EOM2", samples=40)
def trajectory_problem(c):
    """the integrator is handed the equations of motion, the given initial state, and a uniform grid over the requested time"""
    V, t_sec, dt, dd = entry(c)
    y0 = [c.pos("r0", 1.0, 1.1), c.real("th0"), c.real("ph0"), c.pos("vb0", 0.5, 3.0), c.real("ps0"), c.real("ga0"), c.real("d0")]
    de = c.real("delta", -3.2, 3.2)
    out, rec = solve(c, V, c.pick("solver", (1, 2)), y0, t_sec, dt, de)
    problem(c, V, rec, y0, t_sec, dt, de)
    c.eq("times returned", out[0], rec["tout"])
    for k, nm in enumerate("radius longitude latitude speed heading path downrange".split()):
        c.eq(nm + " returned", out[1 + k], rec["y"][k])


def initial(c, V):
    P = V.planetObj
    d = c.pi / 180
    return [1 + V.h0_km * 1000 / P.RP, V.theta0_deg * d, V.phi0_deg * d, V.v0_kms * 1000 / P.Vref, V.psi0_deg * d, V.gamma0_deg * d,
            V.drange0_km * 1000 / P.RP]


def histories(c, V, P, rec, idx):
    """dimensional and display-unit histories of a solution, cut at idx"""
    y, t = rec["y"], rec["tout"]
    a = lambda f: c.arr(idx, f)
    d = 180 / c.pi
    return dict(tc=a(lambda k: t[k] * P.tau), rc=a(lambda k: y[0][k] * P.RP), thetac=a(lambda k: y[1][k]), phic=a(lambda k: y[2][k]),
                vc=a(lambda k: y[3][k] * P.Vref), psic=a(lambda k: y[4][k]), gammac=a(lambda k: y[5][k]), drangec=a(lambda k: y[6][k] * P.RP),
                t_minc=a(lambda k: t[k] * P.tau / 60), h_kmc=a(lambda k: (y[0][k] * P.RP - P.RP) / 1000),
                v_kmsc=a(lambda k: y[3][k] * P.Vref / 1000), phi_degc=a(lambda k: y[2][k] * d), psi_degc=a(lambda k: y[4][k] * d),
                theta_degc=a(lambda k: y[1][k] * d), gamma_degc=a(lambda k: y[5][k] * d), drange_kmc=a(lambda k: y[6][k] * P.RP / 1000))


@contract("C07", "Vehicle.propogateEntry Vehicle.propogateEntry2 Vehicle.convertToPlotUnits Vehicle.truncateTrajectory", samples=40, budget=240)
def entry_propagation(c):
    """the propagation starts from the set initial state, and every reported history is the solution in its units, cut where the flight ends"""
    V, t_sec, dt, dd = entry(c)
    P = V.planetObj
    y0, de = initial(c, V), dd * c.pi / 180
    snap = c.snapshot(V)
    f = V.propogateEntry if c.pick("solver", (1, 2)) == 1 else V.propogateEntry2
    f(t_sec, dt, dd)
    c.check("one initial value problem is solved", len(c.W.ode) == 1)
    rec = c.W.ode[0]
    problem(c, V, rec, y0, t_sec, dt, de)
    m = c.length(rec["tout"])
    idx, flag = V.classifyTrajectory(c.arr(m, lambda k: rec["y"][0][k] * P.RP))
    c.eq("end index", V.index, idx)
    c.eq("end flag", V.exitflag, flag)
    hs = histories(c, V, P, rec, idx)
    for k, w in hs.items():
        c.eq(k, getattr(V, k), w, rtol=1e-6, atol=1e-6 if k == "h_kmc" else 0.0)
    c.frame("propagation", V, snap, allowed=tuple(hs) + ("index", "exitflag", "acc_net_g", "acc_drag_g", "dyn_pres_atm", "stag_pres_atm",
                                                         "q_stag_con", "q_stag_rad", "q_stag_total", "heatload"))


@contract("C09", "Vehicle.propogateEntry Vehicle.propogateEntry2", samples=40, budget=240)
def entry_loads(c):
    """the reported load histories are those of the reported trajectory; the heat load continues from the initial one"""
    V, t_sec, dt, dd = entry(c)
    P = V.planetObj
    f = V.propogateEntry if c.pick("solver", (1, 2)) == 1 else V.propogateEntry2
    f(t_sec, dt, dd)
    n, r, v = V.index, V.rc, V.vc
    g = P.EARTHG
    q = lambda k: P.density_int(r[k] - P.RP) * v[k] * v[k] / 2
    c.eq("total acceleration", V.acc_net_g, c.arr(n, lambda k: c.np.sqrt((q(k) / V.beta)**2 * (1 + V.LD * V.LD)) / g))
    c.eq("drag acceleration", V.acc_drag_g, c.arr(n, lambda k: c.np.sqrt((q(k) / V.beta)**2) / g))
    c.eq("dynamic pressure", V.dyn_pres_atm, c.arr(n, lambda k: q(k) / 101325))
    c.eq("stagnation pressure", V.stag_pres_atm, c.arr(n, lambda k: (P.pressure_int(r[k] - P.RP) + q(k)) / 101325))
    c.eq("convective heating", V.q_stag_con, V.qStagConvective(r, v))
    c.eq("radiative heating", V.q_stag_rad, V.qStagRadiative(r, v))
    c.eq("total heating", V.q_stag_total, c.arr(n, lambda k: V.q_stag_con[k] + V.q_stag_rad[k]))
    J = c.cumtrapz(V.q_stag_total, V.tc, initial=0)
    c.eq("heat load", V.heatload, c.arr(n, lambda k: V.heatLoad0 + J[k]))


@contract("C09", "Vehicle.computeAccelerationLoad Vehicle.computeAccelerationDrag Vehicle.computeDynPres Vehicle.computeStagPres Vehicle.computeMach "
          "Vehicle.computeStagTemp Vehicle.computeEnergy Vehicle.computeEnergyScalar", samples=60)
def load_histories(c):
    """load formulae on an arbitrary trajectory"""
    V = c.vehicle(state=False)
    P = V.planetObj
    n = c.int("n", 1, 9)
    h = c.array("h", 0.0, 1e5, n=n)
    r = P.RP + h
    t, th, ph, v = c.array("t", n=n), c.array("theta", n=n), c.array("phi", n=n), c.array("v", 100.0, 4e4, n=n)
    de = c.real("delta", -3.2, 3.2)
    H = lambda k: r[k] - P.RP
    q = lambda k: P.density_int(H(k)) * v[k] * v[k] / 2
    c.eq("total acceleration", V.computeAccelerationLoad(t, r, th, ph, v, n, de),
         c.arr(n, lambda k: c.np.sqrt((q(k) / V.beta)**2 * (1 + V.LD * V.LD)) / P.EARTHG))
    c.eq("drag acceleration", V.computeAccelerationDrag(t, r, th, ph, v, n, de), c.arr(n, lambda k: c.np.sqrt((q(k) / V.beta)**2) / P.EARTHG))
    c.eq("dynamic pressure", V.computeDynPres(r, v), c.arr(n, q))
    c.eq("stagnation pressure", V.computeStagPres(r, v), c.arr(n, lambda k: P.pressure_int(H(k)) + q(k)))
    M = lambda k: v[k] / P.sonic_int(H(k))
    c.eq("Mach number", V.computeMach(r, v), c.arr(n, M))
    c.eq("stagnation temperature", V.computeStagTemp(r, v), c.arr(n, lambda k: P.temp_int(H(k)) * (1 + (P.CPCV - 1) / 2 * M(k) * M(k))))
    c.eq("specific energy", V.computeEnergy(r, v), c.arr(n, lambda k: v[k] * v[k] / 2 - P.GM / r[k]))
    k = c.int("k", 0, 8)
    c.require(k < n)
    c.eq("specific energy, one sample", V.computeEnergyScalar(r[k], v[k]), v[k] * v[k] / 2 - P.GM / r[k])


@contract("C08", "Vehicle.classifyTrajectory", samples=80)
def trajectory_end(c):
    """skip-out is flagged at the first sample above the skip altitude, a dive at the first sample below the trap altitude"""
    V = c.vehicle(state=False)
    P = V.planetObj
    c.given(P.h_skip > P.h_trap)
    n = c.int("n", 1, 12)
    lo, w = c.real("lo", -3e4, 1e5), c.pos("width", 1e3, 1e6)
    u = c.array("u", 0.0, 1.0, n=n)
    r = c.arr(n, lambda k: P.RP + lo + w * u[k])
    h = c.arr(n, lambda k: r[k] - P.RP)
    idx, flag = V.classifyTrajectory(r)
    hmin, hmax = c.np.min(h), c.np.max(h)
    up, down = c.and_(hmin >= 0, hmax > P.h_skip), hmin < P.h_trap
    c.eq("outcome", flag, c.ite(up, 1, c.ite(down, -1, 0)))
    if c.branch(flag == 1):
        c.check("skip-out index is a sample", c.and_(idx >= 0, idx < n))
        c.check("skip-out sample is above the skip altitude", h[idx] > P.h_skip)
        c.forall("no earlier sample is above the skip altitude", idx, lambda k: h[k] <= P.h_skip)
    elif c.branch(flag == -1):
        c.check("trap index is a sample", c.and_(idx >= 0, idx < n))
        c.check("trap sample is below the trap altitude", h[idx] < P.h_trap)
        c.forall("no earlier sample is below the trap altitude", idx, lambda k: h[k] >= P.h_trap)
    else:
        c.eq("a flight that neither skips nor dives is kept whole", idx, n)
        c.forall("every sample is between the trap and skip altitudes", n, lambda k: c.and_(h[k] <= P.h_skip, h[k] >= P.h_trap))


@contract("C08", "Vehicle.truncateTrajectory", samples=40)
def trajectory_truncation(c):
    """all eight histories are cut at the same sample, and only there"""
    V = c.vehicle(state=False)
    n, i = c.int("n", 1, 12), c.int("i", 0, 12)
    c.require(i <= n)
    xs = [c.array("x%d" % k, n=n) for k in range(8)]
    out = V.truncateTrajectory(*(xs + [i]))
    c.check("eight histories", len(out) == 8)
    for k in range(8):
        c.eq("history %d" % k, out[k], c.arr(i, lambda j: xs[k][j]))
