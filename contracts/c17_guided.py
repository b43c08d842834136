"""C17 guided flights: segments join up, phases end on their conditions, reports are those of the whole flight"""
from engine.base import contract

# attribute of one propagation -> attribute suffix of the phase histories
HIST = [("t_minc", "t_min"), ("h_kmc", "h_km"), ("v_kmsc", "v_kms"), ("theta_degc", "theta_deg"), ("phi_degc", "phi_deg"),
        ("psi_degc", "psi_deg"), ("gamma_degc", "gamma_deg"), ("drange_kmc", "drange_km"), ("acc_net_g", "acc_net_g"),
        ("dyn_pres_atm", "dyn_pres_atm"), ("stag_pres_atm", "stag_pres_atm"), ("q_stag_total", "q_stag_total"), ("heatload", "heatload")]
RANGE = {"v_kmsc": (3.0, 9.0), "h_kmc": (60.0, 100.0), "gamma_degc": (-10.0, 5.0), "acc_drag_g": (0.1, 3.0)}
STATE = ["h_kmc", "theta_degc", "phi_degc", "v_kmsc", "psi_degc", "gamma_degc", "drange_kmc", "heatload"]


def fly(c, V, name, other, on_segment, G):
    """propogateEntry by its contract: histories of one length from the vehicle's initial state"""
    P = V.planetObj

    def handler(self, t_sec, dt, delta):
        c.check("flown by the vehicle itself", self is V)
        on_segment(t_sec, dt, delta)
        s0 = dict(zip(STATE, (V.h0_km, V.theta0_deg, V.phi0_deg, V.v0_kms, V.psi0_deg, V.gamma0_deg, V.drange0_km, V.heatLoad0)))
        s0["t_minc"] = 0.0
        n = c.fresh_len("samples", 1, 5)
        H = {}
        for k, _ in HIST + [("acc_drag_g", None)]:
            lo, hi = RANGE.get(k, (0.0, 2.0))
            a = c.fresh_array(k, n, lo, hi, first=s0.get(k))
            if not c.sym and k == "h_kmc":
                # the flight leaves the atmosphere after some segments
                G.count = getattr(G, "count", 0) + 1
                a = a * 0 + s0[k]
                if n > 1:
                    up = P.h_skip / 1000 * (c.fresh("climb", -0.1, 0.45) if G.count < 12 else 0.5)
                    if not G.started:
                        up = 0.5 * (P.h_skip / 1000 - s0[k]) * c.fresh("climb", -0.1, 1.0)
                    a = a + c.np.linspace(0.0, up, int(n))
                elif G.count > 30:
                    a = a * 0 + 2 * P.h_skip / 1000
            H[k] = a
        if c.sym:
            c.given(H["v_kmsc"][n - 1] > 0)
            if G.started is False:
                # after the first second the vehicle is still inside the atmosphere
                c.given(H["h_kmc"][n - 1] * 1000 < P.h_skip)
        for k, a in H.items():
            setattr(V, k, a)
        # radians / SI companions of the display histories, by the same contract
        d = c.pi / 180
        V.tc, V.rc, V.vc, V.drangec = H["t_minc"] * 60, H["h_kmc"] * 1000 + P.RP, H["v_kmsc"] * 1000, H["drange_kmc"] * 1000
        V.thetac, V.phic, V.psic, V.gammac = H["theta_degc"] * d, H["phi_degc"] * d, H["psi_degc"] * d, H["gamma_degc"] * d
        V.index, V.exitflag = n, 0.0
        V.q_stag_con, V.q_stag_rad = H["q_stag_total"] * 1, H["q_stag_total"] * 0
        return n, H, s0

    def full(self, t_sec, dt, delta):
        n, H, s0 = handler(self, t_sec, dt, delta)
        for k, nm in HIST:
            old = getattr(G, nm)
            new = H[k]
            if nm == "t_min" and old is not None:
                new = new + old[-1]
            setattr(G, nm, new if old is None else c.np.concatenate((old, new)))
        # density measured over the segment: mean speed, drag acceleration at its end
        vm = (s0["v_kmsc"] + H["v_kmsc"][n - 1]) * 1000 / 2
        if G.started:
            G.rho = c.np.append(G.rho, 2 * V.mass * H["acc_drag_g"][n - 1] * P.EARTHG / (V.CD * V.A * vm**2))
            G.hs = c.np.append(G.hs, s0["h_kmc"])
        G.started = True
    c.stub(type(V), name, full)
    c.stub(type(V), other, full)


def start_of_segment(c, V, G):
    """each segment takes over the state in which the previous one ended"""
    for nm, x in (("altitude", (V.h0_km, G.h_km)), ("longitude", (V.theta0_deg, G.theta_deg)), ("latitude", (V.phi0_deg, G.phi_deg)),
                  ("speed", (V.v0_kms, G.v_kms)), ("heading", (V.psi0_deg, G.psi_deg)), ("path angle", (V.gamma0_deg, G.gamma_deg)),
                  ("downrange", (V.drange0_km, G.drange_km)), ("heat load", (V.heatLoad0, G.heatload))):
        c.eq("segment takes over the %s" % nm, x[0], x[1][-1])


def guided_vehicle(c, drag):
    V = c.vehicle()
    P = V.planetObj
    if drag:
        V.setDragModulationVehicleParams(c.pos("beta1", 10.0, 200.0), c.pos("betaRatio", 1.0, 20.0))
        V.setDragEntryPhaseParams(c.pos("v_switch", 3.0, 6.0), c.pos("lowAlt", 10.0, 80.0), 101, c.real("hdot_threshold", -600.0, 100.0))
    else:
        c.require(V.LD > 0)
        V.setEquilibriumGlideParams(c.real("Ghdot", 0.0, 100.0), c.real("Gq", 0.0, 10.0), c.pos("v_switch", 3.0, 6.0),
                                    c.pos("lowAlt", 10.0, 80.0), 101, c.real("hdot_threshold", -600.0, 100.0))
        V.setMaxRollRate(c.pos("rate", 1.0, 30.0))
    V.setTargetOrbitParams(c.pos("target_peri", 150.0, 400.0), c.pos("target_apo", 500.0, 1e5), c.pos("target_tol", 1.0, 500.0))
    return V, P


ENTRY = {"propogateEquilibriumGlide": False, "propogateEquilibriumGlide2": False, "propogateEntryPhaseD": True, "propogateEntryPhaseD2": True}


def entry_phase(c, name):
    drag = ENTRY[name]
    V, P = guided_vehicle(c, drag)
    step, dt, tmax = c.pos("timeStep", 0.1, 10.0), c.pos("dt", 0.1, 1.0), c.pos("maxTime", 100.0, 3000.0)
    G = c.ghost(started=False, rho=c.np.array([0.0]), hs=c.np.array([0.0]), bank=0.0, newbank=0.0, hdot=0.0, pred=0, apo=0.0, meas=None,
                **{nm: None for _, nm in HIST})
    c.require(c.and_(V.h0_km * 1000 > P.h_trap, V.h0_km * 1000 < P.h_skip))
    if c.sym:
        c.require(P.h_skip <= P.h_thres)
    else:
        P.h_thres = P.h_skip
    consts = {k: getattr(V, k) for k in ("mass", "A", "RN", "LD", "CL", "alpha")}
    margin = 1.0 if drag else 2.0
    measured = object()

    slow = lambda: G.v_kms[-1] <= V.v_switch_kms

    def ended():
        apo, target = G.apo, V.target_apo_km
        return c.or_(G.h_km[-1] > P.h_skip / 1000 - margin,
                     c.and_(apo > 0, apo < target),
                     c.and_(apo - target < V.target_apo_km_tol, target - apo < V.target_apo_km_tol))

    def cycle_done():
        """predictions are made in the cycles that started above the threshold altitude rate"""
        if c.branch(G.hdot > V.hdot_threshold):
            c.check("apoapsis predicted once the altitude rate exceeds the threshold", G.pred == 1)
        else:
            c.check("no prediction below the threshold altitude rate", G.pred == 0)

    def on_segment(t_sec, d1, delta):
        c.eq("segment: solver step", d1, dt)
        if not G.started:
            c.eq("first segment lasts one second", t_sec, 1)
            c.eq("first segment flies at zero bank", delta, 0)
        else:
            c.eq("segment lasts one guidance cycle", t_sec, step)
            start_of_segment(c, V, G)
            c.eq("segment flies at the controlled bank angle", delta, G.newbank)
            if G.cycles is not None:
                c.check("no end condition held before", c.not_(ended()))
                cycle_done()
            c.check("continued above the switch speed", c.not_(slow()))
            G.cycles = 1
            G.bank = delta
            G.hdot = V.v0_kms * 1000 * c.np.sin(V.gamma0_deg * c.pi / 180)
            G.pred, G.apo = 0, 0.0
        if drag:
            c.eq("entry configuration", V.beta, V.beta1)
            c.eq("entry drag coefficient", V.CD * V.beta1 * V.A, V.mass)
    G.cycles = None
    c.invariant(lambda: c.not_(ended()))
    c.invariant(lambda: c.implies(G.hdot > V.hdot_threshold, G.pred == 1))
    c.invariant(lambda: c.implies(G.pred == 1, G.hdot > V.hdot_threshold))
    c.invariant(lambda: c.or_(G.pred == 0, G.pred == 1))
    c.invariant(lambda: V.delta_deg_array[-1] == G.bank)
    fly(c, V, "propogateEntry", "propogateEntry2", on_segment, G)

    def controller(self, cmd, ini, h):
        h1, v1, ga = G.h_km[-1] * 1000, G.v_kms[-1] * 1000, G.gamma_deg[-1] * c.pi / 180
        g0, r = P.GM / P.RP**2, h1 + P.RP
        q, hdot = P.density(h1) * v1**2 / 2, v1 * c.np.sin(ga)
        k = 1 - v1**2 / (g0 * r)
        qref = -V.mass * g0 / (0.75 * V.CL * V.A) * k
        x = V.mass * g0 / (V.CL * q * V.A) * k - V.Ghdot * hdot / q + V.Gq * ((q - qref) / q)
        c.eq("controller: one guidance cycle", h, step)
        c.eq("controller: from the bank angle flown", ini, G.bank, scale=1.0)
        if c.branch(x > 1):
            c.eq("command: full lift up", cmd, 0)
        elif c.branch(x < -1):
            c.eq("command: full lift down", cmd, 180)
        else:
            c.eq("command: equilibrium glide law", cmd, c.np.arccos(x) * 180 / c.pi, rtol=1e-6, scale=1.0)
        G.newbank = c.fresh("bank", 0.0, 180.0)
        return G.newbank, G.newbank

    def measure(self, hs, rho, low, npts):
        c.eq("measured altitudes", hs, G.hs)
        c.eq("measured densities", rho, G.rho, rtol=1e-6)
        c.eq("extrapolation", [low, npts], [V.lowAlt_km, V.numPoints_lowAlt])
        G.meas = measured
        return measured, 1000 * G.h_km[-1]

    def predict(self, h, th, ph, v, ga, ps, dr, J, t_sec, d1, delta, rho):
        c.check("prediction: threshold altitude rate exceeded", G.hdot > V.hdot_threshold)
        c.check("prediction: measured density", c.and_(G.meas is not None, rho is G.meas))
        c.eq("prediction: from the current state", [h, th, ph, v, ga, ps, dr, J],
             [x[-1] for x in (G.h_km, G.theta_deg, G.phi_deg, G.v_kms, G.gamma_deg, G.psi_deg, G.drange_km, G.heatload)])
        c.eq("prediction: duration, step, zero bank", [t_sec, d1, delta], [tmax, dt, 0])
        G.pred = 1
        G.apo = c.fresh("predicted", -1e4, 1e5)
        return G.apo
    c.stub(type(V), "psuedoController", controller)
    c.stub(type(V), "createDensityMeasuredFunction", measure)
    kind = "afterJettision" if drag else "withLiftUp"
    for k in ("", "2"):
        c.stub(type(V), "predictApoapsisAltitudeKm_" + kind + k, predict)
    snap = c.snapshot(P)
    getattr(V, name)(step, dt, tmax)
    c.frame("entry phase, planet", P, snap)
    for k, x in consts.items():
        c.same("entry phase: %s unchanged" % k, x, getattr(V, k))
    suffix = "_en" if drag else "_eg"
    for _, nm in HIST:
        c.eq("phase history " + nm, getattr(V, nm + suffix), getattr(G, nm))
    if G.cycles is not None:
        c.check("phase ends on an end condition", c.or_(slow(), ended()))
        cycle_done()
    else:
        c.check("phase ends below the switch speed", slow())
    c.eq("last bank angle on record", V.delta_deg_array[-1], G.bank, scale=1.0)


@contract("C17", "Vehicle.propogateEquilibriumGlide Vehicle.setEquilibriumGlideParams Vehicle.setTargetOrbitParams", samples=40, budget=560)
def equilibrium_glide(c):
    """bank-controlled entry phase"""
    entry_phase(c, "propogateEquilibriumGlide")


@contract("C17", "Vehicle.propogateEquilibriumGlide2", samples=40, budget=560)
def equilibrium_glide2(c):
    """bank-controlled entry phase, second integrator"""
    entry_phase(c, "propogateEquilibriumGlide2")


@contract("C17", "Vehicle.propogateEntryPhaseD Vehicle.setDragEntryPhaseParams", samples=40, budget=560)
def drag_entry(c):
    """drag-modulation entry phase until jettison"""
    entry_phase(c, "propogateEntryPhaseD")


@contract("C17", "Vehicle.propogateEntryPhaseD2", samples=40, budget=560)
def drag_entry2(c):
    """drag-modulation entry phase until jettison, second integrator"""
    entry_phase(c, "propogateEntryPhaseD2")


EXIT = {"propogateExitPhase": False, "propogateExitPhase2": False, "propogateExitPhaseD": True, "propogateExitPhaseD2": True}


def exit_phase(c, name):
    drag = EXIT[name]
    V, P = guided_vehicle(c, drag)
    step, dt, tmax = c.pos("timeStep", 0.1, 10.0), c.pos("dt", 0.1, 1.0), c.pos("maxTime", 100.0, 3000.0)
    suffix = "_en" if drag else "_eg"
    n, m = c.int("n", 1, 6), c.int("m", 1, 4)
    G = c.ghost(started=True, rho=c.np.array([0.0]), hs=c.np.array([0.0]), bank=0.0, newbank=0.0, cycles=None, h_start=0.0)
    for k, nm in HIST:
        lo, hi = RANGE.get(k, (0.0, 2.0))
        a = c.array("entry_" + nm, lo, hi, n=n, positive=nm in ("v_kms",))
        setattr(V, nm + suffix, a)
        setattr(G, nm, a)
    for nm in ("t_step_array", "hdot_array", "hddot_array", "hdotref_array", "qref_array", "q_array"):
        setattr(V, nm, c.array("step_" + nm, 0.0, 1.0, n=m))
    V.delta_deg_array = c.array("banks", 0.0, 180.0, n=m)
    V.heatload = V.heatload_en if drag else V.heatload_eg
    G.bank = G.newbank = V.delta_deg_array[-1]
    apo, peri = c.fun("apoapsis", 6, 300.0, 1e5), c.fun("periapsis", 6, -50.0, 150.0)
    near = 1.0 if drag else 10.0
    consts = {k: getattr(V, k) for k in ("mass", "A", "RN", "LD", "CL", "alpha") + (() if drag else ("beta", "CD"))}

    def on_segment(t_sec, d1, delta):
        c.eq("segment: solver step", d1, dt)
        c.eq("segment lasts one guidance cycle", t_sec, step)
        start_of_segment(c, V, G)
        c.check("still below the skip altitude", G.h_km[-1] < P.h_skip / 1000)
        if G.cycles is not None:
            c.check("the last cycle did not start at the edge of the atmosphere", c.not_(G.h_start > P.h_skip / 1000 - near))
        if drag:
            c.eq("flies level", delta, 0)
            c.eq("jettisoned configuration", V.beta, V.beta1 * V.betaRatio)
            c.eq("jettisoned drag coefficient", V.CD * V.beta1 * V.betaRatio * V.A, V.mass)
        else:
            c.eq("segment flies at the controlled bank angle", delta, G.newbank)
        G.bank, G.cycles, G.h_start = delta, 1, V.h0_km
    c.invariant(lambda: c.not_(G.h_start > P.h_skip / 1000 - near))
    fly(c, V, "propogateEntry", "propogateEntry2", on_segment, G)

    def controller(self, cmd, ini, h):
        c.eq("controller: one guidance cycle", h, step)
        c.eq("controller: from the bank angle flown", ini, G.bank, scale=1.0)
        c.eq("command: full lift up", cmd, 0)
        G.newbank = c.fresh("bank", 0.0, 180.0)
        return G.newbank, G.newbank
    c.stub(type(V), "psuedoController", controller)
    c.stub(type(V), "compute_ApoapsisAltitudeKm", lambda self, r, v, g, th, ph, ps: apo(r, v, g, th, ph, ps))
    c.stub(type(V), "compute_PeriapsisAltitudeKm", lambda self, r, v, g, th, ph, ps: peri(r, v, g, th, ph, ps))
    snap = c.snapshot(P)
    getattr(V, name)(step, dt, tmax)
    c.frame("exit phase, planet", P, snap)
    for k, x in consts.items():
        c.same("exit phase: %s unchanged" % k, x, getattr(V, k))
    for _, nm in HIST:
        c.eq("flight history " + nm, getattr(V, nm + "_full"), getattr(G, nm))
    if G.cycles is not None:
        out = [G.h_km[-1] >= P.h_skip / 1000, G.h_start > P.h_skip / 1000 - near]
        if drag:
            out.append(G.h_start < 20)
        c.check("the phase ends outside or at the edge of the atmosphere", c.or_(*out))
    else:
        c.check("the phase ends outside the atmosphere", G.h_km[-1] >= P.h_skip / 1000)
    c.eq("switch time, altitude, speed", [V.t_switch, V.h_switch, V.v_switch],
         [getattr(V, nm + suffix)[-1] for nm in ("t_min", "h_km", "v_kms")])
    d = c.pi / 180
    st = [P.RP + G.h_km[-1] * 1000, G.v_kms[-1] * 1000, G.gamma_deg[-1] * d, G.theta_deg[-1] * d, G.phi_deg[-1] * d, G.psi_deg[-1] * d]
    a, p = apo(*st), peri(*st)
    c.eq("terminal apoapsis", V.terminal_apoapsis, a, rtol=1e-6)
    c.eq("terminal periapsis", V.terminal_periapsis, p, rtol=1e-6)
    c.eq("apoapsis error", V.apoapsis_perc_error, (a - V.target_apo_km) * 100 / V.target_apo_km, rtol=1e-6, scale=1.0)
    c.eq("periapsis raise cost", V.periapsis_raise_DV, V.compute_periapsis_raise_DV(p, a, V.target_peri_km), rtol=1e-5, scale=1.0)
    c.eq("apoapsis raise cost", V.apoapsis_raise_DV, V.compute_apoapsis_raise_DV(V.target_peri_km, a, V.target_apo_km), rtol=1e-5, scale=1.0)


@contract("C17", "Vehicle.propogateExitPhase", samples=40, budget=560)
def lifting_exit(c):
    """full-lift-up exit phase"""
    exit_phase(c, "propogateExitPhase")


@contract("C17", "Vehicle.propogateExitPhase2", samples=40, budget=560)
def lifting_exit2(c):
    """full-lift-up exit phase, second integrator"""
    exit_phase(c, "propogateExitPhase2")


@contract("C17", "Vehicle.propogateExitPhaseD", samples=40, budget=560)
def drag_exit(c):
    """exit phase after jettison"""
    exit_phase(c, "propogateExitPhaseD")


@contract("C17", "Vehicle.propogateExitPhaseD2", samples=40, budget=560)
def drag_exit2(c):
    """exit phase after jettison, second integrator"""
    exit_phase(c, "propogateExitPhaseD2")


PHASES = {"propogateGuidedEntry": ("propogateEquilibriumGlide", "propogateExitPhase"),
          "propogateGuidedEntry2": ("propogateEquilibriumGlide2", "propogateExitPhase2"),
          "propogateGuidedEntryD": ("propogateEntryPhaseD", "propogateExitPhaseD"),
          "propogateGuidedEntryD2": ("propogateEntryPhaseD2", "propogateExitPhaseD2")}


@contract("C17", ["Vehicle." + k for k in PHASES], samples=20)
def guided_flight(c):
    """the entry phase, then the exit phase, each with its own cycle time"""
    V = c.vehicle(dens=False)
    name = c.pick("function", list(PHASES))
    a = [c.pos("step_entry"), c.pos("step_exit"), c.pos("dt"), c.pos("tmax")]
    calls = []
    for k, nm in enumerate(PHASES[name]):
        def h(self, ts, dt, tm, k=k):
            calls.append(k)
            c.check("flown by the vehicle itself", self is V)
            c.eq("phase %d set-up" % k, [ts, dt, tm], [a[k], a[2], a[3]])
        c.stub(type(V), nm, h)
    if not name.endswith(("D", "D2")):
        a[1] = a[0]
        getattr(V, name)(a[0], a[2], a[3])
    else:
        getattr(V, name)(*a)
    c.check("entry phase, then exit phase", calls == [0, 1])


@contract("C17", "Vehicle.createDensityMeasuredFunction", samples=40)
def measured_density(c):
    """the density profile guidance predicts with: the measurements, and below them an exponential with the measured scale height"""
    V = c.vehicle(dens=False)
    P = V.planetObj
    n = c.int("n", 3, 8)
    hs, rho = c.array("heights", 60.0, 100.0, n=n, positive=True), c.array("densities", 1e-5, 1e-3, n=n, positive=True)
    low, npts = c.pos("low", 10.0, 50.0), c.int("npts", 2, 20)
    H, used = c.pos("scale_height", 5e3, 4e4), []

    def scale(self, h, f):
        used.append((self, h, f))
        return H
    c.stub(type(P), "scaleHeight", scale)
    f, hmin = V.createDensityMeasuredFunction(hs.copy(), rho.copy(), low, npts)
    m = c.arr(n - 1, lambda k: hs[k + 1] * 1000)        # the first entry is the placeholder the record starts with
    r = c.arr(n - 1, lambda k: rho[k + 1])
    c.eq("lowest measured altitude (m)", hmin, m[c.np.argmin(c.arr(n - 1, lambda k: hs[k + 1]))])
    top, bottom = c.np.max(r), c.np.min(r)
    g = c.interp(m, r, "linear", fill_value=(top, bottom), bounds_error=False)
    q = c.real("q", 0.0, 1.2e5)
    c.check("one scale height, of the vehicle's planet", len(used) == 1 and used[0][0] is P)
    c.eq("scale height at the lowest measurement", used[0][1], hmin)
    c.eq("scale height of the measured profile", used[0][2](q) + 0, g(q) + 0)
    h2 = c.arr(npts, lambda k: (hmin - 1000) + (low * 1000 - (hmin - 1000)) * k / (npts - 1))
    d2 = c.arr(npts, lambda k: g(hmin) * c.np.exp((hmin - h2[k]) / H))
    x, y = c.np.concatenate((m, h2)), c.np.concatenate((r, d2))
    full = c.interp(x, y, "linear", fill_value=(c.np.max(y), c.np.min(y)), bounds_error=False)
    if c.sym and hasattr(f, "fill_value"):
        c.eq("profile altitudes", f.x, x)
        c.eq("profile densities", f.y, y)
        c.check("linear between the points, no extrapolation", f.kind == "linear" and f.bounds_error is False)
        c.eq("above and below", list(f.fill_value), [c.np.max(f.y), c.np.min(f.y)])
    else:
        c.eq("profile at every altitude", f(q) + 0, full(q) + 0, rtol=1e-7)


@contract("C17", "Planet.scaleHeight", samples=40)
def scale_height(c):
    """density integrated from the altitude upwards over the density it falls by"""
    P = c.planet()
    f = c.fun("profile", 1, 1e-6, 1.0, 5e4, facts=lambda y: y > 0)
    h = c.rng("h", 0.0, 9.0e4)
    c.require(P.h_skip >= 100000)
    N, first = c.floor(P.h_skip / 1000), c.floor(h / 1000)
    H = P.scaleHeight(h, f)
    z = c.arr(N, lambda k: P.h_skip * k / (N - 1))
    d = c.arr(N, lambda k: f(z[k]))
    J = c.cumtrapz(d[first:], z[first:], initial=0)[-1]
    c.eq("scale height", H * (f(h) - f(P.h_skip)), J, rtol=1e-6, scale=1e3)
