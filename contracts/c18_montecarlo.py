"""C18 Monte Carlo: every run is a flight of the reference vehicle under that run's own draws, and is recorded as such"""
from engine.base import contract
from .c17_guided import guided_vehicle

# function -> (drag modulation, Earth atmosphere files, flight, heat load in kJ)
RUNS = {"runMonteCarlo": (False, False, "propogateGuidedEntry", False), "runMonteCarlo2": (False, False, "propogateGuidedEntry2", True),
        "runMonteCarloD": (True, False, "propogateGuidedEntryD", False), "runMonteCarloD2": (True, False, "propogateGuidedEntryD2", True),
        "runMonteCarloD_Earth": (True, True, "propogateGuidedEntryD", False)}
RESULTS = ["terminal_apoapsis", "terminal_periapsis", "periapsis_raise_DV", "apoapsis_raise_DV", "acc_net_g_max", "q_stag_max", "heatload_max"]
RECORD = ["terminal_apoapsis", "terminal_periapsis", "periapsis_raise_DV", "apoapsis_raise_DV", "apoapsis_error"]
FLOWN = {"h0_km", "theta0_deg", "phi0_deg", "v0_kms", "psi0_deg", "gamma0_deg", "drange0_km", "heatLoad0", "beta", "CD", "vehicleCopy"}


def monte_carlo(c, name):
    drag, earth, flight, kilo = RUNS[name]
    V, P = guided_vehicle(c, drag)
    files = ["atm-a.txt", "atm-b.txt"]
    cols = [c.int(k, 0, 5) for k in (("hcol", "acol", "sdcol", "tcol") if earth else ("hcol", "lcol", "acol", "ucol", "tcol"))]
    npos, nmonte = c.int("NPOS", 1, 40), c.int("NMONTE", 1, 100)
    km = c.boolean("km")
    efpa, efpa1, nom, nom1 = c.real("EFPA", -20.0, -5.0), c.pos("EFPA_1sigma", 0.01, 1.0), c.pos("nominal", 0.1, 1.0), c.pos("nominal_1sigma", 0.01, 0.1)
    steps = [c.pos("timeStep", 0.1, 10.0), c.pos("dt", 0.1, 1.0), c.pos("maxTime", 100.0, 3000.0)]
    if drag:
        steps.insert(1, c.pos("timeStepExit", 0.1, 10.0))
        (V.setupMonteCarloSimulationD_Earth if earth else V.setupMonteCarloSimulationD)(npos, nmonte, files, *cols, km, efpa, efpa1, nom, nom1, *steps)
        factor = 1
    else:
        factor = c.pos("atmSigmaFactor", 0.1, 2.0)
        V.setupMonteCarloSimulation(npos, nmonte, files, *cols, km, efpa, efpa1, nom, nom1, *steps, factor)
    ref = dict(h0_km=V.h0_km, theta0_deg=V.theta0_deg, phi0_deg=V.phi0_deg, v0_kms=V.v0_kms, psi0_deg=V.psi0_deg, drange0_km=V.drange0_km,
               heatLoad0=V.heatLoad0)
    # other flights may have come between set-up and campaign
    for nm in ref:
        setattr(V, nm, c.real("later_" + nm, 1.0, 2.0))
    own = ("beta1",) if drag else ("LD", "CL")
    fixed = {k: x for k, x in V.__dict__.items() if k not in FLOWN and k not in own and not k.endswith(("_ref", "_full")) and x is not P}
    before = {k: getattr(V, k) for k in own}
    N = c.int("N", 1, 4)
    done = []                     # what each run did, in the order of the runs
    now = [0]
    known = {}
    value = {k: c.fun("run_" + k, 1, 1.0, 2.0) for k in RESULTS + ["apoapsis_error"]}

    def result(k, j):
        return known[k, int(j)] if not c.sym and (k, int(j)) in known else value[k](j)

    def load(self, f, *a):
        c.check("atmosphere: the vehicle's planet", self is P)
        c.eq("atmosphere: columns", list(a[:-1]), cols)
        c.check("atmosphere: height unit", a[-1] is km or a[-1] == km)
        out = tuple(object() for _ in range(5))
        R.loads.append((f, out))
        return out

    def model(self, h, lo, av, hi, pert, sigma, n, prof):
        out = object()
        c.eq("atmosphere: profile length", n, npos)
        R.models.append(((h, lo, av, hi, pert), sigma, prof, out))
        return out

    def fly(self, *a):
        R.flights.append((self is V, a, {k: getattr(V, k) for k in list(ref) + ["gamma0_deg"] + list(own)}, P.density_int,
                          {k: getattr(V, k) for k in fixed}))
        k = now[0] if c.sym else len(done) + len(R.flights) - 1
        for nm in RECORD:
            setattr(V, "apoapsis_perc_error" if nm == "apoapsis_error" else nm, value[nm](k))
        n = c.fresh_len("samples", 2, 6)
        V.acc_net_g_full, V.q_stag_total_full, V.heatload_full = (c.fresh_array(x, n, 0.0, 5.0) for x in ("acc", "q", "J"))
        V.t_min_full = c.fresh_array("t", n, 0.0, 5.0)
        J = V.heatload_full
        if kilo:
            J = c.cumtrapz(V.q_stag_total_full, V.t_min_full * 60, initial=0) / 1000
        for nm, x in (("acc_net_g_max", V.acc_net_g_full), ("q_stag_max", V.q_stag_total_full), ("heatload_max", J)):
            if c.sym:
                c.given(value[nm](k) == c.np.max(x))
            else:
                known[nm, k] = c.np.max(x)
        # the flight leaves the vehicle where it ended, and drag modulation flights without the drag skirt
        for nm in FLOWN - {"vehicleCopy", "beta", "CD"}:
            setattr(V, nm, c.fresh("end_" + nm))
        if drag:
            V.beta, V.CD = c.fresh("end_beta"), c.fresh("end_CD")
        R.ended.append(len(c.W.draws))

    class R:
        loads, models, flights, ended = [], [], [], []

    def begin(k):
        now[0] = k
        written.clear()
        for l in (R.loads, R.models, R.flights, R.ended):
            del l[:]

    def run(k, loads, models, flights, draws, saved, dirs):
        """what run k (counted from 0) must have done"""
        c.check("one flight per run", len(flights) == 1)
        me, a, state, dens, conf = flights[0]
        c.check("flown by the vehicle itself", me)
        c.eq("flight: steps and duration", list(a), steps)
        for nm, x in ref.items():
            c.eq("run starts from the reference " + nm, state[nm], x)
        for nm, x in fixed.items():
            c.same("run flies the vehicle as set up: " + nm, conf[nm], x)
        m = [m for m in models if m[3] is dens]
        c.check("run flies the atmosphere it drew", len(m) == 1)
        arrs, sigma, prof, _ = m[0]
        l = [f for f, out in loads if all(x is y for x, y in zip(out, arrs))]
        c.check("atmosphere built from one file, columns in order", len(l) == 1)
        # the draws of this run: each quantity has its own
        normal = [(d[1], d[2], v) for d, v in draws if d[0] == "normal"]
        pick = [v for d, v in draws if d[0] == "choice" and d[1] is files]
        roll = [(d, v) for d, v in draws if d[0] == "randint"]
        c.check("atmosphere file drawn in this run", any(l[0] is f or l[0] == f for f in pick))
        c.check("profile drawn uniformly in this run", c.or_(*[c.and_(prof == v, d[1] == 1, d[2] == nmonte) for d, v in roll]))
        used = [("entry angle", state["gamma0_deg"], efpa, efpa1), ("density scatter", sigma, 0, factor)]
        used.append(("beta1", state["beta1"], nom, nom1) if drag else ("L/D", state["LD"], nom, nom1))
        taken = []
        for nm, x, mu, s in used:
            hit = [j for j, (loc, sc, v) in enumerate(normal) if j not in taken and v is x]
            if not hit:
                hit = [j for j, (loc, sc, v) in enumerate(normal) if j not in taken and not c.sym and v == x]
            c.check("%s drawn in this run, independently" % nm, bool(hit))
            if hit:
                taken.append(hit[0])
                loc, sc, v = normal[hit[0]]
                c.eq("%s: mean" % nm, loc, mu, scale=1.0)
                c.eq("%s: 1-sigma" % nm, sc, s)
        if not drag:
            c.eq("lift coefficient of the drawn L/D", state["CL"], state["LD"] * V.CD)
        # the record
        folder = "mc-out/#%s" % (k + 1)
        c.check("run folder", any(c.samestr(d, folder) for d in dirs))

        def entry(nm):
            out = [x for f, x in saved if c.samestr(f, folder + "/" + nm + ".txt")]
            c.check("run record has " + nm, bool(out))
            return out[-1] if out else None
        f = entry("atmfile")
        if f is not None:
            c.check("recorded atmosphere file", len(f) == 1 and str(f[0]) == l[0])
        for nm, x in [("profile", prof), ("efpa", state["gamma0_deg"]), ("atmSigma", sigma)] + ([] if drag else [("LD", state["LD"])]) + \
                [(q, value[q](k)) for q in RECORD]:
            d = entry(nm)
            if d is not None:
                c.check("recorded %s: one value" % nm, c.length(d) == 1)
                c.eq("recorded " + nm, d[0], x)
        stats(k + 1, saved, "after the run")

    written = set()
    G = c.ghost(**{nm: 0 for nm in RESULTS})

    def stats(k, saved, when):
        """the statistics files hold the results of the first k runs, row by row"""
        for nm in RESULTS:
            out = [x for f, x in saved if c.samestr(f, "mc-out/" + nm + "_arr.txt")]
            if out:
                written.add(nm)
                if c.sym:
                    setattr(G, nm, 1)
                c.check("%s: one row per run, %s" % (nm, when), c.length(out[-1]) == N)
                c.forall("%s: rows are the runs, %s" % (nm, when), k, lambda j: c.close(out[-1][j], result(nm, j)))

    def end(k):
        run(k, R.loads, R.models, R.flights, with_values(c.W.draws, c.W.vals, 0), list(c.W.files), list(c.W.dirs))

    def with_values(draws, vals, first):
        v = dict(vals)
        return [(d, v[j]) for j, d in enumerate(draws) if j >= first and j in v]
    cls = type(P)
    c.stub(cls, "loadMonteCarloDensityFile3" if earth else "loadMonteCarloDensityFile2", load)
    c.stub(cls, "loadAtmosphereModel5", model)
    c.stub(type(V), flight, fly)
    c.runs(begin, end, [lambda j, nm=nm: value[nm](j) for nm in RESULTS])
    getattr(V, name)(N, "mc-out")
    written.clear()
    if not c.sym:
        draws = with_values(c.W.draws, c.W.vals, 0)
        c.eq("number of runs", len(R.flights), N)
        first = 0
        for k in range(len(R.flights)):
            mine = draws[first:R.ended[k]]
            first = R.ended[k]
            run(k, R.loads[k:k + 1], R.models[k:k + 1], R.flights[k:k + 1], mine,
                [x for x in c.W.files if "/#" in x[0]], c.W.dirs)
    stats(N, [x for x in c.W.files if isinstance(x[0], str)], "at the end")
    for nm in RESULTS:
        c.check("statistics written: " + nm, nm in written or getattr(G, nm) == 1)
    for k, x in before.items():
        c.same("vehicle as set up afterwards: " + k, getattr(V, k), x)


def register(name):
    def go(c):
        monte_carlo(c, name)
    go.__name__ = name
    go.__doc__ = "Monte Carlo runs of " + RUNS[name][2]
    kind = "" if not RUNS[name][0] else "D_Earth" if RUNS[name][1] else "D"
    contract("C18", "Vehicle.%s Vehicle.setupMonteCarloSimulation%s Vehicle.setInitialState" % (name, kind), samples=12, budget=120)(go)


for _name in RUNS:
    register(_name)
