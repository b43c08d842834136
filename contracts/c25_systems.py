"""C25 launch capability, C26 communication link"""
from engine.base import contract


@contract("C25", "Launcher.__init__ Launcher.launchMass", samples=30)
def launch_mass(c):
    """payload as the interpolant of the vendor's table over C3, zero outside the table"""
    kind = c.pick("kind", ["linear", "cubic", None])
    L = c.cls("launcher", "Launcher")
    l = L("rocket", "perf.csv", kind=kind) if kind else L("rocket", "perf.csv")
    c.eq("the given file is read", c.W.loads[0], "perf.csv")
    M = c.np.loadtxt("perf.csv")
    ref = c.interp(M[:, 0], M[:, 1], kind or "linear", fill_value=0, bounds_error=False)
    C3 = c.real("C3", -1.0, 12.0)
    c.eq("payload mass", l.launchMass(C3) + 0, ref(C3) + 0)
    n = c.int("n", 1, 6)
    X = c.array("C3s", -1.0, 12.0, n=n)
    c.eq("a list of energies is evaluated entry by entry", l.launchMass(X), c.arr(n, lambda k: ref(X[k]) + 0))
    c.eq("identifier", l.ID, "rocket")


@contract("C25", "Interplanetary.__init__ Interplanetary.compute_launch_capability", samples=30)
def trajectory_launch_mass(c):
    """each trajectory of the list gets the launch mass at its own launch energy"""
    n = c.int("n", 1, 6)
    cols = {k: c.array(k, 0.0, 100.0, n=n) for k in ("LC3", "TOF", "Avinf")}
    asked = []

    class Column:
        values = ["20300101"]

    class Table:
        def __getitem__(self, k):
            return Column() if k == "Lcdate" else cols[k]
    c.external("pandas.read_excel", lambda f, sheet_name=None, **k: (asked.append((f, sheet_name)), Table())[1])
    dates = []
    c.external("pandas.to_datetime", lambda d, format=None, **k: (dates.append((list(d), format)), "dates")[1])
    I = c.cls("interplanetary", "Interplanetary")("traj", "list.xlsx", "sheet", "%Y%m%d")
    c.check("file and sheet", asked == [("list.xlsx", "sheet")])
    c.check("launch dates parsed with the given format", dates == [(["20300101"], "%Y%m%d")])
    c.eq("launch energy column", I.C3, cols["LC3"])
    c.eq("time-of-flight column", I.TOF, cols["TOF"])
    c.eq("arrival speed column", I.Avinf, cols["Avinf"])
    m = c.fun("mass", 1, 0.0, 9000.0)

    class L:
        ID = "rocket"

        def launchMass(self, C3):
            return m(C3)
    c.eq("launch mass at each launch energy", I.compute_launch_capability(L()), c.arr(n, lambda k: m(cols["LC3"][k])))


@contract("C26", "Link.__init__ Link.compute_dB Link.compute_antenna_gain Link.compute_free_space_loss_dB", samples=60)
def link_budget(c):
    """Eb/N0 = Pt Gt Gr (wavelength / 4 pi R)^2 / (k Ts R_b) less the stated losses, in dB, for dish or gain given antennas"""
    f, Pt, Ts, R, rate = c.pos("f", 0.3, 40.0), c.pos("Pt", 1.0, 50.0), c.pos("Ts", 20.0, 400.0), c.pos("range", 1e3, 4e9), c.pos("rate", 0.1, 1e4)
    Lo, req = c.real("L_other", 0.0, 4.0), c.real("req", 0.0, 12.0)
    lam = c.lit("3E8") / (f * c.lit("1E9"))
    dB = lambda x: 10 * c.np.log10(x)
    gain = lambda eta, D: dB(eta * (c.pi * D / lam) ** 2)
    k, want, dia = {}, {}, {}
    for end in "tr":
        if c.pick("antenna " + end, ["dish", "gain"]) == "dish":
            D, eta = c.pos("D" + end, 0.3, 70.0), c.pos("eta" + end, 0.3, 0.9)
            k["D" + end], k["eta_" + end] = D, eta
            want[end], dia[end] = gain(eta, D), (D, eta)
        else:
            k["G%s_dBi" % end] = want[end] = c.pick("isotropic " + end, [c.real("G" + end, -3.0, 80.0), 0.0])
    los = {}
    if c.pick("losses", [False, True]):
        los = {n: c.real(n, 0.0, 3.0) for n in ("Lt_dB", "L_sc_dB", "La_dB", "L_DSN_dB")}
    Lk = c.cls("telecom", "Link")(f, Pt, Ts, R, Lo, rate, req, **k, **los)
    g = lambda n, d: los.get(n, c.lit(d))
    Ls = 20 * c.np.log10(4 * c.pi * R * 1000 / lam)
    tot = g("Lt_dB", "1.0") + g("L_sc_dB", "0.2") + g("La_dB", "0.35") + g("L_DSN_dB", "1.0") + Lo
    kB = c.lit("1.38E-23")
    eb = dB(Pt) + want["t"] + want["r"] - Ls - tot - dB(kB) - dB(Ts) - dB(rate * 1000)
    c.eq("wavelength", Lk.wavelength, lam)
    c.eq("transmit gain", Lk.Gt_dBi, want["t"], rtol=1e-7, scale=1.0)
    c.eq("receive gain", Lk.Gr_dBi, want["r"], rtol=1e-7, scale=1.0)
    c.eq("free-space loss", Lk.Ls_dB, Ls, rtol=1e-7)
    c.eq("available Eb/N0", Lk.EB_N0, eb, rtol=1e-7, scale=100.0)
    c.eq("margin", Lk.EB_N0_margin, eb - req, rtol=1e-7, scale=100.0)
    c.eq("data rate", Lk.R, rate * 1000)
    c.eq("required Eb/N0", Lk.EB_N0_req, req)
    for end in dia:
        D, eta = dia[end]
        c.eq("dish diameter " + end, getattr(Lk, "D" + end), D)
        c.eq("dish area " + end, getattr(Lk, "A" + end), c.pi * D * D / 4)
        c.eq("dish efficiency " + end, getattr(Lk, "eta_" + end), eta)


@contract("C26", "Link.compute_data_volume", samples=40)
def data_volume(c):
    """data volume is the running integral of the rate over the time both visible and scheduled"""
    n = c.int("n", 2, 8)
    t = c.array("t", 0.0, 1e4, n=n, increasing=True)
    vis, tx = c.array("vis", 0.0, 1.0, n=n) > 0.5, c.array("tx", 0.0, 1.0, n=n) > 0.5
    Lk = c.cls("telecom", "Link")(8.4, 20.0, 100.0, 1e6, 1.0, c.pos("rate", 0.1, 1e4), 1.0, Gt_dBi=30.0, Gr_dBi=30.0)

    class Box:
        pass
    V, Sc = Box(), Box()
    V.t_array, V.visible_array, Sc.transmit_array, Sc.t_array = t, vis, tx, t
    Lk.compute_data_volume(V, Sc)
    rate = c.arr(n, lambda k: Lk.R * c.ite(vis[k], 1, 0) * c.ite(tx[k], 1, 0))
    c.eq("data volume", Lk.data_volume_array, c.cumtrapz(rate, t, initial=0), rtol=1e-7, scale=1e4)
    c.eq("times", Lk.t_array, t)


@contract("C26", "Schedule.__init__", samples=60, bounded="at most 3 transmit windows (any times, any number of samples)")
def schedule(c):
    """transmitting exactly at the sample times inside some window, ends included"""
    n, T = c.int("n", 2, 9), c.pos("T", 10.0, 1e5)
    m = c.pick("windows", [0, 1, 2, 3])
    w = [(c.real("a%d" % k, 0.0, 1e5), c.real("b%d" % k, 0.0, 1e5)) for k in range(m)]
    S = c.cls("telecom", "Schedule")(T, n, [c.vec(x) if c.pick("as array", [True, False]) else x for x in w] if m == 1 else [c.vec(x) for x in w])
    t = lambda k: T * k / (n - 1)
    c.eq("sample times", S.t_array, c.arr(n, t), rtol=1e-9, scale=T)
    inside = lambda k: c.or_(*[c.and_(a <= t(k), t(k) <= b) for a, b in w]) if w else c.not_(k == k)
    c.eq("number of samples", c.length(S.transmit_array), n)
    c.forall("transmitting exactly inside the windows", n,
             lambda k: c.and_(c.implies(S.transmit_array[k] == True, inside(k)), c.implies(inside(k), S.transmit_array[k] == True)))
