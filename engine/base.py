"""Contract registry and the parts of the contract API shared by both modes."""
REG = {}


class Contract:
    def __init__(self, fn, props, targets, samples, budget, doc, bounded):
        self.fn, self.props, self.targets = fn, props, targets
        self.samples, self.budget, self.doc, self.bounded = samples, budget, doc, bounded
        self.name = fn.__name__


def contract(props, targets, samples=12, budget=60, bounded=None):
    """props: property ids; targets: functions of the repository under contract"""
    def deco(fn):
        p = props.split() if isinstance(props, str) else list(props)
        t = targets.split() if isinstance(targets, str) else list(targets)
        assert fn.__name__ not in REG, fn.__name__
        REG[fn.__name__] = Contract(fn, p, t, samples, budget, (fn.__doc__ or "").strip(), bounded)
        return fn
    return deco


def load_all():
    import importlib
    import os
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("contracts." + f[:-3])
    return REG


class Reject(Exception):
    """the sampled input does not satisfy the precondition"""


class Common:
    # -------------------------------------------------------------- records
    PLANETS = ("VENUS", "EARTH", "MARS", "JUPITER", "SATURN", "TITAN", "URANUS", "NEPTUNE")

    def planet(self, ID=None, generic=True, dens=True):
        """a planet of arbitrary size, mass, rotation, oblateness and atmosphere"""
        P = self.cls("planet", "Planet")(ID or "VENUS")
        if ID is None:
            P.ID = self.name("planet", self.PLANETS)
        if generic:
            P.RP = self.pos("RP", 2.0e6, 8.0e7)
            P.GM = self.pos("GM", 1e13, 1e17)
            P.OMEGA = self.real("OMEGA", -2e-4, 2e-4)
            P.rho0 = self.pos("rho0", 0.02, 65.0)
            P.J2 = self.real("J2", -0.02, 0.02)
            P.J3 = self.real("J3", -0.001, 0.001)
            P.CPCV = self.pos("CPCV", 1.1, 1.6)
            P.Vref = self.np.sqrt(P.GM / P.RP)
            P.tau = P.RP / P.Vref
            P.OMEGAbar = P.OMEGA * P.tau
            P.h_skip = self.pos("h_skip", 1e5, 1e6)
            P.h_trap = self.pos("h_trap", 5e3, 5e4)
            P.h_low = self.pos("h_low", 2e4, 1e5)
            P.h_thres = self.pos("h_thres", 1e5, 1e6)
        if dens:
            P.density_int = self.fun("density", 1, 1e-6, 1.0, 5e4, facts=lambda y: y > 0)
            P.pressure_int = self.fun("pressure", 1, 1.0, 1e5, 5e4)
            P.temp_int = self.fun("temp", 1, 100.0, 800.0, 5e4)
            P.sonic_int = self.fun("sonic", 1, 150.0, 400.0, 5e4)
        self.track(P)
        return P

    def vehicle(self, P=None, state=True, **k):
        P = P if P is not None else self.planet(**k)
        V = self.cls("vehicle", "Vehicle")("veh", self.pos("mass", 50.0, 5000.0), self.pos("beta", 20.0, 500.0),
                                          self.rng("LD", 0.0, 0.6), self.pos("A", 0.5, 30.0), self.real("alpha", -0.5, 0.5),
                                          self.pos("RN", 0.1, 3.0), P)
        if state:
            V.setInitialState(self.pos("h0_km", 50.0, 900.0), self.real("theta0", -180.0, 180.0), self.real("phi0", -80.0, 80.0),
                              self.pos("v0", 3.0, 30.0), self.real("psi0", -180.0, 180.0), self.real("gamma0", -80.0, 60.0),
                              self.real("drange0", 0.0, 500.0), self.real("heat0", 0.0, 100.0))
            V.setSolverParams(self.pos("tol", 1e-8, 1e-5))
        self.track(V)
        return V

    def frame(self, label, obj, before, allowed=()):
        """nothing reachable from obj outside `allowed` changed"""
        after = self.snapshot(obj)
        for k in sorted(set(before) | set(after), key=str):
            if any(k == a or (isinstance(a, str) and k.split(".")[-1] == a) or (a.endswith(".*") and k.startswith(a[:-1])) for a in allowed):
                continue
            if k not in before or k.split(".")[-1] in ("CD1", "CD_vec"):
                continue        # new attributes and work arrays are not observable behaviour
            if k not in after:
                self.check("%s: %s unchanged" % (label, k), False)
                continue
            self.same("%s: %s unchanged" % (label, k), before[k], after[k])
