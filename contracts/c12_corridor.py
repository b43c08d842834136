"""C12 entry corridor by bisection, C13 drag-modulation corridor"""
from engine.base import contract


def boundary(c, V, verdict, want, beta=None, bracket_=None):
    """the verdict as a function of the entry angle: one boundary at angle edge; checks what each trial flies"""
    edge, s = c.real("edge", -30.0, 0.0), c.pick("steep side", (1, -1))
    f = lambda g: c.ite(g < edge, s, -s)
    t_sec, dt, de, target = want
    ld0 = V.LD

    def handler(self, t1, d1, de1, tgt):
        c.eq("trial: duration", t1, t_sec)
        c.eq("trial: step", d1, dt)
        c.eq("trial: bank angle", de1, de)
        c.eq("trial: target apoapsis", tgt, target)
        if beta is not None:
            c.eq("trial: ballistic coefficient", self.beta, beta)
            c.eq("trial: drag coefficient", self.CD * beta * self.A, self.mass)
            c.eq("trial: no lift", self.CL, 0)
            c.eq("trial: no lift-to-drag", self.LD, 0)
        else:
            c.same("trial: lift-to-drag", self.LD, ld0)
        c.check("trial: vehicle itself", self is V)
        return f(self.gamma0_deg)
    c.stub(type(V), verdict, handler)
    c.template(lambda x, y: f(x) * f(y) < 0)
    if bracket_:
        lo, hi = bracket_
        mn, mx = c.ite(lo <= hi, lo, hi), c.ite(lo <= hi, hi, lo)
        c.candidate(lambda x: c.and_(mn <= x, x <= mx))
        c.candidate(lambda x: f(x) == f(lo))
        c.candidate(lambda x: f(x) == f(hi))
    return edge, s, f


def bracket(c):
    lo, hi, tol = c.real("lo", -30.0, -5.0), c.real("hi", -20.0, 0.0), c.pos("tol", 0.01, 12.0)
    return lo, hi, tol


def found(c, res, flag, lo, hi, tol, edge, f, what="limit"):
    hit = f(lo) * f(hi) < 0
    if c.branch(hit):
        c.eq(what + ": flag", flag, 1)
        c.le(what + ": within tolerance above the boundary", res - edge, tol, atol=1e-9)
        c.le(what + ": within tolerance below the boundary", edge - res, tol, atol=1e-9)
        mn, mx = c.ite(lo <= hi, lo, hi), c.ite(lo <= hi, hi, lo)
        c.check(what + ": inside the bracket", c.and_(mn <= res, res <= mx))
        c.eq(what + ": on the side of the second guess", f(res), f(hi))
    else:
        c.eq(what + ": flag", flag, 0)
        c.eq(what + ": zero", res, 0)


LIMITS = {"findOverShootLimit": ("hitsTargetApoapsis", 180), "findOverShootLimit2": ("hitsTargetApoapsis2", 180),
          "findUnderShootLimit": ("hitsTargetApoapsis", 0), "findUnderShootLimit2": ("hitsTargetApoapsis2", 0)}


@contract("C12", ["Vehicle." + k for k in LIMITS], samples=80, budget=120)
def corridor_limit(c):
    """the limit is within tolerance of the boundary between capture and escape, on the shallow side, inside the bracket"""
    V = c.vehicle(dens=False)
    t_sec, dt, target = c.pos("t_sec", 1.0, 3000.0), c.pos("dt", 0.1, 5.0), c.pos("target", 100.0, 1e4)
    lo, hi, tol = bracket(c)
    name = c.pick("function", list(LIMITS))
    verdict, de = LIMITS[name]
    edge, s, f = boundary(c, V, verdict, (t_sec, dt, de, target), None, (lo, hi))
    snap = c.snapshot(V)
    res, flag = getattr(V, name)(t_sec, dt, lo, hi, tol, target)
    c.frame("search", V, snap)
    found(c, res, flag, lo, hi, tol, edge, f)


@contract("C12", "Vehicle.computeTCW Vehicle.computeTCW2", samples=40)
def corridor_width(c):
    """overshoot limit minus undershoot limit, each searched in its own bracket with its own tolerance"""
    V = c.vehicle(dens=False)
    a = [c.real("a%d" % k) for k in range(9)]
    t_sec, dt, lo_os, hi_os, lo_us, hi_us, tol_os, tol_us, target = a
    two = c.pick("variant", ("", "2"))
    os_, us = c.real("os"), c.real("us")
    calls = []

    def h(nm, want, val):
        def handler(self, *args):
            calls.append(nm)
            c.eq(nm + ": search set-up", list(args), want)
            return val, 1.0
        return handler
    c.stub(type(V), "findOverShootLimit" + two, h("overshoot", [t_sec, dt, lo_os, hi_os, tol_os, target], os_))
    c.stub(type(V), "findUnderShootLimit" + two, h("undershoot", [t_sec, dt, lo_us, hi_us, tol_us, target], us))
    w = getattr(V, "computeTCW" + two)(*a)
    c.eq("corridor width", w, os_ - us, scale=1.0)
    c.check("one search of each limit", sorted(calls) == ["overshoot", "undershoot"])


LIMITS_D = {"findOverShootLimitD": ("hitsTargetApoapsis", False), "findOverShootLimitD2": ("hitsTargetApoapsis2", False),
            "findUnderShootLimitD": ("hitsTargetApoapsis", True), "findUnderShootLimitD2": ("hitsTargetApoapsis2", True)}


@contract("C13", ["Vehicle." + k for k in LIMITS_D] + ["Vehicle.findEFPALimitD", "Vehicle.findEFPALimitD2", "Vehicle.setDragModulationVehicleParams"],
          samples=80, budget=120)
def drag_modulation_limit(c):
    """lift-free bisection with the skirt on (overshoot: low ballistic coefficient) or jettisoned (undershoot: high)"""
    V = c.vehicle(dens=False)
    b1, ratio = c.pos("beta1", 10.0, 200.0), c.pos("betaRatio", 1.0, 20.0)
    V.setDragModulationVehicleParams(b1, ratio)
    t_sec, dt, target = c.pos("t_sec", 1.0, 3000.0), c.pos("dt", 0.1, 5.0), c.pos("target", 100.0, 1e4)
    lo, hi, tol = bracket(c)
    name = c.pick("function", list(LIMITS_D))
    verdict, after = LIMITS_D[name]
    beta = b1 * ratio if after else b1
    edge, s, f = boundary(c, V, verdict, (t_sec, dt, 0, target), beta, (lo, hi))
    snap = c.snapshot(V)
    res, flag = getattr(V, name)(t_sec, dt, lo, hi, tol, target)
    c.frame("search", V, snap, allowed=("beta", "CD"))
    found(c, res, flag, lo, hi, tol, edge, f)


@contract("C13", "Vehicle.computeTCWD Vehicle.computeTCWD2", samples=40)
def drag_modulation_width(c):
    """overshoot limit minus undershoot limit over the same bracket"""
    V = c.vehicle(dens=False)
    a = [c.real("a%d" % k) for k in range(6)]
    two = c.pick("variant", ("", "2"))
    os_, us = c.real("os"), c.real("us")
    calls = []

    def h(nm, val):
        def handler(self, *args):
            calls.append(nm)
            c.eq(nm + ": search set-up", list(args), a)
            return val, 1.0
        return handler
    c.stub(type(V), "findOverShootLimitD" + two, h("overshoot", os_))
    c.stub(type(V), "findUnderShootLimitD" + two, h("undershoot", us))
    w = getattr(V, "computeTCWD" + two)(*a)
    c.eq("corridor width", w, os_ - us, scale=1.0)
    c.check("one search of each limit", sorted(calls) == ["overshoot", "undershoot"])
