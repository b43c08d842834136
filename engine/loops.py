"""Loop rules.  Loops over data of known size run as they are.  Loops of unknown length:
  map rule    `for` bodies that write element i from element i (plus counters / temporaries / appends)
  while rule  inductive invariants: candidates (template instances over the state the body changes) are
              established by the first iteration and preserved by an arbitrary one; a candidate that is not
              is dropped and the whole exploration starts over (Houdini), so what is used is inductive."""
from . import terms as tm
from . import arrays as ar
from .terms import T, S, TRUE, FALSE, lift, num, add, sub, mul, ite, le, lt, eq, band, bor, bnot, Unsupported
from .arrays import A1, M2, SList, val, lam
from .core import E_, PathEnd, RestartAll
from .shim import symbolic_iter, iter_len, iter_at, W


class Poison:
    def __init__(self, name):
        object.__setattr__(self, "_nm", name)

    def _bad(self, *a, **k):
        raise Unsupported("loop-carried value of %s" % object.__getattribute__(self, "_nm"))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self._bad()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __getitem__ = __setitem__ = __len__ = __iter__ = _bad
    __call__ = __neg__ = __abs__ = __float__ = __int__ = __index__ = __and__ = __or__ = _bad
    __hash__ = object.__hash__

    def __deepcopy__(self, m):
        return self


class Opaque:
    """an object the loop replaces; may be passed around, not used"""

    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, m):
        return self


class Ghost:
    """specification-only state"""

    def __deepcopy__(self, m):
        return self


ROOTS = []
TEMPLATES = []      # pair templates supplied by the contract: fn(x: S, y: S) -> T or None
UNARY = []          # supplied by the contract: fn(x: S) -> candidate about one scalar the loop changes
RUNS = []           # supplied by the contract: (begin, end, row functions) of loops verified by the inductive rule
STATE = []          # supplied by the contract: fn() -> candidate about the whole state (read from ghost state and objects)


def is_obj(v):
    if type(v) is dict:
        return bool(v) and all(isinstance(k, str) for k in v)
    m = type(v).__module__ or ""
    return (m.startswith("AMAT") or isinstance(v, Ghost)) and hasattr(v, "__dict__")


def heap(locs):
    """path -> object, for AMAT objects reachable from locals and roots"""
    out, seen = {}, set()
    todo = [(("root%d" % i,), o) for i, o in enumerate(ROOTS)] + [((k,), v) for k, v in sorted(locs.items())]
    while todo:
        p, v = todo.pop(0)
        if id(v) in seen:
            continue
        if is_obj(v):
            seen.add(id(v))
            if type(v) is dict:
                d, v = v, Ghost()
                v.__dict__ = d
            out[p] = v
            for k, w in list(v.__dict__.items()):
                if is_obj(w):
                    todo.append((p + (k,), w))
    return out


class Snap:
    def __init__(self, locs):
        self.locs = dict(locs)
        self.objs = heap(locs)
        self.attrs = {p: dict(o.__dict__) for p, o in self.objs.items()}
        self.arrs = {}
        self.lists = {}
        for d in [self.locs] + list(self.attrs.values()):
            for v in d.values():
                if isinstance(v, A1):
                    self.arrs[id(v)] = (v, v.items[:] if v.items is not None else None, v._n, v._f, v.ver)
                elif isinstance(v, list):
                    self.lists[id(v)] = (v, v[:])
        self.held = [(a, a.ver) for v, c in self.lists.values() for a in c if isinstance(a, A1)]
        self.w = {k: list(getattr(W, k)) for k in ("ode", "files", "dirs", "draws", "loads", "interps", "vals")}

    def restore(self, setter):
        setter(self.locs)
        for p, o in self.objs.items():
            o.__dict__.clear()
            o.__dict__.update(self.attrs[p])
        for v, it, n, f, ver in self.arrs.values():
            v.items = it[:] if it is not None else None
            v._n, v._f, v.ver, v.memo = n, f, ver, {}
            v.stores = []
        for v, c in self.lists.values():
            v[:] = c
        for k, l in self.w.items():
            getattr(W, k)[:] = l

    def entries(self):
        d = {("L", k): v for k, v in self.locs.items()}
        for p, a in self.attrs.items():
            for k, v in a.items():
                d[("H", p, k)] = v
        return d


def changed(a, b):
    """entries of snapshot b that differ from a (rebinding or in-place change)"""
    ea, eb = a.entries(), b.entries()
    out = []
    if any(x.ver != ver for x, ver in a.held):
        raise Unsupported("loop writes an array held in a list")
    for k, v in eb.items():
        if k not in ea or not same_value(ea[k], v):
            out.append(k)
        elif isinstance(v, A1) and id(v) in a.arrs and a.arrs[id(v)][4] != v.ver:
            out.append(k)
        elif isinstance(v, list) and id(v) in a.lists and not same_list(a.lists[id(v)][1], v):
            out.append(k)
    return out


def same_list(x, y):
    return len(x) == len(y) and all(p is q or same_value(p, q) for p, q in zip(x, y))


def same_value(x, y):
    if x is y:
        return True
    if isinstance(x, S) and isinstance(y, S):
        return x.t is y.t
    if isinstance(x, (int, float, str, bool)) and type(x) is type(y):
        return x == y
    a, b = lift(x), lift(y)
    return a is not None and a is b


def native(it, body):
    for x in it:
        r = body(x)
        if r:
            if r[0] == "break":
                return None
            if r[0] == "return":
                return r
    return None


def with_roots(f):
    def g(x, body, get, setter, site, scope):
        extra = [v for k, v in sorted(scope.items()) if is_obj(v) and not any(v is r for r in ROOTS)]
        m = len(ROOTS)
        ROOTS.extend(extra)
        try:
            return f(x, body, get, setter, site)
        finally:
            del ROOTS[m:]
    return g


@with_roots
def forloop(it, body, get, setter, site):
    if isinstance(it, SList):
        it = it.arr()
    if not symbolic_iter(it):
        return native(it, body)
    if RUNS:
        return runloop(it, body, get, setter, site)
    return maploop(it, body, get, setter, site)


def runloop(it, body, get, setter, site):
    """for loop whose iterations act on the world: the inductive rule; the contract states what one iteration must do"""
    n = iter_len(it)
    begin, end, rows = RUNS[-1]
    ctr = Ghost()
    ctr.i = S(num(0))
    ROOTS.append(ctr)
    size = len(ROOTS) - 1
    key = ("H", ("root%d" % size,), "i")    # candidates outlive this execution: they find the counter in the state

    def one(_):
        i = ctr.i
        begin(i)
        r = body(iter_at(it, lift(i)))
        if r:
            return r
        end(i)
        ctr.i = S(ar.simp_int(add(lift(i), num(1))))
        return None

    def extra(mods, entry_vals):
        out = [Cand("0 <= runs", lambda st, e: le(num(0), lift(st(key)))), Cand("runs <= n", lambda st, e: le(lift(st(key)), n))]
        for k in sorted(mods, key=str):
            if mods[k] != "A":
                continue
            a = entry_vals.get(k)
            if isinstance(a, A1):
                nn = a.n
                out.append(Cand("len(%s) kept" % (k,), lambda st, e, k=k, nn=nn: eq(st(k).n, nn) if isinstance(st(k), A1) else None))
                for q, f in enumerate(rows):
                    out.append(Rows(k, q, f, key))
        return out
    try:
        return dowhile(lambda: S(lt(lift(ctr.i), n)), one, get, setter, site, extra)
    finally:
        del ROOTS[size:]


def listcomp(fn, it, cond):
    if isinstance(it, SList):
        it = it.arr()
    if not symbolic_iter(it):
        out = []
        for x in it:
            if cond is None or cond(x):
                out.append(fn(x))
        return out
    if cond is not None:
        raise Unsupported("filtered comprehension over symbolic data")
    n = iter_len(it)
    return SList(A1(n, lambda i: merged(lambda: fn(iter_at(it, i)))))


def merged(f):
    """value of f() with the branches it takes folded into if-then-else"""
    res = E_.sub_explore(lambda: lift(f()))
    if any(v is None for _, _, v in res):
        raise Unsupported("non-scalar comprehension element")
    r = res[-1][2]
    for conds, _, v in reversed(res[:-1]):
        r = ite(band(*conds), v, r)
    return S(r)


def maploop(it, body, get, setter, site):
    n = iter_len(it)
    base = Snap(get())
    i = E_.fresh("i%d" % site, "I")
    fr0 = dict(E_.fresh_n)

    # pass 1: what does an iteration change?
    def run(prep):
        def go():
            base.restore(setter)
            prep()
            E_.assume(band(le(num(0), i), lt(i, n)))
            code = body(iter_at(it, i))
            if code:
                raise Unsupported("break/return in a loop over symbolic data")
            after = Snap(get())
            res = {}
            for k in changed(base, after):
                v = after.entries()[k]
                if isinstance(v, A1):
                    res[k] = ("arr", v, list(getattr(v, "stores", [])), v.items, getattr(v, "grown", None))
                elif isinstance(v, list):
                    old = base.entries().get(k)
                    res[k] = ("list", v, v[:], len(base.lists[id(old)][1]) if isinstance(old, list) and old is v else None)
                else:
                    res[k] = ("val", v)
            if [len(getattr(W, q)) for q in base.w] != [len(v) for v in base.w.values()]:
                res["$world"] = ("world", {q: getattr(W, q)[len(base.w[q]):] for q in base.w})
            return res
        return E_.sub_explore(go)

    first = run(lambda: None)
    keys = []
    for _, _, r in first:
        for k in r:
            if k not in keys:
                keys.append(k)
    be = base.entries()
    arrs = [k for k in keys if any(k in r and r[k][0] == "arr" and be.get(k) is r[k][1] for _, _, r in first)]
    vals = [k for k in keys if k not in arrs and k != "$world"]
    lists = [k for k in vals if any(k in r and r[k][0] == "list" and r[k][3] is not None for _, _, r in first)]
    vals = [k for k in vals if k not in lists]
    # arrays grown by one element per iteration: a = np.append(a, x)
    grows = [k for k in vals if isinstance(be.get(k), A1) and
             all(k in r and r[k][0] == "arr" and r[k][4] is not None and r[k][4][0] is be[k] for _, _, r in first)]
    vals = [k for k in vals if k not in grows]
    # counters: value after = value before + constant
    induct = {}
    for k in vals:
        b = lift(be.get(k))
        if b is None or b.sort not in "RI":
            continue
        step = None
        for _, _, r in first:
            if k not in r:
                d = num(0)
            else:
                a = lift(r[k][1]) if r[k][0] == "val" else None
                if a is None:
                    break
                d = sub(a, b)
                dd = ar.poly_int(d) if d.sort == "I" else (tm.nv(d) if tm.isnum(d) else None)
                if dd is None:
                    break
                d = num(dd)
            if step is not None and step is not d:
                break
            step = d
        else:
            if step is not None:
                induct[k] = (b, step)

    def put(k, v):
        if k[0] == "L":
            d = get()
            d[k[1]] = v
            setter(d)
        else:
            base.objs[k[1]].__dict__[k[2]] = v

    havoc = {}
    for k in arrs:
        a = be[k]
        nm = "$hv%d_%s" % (site, k[-1])
        havoc[k] = nm
    marks = {}

    def prep():
        for k in grows:
            a = be[k]
            nm = "$hv%d_g%s" % (site, k[-1])
            marks[k] = A1(add(base.arrs[id(a)][2] if base.arrs[id(a)][1] is None else num(len(base.arrs[id(a)][1])), i),
                          lambda j, nm=nm: S(tm.app(nm, (j,))))
            marks[k].mark = k
            put(k, marks[k])
        for k in vals:
            if k in induct:
                b, st = induct[k]
                put(k, S(ar.simp_int(add(b, mul(st, i))) if b.sort == "I" and st.sort == "I" else add(b, mul(st, i))))
            elif k in be:
                put(k, Poison(k[-1]))
        for k in arrs:
            a = be[k]
            nn = base.arrs[id(a)][2] if base.arrs[id(a)][1] is None else num(len(base.arrs[id(a)][1]))
            a._n, a._f, a.items, a.memo, a.stores = nn, (lambda j, nm=havoc[k]: S(tm.app(nm, (j,)))), None, {}, []

    second = run(prep)
    for _, _, r in second:
        for k in r:
            if k not in keys:
                raise Unsupported("loop writes %s on some iterations only" % (k,))
            if k in induct:
                b, st = induct[k]
                want = add(b, mul(st, add(i, num(1))))
                got = lift(r[k][1])
                if got is None or not E_.ctx(E_.pc, E_.univ).zero(sub(got, want)):
                    raise Unsupported("loop counter")
    base.restore(setter)
    # names created inside the body depend on the iteration
    newvars = set()
    for nm, c in E_.fresh_n.items():
        for q in range(fr0.get(nm, 0), c):
            newvars.add(nm if q == 0 else "%s#%d" % (nm, q))

    def close(t):
        m = {}
        for u in tm.subterms(t):
            if u.op == "var" and u.args[0] in newvars:
                m[u] = tm.app("@" + u.args[0], (i,), u.sort)
        return tm.subst(t, m) if m else t

    def fold(sel, absent):
        """merge a per-path term"""
        r = None
        for conds, _, res in reversed(second):
            v = sel(res)
            if v is None:
                v = absent
            if v is None:
                raise Unsupported("value set on some paths of a loop body only")
            r = v if r is None else ite(band(*[close(c) for c in conds]), close(v), r)
        return close(r)

    for k in arrs:
        a = be[k]
        old = A1(0, items=base.arrs[id(a)][1]) if base.arrs[id(a)][1] is not None else A1(base.arrs[id(a)][2], base.arrs[id(a)][3])
        off = None
        for _, _, res in second:
            for j, _v in (res[k][2] if k in res else []):
                p = ar.lin(sub(j, i))
                if p is None or any(u is i for u in p[1]) or any(u.op == "app" and str(u.args[0]).startswith("$hv") for t in p[1] for u in tm.subterms(t)):
                    raise Unsupported("indexed write at a non-loop index")
                o = ar.simp_int(sub(j, i))
                if off is not None and off is not o:
                    raise Unsupported("writes at several offsets")
                off = o
        if off is None:
            raise Unsupported("array %s changed without indexed writes" % k[-1])
        oldat = lambda j: lift(old.at(j))
        pos = ar.simp_int(add(i, off))

        def sel(res):
            if k not in res or not res[k][2]:
                return None
            return res[k][2][-1][1]
        v = fold(sel, oldat(pos))
        m = {}
        for u in tm.subterms(v):
            if u.op == "app" and isinstance(u.args[0], str) and u.args[0].startswith("$hv"):
                if u.args[0] == havoc[k] and ar.poly_int(sub(u.args[1], pos)) == 0:
                    m[u] = oldat(pos)
                else:
                    raise Unsupported("loop-carried array dependence")
        if m:
            v = tm.subst(v, m)

        def f(j, v=v, off=off, old=old):
            q = ar.simp_int(sub(j, off))
            w = tm.subst(v, {i: q})
            inr = band(le(num(0), q), lt(q, n))
            if tm.isnum(off) and tm.nv(off) == 0 and old.n is n:
                return S(w)
            return S(ite(inr, w, lift(old.at(j))))
        a.items, a._n, a._f, a.memo = None, old.n, f, {}
        a.ver += 1
    for k in lists:
        a = be[k]

        def sel(res):
            if k not in res:
                return None
            app = res[k][2][res[k][3]:]
            if len(app) != 1:
                raise Unsupported("loop appends %d elements" % len(app))
            return lift(app[0])
        v = fold(sel, None)
        lst = SList(ar.concat([A1(0, items=[val(x) for x in base.lists[id(a)][1]]),
                               A1(n, lambda j, v=v: S(tm.subst(v, {i: j})))]))
        put(k, lst)
    for k in grows:
        a = be[k]

        def sel(res):
            g = res[k][4] if k in res and res[k][0] == "arr" else None
            if g is None or getattr(g[0], "mark", None) != k or len(g[1]) != 1:
                raise Unsupported("array %s not grown by one element per iteration" % k[-1])
            return lift(g[1][0])
        v = fold(sel, None)
        if any(u.op == "app" and str(u.args[0]).startswith("$hv") for u in tm.subterms(v)):
            raise Unsupported("loop-carried array dependence")
        put(k, ar.concat([A1(0, items=base.arrs[id(a)][1]) if base.arrs[id(a)][1] is not None else A1(base.arrs[id(a)][2], base.arrs[id(a)][3]),
                          A1(n, lambda j, v=v: S(tm.subst(v, {i: j})))]))
    some = E_.entailed(le(num(1), n))
    for k in vals:
        if k in induct:
            b, st = induct[k]
            put(k, S(ar.simp_int(add(b, mul(st, n))) if b.sort == "I" and st.sort == "I" else add(b, mul(st, n))))
            continue
        try:
            if some is not True:
                raise Unsupported("maybe empty")

            def sel(res):
                if k not in res:
                    return None
                x = lift(res[k][1]) if res[k][0] == "val" else None
                if x is None:
                    raise Unsupported("object")
                return x
            v = fold(sel, lift(be.get(k)) if k in be else None)
            if any(u.op == "app" and str(u.args[0]).startswith("$hv") for u in tm.subterms(v)):
                raise Unsupported("carried")
            put(k, S(tm.subst(v, {i: sub(n, num(1))})))
        except Unsupported:
            put(k, Poison(k[-1]))
    if any("$world" in r for _, _, r in second):
        E_.worldloops = getattr(E_, "worldloops", [])
        W.files.append(("$loop", second, i, n))
    return None


# ====================================================================== while
def lookup(k, locs, objs):
    if k[0] == "L":
        return locs.get(k[1])
    o = objs.get(k[1])
    return o.__dict__.get(k[2]) if o is not None else None


def kind(v):
    t = lift(v)
    if t is not None:
        return t.sort
    if isinstance(v, A1):
        return "A"
    if v is None:
        return None
    return "O"


def scalar_exprs(keys, kinds):
    """(name, fn(state) -> T) for the scalar expressions candidates talk about"""
    out = []
    for k in keys:
        if kinds[k] in ("R", "I"):
            out.append((k, lambda st, k=k: lift(st(k)), kinds[k]))
        elif kinds[k] == "A":
            def last(st, k=k):
                a = st(k)
                if not isinstance(a, A1):
                    return None
                return lift(a.at(ar.simp_int(sub(a.n, num(1)))))
            out.append((("last", k), last, "R"))
            out.append((("len", k), (lambda st, k=k: st(k).n if isinstance(st(k), A1) else None), "I"))
    return out


def dowhile(test, body, get, setter, site, extra=None):
    # concrete loop?
    guard = 0
    while True:
        c = test()
        ct = lift(c) if not isinstance(c, bool) else None
        if isinstance(c, bool) or (ct is not None and ct in (TRUE, FALSE)) or c is None:
            if not c:
                return None
            guard += 1
            if guard > 400:
                raise Unsupported("long concrete loop")
            r = body(None)
            if r:
                return r if r[0] == "return" else None
            continue
        break
    if not bool(c):
        return None
    entry = Snap(get())
    ls = E_.loopstate.setdefault(site, {"mod": None, "cands": None, "dropped": set()})
    if ls["mod"] is None:
        mods = {}

        def go():
            entry.restore(setter)
            r = body(None)
            after = Snap(get())
            ch = changed(entry, after)
            return ch, after, r, {k: kind(after.entries()[k]) for k in ch}
        outs = E_.sub_explore(go)
        entry.restore(setter)
        for _, _, (ch, after, r, kd) in outs:
            for k in ch:
                e = entry.entries().get(k)
                ke = kind(e)
                if k not in mods or mods[k] is None:
                    mods[k] = kd[k]
                if ke is not None and kd[k] != ke and {ke, kd[k]} <= {"R", "I"}:
                    mods[k] = "R"
        ls["mod"] = mods
    mods = ls["mod"]
    entry_vals = {k: v for k, v in entry.entries().items()}
    if ls["cands"] is None:
        ls["cands"] = make_cands(mods, entry_vals) + (extra(mods, entry_vals) if extra else [])
    entry_state = lambda k: entry_vals.get(k)

    def check(label):
        locs = get()
        objs = heap(locs)
        now = Snap(locs)
        for k in changed(entry, now) if label == "first" else changed(hav[0], now):
            if k not in mods:
                mods[k] = kind(now.entries()[k])
                ls["cands"] = None
                raise RestartAll()
            kk = kind(now.entries()[k])
            if kk != mods[k] and kk is not None:
                if {kk, mods[k]} <= {"R", "I"} and mods[k] != "R":
                    mods[k] = "R"
                    ls["cands"] = None
                    raise RestartAll()
                if mods[k] is None:
                    mods[k] = kk
                    ls["cands"] = None
                    raise RestartAll()
        st = lambda k: lookup(k, locs, objs)
        bad = []
        for c in ls["cands"]:
            g = c.inst(st, entry_state)
            if g is TRUE:
                continue
            if g is None or (c.equality and not plausible(g)) or not quick(g):
                bad.append(c)
        if bad:
            gone = {id(b) for b in bad}
            ls["cands"] = [c for c in ls["cands"] if id(c) not in gone]
            raise RestartAll()

    def quick(g):
        key = (g, tuple(E_.pc), len(E_.univ))
        if key not in QMEMO:
            QMEMO[key] = E_.prove(g, list(E_.pc), list(E_.univ), ms=1500) is not None
        return QMEMO[key]

    if E_.choose():
        r = body(None)
        if r:
            return r if r[0] == "return" else None
        check("first")
        raise PathEnd()
    # arbitrary later iteration boundary
    locs = dict(entry.locs)
    for k, kd in mods.items():
        nm = "%s@%d" % (k[-1], site)
        old = entry_vals.get(k)
        if kd in ("R", "I"):
            v = S(E_.fresh(nm, kd))
        elif kd == "B":
            v = S(E_.fresh(nm, "B"))
        elif kd == "A":
            nn = E_.fresh("len(" + nm + ")", "I")
            E_.assume(le(num(0), nn))
            v = A1(nn, lambda i, nm=nm: S(tm.app("el(" + nm + ")", (i,))))
        elif isinstance(old, (str, bool)) or old is None and kd is None:
            v = Opaque(nm)
        else:
            v = Opaque(nm)
        if k[0] == "L":
            locs[k[1]] = v
        else:
            o = entry.objs.get(k[1])
            if o is not None:
                o.__dict__[k[2]] = v
    setter(locs)
    hav = [Snap(get())]
    objs = heap(get())
    st = lambda k: lookup(k, locs, objs)

    def put(k, v):
        if k[0] == "L":
            locs[k[1]] = v
        else:
            o = objs.get(k[1])
            if o is not None:
                o.__dict__[k[2]] = v
    for c in ls["cands"]:
        g = c.inst(st, entry_state)
        if g is not None:
            c.assume(g, st, put)
    setter(locs)
    hav = [Snap(get())]
    if not bool(test()):
        return None
    r = body(None)
    if r:
        return r if r[0] == "return" else None
    check("step")
    raise PathEnd()


whileloop = with_roots(dowhile)


def plausible(g):
    """an equality that fails at most random points is not tried (dropping a candidate is always sound)"""
    from .congr import Probe
    from .evalnum import Bad
    if g.op == "or":
        g = g.args[-1] if g.args[-1].op == "eq" else g
    g = E_.apply_eqs(g, E_.pc)
    wrong = tried = 0
    for k in range(31, 39):
        try:
            ok = bool(Probe(k, E_.ranges).ev(g))
        except (Bad, OverflowError, ZeroDivisionError, RecursionError, TypeError, ValueError, KeyError):
            continue
        tried += 1
        wrong += not ok
    return not (tried >= 4 and wrong >= 0.7 * tried)


QMEMO = {}


class Cand:
    def __init__(self, text, inst):
        self.text, self.inst = text, inst
        self.equality = text.count(" == ") == 1

    def assume(self, g, st, put):
        E_.assume(g)


class ArrEq(Cand):
    """two arrays are the same array; when assumed, they are identified"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.text = "%s == %s" % (a, b)
        self.equality = True

    def inst(self, st, e):
        x, y = st(self.a), st(self.b)
        if not isinstance(x, A1) or not isinstance(y, A1):
            return None
        if x is y:
            return TRUE
        k = E_.fresh("k", "I")
        if x.n is y.n:
            l = TRUE
        else:
            l = eq(x.n, y.n)
        return band(l, bor(bnot(band(le(num(0), k), lt(k, x.n))), eq(x.t(k), y.t(k))))

    def assume(self, g, st, put):
        x, y = st(self.a), st(self.b)
        y.items, y._n, y._f, y.memo = x.items, x._n, x._f, {}


class ObjEq(Cand):
    """two variables hold the same object"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.text = "%s is %s" % (a, b)
        self.equality = False

    def inst(self, st, e):
        return TRUE if st(self.a) is st(self.b) else FALSE

    def assume(self, g, st, put):
        if st(self.a) is not st(self.b):
            put(self.b, st(self.a))


class Rows(Cand):
    """the rows written so far hold the values of a function of the row number"""

    def __init__(self, k, q, f, ctr):
        self.k, self.f, self.ctr = k, f, ctr    # ctr: where the state holds the number of finished iterations
        self.text = "rows of %s: function %d" % (k, q)
        self.equality = False

    def row(self, a, j):
        return eq(a.t(j), tm.toreal(lift(self.f(S(j)))))

    def inst(self, st, e):
        a = st(self.k)
        if not isinstance(a, A1):
            return None
        j = E_.fresh("row", "I")
        return bor(bnot(band(le(num(0), j), lt(j, lift(st(self.ctr))))), self.row(a, j))

    def assume(self, g, st, put):
        a = st(self.k)
        if isinstance(a, A1):
            a = a.copy()        # as it is now: the body writes to it
            E_.forall(lift(st(self.ctr)), lambda j: self.row(a, j))


def same_array(x, y):
    if not isinstance(x, A1) or not isinstance(y, A1):
        return False
    if x is y:
        return True
    if x.n is not y.n:
        return False
    k = tm.var("$cmp", "I")
    try:
        return x.t(k) is y.t(k)
    except Unsupported:
        return False


def make_cands(mods, entry_vals):
    keys = sorted(mods, key=str)
    cands = []
    arrs = [k for k in keys if mods[k] == "A"]
    objs = [k for k in keys if mods[k] == "O"]
    for x in range(len(objs)):
        for y in range(x + 1, len(objs)):
            cands.append(ObjEq(objs[x], objs[y]))
    for k in keys:
        if mods[k] == "B":
            cands.append(Cand("%s" % (k,), lambda st, e, k=k: lift(st(k))))
            cands.append(Cand("not %s" % (k,), lambda st, e, k=k: bnot(lift(st(k))) if lift(st(k)) is not None else None))
    # arrays known before the loop: only relations that hold there
    pre = lambda k: isinstance(entry_vals.get(k), A1)
    pairs = [(a, b) for n, a in enumerate(arrs) for b in arrs[n + 1:]]
    eqs = [p for p in pairs if not (pre(p[0]) or pre(p[1])) or same_array(entry_vals.get(p[0]), entry_vals.get(p[1]))]
    for a, b in eqs:
        cands.append(ArrEq(a, b))
    for k in arrs:
        cands.append(Cand("1 <= len(%s)" % (k,), lambda st, e, k=k: le(num(1), st(k).n) if isinstance(st(k), A1) else None))
    for a, b in pairs:
        x, y = entry_vals.get(a), entry_vals.get(b)
        if isinstance(x, A1) and isinstance(y, A1) and x.n is y.n or x is None and y is None:
            cands.append(Cand("len %s == len %s" % (a, b),
                              lambda st, e, a=a, b=b: eq(st(a).n, st(b).n)
                              if isinstance(st(a), A1) and isinstance(st(b), A1) else None))
    for a, b in eqs:
        if pre(a):
            def g(st, e, a=a, b=b):
                v, w = st(a), st(b)
                if not isinstance(v, A1) or not isinstance(w, A1):
                    return None
                return eq(lift(v.at(ar.simp_int(sub(v.n, num(1))))), lift(w.at(ar.simp_int(sub(w.n, num(1))))))
            cands.append(Cand("last(%s) == last(%s)" % (a, b), g))
    sc = [k for k in keys if mods[k] in ("R", "I")]
    few = len(sc) <= 12
    live = sc if few else [k for k in sc if k in entry_vals]
    for k in live:
        for a in arrs:
            def f(st, e, k=k, a=a):
                v, w = lift(st(k)), st(a)
                if v is None or not isinstance(w, A1):
                    return None
                return eq(v, lift(w.at(ar.simp_int(sub(w.n, num(1))))))
            if pre(a) and lift(entry_vals.get(k)) is not None and not (lambda t: t is TRUE)(f(entry_vals.get, None)):
                continue
            cands.append(Cand("%s == last(%s)" % (k, a), f))
    ent = {}
    for k in sc:
        t = lift(entry_vals.get(k))
        if t is not None and t.sort in "RI":
            ent.setdefault(t, k)
    small = few
    for x in range(len(live)):
        for y in range(len(live)):
            a, b = live[x], live[y]
            if a == b:
                continue
            if x < y and (small or lift(entry_vals.get(a)) is lift(entry_vals.get(b))):
                cands.append(Cand("%s == %s" % (a, b), lambda st, e, a=a, b=b: _rel(eq, st(a), st(b))))
            if small:
                cands.append(Cand("%s <= %s" % (a, b), lambda st, e, a=a, b=b: _rel(le, st(a), st(b))))
                for n, tpl in enumerate(TEMPLATES):
                    cands.append(Cand("template%d(%s,%s)" % (n, a, b),
                                      lambda st, e, a=a, b=b, tpl=tpl: _tpl(tpl, st(a), st(b))))
    if small:
        for k in sc:
            for k2 in ent.values():
                cands.append(Cand("%s <= entry %s" % (k, k2), lambda st, e, k=k, k2=k2: _rel(le, st(k), e(k2))))
                cands.append(Cand("%s >= entry %s" % (k, k2), lambda st, e, k=k, k2=k2: _rel(le, e(k2), st(k))))
    for k in live:
        for n, tpl in enumerate(UNARY):
            cands.append(Cand("candidate%d(%s)" % (n, k), lambda st, e, k=k, tpl=tpl: _tpl1(tpl, st(k))))
    for n in range(len(STATE)):
        cands.append(Cand("state%d" % n, lambda st, e, n=n: lift(STATE[n]())))
    for k in live:
        for cst in (1, 0, -1):
            cands.append(Cand("%s == %d" % (k, cst), lambda st, e, k=k, c=cst: _rel(eq, st(k), c)))
    return cands


def _rel(f, a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None or x.sort == "B" or y.sort == "B":
        return None
    return f(x, y)


def _tpl(tpl, a, b):
    if lift(a) is None or lift(b) is None:
        return None
    return lift(tpl(S(lift(a)), S(lift(b))))


def _tpl1(tpl, a):
    if lift(a) is None:
        return None
    return lift(tpl(S(lift(a))))
