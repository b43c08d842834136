#!/usr/bin/env python3-vt
"""check.py --property C05 [--tier quick|thorough]

Generates the proof obligations of every contract of the property from /repo's current source, discharges them,
executes the same contracts on the real code (cross-check, counterexample replay), writes evidence/<id>.json.
Exit 0: held.  Exit 1: VIOLATION line(s).  Exit 2: the checker itself failed."""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
os.environ.setdefault("AMAT_REPO", "/repo")
PY = os.environ.get("AMAT_PYTHON", "/opt/venv/bin/python")

TRUSTED = [
    "z3 (python z3-solver), cvc5, and the normal-form prover engine/norm.py",
    "engine/loader.py: every AMAT/*.py is parsed from the working tree on each run; branch conditions, loops and builtins are "
    "rewritten to calls of the verifier, nothing else is dropped (docstrings, plotting and print calls have no effect)",
    "CPython semantics of the executed statements; copy.deepcopy",
    "machine floats treated as real numbers; NaN/inf and rounding outside the proofs (cross-checked on the real code by sampling)",
    "assumed contracts on dependencies (engine/shim.py): numpy elementwise functions, concatenate/linspace/arange/cumulative_trapezoid/"
    "interp1d semantics; odeint/solve_ivp return one row per requested time starting at the initial state; matplotlib calls do nothing",
    "termination of the repository's while loops is not proved",
]


def worker(name, ms, conn, scale=1):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.stdout = open(os.devnull, "w")
        from engine import api
        with open(os.path.join(HERE, "known_findings.json")) as f:
            kn = [x["check"] for x in json.load(f)["findings"] if x.get("status") == "known" and x["contract"] == name]
        r = api.run_contract(name, ms=ms, brief=tuple(kn), hard=600 * scale)
    except BaseException as e:
        r = {"contract": name, "obligations": [], "error": "verifier error: %s: %s" % (type(e).__name__, e),
             "trace": traceback.format_exc()[-1500:], "paths": 0, "restarts": 0, "hints": [], "stats": {}, "notes": [],
             "invariants": [], "wall": 0}
    conn.send(r)
    conn.close()


def run_symbolic(names, reg, ms, scale, jobs=7):
    """one process per contract"""
    out, todo, live = {}, sorted(names, key=lambda n: -reg[n].budget), []
    stop = time.time() + LIMIT * scale - 180 * scale
    while todo or live:
        while todo and len(live) < jobs:
            n = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=worker, args=(n, ms, b, scale), daemon=True)
            p.start()
            b.close()
            live.append((n, p, a, time.time()))
        keep = []
        for n, p, a, t0 in live:
            if a.poll(0.01):
                try:
                    out[n] = a.recv()
                except EOFError:
                    out[n] = dead(n, "verifier process died")
                p.join(5)
            elif not p.is_alive():
                out[n] = dead(n, "verifier process died")
            elif time.time() - t0 > reg[n].budget * 3 * scale or time.time() > stop:
                p.kill()
                out[n] = dead(n, "time budget exhausted")
            else:
                keep.append((n, p, a, t0))
        live = keep
        time.sleep(0.02)
    return out


def dead(n, why):
    return {"contract": n, "obligations": [], "error": why, "paths": 0, "restarts": 0, "hints": [], "stats": {}, "notes": [],
            "invariants": [], "wall": 0}


LIMIT = 840         # seconds a quick check may take in all, whatever the code under it does


class Server:
    """the real code, in the project's interpreter"""

    def __init__(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   PYTHONHASHSEED="0")
        self.p = subprocess.Popen([PY, "-m", "engine.concrete"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("the real code cannot be imported")

    def ask(self, **job):
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("concrete run died on %s" % job)
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


ARITH = ("ZeroDivisionError", "OverflowError", "FloatingPointError", "ValueError", "IndexError", "MemoryError", "TypeError")


def bad(r, hint=False):
    """list of violated checks in a concrete run"""
    v = list(r["violations"])
    e = r["error"]
    if e and not v:
        if e["in_repo"] and not (hint and e["type"] in ARITH):
            v.append({"check": "runs to completion", "detail": "%s: %s at %s" % (e["type"], e["text"], e["at"])})
        elif e["in_repo"]:
            pass
        elif not hint and e["type"] not in ("Reject",):
            v.append({"check": "contract evaluates", "detail": "%s: %s\n%s" % (e["type"], e["text"], e["trace"])})
    return v


def sample_contract(srv, con, n, seed0, t_end, known=lambda con, check: None):
    """n random executions of the contract on the real code"""
    res = {"runs": 0, "accepted": 0, "checks": 0, "viol": [], "functions": set(), "known": None}
    for k in range(n):
        if time.time() > t_end and k >= 3:
            break
        r = srv.ask(contract=con.name, seed=seed0 + k, profile=(k < 2))
        res["runs"] += 1
        if r.get("functions"):
            res["functions"].update(r["functions"])
        if r["rejected"] is None:
            res["accepted"] += 1
        res["checks"] += r["checks"]
        b = bad(r)
        if b:
            if all(known(con.name, v["check"]) for v in b):
                res["known"] = res["known"] or (r, b)
                continue
            res["viol"].append((r, b))
            if len(res["viol"]) >= 3 or (r["error"] or {}).get("type") == "Stuck":
                break
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--selftest", action="store_true", help="load the verifier, every contract and the real code")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--contract", action="append")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from engine import base
    base.load_all()
    reg = base.REG
    if a.selftest:
        from engine import api, loops, shim, evalnum  # noqa
        Server().close()
        print("%d contracts loaded" % len(reg))
        return 0
    names = [n for n, c in reg.items() if a.property in c.props]
    if a.contract:
        names = [n for n in names if n in a.contract]
    if not names:
        print("no contract for %s" % a.property)
        return 2
    thorough = a.tier == "thorough"
    t_last = t0 + LIMIT * (4 if thorough else 1) - 60
    ms = 20000 if thorough else 4000
    mult = 15 if thorough else 1
    from engine import api, loops, shim, evalnum  # noqa: loaded before forking
    lerr = None
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]

    def is_known(con, check):
        for f in known:
            if f.get("status") == "known" and f["property"] == a.property and f["contract"] == con and check.startswith(f["check"]):
                return f
        return None

    # the real code, sampled, in parallel with the proofs
    conc, cerr = {}, []
    nthreads = 4 if len(names) > 3 else 2
    queue = list(names)
    lock = threading.Lock()
    t_end = time.time() + (600 if thorough else 75)

    def sampler():
        srv = None
        try:
            srv = Server()
            while True:
                with lock:
                    if not queue:
                        break
                    n = queue.pop(0)
                conc[n] = sample_contract(srv, reg[n], reg[n].samples * mult, 1000 * a.seed, t_end, is_known)
        except Exception as e:
            cerr.append("%s: %s" % (type(e).__name__, e))
        finally:
            if srv:
                srv.close()
    # fork the proof processes first (threads and fork do not mix)
    holder = {}
    rd, wr = mp.Pipe(False)

    def sym_main(conn):
        r = run_symbolic(names, reg, ms, 4 if thorough else 1)
        conn.send(r)
    if lerr is None:
        symp = mp.Process(target=sym_main, args=(wr,))
        symp.daemon = False
        symp.start()
        wr.close()
    ths = [threading.Thread(target=sampler) for _ in range(nthreads)]
    for t in ths:
        t.start()
    if lerr is None:
        try:
            sym = rd.recv()
        except EOFError:
            sym = {n: dead(n, "verifier died") for n in names}
        symp.join(10)
    else:
        sym = {n: dead(n, "outside the verifier's subset: %s" % lerr) for n in names}
    for t in ths:
        t.join()
    if cerr:
        print("the real code could not be executed: %s" % cerr[:2])
        return 2

    violations, kf, notes = [], [], []
    srv = None

    def report(con, checks, replay, nofail=False):
        fresh = []
        for v in checks:
            f = is_known(con, v["check"])
            if f:
                if f not in kf:
                    kf.append(f)
            else:
                fresh.append(v)
        if fresh:
            violations.append({"contract": con, "checks": fresh, "replay": replay, "nofail": nofail})
        return bool(fresh)

    obs_total = obs_proved = 0
    bounded, backends, functions, invariants = [], {}, set(), []
    solver = {}
    per, known_open = [], []
    for n in names:
        con, s, cr = reg[n], sym[n], conc.get(n)
        functions.update(con.targets)
        hit = False
        if cr is None:
            print("no concrete run of %s" % n)
            return 2
        if cr["known"]:
            report(n, cr["known"][1], None)
        if cr["viol"]:
            r, b = cr["viol"][0]
            for r_, b_ in cr["viol"]:
                if not all(is_known(n, v["check"]) for v in b_):
                    r, b = r_, b_
            hit = report(n, b, {"contract": n, "seed": r["seed"], "inputs": r["inputs"], "over": None, "hint": False, "failed": b})
        if cr["accepted"] == 0:
            notes.append("%s: no sampled input satisfied the precondition" % n)
            if not cr["viol"]:
                print("vacuous: no sampled input satisfies the precondition of %s" % n)
                return 2
        opens = [o for o in s["obligations"] if o["status"] != "proved"]
        prov = [o for o in s["obligations"] if o["status"] == "proved"]
        for o in prov:
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        for k, v in s["stats"].items():
            if k in ("z3", "norm", "cvc5"):
                solver[k] = round(solver.get(k, 0) + v, 2)
        invariants += [(n, t) for t in s["invariants"]]
        # a solver that could not settle an obligation is not a violation: replay decides
        if not s["error"] and not s["obligations"] and not hit:
            print("no obligation generated for %s" % n)
            return 2
        # a contract over inputs of bounded size is a bounded check as a whole
        whole = con.bounded
        bad_open = [o for o in opens if not is_known(n, o["name"])]
        for o in opens:
            f = is_known(n, o["name"])
            if f and f not in kf:
                kf.append(f)
        if (bad_open or s["error"]) and not hit:
            srv = srv or Server()
            hits = [h for h in s["hints"] if any(h["obligation"] == o["name"] for o in bad_open)]
            stuck = 0
            for h in hits:
                for m in h["models"] + [{}]:
                    for k in range(10):
                        if time.time() > t_last or stuck >= 2:
                            break
                        over = dict(h["picks"])
                        sub = m if k < 4 or k > 5 else {x: v for i, (x, v) in enumerate(m.items()) if i % 2 == k % 2}
                        over.update(sub)
                        if k > 5:           # histories well outside their customary range
                            over["%stretch"] = 4 if k < 8 else 16
                        r = srv.ask(contract=n, seed=1000 * a.seed + k, over=over, hint=True)
                        stuck += r["rejected"] == "stuck"
                        b = bad(r, True)
                        if b and report(n, b, {"contract": n, "seed": r["seed"], "inputs": over, "hint": True, "failed": b,
                                               "obligation": h["obligation"], "goal": h["goal"], "path": h["path"]}):
                            hit = True
                            break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                # search harder on the real code
                c2 = sample_contract(srv, con, con.samples * (40 if thorough else 12), 500000 + 1000 * a.seed,
                                     min(time.time() + (200 if thorough else 40), t_last), is_known)
                cr["runs"] += c2["runs"]
                cr["accepted"] += c2["accepted"]
                cr["checks"] += c2["checks"]
                if c2["viol"]:
                    r, b = c2["viol"][0]
                    hit = report(n, b, {"contract": n, "seed": r["seed"], "inputs": r["inputs"], "over": None, "hint": False,
                                        "failed": b})
            if not hit:
                ref = [h for h in hits if h["verdict"] in ("refuted", "counter-model") and not h["exc"]]
                if ref:
                    h = ref[0]
                    hit = report(n, [{"check": h["obligation"], "detail": "obligation refuted by the verifier (%s)" % h["verdict"]}],
                                 {"contract": n, "obligation": h["obligation"], "verdict": h["verdict"], "models": h["models"],
                                  "goal": h["goal"], "path": h["path"], "seed": 0, "inputs": {}, "hint": True}, nofail=True)
        if s["error"]:
            notes.append("%s: %s (bounded stand-in: %d executions of the real code)" % (n, s["error"], cr["accepted"]))
            bounded.append({"contract": n, "reason": s["error"], "bound": "%d sampled executions" % cr["accepted"]})
        for o in bad_open:
            bounded.append({"contract": n, "obligation": o["name"], "reason": "not discharged within the time limit",
                            "bound": "%d sampled executions" % cr["accepted"]})
        kopen = [o["name"] for o in opens if is_known(n, o["name"])]
        known_open += ["%s: %s" % (n, x) for x in kopen]
        if whole:
            bounded.append({"contract": n, "reason": "bounded by construction", "bound": whole + "; %d obligations discharged within it" % len(prov)})
        else:
            obs_total += len(s["obligations"]) - len(kopen) + (1 if s["error"] else 0)
            obs_proved += len(prov)
        per.append({"contract": n, "targets": con.targets, "obligations": len(s["obligations"]), "discharged": len(prov),
                    "bounded": whole, "paths": s["paths"], "wall_s": round(s["wall"], 1), "real_code_runs": cr["accepted"],
                    "real_code_checks": cr["checks"], "functions_executed": sorted(cr["functions"]), "error": s["error"]})
        if a.v:
            print("%-40s %d/%d obligations, %d paths, %.1fs, %d runs%s" % (
                n, len(prov), len(s["obligations"]), s["paths"], s["wall"], cr["accepted"], "  ERROR " + s["error"] if s["error"] else ""))
            for o in opens:
                print("      open:", o["name"], (o["exc"] or "")[-300:])
            for b in cr["viol"]:
                print("      real code:", b[1][:3], b[0]["error"] and b[0]["error"]["trace"])
            if s.get("trace"):
                print(s["trace"])
    if srv:
        srv.close()
    nb = len([b for b in bounded if "obligation" in b])
    ev = {
        "property": a.property, "tier": a.tier, "seed": a.seed, "level": "proof",
        "coverage": {
            "obligations": obs_total - nb, "discharged": obs_proved, "checker_cmd":
                "python3-vt check.py --property %s --tier %s" % (a.property, a.tier),
            "trusted_base": TRUSTED,
            "functions_under_contract": sorted(functions), "contracts": per, "back_ends": backends, "solver_seconds": solver,
            "loop_invariants": ["%s: %s" % x for x in invariants][:200], "bounded_stand_ins": bounded, "known_findings": known_open,
            "explanation": "obligations are generated from the current source by symbolic execution of the real functions under "
                           "their contracts; bounded stand-ins are not counted as discharged"},
        "assumptions": sorted({x for n in names for x in sym[n]["notes"]} | {"stub in %s: %s" % (n, x) for n in names
                              for x in (sym[n].get("stubs") or [])} | set(notes)),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", a.property + ".json"), "w"), indent=1)
    for f in kf:
        print("KNOWN-FINDING: property=%s %s" % (a.property, f["what"]))
    for k, v in enumerate(violations):
        path = os.path.join(HERE, "evidence", "replay", "%s-%s-%d.json" % (a.property, v["contract"], k))
        v["replay"]["how"] = "cd %s && %s -m engine.concrete %s" % (HERE, PY, path)
        v["replay"]["verifier"] = {x: sym[v["contract"]].get(x) for x in ("error", "obligations", "hints")}
        json.dump(v["replay"], open(path, "w"), indent=1, default=str)
        for c in v["checks"][:3]:
            print("  %s: %s: %s" % (v["contract"], c["check"], c["detail"]))
        print("VIOLATION property=%s replay=%s%s" % (a.property, path, " no-failing-input-found" if v["nofail"] else ""))
    if bounded and not violations:
        print("bounded stand-ins: %s" % "; ".join(sorted({b["contract"] + ": " + b["reason"][:80] for b in bounded})))
    print("%s: %d/%d obligations discharged, %d bounded, %d contracts, %.1fs" % (
        a.property, obs_proved, obs_total, len(bounded), len(names), time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
