"""check runner:  python -m symx.run C04 [--tier quick|thorough] [--only scenario] [-v]

For one property: execute the contracts of contracts/<id>.py on /repo's current source
  * symbolically  (every feasible path; every contract clause is one obligation, discharged or refuted), and
  * concretely    (the same contracts on the real numpy / h5py, as replay of counter-models and as run-time check).
Exit 0: no obligation failed.  Exit 1 + VIOLATION line: a contract is broken.  Exit 2: the checker itself failed.
"""
import argparse
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


# ------------------------------------------------------------------------------------------------ registry
class Scenario:
    def __init__(self, fn, name, variants, quick, thorough, conc, bound, sym, budget, note, conc_thorough, thorough_variants):
        self.fn, self.name = fn, name
        self.variants = variants or [{}]
        self.thorough_variants = thorough_variants or []
        self.conc, self.conc_thorough = conc, conc_thorough
        self.bound, self.sym, self.budget, self.note = bound, sym, budget, note
        self.quick, self.thorough = quick, thorough


class Registry:
    def __init__(self):
        self.scenarios = []
        self.assumptions = []
        self.title = ""

    def scenario(self, name, variants=None, conc=60, conc_thorough=None, bound=None, sym=True, budget=40, note="",
                 quick=True, thorough=True, thorough_variants=None):
        def deco(fn):
            self.scenarios.append(Scenario(fn, name, variants, quick, thorough, conc, bound, sym, budget, note,
                                           conc_thorough or conc * 40, thorough_variants))
            return fn
        return deco


def load(prop):
    import importlib
    sys.path.insert(0, HERE)
    m = importlib.import_module(f"contracts.{prop.lower()}")
    return m.REG


def jobs_of(reg, tier, only):
    out = []
    for s in reg.scenarios:
        if tier == "quick" and not s.quick:
            continue
        if only and only not in s.name:
            continue
        vs = list(s.variants) + (list(s.thorough_variants) if tier == "thorough" else [])
        for i, v in enumerate(vs):
            out.append((s, i, v))
    return out


# ------------------------------------------------------------------------------------------------ workers
class Trace:
    """functions of /repo that were executed (one event per code object)"""

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        self.seen = set()

    def start(self):
        m = sys.monitoring
        m.use_tool_id(3, "symx")
        m.register_callback(3, m.events.PY_START, self._ev)
        m.set_events(3, m.events.PY_START)

    def _ev(self, code, off):
        f = code.co_filename
        if f.startswith(self.root) or f.startswith(os.path.dirname(self.root)):
            self.seen.add(f[len(self.root):] + ":" + code.co_qualname)
        return sys.monitoring.DISABLE


def _obl_stats(res):
    by, bad = {}, []
    n = d = 0
    for o in res["obl"]:
        n += 1
        if o.status == "discharged":
            d += 1
            by[o.backend] = by.get(o.backend, 0) + 1
        elif len(bad) < 12:
            bad.append({"label": o.label, "status": o.status, "detail": str(o.detail)[:800], "model": o.model})
    return n, d, by, bad


def sym_job(world, sc, i, params, tier, seed):
    from .engine import Explorer
    from . import world as wmod
    tr = Trace(wmod.REPO_SRC)
    try:
        tr.start()
    except ValueError:
        pass
    budget = sc.budget * (12 if tier == "thorough" else 1)
    ex = Explorer(world, lambda ctx: sc.fn(ctx, **params), budget=budget,
                  max_paths=200000 if tier == "thorough" else 6000,
                  prove_timeout=30000 if tier == "thorough" else 8000)
    res = ex.run()
    n, d, by, bad = _obl_stats(res)
    labels = {}
    for o in res["obl"]:
        labels.setdefault(o.label, [0, 0])
        labels[o.label][0] += 1
        labels[o.label][1] += o.status == "discharged"
    ended_ok = res["paths"] - res["skipped"] - res["ended"] - len(res["unsupported"]) - len(res["exceptions"]) - len(res["undefined"])
    return {"scenario": sc.name, "variant": i, "paths": res["paths"], "complete": res["complete"], "skipped": res["skipped"],
            "ended": res["ended"], "obligations": n, "discharged": d, "backends": by, "bad": bad, "labels": labels,
            "unsupported": sorted(set(res["unsupported"]))[:6], "exceptions": res["exceptions"][:6],
            "undefined": res["undefined"][:6], "wall": res["wall"], "queries": res["queries"], "solver_time": res["solver_time"],
            "normal_ends": ended_ok, "functions": sorted(tr.seen)}


def conc_job(world, sc, i, params, tier, seed):
    from .engine import run_concrete
    from . import world as wmod
    tr = Trace(wmod.REPO_SRC)
    try:
        tr.start()
    except ValueError:
        pass
    n = sc.conc_thorough if tier == "thorough" else sc.conc * 4
    r = run_concrete(world, lambda ctx: sc.fn(ctx, **params), f"{seed}:{sc.name}:{i}", n,
                     600 if tier == "thorough" else 12, stop_at=3)
    r.update({"scenario": sc.name, "variant": i, "functions": sorted(tr.seen)})
    return r


def worker(kind, prop, tier, seed, only, out):
    import multiprocessing as mp
    from . import world as wmod
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        w = wmod.symbolic_world() if kind == "sym" else wmod.concrete_world()
    sys.tracebacklimit = 1000
    reg = load(prop)
    js = jobs_of(reg, tier, only)
    if kind == "sym":
        js = [j for j in js if j[0].sym]
    js.sort(key=lambda j: -j[0].budget)
    ctx = mp.get_context("fork")
    running, results = [], []
    nproc = int(os.environ.get("VERIF_JOBS", "8")) if kind == "sym" else max(2, int(os.environ.get("VERIF_JOBS", "8")) // 2)
    pending = list(js)

    def body(conn, sc, i, params):
        try:
            if not os.environ.get("SYMX_DEBUG"):
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
            f = sym_job if kind == "sym" else conc_job
            r = f(w, sc, i, params, tier, seed)
        except BaseException:
            r = {"scenario": sc.name, "variant": i, "checker_error": traceback.format_exc()}
        try:
            conn.send(json.dumps(r, default=str))
        finally:
            conn.close()
            os._exit(0)

    t0 = time.time()
    deadline = 540 if tier == "quick" else 6 * 3600
    while pending or running:
        if time.time() - t0 > deadline:
            results += [{"scenario": sc.name, "variant": i, "killed": f"not finished after {deadline} s"} for sc, i, _ in pending]
            pending = []
        while pending and len(running) < nproc:
            sc, i, params = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=body, args=(b, sc, i, params))
            p.start()
            b.close()
            running.append((p, a, sc, i, time.time()))
        nxt = []
        for p, a, sc, i, t in running:
            limit = sc.budget * (14 if tier == "thorough" else 3) + 60 if kind == "sym" else (700 if tier == "thorough" else 100)
            if a.poll(0.01):
                try:
                    results.append(json.loads(a.recv()))
                except EOFError:
                    results.append({"scenario": sc.name, "variant": i, "killed": "worker died"})
                p.join()
            elif not p.is_alive() and not a.poll(0.05):
                results.append({"scenario": sc.name, "variant": i, "killed": f"worker exit {p.exitcode}"})
            elif time.time() - t > limit or time.time() - t0 > deadline:
                p.kill()
                p.join()
                results.append({"scenario": sc.name, "variant": i, "killed": f"over {limit} s"})
            else:
                nxt.append((p, a, sc, i, t))
        running = nxt
    json.dump(results, open(out, "w"))


def replay_worker(prop, items, out):
    """items: [{scenario, variant, values}]; run each with the values fixed and the rest random"""
    from . import world as wmod
    from .engine import run_concrete
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        w = wmod.concrete_world()
    sys.tracebacklimit = 1000
    reg = load(prop)
    allv = {}
    for s in reg.scenarios:
        for i, v in enumerate(list(s.variants) + list(s.thorough_variants)):
            allv[(s.name, i)] = (s, v)

    def one(it):
        s, v = allv[(it["scenario"], it["variant"])]
        with contextlib.redirect_stdout(io.StringIO()):
            r = None
            # the model as it is; then only its discrete part with random numbers
            discrete = {k: x for k, x in it["values"].items() if isinstance(x, list)}
            for vals, n, mode in ((it["values"], 12, "random"), (it["values"], 12, "small"), (discrete, 60, "random"), (discrete, 200, "small")):
                r = run_concrete(w, lambda ctx: s.fn(ctx, **v), it.get("seed", "replay"), it.get("n", n), 12, values=vals, stop_at=1, mode=mode)
                if r["failures"]:
                    break
        return r

    if len(items) == 1:
        json.dump([one(items[0])], open(out, "w"))
        return
    import multiprocessing as mp
    ctx = mp.get_context("fork")
    res = [{"failures": [], "not_replayed": True} for _ in items]

    def body(conn, it):
        r = {"failures": []}
        try:
            r = json.loads(json.dumps(one(it), default=str))
        finally:
            conn.send(r)
            conn.close()
            os._exit(0)

    t0, found = time.time(), None
    pending, running = list(range(len(items))), []
    while pending or running:
        # one failing input is enough: the others get a little more time
        if time.time() - t0 > 150 or (found is not None and time.time() - found > 8):
            for p, a, i in running:
                p.kill()
                p.join()
            break
        while pending and found is None and len(running) < int(os.environ.get("VERIF_JOBS", "8")):
            i = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=body, args=(b, items[i]))
            p.start()
            b.close()
            running.append((p, a, i))
        if found is not None:
            pending = []
        nxt = []
        for p, a, i in running:
            if a.poll(0.01):
                try:
                    res[i] = a.recv()
                except EOFError:
                    pass
                p.join()
                if res[i]["failures"] and found is None:
                    found = time.time()
            elif p.is_alive():
                nxt.append((p, a, i))
            else:
                p.join()
        running = nxt
    json.dump(res, open(out, "w"), default=str)


# ------------------------------------------------------------------------------------------------ main
def spawn(args, timeout):
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        env[k] = "1"
    return subprocess.Popen([PY, "-m", "symx.run"] + args, cwd=HERE, env=env, stdin=subprocess.DEVNULL)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default="")
    ap.add_argument("--worker", default="")
    ap.add_argument("--out", default="")
    ap.add_argument("--items", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.worker in ("sym", "conc"):
        return worker(a.worker, a.prop, a.tier, a.seed, a.only, a.out)
    if a.worker == "replay":
        return replay_worker(a.prop, json.load(open(a.items)), a.out)
    t0 = time.time()
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix="symx_run_")
    try:
        if a.replay:
            d = json.load(open(a.replay))
            json.dump([{"scenario": d["scenario"], "variant": d["variant"], "values": d["inputs"], "n": 1}], open(f"{tmp}/i", "w"))
            spawn([a.prop, "--worker", "replay", "--items", f"{tmp}/i", "--out", f"{tmp}/o"], 300).wait()
            r = json.load(open(f"{tmp}/o"))[0]
            print(json.dumps(r["failures"], indent=1) if r["failures"] else "no failure on this input")
            return 1 if r["failures"] else 0
        return check(a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, tmp, t0):
    common = [a.prop, "--tier", a.tier, "--seed", str(a.seed), "--only", a.only]
    ps = [(k, spawn(common + ["--worker", k, "--out", f"{tmp}/{k}"], 0)) for k in ("conc", "sym")]
    limit = 600 if a.tier == "quick" else 6 * 3600 + 120
    for k, p in ps:
        try:
            p.wait(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
    data = {}
    for k, p in ps:
        try:
            data[k] = json.load(open(f"{tmp}/{k}"))
        except Exception:
            print(f"checker error: {k} worker of {a.prop} gave no result (exit {p.returncode})", file=sys.stderr)
            return 2
    reg = load(a.prop)
    return merge(a, data["sym"], data["conc"], reg, tmp, t0)


# the state at the head of a loop is taken as arbitrary: a counterexample to such a step counts only if it is found on the real code
INDUCTIVE = ": any number of"


def merge(a, symr, concr, reg, tmp, t0):
    for r in symr + concr:
        if "checker_error" in r:
            print("checker error in", r["scenario"], r["variant"], "\n", r["checker_error"], file=sys.stderr)
            return 2
    info = {s.name: s for s in reg.scenarios}
    # ---- counterexamples: replay on the real code
    violations = []      # (scenario, variant, label, detail, inputs, replayed, trace)
    undecided, seen_tr = [], []
    for r in concr:
        if "killed" in r:
            undecided.append(f"{r['scenario']}#{r['variant']}: run-time check {r['killed']}")
            continue
        for f in r["failures"][:1]:
            violations.append((r["scenario"], r["variant"], f["label"], f["detail"], f["inputs"], True, f.get("trace", "")))
        if r["passed"] == 0 and not r["failures"]:
            undecided.append(f"{r['scenario']}#{r['variant']}: no concrete input satisfied the preconditions")
    items, back = [], []
    for r in symr:
        if "killed" in r:
            undecided.append(f"{r['scenario']}#{r['variant']}: symbolic run {r['killed']}")
            continue
        k = 0
        for b in r["bad"]:
            if k >= 4:
                break
            k += 1
            items.append({"scenario": r["scenario"], "variant": r["variant"], "values": b["model"] or {}})
            back.append((r, "obligation", b))
        for kind in ("exceptions", "undefined"):
            for b in r[kind][:2]:
                items.append({"scenario": r["scenario"], "variant": r["variant"], "values": b["model"] or {}})
                back.append((r, kind, b))
    if items:
        json.dump(items, open(f"{tmp}/items", "w"), default=str)
        p = spawn([a.prop, "--worker", "replay", "--items", f"{tmp}/items", "--out", f"{tmp}/rep"], 0)
        try:
            p.wait(timeout=200)
        except subprocess.TimeoutExpired:
            p.kill()
        try:
            reps = json.load(open(f"{tmp}/rep"))
        except Exception:
            reps = [{"failures": []}] * len(items)
        concbad = {(v[0], v[1]) for v in violations}
        for (r, kind, b), rep in zip(back, reps):
            key = (r["scenario"], r["variant"])
            if rep and rep["failures"]:
                f = rep["failures"][0]
                violations.append((r["scenario"], r["variant"], f["label"], f["detail"], f["inputs"], True, f.get("trace", "")))
            elif kind == "obligation" and b["status"] == "refuted" and rep is not None and key not in concbad and INDUCTIVE not in b["label"]:
                violations.append((r["scenario"], r["variant"], b["label"], b["detail"], b["model"], False, ""))
            elif kind == "obligation":
                undecided.append(f"{key[0]}#{key[1]}: {b['label']}: {b['status']}: {b['detail'][:200]}")
            else:
                undecided.append(f"{key[0]}#{key[1]}: {kind}: {b.get('msg', b.get('what'))} (not reproduced on the real code)")
                if a.v and not seen_tr:
                    seen_tr.append(1)
                    print(b["trace"])
    # ---- per scenario status
    rows = []
    tot = {"obligations": 0, "discharged": 0, "paths": 0, "queries": 0}
    stime = 0.0
    backends, funcs, bounded, labels = {}, set(), [], {}
    symkeys = {(r["scenario"], r["variant"]): r for r in symr}
    for r in symr:
        if "killed" in r:
            bounded.append(f"{r['scenario']}#{r['variant']}: {r['killed']}")
            continue
        for k in tot:
            tot[k] += r[k]
        stime += r["solver_time"]
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
        funcs |= set(r["functions"])
        full = r["complete"] and not r["unsupported"] and not r["exceptions"] and not r["undefined"] and r["obligations"] == r["discharged"]
        if not full:
            why = r["unsupported"] or [e["msg"] for e in r["exceptions"]] or [e["what"] for e in r["undefined"]] or (["not all paths explored"] if not r["complete"] else ["undischarged obligations"])
            bounded.append(f"{r['scenario']}#{r['variant']}: {'; '.join(map(str, why))[:300]}")
        if full and (r["normal_ends"] <= 0 or r["obligations"] == 0):
            print(f"checker error: {r['scenario']}#{r['variant']} reached no end of the scenario (vacuous)", file=sys.stderr)
            return 2
        rows.append({"contract": r["scenario"], "variant": r["variant"], "paths": r["paths"], "obligations": r["obligations"],
                     "discharged": r["discharged"], "status": "proved" if full else "bounded", "wall_s": round(r["wall"], 2)})
    ev = sum(r.get("evaluations", 0) for r in concr)
    dist = sum(r.get("distinct", 0) for r in concr)
    if ev == 0 or (tot["obligations"] == 0 and not bounded and any(s.sym for s in reg.scenarios)):
        if not violations:
            print(f"checker error: zero obligations or evaluations for {a.prop}", file=sys.stderr)
            return 2
    samples = [s for r in concr for s in r.get("samples", [])[:1]][:3]
    bounds = sorted({f"{s.name}: {s.bound}" for s in reg.scenarios if s.bound})
    concrete_only = [s.name for s in reg.scenarios if not s.sym]
    known, viol = split_known(a.prop, violations)
    evid = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "proof",
        "coverage": {
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "checker_cmd": f"cd /verif && /opt/venv/bin/python -m symx.run {a.prop} --tier {a.tier}",
            "trusted_base": TRUSTED,
            "paths": tot["paths"], "back_ends": backends, "solver_queries": tot["queries"], "solver_time_s": round(stime, 3),
            "contracts": rows, "functions_under_contract": sorted(f for f in funcs if "magnopy" in f and "<module>" not in f),
            "bounds": bounds, "bounded_not_proved": bounded + [f"{n}: run-time contract check only (bounded)" for n in concrete_only],
            "undecided": undecided[:20],
            "runtime_evaluations": ev, "runtime_distinct": dist, "runtime_samples": samples,
        },
        "assumptions": COMMON_ASSUMPTIONS + reg.assumptions,
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
    json.dump(evid, open(f"{HERE}/evidence/{a.prop}.json", "w"), indent=1, default=str)
    if a.v:
        for r in rows:
            print(r)
        for b in bounded:
            print("bounded:", b)
        for u in undecided:
            print("undecided:", u)
        for r in concr:
            if "killed" not in r:
                print("runtime", r["scenario"], r["variant"], {k: r[k] for k in ("evaluations", "passed", "skipped", "checked")}, round(r["wall"], 1))
    print(f"{a.prop} {a.tier}: {tot['discharged']}/{tot['obligations']} obligations discharged on {tot['paths']} paths "
          f"({', '.join(f'{k} {v}' for k, v in sorted(backends.items()))}; solver {stime:.1f} s), {len(bounded)} bounded, "
          f"{ev} run-time evaluations, {time.time() - t0:.1f} s")
    for k in known:
        print(f"KNOWN-FINDING: property={a.prop} {k}")
    if not viol:
        return 0
    viol.sort(key=lambda v: not v[5])
    seen = set()
    any_replayed = any(v[5] for v in viol)
    n = 0
    for v in viol:
        sc, var, label, detail, inputs, replayed, trace = v
        if (sc, label) in seen or n >= 6 or (any_replayed and not replayed):
            continue
        seen.add((sc, label))
        n += 1
        path = f"{HERE}/evidence/replay/{a.prop}-{n}.json"
        json.dump({"property": a.prop, "scenario": sc, "variant": var, "obligation": label, "detail": detail, "inputs": inputs,
                   "replayed_on_real_code": replayed, "trace": trace,
                   "how": f"cd /verif && /opt/venv/bin/python -m symx.run {a.prop} --replay {path}"}, open(path, "w"), indent=1, default=str)
        print(f"  failed: {sc}#{var}: {label}: {str(detail)[:300]}")
        print(f"VIOLATION property={a.prop} replay={path}" + ("" if replayed else " no-failing-input-found"))
    return 1


def split_known(prop, violations):
    """known-findings file: 'finding: property=<id> scenario=<name> label=<label> :: text' entries"""
    path = f"{HERE}/KNOWN_FINDINGS.txt"
    ents = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: ") and f"property={prop} " in line:
                head, text = line[len("finding: "):].split(" :: ", 1)
                d = dict(x.split("=", 1) for x in head.split(" | ") if "=" in x)
                ents.append((d, text.strip()))
    known, rest = [], []
    for v in violations:
        hit = None
        for d, text in ents:
            if d.get("scenario", "").strip() == v[0] and d.get("label", "").strip() == v[2]:
                hit = text
        if hit:
            if hit not in known:
                known.append(hit)
        else:
            rest.append(v)
    return known, rest


TRUSTED = [
    "CPython 3.12 executing /repo's unmodified source on symbolic operands (symx/engine.py, symx/sym.py)",
    "the normal form of symx/poly.py (Laurent polynomials over rationals with square roots and sine/cosine pairs)",
    "z3 4.x (python3-vt) and cvc5 1.1.2 for branch feasibility and the remaining obligations",
    "the contracts assumed for numpy, numpy.linalg, math, scipy.spatial.transform and h5py on symbolic operands (symx/shim.py)",
]
COMMON_ASSUMPTIONS = [
    "machine floating point is treated as exact real arithmetic in the proofs; the run-time checks use a relative tolerance of 1e-7",
    "wulfric 0.4.0 is executed as real code, not assumed",
    "callees are executed, not replaced by their contracts, except numpy/scipy/h5py",
]

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc or 0)
