"""python -m symtf.run CHECK [quick|thorough]: decide one property."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
from symtf.instance import concrete, run_instance  # noqa: E402

REPO = os.environ.get("TFTB_REPO", "/repo")


def jenv(env):
    return {k: ([v.real, v.imag] if isinstance(v, complex) else v) for k, v in env.items()}


def unjenv(env):
    return {k: (complex(*v) if isinstance(v, list) else v) for k, v in env.items()}


def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL(None).prctl(1, 9)
    except Exception:
        pass


def _winit():
    import faulthandler
    import signal
    faulthandler.register(signal.SIGUSR1)
    _die_with_parent()
    from symtf import load
    load.trace_functions()


def work(args):
    return run_instance(*args)


def conc_work(jobs):
    return concrete(jobs)


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def main(argv):
    check = argv[1].upper()
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = argv[3] if len(argv) > 3 else None
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    mod = importlib.import_module("harness." + check.lower())
    insts = mod.instances(tier)
    if only:
        insts = [i for i in insts if only in i["name"]]
    nsamp = 4
    ncpu = int(os.environ.get("SYMTF_JOBS", "8"))
    mp = multiprocessing.get_context("fork")
    known = [f for f in load_findings() if f["property"] == check]
    lines = []
    results = []
    with cf.ProcessPoolExecutor(ncpu, mp_context=mp, initializer=_die_with_parent) as ex:
        # 1. real runs at random points (validation points and vacuity witnesses)
        chunks = [[] for _ in range(ncpu)]
        for k, i in enumerate(insts):
            ns = i.get("nsamp", nsamp)
            for s in range(ns):
                chunks[k % ncpu].append((k, dict(check=check, fn=i["fn"], params=i["params"], env=None,
                                                 seed=seed + 17 * s, values=True)))
        samples = {k: [] for k in range(len(insts))}
        for ch, outs in zip(chunks, ex.map(conc_work, [[j for _, j in c] for c in chunks])):
            for (k, j), o in zip(ch, outs):
                samples[k].append(o)
    t1 = time.time()
    ex = cf.ProcessPoolExecutor(ncpu, mp_context=mp, initializer=_winit)
    try:
        order = sorted(range(len(insts)), key=lambda k: -insts[k].get("cost", 1))
        futs = {}
        for k in order:
            lim = insts[k].get("limit", 240 if tier == "quick" else 3600)
            futs[ex.submit(work, (check, insts[k], samples[k], lim, seed))] = k
        for f in cf.as_completed(futs, timeout=max(1, budget - (time.time() - t0))):
            k = futs[f]
            try:
                r = f.result()
            except Exception as e:
                r = dict(name=insts[k]["name"], status="inconclusive", reason="worker: %r" % (e,),
                         stats=dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0), proved=0, paths=0,
                         funcs=[], wall=0, inputs=0, validated=0)
            r["k"] = k
            results.append(r)
    except cf.TimeoutError:
        pass
    procs = list((ex._processes or {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    if len(results) < len(insts):
        for pr in procs:
            pr.kill()
    # a real run at a validation point that fails is a counterexample as well
    for r in results:
        if r["status"] != "violation":
            for s in samples[r["k"]]:
                if s["env"] is not None and (s["exc"] or s["fails"]):
                    r.update(status="violation", env=s["env"], obligation="(validation point)",
                             fail=s["exc"] or "%s (rel. difference %.3g)" % s["fails"][0])
                    break
    rc = 0
    nviol = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    kf = []
    for r in sorted(results, key=lambda r: r["k"]):
        if r["status"] == "violation":
            hit = None
            for f in known:
                if f["instance"] == r["name"] and f.get("match", "") in r["fail"]:
                    hit = f
            if hit is not None:
                kf.append(hit)
                continue
            nviol += 1
            path = os.path.join(rdir, "%s-%s.json" % (check, r["name"].replace("/", "_")))
            i = insts[r["k"]]
            with open(path, "w") as fo:
                json.dump(dict(check=check, instance=r["name"], fn=i["fn"], params=i["params"],
                               env=jenv(r["env"]), obligation=r["obligation"], fail=r["fail"],
                               how="cd /verif && python -m symtf.replay " + path), fo, indent=1)
            rc = 1
            if nviol > 10:
                continue
            print("counterexample: instance %s, obligation %s: %s" % (r["name"], r["obligation"], r["fail"]))
            print("VIOLATION property=%s replay=%s" % (check, path))
    for f in kf:
        print("KNOWN-FINDING: property=%s %s" % (check, f["what"]))
    inc = [r for r in results if r["status"] == "inconclusive"]
    for r in inc:
        print("INCONCLUSIVE %s: %s" % (r["name"], r["reason"]))
    if len(results) < len(insts):
        print("INCONCLUSIVE: %d instances not finished" % (len(insts) - len(results)))
        inc.append(None)
    if rc == 0 and inc:
        rc = 2
    tot = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0)
    for r in results:
        for k in tot:
            tot[k] += r["stats"][k]
    tot["solver_s"] = round(tot["solver_s"], 3)
    funcs = sorted(set(f for r in results for f in r["funcs"]))
    excl = sorted(set(e for r in results for e in r.get("excluded", [])))
    ev = dict(property=check, tier=tier, seed=seed, level="other", coverage=dict(
        explanation="Symbolic execution of the repository's current source for each instance; every "
                    "obligation is an SMT query (z3) over all input values within the bounds; "
                    "counterexamples are replayed on the plain repository.",
        instances=len(results),
        instances_proved=sum(r["status"] == "proved" for r in results),
        instances_inconclusive=len(inc),
        obligations=sum(r["proved"] for r in results),
        paths=sum(r["paths"] for r in results),
        forks=sum(r.get("forks", 0) for r in results),
        symbolic_inputs=sum(r["inputs"] for r in results),
        solver=tot,
        functions_encoded=funcs,
        bounds=getattr(mod, "BOUNDS", ""),
        outside_bounds=getattr(mod, "OUTSIDE", ""),
        validated_values=sum(r.get("validated", 0) for r in results),
        undefined_points=excl[:40],
        samples=[dict(instance=r["name"], params=repr(insts[r["k"]]["params"]), status=r["status"],
                      obligations=r["proved"], wall=r["wall"]) for r in sorted(results, key=lambda r: r["k"])[:400]],
        known_findings=[f["what"] for f in kf]),
        assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON,
        wall_s=round(time.time() - t0, 2), violations=nviol)
    if only is None:
        with open(os.path.join(VERIF, "evidence", check + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d instances, %d obligations, %d paths, %d queries (%.1f s solver), %d inconclusive, %d violations, "
          "%.1f s (%.1f s real runs)" % (check, tier, len(results), ev["coverage"]["obligations"],
                                         ev["coverage"]["paths"], tot["queries"], tot["solver_s"], len(inc), nviol,
                                         time.time() - t0, t1 - t0))
    if os.environ.get("SYMTF_VERBOSE"):
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print("   %-40s %7.2fs paths=%d obl=%d q=%d %s" % (r["name"], r["wall"], r["paths"], r["proved"],
                                                              r["stats"]["queries"], r.get("excluded", [])[:2]))
    return rc


COMMON = [
    "real-number semantics: float rounding is abstracted, equalities are decided up to 1e-8 relative",
    "numpy/scipy/math primitives are modelled by symtf/shim.py (validated against the real run at random "
    "points on every run); matplotlib is a recording stub",
    "sizes and option flags are concrete per instance, all data values are symbolic",
]

if __name__ == "__main__":
    rc = main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
