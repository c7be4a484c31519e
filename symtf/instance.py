"""Symbolic run of one harness instance (in a worker process)."""
import importlib
import os
import pickle
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def concrete(jobs, timeout=600):
    d = tempfile.mkdtemp(prefix="symtf.")
    try:
        a, b = os.path.join(d, "j"), os.path.join(d, "o")
        with open(a, "wb") as f:
            pickle.dump(jobs, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF, OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1")
        r = subprocess.run([PY, "-m", "symtf.concrete", a, b], cwd=d, env=env, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(b):
            raise RuntimeError("concrete runner failed: " + r.stdout.decode()[-2000:])
        with open(b, "rb") as f:
            return pickle.load(f)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def run_instance(check, inst, samples, limit, seed):
    """-> dict(status='proved'|'violation'|'inconclusive', ...)"""
    from . import load, sym as S, engine as E, decide, mk as MK, shim
    from .rec import Recorder
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    load.install()
    t0 = time.time()
    res = dict(name=inst["name"], status="inconclusive", reason="", stats=None, proved=0, paths=0)
    ctx = S.set_ctx(S.Ctx(seed + 7))
    eng = E.Engine(ctx, [s["env"] for s in samples if s["env"] is not None],
                   max_paths=inst.get("max_paths", 256), deadline=t0 + limit, seed=seed)
    try:
        mod = importlib.import_module("harness." + check.lower())
        fn = getattr(mod, inst["fn"])

        def body(p):
            m = MK.SymMK(eng, p)
            del Recorder.calls[:]
            eng.forced = eng.fixed = None
            try:
                fn(m, **inst["params"])
            except Exception as e:
                if isinstance(e, E.Inconclusive):
                    raise
                tb = traceback.extract_tb(e.__traceback__)
                p.exc = "%s: %s (%s)" % (type(e).__name__, str(e)[:160],
                                         "; ".join("%s:%d" % (os.path.basename(t.filename), t.lineno)
                                                   for t in tb[-4:]))
        eng.explore(body)
        res["paths"] = len(eng.paths)
        if not eng.paths:
            raise E.Inconclusive("no feasible path (vacuous)")
        job = dict(check=check, fn=inst["fn"], params=inst["params"], seed=seed)
        first = []

        def replay(env):
            o = concrete([dict(job, env=env)], 300)[0]
            if o.get("skip"):
                return None
            if o["exc"] is not None:
                return o["exc"]
            if o["fails"]:
                return "%s (rel. difference %.3g)" % o["fails"][0]
            return None
        # translator validation
        ncmp, mism = validate(eng, samples, S)
        res["validated"] = ncmp
        dec = decide.Decider(eng, t0 + limit, replay, seed)
        v = dec.run()
        res["proved"] = v.proved
        res["excluded"] = v.excluded[:20]
        if v.cands:
            nm, env, fail = v.cands[0]
            res.update(status="violation", obligation=nm, env=env, fail=fail)
        elif mism:
            res["reason"] = "translator disagrees with the real run: " + mism[0]
        elif v.unknown:
            res["reason"] = "; ".join(v.unknown[:4])
        elif ncmp == 0:
            res["reason"] = "no validation point"
        else:
            res["status"] = "proved"
    except (E.Inconclusive, S.Unsupported) as e:
        tb = traceback.extract_tb(e.__traceback__)
        res["reason"] = "%s: %s (%s)" % (type(e).__name__, e, "; ".join(
            "%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-6:]))
    except Exception:
        res["reason"] = "encoder error: " + traceback.format_exc()[-1500:]
    res["stats"] = eng.stats.as_dict()
    res["wall"] = round(time.time() - t0, 2)
    res["funcs"] = sorted(load.FUNCS)
    res["inputs"] = len(ctx.inputs)
    res["forks"] = eng.forks
    return res


def validate(eng, samples, S):
    """compare symbolic outputs with the real run at the sample points"""
    n = 0
    mism = []
    for smp in samples:
        env = smp["env"]
        if env is None:
            continue
        path = None
        for p in eng.paths:
            try:
                if all(S._evb(c, env, {}) for c in p.assume + p.pc):
                    path = p
                    break
            except (KeyError, OverflowError, ZeroDivisionError):
                continue
        if path is None:
            continue
        if (path.exc is None) != (smp["exc"] is None):
            mism.append("symbolic %s / real %s" % (path.exc, smp["exc"]))
            continue
        if path.exc is not None:
            n += 1
            continue
        if len(path.obls) != len(smp["obls"]):
            mism.append("number of obligations %d / %d" % (len(path.obls), len(smp["obls"])))
            continue
        for o, (kind, name, okf, a, b, mx) in zip(path.obls, smp["obls"]):
            if o.kind == "ok":
                if kind == "shape":
                    n += 1
                    continue
                cv = [S._evb(c, env, {}) for c in o.c]
                if len(cv) != a.size:
                    mism.append("%s: size" % name)
                    continue
                if not okf and all(cv):
                    mism.append("%s: holds symbolically, fails in the real run" % name)
                n += 1
                continue
            if kind != "eq":
                mism.append("%s: kind" % name)
                continue
            if a is None:
                continue
            for sv, rv in ((o.a, a), (o.b, b)):
                rv = np.asarray(rv).ravel()
                if len(sv) != rv.size:
                    mism.append("%s: size" % name)
                    break
                idx = range(len(sv)) if len(sv) <= 48 else np.linspace(0, len(sv) - 1, 48).astype(int)
                sc = max(1.0, float(np.nanmax(np.abs(np.where(np.isfinite(rv), rv, 0)))) if rv.size else 1.0)
                cache = {}
                for i in idx:
                    try:
                        x = S._ev(sv[i], env, cache)
                    except (OverflowError, ZeroDivisionError):
                        continue
                    y = rv[i]
                    n += 1
                    if x != x or y != y:
                        if (x != x) != (y != y):
                            mism.append("%s[%d]: %r / %r" % (name, i, x, y))
                        continue
                    if abs(x - y) > 1e-6 * sc and not (abs(x) == float("inf") and abs(y) == float("inf")):
                        mism.append("%s[%d]: %r / %r" % (name, i, x, y))
    return n, mism
