"""Runs harness instances on concrete inputs against the plain repository.

usage: python -m symtf.concrete JOBS.pkl OUT.pkl
job = dict(check, inst, env (or None), seed)"""
import importlib
import os
import pickle
import signal
import sys
import types
import warnings

REPO = os.environ.get("TFTB_REPO", "/repo")


class StubFinder(object):
    """drawing library stand-in: records calls (the plots are not rendered)"""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("matplotlib", "mpl_toolkits"):
            import importlib.machinery
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        from .rec import Recorder

        class M(types.ModuleType):
            def __getattr__(self, n):
                if n.startswith("__"):
                    raise AttributeError(n)
                return Recorder(self.__name__ + "." + n)
        m = M(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


class ConcRandom(object):
    """np.random replaced by the recorded outcomes of a run"""

    def __init__(self):
        self.mk = None
        self.gen = None

    def _draw(self, lo, hi, size, isint=False):
        import numpy as np
        from . import rnd
        g = self.gen if self.gen is not None else self.mk.fixed
        if g is not None:
            return rnd.draw(g, lo, hi, size, isint)
        if size is None or size == ():
            return self.mk.draw(lo, hi, isint)
        shp = tuple(size) if isinstance(size, (tuple, list)) else (size,)
        shp = tuple(s.__index__() for s in shp)
        n = int(np.prod(shp)) if shp else 1
        return np.array([self.mk.draw(lo, hi, isint) for _ in range(n)],
                        dtype=int if isint else float).reshape(shp)

    def rand(self, *s):
        return self._draw(0, "1-", s if s else None)

    def randn(self, *s):
        return self._draw(None, None, s if s else None)

    def random(self, size=None, **k):
        return self._draw(0, "1-", size)

    random_sample = ranf = sample = random

    def standard_normal(self, size=None, **k):
        return self._draw(None, None, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._draw(None, None, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._draw(0, "1-", size)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return self._draw(int(low), int(high) - 1, size, True)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        arr = np.asarray(a) if not isinstance(a, int) else np.arange(a)
        return arr[self._draw(0, len(arr) - 1, size, True)]

    def seed(self, seed=None):
        from . import rnd
        self.mk.fixed = rnd.make(seed)

    def _gen(self, seed, new):
        from . import rnd
        r = ConcRandom()
        r.mk, r.gen = self.mk, rnd.make(seed, new)
        return r

    def default_rng(self, seed=None):
        return self._gen(seed, True)

    def RandomState(self, seed=None):
        return self._gen(seed, False)


RND = ConcRandom()


def setup():
    sys.meta_path.insert(0, StubFinder())
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import numpy as np
    import scipy.signal
    import scipy.interpolate
    import scipy.optimize
    import scipy.integrate  # noqa
    from . import rnd  # noqa  (keeps the real generators)
    np.seterr(all="ignore")
    for n in dir(RND):
        if not n.startswith("_") and n != "mk" and hasattr(np.random, n):
            setattr(np.random, n, getattr(RND, n))


class Timeout(Exception):
    pass


def run_job(job):
    from .mk import ConcMK, Skip
    from .rec import Recorder
    mod = importlib.import_module("harness." + job["check"].lower())
    fn, params = job["fn"], job["params"]
    fn = getattr(mod, fn)
    tries = 1 if job["env"] is not None else 60
    for k in range(tries):
        mk = ConcMK(job["env"] or {}, job["seed"] * 1000 + k)
        RND.mk = mk
        del Recorder.calls[:]
        exc = None

        def onalarm(*a):
            raise Timeout("no result within 60 s")
        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(60)
        try:
            fn(mk, **params)
        except Skip:
            continue
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            exc = "%s: %s (%s)" % (type(e).__name__, str(e)[:200],
                                   "; ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-3:]))
        finally:
            signal.alarm(0)
        fails = [(o[1], o[5]) for o in mk.obls if not o[2]]
        out = dict(env=mk.env, exc=exc, fails=fails, n=len(mk.obls))
        if job.get("values"):
            out["obls"] = mk.obls
        return out
    return dict(env=None, exc=None, fails=[], n=0, skip=True)


def main():
    setup()
    jobs = pickle.load(open(sys.argv[1], "rb"))
    outs = []
    for j in jobs:
        outs.append(run_job(j))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(outs, f)


if __name__ == "__main__":
    main()
