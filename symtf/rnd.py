"""Seeded generators: their draws are fixed by the seed, hence constants, not arbitrary values."""
import numpy as np

STATE, RNG = np.random.RandomState, np.random.default_rng


def make(seed, new=False):
    return None if seed is None else (RNG if new else STATE)(seed)


def draw(g, lo, hi, size, isint):
    if isint:
        return g.integers(lo, hi + 1, size) if hasattr(g, "integers") else g.randint(lo, hi + 1, size)
    if hi == "1-":
        return g.random(size) if hasattr(g, "integers") else g.random_sample(size)
    return g.standard_normal(size)
