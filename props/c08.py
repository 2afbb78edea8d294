"""C08: seeded draws of a hidden semi-Markov family are a function of seed, model and series."""

import random

import numpy as np

from . import hs
from .c07 import P as C07P, same


def churn(n):
    """Uses up process-global random numbers."""
    np.random.seed(n)
    np.random.random(n % 17)
    random.seed(n)
    random.random()


OPS = {
    "predictions": lambda f, b, ys, Xs, kw: f.predict(b.coef, b.split, ys, Xs, **kw),
    "sampled states": lambda f, b, ys, Xs, kw: f.sample_posterior_states(b.coef, b.split, ys, Xs, **kw),
    "posterior duration residuals": lambda f, b, ys, Xs, kw: f.get_resid(
        b.coef, b.split, ys, Xs, resid_type="posterior_dur", **kw
    ),
}


class P(C07P):
    id = "C08"
    ops = OPS

    def gen_more(self, sc, rng):
        sc["n_samples"] = rng.choice([1, 2, 5])
        sc["draw_seed"] = rng.choice([0, 1, 7, 12345])
        sc["churn"] = rng.randrange(1, 1000)

    def call(self, sc, op, f, b, ys, Xs, kw):
        b.calls = getattr(b, "calls", 0) + 1
        churn(sc["churn"] * b.calls)
        return self.ops[op](
            f, b, ys, Xs, dict(kw, n_samples=sc["n_samples"], seed=sc["draw_seed"])
        )


PROP = P()
