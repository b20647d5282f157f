"""C08: every move obeys the velocity and position equations. Oracle: interval arithmetic on
the recorded histories with all admissible attractors."""
import numpy as np

from .. import monitors as M
from .. import sessions as S
from .. import work as W


def cases(tier, seed):
    # the recorded finding: vh_strategy="adjust" in an optimizer
    for opt in ("gbest", "lbest"):
        yield {"kind": "adjust", "seed": 5, "conf": S.base_conf(opt, n=5, d=2, vh="adjust", bounds=[[-2.0, -2.0], [2.0, 2.0]], bh="nearest"),
               "calls": [S.row("sphere", 6)]}
    for s in S.directed():
        yield s
    for s in S.extremes(tier, light=True):
        yield s
    rng = S.rng_for("C08", seed, tier)
    for i in range(2200 if tier == "quick" else 24000):
        yield S.gen_session(rng, max_iters=40, p_oh=0.35)


def run(spec, mon):
    c = spec["conf"]

    def each(tr, b, m):
        if tr.error is not None:
            m.fail("objective called too often", error=repr(tr.error))
            return
        M.motion(tr, b, m, b.static_x)
        o = c["options"]
        if o["c1"] == 0 and o["c2"] == 0 and not c["oh"] and c["vh"] == "unmodified" and c["clamp"] is None:
            for a, v in zip(tr.V, tr.V[1:]):
                m.check(bool((np.abs(v - o["w"] * a) <= 4e-16 * np.abs(v)).all()), "without attraction the velocity is not w*v")
                m.count("pure_inertia_steps")

    S.run_session(spec, mon, each)
