"""C05: containment. Monitor: every evaluated, recorded and current coordinate against the box."""
import numpy as np

from .. import monitors as M
from .. import sessions as S
from .. import work as W

BOXES = {
    "unit": [[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]],
    "tiny": [[0.1, -1e-9, 1.0], [0.1 + 1e-9, 1e-9, 1.0 + 4e-16]],
    "huge": [[-1e150, -1e16, -1e9], [1e150, 1e17, 1e9]],
    "mixed": [[-1e-3, -500.0, 3.0], [1e-3, 0.25, 3.3]],
    "far": [[1e9, -1e9 - 1, 1e6], [1e9 + 1, -1e9, 1e6 + 1e-3]],
    "third": [[-1 / 3, 0.1, -0.7], [0.1, 0.3, 2 / 3]],
}


def cases(tier, seed):
    i = 0
    for box in BOXES:
        for bh in W.BH:
            for opt, topo in [("gbest", None), ("lbest", None), ("general", "random")]:
                for o in [{"c1": 2.5, "c2": 2.5, "w": 1.3}, {"c1": 0.5, "c2": 0.5, "w": 3.0}]:
                    i += 1
                    if topo and o["w"] == 3.0:
                        continue
                    if box == "huge" and o["w"] > 1:
                        o = dict(o, w=0.9)
                    c = S.base_conf(opt, n=8, d=3, topo=topo, bounds=BOXES[box], bh=bh, options=dict(o), vh=["unmodified", "invert", "zero"][i % 3],
                                    bounds_as=["array", "list", "listofarrays"][i % 3], init=[None, "corner"][i % 2])
                    yield {"kind": "box", "seed": i, "conf": c, "calls": [S.row("sphere", 40), S.row("rastrigin", 8), S.row("linear", 4, reset=bool(i % 2))]}
    for i, bh in enumerate(W.BH):
        for j, s in enumerate(S.extremes(tier, light=True, bounds=lambda d: [[-1.0] * d, [1.5] * d], bh=bh)):
            if s["conf"]["opt"] != "binary" and (tier != "quick" or (i + j) % 4 == 0):
                yield s
    for i, bh in enumerate(W.BH):  # velocities growing up to 1e280: still finite numbers
        for j, w in enumerate([3.0, -3.0]):
            for box in ("unit", "mixed"):
                c = S.base_conf(["gbest", "lbest"][j], n=4, d=3, bounds=BOXES[box], bh=bh, options={"c1": 1.5, "c2": 0.5, "w": w})
                yield {"kind": "diverge", "seed": i, "conf": c, "calls": [S.row("sphere", 580), S.row("linear", 3)]}
    rng = S.rng_for("C05", seed, tier)
    for i in range(3500 if tier == "quick" else 40000):
        s = S.gen_session(rng, bounded=True, opt=W.pick(rng, ["gbest", "lbest", "general"]))
        if rng.random() < 0.4:
            s["conf"]["options"].update({"c1": float(rng.uniform(0, 4)), "c2": float(rng.uniform(0, 4)), "w": float(rng.uniform(-1, 3))})
        yield s


def run(spec, mon):
    def each(tr, b, m):
        M.containment(tr, b, m)

    S.run_session(spec, mon, each)
