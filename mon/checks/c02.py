"""C02: best-so-far bookkeeping. Oracle: running minima recomputed from the recorded evaluations."""
from .. import monitors as M
from .. import sessions as S


def cases(tier, seed):
    for s in S.directed():
        yield s
    for s in S.extremes(tier):
        yield s
    rng = S.rng_for("C02", seed, tier)
    for i in range(2500 if tier == "quick" else 30000):
        yield S.gen_session(rng, p_ftol=0.15)


def run(spec, mon):
    def each(tr, b, m):
        if tr.error is not None:
            m.fail("objective called too often", error=repr(tr.error))
            return
        M.bookkeeping(tr, b.opt, m)

    S.run_session(spec, mon, each)
