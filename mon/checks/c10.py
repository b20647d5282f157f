"""C10: neighbourhoods. Black-box probing: making particle j the only best one reveals who follows
j, hence the complete graph; compared with distances, Delaunay triangulations and graph axioms."""
import itertools

import numpy as np
from scipy.spatial import Delaunay

from pyswarms.backend.swarms import Swarm
from pyswarms.backend.topology import Pyramid, Random, Ring, Star, VonNeumann

from .. import oracle as O
from .. import sessions as S
from .. import work as W


def cases(tier, seed):
    rng = S.rng_for("C10", seed, tier)
    LAY = ["random", "random", "dups", "lattice", "same", "clusters", "line", "far", "tight", "shifted", "mixed"]
    i = 0
    for topo in ("star", "ring", "vonneumann", "pyramid", "random"):
        for static in (False, True):
            for lay in set(LAY):
                for n, d in [(1, 1), (2, 2), (3, 2), (4, 2), (5, 3), (9, 2), (14, 3), (30, 2)]:
                    i += 1
                    if topo == "pyramid" and (d < 2 or lay in ("same", "dups", "line", "lattice", "far", "tight", "shifted", "mixed")):
                        continue
                    if topo == "random" and n < 3:
                        continue
                    yield mk(rng, topo, static, lay, n, d, seed=i)
    for j in range(1200 if tier == "quick" else 15000):
        topo = W.pick(rng, ["star", "ring", "ring", "vonneumann", "pyramid", "random", "random"])
        d = int(rng.integers(1, 6))
        n = int(W.pick(rng, [1, 2, 3, 4, 5, 6, 8, 11, 16, 25, 40]))
        lay = W.pick(rng, LAY)
        if topo == "pyramid":
            d = min(max(2, d), 4)
            lay = W.pick(rng, ["random", "random", "clusters"])
        if topo == "random":
            n = max(3, n)
        yield mk(rng, topo, bool(rng.random() < 0.5), lay, n, d)
    # every Delannoy number that fits, larger swarms
    for d in range(1, 7):
        for r in range(0, 12):
            k = W.delannoy(d, r)
            if k <= (200 if tier == "quick" else 700):
                yield mk(rng, "vonneumann", False, "random", k + int(rng.integers(0, 20)), d, rounds=1, opts={"r": r, "p": 1 + (d + r) % 2}, seed=d * 100 + r)
    for topo, n, o in [("ring", 100, {"k": 60, "p": 2}), ("ring", 150, {"k": 2, "p": 1}), ("ring", 300, {"k": 7, "p": 2}), ("random", 40, {"k": 3}), ("random", 60, {"k": 1}),
                       ("random", 50, {"k": 48}), ("pyramid", 70, {}), ("pyramid", 120, {}), ("star", 300, {})]:
        for static in (False, True):
            yield mk(rng, topo, static, "random", n, 3, rounds=2, opts=o, seed=n)
    for opt, topo in S.ALL_KINDS:
        for static in (False, True):
            for n, k in [(4, 1), (5, 3), (6, 6), (9, 2), (24, 2), (41, 10)]:
                i += 1
                o = {"c1": 1.2, "c2": 0.8, "w": 0.9}
                if opt in ("lbest", "binary") or topo == "ring":
                    o.update(k=k, p=1 + i % 2)
                if topo == "vonneumann":
                    o.update(r=1 if n >= 5 else 0, p=1 + i % 2)
                if topo == "random":
                    o["k"] = min(k, n - 2)
                c = S.base_conf(opt, n=n, d=2, topo=topo, static=static, options=o, clamp=[-1.0, 1.0] if topo == "pyramid" or i % 3 == 0 else None)
                yield {"kind": "session", "seed": i, "conf": c, "calls": [S.row("rastrigin", 12 if n < 20 else 5), S.script("random", 5, i), S.row("linear", 4)]}
    for j in range(500 if tier == "quick" else 6000):
        s = S.gen_session(rng, max_iters=25, p_multi=0.5, opt=W.pick(rng, ["lbest", "general", "general", "general", "binary", "gbest"]))
        if s["conf"]["vh"] != "adjust":
            yield s
    for j in range(4 if tier == "quick" else 30):
        for n, k in [(6, 1), (8, 2), (5, 3), (12, 1)]:
            for static in (True, False):
                yield {"kind": "redraw", "n": n, "k": k, "static": static, "j": j}


def mk(rng, topo, static, lay, n, d, **extra):
    s = {"kind": "probe", "topo": topo, "static": static, "lay": lay, "n": n, "d": d, "opts": {}, "rounds": int(rng.integers(2, 5))}
    if topo == "ring":
        s["opts"] = {"k": int(min(n, max(1, rng.integers(1, n + 1)))), "p": int(rng.integers(1, 3))}
    if topo == "vonneumann":
        s["opts"] = {"r": int(W.pick(rng, [r for r in range(0, 5) if W.delannoy(d, r) <= n])), "p": int(rng.integers(1, 3))}
    if topo == "random":
        s["opts"] = {"k": int(max(1, min(n - 2, rng.integers(1, 5))))}
    if topo in ("ring", "vonneumann") and rng.random() < 0.15:
        s["opts"]["p"] = W.pick(rng, [1.5, 3, 4, float("inf")])
    s.update(extra)
    return s


def layout(rng, lay, n, d):
    if lay == "mixed":
        lay = W.pick(rng, ["random", "dups", "lattice", "same", "clusters", "line", "far", "tight", "shifted"])
    if lay == "tight":  # a contracted swarm
        return rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-150, -8)
    if lay == "shifted":
        return rng.normal(size=d) + rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-11, -6)
    if lay == "dups":
        x = rng.random((max(1, n // 2), d))
        return x[rng.integers(len(x), size=n)]
    if lay == "lattice":
        return rng.integers(0, 3, (n, d)).astype(float)
    if lay == "same":
        return np.tile(rng.random(d), (n, 1))
    if lay == "clusters":
        c = rng.random((3, d)) * 50
        return c[rng.integers(3, size=n)] + rng.random((n, d))
    if lay == "line":
        return np.outer(np.arange(n), np.ones(d)) + 0.0
    if lay == "far":
        return rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-6, 9)
    return rng.random((n, d)) * 10 - 5


TOP = {"star": Star, "ring": Ring, "vonneumann": VonNeumann, "pyramid": Pyramid, "random": Random}


def call(top, pos, pb, pc, opts, box=None):
    """box: one swarm for all calls, which is moved in place (as by x += v in a custom loop)."""
    if box and box["sw"].position.shape == pos.shape:
        sw = box["sw"]
        sw.position[...], sw.pbest_pos[...], sw.pbest_cost[...] = pos, pb, pc
    else:
        sw = Swarm(position=np.array(pos, float), velocity=np.zeros(np.shape(pos)), options={"c1": 1, "c2": 1, "w": 1})
        sw.pbest_pos, sw.pbest_cost = np.array(pb, float), np.array(pc, float)
        if box is not None:
            box["sw"] = sw
    keep = (sw.position.copy(), sw.pbest_pos.copy(), sw.pbest_cost.copy())
    bp, bc = top.compute_gbest(sw, **opts)
    return np.array(bp, float), bc, sw, keep


def follow(bp, pb, n, d, j):
    """Which particles follow j: rows of best_pos equal to pbest_pos[j] (all rows of pb are distinct)."""
    bp = np.broadcast_to(bp, (n, d)) if bp.ndim == 1 else bp
    return (bp == pb[j]).all(axis=1)


def run(spec, mon):
    return globals()["k_" + spec["kind"]](spec, mon)


def check_common(mon, topo, bp, bc, pc, pb, sw, keep, n, d):
    mon.check(bp.shape in ((n, d),) or ((topo == "star" or (topo == "pyramid" and n < d + 2)) and bp.shape == (d,)), "best_pos has shape %s" % (bp.shape,), topo=topo)
    mon.check(np.ndim(bc) == 0 and float(bc) == pc.min(), "best_cost is not the minimum of the personal bests", got=bc, want=pc.min(), topo=topo)
    mon.check(np.array_equal(sw.position, keep[0]) and np.array_equal(sw.pbest_pos, keep[1]) and np.array_equal(sw.pbest_cost, keep[2]),
              "compute_gbest modified the swarm", topo=topo)


def reference(spec, X):
    """(must, may) adjacency (row: particle, column: neighbour) of deterministic topologies."""
    n, d, o = spec["n"], spec["d"], spec["opts"]
    full = np.ones((n, n), bool)
    if spec["topo"] == "star":
        return full, full
    if spec["topo"] in ("ring", "vonneumann"):
        k = o["k"] if spec["topo"] == "ring" else W.delannoy(d, o["r"])
        if k == 1:
            return np.eye(n, dtype=bool), np.eye(n, dtype=bool)
        return O.knn(X, k, o["p"])
    if n < d + 2:
        return full, full
    must, may = full.copy(), ~full
    for q in ("QJ0.001 Qbb Qc Qx", "QJ Qbb Qc Qx", "QJ0.0001 Qbb Qc", "Qbb Qc Qz Q12", "QJ0.0005 Qbb Qc Qx"):
        try:
            tri = Delaunay(X, qhull_options=q)
        except Exception:
            continue
        A = np.zeros((n, n), bool)
        for s in tri.simplices:
            for a, b in itertools.permutations(s, 2):
                A[a, b] = True
        must &= A
        may |= A
    return must, may


def k_probe(spec, mon):
    rng = np.random.default_rng(spec["seed"])
    n, d, topo, opts = spec["n"], spec["d"], spec["topo"], spec["opts"]
    kw = {} if not spec["static"] and spec["seed"] % 2 else {"static": spec["static"]}  # dynamic by default
    top = TOP[topo](**kw) if topo != "vonneumann" else VonNeumann(**kw)
    static = spec["static"] or topo == "vonneumann"
    first = None
    mon.seen("layouts", (topo, static, spec["lay"]))
    graph_seen = None
    box = {} if spec["seed"] % 3 == 0 else None
    mon.count("probes_moved_in_place", int(box is not None))
    for r in range(spec["rounds"]):
        X = layout(rng, spec["lay"], n, d)
        pb = rng.random((n, d)) + np.arange(n)[:, None]  # distinct rows, unrelated to X
        if first is None:
            first = X
        ref = first if static else X
        if topo == "random":
            graph_seen = probe_random(spec, top, X, pb, mon, rng, graph_seen, box)
            continue
        must, may = reference(spec, ref)
        A = np.zeros((n, n), bool)
        for j in rng.permutation(n) if n <= 16 else rng.choice(n, 12, replace=False):
            pc = rng.random(n) + 1.0
            pc[j] = -float(rng.random())
            bp, bc, sw, keep = call(top, X, pb, pc, opts, box)
            check_common(mon, topo, bp, bc, pc, pb, sw, keep, n, d)
            if bp.shape not in ((n, d), (d,)):
                return
            f = follow(bp, pb, n, d, j)
            A[:, j] = f
            mon.count("probed_edges", n)
            bad = (must[:, j] & ~f) | (f & ~may[:, j])
            i = int(np.argmax(bad))
            mon.check(not bad.any(), "%s (static=%s): wrong neighbourhood" % (topo, spec["static"]), particle=i, other=int(j), follows=bool(f[i]),
                      x=ref[i], y=ref[j], opts=opts, round=r)
            # everyone gets the position of a best neighbour, also among the non-best ones
            B = np.broadcast_to(bp, (n, d))
            who = [np.nonzero((pb == B[i]).all(axis=1))[0] for i in range(n)]
            mon.check(all(len(w) == 1 for w in who), "best_pos is not one of the personal best positions", topo=topo)
            if all(len(w) == 1 for w in who):
                w = np.array([w[0] for w in who])
                for i in range(n):
                    m = np.nonzero(must[i])[0]
                    mon.check(bool(may[i, w[i]]) and (len(m) == 0 or pc[w[i]] <= pc[m].min()), "%s: a particle follows one that is not its best neighbour" % topo,
                              particle=i, follows=int(w[i]), cost=pc[w[i]], best=pc[m].min() if len(m) else None)
            mon.count("followers", int(f.sum()))
        # ties: any best neighbour will do, infinite costs included
        for pc in (np.full(n, np.inf), np.zeros(n), rng.integers(0, 2, n).astype(float), np.where(rng.random(n) < 0.5, np.inf, rng.normal(size=n))):
            bp, bc, sw, keep = call(top, X, pb, pc, opts, box)
            check_common(mon, topo, bp, bc, pc, pb, sw, keep, n, d)
            B = np.broadcast_to(bp, (n, d))
            for i in range(n):
                w = np.nonzero((pb == B[i]).all(axis=1))[0]
                m = np.nonzero(must[i])[0]
                mon.check(len(w) == 1 and bool(may[i, w[0]]) and (len(m) == 0 or pc[w[0]] <= pc[m].min()),
                          "%s: tied or infinite costs: a particle does not follow a best neighbour" % topo, particle=i)
            mon.count("tied_calls")


def connected(A):
    n = len(A)
    seen, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in np.nonzero(A[i])[0]:
            if int(j) not in seen:
                seen.add(int(j))
                todo.append(int(j))
    return len(seen) == n


def probe_random(spec, top, X, pb, mon, rng, before, box=None):
    n, d, k = spec["n"], spec["d"], spec["opts"]["k"]
    A = np.zeros((n, n), bool)
    for j in range(n):
        pc = rng.random(n) + 1.0
        pc[j] = -1.0
        bp, bc, sw, keep = call(top, X, pb, pc, spec["opts"], box)
        check_common(mon, "random", bp, bc, pc, pb, sw, keep, n, d)
        f = follow(bp, pb, n, d, j)
        A[:, j] = f
        mon.count("probed_edges", n)
        mon.check(bool(f[j]), "random: a particle is not its own neighbour", particle=j)
        mon.check(int(f.sum()) >= min(k, n - 1) + 1, "random: fewer than k others are connected with a particle", got=int(f.sum()) - 1, k=k)
        nb = top.neighbor_idx
        if nb is not None and len(nb) == n:
            M = np.zeros((n, n), bool)
            for i in range(n):
                M[i, np.asarray(nb[i]).astype(int).ravel()] = True
            graph_ok(M, k, mon)
            mon.check(np.array_equal(M[:, j], f), "random: particles do not follow the best of their neighbours", particle=j)
            B = np.broadcast_to(bp, (n, d))
            for i in range(n):
                m = np.nonzero(M[i])[0]
                mon.check(bool((B[i] == pb[m[np.argmin(pc[m])]]).all()), "random: best neighbour not followed", particle=i)
    if spec["static"]:
        graph_ok(A, k, mon)
        if before is not None:
            mon.check(np.array_equal(A, before), "static random topology changed its graph")
            mon.count("static_rounds")
    return A


def graph_ok(M, k, mon):
    n = len(M)
    mon.check(bool(M.diagonal().all()), "random: a particle is not its own neighbour")
    mon.check(np.array_equal(M, M.T), "random: connections are not symmetric")
    mon.check(connected(M), "random: graph is not connected")
    mon.check(bool((M.sum(axis=1) - 1 >= min(k, n - 1)).all()), "random: fewer than k others", got=int(M.sum(axis=1).min()) - 1, k=k)
    mon.count("graphs")


def k_redraw(spec, mon):
    """Dynamic graphs are drawn anew from all possible partners, static ones stay."""
    rng = np.random.default_rng(spec["seed"])
    n, k = spec["n"], spec["k"]
    top = Random(static=spec["static"])
    X = rng.random((n, 2))
    pb = rng.random((n, 2)) + np.arange(n)[:, None]
    seen = np.zeros((n, n), bool)
    graphs = set()
    R = 300
    missing = np.zeros((n, n))
    for r in range(R):
        j = r % n
        pc = rng.random(n) + 1
        pc[j] = -1
        bp, bc, sw, keep = call(top, X, pb, pc, {"k": k})
        f = follow(bp, pb, n, 2, j)
        seen[:, j] |= f
        missing[:, j] += ~f
        graphs.add((j, f.tobytes()))
    if spec["static"]:
        mon.check(len(graphs) == n, "static random topology changed its graph")
    else:
        # a pair is connected directly with probability of at least k/(n-1), so in (R/n) draws
        # it is missed every time with probability (1-k/(n-1))**(R/n); judged on the pair union
        pair = seen | seen.T
        frac = pair[~np.eye(n, dtype=bool)].mean()
        mon.check(frac > 0.8, "dynamic random topology never connects some pairs", fraction=frac)
        mon.check(len(graphs) > n, "dynamic random topology does not redraw its graph")
        if k < n - 2:
            m = missing[~np.eye(n, dtype=bool)].sum()
            mon.check(m > 0, "random topology connects everyone", k=k, n=n)
    mon.count("redraws", R)


def k_session(spec, mon):
    """Neighbourhoods inside of the optimizers: in every iteration the attractor of each particle
    is the personal best of a best particle of the documented neighbourhood."""
    c = spec["conf"]
    topo = {"gbest": "star", "lbest": "ring", "binary": "ring"}.get(c["opt"]) or c["topo"]
    static = (c["static"] and c["opt"] != "binary") or topo == "vonneumann"
    sp = {"n": c["n"], "d": c["d"], "topo": topo, "opts": {k: c["options"][k] for k in ("k", "p", "r") if k in c["options"]}}
    box = {}

    def hooks(b):
        def hook(rec, k):
            if k.t == 0:
                box["rows"] = []
            else:
                snap(b)

        return hook

    def snap(b):
        sw = b.opt.swarm
        box["rows"].append((np.array(sw.best_pos, dtype=float), sw.best_cost, np.array(sw.pbest_pos, dtype=float), np.array(sw.pbest_cost, dtype=float)))

    def each(tr, b, m):
        if tr.error is not None:
            m.fail("objective called too often", error=repr(tr.error))
            return
        snap(b)
        n, d = c["n"], c["d"]
        graph = None
        for t, (bp, bc, pb, pc) in enumerate(box["rows"]):
            X = np.asarray(tr.P[t], float)
            must = may = None
            if topo == "random":
                nb = tr.toplog[t]["neigh"]
                if nb is not None and len(nb) == n:
                    may = np.zeros((n, n), bool)
                    for q, r in enumerate(nb):
                        may[q, r.astype(int)] = True
                    must = may
                    graph_ok(may, c["options"]["k"], m)
                    if c["static"]:
                        graph = b.graph = getattr(b, "graph", may)
                        m.check(np.array_equal(graph, may), "static random topology changed its graph during a run", t=t)
            elif n > 60 and t % 4:
                continue
            else:
                must, may = reference(sp, b.static_x if static else X)
            m.check(float(bc) == pc.min(), "best cost is not the minimum of the personal bests", t=t, got=bc, want=pc.min())
            if must is None:
                continue
            if not m.check(bp.shape in ((n, d), (d,)), "best_pos has shape %s" % (bp.shape,)):
                return
            B = np.broadcast_to(bp, (n, d))
            eq = (B[:, None, :] == pb[None, :, :]).all(axis=2)
            with np.errstate(invalid="ignore"):
                best = np.where(must, pc[None, :], np.inf).min(axis=1)
            ok = (eq & may & ((pc[None, :] <= best[:, None]) | ~must.any(axis=1)[:, None])).any(axis=1)
            if not m.check(bool(ok.all()), "%s in %s (static=%s): a particle's attractor is not the best of its neighbourhood" % (topo, c["opt"], c["static"]), t=t,
                           particle=int(np.argmin(ok)), attractor=B[int(np.argmin(ok))], follows=np.nonzero(eq[int(np.argmin(ok))])[0][:4],
                           neighbours=np.nonzero(may[int(np.argmin(ok))])[0][:12], opts=sp["opts"]):
                return
            m.count("session_followers", n)
        m.seen("sessions", (c["opt"], topo, c["static"], min(n, 50)))

    S.run_session(spec, mon, each, hooks=hooks)
