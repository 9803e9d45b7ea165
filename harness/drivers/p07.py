"""P07: bootstrap resampling and run bookkeeping, judged by spec/Boot_Trace.tla."""
import inspect
import copy
import hashlib
import itertools

from harness.common import *
from harness import fakepool


def run():
    setup_imports()
    import numpy as np
    from esat.model.sa import SA
    from esat.error.bootstrap import Bootstrap
    ck = Check("P07", "model_checking",
               ["data and uncertainty cells are integers that identify their row",
                "workers run on pickled copies through a deterministic pool that completes tasks in a chosen order"])
    ck.design("Boot", "Boot_MC.cfg")
    interned = {}

    def dig(sa):
        h = hashlib.sha256()
        for a in (sa.W, sa.H, sa.WH, sa.V, sa.U, np.array(sa.q_list, dtype=float)):
            h.update(np.ascontiguousarray(a).tobytes())
        h.update(str((sa.converged, sa.converge_steps, sa.method, sa.metadata["max_iterations"],
                      sa.metadata["converge_n"], sa.metadata["converge_delta"])).encode())
        return interned.setdefault(h.digest(), len(interned) + 1)

    ints = lambda a: [[int(x) if float(x).is_integer() else 88888 for x in r] for r in np.asarray(a, dtype=float)]

    def base(rng, N, n=3, k=2, train=True, method="ls-nmf"):
        V = np.array([[r * 16 + c + 1 for c in range(n)] for r in range(N)], dtype=float)
        U = np.array([[r * 8 + c + 1 for c in range(n)] for r in range(N)], dtype=float)
        V, U = V[rng.permutation(N)], U[rng.permutation(N)]
        sa = SA(V=V, U=U, factors=k, method=method, seed=int(rng.integers(1, 1000)))
        sa.initialize()
        if train:
            sa.train(max_iter=int(rng.integers(2, 12)), converge_delta=float(rng.choice([0.125, 0.001])),
                     converge_n=int(rng.integers(2, 6)))
        return sa

    # single resamples (a refactoring may rename these two or change what they take: then only whole runs are judged)
    def offered(name, **kw):
        try:
            inspect.signature(getattr(Bootstrap, name)).bind(None, data=0, uncertainty=0, W=0, seed=0, **kw)
            return True
        except (AttributeError, TypeError):
            return False
    single = offered("_resample") and offered("_block_resample", overlapping=False)
    ck.notes.update(single_resamples=single)
    for i in range((400 if THOROUGH else 110) if single else 0):
        rng = np.random.default_rng([SEED, i])
        N = int(rng.integers(2, 25))
        bs = int(rng.integers(1, N + 5)) if i % 2 else int(rng.integers(1, max(2, N // 2 + 1)))
        kind = ["block", "overlap", "row"][i % 3] if i % 4 else "block"
        sa = base(rng, N, train=False)
        sa.W = np.array([[r, r + 100] for r in range(N)], dtype=float)
        sa.WH = sa.W @ sa.H
        cfg = {"N": N, "bs": bs, "kind": kind, "V": ints(sa.V), "U": ints(sa.U), "W": ints(sa.W), "n": 0}

        def sample(ev):
            K = 30 if kind != "overlap" else 30 + 12 * N
            for j in range(K):
                b = Bootstrap(sa=sa, block_size=bs, seed=3, parallel=False)
                a = dict(data=sa.V.copy(), uncertainty=sa.U.copy(), W=sa.W.copy(), seed=j * 7919 + i)
                if kind == "row":
                    r = b._resample(**a)
                else:
                    r = b._block_resample(**a, overlapping=(kind == "overlap"))
                if kind == "block" and j > 60:
                    break
                ev.append({"ev": "Sample", "v": ints(r[0]), "u": ints(r[1]), "w": ints(r[2]),
                           "index": [int(x) for x in r[3]]})
            ev.append({"ev": "Cover"})
        ck.rec.case(f"sample-{i}", cfg, sample)

    # whole bootstraps
    def runs(ev, sa, n, bs, seed, kw, parallel, order=None, reuse=True):
        fakepool.set_schedule(lambda k: order if order is not None and len(order) == k else list(range(k)))
        with single_core(bs % 2 == 0):
            b = Bootstrap(sa=sa, bootstrap_n=n, block_size=bs, seed=seed, parallel=parallel, **({} if bs % 2 == 0 else {"cpus": 3}))
            b.run(**kw)
        keys = [int(x) for x in b.bs_results]
        e = {"ev": "Runs", "keys": keys, "runs": [], "reuse": reuse}
        if sorted(keys) == list(range(1, n + 1)):
            for r in range(1, n + 1):
                x = b.bs_results[r]
                m = x["model"]
                ref = SA(V=m.V, U=m.U, factors=sa.factors, method=sa.method, seed=m.seed)
                ref.initialize(H=np.array(sa.H) if kw.get("keep_H", True) else None)
                ref.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"],
                          converge_n=sa.metadata["converge_n"], model_i=r)
                e["runs"].append({"index": [int(v) for v in x["index"]], "v": ints(m.V), "u": ints(m.U),
                                  "num": int(m.model_i), "dig": dig(m), "alone": dig(ref),
                                  "baseSeed": bool(np.all(np.asarray(m.seed) == sa.seed))})
        ev.append(e)
        return b

    for i in range(90 if THOROUGH else 30):
        rng = np.random.default_rng([SEED, 77, i])
        N = int(rng.integers(5, 16))
        n = int(rng.integers(1, 5))
        bs = int(rng.integers(1, N))
        if i % 5 == 0:              # many possible datasets
            N, n, bs = int(rng.integers(11, 16)), 4, 1
        sa = base(rng, N, n=4, method=["ls-nmf", "ws-nmf"][i % 2])
        kw = {}
        if rng.random() < 0.5:
            kw["keep_H"] = bool(rng.random() < 0.5)
        reuse = True
        if rng.random() < 0.5:
            reuse = kw["reuse_seed"] = bool(rng.random() < 0.5)
        kind = "block"
        if i % 3 == 1:
            kw["overlapping"], kind = True, "overlap"
        elif i % 3 == 2:
            kw["block"], kind = False, "row"
        seed = None if rng.random() < 0.3 else int(rng.integers(0, 5000))
        cfg = {"N": N, "bs": bs, "kind": kind, "V": ints(sa.V), "U": ints(sa.U), "W": [], "n": n}

        def whole(ev):
            runs(ev, sa, n, bs, seed, kw, False, reuse=reuse)
            todo = list(itertools.permutations(range(n))) if n <= 3 or THOROUGH else \
                [list(range(n))[::-1]] + [list(rng.permutation(n)) for _ in range(3)]
            for o in todo:
                np.random.seed(len(ev))
                runs(ev, sa, n, bs, seed, kw, True, o, reuse=reuse)
        ck.rec.case(f"runs-{i}", cfg, whole)

        if i < 12:
            def other(ev):
                x, y = [], []
                runs(x, sa, 3, 1, 11, kw, False, reuse=reuse)
                runs(y, sa, 3, 1, 12, kw, True, reuse=reuse)
                ev.append({"ev": "Seeds", "a": [r["index"] for r in x[0]["runs"]],
                           "b": [r["index"] for r in y[0]["runs"]]})
            ck.rec.case(f"seeds-{i}", cfg, other)

    for i in range(2):      # real processes
        rng = np.random.default_rng([SEED, 99, i])
        sa = base(rng, 11, n=4)
        cfg = {"N": 11, "bs": 3, "kind": "block", "V": ints(sa.V), "U": ints(sa.U), "W": [], "n": 6}

        def procs(ev):
            fakepool.install()
            runs(ev, sa, 6, 3, 5, {}, False)
            fakepool.real()
            runs(ev, sa, 6, 3, 5, {}, True)
        try:
            ck.rec.case(f"real-{i}", cfg, procs)
        finally:
            fakepool.install()

    def negatives():
        neg = []
        for n, c in enumerate(ck.rec.cases[::9]):
            c = copy.deepcopy(c)
            e = c["ev"][0]
            if e["ev"] == "Sample":
                if n % 2:
                    e["index"] = e["index"] + [0]
                else:
                    e["u"] = e["u"][1:] + [[-1, -1, -1]]
            elif e["ev"] == "Runs" and e["runs"]:
                e["runs"][0]["index"] = e["runs"][0]["index"] + [0]
            else:
                continue
            neg.append(c)
        for c in [x for x in ck.rec.cases if x["id"].startswith("sample")][1:110:9]:
            c = copy.deepcopy(c)
            c["ev"] = [c["ev"][0], c["ev"][-1]]
            if c["cfg"]["N"] > 3 * c["cfg"]["bs"] and c["cfg"]["kind"] == "overlap":
                neg.append(c)
        return neg

    ck.trace("Boot_Trace", negatives=negatives)
    return ck.finish()
