"""P05/P06: batches. Every completion order of the workers is imposed through the fake pool; the
result is judged by spec/Batch_Trace.tla against each model trained alone."""
import contextlib
import copy
import hashlib
import io
import itertools

from harness.common import *
from harness import fakepool


def run(check):
    setup_imports()
    import numpy as np
    from esat.model.sa import SA
    from esat.model.batch_sa import BatchSA
    ck = Check(check, "model_checking",
               ["workers are run one at a time on pickled copies by a deterministic pool that completes tasks in a chosen "
                "order; a few cases use real processes", "losses are compared by exact rank"])
    ck.design("Batch", "Batch_MC.cfg")
    interned = {}

    def dig(sa):
        h = hashlib.sha256()
        for a in (sa.W, sa.H, sa.WH, sa.V, sa.U, sa.We, np.array(sa.q_list if sa.q_list is not None else [], dtype=float)):
            h.update(b"-" if a is None else np.ascontiguousarray(a).tobytes())
        h.update(str((sa.converged, sa.converge_steps, sa.method, sa.factors)).encode())
        return interned.setdefault(h.digest(), len(interned) + 1)

    def opts(sa):
        md = sa.metadata
        return [md.get("max_iterations", -1), fx(md.get("converge_delta", -1), 0.0005), md.get("converge_n", -1),
                str(md.get("init_method")), sa.factors, sa.method]

    def describe(sa):
        return {"num": int(sa.model_i), "seed": int(sa.seed), "opts": opts(sa), "dig": dig(sa),
                "qt": sa.Qtrue, "qr": sa.Qrobust}

    def rank(ev):
        for f in ("qt", "qr"):
            vals = set()
            rows = [r for e in ev for r in (e.get("models", []) if e["ev"] == "Run" else [e])]
            for r in rows:
                if r[f] is not None and not np.isnan(r[f]):
                    vals.add(float(r[f]))
            order = {v: i for i, v in enumerate(sorted(vals))}
            for r in rows:
                x = r[f]
                r[f] = -1 if x is None else NANV if np.isnan(x) else order[float(x)]

    def batch(d, parallel, cores=2):
        np.random.seed(d["salt"] + (cores or 0))
        b = BatchSA(V=d["V"], U=d["U"], factors=d["k"], models=d["n"], method=d["method"], seed=d["seed"],
                    H=d["H"], W=d["W"], parallel=parallel, cores=cores, verbose=d["verbose"], **d["kw"])
        return b

    def run_batch(ev, d, parallel, order=None, cores=2, must_fail=False, twice=False):
        fakepool.set_schedule(lambda n: order if order is not None and len(order) == n else list(range(n)))
        with contextlib.redirect_stdout(io.StringIO()), single_core(d["n"] % 3 == 0):
            b = batch(d, parallel, None if d["n"] % 3 == 0 else cores)
            if twice:
                b.train()
                b.rng = np.random.default_rng(b.seed)
            r = b.train()
        ok, msg = r if isinstance(r, tuple) else (r, "")
        good = bool(ok) and all(x is not None for x in b.results)
        ev.append({"ev": "Run", "ok": bool(ok), "msg": bool(msg), "mustFail": must_fail,
                   "robust": bool(d["kw"].get("best_robust", True)),
                   "best": int(b.best_model) if b.best_model is not None else -9,
                   "models": [describe(x) for x in b.results] if good else []})

    clock = {"off": 0.0}

    @contextlib.contextmanager
    def durations(secs):
        """Training number i takes secs[i] seconds of a clock that only the trainings move."""
        import datetime as dtm
        import time as tm
        real = tm.time, tm.perf_counter, tm.monotonic, SA.train
        seen = [0]

        def train(self, *a, **k):
            seen[0] += 1
            try:
                return real[3](self, *a, **k)
            finally:
                clock["off"] += secs[(k.get("model_i", seen[0]) - 1) % len(secs)]
        tm.time, tm.perf_counter, tm.monotonic = (lambda: 1.7e9 + clock["off"]), (lambda: clock["off"]), \
            (lambda: clock["off"])
        SA.train = train
        try:
            yield seen
        finally:
            tm.time, tm.perf_counter, tm.monotonic, SA.train = real

    def limited(ev, d, secs, limit):
        with contextlib.redirect_stdout(io.StringIO()):
            b = batch(d, False)
            with durations(secs) as seen:
                r = b.train(**({} if limit is None else {"min_limit": limit}))
        ok, msg = r
        ev.append({"ev": "Limit", "secs": [int(x) for x in secs], "limit": 0 if limit is None else int(limit),
                   "ok": bool(ok), "msg": bool(msg), "trained": int(seen[0])})

    def words(text, labels):
        """(words, numbers in thousandths) after the labels of a message"""
        got = [labelled(text, x) for x in labels]
        return {"txt": [str(got[i]) for i, x in enumerate(labels) if x in ("Converged", "Steps", "Seed", "Model", BM)],
                "num": [fx(float(got[i] or "nan"), 1e-3) for i, x in enumerate(labels) if "(" in x]}
    BM = "Results - Best Model"

    def logs(ev, d, parallel):
        """The results as the log of the run and details() show them."""
        d = {**d, "verbose": True}
        with contextlib.redirect_stdout(io.StringIO()), captured("esat.model.batch_sa") as got:
            b = batch(d, parallel)
            b.train()
            first = list(got)
            del got[:]
            b.details()
            second = list(got)
        L = ["Model", "Q(true)", "MSE(true)", "Q(robust)", "MSE(robust)", "Seed", "Converged", "Steps"]
        B = [BM, "Q(true)", "MSE(true)", "Q(robust)", "MSE(robust)", "Converged"]
        val = lambda x: [fx(float(v), 1e-3) for v in (x.Qtrue, x.Qtrue / d["V"].size, x.Qrobust,
                                                      x.Qrobust / d["V"].size)]

        def shown(lines):
            return {"rows": [words(x, L) for x in lines if "Seed:" in x and labelled(x, "Model")],
                    "best": [words(x, B) for x in lines if "Best Model:" in x]}
        rows = [{"txt": [str(i + 1), str(int(x.seed)), str(x.converged), f"{x.converge_steps}/{b.max_iter}"],
                 "num": val(x)} for i, x in enumerate(b.results)]
        top = b.results[b.best_model]
        for lines in (first, second):
            ev.append({"ev": "Log", **shown(lines), "want": rows,
                       "wantBest": [{"txt": [str(b.best_model + 1), str(top.converged)], "num": val(top)}]})

    def alone(ev, d):
        seeds = np.random.default_rng(42 if d["seed"] is None else d["seed"])
        kw = dict(d["kw"])
        ini = {a: kw.pop(a) for a in ("init_method", "init_norm") if a in kw}
        kw.pop("best_robust", None)
        kw = {**dict(max_iter=20000, converge_delta=0.1, converge_n=100), **kw}
        for i in range(d["n"]):
            sd = seeds.integers(low=0, high=1e5)
            sa = SA(V=d["V"], U=d["U"], factors=d["k"], method=d["method"], seed=sd)
            pick = lambda a: a[i] if a is not None and a.ndim == 3 else a
            cp = lambda a: None if a is None else a.copy()
            sa.initialize(H=cp(pick(d["H"])), W=cp(pick(d["W"])), **ini)
            sa.train(model_i=i + 1, **kw)
            ev.append({"ev": "Alone", **describe(sa)})

    def make(i, salt):
        rng = np.random.default_rng([SEED, salt, i])
        m, n, k = int(rng.integers(4, 14)), int(rng.integers(3, 7)), int(rng.integers(1, 4))
        V = rng.random((m, k)) @ rng.random((k, n)) * 5 + rng.random((m, n)) * 0.3 + 0.01
        for _ in range(int(rng.integers(0, 4))):
            V[rng.integers(m), rng.integers(n)] *= 8
        U = V * rng.uniform(0.05, 0.4, (m, n)) + 0.01
        N = int(rng.integers(1, 6))
        H = W = None
        hk, wk = str(rng.choice(["none", "stack", "one", "part"])), str(rng.choice(["none", "stack", "one"]))
        if hk == "stack":
            H = rng.random((N, k, n)) + 0.1
        elif hk == "one":
            H = rng.random((k, n)) + 0.1
        elif hk == "part" and k > 1:
            H = rng.random((k - 1, n)) + 0.1
        if wk == "stack":
            W = rng.random((N, m, k)) + 0.1
        elif wk == "one":
            W = rng.random((m, k)) + 0.1
        kw = dict(max_iter=int(rng.integers(1, 25)), converge_delta=float(rng.choice([0.1, 0.001, 2.0])),
                  converge_n=int(rng.integers(1, 12)))
        if rng.random() < 0.5:
            kw["hold_h"] = True
            if rng.random() < 0.6:
                kw["delay_h"] = int(rng.integers(1, 8))
        if rng.random() < 0.5:
            kw["best_robust"] = bool(rng.random() < 0.5)
        if rng.random() < 0.25:
            kw["init_method"] = "column_mean"
        if i % 6 in (1, 2):             # clusters of enough samples
            m = 4 * n
            V = rng.random((m, k)) @ rng.random((k, n)) * 5 * 3.0 ** np.arange(n) + rng.random((m, n)) * 0.3 + 0.01
            U = V * rng.uniform(0.05, 0.4, (m, n)) + 0.01
            kw["init_method"] = "kmeans"
            kw["init_norm"] = bool(rng.random() < 0.5)
            W = None
            if hk != "part":
                H = None
        return rng, {"V": V, "U": U, "k": k, "n": N, "method": ["ls-nmf", "ws-nmf"][i % 2], "salt": i,
                     "seed": None if rng.random() < 0.15 else int(rng.integers(0, 10000)),
                     "H": H, "W": W, "kw": kw, "verbose": bool(i % 3 == 0)}

    def orders(rng, n, count):
        if n <= 3 or (THOROUGH and n <= 4):
            return list(itertools.permutations(range(n)))
        return [list(range(n))[::-1]] + [list(rng.permutation(n)) for _ in range(count)]

    count = (120 if THOROUGH else 36) if check == "P05" else (150 if THOROUGH else 50)
    for i in range(count):
        rng, d = make(i, 1 if check == "P05" else 2)
        if check == "P06":
            d["n"] = int(rng.integers(2, 7))
            k, (m, n) = d["k"], d["V"].shape
            kind = i % 4
            d["H"] = rng.random((d["n"], k, n)) + 0.1
            d["W"] = rng.random((d["n"], m, k)) * rng.choice([0.1, 1, 4], (d["n"], 1, 1)) + 0.1
            d["kw"].update(max_iter=int(rng.integers(1, 4)), best_robust=bool(rng.random() < 0.5))
            if kind == 0:               # widespread small against few large residuals
                for _ in range(60):
                    V = rng.random((m, k)) @ rng.random((k, n)) + 0.05
                    d["U"] = V * 0.2
                    V[rng.random((m, n)) < 0.12] *= 6
                    d["V"] = V
                    d["W"], d["H"] = rng.random((d["n"], m, k)) + 0.1, rng.random((d["n"], k, n)) + 0.1
                    ref = []
                    alone(ref, d)
                    if min(ref, key=lambda e: e["qt"]) is not min(ref, key=lambda e: e["qr"]):
                        break
            if kind in (1, 2):          # equal models: equal losses
                for j in range(1, d["n"]):
                    if rng.random() < 0.6:
                        p = int(rng.integers(j))
                        d["H"][j], d["W"][j] = d["H"][p], d["W"][p]
            if kind in (2, 3):          # models without a loss
                for j in rng.choice(d["n"], int(rng.integers(1, d["n"])), replace=False):
                    d["W"][j][0, 0] = np.inf

        def one(ev):
            alone(ev, d)
            for o in orders(rng, d["n"], 3):
                run_batch(ev, d, True, o, cores=int(rng.integers(1, 9)))
            run_batch(ev, d, False)
            if i % 4 == 0:
                run_batch(ev, d, bool(i % 8), twice=True)
            rank(ev)
        ck.rec.case(f"batch-{i}", {"check": check, "n": d["n"]}, one)

    if check == "P05":
        for i in range(2):          # real worker processes
            rng, d = make(1000 + i, 1)
            d["n"] = 5
            d["H"] = d["W"] = None

            def procs(ev):
                alone(ev, d)
                run_batch(ev, d, True, cores=3 + i)
                rank(ev)
            fakepool.real()
            try:
                ck.rec.case(f"real-{i}", {"check": check, "n": d["n"]}, procs, limit=120)
            finally:
                fakepool.install()
    else:
        for i in range(60 if THOROUGH else 24):
            rng, d = make(i, 3)
            d["n"] = int(rng.integers(2, 5))
            k, (m, n) = d["k"], d["V"].shape
            bad = int(rng.integers(d["n"]))
            kind = i % 4
            d["H"], d["W"] = None, None
            if kind == 0:                       # one model cannot be trained: missing value in its start
                d["W"] = rng.random((d["n"], m, k)) + 0.1
                d["W"][bad][0, 0] = np.nan
            elif kind == 1:                     # the data are invalid
                d["V"] = d["V"].copy()
                d["V"][0, 0] = np.nan
            elif kind == 2:                     # training itself raises
                d["kw"]["delay_h"] = None
            else:                               # fewer starting matrices than models
                d["H"] = rng.random((d["n"] - 1, k, n)) + 0.1

            def fault(ev):
                for o in orders(rng, d["n"], 1)[:3]:
                    run_batch(ev, d, True, o, must_fail=True)
                run_batch(ev, d, False, must_fail=True)
                for e in ev:
                    e["models"] = []
            ck.rec.case(f"fault-{i}", {"check": check, "n": d["n"]}, fault)

        for i in range(60 if THOROUGH else 16):
            rng, d = make(i, 4)
            d["n"] = int(rng.integers(1, 6))
            d["H"] = d["W"] = None
            d["kw"]["max_iter"] = 2
            pool = [0, 1, 59, 60, 61, 119, 120, 121, 3599, 3600, 3601, 7200, 86399, 86400, 86401, 86460, 90000, 200000]

            def timed(ev):
                for limit in (None, 1, 2, 60, 1440):
                    near = [x for x in pool if limit is None or abs(x - 60 * limit) <= 61] + [86401]
                    secs = [float(rng.choice(near if rng.random() < 0.6 else pool)) for _ in range(d["n"])]
                    limited(ev, d, secs, limit)
            ck.rec.case(f"limit-{i}", {"check": check, "n": d["n"]}, timed)
        for i in range(40 if THOROUGH else 12):
            rng, d = make(i, 5)
            ck.rec.case(f"log-{i}", {"check": check, "n": d["n"]}, lambda ev: logs(ev, d, bool(i % 2)))

    differs = 0
    for c in ck.rec.cases:
        for e in c["ev"]:
            if e["ev"] == "Run" and e["models"]:
                ms = [(m["qt"], m["qr"]) for m in e["models"] if m["qt"] != NANV]
                if ms and min(ms)[1] != min(m[1] for m in ms):
                    differs += 1
                break
    ck.notes["cases_where_true_and_robust_rank_differently"] = differs
    def negatives():
        neg = []
        for c in ck.rec.cases[::3]:
            c = copy.deepcopy(c)
            e = c["ev"][-1]
            if e["ev"] == "Limit":
                e["trained"] += 1
                neg.append(c)
            if e["ev"] == "Log":
                e["rows"][0]["num"][1] += 50
                neg.append(c)
            if e["ev"] != "Run":
                continue
            if check == "P05" and e["models"]:
                e["models"][-1]["dig"] += 1
            elif check == "P06":
                if e["mustFail"]:
                    e["msg"] = not e["msg"]
                else:
                    e["best"] = (e["best"] + 1) % len(e["models"]) if len(e["models"]) > 1 else e["best"] + 1
            neg.append(c)
        return neg

    ck.trace("Batch_Trace", negatives=negatives)
    return ck.finish()
