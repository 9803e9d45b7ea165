"""P18: the factor estimator. Searches run with every sample's completion order imposed; the trained
models and the cells selected for each are recorded and the table is judged by spec/Estimator_Trace.tla."""
import copy
import inspect

from harness.common import *
from harness import fakepool


def run():
    setup_imports()
    import numpy as np
    import pandas as pd
    import plotly.basedatatypes as pbd
    from esat.model.sa import SA
    from esat.estimator import FactorEstimator
    ck = Check("P18", "model_checking",
               ["the selection of cells is read from the arguments a worker is given (an array of the data's shape with "
                "two values); when there is none, the errors of the table are not judged",
                "workers run one at a time on pickled copies and complete in a chosen order",
                "errors are compared in fixed point (1e-5 of the largest squared residual, and the 1e-5 rounding of the code)"])
    for mc in ("MC", "MC2") + (("MCT",) if THOROUGH else ()):
        ck.design("Estimator", f"Estimator_{mc}.cfg")

    models = []
    real_train = SA.train
    alone = {}
    fault = {"at": None}

    def train(self, *a, **k):
        b = inspect.signature(real_train).bind(self, *a, **k)
        b.apply_defaults()
        if fault["at"] is not None and len(models) == fault["at"]:
            models.append(None)
            raise RuntimeError("planted failure")
        r = real_train(self, *a, **k)
        models.append((self, dict(b.arguments), fakepool.CURRENT[0]))
        return r
    SA.train = train

    def selection(args, shape):
        if args is None:
            return None
        todo, found = list(args[0]) + list(args[1].values()), []
        for a in todo:
            if isinstance(a, np.ndarray) and a.shape == shape and np.isin(np.asarray(a, dtype=float), (0, 1)).all():
                found.append(np.asarray(a, dtype=float))
        return found[0] if len(found) == 1 else None

    def search(ev, d, order=None, frames=None):
        V, U = d["V"].copy(), d["U"].copy()
        del models[:]
        fakepool.set_schedule(lambda n: order(n) if order else list(range(n)))
        fe = FactorEstimator(V=V, U=U, seed=d["seed"], test_percent=d["share"] / 100, k_coef=float(d["coef"]))
        with single_core(d["samples"] % 2 == 0):
            df = fe.run(samples=d["samples"], min_factors=d["lo"], max_factors=d["hi"], max_iterations=d["it"],
                        converge_delta=d["cd"], converge_n=d["cn"])
        got = list(models)
        sels = [selection(g[2], V.shape) for g in got]
        refs = []
        for sa, b, _ in got:
            key = (id(d), sa.factors, sa.seed)
            if key not in alone:
                ref = SA(V=d["V"], U=d["U"], factors=sa.factors, method="ls-nmf", seed=sa.seed)
                ref.initialize()
                real_train(ref, max_iter=d["it"], converge_delta=d["cd"], converge_n=d["cn"])
                alone[key] = ref
            refs.append(alone[key])
        res, qts, qrs = [(d["V"] - r.WH) ** 2 for r in refs], [r.Qtrue for r in refs], [r.Qrobust for r in refs]
        top = max([r.max() for r in res], default=1.0)
        unit = max(top, 1e-9) / 2e5
        uq = max(max(qts + qrs, default=1.0), 1e-9) / 2e6
        # which value marks the training cells is taken from the requested share
        share = np.mean([s.mean() for s in sels]) if sels and all(s is not None for s in sels) else None
        flip = share is not None and abs(share - d["share"] / 100) < abs(1 - share - d["share"] / 100)
        for (sa, b, _), s, r, qt, qr, ref in zip(got, sels, res, qts, qrs, refs):
            sel = [] if s is None or share is None else [int(v) for v in (1 - s if flip else s).ravel()]
            ev.append({"ev": "Sample", "k": int(sa.factors), "seed": int(sa.seed), "sel": sel,
                       "res": [fx(v, unit) for v in r.ravel()], "qt": fx(qt, uq), "qr": fx(qr, uq),
                       "alone": bool(np.allclose(sa.WH, ref.WH) and np.array_equal(sa.V, ref.V) and np.array_equal(sa.U, ref.U)),
                       "opts": bool(b["max_iter"] == d["it"] and b["converge_delta"] == d["cd"] and b["converge_n"] == d["cn"]
                                    and sa.method == "ls-nmf")})
        test, k = df["Test MSE"].to_numpy(float), df["K Estimate"].to_numpy(float)
        fin = sorted(set(k[~np.isnan(k)]))
        tmax = np.nanmax(test) if not np.all(np.isnan(test)) else 1.0
        ev.append({"ev": "Table", "ok": True, "factors": [int(x) for x in df["Factors"]],
                   "train": fxm(df["Train MSE"].to_numpy(float), unit / 10), "test": fxm(test, unit / 10),
                   "tol": 12 + int(1e-5 / (unit / 10)) + 1, "tt": fxm(test, tmax / 2000),
                   "delta": fxm(df["Delta MSE"].to_numpy(float), unit / 10),
                   "qt": fxm(df["Q(True)"].to_numpy(float), uq), "qr": fxm(df["Q(Robust)"].to_numpy(float), uq),
                   "est": fxm(k, 1e-4), "estrank": [NANV if np.isnan(x) else fin.index(x) for x in k],
                   "best": int(fe.estimated_factor), "inputs": bool(np.array_equal(V, d["V"]) and np.array_equal(U, d["U"]))})
        return fe, df, sels

    def make(i, salt):
        rng = np.random.default_rng([SEED, 18, salt, i])
        m, n = int(rng.integers(6, 16)), int(rng.integers(4, 9))
        kk = int(rng.integers(1, 4))
        V = rng.random((m, kk)) @ rng.random((kk, n)) * 5 + rng.random((m, n)) + 0.05
        for _ in range(int(rng.integers(0, 6))):
            V[rng.integers(m), rng.integers(n)] *= rng.uniform(2, 6)
        U = V * rng.uniform(0.05, 0.4, (m, n)) + 0.02
        lo = int(rng.integers(1, 4))
        return rng, {"V": V, "U": U, "lo": lo, "hi": lo + int(rng.integers(0, 4)), "samples": int(rng.integers(6, 12)),
                     "share": int(rng.choice([10, 20, 30, 35])), "coef": int(rng.integers(0, 3)), "seed": int(rng.integers(0, 10000)),
                     "it": int(rng.integers(3, 40)), "cd": float(rng.choice([1.0, 0.01])), "cn": int(rng.integers(2, 12))}

    def cfg(d):
        return {a: d[a] for a in ("lo", "hi", "samples", "share", "coef")}

    def capture(fe, actual=None):
        figs, real = [], pbd.BaseFigure.show
        pbd.BaseFigure.show = lambda self, *a, **k: figs.append(self)
        try:
            fe.plot(actual) if actual else fe.plot()
        finally:
            pbd.BaseFigure.show = real
        return figs

    def same_table(a, b):
        return bool(list(a.columns) == list(b.columns) and np.allclose(a.to_numpy(float), b.to_numpy(float), rtol=1e-6, atol=1e-9,
                                                                      equal_nan=True))

    for i in range(240 if THOROUGH else 40):
        rng, d = make(i, 1)
        if i % 6 == 4:                     # counts without a sample
            d["hi"], d["samples"] = d["lo"] + 4, 3
        if i % 6 == 5:
            d["hi"] = d["lo"]
        if i % 10 == 7:
            d["V"][:, 0] = d["V"][:, 1]

        def one(ev):
            alone.clear()
            orders = [None, lambda n: list(range(n))[::-1], lambda n: [int(x) for x in rng.permutation(n)],
                      lambda n: [int(x) for x in rng.permutation(n)]]
            first = None
            for o in orders[:4 if THOROUGH else 2 + i % 2]:
                fe, df, _ = search(ev, d, o)
                if first is not None:
                    ev.append({"ev": "Again", "same": same_table(first, df) or bool(np.isnan(df["Test MSE"]).all())})
                first = df
            cols = ["Train MSE", "Test MSE", "Delta MSE", "Delta Ratio", "K Estimate", "Q(True)"]
            for fig in capture(fe, int(rng.integers(1, 6)) if i % 2 else None)[-1:]:
                xs = list(range(d["lo"], d["hi"] + 1))
                by = [tr for tr in fig.data if tr.type == "scatter" and tr.y is not None and len(tr.y) == len(df)]
                ys = {str(tr.name): np.asarray(tr.y, float) for tr in by}
                series = all(list(tr.x) == xs for tr in by)
                for cn in cols:
                    alt = "Ratio Delta" if cn == "Delta Ratio" else cn
                    y = ys.get(alt, ys.get(cn))
                    series = series and y is not None and np.array_equal(y, df[cn].to_numpy(float), equal_nan=True)
                lines = [s.x0 for s in fig.layout.shapes if s.line.color == "red"]
                ev.append({"ev": "Plot", "series": bool(series), "line": int(lines[-1]) if lines else -9,
                           "best": int(fe.estimated_factor)})
        ck.rec.case(f"search-{i}", cfg(d), one)

    for i in range(6 if THOROUGH else 3):           # many samples: the share of test cells
        rng, d = make(i, 2)
        d.update(samples=40, it=3, share=[10, 20, 70][i % 3])
        ck.rec.case(f"share-{i}", cfg(d), lambda ev: search(ev, d, lambda n: [int(x) for x in rng.permutation(n)]))

    for i in range(12 if THOROUGH else 6):          # one sample fails
        rng, d = make(i, 3)

        def failing(ev):
            fault["at"] = int(rng.integers(d["samples"]))
            raised = False
            try:
                search([], d, lambda n: [int(x) for x in rng.permutation(n)])
            except Exception:
                raised = True
            finally:
                fault["at"] = None
            ev.append({"ev": "Fault", "raised": raised})
        ck.rec.case(f"fault-{i}", cfg(d), failing)

    real_count = os.cpu_count
    for n in (1, 2):
        rng, d = make(n, 4)

        def cores(ev):
            os.cpu_count = lambda: n
            try:
                search(ev, d)
            finally:
                os.cpu_count = real_count
        ck.rec.case(f"cores-{n}", cfg(d), cores)

    rng, d = make(0, 5)
    d.update(samples=1, lo=2, hi=2, it=40)

    def heldout(ev):
        _, _, s = search(ev, d)
        a = models[0][0].WH.copy()
        if s[0] is not None:
            test = s[0] == (0 if s[0].mean() > 0.5 else 1)
            d2 = dict(d, V=np.where(test, d["V"] * 3, d["V"]))
            search([], d2)
            ev.append({"ev": "HeldOut", "same": bool(np.allclose(a, models[0][0].WH))})
    ck.rec.case("heldout-0", cfg(d), heldout)

    def negatives():
        neg = []
        for c in ck.rec.cases:
            for what in ("test", "train", "best", "qt"):
                t = [j for j, e in enumerate(c["ev"]) if e["ev"] == "Table"]
                if not t or not all(s["sel"] and 0 in s["sel"] for s in c["ev"] if s["ev"] == "Sample"):
                    continue
                c2 = copy.deepcopy(c)
                e = c2["ev"][t[0]]
                if what == "best":
                    e["best"] += 1
                else:
                    j = [j for j, v in enumerate(e[what]) if v != NANV]
                    if not j:
                        continue
                    e[what][j[0]] += max(e["tol"], 3) + 4
                neg.append(c2)
        return neg[:60]
    ck.notes["record_s"] = round(time.time() - ck.t0, 1)
    ck.trace("Estimator_Trace", negatives=negatives)
    return ck.finish()
