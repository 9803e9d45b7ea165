"""P09/P10: displacement runs, judged by spec/Disp_Trace.tla."""
import copy
import glob
import hashlib
import itertools
import math

from harness.common import *
from harness import fakepool


def digest(np, *arrs):
    h = hashlib.sha256()
    for a in arrs:
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def helpers():
    import numpy as np
    from esat.model.sa import SA
    shown = []
    import plotly.basedatatypes
    plotly.basedatatypes.BaseFigure.show = lambda self, *a, **k: shown.append(self)

    def base(*a, **kw):
        """A base model at a workable scale: a profile row of 1e-12 with contributions of 1e12 is a
        legitimate factorization, but the search offset of 1e-12 and rounding then dominate it."""
        for _ in range(50):
            sa = base1(*a, **kw)
            H, W = np.asarray(sa.H, float), np.asarray(sa.W, float)
            if np.isfinite(H).all() and np.isfinite(W).all() and H.max(axis=1).min() > 1e-4 and np.abs(W).max() < 1e4:
                return sa
        raise RuntimeError("no workable base model in 50 attempts")

    def base1(rng, m, n, k, method="ls-nmf", iters=40, alike=False, zeros=False, tight=1.0):
        W0 = rng.random((m, k)) * (rng.random((m, k)) < 0.8)
        H0 = rng.random((k, n)) + 0.05
        if alike:
            H0 = H0[:1] + 0.15 * rng.random((k, n))
        V = W0 @ H0 + 0.05 * rng.random((m, n))
        U = (0.1 * V + 0.03) * tight
        sa = SA(V=V, U=U, factors=k, method=method, seed=int(rng.integers(1, 1000)))
        if zeros:
            H = rng.random((k, n)) + 0.1
            H[rng.random((k, n)) < 0.3] = 0
            sa.initialize(H=H)
        else:
            sa.initialize()
        sa.train(max_iter=iters, converge_delta=float(rng.choice([0.1, 0.001])), converge_n=5)
        return sa

    def Q(sa, H):
        return float(np.sum(np.square((np.asarray(sa.V, float) - np.asarray(sa.W, float) @ H) / np.asarray(sa.U, float))))

    def r2m(np, A, B):
        def one(a, b):
            a, b = a - a.mean(), b - b.mean()
            d = (a @ a) * (b @ b)
            return (a @ b) ** 2 / d if d > 0 else float("nan")
        return [[fx(one(a, b), 1e-6) for b in B] for a in A]

    def cells(sa, d, ev, refit=True, full=True):
        """Cell events of a finished Displacement d on model sa."""
        H0 = np.asarray(sa.H, float) + 1e-12
        W = np.asarray(sa.W, float)
        q0 = Q(sa, np.asarray(sa.H, float))
        ws = W.sum(axis=0)
        # the search starts from H + 1e-12; where that alone moves the loss (a profile row of that size)
        # the base of the search is off by as much
        shift = abs(Q(sa, H0) - q0)
        tol = min(LIM // 4, 2 + int(math.ceil(1000 * (2e-6 * q0 + shift))))
        for name, res in (("up", d.increase_results), ("down", d.decrease_results)):
            for fk in sorted(res):
                i = int(fk.split("-")[1]) - 1
                for jk in sorted(res[fk]):
                    j = int(jk.split("-")[1])
                    Hz = H0.copy()
                    Hz[i, j] = 0
                    lv = []
                    for L in d.dQmax:
                        r = res[fk][jk][L]
                        Hx = H0.copy()
                        Hx[i, j] = float(r["value"])
                        o = Hx[:, j].sum() - Hx[i, j]
                        sc = max(o, Hx[i, j]) / 1e4
                        x = {"ratio": fx(float(r["value"]) / H0[i, j], 1e-6), "dq": fx(Q(sa, Hx) - q0, 1e-3),
                             "rep": fx(r["dQ"], 1e-3), "steps": int(r["search steps"]), "pct": fx(r["percent"], 1e-4),
                             "pct6": fx(r["percent"], 1e-6), "o": fx(o, sc), "v": fx(Hx[i, j], sc),
                             "conc": fx(r["conc"], 1e-7),
                             "concRatio": fx(float(r["conc"]) / (ws[i] * H0[i, j]), 1e-6) if ws[i] > 0 else fx(float(r["value"]) / H0[i, j], 1e-6),
                             "swap": bool(r["swap"]), "drop": fx(r["Q_drop"], 1e-3)}
                        if refit:
                            s = SA(V=sa.V, U=sa.U, factors=sa.factors, method=sa.method, seed=sa.seed, verbose=False)
                            Hs = sa.H + 1e-12
                            Hs[i, j] = r["value"]
                            s.initialize(H=Hs)
                            s.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"],
                                    converge_n=sa.metadata["converge_n"])
                            x["dropRe"] = fx(float(sa.Qtrue) - float(s.Qtrue), 1e-3)
                            x["r2"] = r2m(np, np.asarray(s.H, float), H0)
                        else:
                            x["dropRe"] = x["drop"]
                            x["r2"] = [[1 - int(x["swap"]), int(x["swap"])], [0, 1]]
                        lv.append(x)
                    ev.append({"ev": "Cell", "dir": name, "i": i + 1, "j": j + 1, "lv": lv, "zero": fx(Q(sa, Hz) - q0, 1e-3),
                               "flat": bool(ws[i] <= 1e-9), "tol": tol})

    def table(sa, df, levels, labels):
        H0 = np.asarray(sa.H, float) + 1e-12
        P = H0 / H0.sum(axis=0)
        ws = np.asarray(sa.W, float).sum(axis=0)
        return [{"d": list(levels).index(r.dQ) + 1, "i": int(r.factor) + 1, "j": labels.index(r.feature) + 1,
                 "p": fx(r.profile, 1e-6), "pmax": fx(r.profile_max, 1e-6), "pmin": fx(r.profile_min, 1e-6),
                 "c": fx(r.conc, 1e-7), "cmax": fx(r.conc_max, 1e-7), "cmin": fx(r.conc_min, 1e-7), "drop": fx(r.dQ_drop, 1e-3),
                 "floor": 1000, "pRe": fx(P[int(r.factor), labels.index(r.feature)], 1e-6),
                 "cRe": fx(ws[int(r.factor)] * H0[int(r.factor), labels.index(r.feature)], 1e-7)}
                for r in df.itertuples()]

    def figure_rows(fig, k):
        t = fig.data[0]
        cols = [list(x) for x in t.cells.values]
        return [{"level": fx(cols[0][r], 1e-3), "pct": [fx(cols[f + 1][r], 1e-2) for f in range(k)]} for r in range(len(cols[0]))]

    def csv_rows(path, k):
        a = np.atleast_2d(np.loadtxt(path, delimiter=","))
        return [{"level": fx(r[0], 1e-3), "pct": [fx(x, 1e-2) for x in r[1:k + 1]]} for r in a]

    def snap(sa):
        return digest(np, sa.V, sa.U, sa.W, sa.H, sa.WH) + str((float(sa.Qtrue), float(sa.Qrobust)))

    class NS:
        pass
    ns = NS()
    ns.__dict__.update(np=np, base=base, Q=Q, cells=cells, table=table, figure_rows=figure_rows, csv_rows=csv_rows,
                       snap=snap, shown=shown)
    return ns


def fields(d):
    """Every reported number of a finished displacement, exactly."""
    res = {}
    for name, r in (("up", d.increase_results), ("down", d.decrease_results)):
        for f in r:
            for j in r[f]:
                for L in r[f][j]:
                    x = r[f][j][L]
                    res[f"{name} {f} {j} {L}"] = [repr(float(x[a])) for a in ("dQ", "value", "percent", "conc", "Q_drop")] + [bool(x["swap"])]
    return hashlib.sha256(str(sorted(res.items())).encode()).hexdigest()


def rows_digest(df):
    return hashlib.sha256(str([[repr(v) for v in r] for r in df.sort_values(["dQ", "factor", "feature"]).values.tolist()]).encode()).hexdigest()


def run(check):
    setup_imports()
    h = helpers()
    np = h.np
    from esat.error.displacement import Displacement
    ck = Check(check, "model_checking",
               ["the rise of the loss is recomputed in double precision; tolerances cover the rounding of the model's own arithmetic",
                "workers are run by a deterministic pool that completes tasks in a chosen order"])
    gap = lambda lv, thr: min(lv[a] - lv[a + 1] for a in range(3)) - thr

    def cfg(sa, d, n):
        lv = [int(round(1000 * x)) for x in d.dQmax]
        thr = int(round(1000 * d.threshold_dQ))
        return {"k": int(sa.factors), "n": n, "sel": [f + 1 for f in d.features], "levels": lv, "thr": thr,
                "max": int(d.max_search), "gap": gap(lv, thr)}

    def display(ev, sa, d, k):
        h.shown.clear()
        d.summary()
        ev.append({"ev": "Shown", "how": "figure", "rows": h.figure_rows(h.shown[-1], k)})
        out = os.path.join(scratch(), "disp-out")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        d.save("x", out, pickle_result=False)
        ev.append({"ev": "Shown", "how": "csv", "rows": h.csv_rows(glob.glob(os.path.join(out, "*swap*.csv"))[0], k)})

    def tables(d):
        return {"swap": np.asarray(d.swap_table).astype(int), "count": np.asarray(d.count_table).astype(int)}

    if check == "P09":
        ck.design("Disp_MC", "Disp_MC.cfg")
        for i in range(140 if THOROUGH else 36):
            rng = np.random.default_rng([SEED, i])
            k, n, m = int(rng.integers(1, 4)), int(rng.integers(2, 5)), int(rng.integers(6, 12))
            labels = [f"f{x}" for x in range(n)]
            box = {}

            def case(ev):
                sa = h.base(rng, m, n, k, ["ls-nmf", "ws-nmf"][i % 5 == 4], iters=int(rng.choice([2, 5, 60])),
                            alike=i % 3 == 2, zeros=i % 4 == 1, tight=float(rng.choice([0.3, 1, 4])))
                feats = None
                if rng.random() < 0.5:
                    feats = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
                kw = {}
                if rng.random() < 0.5:
                    kw["threshold_dQ"] = float(rng.choice([0.02, 0.5, 2.0]))
                if rng.random() < 0.35:
                    kw["max_search"] = int(rng.choice([1, 3, 8, 80]))
                before = h.snap(sa)
                d = Displacement(sa=sa, feature_labels=labels, features=feats, parallel=bool(i % 2), **kw)
                if i % 4 >= 2:
                    d.dQmax = [4, 2, 1, 0.5]
                    d.threshold_dQ = min(d.threshold_dQ, 0.1)
                box.update(cfg(sa, d, n))
                fakepool.set_schedule(lambda q: list(rng.permutation(q)))
                d.run()
                h.cells(sa, d, ev)
                ev.append({"ev": "Rows", "rows": h.table(sa, d.compiled_results, d.dQmax, labels)})
                ev.append({"ev": "Tables", **tables(d)})
                for f in range(0, k + 2):
                    d.plot_results(factor=f, dQ=int(rng.choice([4, 8, 16, 32, 7])))
                display(ev, sa, d, k)
                ev.append({"ev": "Rows", "rows": h.table(sa, d.compiled_results, d.dQmax, labels)})
                ev.append({"ev": "Base", "before": before, "after": h.snap(sa)})
            ck.rec.case(f"disp-{i}", box, case)
    else:
        ck.design("DispSched_MC", "DispSched_MC.cfg")
        orders, s = tlc_behaviours("DispSched_Gen", "DispSched_Gen.cfg")
        orders = [[t - 1 for t in o] for o in orders]
        ck.models.append({"model": "DispSched_Gen", **s})
        for i in range(40 if THOROUGH else 12):
            rng = np.random.default_rng([SEED, 7, i])
            k, n, m = (2, 2, 8) if i % 3 == 0 else (int(rng.integers(1, 5)), int(rng.integers(2, 5)), 8)
            labels = [f"f{x}" for x in range(n)]
            box = {}

            def case(ev):
                sa = h.base(rng, m, n, k, iters=int(rng.choice([2, 6])), alike=True)
                feats = None if i % 3 == 0 else sorted(int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))])
                mk = lambda par: Displacement(sa=sa, feature_labels=labels, features=feats, parallel=par)
                d = mk(False)
                box.update(cfg(sa, d, n))
                d.run()
                h.cells(sa, d, ev, refit=False)
                ref = tables(d)
                ev.append({"ev": "Tables", **ref})
                display(ev, sa, d, k)
                if i % 4 == 1:
                    d.run()
                    ev.append({"ev": "Tables", **tables(d)})
                cnt = k * len(d.features)
                todo = orders if i % 3 == 0 else [list(rng.permutation(cnt)) for _ in range(6)]
                todo = [list(range(cnt)), list(range(cnt))[::-1]] + todo
                if i and not THOROUGH and i % 3 == 0:
                    todo = todo[:2] + [todo[x] for x in rng.permutation(len(todo))[:6]]
                for o in todo:
                    calls = []

                    def sched(q):
                        calls.append(1)
                        return o if len(calls) == 1 else list(rng.permutation(q))
                    fakepool.set_schedule(sched)
                    with single_core(i % 3 == 1):
                        p = mk(True)
                        p.run()
                    t = tables(p)
                    ev.append({"ev": "Sched", "rows": rows_digest(p.compiled_results), "ref": rows_digest(d.compiled_results),
                               "swap": t["swap"], "refSwap": ref["swap"], "count": t["count"], "refCount": ref["count"],
                               "results": fields(p), "refResults": fields(d)})
                display(ev, sa, p, k)
            ck.rec.case(f"sched-{i}", box, case)
        if THOROUGH:
            fakepool.real()
            rng = np.random.default_rng([SEED, 99])

            def real(ev):
                sa = h.base(rng, 8, 3, 2, iters=5, alike=True)
                a = Displacement(sa=sa, feature_labels=list("abc"), parallel=False)
                b = Displacement(sa=sa, feature_labels=list("abc"), parallel=True, cores=4)
                a.run()
                b.run()
                ev.append({"ev": "Sched", "rows": rows_digest(b.compiled_results), "ref": rows_digest(a.compiled_results),
                           "swap": tables(b)["swap"], "refSwap": tables(a)["swap"], "count": tables(b)["count"],
                           "refCount": tables(a)["count"], "results": fields(b), "refResults": fields(a)})
            ck.rec.case("real-pool", {"k": 2, "n": 3, "sel": [1, 2, 3], "levels": [32000, 16000, 8000, 4000], "thr": 100, "max": 50, "gap": 1}, real)

    def negatives():
        neg = []
        for n, c in enumerate(ck.rec.cases[::3]):
            for kind in range(3):
                c2 = copy.deepcopy(c)
                e = next((e for e in c2["ev"] if e["ev"] == ("Cell", "Tables", "Shown")[kind]), None)
                if e is None:
                    continue
                if kind == 0:
                    e["lv"][0]["rep"] += 5000 + 2 * e["tol"]
                elif kind == 1:
                    e["count"][1][0] += 1
                else:
                    e["rows"][0]["pct"][0] += 500
                neg.append(c2)
        return neg
    ck.trace("Disp_Trace", negatives=negatives)
    return ck.finish()
