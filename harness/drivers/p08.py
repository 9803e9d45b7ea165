"""P08: mapping of bootstrap factors and the compiled tables, judged by spec/BootMap_Trace.tla."""
import copy
import hashlib

from harness.common import *
from harness import fakepool


def run():
    setup_imports()
    import numpy as np
    import plotly.basedatatypes
    from esat.model.sa import SA
    from esat.error.bootstrap import Bootstrap
    shown = []
    plotly.basedatatypes.BaseFigure.show = lambda self, *a, **k: shown.append(self)
    ck = Check("P08", "model_checking",
               ["direct mappings use integer matrices, for which squared correlations are compared exactly",
                "figures are captured instead of shown"])
    ck.design("BootMap", "BootMap_MC.cfg")

    def digest(*arrs):
        h = hashlib.sha256()
        for a in arrs:
            h.update(np.ascontiguousarray(a).tobytes())
        return h.hexdigest()

    def base(rng, m, n, k, method="ls-nmf", iters=8, sparse=False):
        W0, H0 = rng.random((m, k)), rng.random((k, n)) * (rng.random((k, n)) < 0.6) + 0.01
        V = W0 @ H0 + rng.random((m, n)) * 0.1
        U = 0.1 * V + 0.02
        sa = SA(V=V, U=U, factors=k, method=method, seed=int(rng.integers(1, 1000)))
        if sparse:
            H = rng.random((k, n)) + 0.1
            H[rng.random((k, n)) < 0.3] = 0
            sa.initialize(H=H)
        else:
            sa.initialize()
        sa.train(max_iter=iters, converge_delta=0.001, converge_n=5)
        return sa

    small = base(np.random.default_rng(SEED), 6, 4, 2)
    for i in range(900 if THOROUGH else 250):
        rng = np.random.default_rng([SEED, i])
        k, n, m = int(rng.integers(1, 5)), int(rng.integers(3, 7)), int(rng.integers(1, 4))

        def prof():
            while True:
                H = rng.integers(0, int(rng.choice([2, 4, 8])), (k, n))
                if all(len(set(r)) > 1 for r in H.tolist()):
                    return H
        H1, H2 = prof(), prof()
        if rng.random() < 0.4:
            for a in range(k):          # related, duplicated and scaled profiles
                b = int(rng.integers(k))
                if rng.random() < 0.5:
                    H2[a] = H1[b]
                elif rng.random() < 0.5:
                    H2[a] = H2[b]
        W1, W2 = rng.integers(1, 4, (m, k)), rng.integers(1, 4, (m, k))
        thr = int(rng.choice([0, 30, 50, 60, 75, 90, 99, 100]))

        def mapping(ev):
            bs = Bootstrap(sa=small)
            for kind in ("contributions", "factors"):
                a = [x.astype(float) for x in (W1, H1, W2, H2)]
                kw = {} if thr == 60 else {"threshold": thr / 100}
                r = bs.map_contributions(*a, **kw) if kind == "contributions" else bs.map_factors(a[1], a[3], **kw)
                rows = [r[j] for j in sorted(r)]
                ev.append({"ev": "Map", "H1": H1, "H2": H2, "thr": thr,
                           "sums": W2.sum(axis=0) if kind == "contributions" else [0] * k,
                           "match": [x["match"] + 1 for x in rows], "mapped": [bool(x["mapped"]) for x in rows],
                           "r2": [fx(x["r2"], 1e-3) for x in rows]})
                call = lambda t: (bs.map_contributions(*a, threshold=t) if kind == "contributions"
                                  else bs.map_factors(a[1], a[3], threshold=t))
                for j in sorted(r):
                    t = float(r[j]["r2"])
                    ev.append({"ev": "Tie", "at": bool(call(t)[j]["mapped"]),
                               "above": bool(call(float(np.nextafter(t, 2)))[j]["mapped"])})
        ck.rec.case(f"map-{i}", {"k": k, "n": 0, "f": n}, mapping)

    def r2(a, b):
        a, b = a - a.mean(), b - b.mean()
        return (a @ b) ** 2 / ((a @ a) * (b @ b))

    for i in range(120 if THOROUGH else 36):
        rng = np.random.default_rng([SEED, 5, i])
        m, n, k = int(rng.integers(8, 20)), int(rng.integers(4, 8)), int(rng.integers(1, 4))
        R = int(rng.integers(1, 7))
        thr = float(rng.choice([0.3, 0.6, 0.9, 0.99]))

        def whole(ev):
            sa = base(rng, m, n, k, ["ls-nmf", "ws-nmf"][i % 4 == 3], iters=int(rng.integers(2, 12)), sparse=i % 2 == 0)
            snap = lambda: digest(sa.V, sa.U, sa.W, sa.H, sa.WH)
            before = snap()
            kw = {} if abs(thr - 0.6) < 1e-9 else {"threshold": thr}
            b = Bootstrap(sa=sa, bootstrap_n=R, block_size=int(rng.integers(1, 5)), seed=i, parallel=bool(i % 2), **kw)
            if i % 5 == 4:
                b.parallel = True
            order = list(rng.permutation(R))
            fakepool.set_schedule(lambda q: order if q == R else list(range(q)))
            rk = {"keep_H": bool(rng.random() < 0.6), "reuse_seed": bool(rng.random() < 0.6)}
            b.run(**rk)
            runs = {r: digest(b.bs_results[r]["model"].W, b.bs_results[r]["model"].H) for r in b.bs_results}
            H2, W2 = np.asarray(sa.H, float), np.asarray(sa.W, float)
            for r in range(1, R + 1):
                x = b.bs_results[r]
                W, H = np.asarray(x["model"].W, float), np.asarray(x["model"].H, float)
                c1 = [W[:, a].sum() * H[a] for a in range(k)]
                c2 = [W2[:, a].sum() * H2[a] for a in range(k)]
                mp = [x["mapping"][a] for a in range(k)]
                P = H / H.sum(axis=0)
                ev.append({"ev": "Run", "r2": [[fx(r2(c1[a], c2[q]), 1e-6) for q in range(k)] for a in range(k)],
                           "rep": [fx(y["r2"], 1e-6) for y in mp], "match": [y["match"] + 1 for y in mp],
                           "mapped": [bool(y["mapped"]) for y in mp], "thr": fx(thr, 1e-6),
                           "q": fx(x["model"].Qrobust, 1e-3), "H": fxm(H, 1e-4), "P": fxm(P, 1e-4), "C": fxm(c1, 1e-4)})
            df = b.mapping_df
            cols = [f"Base Factor {a + 1}" for a in range(k)]
            tab = {"ev": "Table", "table": df[cols].values.astype(int), "unmapped": df["Unmapped"].values.astype(int),
                   "q": [fx(v, 1e-3) for v in b.q_results["Q(robust)"]],
                   "factor": [fxm(b.factor_tables[a], 1e-4) for a in range(k)],
                   "prof": [fxm(b.bs_profiles[a], 1e-4) for a in range(k)],
                   "contrib": [fxm(b.bs_factor_contributions[a], 1e-4) for a in range(k)]}
            ev.append(tab)
            if list(df["Boot Factors"]) != [f"Boot Factor {a + 1}" for a in range(k)]:
                raise RuntimeError("mapping table rows")
            ops = [lambda: b.summary()] + [lambda a=a: b.plot_results(factor=a) for a in range(0, k + 2)] + \
                [lambda a=a: b.show_factor_results(factor=a) for a in range(0, k + 2)]
            for o in rng.permutation(len(ops)):
                ops[o]()
            for a in range(1, k + 1):
                shown.clear()
                b.show_factor_results(factor=a)
                t = shown[0].data[0]
                col = dict(zip(t.header.values, t.cells.values))
                num = lambda name: [fx(v, 1e-6) for v in np.asarray(col[name], float)]
                ev.append({"ev": "Shown", "i": a, "baseRow": num("Base Run Profile"), "baseH": fxm(H2[a - 1], 1e-6),
                           "mean": num("BS Mean"), "std": num("BS Std. Dev."), "iqr": [bool(x) for x in col["Within IQR"]],
                           "pct": [num(x) for x in ("BS 5th", "BS 25th", "BS Median", "BS 75th", "BS 95th")]})
            after = {r: digest(b.bs_results[r]["model"].W, b.bs_results[r]["model"].H) for r in b.bs_results}
            ev.append({"ev": "Base", "before": before, "after": snap(),
                       "runsBefore": str(sorted(runs.items())), "runsAfter": str(sorted(after.items()))})
            shown.clear()
            b.summary()
            order = []
            for fig in shown:
                t = fig.data[0]
                head = list(t.header.values)
                if head[0] == "Boot Factors":
                    order.append(-1)
                    ev.append({"ev": "MapShown", "head": [str(x) for x in head],
                               "cells": [[str(int(v)) if isinstance(v, (int, float, np.number)) else str(v) for v in col] for col in t.cells.values]})
                elif head[0] == "Base":
                    order.append(0)
                    ev.append({"ev": "Losses", "head": [str(x) for x in head], "base": fx(sa.Qrobust, 1e-3),
                               "cells": [fx(float(np.asarray(v).reshape(-1)[0]), 1) for v in t.cells.values]})
                else:
                    order.append(int(fig.layout.title.text.split("Factor")[1]))
            ev.append({"ev": "Summary", "order": order})
            for a in range(0, k + 2):
                shown.clear()
                b.plot_results(factor=a)
                figs = list(shown)
                e = {"ev": "Plots", "i": a, "drawn": len(figs), "ylog": []}
                for name, fig, unit in zip(("prof", "contr"), figs, (1e-2, 1e-4)):
                    box = {t.name: t.y for t in fig.data if t.type == "box"}
                    dots = next(t for t in fig.data if t.type == "scatter")
                    labels = [str(x) for x in b.feature_labels]
                    at = dict(zip([str(x) for x in dots.x], dots.y))
                    e[name] = [fxm(np.asarray(box[x], float), unit) for x in labels]
                    e[name + "Base"] = [fx(at[x], unit) for x in labels]
                    e[name + "Factor"] = int(fig.layout.title.text.split("Factor")[1])
                if len(figs) == 2:
                    e["basep"] = fxm(100 * H2[a - 1] / H2.sum(axis=0), 1e-2)
                    e["basec"] = fxm(W2[:, a - 1].sum() * H2[a - 1], 1e-4)
                ev.append(e)
            again = dict(tab, factor=[fxm(b.factor_tables[a], 1e-4) for a in range(k)],
                         contrib=[fxm(b.bs_factor_contributions[a], 1e-4) for a in range(k)],
                         prof=[fxm(b.bs_profiles[a], 1e-4) for a in range(k)])
            ev.append(again)
        ck.rec.case(f"run-{i}", {"k": k, "n": R, "f": n}, whole)

    def negatives():
        neg = []
        for n, c in enumerate(ck.rec.cases[::11]):
            c = copy.deepcopy(c)
            e = c["ev"][-1] if c["ev"][0]["ev"] != "Map" else c["ev"][0]
            if e["ev"] == "Map":
                e["r2"][0] += 5
            elif e["ev"] == "Table":
                p = next(x for x in c["ev"] if x["ev"] == "Plots" and x["drawn"])
                if n % 5 == 0:
                    p["prof"][0][0] += 40
                elif n % 5 == 1:
                    p["contrBase"][0] += 400 + p["contrBase"][0] // 100
                elif n % 5 == 2:
                    next(x for x in c["ev"] if x["ev"] == "Losses")["cells"][3] += 3 + p["drawn"] * 1000000
                elif n % 2:
                    e["unmapped"][0] += 1
                else:
                    e["factor"][0][0][0] += 50
            neg.append(c)
        return neg
    ck.trace("BootMap_Trace", negatives=negatives)
    return ck.finish()
