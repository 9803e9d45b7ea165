"""P24: analysis tables and figures. Histories generated from spec/Analysis.tla (training, selecting a model,
figures of factors, features, models and batches, also of items that do not exist) are replayed with the real
ModelAnalysis, BatchAnalysis and DataHandler; the numbers in the figures are judged by spec/Analysis_Trace.tla."""
import copy
import re

from harness.common import *


def run():
    setup_imports()
    import numpy as np
    import pandas as pd
    import plotly.basedatatypes as pbd
    from scipy import stats
    from esat.data.analysis import BatchAnalysis, ModelAnalysis
    from esat.data.datahandler import DataHandler
    from esat.model.batch_sa import BatchSA
    from esat.model.sa import SA
    ck = Check("P24", "model_checking",
               ["figures are read from plotly's figure objects, as shown or as returned",
                "p-values and standard errors are compared with scipy's on data scaled by the driver"])
    ck.design("Analysis", "Analysis_MC.cfg", workers=8)
    if THOROUGH:
        ck.design("Analysis", "Analysis_MCT.cfg", workers=8)
    hist, s = tlc_behaviours("Analysis_Gen", "Analysis_Gen.cfg",
                             extra=("-simulate", f"num={60 if THOROUGH else 12}", "-depth", "13", "-seed", str(SEED)))
    ck.models.append({"model": "Analysis_Gen -simulate", **s})
    pick = np.random.default_rng([SEED, 24]).permutation(len(hist))[:600 if THOROUGH else 90]
    hist = [hist[i] for i in pick]

    arr = lambda x: np.array([np.nan if v is None else v for v in x], dtype=float)
    num = lambda x: [int(v) for v in re.findall(r"(?:Factor|Model #?|#) ?(\d+)", x)]

    def figures(fn, show):
        figs, real = [], pbd.BaseFigure.show
        pbd.BaseFigure.show = lambda self, *a, **k: figs.append(self)
        try:
            got = fn()
        finally:
            pbd.BaseFigure.show = real
        if show is None or show:
            return figs, None
        assert not figs
        if got is None:
            return [], None
        got = got if isinstance(got, tuple) else (got,)
        return [g for g in got if isinstance(g, pbd.BaseFigure)], [g for g in got if not isinstance(g, pbd.BaseFigure)]

    STEPS = ["1s", "30s", "1min", "15min", "90min", "1h", "6h", "12h", "1D", "36h", "7D", "month", "late"]

    def index(rng, m, step):
        if step == "month":
            return pd.date_range("2019-01-01", periods=m, freq="MS")
        if step == "late":                               # the smallest step is the last one
            d = pd.date_range("2019-03-01", periods=m, freq="D")
            return d[:-1].append(pd.DatetimeIndex([d[-2] + pd.Timedelta(hours=1)]))
        t = np.cumsum(np.concatenate([[0], rng.choice([1, 1, 1, 2, 5], m - 1)]))
        if not np.any(np.diff(t) == 1):
            t[-1] = t[-2] + 1
        return pd.DatetimeIndex([pd.Timestamp("2020-02-27 00:00:00") + int(v) * pd.Timedelta(step) for v in t])

    def handler(rng, ci, m, f, n):
        """A dataset with categories, location columns, incomplete rows and any order of time."""
        W0, H0 = rng.uniform(0.2, 2.5, (m, f)) + 0.3 * rng.random((m, f)), rng.uniform(0.1, 1.5, (f, n))
        V = (W0 @ H0) * np.exp(0.15 * rng.standard_normal((m, n))) + 0.05
        U = V * rng.uniform(0.1, 0.4, (m, n)) + 0.05
        names = [str(x) for x in rng.permutation(["SO4", "NO3", "EC", "OC", "Fe", "Zn", "Pb"])[:n]]
        step = STEPS[ci % len(STEPS)]
        when = index(rng, m, step)
        if ci % 3 == 0:
            when = when[rng.permutation(m)]
        if ci % 2:
            when = when.strftime("%Y-%m-%d %H:%M:%S")
        Vd, Ud = pd.DataFrame(V, columns=names, index=when), pd.DataFrame(U, columns=names, index=when)
        return W0, H0, Vd, Ud

    for ci, h in enumerate(hist):
        rng = np.random.default_rng([SEED, 24, ci])
        f, n, m = 3, 4, int(rng.integers(10, 21))
        bad = ci % 4 == 1                                 # one feature more, excluded as bad
        W0, H0, Vd, Ud = handler(rng, ci, m + 2, f, n + bad)
        names = list(Vd.columns)
        if ci % 5 == 2:                                   # incomplete rows
            gaps = [int(rng.integers(0, n)), int(rng.integers(0, n))]
            Vd.iloc[3, gaps[0]] = np.nan
            Ud.iloc[5, gaps[1]] = np.nan
            whole = [i for i in range(m + 2) if i not in (3, 5)]
        else:
            gaps = []
            Vd, Ud, whole = Vd.iloc[:m], Ud.iloc[:m], list(range(m))
        loc = ci % 6 == 4
        if loc:
            for d in (Vd, Ud):
                d.insert(int(0 if ci % 4 else 1), "latitude", 40.0 + np.arange(len(d)) % 3)
                d["longitude"] = -70.0
        dh = DataHandler.load_dataframe(Vd.copy(), Ud.copy())
        if loc:
            dh.loc_cols = ["latitude", "longitude"]
        out = None
        if bad:
            out = names[int(rng.choice([i for i in range(n + 1) if i not in gaps]))]
            dh.set_category(out, "bad")
        kept_names = [x for x in names if x != out]
        weak = kept_names[int(rng.integers(0, n))] if ci % 3 == 1 else None
        if weak:
            dh.set_category(weak, "weak")
        V, U = dh.get_data()
        W0, H0 = W0[whole], H0[:, [names.index(x) for x in kept_names]]
        assert V.shape == (m, n)
        when = pd.to_datetime(pd.Index(Vd.index[whole]))
        ts = np.argsort(when.values, kind="stable")
        alone = ci % 8 == 7                               # not part of a batch
        cfg = {"f": f, "n": n, "m": m, "features": kept_names, "ts": [int(x) + 1 for x in ts],
               "sel": [1, 1, 1] if alone else [1, 2, 3], "category": [str(dh.metrics.loc[x, "Category"]) for x in kept_names]}
        batch = BatchSA(V=V, U=U, factors=f, models=3, verbose=False, max_iter=50, parallel=False)
        batch.results = []
        for i in range(3):
            sa = SA(V=V, U=U, factors=f, seed=i, verbose=False)
            sa.initialize(W=W0 * np.exp(0.2 * rng.standard_normal(W0.shape)), H=H0 * np.exp(0.2 * rng.standard_normal(H0.shape)))
            sa.train(max_iter=int(rng.integers(3, 12)))
            batch.results.append(sa)
        dead = int(rng.integers(0, 3)) if ci % 3 == 0 else -1
        real_dead = batch.results[dead] if dead >= 0 else None
        if dead >= 0:
            batch.results[dead] = None
        alive = [i for i in range(3) if i != dead]
        batch.best_model = int(rng.choice(alive))
        cfg["alive"] = [i + 1 for i in alive]
        mods = [real_dead if i == dead else batch.results[i] for i in range(3)]

        def one(ev):
            state = {"sel": 0}
            ma = {i: ModelAnalysis(dh, mods[i]) if alone else ModelAnalysis(dh, mods[i], selected_model=i) for i in range(3)}
            ba, ba0 = BatchAnalysis(batch, dh), BatchAnalysis(batch)

            def snap():
                return b"".join(np.ascontiguousarray(x, dtype=float).tobytes() for q in mods for x in (q.W, q.H, q.V, q.U, q.WH)) \
                    + pd.util.hash_pandas_object(dh.input_data_df).values.tobytes() + pd.util.hash_pandas_object(dh.uncertainty_data_df).values.tobytes() \
                    + dh.input_data.to_numpy().tobytes() + repr((dh.features, batch.best_model, state)).encode()

            def put(W=None, H=None, WH=None):
                q = mods[state["sel"]]
                own = W is None and H is None and WH is None
                W, H, WH = (q.W if W is None else W), (q.H if H is None else H), (q.WH if WH is None else WH)
                ev.append({"ev": "State", "model": state["sel"] + 1, "own": own, "V": fxm(q.V, 1e-3), "U": fxm(q.U, 1e-3),
                           "W": fxm(W, 1e-3), "H": fxm(H, 1e-3), "WH": fxm(WH, 1e-3)})

            def series(tr):
                """The points of a trace in order, and whether their times are those of the samples in order."""
                x, y = pd.to_datetime(pd.Index(tr.x)), arr(tr.y)
                ok = ~np.isnan(y)
                x, y = x[ok], y[ok]
                w = when.values[ts]
                good = len(x) == m and bool(np.all(x.values <= w)) and bool(np.all(np.diff(x.values.astype("int64")) > 0)) \
                    and bool(np.all(w - x.values < np.min(np.diff(w))))
                return y, good

            share = lambda y: fxm(arr(y) / np.sum(arr(y)), 1e-4)
            feat = lambda text: next((j + 1 for j, x in enumerate(kept_names) if re.search(rf"\b{x}\b", text)), 0)

            def asked(item):
                """One way of asking for a feature; one that the dataset has not can be asked for in several."""
                if 0 <= item < n:
                    return {"feature_idx": item} if rng.random() < 0.6 else {"feature_name": kept_names[item]}
                ways = [{"feature_idx": item}, {"feature_name": "no such feature"}, {}] + ([{"feature_name": out}] if out else [])
                return ways[int(rng.integers(0, len(ways)))]

            def draw(kind, item, show, over=None):
                """One request; the event is put before the analysis is asked again."""
                a = ma[state["sel"]]
                kw = over or {}
                before = snap()
                e = {"ev": kind, "item": item, "drawn": True, "kept": True}
                if kind == "profile":
                    figs, _ = figures(lambda: a.plot_factor_profile(item, show=show, **kw), show)
                    e["drawn"] = bool(figs)
                    if figs:
                        p, q = figs
                        sc = next(t for t in p.data if t.type == "scatter")
                        br = next(t for t in p.data if t.type == "bar")
                        e.update(features=list(sc.x), percent=fxm(arr(sc.y), 1e-2), conc=fxm(arr(br.y), 1e-3), contr=fxm(series(q.data[0])[0], 1e-2),
                                 titles=num(p.layout.title.text) + num(q.layout.title.text))
                        if list(br.x) != list(sc.x) or not series(q.data[0])[1]:
                            e["features"] = []
                elif kind == "factors":
                    lst = None if item == 0 else sorted(int(x) for x in rng.permutation(f)[:int(rng.integers(1, f + 1))])
                    figs, _ = figures(lambda: a.plot_all_factors(factor_list=lst, show=show, **kw), show)
                    rows = {}
                    for t in figs[0].data:
                        rows.setdefault((int(t.yaxis[1:] or 1) + 1) // 2, {})[t.type] = t
                    got = sorted(rows)
                    e.update(items=got, want=[x + 1 for x in (range(f) if lst is None else lst)], features=[list(rows[g]["scatter"].x) for g in got],
                             percent=[fxm(arr(rows[g]["scatter"].y), 1e-2) for g in got], conc=[fxm(arr(rows[g]["bar"].y), 1e-3) for g in got])
                elif kind == "all3d":
                    typ = ["profile", "conc", "both", "Profile", "CONC"][item % 5]
                    figs, _ = figures(lambda: a.plot_all_factors_3d(plot_type=typ, show=show, **kw), show)
                    traces = list(figs[0].data)
                    kinds = {"profile": ["p"], "conc": ["c"], "both": ["c", "p"]}[typ.lower()]
                    assert len(traces) == len(kinds)
                    for t, kd in zip(traces, kinds):
                        z, txt = arr(t.z), list(t.text)
                        vals = {}
                        for zz, tx in zip(z, txt):
                            g = re.match(r"Factor: (\d+)<br>Feature: (.*)<br>Value", tx)
                            vals.setdefault((int(g.group(1)), g.group(2)), []).append(zz)
                        grid = np.array([[max(vals[(k, x)]) for x in kept_names] for k in range(1, f + 1)])
                        e1 = dict(e, ev="factors", items=list(range(1, f + 1)), want=list(range(1, f + 1)), features=[kept_names] * f,
                                  percent=fxm(grid, 1e-2), conc=[])
                        if kd == "c":
                            g2 = {"ev": "Pairs", "what": "mass-of-the-factor", "got": fxm(grid.ravel(), 1e-4), "tol": 2, "kept": snap() == before,
                                  "want": fxm(np.log10((np.asarray(kw.get("W", a.model.W)).sum(axis=0)[:, None] * np.asarray(kw.get("H", a.model.H))) + 1).ravel(), 1e-4)}
                            ev.append(g2)
                        else:
                            e1["kept"] = snap() == before
                            ev.append(e1)
                    return
                elif kind == "fingerprints":
                    figs, _ = figures(lambda: a.plot_factor_fingerprints(grouped=bool(rng.integers(0, 2)), show=show), show)
                    by = {num(t.name)[0]: t for t in figs[0].data}
                    got = sorted(by)
                    e.update(ev="factors", items=got, want=list(range(1, f + 1)), features=[list(by[g].x) for g in got], percent=[fxm(arr(by[g].y), 1e-2) for g in got], conc=[])
                elif kind == "composition":
                    figs, _ = figures(a.plot_factor_composition, None)
                    by = {num(t.name)[0]: t for t in figs[0].data}
                    got = sorted(by)
                    e.update(ev="factors", items=got, want=list(range(1, f + 1)), features=[list(by[g].theta) for g in got],
                             percent=[fxm(100 * arr(by[g].r), 1e-2) for g in got], conc=[])
                elif kind == "gspace":
                    other = int(rng.integers(1, f + 1)) if rng.random() < 0.8 else int(rng.choice([0, f + 1]))
                    figs, _ = figures(lambda: a.plot_g_space(item, other, show=show), show)
                    e.update(drawn=bool(figs), other=other)
                    if figs:
                        t = figs[0].data[0]
                        e.update(x=share(t.x), y=share(t.y), axes=num(figs[0].layout.xaxis.title.text) + num(figs[0].layout.yaxis.title.text))
                elif kind == "contributions":
                    thr = float(rng.choice([0.05, 10.0, 25.0, 33.0, 49.0]))
                    figs, _ = figures(lambda: a.plot_factor_contributions(item, contribution_threshold=thr, show=show), show)
                    e.update(drawn=bool(figs), threshold=fx(thr, 1e-2))
                    if figs:
                        pie = figs[0].data[0]
                        by = {num(t.name)[0]: series(t) for t in figs[1].data}
                        e.update(pie=[{"factor": num(x)[0], "percent": fx(v, 1e-2)} for x, v in zip(pie.labels, pie["values"])] if pie.labels else [],
                                 contr=[share(by[k + 1][0]) if by[k + 1][1] else [] for k in range(f)], feature=feat(figs[0].layout.title.text.split(" - Model")[0].split("Feature:")[1]))
                elif kind == "residuals":
                    t = float(rng.choice([0.5, 1.0, 2.0, 3.0, -1]))
                    by = asked(item)
                    figs, rest = figures(lambda: a.plot_residual_histogram(abs_threshold=t, show=show, **by, **kw), show)
                    e["drawn"] = bool(figs)
                    if figs:
                        hi = next(x for x in figs[0].data if x.type == "histogram")
                        bx = next(x for x in figs[0].data if x.type == "box")
                        e.update(hist=fxm(arr(hi.x), 1e-3), box=fxm(arr(bx.x), 1e-3), feature=feat(figs[0].layout.title.text), listed=bool(rest), t=fx(t, 1e-1), rows=[], vals=[])
                        bell = next(x for x in figs[0].data if x.name == "Normal")
                        e.update(bell=fx(arr(bell.x)[np.argmax(arr(bell.y))], 1e-3), shares=(hi.histnorm or "") if not getattr(hi.cumulative, "enabled", None) else "cumulative")
                        if rest:
                            df = rest[0]
                            pos = {v: i + 1 for i, v in enumerate(dh.input_data_df.index)}
                            e.update(rows=[pos[v] for v in df.index], vals=fxm(df.iloc[:, 0].to_numpy(float), 1e-3))
                            if list(df.columns) != [kept_names[item]]:
                                e["feature"] = 0
                            if t == -1:
                                e["t"] = -10000
                elif kind == "observed":
                    by = asked(item)
                    figs, _ = figures(lambda: a.plot_estimated_observed(show=show, **by), show)
                    e["drawn"] = bool(figs)
                    if figs:
                        tr = {t.name: t for t in figs[0].data}
                        assert all(np.array_equal(arr(t.x), arr(tr["Data"].x)) for t in figs[0].data)
                        e.update(x=fxm(arr(tr["Data"].x), 1e-3), y=fxm(arr(tr["Data"].y), 1e-3), line=fxm(arr(tr["Regression"].y), 1e-3),
                                 one=fxm(arr(tr["One-to-One"].y), 1e-3), feature=feat(figs[0].layout.title.text))
                elif kind == "timeseries":
                    by = asked(item)
                    figs, _ = figures(lambda: a.plot_estimated_timeseries(show=show, **by), show)
                    e["drawn"] = bool(figs)
                    if figs:
                        tr = {t.name.split()[0]: series(t) for t in figs[0].data}
                        e.update(x=fxm(tr["Observed"][0], 1e-3), y=fxm(tr["Predicted"][0], 1e-3), r=fxm(tr["Residuals"][0], 1e-3), times=all(v[1] for v in tr.values()),
                                 feature=feat(figs[0].layout.title.text.split(" - Model")[0]), model=num(figs[0].layout.title.text)[0])
                elif kind in ("surface", "fsurface"):
                    pc = bool(rng.integers(0, 2))
                    figs, _ = figures(lambda: a.plot_factor_surface(percentage=pc, **({"factor_idx": item} if kind == "surface" else {"factor_idx": None, "feature_idx": item + 1})), None)
                    e.update(ev="surface", drawn=bool(figs), byfactor=kind == "surface", share=pc)
                    if figs:
                        t = figs[0].data[0]
                        e.update(z=fxm(np.array(t.z, dtype=float), 1e-3), labels=[str(x) for x in t.x])
                elif kind == "metrics":
                    df = a.features_metrics(**kw)
                    assert df is a.residual_metrics
                    e.update(features=list(df["Feature"]), mean=fxm(df["Input Mean"], 1e-3), emean=fxm(df["Est Mean"], 1e-3), rmse=fxm(df["RMSE"], 1e-3))
                    est = kw.get("est_V", a.model.WH)
                    ev.append({"ev": "Pairs", "what": "variance-of-the-feature", "tol": 2, "kept": True, "got": fxm(df["Input Var"], 1e-4) + fxm(df["Est Var"], 1e-4),
                               "want": fxm(np.var(a.model.V, axis=0), 1e-4) + fxm(np.var(est, axis=0), 1e-4)})
                elif kind == "statistics":
                    a.calculate_statistics(**kw)
                    d = a.statistics
                    est = kw.get("results", a.model.WH)
                    e.update(features=list(d["Features"]), category=list(d["Category"]), shapiro=[x == "Yes" for x in d["Shapiro Normal Residuals"]],
                             ks=[x == "Yes" for x in d["KS Normal Residuals"]], shapiro_p=fxm(d["Shapiro PValue"], 1e-7), ks_p=fxm(d["KS PValue"], 1e-7),
                             slope=fxm(d["Slope"], 1e-3), intercept=fxm(d["Intercept"], 1e-3))
                    for cols, what in ((["r2", "Intercept", "Intercept SE", "Slope", "Slope SE", "SE", "SE Regression"], "regression-of-the-feature"),
                                       (["Anderson Statistic", "Shapiro PValue", "KS PValue", "KS Statistic", "Anderson Normal Residual"], "normality-of-the-residuals")):
                        got, want = [], []
                        for j in range(n):
                            x, y = np.asarray(V[:, j], float), np.asarray(est[:, j], float)
                            r = x - y
                            sr = r / np.asarray(U[:, j], float)
                            lr = stats.linregress(x, y)
                            an = stats.anderson(sr, dist="norm")
                            lev = next((str(an.significance_level[i]) for i, cv in enumerate(an.critical_values) if an.statistic < cv), "No")
                            w = {"r2": lr.rvalue ** 2, "Intercept": lr.intercept, "Slope": lr.slope, "Slope SE": lr.stderr, "Intercept SE": lr.intercept_stderr,
                                 "SE": None, "SE Regression": np.sqrt(1 - lr.rvalue ** 2) * np.std(y), "Anderson Statistic": an.statistic, "Shapiro PValue": stats.shapiro(sr).pvalue,
                                 "KS PValue": stats.ks_1samp(sr, stats.norm(sr.mean(), sr.std(ddof=1)).cdf).pvalue,
                                 "KS Statistic": stats.ks_1samp(sr, stats.norm(sr.mean(), sr.std(ddof=1)).cdf).statistic, "Anderson Normal Residual": None}
                            for cn in cols:
                                g = d[cn].iloc[j]
                                if cn == "Anderson Normal Residual":
                                    got.append(0)
                                    want.append(0 if g == lev or min(abs(an.statistic - an.critical_values)) < 1e-3 else 1000000)
                                elif cn == "SE":         # of the sample or of the population
                                    got.append(0)
                                    want.append(0 if min(abs(g - np.std(r, ddof=q) / np.sqrt(m)) for q in (0, 1)) < 1e-4 else 1000000)
                                else:
                                    got.append(fx(g, 1e-4))
                                    want.append(fx(w[cn], 1e-4))
                        ev.append({"ev": "Pairs", "what": what, "got": got, "want": want, "tol": 10, "kept": True})
                e["kept"] = snap() == before
                ev.append(e)

            def same(a, cands):
                """Which of the candidates the numbers are, counted from one."""
                a = arr(a)
                hits = [i + 1 for i, cnd in enumerate(cands) if cnd is not None and len(cnd) == len(a) and np.allclose(arr(cnd), a, rtol=1e-5, atol=1e-7, equal_nan=True)]
                return hits[0] if len(hits) == 1 else 0

            def batch_fig(kind, item, show):
                before = snap()
                e = {"ev": kind, "item": item}
                if kind == "loss":
                    figs, _ = figures(lambda: ba.plot_loss(show=show), show)
                    e.update(models=[num(t.name)[0] for t in figs[0].data], data=[same(t.y, [None if r is None else r.q_list for r in batch.results]) for t in figs[0].data])
                elif kind == "distribution":
                    figs, _ = figures(lambda: ba.plot_loss_distribution(show=show), show)
                    tr = {t.name: t for t in figs[0].data}
                    pt = lambda t, attr: [same([v], [None if r is None else [getattr(r, attr)] for r in batch.results]) for v in t.y]
                    assert list(tr["Q(True)"].text) == list(tr["Q(Robust)"].text)
                    e.update(models=[int(x) for x in tr["Q(True)"].text], true=pt(tr["Q(True)"], "Qtrue"), robust=pt(tr["Q(Robust)"], "Qrobust"))
                else:
                    b = ba if rng.random() < 0.6 else ba0
                    figs, _ = figures(lambda: b.plot_temporal_residuals(item, show=show), show)
                    inp, rest = figs[0].data[0], figs[0].data[1:]
                    e.update(input=same(inp.y, list(np.asarray(V, float).T)), models=[num(t.name)[0] for t in rest], best=batch.best_model + 1,
                             data=[same(t.y, [None if r is None else np.asarray(V, float)[:, item] - r.WH[:, item] for r in batch.results]) for t in rest],
                             visible=[num(t.name)[0] for t in rest if t.visible is True])
                e["kept"] = snap() == before
                ev.append(e)

            put()
            for op in h:
                if op["op"] == "select":
                    state["sel"] = op["m"] - 1
                    put()
                elif op["op"] == "train":
                    q = mods[op["m"] - 1]
                    q.train(max_iter=int(rng.integers(1, 6)))
                    put()
                elif op["op"] == "figure":
                    draw(op["kind"], op["item"], op["show"])
                else:
                    batch_fig(op["kind"], op["item"], op["show"])
            # other matrices than the model's
            W1, H1 = mods[0].W[::-1] * 1.1, mods[0].H[::-1] * 0.9
            for kind, kw in (("profile", {"W": W1, "H": H1}), ("profile", {"H": H1}), ("profile", {"W": W1}), ("factors", {"W": W1, "H": H1}), ("all3d", {"W": W1, "H": H1})):
                put(W=kw.get("W"), H=kw.get("H"))
                draw(kind, int(rng.integers(1, f + 1)), bool(rng.integers(0, 2)), kw)
            E1 = np.asarray(mods[state["sel"]].WH) * rng.uniform(0.8, 1.3, (m, n))
            put(WH=E1)
            draw("metrics", 0, True, {"est_V": E1})
            draw("residuals", int(rng.integers(0, n)), False, {"est_V": E1})
            draw("statistics", 0, True, {"results": E1})
        ck.rec.case(f"ana-{ci}", cfg, one)

        def data(ev):
            """Figures of the data."""
            cols = list(dh.input_data.columns)
            X, S = dh.input_data, dh.uncertainty_data
            numcol = lambda d, a: next((i for i, x in enumerate(cols) if len(a) == len(d) and np.array_equal(d[x].to_numpy(float), arr(a), equal_nan=True)), -1)
            wh = pd.to_datetime(X.index)

            def put(what, got, want, drawn=True, valid=True):
                ev.append({"ev": "Data", "what": what, "got": got, "want": want, "drawn": drawn, "valid": valid, "kept": dh.input_data.equals(X0) and dh.uncertainty_data.equals(S0)})
            X0, S0 = X.copy(), S.copy()
            for show in (True, False):
                i = int(rng.integers(0, len(cols)))
                for menu, sel in ((True, None), (True, i), (False, i), (False, None)):
                    figs, _ = figures(lambda: dh.plot_data_uncertainty(show=show, include_menu=menu, feature_idx=sel), show)
                    tr = figs[0].data
                    got = [[numcol(X, t.x), numcol(S, t.y), cols.index(t.name)] for t in tr if t.visible]
                    want = [[i] * 3] if sel is not None else [[0] * 3] if menu else [[q] * 3 for q in range(len(cols))]
                    put("feature-asked-for", got, want)
                    if menu:
                        b = figs[0].layout.updatemenus[0].buttons
                        put("menu-of-features", [[cols.index(x.label), [q for q, v in enumerate(x.args[0]["visible"]) if v], cols.index(x.args[1]["title.text"].split(" - ")[1])] for x in b],
                            [[q, [q], q] for q in range(len(cols))])
                for _ in range(3):
                    x, y = int(rng.integers(-1, len(cols) + 1)), int(rng.integers(-1, len(cols) + 1))
                    ok = 0 <= x < len(cols) and 0 <= y < len(cols)
                    figs, _ = figures(lambda: dh.plot_feature_data(x, y, show=show), show)
                    if not figs or not ok:
                        put("features-asked-for", [], [], bool(figs), ok)
                        continue
                    keep = X[[cols[x], cols[y]]].notna().all(axis=1)
                    Xk = X[keep]
                    tr = {t.name: t for t in figs[0].data}
                    put("features-asked-for", [numcol(Xk, tr["Data"].x), numcol(Xk, tr["Data"].y)], [x, y])
                    if len(set(Xk.iloc[:, x])) > 1:
                        sl = np.polyfit(Xk.iloc[:, x].to_numpy(float), Xk.iloc[:, y].to_numpy(float), 1)
                        ev.append({"ev": "Pairs", "what": "regression-of-the-points", "got": fxm(arr(tr["Regression"].y), 1e-3) + fxm(arr(tr["One-to-One"].y), 1e-3),
                                   "want": fxm(np.polyval(sl, Xk.iloc[:, x].to_numpy(float)), 1e-3) + fxm(Xk.iloc[:, x], 1e-3), "tol": 3, "kept": True})
                whole_ = X.notna().all(axis=1).to_numpy()
                o = np.argsort(wh.values[whole_], kind="stable")
                Xo = X[whole_].iloc[o]
                pair = [int(v) for v in rng.permutation(len(cols))[:2]]
                for sel, want in ((i, [i]), (pair, pair), (cols[i], [i]), (0, [0]), (len(cols) - 1, [len(cols) - 1]), (-1, [len(cols) - 1])):
                    figs, _ = figures(lambda: dh.plot_feature_timeseries(sel, show=show), show)
                    got = []
                    for t in figs[0].data:
                        y = arr(t.y)
                        got += [numcol(Xo, y[~np.isnan(y)]), cols.index(t.name)]
                    put("timeseries-of-the-feature", got, [q for w in want for q in (w, w)])
                figs, _ = figures(lambda: dh.plot_superimposed_histograms(show=show), show)
                put("histogram-of-the-feature", [[numcol(X, t.x), cols.index(t.name)] for t in figs[0].data], [[q, q] for q in range(len(cols))])
                figs, _ = figures(lambda: dh.plot_2d_histogram(cols[pair[0]], cols[pair[1]], show=show), show)
                put("features-asked-for", [numcol(X, figs[0].data[0].x), numcol(X, figs[0].data[0].y)], pair)
                meth = ["pearson", "spearman"][int(rng.integers(0, 2))]
                figs, _ = figures(lambda: dh.plot_feature_correlation_heatmap(method=meth, show=show), show)
                hm = figs[0].data[0]
                got, want = [], []
                for a_, x in enumerate(cols):
                    for b_, y in enumerate(cols):
                        d = X[[x, y]].dropna().to_numpy(float) if x != y else np.repeat(X[[x]].dropna().to_numpy(float), 2, axis=1)
                        if len(set(d[:, 0])) == 1 or len(set(d[:, 1])) == 1:
                            continue
                        want.append(fx((stats.pearsonr if meth == "pearson" else stats.spearmanr)(d[:, 0], d[:, 1])[0], 1e-4))
                        got.append(fx(np.array(hm.z, float)[b_][a_], 1e-4))
                put("features-of-the-data", [list(hm.x), list(hm.y)], [cols, cols])
                ev.append({"ev": "Pairs", "what": "correlation-of-the-features", "got": got, "want": want, "tol": 2, "kept": True})
                if not loc:
                    lg = bool(rng.integers(0, 2))
                    figs, _ = figures(lambda: dh.plot_ridgeline(log_x=lg, nbins=60, show=show), show)
                    put("features-of-the-data", [t.name for t in figs[0].data], cols)
                    got, want = [], []
                    for t, x in zip(figs[0].data, cols):
                        d = X[x].dropna().to_numpy(float)
                        d = np.log10(d) if lg else d
                        y = arr(t.y)
                        den = stats.gaussian_kde(d)(np.linspace(d.min(), d.max(), 60))
                        got += fxm(y - y.min(), 1e-3) + fxm([min(t.x), max(t.x)], 1e-3)
                        want += fxm(den - den.min(), 1e-3) + fxm([d.min(), d.max()], 1e-3)
                    ev.append({"ev": "Pairs", "what": "density-of-the-feature", "got": got, "want": want, "tol": 3, "kept": True})
        if ci % 3 == 0:
            ck.rec.case(f"data-{ci}", cfg, data)

    def aggregated(ai):
        rng = np.random.default_rng([SEED, 240, ai])
        n, f, N = 3, 2, int(rng.choice([5, 7, 11]))
        m = int(rng.choice([x for x in range(40, 70) if (x - 1) % N and (x - 2) % N]))     # no quantile is a sample
        W0, H0, Vd, Ud = handler(rng, 8, m, f, n)
        names = list(Vd.columns)
        if ai % 2:                                       # many samples at one value
            Vd.iloc[rng.permutation(m)[:m // 2], int(rng.integers(0, n))] = 0.05
        if ai % 3 == 2:
            Vd.iloc[4, 1] = np.nan
        d = os.path.join(scratch(), f"agg{ai}")
        os.makedirs(d, exist_ok=True)
        Vd.to_csv(d + "/v.csv", index_label="Date")
        Ud.to_csv(d + "/u.csv", index_label="Date")
        cfg = {"f": f, "n": n, "m": m}

        def one(ev):
            dh = DataHandler(d + "/v.csv", d + "/u.csv", index_col="Date", max_plotting_n=N)
            V, U = dh.get_data()
            rows = np.arange(m) if ai % 3 != 2 else np.array([i for i in range(m) if i != 4])
            assert len(V) == len(rows)
            sas = []
            for i in range(2):
                sa = SA(V=V, U=U, factors=f, seed=i, verbose=False)
                sa.initialize(W=W0[rows] * (1 + i * 0.3), H=H0)
                sa.train(max_iter=4)
                sas.append(sa)
            sa = sas[0]
            vd, ud = Vd.to_numpy(float), Ud.to_numpy(float)
            bins = []
            for j in range(n):
                q = np.unique(np.nanquantile(vd[:, j], np.linspace(0, 1, N + 1)))
                b = np.searchsorted(q[1:-1], vd[:, j]).astype(float)
                b[np.isnan(vd[:, j])] = np.nan
                bins.append(b)

            def means(a, j, sub):
                b = bins[j][sub]
                return [float(np.nanmean(a[b == k])) for k in sorted(set(b[~np.isnan(b)]))]

            def put(what, got, want):
                ev.append({"ev": "Pairs", "what": what, "got": fxm(np.asarray(got, float), 1e-4), "want": fxm(np.asarray(want, float), 1e-4), "tol": 4, "kept": True})
            nn = lambda a: arr(a)[~np.isnan(arr(a))]
            for j, x in enumerate(names):
                put("data-of-the-group", nn(dh.input_data_plot[x]), means(vd[:, j], j, np.arange(m)))
                put("uncertainty-of-the-group", nn(dh.uncertainty_data_plot[x]), means(ud[:, j], j, np.arange(m)))
                put("output-of-the-group", nn(dh.aggregate_output(np.asarray(sa.WH))[x]), means(np.asarray(sa.WH, float)[:, j], j, rows))
                figs, _ = figures(lambda: ModelAnalysis(dh, sa, 0).plot_estimated_observed(feature_idx=j, show=False), False)
                put("observed-of-the-group", figs[0].data[0].x, means(np.asarray(V, float)[:, j], j, rows))
                put("estimate-of-the-group", figs[0].data[0].y, means(np.asarray(sa.WH, float)[:, j], j, rows))
                batch = BatchSA(V=V, U=U, factors=f, models=2, verbose=False)
                batch.results, batch.best_model = sas, 1
                figs, _ = figures(lambda: BatchAnalysis(batch, dh).plot_temporal_residuals(j, show=False), False)
                for t, q in zip(figs[0].data[1:], sas):
                    put("residual-of-the-group", nn(t.y), np.array(means(np.asarray(V, float)[:, j], j, rows)) - np.array(means(np.asarray(q.WH, float)[:, j], j, rows)))
                figs, _ = figures(lambda: dh.plot_data_uncertainty(show=False, include_menu=False, feature_idx=j), False)
                put("data-of-the-group", nn(figs[0].data[0].x), means(vd[:, j], j, np.arange(m)))
            fa, tot = ModelAnalysis(dh, sa, 0).aggregate_factors_for_plotting()
            for j, x in enumerate(names):
                put("sum-of-the-factors", nn(sum(np.nan_to_num(fa[k][x].to_numpy(float)) for k in range(f)))[:len(nn(tot[x]))], nn(tot[x]))
                for k in range(f):
                    put("factor-of-the-group", nn(fa[k][x]), means(np.outer(sa.W[:, k], sa.H[k])[:, j], j, rows))
        ck.rec.case(f"agg-{ai}", cfg, one)
    for ai in range(24 if THOROUGH else 8):
        aggregated(ai)

    def negatives():
        out = []

        def put(kind, fn, **need):
            for cs in ck.rec.cases:
                for i, e in enumerate(cs["ev"]):
                    if e["ev"] == kind and e.get("drawn", True) and all(e.get(k) == v for k, v in need.items()):
                        c2 = copy.deepcopy(cs)
                        fn(c2["ev"][i])
                        out.append(c2)
                        return
        put("State", lambda e: e["WH"][1].__setitem__(0, e["WH"][1][0] + 300), own=True)
        put("profile", lambda e: e.update(item=e["item"] % 3 + 1))
        put("profile", lambda e: e["titles"].__setitem__(1, e["titles"][1] + 1))
        put("profile", lambda e: e.update(kept=False))
        put("factors", lambda e: e["percent"][0].reverse())
        put("gspace", lambda e: e["x"].reverse())
        put("contributions", lambda e: e["contr"].reverse())
        put("contributions", lambda e: e.update(feature=e["feature"] % 4 + 1))
        put("residuals", lambda e: e["hist"].reverse())
        put("residuals", lambda e: e.update(drawn=False))
        put("residuals", lambda e: e.update(shares="") if e["drawn"] else False)
        put("observed", lambda e: e["y"].reverse())
        put("observed", lambda e: e["line"].reverse())
        put("timeseries", lambda e: e["y"].reverse())
        put("timeseries", lambda e: e.update(times=False))
        put("surface", lambda e: e["z"].reverse())
        put("metrics", lambda e: e["rmse"].reverse())
        put("statistics", lambda e: e["features"].reverse())
        put("loss", lambda e: e["data"].reverse())
        put("distribution", lambda e: e["true"].reverse())
        put("temporal", lambda e: e.update(best=e["best"] % 3 + 1))
        put("temporal", lambda e: e["data"].reverse())
        put("Pairs", lambda e: e["want"].__setitem__(0, e["want"][0] + 50))
        put("Data", lambda e: e["got"].reverse(), what="histogram-of-the-feature")
        return out
    ck.trace("Analysis_Trace", negatives=negatives, workers=8)
    return ck.finish()
