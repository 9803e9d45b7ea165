"""P25: figures and tables of the error methods and of constrained models. Histories generated from
spec/ErrFigures.tla (runs, figures of factors, features and dQ values, summaries of several methods, also of items
that do not exist) are replayed with the real Bootstrap, Displacement, BSDISP, Error and ConstrainedModel; the
numbers in the figures are judged by spec/ErrFigures_Trace.tla against the models the methods trained."""
import copy
import re

from harness.common import *
from harness import fakepool


def run():
    setup_imports()
    import numpy as np
    import pandas as pd
    import plotly.basedatatypes as pbd
    from esat.data.datahandler import DataHandler
    from esat.error.bootstrap import Bootstrap
    from esat.error.bs_disp import BSDISP
    from esat.error.displacement import Displacement
    from esat.error.error import Error
    from esat.model.sa import SA
    from esat.rotational.constrained import ConstrainedModel
    fakepool.install()
    ck = Check("P25", "model_checking", ["figures are read from plotly's figure objects as shown",
                                         "parallel runs use a pool that runs in this process"])
    ck.design("ErrFigures", "ErrFigures_MC.cfg", workers=8)
    if THOROUGH:
        ck.design("ErrFigures", "ErrFigures_MCT.cfg", workers=8)
    hist, s = tlc_behaviours("ErrFigures_Gen", "ErrFigures_Gen.cfg",
                             extra=("-simulate", f"num={60 if THOROUGH else 12}", "-depth", "17", "-seed", str(SEED)))
    ck.models.append({"model": "ErrFigures_Gen -simulate", **s})
    pick = np.random.default_rng([SEED, 25]).permutation(len(hist))[:300 if THOROUGH else 48]
    hist = [hist[i] for i in pick]

    arr = lambda x: np.array([np.nan if v is None else v for v in x], dtype=float)
    num = lambda x: [int(v) for v in re.findall(r"(?:Factor|Model #?|#) ?(\d+)", x)]

    def shown(fn):
        figs, real = [], pbd.BaseFigure.show
        pbd.BaseFigure.show = lambda self, *a, **k: figs.append(self)
        try:
            fn()
        finally:
            pbd.BaseFigure.show = real
        return figs

    def kind_of(figs, typ):
        return [t for g in figs for t in g.data if t.type == typ]

    share = lambda y: fxm(arr(y) / np.sum(arr(y)), 1e-4)
    dq10 = lambda v: int(round(10 * float(v)))

    # models with more factors than a colour scale has colours
    MANY = [{"op": "figure", "kind": k, "item": i, "dq": d, "with": []} for k, i, d in
            [("con.fingerprints", 0, 0), ("bs.profile", 11, 0), ("bs.mapping", 0, 0), ("con.gspace", 11, 10), ("con.profile", 11, 0), ("con.both", 12, 0),
             ("bs.contribution", 12, 0), ("con.contributions", 11, 0), ("con.feature", 3, 0), ("bs.table", 11, 0)]]
    hist.append(MANY)

    def setup(ci):
        rng = np.random.default_rng([SEED, 25, ci])
        f, n, m = 2, int(rng.integers(3, 5)), int(rng.integers(9, 13))
        if hist[ci] is MANY:
            f = 11
        W0, H0 = rng.uniform(0.2, 2.5, (m + 2, f)), rng.uniform(0.1, 1.5, (f, n))
        if ci % 4 == 2:
            H0[0, 0] = 0.0                                # a feature without a factor
        V = (W0 @ H0) * np.exp(0.15 * rng.standard_normal((m + 2, n))) + 0.05
        U = V * rng.uniform(0.1, 0.3, (m + 2, n)) + 0.02
        names = [str(x) for x in rng.permutation(["SO4", "NO3", "EC", "OC", "Fe"])[:n + 1]]
        when = pd.date_range("2021-05-01", periods=m + 2, freq=["D", "6h", "h"][ci % 3])
        if ci % 2:
            when = when[rng.permutation(m + 2)]
        extra = rng.uniform(0.5, 1.0, (m + 2, 1))
        at = int(rng.integers(0, n + 1))
        Vd = pd.DataFrame(np.insert(V, [at], extra, axis=1), columns=names, index=when)
        Ud = pd.DataFrame(np.insert(U, [at], 0.2 * extra, axis=1), columns=names, index=when)
        whole = list(range(m + 2))
        if ci % 3 == 1:                                   # incomplete rows
            Vd.iloc[3, (at + 1) % (n + 1)] = np.nan
            Ud.iloc[5, (at + 2) % (n + 1)] = np.nan
            whole = [i for i in whole if i not in (3, 5)]
        dh = DataHandler.load_dataframe(Vd, Ud)
        dh.set_category(names[at], "bad")
        kept = [x for i, x in enumerate(names) if i != at]
        V, U = dh.get_data()
        m = len(whole)
        assert V.shape == (m, n)
        w = pd.to_datetime(pd.Index(Vd.index[whole]))
        ts = np.argsort(w.values, kind="stable")
        return rng, f, n, m, V, U, dh, kept, w, ts, W0[whole], H0

    for ci, h in enumerate(hist):
        rng, f, n, m, V, U, dh, kept_names, when, ts, W0, H0 = setup(ci)
        sa = SA(V=V, U=U, factors=f, seed=int(rng.integers(1, 99)), method="ls-nmf", verbose=False)
        sa.initialize(W=W0 * np.exp(0.1 * rng.standard_normal(W0.shape)), H=H0 + 0.01)
        sa.train(max_iter=12)
        model = int(rng.integers(1, 30))
        cfg = {"f": f, "n": n, "m": m, "features": kept_names, "ts": [int(x) + 1 for x in ts], "model": model,
               "W": fxm(sa.W, 1e-3), "H": fxm(sa.H, 1e-3), "Q": fx(sa.Qrobust, 1e-1)}
        feats = None if ci % 3 else sorted(int(x) for x in rng.permutation(n)[:n - 1])

        def one(ev):
            use = {o["kind"].split(".")[0] for o in h} | {k for o in h for k in o["with"]}
            obj = {}
            first = {}

            # the numbers of a collapsed factor do not fit the fixed point of the trace
            sane = lambda q: bool(np.all(np.isfinite(q.W)) and np.max(np.abs(q.W)) < 60 and np.max(np.abs(q.H)) < 60 and np.min(q.H.sum(axis=0)) > 0.01)

            def run_bs():
                if "bs" not in obj or rng.random() < 0.5:
                    obj["bs"] = Bootstrap(sa=sa, feature_labels=kept_names, model_selected=model, bootstrap_n=int(rng.integers(2, 8)), block_size=3,
                                          threshold=float(rng.choice([0.3, 0.9, 0.99])), parallel=bool(rng.integers(0, 2)), cpus=2, seed=int(rng.integers(1, 99)))
                b = obj["bs"]
                b.run(keep_H=bool(rng.integers(0, 2)))
                for _ in range(8):
                    if all(sane(r["model"]) for r in b.bs_results.values()):
                        break
                    b.run(keep_H=True)
                ev.append({"ev": "Bs", "runs": [{"W": fxm(r["model"].W, 1e-3), "H": fxm(r["model"].H, 1e-3), "Q": fx(r["model"].Qrobust, 1e-1),
                                                 "match": [int(r["mapping"][k]["match"]) + 1 if r["mapping"][k]["mapped"] else 0 for k in range(f)]}
                                                for r in b.bs_results.values()]})

            def ranges(d, base):
                """Displacement d, read from the displaced solutions it kept; base is the model it displaced."""
                H, W = np.asarray(base.H, float) + 1e-12, np.asarray(base.W, float)
                p, c = 100 * H / H.sum(axis=0), W.sum(axis=0)[:, None] * H
                out = {"p": fxm(p, 1e-2), "c": fxm(c, 1e-3)}
                fl = feats if feats is not None else list(range(n))

                def grid(res, field, base_, scale):
                    return [[[fx(scale * float(res[f"factor-{k + 1}"][f"feature-{j}"][dq][field]), u) if j in fl else fx(base_[k, j], u)
                              for j in range(n)] for k in range(f)] for dq in d.dQmax]
                for field, base_, scale, u, key in (("percent", p, 100, 1e-2, "p"), ("conc", c, 1, 1e-3, "c")):
                    out[key + "hi"] = grid(d.increase_results, field, base_, scale)
                    out[key + "lo"] = grid(d.decrease_results, field, base_, scale)
                both = lambda k, dq: [bool(res[f"factor-{k + 1}"][f"feature-{j}"][dq]["swap"]) for res in (d.increase_results, d.decrease_results) for j in fl]
                out["swaps"] = [[sum(both(k, dq)) for k in range(f)] for dq in d.dQmax]
                out["count"] = [[len(both(k, dq)) for k in range(f)] for dq in d.dQmax]
                return out

            def run_disp():
                d = obj["disp"] = Displacement(sa=sa, feature_labels=kept_names, model_selected=model, features=feats, max_search=12,
                                               parallel=bool(rng.integers(0, 2)), cores=2)
                d.run()
                ev.append({"ev": "Disp", "dqs": [dq10(x) for x in d.dQmax], "runs": [ranges(d, sa)]})

            def run_bsdisp():
                bs = Bootstrap(sa=sa, feature_labels=kept_names, model_selected=model, bootstrap_n=2, block_size=3, parallel=False, seed=7)
                bs.run()
                d = obj["bsdisp"] = BSDISP(sa=sa, feature_labels=kept_names, model_selected=model, bootstrap=bs, features=feats, max_search=12, cores=2)
                d.run(parallel=True)
                ev.append({"ev": "Bsdisp", "dqs": [dq10(x) for x in d.dQmax],
                           "runs": [ranges(q, bs.bs_results[k]["model"]) for k, q in d.disp_results.items()]})

            def run_con(tries=8):
                if "con" not in obj or rng.random() < 0.5:
                    obj["con"] = ConstrainedModel(base_model=sa, data_handler=dh, softness=float(rng.choice([0.5, 1.0, 4.0])))
                    first["con"] = {"constraints": [], "expressions": []}
                q, st = obj["con"], first["con"]
                made = 0
                for _ in range(int(rng.integers(1, 4))):
                    target = str(rng.choice(["feature", "sample"]))
                    i, j = (int(rng.integers(0, f)), int(rng.integers(0, n))) if target == "feature" else (int(rng.integers(0, m)), int(rng.integers(0, f)))
                    typ = str(rng.choice(["set to zero", "set to base value", "define limits", "pull down", "pull up", "pull to value"]))
                    if any((x["target"], x["i"], x["j"]) == (target, i + 1, j + 1) for x in st["constraints"]):
                        continue
                    v = round(float(rng.uniform(0.1, 1.0)), 3)
                    dq = int(rng.integers(5, 60))
                    kw = {"define limits": {"min_value": v, "max_value": v + 1}, "pull down": {"dQ": dq}, "pull up": {"dQ": dq}, "pull to value": {"target_value": v, "dQ": dq}}.get(typ, {})
                    assert q.add_constraint(constraint_type=typ, index=(i, j), target=target, **kw)
                    st["constraints"].append({"target": target, "i": i + 1, "j": j + 1, "type": typ, "lo": fx(v, 1e-3), "hi": fx(v + 1, 1e-3), "dq": 100 * dq if "dQ" in kw else NANV})
                    made += 1
                for _ in range(int(rng.integers(0, 3)) if made else 1):
                    seen, terms, text = set(), [], ""
                    for t in range(int(rng.integers(2, 4))):
                        target = str(rng.choice(["feature", "feature", "sample"]))
                        k, j = int(rng.integers(0, f)), int(rng.integers(0, n if target == "feature" else m))
                        if (target, k, j) in seen:
                            continue
                        seen.add((target, k, j))
                        coef, neg = round(float(rng.uniform(0.2, 3.0)), 2), bool(terms) and bool(rng.integers(0, 2))
                        text += ("-" if neg else "+" if terms else "") + f"({coef}*[factor:{k}|{target}:{j}])"
                        ij = (k + 1, j + 1) if target == "feature" else (j + 1, k + 1)
                        terms.append({"coef": int(round(100 * coef)) * (-1 if neg else 1), "target": target, "i": ij[0], "j": ij[1]})
                    dq = int(rng.integers(50, 300))
                    q.add_expression(f"{text}=0,{dq}")
                    st["expressions"].append({"terms": terms, "dq": 100 * dq})
                steps = int(rng.integers(5, 15))
                q.train(max_iterations=steps)
                c = q.constrained_model
                if not sane(c) and tries:
                    obj.pop("con")
                    return run_con(tries - 1)
                ev.append({"ev": "Con", "W": fxm(c.W, 1e-3), "H": fxm(c.H, 1e-3), "steps": int(c.converge_steps) + 1,
                           "Qtrue": fx(np.sum(np.square((V - c.W @ c.H) / U)), 1e-1), "Qrobust": fx(c.Qrobust, 1e-1), **copy.deepcopy(st)})

            runs = {"bs": run_bs, "disp": run_disp, "bsdisp": run_bsdisp, "con": run_con}
            for k in ("bs", "disp", "bsdisp", "con"):
                if k in use:
                    runs[k]()

            def snap():
                mods = [sa] + ([r["model"] for r in obj["bs"].bs_results.values()] if "bs" in obj else []) + ([obj["con"].constrained_model] if "con" in obj else [])
                b = b"".join(np.ascontiguousarray(x, dtype=float).tobytes() for q in mods for x in (q.W, q.H, q.V, q.U))
                for k in ("disp", "bsdisp"):
                    if k in obj:
                        d = obj[k]
                        b += d.compiled_results.to_json(double_precision=15).encode() + d.swap_table.tobytes() + d.count_table.tobytes()
                if "bs" in obj:
                    d = obj["bs"]
                    b += repr((d.bs_profiles, d.bs_factor_contributions, d.factor_tables)).encode() + d.mapping_df.to_json().encode() + d.q_results.to_json().encode() + d.base_H.tobytes()
                if "con" in obj:
                    d = obj["con"]
                    b += repr((d.Q_list, d.expressions, sorted(d.constraints), d.expression_labeled, d.expression_mapped)).encode()
                return b + dh.input_data.to_json().encode() + dh.input_data_df.to_json().encode()

            def series(tr):
                x, y = pd.to_datetime(pd.Index(tr.x)), arr(tr.y)
                ok = ~np.isnan(y)
                x, y = x[ok], y[ok]
                w = when.values[ts]
                return y if len(x) == m and bool(np.all(x.values == w)) else y[:0]

            names_of = lambda t: [str(x) for x in t.x]

            def disp_fig(e, name, item, dq):
                k, what = name.split(".")
                d = obj[k]
                dq_ = dq / 10 if dq % 10 else dq // 10
                fn = getattr(d, "plot_" + what)
                both = rng.random() < 0.3
                figs = shown((lambda: d.plot_results(item, dQ=dq_)) if both else (lambda: fn(item, dQ=dq_)))
                for g, w in zip(figs, ("profile", "contribution") if both else (what,)):
                    sc, br = kind_of([g], "scatter")[0], kind_of([g], "bar")[0]
                    u = 1e-2 if w == "profile" else 1e-3
                    t = g.layout.title.text
                    lo, y = arr(br.base), arr(br.y)
                    ev.append(dict(e, ev="disp." + w, kind=k, state=k.capitalize(), dq=dq, features=names_of(sc) if names_of(sc) == names_of(br) else [], base=fxm(arr(sc.y), u),
                                   lo=fxm(lo, u), hi=fxm(lo + y, u), positive=bool(np.all(lo > 0) and np.all(arr(sc.y) > 0)),
                                   title=num(t) + [dq10(re.search(r"dQ ([0-9.]+)", t).group(1))]))
                if not figs:
                    ev.append(dict(e, ev="disp." + what, kind=k, state=k.capitalize(), dq=dq, drawn=False))

            def figure(name, item, dq):
                e = {"ev": name, "item": item, "drawn": True, "kept": True}
                k, what = name.split(".")
                o = obj[k]
                if name in ("bs.profile", "bs.contribution"):
                    both = rng.random() < 0.3
                    figs = shown((lambda: o.plot_results(item)) if both else (lambda: o.plot_factor(item)) if what == "profile" else (lambda: o.plot_contribution(item)))
                    for g, w in zip(figs, ("profile", "contribution") if both else (what,)):
                        u = 1e-2 if w == "profile" else 1e-3
                        bx, sc = kind_of([g], "box"), kind_of([g], "scatter")[0]
                        ok = names_of(sc) == [b.name for b in bx]
                        ev.append(dict(e, ev="bs." + w, features=[b.name for b in bx] if ok else [], box=[fxm(arr(b.y), u) for b in bx], base=fxm(arr(sc.y), u),
                                       positive=all(np.all(arr(b.y) > 0) for b in bx) and bool(np.all(arr(sc.y) > 0)), title=num(g.layout.title.text)))
                    if not figs:
                        ev.append(dict(e, drawn=False))
                    return
                if k in ("disp", "bsdisp") and what != "summary":
                    return disp_fig(e, name, item, dq)
                if name == "bs.table":
                    figs = shown(lambda: o.show_factor_results(item))
                    e["drawn"] = bool(figs)
                    if figs:
                        t = kind_of(figs, "table")[0]
                        col = dict(zip(t.header["values"], t.cells["values"]))
                        e.update(features=list(col["features"]), base=fxm(arr(col["Base Run Profile"]), 1e-3), mean=fxm(arr(col["BS Mean"]), 1e-3), std=fxm(arr(col["BS Std. Dev."]), 1e-3),
                                 quant=[fxm(arr(col[c]), 1e-3) for c in ("BS 5th", "BS 25th", "BS Median", "BS 75th", "BS 95th")], within=[bool(x) for x in col["Within IQR"]],
                                 title=num(figs[0].layout.title.text))
                elif name == "bs.mapping":
                    t = kind_of(shown(o.show_mapping_table), "table")[0]
                    col = list(zip(t.header["values"], t.cells["values"]))
                    e.update(rows=[num(x)[0] for x in col[0][1]], cols=[num(c)[0] for c, _ in col[1:-1]], table=[[int(col[b + 1][1][a]) for b in range(f)] for a in range(f)],
                             unmapped=[int(x) for x in col[-1][1]])
                elif name == "bs.q":
                    t = kind_of(shown(o.show_q_table), "table")[0]
                    assert list(t.header["values"]) == ["Base", "Min", "25th", "Median", "75th", "Max"]
                    e["q"] = [int(np.asarray(x, float).ravel()[0]) for x in t.cells["values"]]
                elif what == "summary":
                    t = kind_of(shown(o.summary), "table")[0]
                    col = list(zip(t.header["values"], t.cells["values"]))
                    e.update(ev="disp.summary", state=k.capitalize(), dqs=[dq10(x) for x in col[0][1]], cols=[num(c)[0] for c, _ in col[1:]],
                             swap=[[fx(float(col[b + 1][1][a]), 1e-2) for b in range(f)] for a in range(len(col[0][1]))])
                elif name in ("con.profile", "con.contributions", "con.both"):
                    figs = shown({"profile": lambda: o.plot_profile(item), "contributions": lambda: o.plot_contributions(item), "both": lambda: o.plot_profile_contributions(item)}[what])
                    if not figs:
                        ev.append(dict(e, ev="con.profile" if what == "both" else name, drawn=False))
                    for g, w in zip(figs, ("profile", "contributions") if what == "both" else (what,)):
                        tr = {(t.type, t.name.split()[0]): t for t in g.data}
                        if w == "profile":
                            got = [names_of(t) for t in tr.values()]
                            col = tr["bar", "Constrained"].marker.line.color
                            col = [col] * n if isinstance(col, str) or col is None else list(col)
                            ev.append(dict(e, ev="con.profile", features=got[0] if all(x == got[0] for x in got) else [], title=num(g.layout.title.text),
                                           bp=fxm(arr(tr["scatter", "Base"].y), 1e-2), cp=fxm(arr(tr["scatter", "Constrained"].y), 1e-2),
                                           bc=fxm(arr(tr["bar", "Base"].y), 1e-3), cc=fxm(arr(tr["bar", "Constrained"].y), 1e-3), mark=[str(x) for x in col]))
                        else:
                            ev.append(dict(e, ev="con.contributions", title=num(g.layout.title.text), b=fxm(series(tr["scatter", "Base"]), 1e-2), c=fxm(series(tr["scatter", "Constrained"]), 1e-2)))
                    return
                elif name == "con.q":
                    q = str(rng.choice(["true", "robust", "aux", "main", "True", "MAIN"]))
                    t = kind_of(shown(lambda: o.plot_Q(q)), "scatter")[0]
                    other = {x: fxm(arr(kind_of(shown(lambda: o.plot_Q(x)), "scatter")[0].y), 1e-1) for x in ("true", "aux")}
                    e.update(q=q.lower(), x=[int(v) for v in t.x], y=fxm(arr(t.y), 1e-1), **other)
                elif name == "con.constraints":
                    t = kind_of(shown(o.evaluate_constraints), "table")[0]
                    col = dict(zip(t.header["values"], t.cells["values"]))
                    rows = []
                    for x in range(len(col["Index"])):
                        tv = col["Target Value(s)"][x]
                        lim = [float(v) for v in re.findall(r"-?[0-9.]+(?:e-?\d+)?", tv)] if isinstance(tv, str) else [np.nan if tv is None else float(tv)] * 2
                        ix = [int(v) for v in col["Index"][x]]
                        d = col["dQ"][x]
                        rows.append({"target": col["Target"][x], "i": ix[0] + 1, "j": ix[1] + 1, "type": col["Type"][x], "base": fx(float(col["Base Value"][x]), 1e-3),
                                     "value": fx(float(col["Solution Value"][x]), 1e-3), "lo": fx(lim[0], 1e-3), "hi": fx(lim[1], 1e-3), "dq": fx(np.nan if d is None else float(d), 1e-2)})
                    e["rows"] = rows
                elif name == "con.expressions":
                    figs = shown(o.evaluate_expressions)
                    e["drawn"] = bool(figs)
                    if figs:
                        a, b = kind_of(figs, "table")
                        col = dict(zip(a.header["values"], a.cells["values"]))
                        flip = lambda t, p: (p[0], p[1]) if t == "feature" else (p[1], p[0])
                        e["elements"] = []
                        for x in range(len(col["Index"])):
                            ij = flip(col["Target"][x], [int(v) for v in col["Index"][x]])
                            e["elements"].append({"target": col["Target"][x], "i": ij[0] + 1, "j": ij[1] + 1, "base": fx(float(col["Base Value"][x]), 1e-3), "value": fx(float(col["Solution Value"][x]), 1e-3)})
                        cols = list(zip(b.header["values"], b.cells["values"]))
                        get = dict(cols)
                        e["rows"] = []
                        for x in range(len(get["dQ"])):
                            terms = []
                            for nm, vals in cols:
                                if nm.startswith("Term") and vals[x]:
                                    g = re.fullmatch(r"(-?[0-9.]+)\(factor:(\d+)\|(feature|sample):(\d+)\)", vals[x])
                                    ij = flip(g.group(3), (int(g.group(2)), int(g.group(4))))
                                    terms.append({"coef": int(round(100 * float(g.group(1)))), "target": g.group(3), "i": ij[0] + 1, "j": ij[1] + 1})
                            e["rows"].append({"terms": terms, "dq": fx(float(get["dQ"][x]), 1e-2), "base": fx(float(get["Base Eval"][x]), 1e-3), "value": fx(float(get["Solution Eval"][x]), 1e-3)})
                elif name == "con.fingerprints":
                    bars = kind_of(shown(o.plot_factor_fingerprints), "bar")
                    by = {(t.hovertext, num(t.name)[0]): t for t in bars}
                    got = [names_of(t) for t in bars]
                    items = sorted({k for _, k in by})
                    ok = len(by) == 2 * f and len(bars) == 2 * f
                    e.update(items=items if ok else [], features=got[0] if all(x == got[0] for x in got) else [], b=[fxm(arr(by["Base", k].y), 1e-2) for k in items],
                             c=[fxm(arr(by["Constrained", k].y), 1e-2) for k in items])
                elif name == "con.gspace":
                    base, delta = bool(rng.integers(0, 2)), bool(rng.random() < 0.3)
                    figs = shown(lambda: o.plot_g_space(item, dq, show_base=base, show_delta=delta))
                    e.update(drawn=bool(figs), other=dq, wanted=base or delta)
                    if figs:
                        pts = [t for t in figs[0].data if t.mode == "markers"]
                        b = [t for t in pts if t.name == "Base"]
                        c = [t for t in pts if t.name != "Base"]
                        e.update(based=bool(b), cx=share(c[0].x), cy=share(c[0].y), bx=share(b[0].x) if b else [], by=share(b[0].y) if b else [],
                                 axes=num(figs[0].layout.xaxis.title.text) + num(figs[0].layout.yaxis.title.text))
                elif name == "con.feature":
                    thr = float(rng.choice([0.06, 20.0, 35.0, 55.0]))
                    item = n + 1 if item == 4 else item
                    figs = shown(lambda: o.plot_factor_contributions(item, threshold=thr))
                    e.update(item=item, drawn=bool(figs), threshold=fx(thr, 1e-2))
                    if figs:
                        pie = kind_of(figs, "pie")[0]
                        by = {num(t.name)[0]: series(t) for t in figs[1].data}
                        e.update(pie=[{"factor": num(x)[0], "percent": fx(v, 1e-2)} for x, v in zip(pie.labels, pie["values"])] if pie.labels else [],
                                 contr=[share(by[k + 1]) for k in range(f)], feature=next((j + 1 for j, x in enumerate(kept_names) if re.search(rf"\b{x}\b", figs[0].layout.title.text.split("Feature:")[1])), 0))
                ev.append(e)

            for o in h:
                before, at = snap(), len(ev)
                if o["op"] == "run":
                    runs[o["kind"]]()
                    continue
                if o["op"] == "summary":
                    figs = shown(lambda: Error(**{k: obj[k] for k in o["with"]}).plot_summary(o["item"]))
                    e = {"ev": "summary", "item": o["item"], "with": o["with"], "drawn": bool(figs), "kept": True}
                    if figs:
                        sc = kind_of(figs, "scatter")[0]
                        bars = []
                        for t in kind_of(figs, "bar"):
                            lo, y = arr(t.base), arr(t.y)
                            bars.append({"kind": {"BS": "bs", "Disp": "disp", "BS-Disp": "bsdisp"}[t.name], "features": names_of(t), "lo": fxm(lo, 1e-3), "hi": fxm(lo + y, 1e-3)})
                        e.update(bars=bars, base=fxm(arr(sc.y), 1e-3), positive=bool(np.all(arr(sc.y) > 0)) and all(np.all(arr(t.base) > 0) for t in kind_of(figs, "bar")), title=num(figs[0].layout.title.text))
                    ev.append(e)
                else:
                    figure(o["kind"], o["item"], o["dq"])
                same = snap() == before
                for e in ev[at:]:
                    e["kept"] = same
        ck.rec.case(f"h{ci}", cfg, one)

    def negatives():
        out = []

        def put(kind, fn, **need):
            for cs in ck.rec.cases:
                for i, e in enumerate(cs["ev"]):
                    if e["ev"] == kind and e.get("drawn", True) and all(e.get(k) == v for k, v in need.items()):
                        c2 = copy.deepcopy(cs)
                        fn(c2["ev"][i])
                        out.append(c2)
                        return
        put("bs.profile", lambda e: e.update(item=3 - e["item"]))
        put("bs.profile", lambda e: e["title"].reverse())
        put("bs.profile", lambda e: e["box"][0].pop())
        put("bs.contribution", lambda e: e["base"].reverse())
        put("bs.contribution", lambda e: e.update(kept=False))
        put("bs.table", lambda e: e["quant"].reverse())
        put("bs.table", lambda e: e.update(within=[not x for x in e["within"]]))
        put("bs.mapping", lambda e: e["unmapped"].__setitem__(0, e["unmapped"][0] + 1))
        put("bs.q", lambda e: e["q"].__setitem__(5, e["q"][5] + 2))
        put("disp.profile", lambda e: e["hi"].__setitem__(0, e["hi"][0] + 60 + e["hi"][0] // 50))
        put("disp.profile", lambda e: e["title"].__setitem__(2, 80))
        put("disp.contribution", lambda e: e["lo"].__setitem__(0, e["lo"][0] + 60 + e["lo"][0] // 50))
        put("disp.summary", lambda e: e["swap"][0].__setitem__(0, e["swap"][0][0] + 5))
        put("summary", lambda e: e["bars"].pop())
        put("summary", lambda e: e["base"].reverse())
        put("con.profile", lambda e: e["cp"].reverse())
        put("con.contributions", lambda e: e["c"].reverse())
        put("con.contributions", lambda e: e["title"].append(1))
        put("con.q", lambda e: e["y"].__setitem__(-1, e["y"][-1] + 50 + e["y"][-1] // 10), q="main")
        put("con.constraints", lambda e: e["rows"][0].update(value=e["rows"][0]["value"] + 5))
        put("con.expressions", lambda e: e["rows"][0].update(value=e["rows"][0]["value"] + 100))
        put("con.fingerprints", lambda e: e["c"].reverse())
        put("con.gspace", lambda e: e.update(axes=[3 - x for x in e["axes"]]))
        put("con.feature", lambda e: e["contr"].reverse())
        return out
    ck.trace("ErrFigures_Trace", negatives=negatives, workers=8)
    return ck.finish()
