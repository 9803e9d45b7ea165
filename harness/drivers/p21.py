"""P21: the synthetic data simulator. Operation histories generated from spec/Simulator.tla are replayed in
the real simulator (twice, with the same seed); states, curves, data and comparisons are judged by
spec/Simulator_Trace.tla."""
import copy
from types import SimpleNamespace

from harness.common import *


def run():
    setup_imports()
    import numpy as np
    import pandas as pd
    import plotly.basedatatypes as pbd
    from esat_eval.simulator import Simulator
    ck = Check("P21", "model_checking",
               ["values are drawn by numpy; bounds on draws are eight standard deviations, on shares six and on spreads a factor of two",
                "ratios of the data to contributions times profiles are computed by the driver and rounded to 1e-5"])
    ck.design("Simulator", "Simulator_MC.cfg", workers=8)
    if THOROUGH:
        ck.design("Simulator", "Simulator_MCT.cfg", workers=8)
    beh, s = tlc_behaviours("Simulator_Gen", "Simulator_Gen.cfg")
    ck.models.append({"model": "Simulator_Gen", **s})
    lng, s = tlc_behaviours("Simulator_Gen", "Simulator_GenL.cfg",
                            extra=("-simulate", f"num={900 if THOROUGH else 70}", "-depth", "8", "-seed", str(SEED)))
    ck.models.append({"model": "Simulator_Gen -simulate", **s})
    hist = beh[SEED % 7::1 if THOROUGH else 7] + lng[:600 if THOROUGH else 60]
    UNIT = 1e-5
    tok = {}
    token = lambda v: tok.setdefault(np.ascontiguousarray(np.asarray(v, float)).tobytes(), len(tok) + 1)

    def floor0(v):
        v = np.array(v, dtype=float)
        v[v <= 0] = 1e-12
        return v

    def loss(V, U, WH, robust):
        r = np.abs((V - WH) / U)
        if not robust:
            return float((r ** 2).sum())
        return float(np.where(r > 4.0, 4.0 * (2 * r - 4.0), r ** 2).sum()), float((r ** 2 / np.where(r > 4, r / 4.0, 1.0)).sum())

    def figures(fn):
        figs, real = [], pbd.BaseFigure.show
        pbd.BaseFigure.show = lambda self, *a, **k: figs.append(self)
        try:
            fn()
        finally:
            pbd.BaseFigure.show = real
        return figs

    for hi, h in enumerate(hist):
        rng = np.random.default_rng([SEED, 21, hi])
        f, n = int(rng.choice([1, 2, 3, 3, 4])), int(rng.integers(1, 7))
        m = int(rng.choice([1, 2, 3, 5, 9, 40, 100, 120, 150])) if hi % 3 else int(rng.choice([100, 120, 150]))
        nlo = float(rng.choice([0.0, 0.05, 0.1, 0.15]))
        nhi = nlo + float(rng.choice([0.0, 0.02, 0.05]))
        ns = float(rng.choice([0.0, 0.005, 0.01, 0.02]))
        ulo = float(rng.choice([0.05, 0.1, 0.3]))
        uhi = ulo + float(rng.choice([0.0, 0.02, 0.1]))
        us = float(rng.choice([0.0, 0.005, 0.01]))
        if hi % 9 == 8:
            ns, nhi, us = 1.0, nlo + 0.5, 0.2      # noise above the signal, uncertainties below zero
        if hi % 9 == 4:
            ulo, us = 0.0, float(rng.choice([0.0, 0.0, 0.01]))      # no uncertainty, or half of it below zero
            uhi = ulo + float(rng.choice([0.0, 0.0, 0.1]))
        p, mag = int(rng.choice([0, 10, 20, 50, 80])), float(rng.choice([2.0, 2.0, 3.0, 5.0, 1.5, 10.0]))
        kw = dict(seed=int(rng.integers(0, 10 ** 6)), factors_n=f, features_n=n, samples_n=m, outliers=bool(rng.random() < 0.6),
                  outlier_p=p / 100, outlier_mag=mag, contribution_max=int(rng.choice([1, 5, 10, 25])), noise_mean_min=nlo,
                  noise_mean_max=nhi, noise_scale=ns, uncertainty_mean_min=ulo, uncertainty_mean_max=uhi, uncertainty_scale=us,
                  verbose=bool(rng.random() < 0.5))
        u5 = lambda x: fx(x, UNIT)
        perms = [[int(x) + 1 for x in rng.permutation(f)] for _ in range(3)]
        cfg = {"f": f, "n": n, "m": m, "outliers": kw["outliers"], "p": p, "mag": int(mag * 10), "cmax": u5(kw["contribution_max"]),
               "nlo": u5(nlo), "nhi": u5(nhi), "ns": u5(ns), "ulo": u5(ulo), "uhi": u5(uhi), "us": u5(us), "perms": perms}
        plan = []
        for o in h:
            o = dict(o)
            if o["op"] == "update":
                o["factor"] = (o["factor"] - 1) % f + 1
                lo = float(rng.choice([0.0, 0.1, 0.5, 1.0, 2.0]))
                hi_ = lo + float(rng.choice([0.5, 1.0, 5.0]))
                if rng.random() < 0.15:
                    lo, hi_ = hi_, lo
                if rng.random() < 0.1:
                    lo = hi_ = max(hi_, 0.5)
                o["kw"] = dict(scale=float(rng.choice([0.0, 0.0, 0.01, 0.05, 0.1, 0.3])), maximum=hi_, minimum=lo,
                               frequency=float(rng.choice([0.05, 0.1, 0.25, 0.5, 0.75, 1.0, 2.0])))
            elif o["op"] == "profiles":
                k = min(o["factor"], f)
                o["kind"] = "random" if o["kind"] == "random" else ("given" if k == f else "partial")
                if o["kind"] != "random":
                    g = rng.random((k, n)) * (rng.random((k, n)) < 0.8)
                    g = g if rng.random() < 0.6 else rng.integers(0, 5, (k, n))
                    if k == f:                                  # every feature needs a source
                        g[int(rng.integers(k)), :] = g[int(rng.integers(k)), :] + 1
                    o["given"] = g
            plan.append(o)

        def replay(ev, kw, plan):
            """Runs the plan; returns everything drawn, for comparison with another run."""
            drawn = []
            sim = Simulator(**kw)

            def state():
                W, H = sim.syn_contributions, sim.syn_profiles
                return {"prof": [token(r) for r in H], "con": [token(r) for r in W.T], "positive": bool((W > -1e-300).all() and (H > 0).all()),
                        "shapes": W.shape == (m, f) and H.shape == (f, n), "empty": [bool((x <= 1e-9).all()) for x in H],
                        "owners": [int((H[:, j] > 1e-9).sum()) for j in range(n)]}

            def made():
                if sim.syn_data_df is None:
                    return {"gprof": [], "gcon": []}
                a = {"gprof": [token(r) for r in sim.syn_profiles_df.to_numpy().T], "gcon": [token(r) for r in sim.syn_contributions_df.to_numpy().T]}
                return a

            def note():
                drawn.append([None if x is None else np.array(x, copy=True)
                              for x in (sim.syn_profiles, sim.syn_contributions, sim.syn_data, sim.syn_uncertainty)])
            ev.append({"ev": "New", **state(), "w": fxm(sim.syn_contributions.ravel(), UNIT), "h": fxm(sim.syn_profiles.ravel(), UNIT)})
            note()
            for o in plan:
                callers, given = True, []
                if o["op"] == "update":
                    sim.update_contribution(o["factor"] - 1, o["kind"], **o["kw"])
                elif o["op"] == "profiles":
                    if o["kind"] == "random":
                        sim.generate_profiles()
                    else:
                        g = o["given"].copy()
                        sim.generate_profiles(g)
                        given = [token(floor0(r)) for r in o["given"]]
                        callers = bool(np.array_equal(g, o["given"]) and g.dtype == o["given"].dtype)
                        g[:] = 77                               # the caller goes on using the matrix
                else:
                    got = sim.get_data()
                    callers = got[0] is sim.syn_data_df and got[1] is sim.syn_uncertainty_df
                ev.append({"ev": "Op", "op": o["op"], "factor": o["factor"], "kind": o["kind"], **state(), **made(), "given": given, "callers": callers})
                note()
                if o["op"] == "update":
                    k, y = o["kw"], sim.syn_contributions[:, o["factor"] - 1]
                    lo, top = min(k["minimum"], k["maximum"]), max(k["minimum"], k["maximum"])
                    top = top if top > lo else (2 * top or 1.0)
                    z = (y - lo) / (top - lo)
                    up = np.sign(np.diff(y))
                    up = up[np.abs(np.diff(y)) > 1e-9]
                    ev.append({"ev": "Curve", "kind": o["kind"], "y": fxm(z, UNIT), "s": u5(k["scale"] / (top - lo)),
                               "floored": bool((y <= 1e-12).any() or lo < 6 * k["scale"]), "full": k["frequency"] <= 1 and k["frequency"] >= 0.25,
                               "runs": 0 if not len(up) else 1 + int((up[1:] != up[:-1]).sum())})
                if o["op"] == "profiles" or sim.syn_data is None:
                    continue
                W, H, D, U = sim.syn_contributions, sim.syn_profiles, sim.syn_data, sim.syn_uncertainty
                WH = W @ H
                r, u = np.where(D == 1e-12, 0.0, D / WH), U / D      # 0: noise below minus one, floored
                for j in range(n):
                    ev.append({"ev": "Data", "r": fxm(r[:, j], UNIT), "u": fxm(np.where(U[:, j] == 1e-4, kw["uncertainty_mean_min"], u[:, j]), UNIT),
                               "floor": [bool(x) for x in U[:, j] == 1e-4]})
                width = nhi + 8 * ns
                norm = np.abs(r - 1) <= width + 1e-4
                ev.append({"ev": "Share", "cells": int(r.size), "up": int(((r > 1) & ~norm).sum()), "down": int(((r < 1) & ~norm).sum()),
                           "below": int(((r < 1) & norm).sum())})
                a, b, sa = sim.syn_data_df, sim.syn_uncertainty_df, sim.syn_sa
                t = a.index
                V32, U32 = D.astype(np.float32), U.astype(np.float32)
                R = loss(np.asarray(sa.V, float), np.asarray(sa.U, float), WH, True)
                rel = lambda x, y: fx((float(x) - y) / (abs(y) + 1e-12), 1e-5)
                ev.append({"ev": "Model", "frames": bool(np.array_equal(a.to_numpy(), D) and np.array_equal(b.to_numpy(), U) and (D > 0).all() and (U > 0).all()
                                                         and np.array_equal(sim.syn_profiles_df.to_numpy(), H.T) and np.array_equal(sim.syn_contributions_df.to_numpy(), W)),
                           "index": bool(len(t) == m and t.equals(b.index) and t.is_monotonic_increasing and t.name == "Date"
                                         and (np.diff(t.to_numpy()) == np.timedelta64(60, "s")).all()),
                           "columns": list(a.columns) == [f"Feature {i}" for i in range(1, n + 1)] == list(b.columns)
                                      and list(sim.syn_profiles_df.columns) == [f"Factor {i}" for i in range(1, f + 1)] == list(sim.syn_contributions_df.columns),
                           "inputs": bool(np.allclose(sa.V, V32, rtol=1e-6, atol=2e-12) and np.allclose(sa.U, U32, rtol=1e-6, atol=2e-12)
                                          and np.array_equal(sa.H, H) and np.array_equal(sa.W, W) and sa.factors == f and sa.seed == kw["seed"]),
                           "wh": fx(np.abs(np.asarray(sa.WH) / WH - 1).max(), 1e-6), "qtrue": rel(sa.Qtrue, loss(np.asarray(sa.V, float), np.asarray(sa.U, float), WH, False)),
                           "qrobust": rel(sa.Qrobust, R[0]) if abs(rel(sa.Qrobust, R[0])) <= 20 else rel(sa.Qrobust, R[1])})
            return sim, drawn

        def one(ev):
            state = np.random.get_state()[1][:3].tolist()
            sim, d1 = replay(ev, kw, plan)
            np.random.seed(hi)
            _, d2 = replay([], kw, plan)
            other = Simulator(**{**kw, "seed": kw["seed"] + 1})
            same = all((x is None) == (y is None) and (x is None or np.array_equal(x, y)) for a, b in zip(d1, d2) for x, y in zip(a, b))
            ev.append({"ev": "Again", "same": bool(same), "other": not np.array_equal(other.syn_contributions, d1[0][1])})
            if m < 40 or n < 3:
                return
            # a batch of models that are the (permuted, noisy) true sources
            sim.generate_profiles(rng.random((f, n)) + 0.05)
            for i in range(f):
                sim.update_contribution(i, "uniform", minimum=0.2, maximum=3.0)
            sim.get_data()
            exact = int(rng.integers(3))
            models = []
            for i, pm in enumerate(perms):
                idx = [x - 1 for x in pm]
                noise = 0.0 if i == exact else 0.02
                Hm = sim.syn_profiles[idx] * (1 + noise * rng.standard_normal((f, n)))
                Wm = sim.syn_contributions[:, idx] * (1 + noise * rng.standard_normal((m, f)))
                models.append(SimpleNamespace(W=Wm, H=Hm, WH=Wm @ Hm, factors=f, Qtrue=float(i), Qrobust=float(i), features=n, samples=m,
                                              factor_names=[f"Factor {k}" for k in range(1, f + 1)]))
            bs = SimpleNamespace(results=models, best_model=int(rng.integers(3)), models=3, factors=f)
            def drawn_pairs(mi, model):
                """The pairs of a modelled and a synthetic factor that each of the two figures shows."""
                H0, W0 = sim.syn_profiles, sim.syn_contributions
                nH, nW = 100 * H0 / H0.sum(axis=0), 100 * W0 / W0.sum(axis=0)
                mH, mW = 100 * model.H / model.H.sum(axis=0), 100 * model.W / model.W.sum(axis=0)
                find = lambda y, rows: [i + 1 for i, x in enumerate(rows) if len(y) == len(x) and np.allclose(np.asarray(y, float), x, rtol=1e-9)]
                for fn, con in ((sim.plot_comparison, True), (sim.plot_profile_comparison, False)):
                    figs, pairs = figures(lambda: fn(mi) if mi is not None else fn()), []
                    for g in figs:
                        bars = [t for t in g.data if t.type == "bar"]
                        s_, q = find(bars[0].y, nH), find(bars[1].y, mH)
                        ok = len(s_) == len(q) == 1 and np.allclose(np.asarray(bars[-1].y, float), nH[s_[0] - 1] - mH[q[0] - 1])
                        if ok and con:
                            lines = [t for t in g.data if t.type == "scatter"]
                            ok = find(lines[0].y, nW.T) == s_ and find(lines[1].y, mW.T) == q \
                                and np.allclose(np.asarray(lines[2].y, float), nW[:, s_[0] - 1] - mW[:, q[0] - 1])
                        pairs.append([q[0], s_[0]] if ok else [0, 0])
                    yield sorted(pairs)

            sim.compare(bs, selected_model=None)
            for mi in (None, 0, 1, 2):
                k = exact if mi is None else mi
                if mi is not None:
                    sim.compare(bs, selected_model=mi)
                fc = sim.factor_compare
                fm = [int(x.split(" ")[1]) for x in fc.model_results[k]["factor_map"]]
                fm = fm if fc.base_k else [fm.index(j) + 1 for j in range(1, f + 1)]
                for pairs in drawn_pairs(mi, models[k]):
                    ev.append({"ev": "Compare", "model": k + 1, "best": int(fc.best_model), "exact": exact, "map": fm, "pairs": pairs})
            # a batch with a factor less or more than there are sources
            for k2 in (f - 1, f + 1):
                if k2 < 2 or k2 > n:
                    continue
                src = [int(x) for x in rng.permutation(max(f, k2))[:k2]]
                extra_H, extra_W = rng.random(n) + 0.05, rng.uniform(0.2, 3.0, m)
                Hm = np.array([sim.syn_profiles[x] if x < f else extra_H for x in src])
                Wm = np.array([sim.syn_contributions[:, x] if x < f else extra_W for x in src]).T
                odd = SimpleNamespace(W=Wm, H=Hm, WH=Wm @ Hm, factors=k2, Qtrue=1.0, Qrobust=1.0, features=n, samples=m,
                                      factor_names=[f"Factor {k}" for k in range(1, k2 + 1)])
                batch = SimpleNamespace(results=[odd], best_model=0, models=1, factors=k2)
                sim.compare(batch)
                if hi % 2:
                    sim.compare(batch, selected_model=0)
                for pairs in drawn_pairs(0, odd):
                    ev.append({"ev": "Odd", "source": [x + 1 if x < f else 0 for x in src], "pairs": pairs})
        ck.rec.case(f"sim-{hi}", cfg, one)

    # everything that needs a comparison first is refused quietly, and the sources can be plotted at any time
    for i in range(3):
        def early(ev):
            sim = Simulator(seed=i, factors_n=1 + i, features_n=3, samples_n=4)
            sim.compare(None, selected_model=i - 1)
            figs = figures(lambda: (sim.plot_comparison(), sim.plot_profile_comparison(0), sim.plot_synthetic_contributions()))
            y = [np.asarray(t.y, float) for g in figs for t in g.data]
            ok = len(figs) == 1 and len(y) == 1 + i and all(np.array_equal(a, b) for a, b in zip(y, sim.syn_contributions.T))
            ev.append({"ev": "Again", "same": bool(ok), "other": True})
        ck.rec.case(f"early-{i}", {"f": 1 + i, "n": 3, "m": 4}, early)

    def negatives():
        neg = []

        def bad(c, fn):
            c2 = copy.deepcopy(c)
            if fn(c2) is not False:
                neg.append(c2)
        for c in ck.rec.cases[:-3:6]:
            last = lambda c2, t: [e for e in c2["ev"] if e["ev"] == t][-1:]

            def stale(c2):
                for e in c2["ev"]:
                    if e["ev"] == "Op" and e["op"] == "data":
                        e["gcon"][0] = 0
                        return
                return False

            def others(c2):
                for e in c2["ev"]:
                    if e["ev"] == "Op" and e["op"] == "update" and cfg_f(c2) > 1:
                        e["con"][e["factor"] % cfg_f(c2)] = 0
                        return
                return False
            cfg_f = lambda c2: c2["cfg"]["f"]

            def ratio(c2):
                for e in last(c2, "Data"):
                    e["r"][0] = 15 * 10 ** 6
                    return
                return False
            for fn in (stale, others, ratio):
                bad(c, fn)
        return neg
    ck.trace("Simulator_Trace", negatives=negatives, workers=8)
    return ck.finish()
