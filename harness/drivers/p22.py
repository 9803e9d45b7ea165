"""P22: uncertainty perturbation. Runs of the real analysis under imposed completion orders; multipliers,
models, mappings, tables and figures are judged by spec/Perturb_Trace.tla."""
import contextlib
import copy
import io

from harness.common import *


def run():
    setup_imports()
    import numpy as np
    import plotly.basedatatypes as pbd
    from esat.model.sa import SA
    from esat_eval.perturbation import Perturbation
    from harness import fakepool
    ck = Check("P22", "model_checking",
               ["workers run in this process on pickled copies and finish in an imposed order; one case uses real processes",
                "draws are numpy's: bounds on single draws are eight standard deviations, on means and shares six"])
    ck.design("Perturb_MC", "Perturb_MC.cfg", workers=8)
    if THOROUGH:
        ck.design("Perturb_MC", "Perturb_MCT.cfg", workers=8)

    def r2(x, y):
        x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
        x, y = x - x.mean(), y - y.mean()
        return float((x @ y) ** 2 / ((x @ x) * (y @ y)))

    def features(ev, U, Ui, Mi, cfg):
        for j in range(U.shape[1]):
            want = U[:, j] * Mi[:, j]
            ev.append({"ev": "Feature", "j": j + 1, "log": fxm(np.log(Mi[:, j]), 1e-4), "sel": [bool(x) for x in Mi[:, j] != 1.0],
                       "uerr": fx(np.max(np.abs(Ui[:, j] - want) / np.maximum(want, 1e-12)), 1e-6)})

    def eq(a, b):
        return bool(np.array_equal(np.asarray(a), np.asarray(b)))

    def figures(fn):
        figs, real = [], pbd.BaseFigure.show
        pbd.BaseFigure.show = lambda self, *a, **k: figs.append(self)
        try:
            got = fn()
        finally:
            pbd.BaseFigure.show = real
        return figs + ([got] if got is not None else [])

    def case(ci, real=False):
        rng = np.random.default_rng([SEED, 22, ci])
        f = [2, 3, 1, 2, 4][ci % 5]
        n, m = int(rng.integers(max(3, f), 6)), int(rng.choice([6, 20, 80, 120]))
        if f >= 3:
            n, m = max(n, 5), max(m, 20)
        k = int(rng.integers(1, 5))
        many = ci % 12 == 6                 # as many models as a user asks for: none repeats another's draws
        if many:
            f, n, m, k = 2, 4, 20, int(rng.integers(22, 30))
        W, H = rng.gamma(1.0, 2.0, (m, f)) + 0.05, rng.random((f, n)) * (rng.random((f, n)) < 0.8) + 0.02
        V = (W @ H) * (1 + 0.05 * rng.standard_normal((m, n)))
        V = np.abs(V) + 1e-3
        integer = ci % 7 == 5
        U = rng.integers(1, 9, (m, n)) if integer else 0.1 * V + 0.05
        style = ci % 6
        p, s = float(rng.choice([1.0, 1.0, 0.5, 0.2, 0.8])), float(rng.choice([0.05, 0.1, 0.33, 0.5]))
        if style == 1:
            pp, ss = [float(x) for x in rng.choice([0.0, 0.3, 0.6, 1.0], n)], [float(x) for x in rng.choice([0.0, 0.1, 0.4], n)]
        elif many:
            pp, ss = 1.0, s
        elif style == 2:
            pp, ss = [p], [s]
        elif style == 3:
            pp, ss = int(rng.choice([0, 1, 1])), s
        elif style == 4:
            pp, ss = p, int(rng.choice([0, 1, 1]))
        else:
            pp, ss = p, s
        each = lambda x: ([float(v) for v in x] if isinstance(x, list) and len(x) == n else [float(x[0] if isinstance(x, list) else x)] * n)
        ps, sg = each(pp), each(ss)
        method = "ws-nmf" if ci % 4 == 3 else "ls-nmf"
        opts = dict(max_iterations=int(rng.choice([1, 10] if many else [1, 10, 40])), converge_n=int(rng.choice([3, 10])), converge_delta=float(rng.choice([0.5, 0.01])))
        given = ci % 3 != 2
        seed = int(rng.integers(0, 1000))
        cfg = {"f": f, "n": n, "m": m, "k": k, "p": [int(round(1000 * x)) for x in ps], "sigma": [int(round(1000 * x)) for x in sg],
               "varied": m >= 20 and any(a > 0.1 and b > 0 for a, b in zip(ps, sg))}
        orders = [rng.permutation(k).tolist() for _ in range(3)]

        def one(ev):
            base = None
            V0, U0 = V.copy(), U.copy()
            if given:
                base = SA(V=V, U=U, factors=f, seed=seed + 5, method=method, verbose=False)
                base.initialize()
                base.train(max_iter=30)
            b0 = None if base is None else (base.W.copy(), base.H.copy(), np.array(base.V), np.array(base.U), base.Qtrue)

            def make(order, sd=seed):
                np.random.seed(ci + len(ev))
                fakepool.set_schedule(lambda q: order if q == len(order) else list(range(q)))
                pt = Perturbation(V=V, U=U, factors=f, base_model=base, method=("ls-nmf" if given else method), random_seed=sd, perturb_percent=copy.copy(pp),
                                  sigma=copy.copy(ss), models=k, **opts)
                for name in ("plot_norm_perturb_contributions", "plot_average_source_contributions", "plot_correlation_metrics"):
                    assert getattr(pt, name)() is None
                with contextlib.redirect_stdout(io.StringIO()), single_core(ci % 4 == 1):
                    pt.run()
                return pt
            try:
                if real:
                    fakepool.real()
                pt = make(orders[0])
            finally:
                fakepool.install()
            # the perturbation itself
            a, b, c_ = pt.perturb(seed), pt.perturb(seed), pt.perturb(seed + 1)
            features(ev, U0, a[0], a[1], cfg)
            ev.append({"ev": "Same", "what": "reproducible", "flags": [eq(a[0], b[0]), eq(a[1], b[1]), not cfg["varied"] or not eq(a[1], c_[1])]})
            # the runs
            bm = pt.base_model
            if base is None:
                own = SA(V=V, U=U, factors=f, seed=seed, method=method, verbose=False)
                own.initialize()
                own.train(max_iter=opts["max_iterations"], converge_delta=opts["converge_delta"], converge_n=opts["converge_n"])
                ev.append({"ev": "Same", "what": "base-model", "flags": [eq(own.W, bm.W), eq(own.H, bm.H), bm.method == method]})
            run_ = {"aligned": [], "data": [], "trained": [], "ids": []}
            tok = {}
            for mod, mu in zip(pt.perturbed_models, pt.perturbed_multipliers):
                Ui = U0 * mu
                run_["aligned"].append(bool(np.allclose(mod.U, np.maximum(Ui, 1e-12).astype(np.float32), rtol=1e-6, atol=0)))
                run_["data"].append(eq(mod.V, V.astype(np.float32)) and mod.factors == f and mod.method == method)
                own = SA(V=V, U=np.maximum(Ui, 1e-12), factors=f, seed=1, method=method, verbose=False)
                own.initialize(H=bm.H.copy(), W=bm.W.copy())
                own.train(max_iter=opts["max_iterations"], converge_delta=opts["converge_delta"], converge_n=opts["converge_n"])
                tol = 1e-5 if method == "ls-nmf" else 1e-3      # ws-nmf solves systems whose rounding depends on the memory layout
                near = lambda x, y: bool(np.allclose(x, y, rtol=tol, atol=tol * np.abs(y).max()))
                run_["trained"].append(near(own.W, mod.W) and near(own.H, mod.H) and own.converge_steps == mod.converge_steps)
                run_["ids"].append(tok.setdefault(mu.tobytes(), len(tok)))
                features(ev, U0, np.asarray(mod.U, float), mu, cfg)
            ev.append({"ev": "Run", "count": len(pt.perturbed_models), "mcount": len(pt.perturbed_multipliers), **run_})
            for o in orders[1:]:
                q = make(o)
                ev.append({"ev": "Same", "what": "reproducible", "flags": [len(q.perturbed_models) == k] + [eq(x, y) for x, y in zip(q.perturbed_multipliers, pt.perturbed_multipliers)]
                          + [eq(x.W, y.W) and eq(x.H, y.H) and x.Qtrue == y.Qtrue for x, y in zip(q.perturbed_models, pt.perturbed_models)]})
            if cfg["varied"]:
                q = make(orders[0], seed + 1)
                ev.append({"ev": "Same", "what": "seed-used", "flags": [not eq(q.perturbed_multipliers[0], pt.perturbed_multipliers[0])]})
            keep = lambda: ev.append({"ev": "Same", "what": "base-unchanged", "flags": [eq(V, V0), eq(U, U0)] + (
                [] if b0 is None else [eq(base.W, b0[0]), eq(base.H, b0[1]), eq(base.V, b0[2]), eq(base.U, b0[3]), base.Qtrue == b0[4], pt.base_model is base])})
            keep()
            # the comparison: the models' factors are shuffled first, so that the mapping matters
            for i, mod in enumerate(pt.perturbed_models):
                pm = rng.permutation(f)
                mod.W, mod.H = np.array(mod.W)[:, pm], np.array(mod.H)[pm]
            m0 = [(x.W.copy(), x.H.copy()) for x in pt.perturbed_models]
            norm_h = lambda Hm: np.asarray(Hm, float) / np.asarray(Hm, float).sum(axis=0)
            norm_w = lambda Wm: np.asarray(Wm, float) / np.asarray(Wm, float).sum(axis=1, keepdims=True)
            bW, bH = norm_w(bm.W), norm_h(bm.H)
            for cm in (("raae", "corr", "emc") if ci % 2 else (None, "EMC", "bogus")):
                name = {"EMC": "emc", "bogus": "emc", None: "raae"}.get(cm, cm)
                pt.compare(cm)
                for i, mod in enumerate(pt.perturbed_models):
                    mp_ = [int(x) for x in pt.perturb_mapping[i]]

                    def agr(x, y):
                        if name == "raae":
                            return float(np.abs(mod.W[:, y] - bm.W[:, x]).sum() / bm.W[:, x].sum())
                        return r2(bm.W[:, x], mod.W[:, y]) if name == "corr" else r2(bm.H[x], mod.H[y])

                    def which(got, rows, want):
                        got = np.asarray(got, float)
                        hit = [j for j, r in enumerate(rows) if r.shape == got.shape and np.allclose(r, got, rtol=1e-5, atol=1e-9)]
                        return (want if want in hit else (hit[0] if hit else -1)) + 1
                    ev.append({"ev": "Compare", "lower": name == "raae", "map": [x + 1 for x in mp_],
                               "agr": [[fx(agr(x, y), 1e-4) for y in range(f)] for x in range(f)], "values": fxm(np.asarray(pt.perturb_correlations[i], float), 1e-4),
                               "h": [which(pt.perturb_H[x, :, i], norm_h(mod.H), mp_[x]) for x in range(f)],
                               "w": [which(pt.perturb_W[x, :, i], norm_w(mod.W).T, mp_[x]) for x in range(f)]})
                flags = [pt.perturb_H.shape == (f, n, k), pt.perturb_W.shape == (f, m, k)]
                # the table of one factor, and of the multipliers
                df = pt.perturbed_H_df
                pH, pW = np.asarray(pt.perturb_H, float), np.asarray(pt.perturb_W, float)
                fi = [j for j in range(f) if np.allclose(df["Base"].to_numpy(float), bH[j], atol=1e-6)]
                flags.append(any(np.allclose(df[c].to_numpy(float), g(pH[j], axis=1), atol=1e-6) for j in fi for c, g in (("Mean Perturb", np.mean),))
                             and any(all(np.allclose(df[c].to_numpy(float), g(pH[j], axis=1), atol=1e-6) for c, g in
                                         (("Mean Perturb", np.mean), ("STD Perturb", np.std), ("Min Perturb", np.min), ("Max Perturb", np.max))) for j in fi))
                q = np.mean([np.percentile(x, [1, 25, 50, 75, 99]) for x in pt.perturbed_multipliers], axis=0)
                flags.append(bool(np.allclose(np.asarray(pt.multiplier_stats.iloc[:5], float), q, rtol=1e-9)))
                ev.append({"ev": "Same", "what": "tables", "flags": [bool(x) for x in flags]})
                # the figures
                fg = []
                close = lambda x, y, mag: bool(np.allclose(np.asarray(x, float), y, rtol=1e-5, atol=1e-5 * np.abs(mag).max()))
                ret = bool(rng.random() < 0.5)
                g = figures(lambda: pt.plot_norm_perturb_contributions(return_figure=ret))
                fg.append(len(g) == 1 and close(g[0].data[0].y, 100 * pW.mean(axis=(1, 2)), 100 * pW)
                          and close(g[0].data[1].y, 100 * bW.mean(axis=0), 100 * bW))
                g = figures(lambda: pt.plot_average_source_contributions(return_figure=ret))
                fg.append(len(g) == 1 and len(g[0].data) == f + 1 and all(close(g[0].data[j].y, pW[j].mean(axis=0), pW[j])
                                                                          and g[0].data[j].name == f"Factor {j + 1}" for j in range(f))
                          and close(g[0].data[f].y, bW.mean(axis=0), bW))
                g = figures(lambda: pt.plot_correlation_metrics(return_figure=ret))
                fg.append(len(g) == 1 and len(g[0].data) == f and all(np.allclose(np.asarray(g[0].data[j].y, float), [pt.perturb_correlations[i][j] for i in range(k)])
                                                                      for j in range(f)))
                for j in range(f):
                    g = figures(lambda: pt.plot_perturbed_factor(j, return_figure=ret))
                    fg.append(len(g) == 1 and len(g[0].data) == n + 1 and all(np.allclose(np.asarray(g[0].data[x].y, float), pH[j, x], rtol=1e-5) for x in range(n))
                              and np.allclose(np.asarray(g[0].data[n].y, float), bH[j], rtol=1e-5))
                fg.append(figures(lambda: pt.plot_perturbed_factor(f)) == [])
                ev.append({"ev": "Same", "what": "figures", "flags": [bool(x) for x in fg]})
            ev.append({"ev": "Same", "what": "models-unchanged", "flags": [eq(x.W, a) and eq(x.H, b) for x, (a, b) in zip(pt.perturbed_models, m0)]})
            keep()
        ck.rec.case(f"pert-{ci}" + ("-real" if real else ""), cfg, one)

    for ci in range(300 if THOROUGH else 36):
        case(ci)
    case(1, real=True)

    def negatives():
        neg = []
        for c in ck.rec.cases[::3]:
            def bad(fn):
                c2 = copy.deepcopy(c)
                if fn(c2) is not False:
                    neg.append(c2)
            evs = lambda c2, t: [e for e in c2["ev"] if e["ev"] == t]

            def mult(c2):
                for e in evs(c2, "Feature"):
                    e["log"][0] = 99999
                    return
                return False

            def mapped(c2):
                for e in evs(c2, "Compare"):
                    if c2["cfg"]["f"] > 1:
                        e["h"][0] = e["h"][1]
                        return
                return False

            def lost(c2):
                for e in evs(c2, "Run"):
                    e["trained"][-1] = False
            for fn in (mult, mapped, lost):
                bad(fn)
        return neg
    ck.trace("Perturb_Trace", negatives=negatives, workers=8)
    return ck.finish()
