"""P27: the block size recommended for the bootstrap. Datasets of several kinds (uncorrelated, persistent,
periodic, constant, short) are loaded; the recommended size is judged by spec/Blocks_Trace.tla."""
import copy

from harness.common import *


def run():
    setup_imports()
    import warnings
    import numpy as np
    import pandas as pd
    from esat.data.datahandler import DataHandler
    from esat.error.bootstrap import Bootstrap
    from esat.model.recombinator import optimal_block_length
    from esat.model.sa import SA
    ck = Check("P27", "model_checking",
               ["autocorrelations, autocovariances and the critical value 2 sqrt(log10(n)/n) are computed by the driver (numpy) and rounded; "
                "features with an autocorrelation within 4e-6 of it, or a long-run variance below a fifth, are not judged beyond the bounds"])
    ck.design("Blocks", "Blocks_MCT.cfg" if THOROUGH else "Blocks_MC.cfg", workers=8)

    def series(rng, n, kind):
        e = rng.standard_normal(n)
        if kind == "noise":
            x = e
        elif kind == "ar":
            phi = float(rng.choice([0.3, 0.5, 0.8, 0.95, -0.4, -0.8]))
            x = np.zeros(n)
            for t in range(1, n):
                x[t] = phi * x[t - 1] + e[t]
        elif kind == "walk":
            x = np.cumsum(e)
        elif kind == "wave":
            x = np.sin(np.arange(n) / float(rng.choice([1.0, 3.0, 8.0]))) * 3 + e * float(rng.choice([0.05, 0.5, 2.0]))
        elif kind == "trend":
            x = np.arange(n) * 0.1 + e
        elif kind == "steps":
            x = np.repeat(rng.integers(0, 9, n // 4 + 1), 4)[:n].astype(float) + 0.01 * e
        elif kind == "constant":
            x = np.zeros(n)
        x = x - x.min() + 0.25
        return np.round(x, 3)

    def length(x, n):
        """What the selection of a block length is based on."""
        mm = int(np.ceil(np.sqrt(n))) + 5
        crit = 2 * np.sqrt(np.log10(n) / n)
        none = n - mm < 2
        rho, acv = [0.0] * mm, []
        if not none:
            def cov(a, b):
                return float(((a - a.mean()) * (b - b.mean())).sum() / (len(a) - 1))
            for q in range(1, mm + 1):
                a, b = x[mm:], x[mm - q:n - q]
                v = cov(a, a) * cov(b, b)
                if v <= 1e-18:
                    none = True
                else:
                    rho[q - 1] = cov(a, b) / np.sqrt(v)
            for m in range(1, mm + 1):
                base = cov(x[m:], x[m:])
                acv.append([fx(cov(x[m:], x[m - k:n - k]) / base, 1e-5) if base > 1e-18 else 0 for k in range(m + 1)])
        return {"ev": "Length", "rho": fxm(np.array(rho), 1e-6), "crit": fx(crit, 1e-6), "acv": acv, "none": bool(none), "wild": any(abs(v) > 150000 for a in acv for v in a), "cb": -1, "sb": -1}

    kinds = ["noise", "ar", "walk", "wave", "trend", "steps"]
    for i in range(600 if THOROUGH else 260):
        rng = np.random.default_rng([SEED, 27, i])
        n = int(rng.choice([20, 30, 45, 64, 81, 100, 120, 150])) if i % 5 else int(rng.choice([3, 4, 6, 8, 9, 12, 15]))
        k = int(rng.integers(1, 5))
        if i % 7 == 2:                      # few lags: the largest significant one counts
            n, k = int(rng.choice([13, 14, 15, 16])), 1
        if i % 3 == 0:
            k = 1
        names = [str(rng.choice(kinds)) for _ in range(k)]
        if i % 11 == 3:
            names[int(rng.integers(k))] = "constant"
        if i % 13 == 5:
            names = ["noise"] * k
        X = np.stack([series(rng, n, q) for q in names], axis=1)
        if i % 7 == 2:                      # one where the lags after it would all fit into the window
            for _ in range(300):
                x = series(rng, n, str(rng.choice(kinds)))
                e = length(x, n)
                loud = [abs(v) >= e["crit"] for v in e["rho"]]
                if not e["none"] and not e["wild"] and len(loud) == 9 and loud[4] and not any(loud[5:]):
                    X[:, 0] = x
                    break
        U = 0.1 * X + 0.05

        def case(ev):
            warnings.simplefilter("ignore")
            cols = [f"el{j}" for j in range(k)]
            when = pd.date_range("2020-01-01", periods=n, freq="h", name="Date")
            frame = lambda a: pd.DataFrame(a, columns=cols, index=when)
            for j in range(k):
                e = length(X[:, j], n)
                if not e["none"]:
                    got = optimal_block_length(X[:, j])[0]
                    e["cb"], e["sb"] = fx(got.b_star_cb, 1e-2), fx(got.b_star_sb, 1e-2)
                ev.append(e)
            if k > 1 and not any(e["none"] for e in ev):
                got = optimal_block_length(X)
                ev.append({"ev": "Same", "what": "features-one-by-one",
                           "ok": [fx(g.b_star_cb, 1e-2) for g in got] == [e["cb"] for e in ev if e["ev"] == "Length"]})
            everything = list(range(1, k + 1))
            dh = DataHandler.load_dataframe(frame(X), frame(U))
            ev.append({"ev": "Block", "block": int(dh.optimal_block), "feats": everything})
            ev.append({"ev": "Same", "what": "whole-number", "ok": float(dh.optimal_block) == int(dh.optimal_block)})
            first = dh.optimal_block
            dh.get_data()
            ev.append({"ev": "Block", "block": int(dh.optimal_block), "feats": everything})
            # the size follows the features in use, also when they come back
            for rep in range(min(3, k - 1)):
                gone = set(int(x) for x in rng.choice(k, int(rng.integers(1, k)), replace=False))
                for j in range(k):
                    dh.set_category(cols[j], "bad" if j in gone else str(rng.choice(["strong", "weak"])))
                dh.get_data()
                ev.append({"ev": "Block", "block": int(dh.optimal_block), "feats": [j + 1 for j in range(k) if j not in gone]})
            for j in range(k):
                dh.set_category(cols[j], "strong")
            dh.get_data()
            ev.append({"ev": "Block", "block": int(dh.optimal_block), "feats": everything})
            # units and uncertainties do not matter
            other = DataHandler.load_dataframe(frame(X * 1024), frame(rng.random((n, k)) + 0.1))
            ev.append({"ev": "Same", "what": "unit-of-the-data", "ok": other.optimal_block == first})
            if i % 4 == 0:
                d = tempfile.mkdtemp(dir=scratch())
                frame(X).to_csv(os.path.join(d, "v.csv"))
                frame(U).to_csv(os.path.join(d, "u.csv"))
                fh = DataHandler(os.path.join(d, "v.csv"), os.path.join(d, "u.csv"), index_col="Date")
                ev.append({"ev": "Block", "block": int(fh.optimal_block), "feats": everything})
                shutil.rmtree(d)
            if i % 6 == 0 and k > 1 and n <= 81:
                V, W = dh.get_data()
                sa = SA(V=V, U=W, factors=1, seed=2)
                sa.initialize()
                sa.train(max_iter=3)
                bs = Bootstrap(sa=sa, feature_labels=cols, model_selected=1, bootstrap_n=2, block_size=dh.optimal_block, seed=1, parallel=False)
                bs.run()
                ev.append({"ev": "Same", "what": "usable-block", "ok": all(len(r["index"]) == n for r in bs.bs_results.values())})
        ck.rec.case(f"block-{i}", {"n": n}, case)

    def negatives():
        neg = []
        for q, c in enumerate(ck.rec.cases):
            c2 = copy.deepcopy(c)
            L = [e for e in c2["ev"] if e["ev"] == "Length"]
            B = [e for e in c2["ev"] if e["ev"] == "Block"]
            if q % 4 == 0:
                B[0]["block"] = 0
            elif q % 4 == 1 and any(e["none"] for e in L):
                B[0]["block"] += 1
            elif q % 4 == 2:
                L[0]["rho"] = L[0]["rho"][1:]
            elif q % 4 == 3:
                B[-1]["block"] = c2["cfg"]["n"] + 1
            else:
                continue
            neg.append(c2)
        return neg
    ck.trace("Blocks_Trace", negatives=negatives, workers=8)
    return ck.finish()
