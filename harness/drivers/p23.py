"""P23: imputation. Datasets with generated gaps are filled by the real imputer; every filled value is
judged by the rules of spec/Impute.tla (Impute_Trace.tla)."""
import copy

from harness.common import *


def run():
    setup_imports()
    import numpy as np
    import pandas as pd
    from esat.data.datahandler import DataHandler
    from esat.data.impute import DataImputer
    ck = Check("P23", "model_checking",
               ["the values of the iterative rule are compared with scikit-learn's own iterated regression under the same options",
                "nearest neighbours of rows without a common feature are not judged"])
    ck.design("Impute", "Impute_MCT.cfg" if THOROUGH else "Impute_MC.cfg", workers=8)
    MARK = 99


    def gaps(rng, M, share, first):
        G = rng.random(M.shape) < share
        if first:
            G[:, 0] = False
        for r in range(M.shape[0]):        # loading drops rows without any value
            if G[r].all():
                G[r, int(rng.integers(M.shape[1]))] = False
        for j in range(M.shape[1]):
            if G[:, j].all():
                G[int(rng.integers(M.shape[0])), j] = False
        return G

    def case(i, what):
        rng = np.random.default_rng([SEED, 23, i])
        m, n = int(rng.integers(3, 9)), int(rng.integers(2, 5))
        if what == "iterative":
            m, n = int(rng.integers(8, 15)), int(rng.integers(2, 5))
        V, U = rng.integers(1, int(rng.choice([4, 30])), (m, n)), rng.integers(1, int(rng.choice([3, 12])), (m, n))
        if what == "iterative":
            V = (rng.integers(1, 30, (m, 1)) * rng.integers(1, 4, (1, n)) + rng.integers(0, 5, (m, n)))
        style = i % 5                      # which matrices have gaps, and how they are marked
        first = what == "knn"
        gv, gu = gaps(rng, V, rng.choice([0.1, 0.3, 0.5]), first), gaps(rng, U, rng.choice([0.1, 0.3]), first)
        if style == 0:
            gu[:] = False
        elif style == 1:
            gv[:] = False
        elif style == 4 and i % 2:
            gv[:], gu[:] = False, False
        marker = [np.nan, MARK, float(MARK), None, MARK][style]
        named = style in (1, 2, 4)
        # a named marker is used for part of the gaps, the rest is NaN; without a name 99 is a value
        mv = np.where(gv, np.where(named & (rng.random(V.shape) < 0.6), MARK, -1), V)
        mu = np.where(gu, np.where(named & (rng.random(U.shape) < 0.6), MARK, -1), U)
        if not named:
            mv[int(rng.integers(m)), int(rng.integers(n))] = MARK
        ints = style == 4 and i % 2 == 0
        if ints:                           # integer frames: every gap is the marker
            mv, mu = np.where(gv, MARK, V), np.where(gu, MARK, U)
        cols = [f"el{j}" for j in range(n)]
        idx = pd.date_range("2021-03-01", periods=m, freq="D", name="Date") if i % 3 else pd.Index([f"s{j * 7 % 11}-{j}" for j in range(m)])

        def frame(M):
            F = pd.DataFrame(M if ints else np.where(M == -1, np.nan, M.astype(float)), columns=cols, index=idx)
            return F
        k = int(rng.integers(1, 6))
        weighted = bool(rng.random() < 0.4)
        args = None
        if what == "knn" and rng.random() < 0.8:
            args = {"n_neighbors": k, "weights": "distance" if weighted else "uniform"}
            if rng.random() < 0.2:
                args.pop("weights")
                weighted = False
        elif what == "iterative" and rng.random() < 0.7:
            args = {"max_iter": int(rng.integers(1, 8)), "tol": float(rng.choice([1e-4, 1e-2, 0.5]))}
        elif rng.random() < 0.3:
            args = {}
        if what == "knn" and not args:
            k, weighted = 5, False
        seed = int(rng.integers(0, 99))
        cfg = {"what": what}

        def one(ev):
            fv, fu = frame(mv), frame(mu)
            dh = DataHandler.load_dataframe(fv, fu)
            before = (dh.input_data.copy(), dh.uncertainty_data.copy())
            outs = []
            for rep in range(2):
                im = DataImputer(dh, random_seed=seed, **({} if marker is np.nan else {"missing_value": marker}))
                np.random.seed(rep)
                a0 = copy.copy(args)
                got = im.impute(strategy=what, **({} if args is None else {"args": a0}))
                outs.append((im, got))
            im, got = outs[0]
            A, B = got
            grid = lambda F: fxm(np.asarray(F, float), 1 / 840)
            labels = all(isinstance(F, pd.DataFrame) and list(F.columns) == cols and F.index.equals(idx) and F.index.name == idx.name for F in got)
            returned = im.imputed_data is A and im.imputed_uncertainty is B and im.strategy == what
            if what == "iterative":
                from sklearn.experimental import enable_iterative_imputer  # noqa
                from sklearn.impute import IterativeImputer
                for M, F in ((mv, A), (mu, B)):
                    X = np.where((M == -1) | (named & (M == MARK)), np.nan, M.astype(float))
                    o = {"max_iter": 10, "tol": 1e-3, **(args or {})}
                    R = IterativeImputer(random_state=seed, **o).fit_transform(X)
                    returned &= bool(R.shape == F.shape and np.allclose(R, np.asarray(F, float), rtol=1e-6, atol=1e-9))
            ev.append({"ev": "Impute", "what": what, "k": k, "weighted": weighted, "marker": named, "v": mv.tolist(), "u": mu.tolist(),
                       "fv": grid(A), "fu": grid(B), "mask": [[bool(x) for x in r] for r in np.asarray(im.imputation_mask)],
                       "labels": bool(labels), "returned": bool(returned),
                       "untouched": bool(before[0].equals(dh.input_data) and before[1].equals(dh.uncertainty_data) and fv.equals(frame(mv)) and fu.equals(frame(mu))
                                         and (args is None or args == a0)),
                       "again": all(x.equals(y) for x, y in zip(outs[0][1], outs[1][1]))})
            # one imputer, several rules: each result is the rule's own
            if i % 4 == 0:
                im.impute(strategy="mean")
                r = im.impute(strategy=what, **({} if args is None else {"args": args}))
                ev.append({"ev": "Refused", "what": "reproducible", "ok": bool(r[0].equals(A) and r[1].equals(B))})
        ck.rec.case(f"imp-{what}-{i}", cfg, one)

    kinds = ["mean", "median", "most_frequent", "knn", "iterative"]
    for i in range(1500 if THOROUGH else 200):
        case(i, kinds[(i // 5) % 5])

    # values next to the marker are values
    def near(ev):
        for marker in (99, 99.0, -999.0, 0.5, 1e-3):
            for d in (1e-4, 1e-6, 1e-9, 1e-12):
                for which in range(2):
                    x = float(marker)
                    vals = [x * (1 + d), x * (1 - d)]
                    if x in vals:
                        continue
                    V = pd.DataFrame(np.arange(1.0, 19.0).reshape(6, 3) + 200, columns=list("abc"))
                    U = V / 10
                    M = V if which == 0 else U
                    M.iloc[1, 0], M.iloc[3, 2] = vals
                    M.iloc[4, 1] = x
                    for what in ("mean", "knn"):
                        im = DataImputer(DataHandler.load_dataframe(V.copy(), U.copy()), missing_value=marker)
                        F = np.asarray(im.impute(what)[which], float)
                        O = np.asarray(M, float)
                        kept = [[bool(F[r, q] == O[r, q]) for q in range(3)] for r in range(6)]
                        ev.append({"ev": "Near", "marked": [[bool(O[r, q] == x) for q in range(3)] for r in range(6)], "kept": kept,
                                   "mask": [[bool(z) for z in r] for r in np.asarray(im.imputation_mask)]})
    ck.rec.case("near", {"what": ""}, near)

    def refused(ev):
        rng = np.random.default_rng([SEED, 24])
        V = pd.DataFrame(rng.random((6, 3)), columns=list("abc"))
        for which in range(2):
            for what in kinds:
                D, E = V.copy(), V.copy()
                (E if which else D).iloc[:, 1] = np.nan
                im = DataImputer(DataHandler.load_dataframe(D, E))
                try:
                    got = im.impute(strategy=what)
                    ok = got[0].shape == (6, 3) == got[1].shape and not got[which].isna().any().any()
                except ValueError:
                    ok = im.imputed_uncertainty is None
                ev.append({"ev": "Refused", "what": "empty-column-not-dropped", "ok": bool(ok)})
        for bad in ("bogus", "", "KNN"):
            im = DataImputer(DataHandler.load_dataframe(V, V))
            try:
                im.impute(strategy=bad)
                ok = False
            except ValueError:
                ok = im.imputed_data is None
            ev.append({"ev": "Refused", "what": "unknown-rule", "ok": ok})
        im = DataImputer(None)
        ev.append({"ev": "Refused", "what": "no-dataset", "ok": im.impute() is None and im.imputed_data is None})
        # imputed frames load into a dataset and lose no row
        D = V.copy()
        D.iloc[1, 1] = D.iloc[4, 0] = np.nan
        a, b = DataImputer(DataHandler.load_dataframe(D, V)).impute("median")
        x, y = DataHandler.load_dataframe(a, b).get_data()
        ev.append({"ev": "Refused", "what": "dataset-complete", "ok": x.shape == (6, 3) and bool(np.isfinite(x).all())})
    ck.rec.case("refused", {"what": ""}, refused)

    def negatives():
        neg = []
        for c in ck.rec.cases[:-2:7] + ck.rec.cases[-2:-1]:
            e = c["ev"][0]
            if e["ev"] == "Near":
                c2 = copy.deepcopy(c)
                c2["ev"][0]["kept"][1][0] = False
                neg.append(c2)
                continue
            if e["ev"] != "Impute":
                continue
            for t in range(3):
                c2 = copy.deepcopy(c)
                e = c2["ev"][0]
                if t == 0:
                    e["fv"][0][0] += 840 * 50
                    if e["what"] == "iterative" and e["mask"][0][0]:
                        continue
                elif t == 1:
                    e["mask"][-1][-1] = not e["mask"][-1][-1]
                else:
                    e["fu"] = e["fu"][:-1]
                neg.append(c2)
        return neg
    ck.trace("Impute_Trace", negatives=negatives, workers=8)
    return ck.finish()
