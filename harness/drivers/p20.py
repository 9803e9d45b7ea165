"""P20: the factor catalogue. Histories generated from spec/Catalog.tla (models, batches with outliers)
are replayed in the real catalogue; clusters, tables and queries are judged by spec/Catalog_Trace.tla."""
import contextlib
import copy
import io
from types import SimpleNamespace

from harness.common import *


def run():
    setup_imports()
    import numpy as np
    from esat_eval.factor_catalog import Factor, FactorCatalog
    ck = Check("P20", "model_checking",
               ["the agreement of every pair of factors is computed by the driver (numpy) and rounded to 1e-4; decisions within "
                "2e-4 of a tie or of the threshold are not judged", "a factor whose relative error is 1 or more founds a cluster whatever the threshold"])
    for mc in ("MC", "MCC") + (("MCT",) if THOROUGH else ()):
        ck.design("Catalog", f"Catalog_{mc}.cfg", workers=8)
    beh, s = tlc_behaviours("Catalog_Gen", "Catalog_Gen1.cfg")
    ck.models.append({"model": "Catalog_Gen", **s})
    lng, s = tlc_behaviours("Catalog_Gen", "Catalog_Gen.cfg",
                            extra=("-simulate", f"num={400 if THOROUGH else 70}", "-depth", "7", "-seed", str(SEED)))
    ck.models.append({"model": "Catalog_Gen -simulate", **s})
    seen, hist = set(), []
    for b in beh[::1 if THOROUGH else 40] + lng:
        key = json.dumps(b)
        if key not in seen:
            seen.add(key)
            hist.append(b)
    hist = hist if THOROUGH else hist[:150]

    def r2(x, y):
        x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
        x, y = x - x.mean(), y - y.mean()
        return float((x @ y) ** 2 / ((x @ x) * (y @ y)))

    def agreement(method, f, g):
        if method == "raae":
            return float(np.abs(f[1] - g[1]).sum() / f[1].sum())
        return r2(f[0], g[0]) if method == "emc" else r2(f[1], g[1])

    for hi, h in enumerate(hist):
        rng = np.random.default_rng([SEED, 20, hi])
        method = ["raae", "corr", "emc"][hi % 3]
        prof = hi % 4 == 3
        lower = method == "raae"
        m, n = int(rng.integers(5, 9)), int(rng.integers(4, 8))
        # kinds: distances grow with the difference of the kind numbers
        base, drift = (rng.random(n) + 0.3, rng.random(m) + 0.3), (rng.random(n) * 2, rng.random(m) * 2)
        spread = rng.choice([0.1, 0.4, 1.0, 8.0])
        thr = float(rng.choice([0.05, 0.1, 0.3, 0.9, 1.2])) if lower and not prof else float(rng.choice([0.5, 0.8, 0.9, 0.97]))
        if hi % 15 == 0:
            thr, spread = 1.2, 8.0
        pct = int(rng.choice([110, 150, 200]))
        inst, source = [], []

        def make(kind, src):
            f = (base[0] * (1 + spread * kind * drift[0]) * (1 + rng.random(n) * (0.08 * rng.integers(0, 3) + 1e-7)),
                 base[1] * (1 + spread * kind * drift[1]) * (1 + rng.random(m) * (0.08 * rng.integers(0, 3) + 1e-7)))
            if rng.random() < 0.4:
                f = (f[0][rng.permutation(n)], f[1][rng.permutation(m)])
            inst.append((f[0].copy(), f[1].copy()))
            source.append(src)
            return len(inst)
        plan = []
        for o in h:
            k = len(o["kinds"])                      # a batch may hold failed models (None) between the others
            idx = [o["index"]] if o["op"] == "model" else sorted(int(x) for x in rng.permutation(k + int(rng.integers(0, 3)) * (hi % 3 == 0))[:k])
            plan.append((o, idx, [[make(k, i) for k in ks] for i, ks in zip(idx, o["kinds"])]))
        added = len(inst)
        probes = [make(int(rng.integers(1, 5)), -1) for _ in range(3)]
        mat = lambda f: [[fx(f(a, b), 1e-4) for b in inst] for a in inst]
        cfg = {"lower": lower, "thr": fx(thr, 1e-4), "agr": mat(lambda a, b: agreement(method, a, b)),
               "pro": mat(lambda a, b: r2(a[0], b[0])), "source": source,
               "whm": mat(lambda a, b: r2(np.outer(a[1], a[0]), np.outer(b[1], b[0])))}

        def one(ev):
            cat = FactorCatalog(method=method, threshold=thr, exclude_outliers=False, outlier_threshold=pct / 100)
            given = [(a.copy(), b.copy()) for a, b in inst]

            def which(f):
                for j, (a, b) in enumerate(inst):
                    if np.array_equal(f[0], a) and np.array_equal(f[1], b):
                        return j + 1
                return 0
            labels = lambda: list(cat.factors)
            clusters = lambda: [[which(f) for f in cat.factors[x].factor] for x in labels()]
            corrs = lambda: [fxm(np.asarray(cat.factors[x].correlation, float), 1e-4) for x in labels()]

            def as_model(ids, loss):
                return SimpleNamespace(factors=len(ids), H=np.array([given[j - 1][0] for j in ids]),
                                       W=np.array([given[j - 1][1] for j in ids]).T, Qtrue=loss)

            def unchanged():
                ev.append({"ev": "Unchanged", "clusters": clusters(), "count": cat.model_count,
                           "inputs": all(np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1]) for a, b in zip(given, inst))})
            for o, idx, ids in plan:
                losses = list(o["losses"])
                cat.exclude_outliers = o["exclude"]
                verbose = bool(rng.random() < 0.2)
                if o["op"] == "model":
                    if rng.random() < 0.3:
                        new = sum(cat.add_factor(given[j - 1][0], given[j - 1][1], idx[0], profile_only=prof, verbose=verbose) for j in ids[0])
                    else:
                        new = cat.add_model(idx[0], as_model(ids[0], losses[0]), profile_only=prof, verbose=verbose)
                else:
                    there = {i: as_model(j, float(q)) for i, j, q in zip(idx, ids, losses)}
                    last = max(idx, default=-1) + 1 + (hi % 3 == 0 and hi % 2)
                    new = cat.add_batch(SimpleNamespace(results=[there.get(i) for i in range(last)]),
                                        profile_only=prof, verbose=verbose)
                ev.append({"ev": "Add", "factors": ids, "models": idx, "losses": losses, "exclude": bool(o["exclude"]), "pct": pct,
                           "prof": prof, "clusters": clusters(), "corr": corrs(), "new": int(new), "count": int(cat.model_count),
                           "sources": [[int(i) for i in cat.factors[x].model] for x in labels()]})
                if not cat.factors:
                    continue
                df = cat.to_df()
                ls = labels()
                ev.append({"ev": "Table", "label": [ls.index(x) + 1 for x in df["factor"]], "n": [int(x) for x in df["count"]],
                           "occ": fxm(df["% occurrence"].to_numpy(float), 0.01), "corr": fxm(df["mean corr"].to_numpy(float), 1e-4),
                           "recorded": corrs()})
                with contextlib.redirect_stdout(io.StringIO()):
                    cat.summary()
                at = lambda x: 0 if x is None else ls.index(x) + 1
                x = probes[int(rng.integers(3))]
                best, val = cat.check_factor(given[x - 1][0], given[x - 1][1], profile_only=prof)
                ev.append({"ev": "Query", "what": "check", "xs": [x], "prof": prof, "best": at(best), "value": fx(val, 1e-4)})
                best, val = cat.check_matrix(np.outer(given[x - 1][1], given[x - 1][0]))
                ev.append({"ev": "Query", "what": "matrix", "xs": [x], "prof": False, "best": at(best), "value": fx(val, 1e-4)})
                xs = probes[:int(rng.integers(1, 4))]
                fac = Factor("probe", given[xs[0] - 1][0], given[xs[0] - 1][1], 0, method=method, threshold=0.25)
                for j in xs[1:]:
                    fac.add(given[j - 1][0], given[j - 1][1], 0, 0.5)
                best, val = cat.compare_factor(fac)
                ev.append({"ev": "Query", "what": "compare", "xs": xs, "prof": False, "best": at(best), "value": fx(val, 1e-4)})
                # a factor of which only the profile is comparable (another number of samples)
                short = Factor("short", given[x - 1][0], given[x - 1][1][:-1], 0, method=method)
                best, val = cat.compare_factor(short)
                ev.append({"ev": "Query", "what": "compare", "xs": [x], "prof": True, "best": at(best), "value": fx(val, 1e-4)})
                ev.append({"ev": "Threshold", "same": fac.threshold == 0.25 and (method != "raae" or short.threshold == 0.1) and all(f.threshold == thr for f in cat.factors.values())})
                unchanged()
        ck.rec.case(f"cat-{hi}", cfg, one)

    def negatives():
        neg = []
        for c in ck.rec.cases[::4]:
            adds = [e for e in c["ev"] if e["ev"] == "Add"]
            c2 = copy.deepcopy(c)
            a2 = [e for e in c2["ev"] if e["ev"] == "Add"]
            a2[-1]["count"] += 1
            neg.append(c2)
            if len(adds[-1]["clusters"]) > 1:
                c2 = copy.deepcopy(c)
                a2 = [e for e in c2["ev"] if e["ev"] == "Add"][-1]
                a2["clusters"][0].append(a2["clusters"][-1].pop())
                neg.append(c2)
        return neg
    ck.trace("Catalog_Trace", negatives=negatives)
    return ck.finish()
