"""P19: swap test and factor matching. Integer profiles (exact in spec/Match_Trace.tla), permuted, scaled
and noisy solutions through compare_all_factors, FactorCompare and FactorCompareV2."""
import copy
import io
from types import SimpleNamespace

from harness.common import *
from harness import fakepool


def run():
    setup_imports()
    import numpy as np
    import pandas as pd
    from esat.utils import compare_all_factors
    from esat_eval.factor_comparison import FactorCompare, FactorCompareV2
    ck = Check("P19", "model_checking",
               ["agreement matrices of real-valued solutions are computed by the driver (numpy) and rounded to 1e-4; those of "
                "small integer solutions are recomputed exactly by the specification",
                "constant factors (undefined correlation) and exact ties are not judged"])
    for mc in ("MC", "MC3") + (("MCT", "MCT3") if THOROUGH else ()):
        ck.design("Match", f"Match_{mc}.cfg", workers=8, timeout=1500)

    def r2(x, y):
        x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
        x, y = x - x.mean(), y - y.mean()
        return float((x @ y) ** 2 / ((x @ x) * (y @ y)))

    def varied(rng, k, n, hi):
        while True:
            a = rng.integers(0, hi + 1, (k, n))
            if all(len(set(r)) > 1 for r in a.tolist()):
                return a

    # ---- the swap test
    for i in range(1500 if THOROUGH else 300):
        rng = np.random.default_rng([SEED, 19, 1, i])
        k, n = int(rng.integers(1, 5)), int(rng.integers(3, 7))
        a = varied(rng, k, n, 8)
        kind = i % 5
        if kind == 0:
            b = varied(rng, k, n, 8)
        elif kind == 1:
            b = a.copy()
        elif kind == 2:
            b = a[rng.permutation(k)]
        else:                                     # one cell moved
            for _ in range(50):
                b = a.copy()
                b[rng.integers(k), rng.integers(n)] = rng.integers(0, 9)
                if all(len(set(r)) > 1 for r in b.tolist()):
                    break
            else:
                b = a.copy()
        fa = a * rng.uniform(0.01, 50, (k, 1)) if i % 2 else a.astype(float)
        fb = b * rng.uniform(0.01, 50, (k, 1)) if i % 3 else b.astype(float)

        def swap(ev):
            x, y = fa.copy(), fb.copy()
            ties = any(abs(r2(a[p], b[q]) - r2(a[p], b[p])) < 1e-9 for p in range(k) for q in range(k) if p != q)
            got = bool(compare_all_factors(x, y))
            ev.append({"ev": "Swap", "a": a, "b": b, "swap": got, "same": kind == 1 and not ties,
                       "inputs": bool(np.array_equal(x, fa) and np.array_equal(y, fb))})
            if i % 7 == 0:                        # integer matrices
                ev.append({"ev": "Swap", "a": a, "b": b, "swap": bool(compare_all_factors(a, b)), "same": False, "inputs": True})
        ck.rec.case(f"swap-{i}", {"method": ""}, swap)

    # ---- matching
    def solution(rng, k, m, n, ints):
        if ints:
            return varied(rng, k, m, 5).T, varied(rng, k, n, 5)
        return rng.random((m, k)) ** 2 * 5, rng.random((k, n)) ** 2 * 5

    def variant(rng, W, H, k, ints, kind):
        k0 = W.shape[1]
        p = rng.permutation(k0)
        if kind == 0 or k != k0:
            W2, H2 = solution(rng, k, W.shape[0], H.shape[1], ints)
            for j in range(min(k, k0)):
                if rng.random() < 0.6:
                    W2[:, j], H2[j] = W[:, p[j]], H[p[j]]
        else:
            W2, H2 = W[:, p].copy(), H[p].copy()
            for _ in range(int(rng.integers(0, 4))):
                s, f = rng.integers(W.shape[0]), rng.integers(k)
                W2[s, f] = rng.integers(0, 6) if ints else rng.random() * 4
            if kind == 2 and k > 1:               # two factors of the model resemble the same base factor
                q, r = rng.choice(k, 2, replace=False)
                W2[:, q], H2[q] = W2[:, r], H2[r]
                W2[0, q] = (W2[0, q] + 1) % 6
            if kind == 3 and k > 2:               # a cycle of three factors
                cyc = list(rng.choice(k, 3, replace=False))
                W2, H2 = W.copy(), H.copy()
                W2[:, cyc], H2[cyc] = W[:, cyc[1:] + cyc[:1]], H[cyc[1:] + cyc[:1]]
        ok = all(np.ptp(W2[:, j]) > 0 and np.ptp(H2[j]) > 0 and W2[:, j].sum() > 0 for j in range(k))
        return (W2, H2) if ok else variant(rng, W, H, k, ints, 0)

    def ref(ev, W, H, W2, H2, ints):
        kb, ks = W.shape[1], W2.shape[1]
        mat = lambda f: [[fx(f(i, j), 1e-4) for j in range(ks)] for i in range(kb)]
        ev.append({"ev": "Ref", "h": mat(lambda i, j: r2(H[i], H2[j])), "w": mat(lambda i, j: r2(W[:, i], W2[:, j])),
                   "wh": mat(lambda i, j: r2(np.outer(W[:, i], H[i]), np.outer(W2[:, j], H2[j]))),
                   "raae": mat(lambda i, j: np.abs(W2[:, j] - W[:, i]).sum() / W[:, i].sum()),
                   "h1": H if ints else [], "h2": H2 if ints else [], "w1": W.T if ints else [], "w2": W2.T if ints else []})

    logged = []

    class Handler(logging.Handler):
        def emit(self, rec):
            logged.append(rec.getMessage())

    def q_logged(want):
        """The base Q in the log, when it is there, is the loss of the base solution."""
        found = [re.search(r"Base Q\(true\): ([-\d.e+]+)", t) for t in logged]
        found = [float(f.group(1).rstrip(",.")) for f in found if f]
        return all(abs(f - want) <= 1e-6 * max(1.0, want) for f in found)

    def compare(ev, d, fc, results, W, H):
        log = logging.getLogger(FactorCompare.__module__)
        h = Handler()
        logging.disable(logging.NOTSET)
        log.addHandler(h)
        log.setLevel(logging.INFO)
        log.propagate = False
        del logged[:]
        try:
            with single_core(not d["verbose"]):
                fc.compare(verbose=d["verbose"])
        finally:
            logging.disable(logging.CRITICAL)
            log.removeHandler(h)
        live = [j for j, r in enumerate(results) if r is not None]
        tables = []
        for j in live:
            t = fc.sa_model_dfs.get(j, {})
            rows = {"W": list(range(W.shape[0])), "WH": list(range(W.shape[0])), "H": list(fc.sa_factors)}
            cols = {"W": list(fc.sa_factors), "WH": list(fc.features), "H": list(fc.features)}
            for q in ("W", "H", "WH"):
                x = t.get(q)
                tables.append({"what": q, "model": j, "values": bool(x is not None and x.shape == getattr(results[j], q).shape
                                                                     and np.allclose(x.to_numpy(float), getattr(results[j], q), rtol=1e-9, atol=0)),
                               "labels": bool(x is not None and list(x.index) == rows[q] and list(x.columns) == cols[q])})
            tables.append({"what": "Q", "model": j, "values": bool(fc.sa_Q.get(j) == results[j].Qtrue), "labels": True})
        ev.append({"ev": "Tables", "live": live, "tables": tables, "models": sorted(fc.sa_model_dfs),
                   "estimate": bool(np.allclose(fc.base_V_estimate, np.asarray(W, float) @ H))})
        names_b, names_s = list(fc.base_factors), list(fc.sa_factors)

        def number(m):
            names = names_b if len(names_b) >= len(names_s) else names_s
            return [names.index(x) + 1 for x in m]
        f4 = lambda a: fxm(a, 1e-4)
        models = []
        for j in live:
            r = fc.model_results[j]
            models.append({"map": number(r["factor_map"]), "avg": fx(r["best_avg_r"], 1e-4), "h": f4(r["best_factor_r"]),
                           "w": f4(r["best_contribution_r"]), "wh": f4(r["best_wh_r"])})
        ev.append({"ev": "Compare", "ok": True, "models": models,
                   "best": live.index(fc.best_model) + 1 if fc.best_model in live else 0, "bestmap": number(fc.factor_map),
                   "bestavg": fx(fc.best_avg_r, 1e-4), "besth": f4(fc.best_factor_r), "bestw": f4(fc.best_contribution_r),
                   "bestwh": f4(fc.best_wh_r), "q": q_logged(float((((d["V"] - W @ H) / d["U"]) ** 2).sum())),
                   "inputs": all(np.array_equal(results[j].W, d["W2"][j]) and np.array_equal(results[j].H, d["H2"][j]) for j in live)})

    def frames(rng, W, H, V, U):
        k, (m, n) = W.shape[1], V.shape
        feats = [f"spec {j}" for j in rng.permutation(n)]
        names = [f"{s} {j}" for j, s in enumerate(rng.choice(["Base", "Factor", "x"], k))]
        ip = pd.DataFrame(V, columns=feats)
        un = pd.DataFrame(U, columns=feats)
        pro = pd.DataFrame(H.T, columns=names, index=feats)
        con = pd.DataFrame(W, columns=names)
        if rng.random() < 0.5:
            con = con[[names[j] for j in rng.permutation(k)]]
        return ip, un, pro, con

    for i in range(600 if THOROUGH else 150):
        rng = np.random.default_rng([SEED, 19, 2, i])
        ints = i % 2 == 0
        m, n = int(rng.integers(4, 7)), int(rng.integers(3, 7))
        kb = int(rng.integers(1, 5))
        ks = kb if i % 3 else int(rng.integers(1, 5))
        W, H = solution(rng, kb, m, n, ints)
        N = int(rng.integers(1, 4))
        pairs = [variant(rng, W, H, ks, ints, int(rng.integers(0, 4))) for _ in range(N)]
        if ints:
            pairs = [(np.asarray(a), np.asarray(b)) for a, b in pairs]
        res = [SimpleNamespace(H=b.astype(float), W=a.astype(float), WH=a.astype(float) @ b, Qtrue=float(j), factors=ks)
               for j, (a, b) in enumerate(pairs)]
        if i % 5 == 4:
            res[int(rng.integers(N))] = None
        if all(r is None for r in res):
            continue
        d = {"V": W @ H + rng.random((m, n)), "U": rng.random((m, n)) + 0.2, "verbose": i % 4 == 0,
             "W2": [None if r is None else r.W.copy() for r in res], "H2": [None if r is None else r.H.copy() for r in res]}
        method = ["all", "H", "W", "WH"][(i // 2) % 4]

        def match(ev):
            for r, (a, b) in zip(res, pairs):
                if r is not None:
                    ref(ev, W, H, a, b, ints)
            ip, un, pro, con = frames(rng, W, H, d["V"], d["U"])
            batch = SimpleNamespace(factors=ks, results=res)
            fakepool.set_schedule(lambda t: [int(x) for x in rng.permutation(t)])
            fc = FactorCompare(input_df=ip, uncertainty_df=un, base_profile_df=pro, base_contribution_df=con, batch_sa=batch, method=method)
            compare(ev, d, fc, res, W, H)
        ck.rec.case(f"match-{i}", {"method": method}, match)

        if ks != kb or res.count(None):
            continue

        def mapped(ev):
            for a, b in pairs:
                ref(ev, W, H, a, b, ints)
            base = SimpleNamespace(W=W.astype(float), H=H.astype(float), factors=kb)
            v2 = FactorCompareV2(base, res)
            for meth in ("raae", "corr", "emc"):
                mp_, va = v2.determine_map(meth)
                for j in range(N):
                    ev.append({"ev": "Map", "model": j + 1, "method": meth, "map": [int(x) + 1 for x in mp_[j]],
                               "values": fxm(np.asarray(va[j], dtype=float), 1e-4),
                               "inputs": bool(np.array_equal(base.W, W) and np.array_equal(base.H, H)
                                              and np.array_equal(res[j].W, d["W2"][j]) and np.array_equal(res[j].H, d["H2"][j]))})
        ck.rec.case(f"map-{i}", {"method": ""}, mapped)

    # ---- a PMF5 solution read from its output files
    for i in range(4):
        rng = np.random.default_rng([SEED, 19, 3, i])
        m, n, k = int(rng.integers(4, 8)), int(rng.integers(3, 6)), int(rng.integers(2, 4))
        W, H = solution(rng, k, m, n, False)
        a, b = variant(rng, W, H, k, False, 1)
        res = [SimpleNamespace(H=b, W=a, WH=a @ b, Qtrue=1.0, factors=k)]
        d = {"V": W @ H + 0.1, "U": rng.random((m, n)) + 0.2, "verbose": True, "W2": [a.copy()], "H2": [b.copy()]}

        def pmf(ev):
            feats, names = [f"s{j}" for j in range(n)], [f"Factor {j + 1}" for j in range(k)]
            pf, cf = os.path.join(scratch(), f"p{i}.txt"), os.path.join(scratch(), f"c{i}.txt")
            with open(pf, "w") as f:
                for block in (H, H * 7, H * 11):
                    f.write("Factor Profiles\n\n")
                    f.write("\t".join(["", ""] + names) + "\n")
                    for j in range(n):
                        f.write("\t".join(["1", feats[j]] + [repr(float(x)) for x in block[:, j]]) + "\n")
                    f.write("\n")
            with open(cf, "w") as f:
                f.write("Factor Contributions\n\n\n")
                f.write("\t".join(["", ""] + names) + "\n")
                for s in range(m):
                    f.write("\t".join(["1", f"01/{s + 1:02d}/20 00:00"] + [repr(float(x)) for x in W[s]]) + "\n")
            ref(ev, W, H, a, b, False)
            fc = FactorCompare.load_pmf_output(k, pd.DataFrame(d["V"], columns=feats), pd.DataFrame(d["U"], columns=feats), pf, cf,
                                               SimpleNamespace(factors=k, results=res))
            for p_there, c_there in ((False, True), (True, False), (False, False)):
                gone = lambda path, there: path if there else path + ".gone"
                x = FactorCompare.load_pmf_output(k, pd.DataFrame(d["V"], columns=feats), pd.DataFrame(d["U"], columns=feats), gone(pf, p_there), gone(cf, c_there),
                                                  SimpleNamespace(factors=k, results=res))
                ev.append({"ev": "Absent", "loaded": x is not None})
            ev.append({"ev": "Loaded", "same": bool(list(fc.base_factors) == names
                       and np.allclose(fc.base_profile_df[names].to_numpy(float), H.T)
                       and np.allclose(fc.base_contribution_df[names].to_numpy(float), W))})
            compare(ev, d, fc, res, W, H)
        ck.rec.case(f"pmf-{i}", {"method": "all"}, pmf)

    real_count = os.cpu_count
    for n_cpu in (1, 2):
        rng = np.random.default_rng([SEED, 19, 4, n_cpu])
        W, H = solution(rng, 2, 5, 4, False)
        res = [SimpleNamespace(H=H[::-1].copy(), W=W[:, ::-1].copy(), WH=W @ H, Qtrue=1.0, factors=2)]
        d = {"V": W @ H + 0.1, "U": rng.random((5, 4)) + 0.2, "verbose": False, "W2": [res[0].W.copy()], "H2": [res[0].H.copy()]}

        def cores(ev):
            ref(ev, W, H, res[0].W, res[0].H, False)
            ip, un, pro, con = frames(rng, W, H, d["V"], d["U"])
            fc = FactorCompare(ip, un, pro, con, SimpleNamespace(factors=2, results=res))
            os.cpu_count = lambda: n_cpu
            try:
                compare(ev, d, fc, res, W, H)
            finally:
                os.cpu_count = real_count
        ck.rec.case(f"cores-{n_cpu}", {"method": "all"}, cores)

    def negatives():
        neg = []
        for c in ck.rec.cases:
            e = c["ev"][-1]
            c2 = copy.deepcopy(c)
            e2 = c2["ev"][-1]
            if e["ev"] == "Swap" and e["same"]:
                e2["swap"] = True
            elif e["ev"] == "Compare":
                c3 = copy.deepcopy(c)
                next(x for x in c3["ev"] if x["ev"] == "Tables")["tables"][2]["values"] = False
                neg.append(c3)
                e2["models"][0]["h"][0] += 40
            elif e["ev"] == "Map" and len(e["map"]) > 1:
                e2["map"][0] = e2["map"][1]
            else:
                continue
            neg.append(c2)
        return neg
    ck.trace("Match_Trace", negatives=negatives)
    return ck.finish()
