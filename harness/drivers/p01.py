"""P01: building and initialising a model. Histories generated from spec/SAInit.tla are replayed on
real models, and random data / matrices are recorded and judged by spec/SAInit_Trace.tla."""
import copy
import hashlib
import random

from harness.common import *

FLOOR, UZERO, UNEG, NAN = 9999, 7777, 7778, -2147483647


def run():
    setup_imports()
    import numpy as np
    from esat.model.sa import SA
    rnd = random.Random(SEED)
    ck = Check("P01", "model_checking",
               ["data cells are multiples of 1/4 and uncertainties powers of two, so that every stored value is exact",
                "k-means cases use well-conditioned positive data"])
    ck.design("SAInit", "SAInit_MC.cfg")
    interned = {}

    def dig(*arrs):
        h = hashlib.sha256()
        for a in arrs:
            if a is None:
                h.update(b"none")
            else:
                a = np.ascontiguousarray(a)
                h.update(str((a.shape, a.dtype.str)).encode() + a.tobytes())
        return interned.setdefault(h.digest(), len(interned) + 1)

    def vcode(a):
        return [[NAN if np.isnan(x) else int(x * 4) if float(x * 4).is_integer() else 8888 for x in r] for r in a]

    def ucode(x, floor):
        if np.isnan(x):
            return NAN
        if abs(float(x) / floor - 1) < 1e-3:
            return FLOOR
        if x <= 0:
            return 8887
        e = np.log2(float(x))
        return int(round(e)) if float(2.0 ** round(e)) == float(x) else 8888

    def hcode(x):
        x = float(x)
        if np.isnan(x):
            return NAN
        if 0 < x < 1e-11:
            return FLOOR
        return int(x) if x.is_integer() and abs(x) < 5000 else 8888

    def results(sa):
        return dig(sa.WH, np.array([0.0 if q is None else float(q) for q in (sa.Qtrue, sa.Qrobust)]),
                   None if sa.q_list is None else np.array(sa.q_list, dtype=float))

    def build(ev, d):
        gv, gu = d["v"], d["u"]
        V = np.array([[np.nan if x == NAN else x / 4 for x in r] for r in gv])
        U = np.array([[np.nan if x == NAN else 0.0 if x == UZERO else -1.5 if x == UNEG else 2.0 ** x
                       for x in r] for r in gu])
        if d.get("shape"):
            U = np.hstack([U, U[:, :1]])
        kw = {"method": d["method"], "seed": None if d["seed"] == NAN else d["seed"]}
        if d.get("default_method"):
            kw.pop("method")
        if d.get("f32"):
            V, U = V.astype(np.float32), U.astype(np.float32)
        V0, U0 = V.copy(), U.copy()
        sa = SA(V=V, U=U, factors=d["k"], **kw)
        if not (np.array_equal(V, V0, equal_nan=True) and np.array_equal(U, U0, equal_nan=True)):
            raise RuntimeError("constructor changed its arguments")
        Uc = sa.U[:, :len(gu[0])]
        ev.append({"ev": "Build", "gv": gv, "v": vcode(sa.V), "gu": gu,
                   "u": [[ucode(x, 1e-12) for x in r] for r in Uc],
                   "we": [[ucode(x, 1e24) for x in r] for r in sa.We[:, :len(gu[0])]],
                   "gmethod": d["method"], "method": sa.method, "gseed": d["seed"], "seed": int(sa.seed),
                   "gk": d["k"], "k": int(sa.factors), "dataOk": d["dataOk"], "rd": results(sa),
                   "meta": [sa.metadata["samples"], sa.metadata["features"], sa.metadata["factors"],
                            sa.metadata["seed"], sa.metadata["method"]]})
        return sa

    def init(ev, sa, d, wk, hk, how="column_mean", fresh=False, base="", rng=None, dtype=float, rows=1, norm=True):
        rng = rng or np.random.default_rng(SEED)
        m, n, k = sa.m, sa.n, sa.factors
        hg, wg, H, W = [], [], None, None
        if hk != "none":
            p = rows if hk == "part" else k
            hi = rng.integers(-1, 6, (p, n)) if rng.random() < 0.7 else rng.integers(1, 6, (p, n))
            hg = hi.tolist()
            H = hi.astype(dtype)
            if hk == "nan":
                H[0, 0] = np.nan
                hg[0][0] = NAN
        if wk != "none":
            wi = rng.integers(0 if sa.method == "ls-nmf" else -3, 5, (m, k) if wk != "shape" else
                              ((m + 1, k) if rng.random() < 0.5 else (m, k + 1)))
            wg = wi.tolist()
            W = wi.astype(dtype)
            if wk == "nan":
                W[0, 0] = np.nan
                wg[0][0] = NAN
        kw = {}
        if how != "default":
            kw["init_method"] = how
        if not norm:
            kw["init_norm"] = False
        sa.initialize(H=H, W=W, **kw)
        ev.append({"ev": "Init", "wk": wk, "hk": hk, "hg": hg, "wg": wg, "m": m, "n": n, "k": k,
                   "method": sa.method, "hshape": list(sa.H.shape), "wshape": list(sa.W.shape),
                   "h": [[hcode(x) for x in r] for r in sa.H], "w": [[hcode(x) if x else 0 for x in r] for r in sa.W],
                   "hpos": [[bool(x > 0) for x in r] for r in sa.H],
                   "wpos": [[bool(x > 0) for x in r] for r in sa.W], "wfin": bool(np.isfinite(sa.W).all()),
                   "hcol": fxm(sa.H.sum(axis=0), 1e-6), "hfx": fxm(sa.H, 1e-6),
                   "fresh": fresh, "random": wk == "none", "base": base, "seed": int(sa.seed),
                   "wd": dig(sa.W), "hd": dig(sa.H)})

    def scale(ev, sa):
        # the drawn starting values in units of the square root of the mean share of their column / row
        zh = [float(sa.H[:, j].max()) / np.sqrt(abs(float(sa.V[:, j].mean())) / sa.factors) for j in range(sa.n)]
        zw = [float(np.abs(sa.W[i]).max()) / np.sqrt(abs(float(sa.V[i].mean())) / sa.factors) for i in range(sa.m)]
        ev.append({"ev": "Scale", "zh": [fx(z, 1e-2) for z in zh], "zw": [fx(z, 1e-2) for z in zw],
                   "hpos": [int((sa.H[:, j] > 1e-6).sum()) for j in range(sa.n)], "k": int(sa.factors)})

    def clusters(ev, sa, norm):
        obs = sa.V.astype(float)
        if norm:
            obs = obs / obs.std(axis=0)
        ev.append({"ev": "Clusters", "obs": fxm(obs, 1e-3), "h": fxm(sa.H, 1e-3), "w": fxm(sa.W, 1e-3),
                   "k": int(sa.factors), "norm": bool(norm)})

    def train(ev, sa, base=""):
        r = sa.train(max_iter=3, converge_n=2)
        ev.append({"ev": "Train", "ret": "none" if r is None else str(r), "wd": dig(sa.W), "hd": dig(sa.H),
                   "rd": results(sa), "results": sa.WH is not None and sa.Qtrue is not None, "base": base,
                   "seed": int(sa.seed)})

    SPELL = ["ls-nmf", "ws-nmf", "LS-NMF", "WS-NMF", "Ws-Nmf", "unknown"]
    BAD = ["v-nan", "u-nan", "shape"]

    def data(rng, method=None, ok=True, neg=False, big=False):
        m, n, k = int(rng.integers(3, 30 if big else 7)), int(rng.integers(2, 12 if big else 5)), int(rng.integers(1, 4))
        v = rng.integers(1, 200, (m, n)).tolist()
        if rng.random() < 0.4:
            for _ in range(int(rng.integers(1, 4))):
                v[rng.integers(m)][rng.integers(n)] = 0
        if neg:
            for _ in range(int(rng.integers(1, m * n))):
                v[rng.integers(m)][rng.integers(n)] *= -1
        u = rng.integers(-6, 5, (m, n)).tolist()
        if rng.random() < 0.6:
            for _ in range(int(rng.integers(1, 3))):
                u[rng.integers(m)][rng.integers(n)] = int(rng.choice([UZERO, UNEG]))
        d = {"v": v, "u": u, "k": k, "method": method or SPELL[int(rng.integers(len(SPELL)))],
             "seed": NAN if rng.random() < 0.3 else int(rng.integers(0, 100000)), "dataOk": True,
             "f32": bool(rng.random() < 0.3)}
        if not ok:
            b = BAD[int(rng.integers(3))]
            d["dataOk"] = False
            if b == "v-nan":
                v[rng.integers(m)][rng.integers(n)] = NAN
            elif b == "u-nan":
                u[rng.integers(m)][rng.integers(n)] = NAN
            else:
                d["shape"] = True
        return d

    # 1. every history of the generator, on real models
    beh, s = tlc_behaviours("SAInit_Gen", "SAInit_GenT.cfg" if THOROUGH else "SAInit_Gen.cfg")
    ck.models.append({"model": "SAInit_Gen", **s, "behaviours": len(beh)})
    for i, b in enumerate(beh):
        for method in ("ls-nmf", "ws-nmf"):
            rng = np.random.default_rng([SEED, i])

            def replay(ev):
                d = data(rng, method, ok=b["dataOk"])
                sa = build(ev, d)
                for op in b["log"]:
                    if op["op"] == "init":
                        init(ev, sa, d, op["w"], op["h"], rng=rng, rows=max(0, d["k"] - 1))
                    else:
                        train(ev, sa)
            ck.rec.case(f"hist-{i}-{method}", {}, replay)

    # 2. random data, options and matrices
    for i in range(1200 if THOROUGH else 300):
        rng = np.random.default_rng([SEED, 7, i])

        def rand(ev):
            d = data(rng, ok=True, neg=rng.random() < 0.25, big=rng.random() < 0.3)
            if i % 11 == 0:
                d["method"], d["default_method"] = "ls-nmf", True
            sa = build(ev, d)
            for _ in range(int(rng.integers(1, 4))):
                init(ev, sa, d, str(rng.choice(["none", "ok"])), str(rng.choice(["none", "ok", "part"])),
                     how=str(rng.choice(["default", "column_mean"])), rng=rng,
                     dtype=[float, np.float32][int(rng.integers(2))], rows=int(rng.integers(0, sa.factors)))
        ck.rec.case(f"rand-{i}", {}, rand)

    # 3. seeds: same seed bit for bit, other seeds not, None is 42; auto-initialisation
    for i in range(160 if THOROUGH else 50):
        rng = np.random.default_rng([SEED, 11, i])

        def seeds(ev):
            how = ["default", "column_mean", "kmeans"][i % 3]
            d = data(rng, ["ls-nmf", "ws-nmf"][i % 2], neg=False)
            if how == "kmeans":
                d["v"] = (rng.integers(1, 400, (40, 3)) + 1).tolist()
                d["u"] = rng.integers(-3, 3, (40, 3)).tolist()
                d["k"] = 2
            # k-means may find the same centroids from different seeds; W still differs
            hks = {"part": "part", "ok": "ok"}.get(str(rng.choice(["none", "none", "ok"])), "none")
            for sd in (5, NAN, 42, 6, 5, 42, 123456, 6):
                d["seed"] = sd
                np.random.seed(int(rng.integers(1000)))
                random.seed(int(rng.integers(1000)))
                sa = build(ev, d)
                mrng = np.random.default_rng(3)
                init(ev, sa, d, "none", hks if how != "kmeans" else "ok", how=how, fresh=True, base=f"b{how}", rng=mrng)
        ck.rec.case(f"seed-{i}", {}, seeds)

        def kseeds(ev):
            d = {"v": (rng.integers(1, 400, (40, 3)) + 1).tolist(), "u": rng.integers(-3, 3, (40, 3)).tolist(),
                 "k": int(rng.integers(1, 4)), "method": "ls-nmf", "seed": 1, "dataOk": True}
            norm = bool(i % 2)
            for sd in (5, 5, 42, NAN, 9, 9):
                d["seed"] = sd
                np.random.seed(int(rng.integers(1000)))
                sa = build(ev, d)
                init(ev, sa, d, "none", "none", how="kmeans", fresh=True, base=f"k{sd % 100}", norm=norm)
                clusters(ev, sa, norm)
                if sa.metadata.get("init_method") != "kmeans":
                    raise RuntimeError("init_method not recorded")
            for wk, hk in (("ok", "none"), ("none", "ok"), ("ok", "ok"), ("none", "part")):
                sa = build(ev, d)
                init(ev, sa, d, wk, hk, how="kmeans", norm=norm, rng=rng, rows=max(0, d["k"] - 1))
            train(ev, sa)
        if i < (40 if THOROUGH else 12):
            ck.rec.case(f"kmeans-{i}", {}, kseeds)

        def scales(ev):
            m, n, k = 50, 5, 40
            d = {"v": (rng.integers(40, 400, (m, n)) * 4 ** np.arange(n) * (1 + 15 * (np.arange(m) % 3))[:, None]).tolist(),
                 "u": rng.integers(-3, 3, (m, n)).tolist(), "k": k, "method": ["ls-nmf", "ws-nmf"][i % 2],
                 "seed": int(rng.integers(100000)), "dataOk": True}
            sa = build(ev, d)
            sa.initialize()
            scale(ev, sa)
        if i < (40 if THOROUGH else 12):
            ck.rec.case(f"scale-{i}", {}, scales)

        def auto(ev):
            d = data(rng, ["ls-nmf", "ws-nmf"][i % 2])
            for k in range(2):
                sa = build(ev, d)
                if k:
                    init(ev, sa, d, "none", "none", how="default")
                train(ev, sa, base="auto")
        ck.rec.case(f"auto-{i}", {}, auto)

    def negatives():
        neg = []
        for n, c in enumerate(ck.rec.cases[::37]):
            c = copy.deepcopy(c)
            e = c["ev"][-1]
            if e["ev"] == "Train":
                e["ret"] = "-1" if e["ret"] == "none" else "none"
            elif e["ev"] == "Init":
                e["hshape"][0] += 1
            elif e["ev"] == "Scale":
                e["zh"][n % len(e["zh"])] *= 40
            elif e["ev"] == "Clusters":
                e["h"][0][0] += 500
            neg.append(c)
        for c in ck.rec.cases[3::71]:
            c = copy.deepcopy(c)
            c["ev"][0]["we"][0][0] += 1
            neg.append(c)
        return neg

    ck.trace("SAInit_Trace", negatives=negatives)
    return ck.finish()
