"""P29: the optimised training. rust/lib.rs of the current tree is compiled against stand-ins for its crates
(harness/rust, harness/native.py) and called by the library as in production: single iterations are judged by
spec/NMF_Trace.tla, loops, reports, equality with the Python training and every model trained by batches, bootstraps
and displacements by spec/Native_Trace.tla."""
import copy

from harness.common import *
from harness import fakepool, native


class Unjudged(Exception):
    pass


def run():
    setup_imports()
    import pickle
    import shutil
    import numpy as np
    ck = Check("P29", "model_checking",
               ["lib.rs is compiled against stand-ins for pyo3, rust-numpy, nalgebra, ndarray, console and indicatif written for this check; "
                "the GPU implementation (not built by default) is not covered",
                "losses are compared to 2e-4 relative (float32)"])
    ck.design("Native", "Native_MCT.cfg" if THOROUGH else "Native_MC.cfg", workers=8)
    out = scratch()
    lib, why = native.build(REPO, out)
    if lib is None:
        ck.notes["not_judged"] = "rust/lib.rs does not compile against the stand-ins: " + why
        print("NOTE: rust/lib.rs does not compile against the stand-ins:", why)
        shutil.rmtree(out, ignore_errors=True)
        return ck.finish()
    sys.modules["esat_rust"] = native.module(lib)
    from esat.model.sa import SA
    from esat.model.batch_sa import BatchSA
    from esat.error.bootstrap import Bootstrap
    from esat.error.displacement import Displacement
    from esat.error.bs_disp import BSDISP

    def order(a, o):
        return None if a is None else np.array(a, order=o)

    def orders(rng):
        return [str(x) for x in rng.choice(["C", "F"], 4)]

    # ---- single iterations and iterations of whole trainings (NMF_Trace) -----------------------------------------
    steps = Recorder("P29")
    rng = np.random.default_rng([SEED, 29])

    def one(V, U, W, H, method, hold, o):
        sa = SA(V=order(V.astype(float), o[0]), U=order(U, o[1]), factors=H.shape[0], method=method)
        sa.initialize(W=order(W.astype(float), o[2]), H=order(H.astype(float), o[3]))
        sa.train(max_iter=1, converge_delta=0.1, converge_n=10, hold_h=hold, model_i=0)
        return np.asarray(sa.W, dtype=float), np.asarray(sa.H, dtype=float)

    for i in range(300 if THOROUGH else 90):
        m, n, k = int(rng.integers(2, 4)), int(rng.integers(2, 5)), int(rng.integers(1, 3))
        U = rng.choice([0.5, 1.0], size=(m, n))
        We = np.round(1 / U**2).astype(int)
        hold, o = bool(i % 2), orders(rng)
        if i % 3 < 2:
            V = rng.integers(0, 5, (m, n))
            V[0] += 1
            V[:, 0] += 1
            W, H = rng.integers(1, 4, (m, k)), rng.integers(1, 4, (k, n))

            def ls(ev):
                W1, H1 = one(V, U, W, H, "ls-nmf", hold, o)
                if np.max(np.abs(H1)) > 8 or np.max(np.abs(W1)) > 8 or np.isnan(W1).any():
                    raise Unjudged
                ev.append({"ev": "LSStep", "V": V, "We": We, "W": W, "H": H, "hold": hold,
                           "H1": fxm(H1, 2**-14), "W1": fxm(W1, 2**-14), "H1c": fxm(H1, 2**-8), "W1c": fxm(W1, 2**-8)})
            c = steps.case(f"ls-{i}", {}, ls)
        else:
            while True:
                n = max(n, 3)
                U = rng.choice([0.5, 1.0], size=(m, n))
                We = np.round(1 / U**2).astype(int)
                H = rng.integers(1, 4, (k, n))
                W0 = rng.integers(-1, 3, (m, k))
                V = W0 @ H
                if k > 1 and i % 4 == 2:       # equal profiles: the smallest of the least squares solutions
                    H, W0 = np.repeat(H[:1], k, axis=0), np.repeat(rng.integers(0, 3, (m, 1)), k, axis=1)
                    V = W0 @ H
                    if W0.any():
                        break
                if V.min() >= 0 and W0.any(axis=0).all() and (k == 1 or abs(np.linalg.det((H @ H.T).astype(float))) > 2):
                    break

            def wsh(ev):
                W1, H1 = one(V, U, np.ones((m, k)), H, "ws-nmf", hold, o)
                ev.append({"ev": "WSHStep", "V": V, "We": We, "H": H, "W0": W0, "hold": hold,
                           "W1": fxm(W1, 2**-10), "H1": fxm(H1, 2**-7)})
            c = steps.case(f"wsh-{i}", {}, wsh)
        if c["ev"] and c["ev"][-1].get("what") == "Unjudged":
            steps.cases.pop()

    def losses(V, U, W, H, alpha=4.0):
        V, U, W, H = (np.asarray(x, dtype=float) for x in (V, U, W, H))
        s = np.abs((V - W @ H) / U)
        return float((s**2).sum()), float(np.where(s > alpha, s * alpha, s**2).sum())

    def slack(V, U, W, H):
        """rounding error of a loss computed in float32 (differences of nearly equal numbers)"""
        V, U, W, H = (np.asarray(x, dtype=float) for x in (V, U, W, H))
        e = 1e-6 * (np.abs(V) + np.abs(W) @ np.abs(H)) / U
        return float((2 * np.abs((V - W @ H) / U) * e + e**2).sum())

    for i in range(60 if THOROUGH else 18):
        r = np.random.default_rng([SEED, 30, i])
        m, n, k = int(r.integers(4, 15)), int(r.integers(4, 8)), int(r.integers(1, 4))
        V = r.random((m, k)) @ r.random((k, n)) * 5 + r.random((m, n)) * 0.3
        U = V * r.uniform(0.05, 0.4, (m, n)) + 0.01
        method = "ws-nmf" if i % 3 == 2 else "ls-nmf"
        hold = i % 2 == 0
        delay = int(r.choice([-1, 1, 2, 4])) if hold else -1
        W0, H0 = r.random((m, k)) + 0.2, r.random((k, n)) + 0.2
        if method == "ls-nmf" and k > 1:
            W0[r.integers(0, m), 0] = 0.0
        o = orders(r)

        def whole(ev):
            def mk():
                sa = SA(V=order(V, o[0]), U=order(U, o[1]), factors=k, method=method, seed=i)
                sa.initialize(W=order(W0, o[2]), H=order(H0, o[3]))
                return sa
            step = mk()
            H_prev, W_prev = np.array(step.H, dtype=np.float32), np.array(step.W, dtype=np.float32)
            rows = []
            for j in range(10):
                sa = mk()
                sa.train(max_iter=j + 1, converge_delta=-1e9, converge_n=1000, hold_h=hold, delay_h=delay)
                again = True
                if delay < 0:
                    step.train(max_iter=1, converge_delta=-1e9, converge_n=1000, hold_h=hold)
                    again = bool(np.allclose(step.W, sa.W, rtol=1e-5, atol=1e-7) and np.allclose(step.H, sa.H, rtol=1e-5, atol=1e-7))
                rows.append((j, float(sa.q_list[-1]), np.array(sa.W, dtype=np.float32), np.array(sa.H, dtype=np.float32), again and len(sa.q_list) == j + 1))
            unit = max(q for _, q, *_ in rows) / 5e8
            for j, q, W, H, again in rows:
                ev.append({"ev": "It", "i": j, "q": fx(q, unit), "qtol": fx(q * 2e-5 + slack(V, U, W, H), unit) + 3,
                           "negW": bool((W < 0).any()), "negH": bool((H < 0).any()),
                           "zeros": bool((W[W0 == 0] == 0).all()),
                           "finite": bool(np.isfinite(W).all() and np.isfinite(H).all()),
                           "sameH": bool(np.array_equal(H, H_prev)), "sameW": bool(np.array_equal(W, W_prev)),
                           "again": again})
                H_prev, W_prev = H, W
        steps.case(f"train-{i}", {"ls": method == "ls-nmf", "hold": hold, "delay": delay, "moves": method == "ls-nmf" and k > 1, "movesH": method == "ws-nmf" or k > 1}, whole)

    # ---- loops and reports -------------------------------------------------------------------------------------
    def near(ev, what, a, b, rel=2e-3):
        a, b = np.atleast_2d(np.asarray(a, dtype=float)), np.atleast_2d(np.asarray(b, dtype=float))
        top = max(np.abs(b).max(), 1e-9)
        ev.append({"ev": "Same", "what": what, "a": fxm(a, top / 1e6), "b": fxm(b, top / 1e6), "tol": int(rel * 1e6)})

    def data(r, m, n, k, noise=0.2):
        V = r.random((m, k)) @ r.random((k, n)) * r.choice([1, 10]) + r.random((m, n)) * noise
        return V, V * r.uniform(0.05, 0.5, (m, n)) + 0.01

    for i in range(240 if THOROUGH else 80):
        r = np.random.default_rng([SEED, 31, i])
        m, n, k = int(r.integers(2, 25)), int(r.integers(3, 9)), int(r.integers(1, 4))
        V, U = data(r, m, n, k)
        method = "ws-nmf" if i % 4 == 3 else "ls-nmf"
        if i % 8 == 3:
            V[0, 0] = -0.1
        if i % 16 == 5:
            V[0, 0] = -0.1
        if i % 5 == 0:
            V[m // 2] *= 4          # large residuals: the robust loss is another one
        cn = int(r.choice([0, 1, 2, 5, 10, 25]))
        mi = int(r.choice([1, 2, 5, 12, 60, 150]))
        de = float(r.choice([0.0, 0.001, 0.01, 0.1, 1.0, 10.0]))
        alpha = float(r.choice([4.0, 2.0]))
        model = int(r.choice([0, 1, 5, 127, 128, 300, 70000]))
        hold = i % 5 == 4
        o = orders(r)
        cfg = {"n": cn, "delta": 0, "maxIter": mi, "tol": 3, "model": model}

        def loop(ev):
            sa = SA(V=order(V, o[0]), U=order(U, o[1]), factors=k + i % 2, method=method, seed=i)
            sa.initialize()
            V0, U0, We0, W0, H0 = (np.array(x) for x in (sa.V, sa.U, sa.We, sa.W, sa.H))
            calls = []
            res = sa.train(max_iter=mi, converge_delta=de, converge_n=cn, hold_h=hold, robust_alpha=alpha, model_i=model,
                           progress_callback=lambda *a: calls.append(a))
            q = np.array(sa.q_list, dtype=float)
            if not np.isfinite(q).all() or q.max() > 1e15:
                raise Unjudged
            unit = max(1e-4, float(q.max()) / 5e8)
            cfg["delta"] = fx(de, unit)
            for j, x in enumerate(q):
                ev.append({"ev": "Iter", "q": fx(x, unit), "last": j == len(q) - 1})
            ev.append({"ev": "End", "converged": bool(sa.converged), "steps": int(sa.converge_steps), "iters": len(q)})
            own, robust = losses(V0, U0, sa.W, sa.H, alpha)
            u2 = max(own, 1e-6) / 1e6
            ev.append({"ev": "Model", "finite": bool(np.isfinite(own)), "q": fx(q[-1], u2), "own": fx(own, u2), "qtrue": fx(sa.Qtrue, u2),
                       "qrobust": fx(sa.Qrobust, u2), "robust": fx(robust, u2), "tol": 400 + fx(slack(V0, U0, sa.W, sa.H), u2),
                       "first": fx(q[0], u2) if method == "ls-nmf" and V.min() >= 0 else LIM,
                       "wh": bool(np.allclose(sa.WH, np.asarray(sa.W, dtype=float) @ np.asarray(sa.H, dtype=float), rtol=1e-3, atol=1e-4))})
            for j, (a, b, c, d, e, f, g) in enumerate(calls):
                top = max(abs(q[b]) if 0 <= b < len(q) else 1.0, 1e-6)
                ev.append({"ev": "Call", "model": int(a), "i": int(b), "max": int(c), "q": fx(d, top / 1e6), "qr": fx(e, top / 1e6),
                           "mse": fx(f, top / 1e6), "done": bool(g), "last": j == len(calls) - 1, "tol": 400 + fx(slack(V0, U0, sa.W, sa.H), top / 1e6),
                           "qi": fx(q[b], top / 1e6) if 0 <= b < len(q) else LIM, "msei": fx(q[b] / V.size, top / 1e6) if 0 <= b < len(q) else LIM,
                           "qri": fx(robust, top / 1e6)})
            ev.append({"ev": "Fact", "what": "no-final-report", "ok": bool(calls and calls[-1][1] == len(q) - 1)})
            ev.append({"ev": "Fact", "what": "inputs-changed", "ok": bool(np.array_equal(sa.V, V0) and np.array_equal(sa.U, U0) and np.array_equal(sa.We, We0))})
            ev.append({"ev": "Fact", "what": "result-of-train", "ok": res is None and int(sa.model_i) == model and sa.metadata["max_iterations"] == mi
                       and sa.W.shape == (m, k + i % 2) and sa.H.shape == (k + i % 2, n)})
            # the Python training over the same iterations
            if len(q) <= 12:
                py = SA(V=V, U=U, factors=k + i % 2, method=method, seed=i)
                py.optimized = False
                py.initialize(W=W0.copy(), H=H0.copy())
                py.train(max_iter=len(q), converge_delta=-1e9, converge_n=10**6, hold_h=hold, robust_alpha=alpha)
                cond = np.isfinite(py.W).all() and np.isfinite(py.H).all() and np.abs(py.W).max() < 1e4 and method == "ls-nmf"
                if cond and V.min() >= 0:
                    near(ev, "W-differs-from-python", sa.W, py.W)
                    near(ev, "H-differs-from-python", sa.H, py.H)
                if len(q) and np.isfinite(py.Qtrue) and method == "ls-nmf" and V.min() >= 0:
                    near(ev, "loss-differs-from-python", [sa.Qtrue], [py.Qtrue], 5e-3)
        c = ck.rec.case(f"loop-{i}", cfg, loop)
        if c["ev"] and c["ev"][-1].get("what") == "Unjudged":
            ck.rec.cases.pop()

    # ---- one iteration of both implementations, at several scales; losses that stay exactly as they are ------------
    for i in range(60 if THOROUGH else 20):
        r = np.random.default_rng([SEED, 34, i])
        m, n, k = int(r.integers(3, 8)), int(r.integers(4, 7)), int(r.integers(1, 4))
        scale, hold = float(10.0 ** r.integers(-3, 4)), i % 4 == 3
        H = r.random((k, n)) * 0.4 + 3 * np.eye(k, n) + 0.05
        X = np.maximum(r.uniform(-0.5, 1.5, (m, k)) @ H + r.random((m, n)) * 0.2, 0.01) * scale
        U = (X * r.uniform(0.2, 0.4, (m, n)) + 0.1 * scale) * float(r.choice([1.0, 1e3]))
        method = "ls-nmf" if i % 3 == 2 else "ws-nmf"

        def both(ev):
            res = []
            for native_ in (True, False):
                sa = SA(V=X, U=U, factors=k, method=method, seed=i)
                sa.optimized = native_
                sa.initialize(W=np.ones((m, k)) * scale, H=H.copy())
                sa.train(max_iter=1, converge_n=5, hold_h=hold)
                res.append(sa)
            near(ev, "W-differs-from-python", res[0].W, res[1].W)
            near(ev, "H-differs-from-python", res[0].H, res[1].H)
        ck.rec.case(f"both-{i}", {"n": 1, "delta": 0, "maxIter": 0, "tol": 0, "model": 0}, both)

    for i in range(8):
        r = np.random.default_rng([SEED, 35, i])
        W, H = r.integers(1, 5, (5, 2)).astype(float), np.array([[1.0, 2, 0, 1], [0, 1, 3, 1]])
        cn, mi, de = int(r.integers(1, 6)), int(r.integers(2, 12)), i % 2

        def exact(ev):
            sa = SA(V=W @ H, U=np.full((5, 4), 0.5), factors=2, method=["ls-nmf", "ws-nmf"][i // 2 % 2], seed=i)
            sa.initialize(W=W.copy(), H=H.copy())
            sa.train(max_iter=mi, converge_delta=float(de) / 1000, converge_n=cn, hold_h=True)
            q = [float(x) for x in sa.q_list]
            if i // 2 % 2 == 0:
                ev.append({"ev": "Fact", "what": "solution-left", "ok": max(q) == 0})
            elif max(q) > 1e-6:
                raise Unjudged
            for j in range(len(q)):
                ev.append({"ev": "Iter", "q": 0, "last": j == len(q) - 1})
            ev.append({"ev": "End", "converged": bool(sa.converged), "steps": int(sa.converge_steps), "iters": len(q)})
        if i // 2 % 2 and not de:
            continue        # the least squares solution is exact up to rounding only
        c = ck.rec.case(f"exact-{i}", {"n": cn, "delta": de, "maxIter": mi, "tol": 0, "model": 0}, exact)
        if c["ev"] and c["ev"][-1].get("what") == "Unjudged":
            ck.rec.cases.pop()

    # ---- replaced update steps and failures ----------------------------------------------------------------------
    SCRIPT = """
def update(self, V, We, W, H, hold_h=False, **kw):
    return W + 1.0, H
"""
    for i in range(6):
        r = np.random.default_rng([SEED, 32, i])
        V, U = data(r, 8, 4, 2)

        def script(ev):
            sa = SA(V=V, U=U, factors=2, seed=i)
            sa.initialize()
            W0 = np.array(sa.W, dtype=float)
            sa.train(max_iter=3, converge_n=5, converge_delta=-1.0, update_step=SCRIPT)
            near(ev, "replaced-update-ignored", sa.W, W0 + 3.0)

        def fails(ev):
            sa = SA(V=V, U=U, factors=2, seed=i)
            sa.initialize()
            W0, H0 = np.array(sa.W), np.array(sa.H)

            def bad(*a, **k):
                raise RuntimeError("the device is lost")
            sa.optimized_update = bad
            res = sa.train(max_iter=3, converge_n=5)
            ev.append({"ev": "Fact", "what": "failure-not-reported", "ok": res is False})
            ev.append({"ev": "Fact", "what": "failure-changed-model", "ok": bool(np.array_equal(sa.W, W0) and np.array_equal(sa.H, H0) and not sa.converged)})

        def restored(ev):
            sa = SA(V=V, U=U, factors=2, seed=i, method=["ls-nmf", "ws-nmf"][i % 2])
            sa.initialize()
            sa.train(max_iter=4, converge_n=5)
            sb = pickle.loads(pickle.dumps(sa))
            sa.train(max_iter=4, converge_n=5)
            sb.train(max_iter=4, converge_n=5)
            near(ev, "restored-model-trains-differently", sb.W, sa.W, 1e-6)
        def equal(ev):      # equal profiles: a singular system, of which the smallest solution is taken
            h, w = r.integers(1, 6, 4).astype(float), r.integers(1, 9, (8, 1)) / 2.0
            X = np.repeat(w, 2, axis=1) @ np.array([h, h])
            sa = SA(V=X, U=np.full(X.shape, float(10.0 ** r.integers(-2, 3))), factors=2, method="ws-nmf", seed=i)
            sa.initialize(W=np.ones((8, 2)), H=np.array([h, h]))
            sa.train(max_iter=1, converge_n=5, hold_h=True)
            near(ev, "contributions-of-equal-profiles", sa.W, np.repeat(w, 2, axis=1))
        z = {"n": 1, "delta": 0, "maxIter": 0, "tol": 0, "model": 0}
        ck.rec.case(f"equal-{i}", dict(z), equal)
        ck.rec.case(f"script-{i}", dict(z), script)
        ck.rec.case(f"fails-{i}", dict(z), fails)
        ck.rec.case(f"restored-{i}", dict(z), restored)

    # ---- every model trained by the rest of the library -----------------------------------------------------------
    seen = []
    train = SA.train

    def spy(self, *a, **k):
        res = train(self, *a, **k)
        if self.optimized and self.q_list is not None and len(self.q_list):
            seen.append(dict(V=self.V, U=self.U, W=np.array(self.W), H=np.array(self.H), Q=self.Qtrue, R=self.Qrobust, q=np.array(self.q_list, dtype=float),
                             WH=self.WH, ls=self.method == "ls-nmf" and self.V.min() >= 0, alpha=k.get("robust_alpha", 4.0)))
        return res

    def models(ev, what, least):
        for s in seen:
            own, robust = losses(s["V"], s["U"], s["W"], s["H"], s["alpha"])
            u2 = max(own if np.isfinite(own) else 1.0, 1e-6) / 1e6
            ev.append({"ev": "Model", "finite": bool(np.isfinite(own)), "q": fx(s["q"][-1], u2), "own": fx(own, u2), "qtrue": fx(s["Q"], u2),
                       "qrobust": fx(s["R"], u2), "robust": fx(robust, u2), "tol": 1000 + fx(slack(s["V"], s["U"], s["W"], s["H"]), u2), "first": fx(s["q"][0], u2) if s["ls"] else LIM,
                       "wh": bool(np.allclose(s["WH"], s["W"] @ s["H"], rtol=1e-3, atol=1e-4))})
        ev.append({"ev": "Fact", "what": "models-trained-by-" + what, "ok": len(seen) >= least})
        seen.clear()

    for i in range(24 if THOROUGH else 8):
        r = np.random.default_rng([SEED, 33, i])
        m, n, k = int(r.integers(12, 24)), int(r.integers(4, 7)), 2
        V, U = data(r, m, n, k, 0.4)
        o = orders(r)
        method = "ws-nmf" if i % 4 == 3 else "ls-nmf"
        z = {"n": 1, "delta": 0, "maxIter": 0, "tol": 0, "model": 0}

        def pipe(ev):
            SA.train = spy
            try:
                b = BatchSA(V=order(V, o[0]), U=order(U, o[1]), factors=k, models=3, method=method, seed=i, max_iter=40, converge_delta=0.01,
                            converge_n=5, parallel=bool(i % 2), verbose=False)
                b.train()
                best = [float(x.Qtrue) for x in b.results]
                ev.append({"ev": "Fact", "what": "best-model-of-batch", "ok": b.best_model == int(np.argmin([x.Qrobust for x in b.results]))
                           or best[b.best_model] == min(best)})
                models(ev, "batch", 3)
                sa = b.results[b.best_model]
                feats = [f"f{j}" for j in range(n)]
                bs = Bootstrap(sa=sa, feature_labels=feats, model_selected=b.best_model, bootstrap_n=3, block_size=3, seed=i, parallel=bool(i % 2))
                bs.run()
                models(ev, "bootstrap", 3)
                if method == "ls-nmf":
                    d = Displacement(sa=sa, feature_labels=feats, model_selected=b.best_model, features=[0, n - 1], parallel=False)
                    d.run()
                    models(ev, "displacement", 4)
                    if i % 4 == 0:
                        x = BSDISP(sa=sa, feature_labels=feats, model_selected=b.best_model, bootstrap_n=1, block_size=3, seed=i, features=[1])
                        x.run(parallel=False)
                        models(ev, "bs-disp", 2)
            finally:
                SA.train = train
                seen.clear()
        ck.rec.case(f"library-{i}", dict(z), pipe)

    # ---- progress of batches --------------------------------------------------------------------------------------
    for i in range(18 if THOROUGH else 9):
        r = np.random.default_rng([SEED, 36, i])
        V, U = data(r, 10, 4, 2, 0.4)
        models_n, mi = int(r.integers(1, 5)), int(r.integers(1, 40))

        def progress(ev):
            calls = []
            b = BatchSA(V=V, U=U, factors=2, models=models_n, seed=i, max_iter=mi, converge_delta=0.01, converge_n=5,
                        parallel=bool(i % 3), verbose=False, cores=2, progress_callback=lambda *a: calls.append(a))
            fakepool.set_schedule(lambda n: list(range(n))[::-1] if i % 3 == 2 else list(range(n)))
            try:
                ok, why = b.train()
            finally:
                fakepool.set_schedule(lambda n: list(range(n)))
            ev.append({"ev": "Fact", "what": "batch-with-progress-fails", "ok": bool(ok)})
            ev.append({"ev": "Progress", "max": mi, "calls": [[int(a[0]), int(a[1]), int(a[2]), int(bool(a[6]))] for a in list(calls)],
                       "steps": [int(x.converge_steps) for x in b.results]})
            ev.append({"ev": "Fact", "what": "loss-of-the-report", "ok": all(abs(a[3] - b.results[a[0] - 1].q_list[a[1]]) <= 1e-4 * abs(a[3]) for a in calls)})
        ck.rec.case(f"progress-{i}", {"n": 1, "delta": 0, "maxIter": 0, "tol": 0, "model": 0}, progress)

    def negatives():
        neg = []
        def bad(c, f):
            d = copy.deepcopy(c)
            f(d["ev"])
            neg.append(d)
        for c in ck.rec.cases[::7] + [x for x in ck.rec.cases if x["id"].startswith("progress")]:
            kinds = {e["ev"]: j for j, e in enumerate(c["ev"])}
            if "End" in kinds:
                bad(c, lambda e: e[kinds["End"]].update(steps=-5))
                qs = [e["q"] for e in c["ev"] if e["ev"] == "Iter"]
                w = qs[-max(c["cfg"]["n"], 1):]
                if len(qs) < c["cfg"]["n"] or abs(w[0] - w[-1] - c["cfg"]["delta"]) > 50:
                    bad(c, lambda e: e[kinds["End"]].update(converged=not e[kinds["End"]]["converged"]))
            if "Model" in kinds and c["ev"][kinds["Model"]]["finite"]:
                bad(c, lambda e: e[kinds["Model"]].update(q=e[kinds["Model"]]["q"] + 40000))
                bad(c, lambda e: e[kinds["Model"]].update(qrobust=e[kinds["Model"]]["qrobust"] + 40000))
            if "Call" in kinds:
                bad(c, lambda e: e[kinds["Call"]].update(model=e[kinds["Call"]]["model"] + 1))
                bad(c, lambda e: e[kinds["Call"]].update(done=False))
            if "Progress" in kinds:
                bad(c, lambda e: e[kinds["Progress"]].update(calls=e[kinds["Progress"]]["calls"][:-1]))
            if "Same" in kinds:
                bad(c, lambda e: e[kinds["Same"]]["a"][0].__setitem__(0, e[kinds["Same"]]["a"][0][0] + 100000))
        return neg

    def stepneg():
        neg = []
        for c in steps.cases[::10]:
            d = copy.deepcopy(c)
            e = d["ev"][-1]
            if e["ev"] == "It":
                e["q"] = e["q"] * 2 + 10**6
                e["negH"] = True
            else:
                e["W1"][0][0] += 400
                if "W1c" in e:
                    e["W1c"][0][0] += 200
            neg.append(d)
        return neg

    ck.trace("NMF_Trace", cases=steps.cases, negatives=stepneg)
    ck.trace("Native_Trace", negatives=negatives, workers=8)
    shutil.rmtree(out, ignore_errors=True)
    return ck.finish()
