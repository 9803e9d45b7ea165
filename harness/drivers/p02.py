"""P02: one iteration is the weighted NMF update; H is held exactly when it should be."""
import copy

from harness.common import *


def run():
    setup_imports()
    import numpy as np
    from esat.model.sa import SA
    ck = Check("P02", "model_checking",
               ["single iterations are compared on integer matrices and power-of-two uncertainties",
                "loss comparisons of long trainings allow 2e-5 relative float32 noise"])
    ck.design("NMF_MC", "NMF_MC.cfg", workers=8)
    rng = np.random.default_rng(SEED)

    def one(V, U, W, H, method, hold):
        sa = SA(V=V.astype(float), U=U, factors=H.shape[0], method=method)
        sa.initialize(W=W.astype(float), H=H.astype(float))
        sa.train(max_iter=1, converge_delta=0.1, converge_n=10, hold_h=hold)
        return np.asarray(sa.W, dtype=float), np.asarray(sa.H, dtype=float)

    def u(shape):
        return rng.choice([0.5, 1.0], size=shape)

    N = 400 if THOROUGH else 150
    for i in range(N):
        m, n, k = int(rng.integers(2, 4)), int(rng.integers(2, 4)), int(rng.integers(1, 3))
        V = rng.integers(0, 5, (m, n))
        V[0] += 1
        V[:, 0] += 1
        W, H = rng.integers(1, 4, (m, k)), rng.integers(1, 4, (k, n))
        if i % 3 == 0 and k > 1:      # zeros that keep every denominator positive
            W[rng.integers(0, m), rng.integers(0, k)] = 0
        U = u((m, n))
        hold = bool(i % 2)

        def ls(ev):
            We = np.round(1 / U**2).astype(int)
            W1, H1 = one(V, U, W, H, "ls-nmf", hold)
            if np.max(np.abs(H1)) > 8 or np.max(np.abs(W1)) > 8 or np.isnan(W1).any():
                raise OverflowError
            ev.append({"ev": "LSStep", "V": V, "We": We, "W": W, "H": H, "hold": hold,
                       "H1": fxm(H1, 2**-14), "W1": fxm(W1, 2**-14), "H1c": fxm(H1, 2**-8), "W1c": fxm(W1, 2**-8)})
        c = ck.rec.case(f"ls-{i}", {}, ls)
        if c["ev"][-1].get("what") == "OverflowError":
            ck.rec.cases.pop()

    for i in range(N):
        m, n, k = int(rng.integers(2, 4)), int(rng.integers(3, 5)), int(rng.integers(1, 3))
        while True:
            H = rng.integers(1, 4, (k, n))
            if k == 1 or abs(np.linalg.det((H @ H.T).astype(float))) > 2:
                break
        U = u((m, n))
        We = np.round(1 / U**2).astype(int)
        hold = bool(i % 2)
        if i % 4 < 2:
            V = rng.integers(0, 5, (m, n))

            def ws(ev):
                W1, H1 = one(V, U, np.ones((m, k)), H, "ws-nmf", True)
                if np.max(np.abs(W1)) > 60:
                    raise OverflowError
                ev.append({"ev": "WSStep", "V": V, "We": We, "H": H, "hold": True,
                           "W1": fxm(W1, 2**-10), "H1": fxm(H1, 2**-10)})
            c = ck.rec.case(f"ws-{i}", {}, ws)
            if c["ev"][-1].get("what") == "OverflowError":
                ck.rec.cases.pop()
        else:
            while True:
                W0 = rng.integers(-1, 3, (m, k))
                if k > 1 and i % 16 == 3:      # equal profiles: the smallest of the least squares solutions
                    H, W0 = np.repeat(H[:1], k, axis=0), np.repeat(rng.integers(0, 3, (m, 1)), k, axis=1)
                V = W0 @ H
                if V.min() >= 0 and W0.any(axis=0).all():
                    break

            def wsh(ev):
                W1, H1 = one(V, U, np.ones((m, k)), H, "ws-nmf", hold)
                ev.append({"ev": "WSHStep", "V": V, "We": We, "H": H, "W0": W0, "hold": hold,
                           "W1": fxm(W1, 2**-10), "H1": fxm(H1, 2**-7)})
            ck.rec.case(f"wsh-{i}", {}, wsh)

    # whole trainings, iteration by iteration
    for i in range(60 if THOROUGH else 24):
        r = np.random.default_rng([SEED, 2, i])
        m, n, k = int(r.integers(4, 15)), int(r.integers(4, 8)), int(r.integers(1, 4))
        V = r.random((m, k)) @ r.random((k, n)) * 5 + r.random((m, n)) * 0.3
        U = V * r.uniform(0.05, 0.4, (m, n)) + 0.01
        method = "ws-nmf" if i % 3 == 2 else "ls-nmf"
        hold = i % 2 == 0
        delay = int(r.choice([-1, -1, 1, 2, 4])) if hold else -1
        W0, H0 = r.random((m, k)) + 0.2, r.random((k, n)) + 0.2
        if method == "ls-nmf" and k > 1:
            W0[r.integers(0, m), 0] = 0.0
        J = 14

        def whole(ev):
            def mk():
                sa = SA(V=V, U=U, factors=k, method=method, seed=i)
                sa.initialize(W=W0.copy(), H=H0.copy())
                return sa
            step = mk()
            H_prev, W_prev = np.array(step.H), np.array(step.W)
            base = None
            rows = []
            for j in range(J):
                sa = mk()
                sa.train(max_iter=j + 1, converge_delta=-1e9, converge_n=1000, hold_h=hold, delay_h=delay)
                # the same iterations in separate calls (only comparable without a delay)
                again = True
                if delay < 0:
                    step.train(max_iter=1, converge_delta=-1e9, converge_n=1000, hold_h=hold)
                    again = bool(np.array_equal(step.W, sa.W) and np.array_equal(step.H, sa.H))
                again = again and len(sa.q_list) == j + 1
                q = float(sa.q_list[-1])
                rows.append((j, q, np.array(sa.W), np.array(sa.H), again))
            unit = max(q for _, q, *_ in rows) / 5e8
            for j, q, W, H, again in rows:
                ev.append({"ev": "It", "i": j, "q": fx(q, unit), "qtol": fx(q * 2e-5, unit) + 3,
                           "negW": bool((W < 0).any()), "negH": bool((H < 0).any()),
                           "zeros": bool((W[W0 == 0] == 0).all()),
                           "finite": bool(np.isfinite(W).all() and np.isfinite(H).all()),
                           "sameH": bool(np.array_equal(H, H_prev)), "sameW": bool(np.array_equal(W, W_prev)),
                           "again": again})
                H_prev, W_prev = H, W
        ck.rec.case(f"train-{i}", {"ls": method == "ls-nmf", "hold": hold, "delay": delay,
                                   "moves": method == "ls-nmf" and k > 1, "movesH": method == "ws-nmf" or k > 1}, whole)

    # longer monotonicity runs over very different scales and weights
    for i in range(60 if THOROUGH else 30):
        r = np.random.default_rng([SEED, 3, i])
        m, n, k = int(r.integers(4, 30)), int(r.integers(3, 12)), int(r.integers(1, 5))
        V = 10.0**r.uniform(-2, 2, (1, n)) * (r.random((m, k)) @ r.random((k, n)) + 0.2 * r.random((m, n)))
        U = V * 10.0**r.uniform(-2, 0, (m, n)) + 1e-3

        def long(ev):
            sa = SA(V=V, U=U, factors=k, method="ls-nmf", seed=i)
            sa.initialize()
            sa.train(max_iter=80, converge_delta=-1e9, converge_n=1000)
            qs = [float(q) for q in sa.q_list]
            unit = max(qs) / 5e8
            for j, q in enumerate(qs):
                ev.append({"ev": "It", "i": j, "q": fx(q, unit), "qtol": fx(q * 2e-5, unit) + 3,
                           "negW": bool((sa.W < 0).any()), "negH": bool((sa.H < 0).any()), "zeros": True,
                           "finite": bool(np.isfinite(q)), "sameH": False, "sameW": False, "again": True})
        ck.rec.case(f"long-{i}", {"ls": True, "hold": False, "delay": -1, "moves": False, "movesH": False}, long)

    def negatives():
        neg = []
        for c in ck.rec.cases[::25]:
            d = copy.deepcopy(c)
            e = d["ev"][-1]
            if e["ev"] == "It":
                e["q"] = e["q"] * 2 + 10**6
                if not c["cfg"]["ls"]:
                    e["negH"] = True
            else:
                e["W1"][0][0] += 400
                if "W1c" in e:
                    e["W1c"][0][0] += 200
            neg.append(d)
        return neg

    ck.trace("NMF_Trace", negatives=negatives)
    return ck.finish()
