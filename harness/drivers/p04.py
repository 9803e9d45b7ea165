"""P04: losses, per-factor losses and the final bookkeeping of a trained model, against the exact
arithmetic of spec/Loss.tla."""
import copy

from harness.common import *

SCRIPT = """
def update(self, V, We, W, H, hold_h=False, **kw):
    W2, H2 = self.verif_script[min(self.verif_pos, len(self.verif_script) - 1)]
    self.verif_pos += 1
    return W2, H2
"""


def run():
    setup_imports()
    import numpy as np
    from esat.metrics import q_loss, qr_loss, q_factor, calculate_Q
    from esat.model.sa import SA
    ck = Check("P04", "model_checking",
               ["V, W, H are small integers and uncertainties powers of two, so the expected losses are exact",
                "real trainings are compared with float64 recomputation of every cell in fixed point"])
    ck.design("Loss", "Loss_MC.cfg")
    UNIT = 1 / 160

    def inst(rng, neg=False):
        m, n, k = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
        W = rng.integers(0, 3, (m, k)) if not neg else rng.integers(-2, 3, (m, k))
        H = rng.integers(0, 3, (k, n))
        if not neg:
            W[:, 0] += 1
            H[0] += 1
        V = np.maximum(W @ H + rng.integers(-9, 10, (m, n)) * (rng.random((m, n)) < 0.7), -2 if neg else 0)
        E = rng.integers(-2, 3, (m, n))
        return V, E, W, H

    for i in range(3000 if THOROUGH else 600):
        rng = np.random.default_rng([SEED, i])
        neg = i % 4 == 3
        V, E, W, H = inst(rng, neg)
        dt = np.float32 if i % 3 == 2 else float
        alphas = sorted(set(int(a) for a in rng.choice([1, 2, 4, 8, 12, 16, 20, 28], 4))) + [16]

        def metric(ev):
            a = [x.astype(dt) for x in (V, 2.0 ** E, W, H)]
            before = [x.tobytes() for x in a]
            q = q_loss(V=a[0], U=a[1], W=a[2], H=a[3])
            plain = q_loss(a[0], a[1], a[2], a[3], uncertainty=False)
            calcq = calculate_Q(a[0] - a[2] @ a[3], a[1])
            rob = [qr_loss(V=a[0], U=a[1], W=a[2], H=a[3], alpha=x / 4) for x in alphas[:-1]]
            rob.append(qr_loss(V=a[0], U=a[1], W=a[2], H=a[3]))
            qf = q_factor(V=a[0], U=a[1], W=a[2], H=a[3]) if not neg else []
            ev.append({"ev": "Metric", "V": V, "E": E, "W": W, "H": H, "q": fx(q, UNIT), "plain": fx(plain, UNIT),
                       "calcq": fx(calcq, UNIT), "alphas": alphas, "qr": [fx(r[0], UNIT) for r in rob],
                       "up": [fxm((np.asarray(r[1], dtype=float) / 2.0 ** E) ** 2, 1e-4) for r in rob],
                       "changed": before != [x.tobytes() for x in a], "pos": not neg,
                       "qf": [fx(x, UNIT) for x in qf]})
        ck.rec.case(f"metric-{i}", {}, metric)

    for i in range(800 if THOROUGH else 250):
        rng = np.random.default_rng([SEED, 5, i])
        V, E, W, H = inst(rng, i % 4 == 3)
        m, n, k = V.shape[0], V.shape[1], H.shape[0]
        steps = int(rng.integers(1, 6))
        a4 = int(rng.choice([4, 8, 16, 20]))
        kind = i % 3     # 0: stops at max_iter, 1: stops by convergence, 2: trained twice

        def model(ev):
            sa = SA(V=V.astype(float), U=2.0 ** E, factors=k, method="ws-nmf", seed=i)
            sa.initialize(W=np.ones((m, k)), H=np.ones((k, n)))
            mk = lambda: (rng.integers(0, 3, (m, k)).astype(float), rng.integers(0, 3, (k, n)).astype(float))
            last = (W.astype(float), H.astype(float))
            if kind == 2:
                sa.verif_script, sa.verif_pos = [mk()], 0
                sa.train(max_iter=2, update_step=SCRIPT, robust_alpha=2.0, model_i=9)
            if kind == 1:
                sa.verif_script, sa.verif_pos = [mk() for _ in range(steps)] + [last], 0
                par = dict(max_iter=steps + 40, converge_delta=0.001, converge_n=12, model_i=int(rng.integers(1, 9)))
            else:
                sa.verif_script, sa.verif_pos = [mk() for _ in range(steps - 1)] + [last], 0
                par = dict(max_iter=steps, converge_delta=float(rng.choice([0.5, 0.25])), converge_n=100, model_i=int(rng.integers(1, 9)))
            if a4 != 16:
                par["robust_alpha"] = a4 / 4
            sa.train(update_step=SCRIPT, **par)
            md = sa.metadata
            ev.append({"ev": "Model", "V": V, "E": E, "W": W, "H": H, "alpha": a4,
                       "gotW": np.asarray(sa.W).astype(int), "gotH": np.asarray(sa.H).astype(int),
                       "WH": [[int(x) if float(x).is_integer() else 8888 for x in r] for r in sa.WH],
                       "q": fx(sa.Qtrue, UNIT), "qr": fx(sa.Qrobust, UNIT),
                       "qlast": fx(sa.q_list[-1], UNIT),
                       "meta": [md["max_iterations"], fx(md["converge_delta"], 0.0005), md["converge_n"],
                                md["model_i"], sa.model_i, md["samples"], md["features"], md["factors"]],
                       "given": [par["max_iter"], fx(par["converge_delta"], 0.0005), par["converge_n"],
                                 par["model_i"], par["model_i"], m, n, k]})
        ck.rec.case(f"model-{i}", {}, model)

    for i in range(120 if THOROUGH else 40):
        rng = np.random.default_rng([SEED, 9, i])
        m, n, k = int(rng.integers(3, 12)), int(rng.integers(3, 7)), int(rng.integers(1, 4))

        def real(ev):
            V = rng.random((m, k)) @ rng.random((k, n)) * 5 + rng.random((m, n))
            U = V * rng.uniform(0.02, 0.4, (m, n)) + 0.01
            method = ["ls-nmf", "ws-nmf"][i % 2]
            alpha = float(rng.choice([1.0, 2.0, 4.0]))
            par = dict(max_iter=int(rng.integers(1, 30)), converge_delta=0.125, converge_n=int(rng.integers(1, 10)),
                       model_i=int(rng.integers(1, 50)))
            sa = SA(V=V, U=U, factors=k, method=method, seed=i)
            sa.initialize()
            before = (sa.V.tobytes(), sa.U.tobytes(), sa.We.tobytes())
            sa.train(robust_alpha=alpha, hold_h=bool(i % 3 == 2), **par)
            W, H, Vd, Ud = (np.asarray(x, dtype=float) for x in (sa.W, sa.H, sa.V, sa.U))
            prod = W @ H
            s = np.abs(Vd - prod) / Ud
            unit = max(1e-6, float((s ** 2).sum()) / 5e8)
            wu = max(1e-6, float(np.abs(prod).max()) / 5e8)
            md = sa.metadata
            ev.append({"ev": "Real", "wh": fxm(sa.WH, wu), "prod": fxm(prod, wu), "q": fx(sa.Qtrue, unit),
                       "qr": fx(sa.Qrobust, unit), "qlast": fx(sa.q_list[-1], unit),
                       "cells": [fx(x, unit) for x in (s ** 2).ravel()],
                       "rob": [fx(x, unit) for x in (s * alpha).ravel()],
                       "big": [bool(x > alpha) for x in s.ravel()],
                       "meta": [md["max_iterations"], fx(md["converge_delta"], 0.0005), md["converge_n"], md["model_i"],
                                sa.model_i, md["method"]],
                       "given": [par["max_iter"], 250, par["converge_n"], par["model_i"], par["model_i"], method],
                       "dataChanged": before != (sa.V.tobytes(), sa.U.tobytes(), sa.We.tobytes())})
            with captured("esat.model.sa") as got:
                sa.summary()
            text = "\t".join(got)
            r4 = lambda x: fx(float(f"{float(x):.4f}"), 1e-3)
            num = lambda k: fx(float(labelled(text, k) or "nan"), 1e-3)
            ev.append({"ev": "Summary",
                       "words": [str(labelled(text, k)) for k in ("Method", "Factors", "Number of Features",
                                 "Number of Samples", "Random Seed", "Converged", "Converge Steps")],
                       "nums": [num(k) for k in ("Q(true)", "Q(robust)", "MSE(true)", "MSE(robust)")],
                       "wantWords": [method, str(k), str(n), str(m), str(i), str(sa.converged), str(sa.converge_steps)],
                       "wantNums": [r4(sa.Qtrue), r4(sa.Qrobust), r4(sa.Qtrue / (m * n)), r4(sa.Qrobust / (m * n))]})
        ck.rec.case(f"real-{i}", {}, real)

    def negatives():
        neg = []
        for n, c in enumerate(ck.rec.cases[::23]):
            c = copy.deepcopy(c)
            e = c["ev"][-1]
            if e["ev"] == "Crash":
                continue
            if e["ev"] == "Summary":
                e["nums"][n % 4] += 7
                neg.append(c)
                continue
            for key in (["q", "qr", "plain"] if e["ev"] == "Metric" else ["q", "qr", "qlast"])[n % 3:n % 3 + 1]:
                if isinstance(e[key], list):
                    e[key][0] += 200 + e[key][0] // 100
                else:
                    e[key] += 200 + e[key] // 100
            neg.append(c)
        return neg

    ck.trace("Loss_Trace", negatives=negatives)
    return ck.finish()
