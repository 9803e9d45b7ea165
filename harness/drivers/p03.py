"""P03: the training loop stops by the convergence rule.
Behaviours of spec/Train.tla are replayed in the real loop through a scripted update step (the loop
then sees exactly the losses TLC chose); real trainings are recorded and checked too."""
import copy
import itertools
import random

from harness.common import *

NANQ = -2147483647
SCRIPT = """
def update(self, V, We, W, H, hold_h=False, **kw):
    W2, H2 = self.verif_script[self.verif_pos]
    self.verif_pos += 1
    return W2, H2
"""


def run():
    setup_imports()
    import numpy as np
    from esat.model.sa import SA
    rnd = random.Random(SEED)
    ck = Check("P03", "model_checking",
               ["the loop sees scripted W,H through the public update_step argument",
                "losses of real trainings are logged in units of 1e-4 or finer than 2e-9 of the largest loss"])
    ck.design("Train", "Train_MC.cfg")

    four = {}
    for a, b, c, d in itertools.product(range(4), repeat=4):
        four.setdefault(a * a + b * b + c * c + d * d, (a, b, c, d))

    def wh(q):
        W = np.full((4, 4), 8.0)
        for i, r in enumerate(four[0 if q == NANQ else q]):
            W[i, i] -= r
        if q == NANQ:
            W[0, 0] = np.nan
        return W, np.eye(4)

    def log(ev, sa, unit, max_iter):
        qs = list(sa.q_list)
        for i, q in enumerate(qs):
            bad = bool(np.isnan(q))
            ev.append({"ev": "Iter", "q": 0 if bad else fx(q, unit), "nan": bad, "last": i == len(qs) - 1})
        ev.append({"ev": "End", "converged": bool(sa.converged), "steps": int(sa.converge_steps), "iters": len(qs)})

    def scripted(ev, sa, qs, b, model_i=1):
        # after the scripted losses the script repeats the last one, so a loop that does not
        # stop when it should still runs and is seen to
        seq = [wh(q) for q in qs]
        sa.verif_script = seq + [seq[-1]] * (b["maxIter"] + 3)
        sa.verif_pos = 0
        sa.train(max_iter=b["maxIter"], converge_delta=b["delta"], converge_n=b["n"], update_step=SCRIPT,
                 model_i=model_i)
        log(ev, sa, 1.0, b["maxIter"])

    def fresh():
        sa = SA(V=np.full((4, 4), 8.0), U=np.ones((4, 4)), factors=4)
        sa.initialize(W=np.ones((4, 4)), H=np.ones((4, 4)))
        return sa

    beh, s = tlc_behaviours("Train_Gen", "Train_GenT.cfg" if THOROUGH else "Train_Gen.cfg")
    ck.models.append({"model": "Train_Gen", **s, "behaviours": len(beh)})
    for i, b in enumerate(beh):
        cfg = {"n": b["n"], "delta": b["delta"], "maxIter": b["maxIter"], "tol": 0}
        ck.rec.case(f"replay-{i}", cfg, lambda ev: scripted(ev, fresh(), b["q"], b))
    # a second training of the same object starts from fresh bookkeeping
    for i in range(400 if THOROUGH else 120):
        b0, b1 = rnd.choice(beh), rnd.choice(beh)
        cfg = {"n": b1["n"], "delta": b1["delta"], "maxIter": b1["maxIter"], "tol": 0}

        def again(ev):
            sa = fresh()
            scripted([], sa, b0["q"], b0)
            scripted(ev, sa, b1["q"], b1, model_i=2)
        ck.rec.case(f"retrain-{i}", cfg, again)

    # recorded real trainings
    for i in range(160 if THOROUGH else 60):
        rng = np.random.default_rng([SEED, i])
        m, n, k = int(rng.integers(3, 25)), int(rng.integers(3, 9)), int(rng.integers(1, 4))
        V = rng.random((m, k)) @ rng.random((k, n)) * rng.choice([1, 10]) + rng.random((m, n)) * 0.2
        U = V * rng.uniform(0.05, 0.5, (m, n)) + 0.01
        method = "ws-nmf" if i % 4 == 3 else "ls-nmf"
        cn = int(rng.choice([1, 2, 5, 10, 25]))
        mi = int(rng.choice([1, 2, 5, 12, 60, 150]))
        de = float(rng.choice([0.0, 0.001, 0.01, 0.1, 1.0, 10.0]))
        cfg = {"n": cn, "delta": 0, "maxIter": mi, "tol": 3}

        def real(ev):
            sa = SA(V=V, U=U, factors=k + i % 2, method=method, seed=i)
            sa.initialize()
            sa.train(max_iter=mi, converge_delta=de, converge_n=cn, hold_h=(i % 5 == 4))
            fin = [float(q) for q in sa.q_list if not np.isnan(q)]
            if fin and max(fin) > 1e15:        # unrepresentable difference of losses: not judged
                raise OverflowError
            unit = max(1e-4, max(fin, default=1.0) / 5e8)
            cfg["delta"] = fx(de, unit)
            log(ev, sa, unit, mi)
        c = ck.rec.case(f"real-{i}", cfg, real)
        if c["ev"] and c["ev"][-1].get("what") == "OverflowError":
            ck.rec.cases.pop()

    def corrupt(c, f):
        c = copy.deepcopy(c)
        f(c)
        return c
    def negatives():
        neg = []
        for c in ck.rec.cases[:200:20]:
            neg.append(corrupt(c, lambda c: c["ev"][-1].update(steps=c["ev"][-1].get("steps", 0) + 1)))
            neg.append(corrupt(c, lambda c: c["ev"][-1].update(converged=not c["ev"][-1].get("converged", 0))))
        for c in ck.rec.cases[5:205:20]:
            if len(c["ev"]) > 2:
                neg.append(corrupt(c, lambda c: c["ev"].pop(-2)))
        return neg

    ck.trace("Train_Trace", negatives=negatives)
    return ck.finish()
