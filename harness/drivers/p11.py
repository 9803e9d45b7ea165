"""P11: BS-DISP over every number of runs and completion order, judged by spec/BSDisp_Trace.tla."""
import contextlib
import copy
import hashlib
import io
import itertools

from harness.common import *
from harness import fakepool
from harness.drivers import disp


def run():
    setup_imports()
    h = disp.helpers()
    np = h.np
    from esat.error.displacement import Displacement
    from esat.error.bootstrap import Bootstrap
    from esat.error.bs_disp import BSDISP
    ck = Check("P11", "model_checking",
               ["workers are run by a deterministic pool that completes tasks in a chosen order",
                "the displacement of every run is compared with one computed for that run alone (P09 judges displacement itself)"])
    ck.design("BSDisp", "BSDisp_MC.cfg", workers=8)

    def rows(df, labels, levels):
        out = [{"id": int(r.factor) * 1000 + labels.index(r.feature) * 10 + list(levels).index(r.dQ),
                "p": fx(r.profile, 1e-6), "pmax": fx(r.profile_max, 1e-6), "pmin": fx(r.profile_min, 1e-6),
                "c": fx(r.conc, 1e-4), "cmax": fx(r.conc_max, 1e-4), "cmin": fx(r.conc_min, 1e-4),
                "drop": min(fx(r.dQ_drop, 1e-6), -1) if r.dQ_drop < 0 else 0} for r in df.itertuples()]
        return sorted(out, key=lambda r: r["id"])

    def tab(d):
        return {"swap": np.asarray(d.swap_table).astype(int), "count": np.asarray(d.count_table).astype(int)}

    def whole(d):
        t = tab(d)
        return hashlib.sha256((disp.rows_digest(d.compiled_results) + str(t["swap"].tolist()) + str(t["count"].tolist())
                               + str((d.n_drops, d.disp_swap, d.fit_swaps))).encode()).hexdigest()

    for i in range(36 if THOROUGH else 12):
        rng = np.random.default_rng([SEED, i])
        k, n, m, R = int(rng.integers(1, 4)), int(rng.integers(2, 4)), int(rng.integers(6, 11)), [1, 2, 3, 4, 3, 2][i % 6]
        labels = [f"f{x}" for x in range(n)]
        box = {"k": k, "n": n, "R": R, "levels": [int(1000 * x) for x in BSDISP.dQmax]}

        def case(ev):
            sa = h.base(rng, m, n, k, ["ls-nmf", "ws-nmf"][i % 6 == 5], iters=int(rng.choice([2, 6, 30])), alike=i % 2 == 0)
            feats = None if i % 3 else [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
            before = h.snap(sa)
            fakepool.set_schedule(lambda q: list(rng.permutation(q)))
            given = i % 2 == 0
            bs = None
            kw = dict(bootstrap_n=R, block_size=int(rng.integers(1, 4)), seed=int(rng.integers(1000)), threshold=0.6)
            if given:
                bs = Bootstrap(sa=sa, bootstrap_n=R, block_size=kw["block_size"], seed=kw["seed"], feature_labels=labels)
                bs.run()

            def make(parallel):
                b = BSDISP(sa=sa, feature_labels=labels, features=feats, bootstrap=copy.deepcopy(bs) if given else None, **kw)
                with contextlib.redirect_stdout(io.StringIO()), single_core(i % 2 == 1):
                    b.run(parallel=parallel)
                return b
            ref = make(False)
            for key in sorted(ref.disp_results):
                d = ref.disp_results[key]
                one = Displacement(sa=ref.bootstrap.bs_results[key]["model"], feature_labels=labels, features=feats, parallel=False)
                one.dQmax = BSDISP.dQmax
                one.run()
                ev.append({"ev": "Run", "key": int(key), "dig": disp.fields(d), "digRe": disp.fields(one),
                           "rows": rows(one.compiled_results, labels, BSDISP.dQmax), **tab(one)})

            def compiled(b):
                ev.append({"ev": "Compiled", "rows": rows(b.compiled_results, labels, BSDISP.dQmax), **tab(b),
                           "drops": int(b.n_drops), "swaps": int(b.disp_swap), "fit": int(b.fit_swaps),
                           "map": [int(b.bootstrap.mapping_df[f"Base Factor {f + 1}"][f]) for f in range(k)]})
                h.shown.clear()
                b.summary()
                ev.append({"ev": "Shown", "rows": h.figure_rows(h.shown[-1], k)})
            compiled(ref)
            for f in range(0, k + 2):
                ref.plot_results(factor=f, dQ=float(rng.choice([0.5, 1, 2, 4, 3])))
            compiled(ref)
            orders = list(itertools.permutations(range(R)))
            if R > 3 and not THOROUGH:
                orders = [orders[x] for x in rng.permutation(len(orders))[:8]] + [orders[-1]]
            for o in orders:
                # run order of the displacement stage only; a bootstrap made here keeps submission order
                calls = []

                def sched(q):
                    calls.append(q)
                    return list(o) if q == R and (given or len(calls) > 1) else list(range(q))
                fakepool.set_schedule(sched)
                p = make(True)
                ev.append({"ev": "Sched", "dig": whole(p), "ref": whole(ref),
                           "runs": [[int(a), disp.fields(p.disp_results[a])] for a in sorted(p.disp_results)],
                           "refRuns": [[int(a), disp.fields(ref.disp_results[a])] for a in sorted(ref.disp_results)]})
            compiled(p)
            if i % 4 == 2:
                with contextlib.redirect_stdout(io.StringIO()):
                    p.run(parallel=True)
                compiled(p)
            ev.append({"ev": "Base", "before": before, "after": h.snap(sa)})
        ck.rec.case(f"bsdisp-{i}", box, case)

    def negatives():
        neg = []
        for n, c in enumerate(ck.rec.cases):
            c = copy.deepcopy(c)
            e = next(e for e in c["ev"] if e["ev"] == "Compiled")
            x = e["rows"][n % len(e["rows"])]
            [lambda: x.update(pmax=x["pmax"] + 1), lambda: e.update(drops=e["drops"] + 1),
             lambda: x.update(p=x["p"] + 40), lambda: x.update(pmin=x["pmin"] - 1)][n % 4]()
            neg.append(c)
        return neg
    ck.trace("BSDisp_Trace", negatives=negatives)
    return ck.finish()
