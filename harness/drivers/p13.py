"""P13: constrained trainings, every iteration recorded and judged by spec/Constrained_Trace.tla."""
import copy
import re as _re
import types

from harness.common import *
from harness.drivers import disp

TYPES = ["set to zero", "set to base value", "define limits", "pull down", "pull up", "pull to value"]


def run():
    setup_imports()
    h = disp.helpers()
    np = h.np
    import pandas as pd
    from scipy import optimize
    from esat.rotational.constrained import ConstrainedModel
    ck = Check("P13", "model_checking",
               ["an element occurs at most once in an expression",
                "pulls are exercised on values that are not negative"])
    ck.design("Constrained", "Constrained_MC.cfg", workers=8)
    ck.design("Express", "Express_MCT.cfg" if THOROUGH else "Express_MC.cfg", workers=8)

    def Qt(sa, W, H):
        return float(np.sum(np.square((np.asarray(sa.V, float) - W @ H) / np.asarray(sa.U, float))))

    def Qr(sa, W, H):
        r = (np.asarray(sa.V, float) - W @ H) / np.asarray(sa.U, float)
        a = np.abs(r)
        w = np.where(a > 4.0, np.sqrt(np.where(a > 4.0, a, 1.0) / 4.0), 1.0)
        return float(np.sum(np.square(r / w)))

    def rel(x, re, floor=1e-12):
        u = max(abs(re) * 1e-6, floor)
        return fx(x, u), fx(re, u)

    def elem(sa, c, cur, giv):
        """The record of constraint c in one iteration; cur, giv = (W, H) before and after the moves."""
        side = 1 if c.target == "feature" else 0
        ix = tuple(c.index)
        bv = (sa.W, sa.H)[side][ix]
        cv, gv = float(cur[side][ix]), float(giv[side][ix])
        t = c.constraint_type
        a1 = a2 = 0.0
        e = {"type": t, "dq": 0, "dqT": 0, "lim": 0, "tol": 0, "band": 0, "huge": False}
        if t == "define limits":
            a1, a2 = c.target_values
        if t == "pull to value":
            a1 = c.target_values[0]
        u = 1e-6 * max(abs(x) for x in (cv, gv, bv, a1, a2, 0.01))   # values below 1e-8 count as zero
        e.update(cur=fx(cv, u), given=fx(gv, u), base=fx(bv, u), a1=fx(a1, u), a2=fx(a2, u))
        if t.startswith("pull"):
            lim = c.target_values if t != "pull to value" else c.target_values[1]

            def dq(v):
                M = [cur[0].copy(), cur[1].copy()]
                M[side][ix] = v
                return abs(Qt(sa, *M) - q0)
            q0 = Qt(sa, *cur)
            g = dq(gv)
            span = 1e-7 * max(abs(gv), abs(cv), abs(a1)) + 2e-8
            slack = max(dq(gv + span), dq(max(gv - span, 0))) - g
            un = max(lim, 1.0) * 1e-6
            if 1e-5 * q0 > max(lim, 1e-3):      # the change of the loss is below its rounding error
                g, slack = lim, 0.0
                e["huge"] = True
            e.update(dq=fx(g, un), dqT=fx(dq(a1) if not e["huge"] else 10 * lim + 1, un), lim=fx(lim, un), band=fx(100.0, un),
                     tol=min(LIM // 4, 3 + fx(abs(slack) + 2e-6 * q0, un)))
            if t == "pull up":
                e["huge"] = e["huge"] or all(dq(cv * 2.0 ** j) < lim * (1 + 1e-9) + 1e-9 for j in range(1, 30))
        return e

    NOEXPR = {"n": 0, "moved": 0, "rise": 0, "lim": 0, "tol": 0, "res0": 0, "res1": 0, "best": 0, "more": 0, "least": 0}

    def expression(sa, base, cur, giv, cells, rows, lim, soft):
        """What the expressions did in one iteration: their residuals before and after the move, the smallest residual
        any positive values give, and the change of the loss after the move and after a slightly larger one."""
        order = sorted(cells)
        A = np.array([[r.get(c, 0.0) for c in order] for r in rows])
        v0 = np.array([cur[z][a, b] for z, a, b in order], float)
        v1 = np.array([giv[z][a, b] for z, a, b in order], float)
        best = optimize.lsq_linear(A, np.zeros(len(rows)), bounds=(1e-8, np.inf), method='bvls')
        scale = max(np.abs(A @ v0).max(), 1e-3 * np.abs(A).max() * max(np.abs(v0).max(), 1e-6))

        def rise(vals):
            M = [np.array(cur[0]), np.array(cur[1])]
            for (z, a, b), v in zip(order, vals):
                M[z][a, b] = v
            aux = sum(float(np.sum(np.square(base[z] + (M[z] - cur[z]) - M[z]))) for z in (0, 1)) / soft ** 2
            return Qt(sa, *M) + aux - Qt(sa, *base)
        d = v1 - v0
        now, more = rise(v1), rise(v0 + d / 0.979)
        # the smallest change that solves all expressions, when no bound is in its way
        full = -np.linalg.pinv(A) @ (A @ v0)
        least = rise(v0 + 0.98 ** 98 * full) if (v0 + full > 2e-8).all() else np.inf
        u = max(abs(now), lim, 1e-9) * 1e-6
        norm = lambda r: fx(float(np.linalg.norm(r)), scale * 1e-5)
        return {"n": len(cells), "moved": int(np.count_nonzero(d)), "rise": fx(now, u), "lim": fx(lim, u), "tol": 20,
                "res0": norm(A @ v0), "res1": norm(A @ v1), "best": norm(A @ best.x), "more": fx(more, u), "least": fx(least, u)}

    for i in range(600 if THOROUGH else 100):
        rng = np.random.default_rng([SEED, 13, i])
        method = "ws-nmf" if i % 4 == 3 else "ls-nmf"
        k, n, m = int(rng.integers(2, 4)), int(rng.integers(4, 7)), int(rng.integers(6, 13))
        mode = ["con", "con", "exp", "both", "con"][i % 5]
        cn = int(rng.choice([1, 2, 5, 10]))
        mx = int(rng.choice([1, 3, 12, 60]))
        delta = float(rng.choice([1e-2, 1.0, 50.0]))
        soft = float(rng.choice([1.0, 0.5, 3.0]))
        cfg = {"n": cn, "max": mx, "method": method, "k": k}

        def case(ev):
            sa = h.base(rng, m, n, k, method, iters=int(rng.choice([3, 20, 60])), tight=float(rng.choice([1.0, 0.2])))
            W0, H0 = np.array(sa.W, float), np.array(sa.H, float)
            data = disp.digest(np, np.asarray(sa.V), np.asarray(sa.U))
            before = h.snap(sa)
            steps, orig = [], sa.update_step

            def spy(*a, **kw):
                names = dict(zip(("V", "We", "W", "H"), a))
                names.update(kw)
                rec = {"W": np.array(names["W"], float), "H": np.array(names["H"], float)}
                out = orig(*a, **kw)
                rec["outW"], rec["outH"] = np.array(out[0], float), np.array(out[1], float)
                steps.append(rec)
                return out
            sa.update_step = spy
            dh = types.SimpleNamespace(
                features=[f"f{x}" for x in range(n)],
                input_data=pd.DataFrame(np.asarray(sa.V), columns=[f"f{x}" for x in range(n)],
                                        index=pd.date_range("2020-01-01", periods=m, freq="D")))
            cm = ConstrainedModel(base_model=sa, data_handler=dh, softness=soft)
            if i % 11 == 0:
                cm.train(max_iterations=3)
                ev.append({"ev": "Nothing", "trained": bool(steps) or cm.constrained_model is not None})
            used, zeroed = set(), []
            count = int(rng.integers(1, 5)) if mode != "exp" else 0
            first = rng.permutation(6)
            for q in range(count):
                t = TYPES[first[q]] if q < 6 else str(rng.choice(TYPES))
                side = int(rng.integers(2))
                if method == "ws-nmf" and t.startswith("pull"):
                    side = 1
                if method == "ws-nmf" and t == "define limits" and side == 0:
                    side = 1
                ix = (int(rng.integers(k)), int(rng.integers(n))) if side else (int(rng.integers(m)), int(rng.integers(k)))
                if (side, *ix) in used:
                    continue
                if t == "set to zero" or t == "pull to value":
                    # an element of every row and column stays positive: 0/0 otherwise
                    if any(z == side and (a == ix[0] or b == ix[1]) for z, a, b in zeroed):
                        continue
                    zeroed.append((side, *ix))
                used.add((side, *ix))
                bv = float((W0, H0)[side][ix])
                kw = {}
                if t in ("pull down", "pull up"):
                    kw["dQ"] = float(rng.choice([0.0, 0.5, 5, 50, 150, 400]))
                elif t == "pull to value":
                    kw["target_value"] = max(0.0, bv) * float(rng.choice([0, 0.3, 1, 1.5, 6])) + float(rng.choice([0, 0.05]))
                    kw["dQ"] = float(rng.choice([0.5, 5, 50, 150, 400]))
                elif t == "define limits":
                    lo = max(bv, 0) * float(rng.choice([0.2, 0.8, 1.2, 2]))
                    kw["min_value"], kw["max_value"] = lo, lo * float(rng.choice([1.0, 1.3, 3])) + 1e-3
                assert cm.add_constraint(constraint_type=t, index=ix, target="feature" if side else "sample", **kw)
            ecells, lim, rows = set(), 0.0, []
            if mode != "con":
                for q in range(int(rng.integers(1, 4))):
                    terms, row = [], {}
                    size = 3 if q == 2 else 2
                    while len(terms) < size:
                        side = int(rng.integers(2)) if method == "ls-nmf" else 1
                        f, j = int(rng.integers(k)), int(rng.integers(n if side else m))
                        key = (1, f, j) if side else (0, j, f)
                        if q == 2 and not terms:        # an element of an earlier expression, with another coefficient
                            key = sorted(ecells)[int(rng.integers(len(ecells)))]
                            side, f, j = (1, key[1], key[2]) if key[0] else (0, key[2], key[1])
                        if key not in used and (key not in ecells or q == 2) and key not in row:
                            sign = -1.0 if terms and int(rng.integers(3)) else 1.0
                            coef = float(rng.choice([0.5, 1, 2.5]))
                            row[key] = sign * coef
                            terms.append(("" if not terms else "-" if sign < 0 else "+") +
                                         f"({coef}*[factor:{f}|{'feature' if side else 'sample'}:{j}])")
                    ecells.update(row)
                    rows.append(row)
                    d = float(rng.choice([1, 50, 250, 5000]))
                    lim += d
                    cm.add_expression(f"{''.join(terms)}=0,{d}")
            cm.train(max_iterations=mx, converge_delta=delta, converge_n=cn)
            for s in steps:
                if np.isfinite(s["W"]).all() and np.isfinite(s["H"]).all() and not (np.isfinite(s["outW"]).all() and np.isfinite(s["outH"]).all()):
                    wh = np.abs(s["W"] @ s["H"])
                    if min(wh.max(axis=0).min(), wh.max(axis=1).min(), np.abs(s["outW"] @ s["H"]).max(axis=0).min()) < 1e-9:
                        ev.clear()          # a whole row or column of the reconstruction is zero: 0/0
                        return
            free = [np.ones_like(W0, bool), np.ones_like(H0, bool)]
            for c in list(used) + list(ecells):
                free[c[0]][c[1], c[2]] = False
            cur = (W0, H0)
            qt, qr, qa, zero_free = [], [], [], True
            for s in steps:
                giv = (s["W"], s["H"])
                others = 0
                for side in (0, 1):
                    if free[side].any():
                        u = 1e-9 * max(np.abs(cur[side]).max(), 1e-100)
                        others = max(others, fx(np.abs(giv[side] - cur[side])[free[side]].max(), u))
                x = dict(NOEXPR)
                if ecells:
                    x = expression(sa, (W0, H0), cur, giv, ecells, rows, lim, soft)
                ev.append({"ev": "Iter", "el": [elem(sa, c, cur, giv) for c in cm.constraints.values()], "others": others, "expr": x})
                cur = (s["outW"], s["outH"])
                qt.append(Qt(sa, *cur))
                qr.append(Qr(sa, *cur))
                # W_base + D - W_out, with D what was added to the current values
                prev = (W0, H0) if len(qt) == 1 else (steps[len(qt) - 2]["outW"], steps[len(qt) - 2]["outH"])
                qa.append(sum(float(np.sum(np.square((W0, H0)[z] + (giv[z] - prev[z]) - cur[z]))) for z in (0, 1)) / soft ** 2)
            e = {"ev": "Loss"}
            big = max(float(np.abs(cur[0]).max()), float(np.abs(cur[1]).max()), 1.0) ** 2
            for key, mine, his in (("qt", qt, cm.Q_list[0]), ("qr", qr, cm.Q_list[1]), ("qa", qa, cm.Q_list[2])):
                fl = max(1e-9, 1e-12 * big) if key != "qa" else 1e-11 * big / soft ** 2
                e[key] = [rel(float(a), b, fl)[0] for a, b in zip(his, mine)] + [0] * (len(his) - len(mine))
                e[key + "Re"] = [rel(0, b, fl)[1] for b in mine]
            ev.append(e)
            c = cm.constrained_model
            main = np.asarray(qt) + np.asarray(qa)
            R = [fx(float(np.ptp(main[max(0, t + 1 - cn):t + 1])), delta * 1e-6) for t in range(len(main))]
            fW, fH = np.asarray(c.W, float), np.asarray(c.H, float)
            wh = fW @ fH
            z = []
            for q in cm.constraints.values():
                if q.constraint_type == "set to zero" and (q.target == "feature" or method == "ls-nmf"):
                    z.append(fx(abs(float((fH if q.target == "feature" else fW)[tuple(q.index)])), 1e-9))
            qt1, qr1 = rel(float(c.Qtrue), Qt(sa, fW, fH), max(1e-9, 1e-12 * big)), rel(float(c.Qrobust), Qr(sa, fW, fH), max(1e-9, 1e-12 * big))
            ev.append({"ev": "Stop", "rng": R, "converged": bool(c.converged), "steps": int(c.converge_steps),
                       "finalW": disp.digest(np, fW), "lastW": disp.digest(np, cur[0]),
                       "finalHDiff": fx(np.abs(fH - cur[1]).max(), 1e-9),
                       "whDiff": fx(np.abs(np.asarray(c.WH, float) - wh).max(), 1e-9 * max(np.abs(wh).max(), 1e-9)),
                       "qt": qt1[0], "qtRe": qt1[1], "qr": qr1[0], "qrRe": qr1[1], "zeros": z, "method": c.method,
                       "factors": int(c.factors), "data": disp.digest(np, np.asarray(c.V), np.asarray(c.U)), "baseData": data})
            views(ev, cm, sa, qt, qr, qa)
            ev.append({"ev": "Base", "before": before, "after": h.snap(sa)})

        def views(ev, cm, sa, qt, qr, qa):
            def view(what, shown, want, tol=1):
                ev.append({"ev": "View", "what": what, "shown": shown, "want": want, "tol": tol})
            main = [a + b for a, b in zip(qt, qa)]
            u = max(max(main), max(qr), 1e-9) * 1e-6
            for what, mine in (("true", qt), ("robust", qr), ("aux", qa), ("main", main)):
                h.shown.clear()
                cm.plot_Q(what)
                d = h.shown[-1].data[0]
                view("Q-" + what, fxm(np.asarray(d.y, float), u) + [int(x) for x in d.x], fxm(mine, u) + list(range(len(mine))), 20)
            c = cm.constrained_model
            if cm.constraints:
                h.shown.clear()
                cm.evaluate_constraints()
                cols = dict(zip(h.shown[-1].data[0].header["values"], h.shown[-1].data[0].cells["values"]))
                shown, want = [], []
                for r, q in enumerate(cm.constraints.values()):
                    b = (sa.H if q.target == "feature" else sa.W)[tuple(q.index)]
                    s = (c.H if q.target == "feature" else c.W)[tuple(q.index)]
                    shown += [int(x) for x in cols["Index"][r]] + [["sample", "feature"].index(cols["Target"][r]),
                              TYPES.index(cols["Type"][r]), fx(cols["Base Value"][r], 1e-4), fx(cols["Solution Value"][r], 1e-4)]
                    want += [int(x) for x in q.index] + [int(q.target == "feature"), TYPES.index(q.constraint_type), fx(b, 1e-4), fx(s, 1e-4)]
                    if q.constraint_type.startswith("pull"):
                        shown.append(fx(cols["dQ"][r], 1e-4))
                        want.append(fx(q.target_values if q.constraint_type != "pull to value" else q.target_values[1], 1e-4))
                    t = {"set to zero": 0.0, "set to base value": b}.get(q.constraint_type)
                    if q.constraint_type == "pull to value":
                        t = q.target_values[0]
                    if t is not None:
                        shown.append(fx(cols["Target Value(s)"][r], 1e-4))
                        want.append(fx(t, 1e-4))
                view("constraint-table", shown, want)
            if cm.expressions:
                h.shown.clear()
                cm.evaluate_expressions()
                cols = dict(zip(h.shown[-2].data[0].header["values"], h.shown[-2].data[0].cells["values"]))
                shown, want = [], []
                for r in range(len(cols["Index"])):
                    f, j = (int(x) for x in cols["Index"][r])
                    g = cols["Target"][r] == "feature"
                    shown += [fx(cols["Base Value"][r], 1e-4), fx(cols["Solution Value"][r], 1e-4)]
                    want += [fx(sa.H[f, j] if g else sa.W[j, f], 1e-4), fx(c.H[f, j] if g else c.W[j, f], 1e-4)]
                cols = dict(zip(h.shown[-1].data[0].header["values"], h.shown[-1].data[0].cells["values"]))
                for r, s in enumerate(cm.expressions):
                    val = [0.0, 0.0]
                    for sg, co, f, kind, j in _re.findall(r"([-+]?)\(([\d.]+)\*\[factor:(\d+)\|(feature|sample):(\d+)\]\)", s):
                        for z, mdl in enumerate((sa, c)):
                            v = mdl.H[int(f), int(j)] if kind == "feature" else mdl.W[int(j), int(f)]
                            val[z] += (-1 if sg == "-" else 1) * float(co) * v
                    shown += [fx(cols["Base Eval"][r], 1e-4), fx(cols["Solution Eval"][r], 1e-4), fx(cols["dQ"][r], 1e-3)]
                    want += [fx(val[0], 1e-4), fx(val[1], 1e-4), fx(float(s.split(",")[1]), 1e-3)]
                view("expression-table", shown, want)

        ck.rec.case(f"con-{i}", cfg, case)

    def negatives():
        neg = []
        for c in ck.rec.cases[::6]:
            for what in range(7):
                d = copy.deepcopy(c)
                for e in d["ev"]:
                    if e["ev"] == "Iter" and what == 0:
                        e["others"] = 100
                        break
                    if e["ev"] == "Loss" and what == 1:
                        e["qr"][-1] += max(50, e["qr"][-1] // 1000)
                        break
                    if e["ev"] == "Stop" and what == 2:
                        e["steps"] += 1
                        break
                    if e["ev"] == "Base" and what == 3:
                        e["after"] = "x"
                        break
                    if e["ev"] == "Iter" and what > 3 and e["expr"]["n"] and e["expr"]["moved"]:
                        x = e["expr"]
                        if what == 4:
                            x["rise"] = x["lim"] + 1000
                        elif what == 5:
                            x["res1"] = max(x["res0"], x["best"]) + 1000
                        else:
                            x["res1"], x["more"] = x["best"] + 1000, x["lim"] - 1000
                            x["res0"] = max(x["res0"], x["res1"])
                        break
                else:
                    continue
                neg.append(d)
        return neg
    ck.trace("Constrained_Trace", negatives=negatives)
    return ck.finish()
