"""P12: edit histories of a constrained model, generated by spec/Registry_Gen.tla, replayed in the
real class and judged by spec/Registry_Trace.tla."""
import copy
import re as _re

from harness.common import *


def run():
    setup_imports()
    import numpy as np
    from esat.model.sa import SA
    from esat.rotational.constrained import ConstrainedModel
    ck = Check("P12", "model_checking", ["edit histories come from the specification: all of two edits, random ones of fourteen"])
    ck.design("Registry", "Registry_MC.cfg")
    beh, s = tlc_behaviours("Registry_Gen", "Registry_Gen.cfg")
    ck.models.append({"model": "Registry_Gen", **s})
    num = 6000 if THOROUGH else 1200
    lng, s = tlc_behaviours("Registry_Gen", "Registry_GenL.cfg",
                            extra=("-simulate", f"num={num}", "-depth", "16", "-seed", str(SEED)))
    ck.models.append({"model": "Registry_Gen -simulate", **s})
    seen, hist = set(), []
    for b in beh + lng:
        key = json.dumps(b)
        if key not in seen:
            seen.add(key)
            hist.append(b)
    rng = np.random.default_rng(SEED)
    sa = SA(V=rng.random((3, 2)) + 0.1, U=np.full((3, 2), 0.1), factors=2, seed=3)
    sa.initialize()
    sa.train(max_iter=3)

    def entry(cm, label, k):
        v = k.target_values
        if k.constraint_type in ("set to zero", "set to base value"):
            v = ()
        v = [int(x) for x in (v if isinstance(v, (tuple, list)) else (v,))]
        return {"target": k.target, "i": int(k.index[0]), "j": int(k.index[1]), "type": k.constraint_type, "vals": v}

    def lab(x):
        m = _re.fullmatch(r"factor:(-?\d+)\|(feature|sample):(-?\d+)", x)
        return [m.group(2), int(m.group(1)), int(m.group(3))] if m else ["?" + x, 0, 0]

    for i, b in enumerate(hist):
        def case(ev):
            cm = ConstrainedModel(base_model=sa, data_handler=None)
            for t, op in enumerate(b):
                e = dict(op, ev="Edit", ok=True)
                if op["op"] == "add":
                    r = op["req"]
                    e["vals"] = {"dQ": 10 * t + 1, "target": 10 * t + 2, "min": 10 * t + 3, "max": 10 * t + 4}
                    names = {"dQ": "dQ", "target": "target_value", "min": "min_value", "max": "max_value"}
                    e["ok"] = bool(cm.add_constraint(constraint_type=r["type"], index=(r["i"], r["j"]), target=r["target"],
                                                     **{names[g]: e["vals"][g] for g in r["given"]}))
                elif op["op"] == "remove":
                    g, a, z = op["elem"]
                    label = f"factor:{a}|feature:{z}" if g == "feature" else f"factor:{z}|sample:{a}"
                    try:
                        cm.remove_constraint(label)
                    except KeyError:
                        pass                # removing what is not there may raise; it must change nothing
                elif op["op"] == "addexpr":
                    e["ok"] = bool(cm.add_expression(op["x"]))
                else:
                    cm.remove_expression(op["i"])
                cm.list_constraints()
                cm.list_expressions()
                e["active"] = [entry(cm, a, k) for a, k in cm.constraints.items()]
                e["labels"] = [lab(a) for a in cm.constraints]
                e["exprs"] = list(cm.expressions)
                ev.append(e)
        ck.rec.case(f"hist-{i}", {"m": 3, "n": 2, "k": 2}, case)

    def negatives():
        neg = []
        for n, c in enumerate(ck.rec.cases[::60]):
            c = copy.deepcopy(c)
            e = c["ev"][-1]
            e["exprs"] = e["exprs"] + ["x"]
            neg.append(c)
            c = copy.deepcopy(ck.rec.cases[n * 60])
            e = c["ev"][-1]
            if e["active"] and n % 3 == 0:
                e["active"] = e["active"][1:]
            elif e["active"] and n % 3 == 1 and e["active"][0]["vals"]:
                e["active"][0]["vals"][0] += 1
            elif e["labels"]:
                e["labels"][0][1] += 1
            elif e["op"] == "add":
                e["ok"] = not e["ok"]
            else:
                continue
            neg.append(c)
        return neg
    ck.trace("Registry_Trace", negatives=negatives)
    return ck.finish()
