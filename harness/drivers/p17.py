"""P17: saving and loading.  Histories of saves, changes, damage and loads come from
spec/Persist_Gen.tla and are replayed on real objects in a scratch directory; spec/Persist_Trace.tla
judges what every save wrote and every load returned."""
import contextlib
import copy
import csv as _csv
import hashlib
import io
import pickle
import types

from harness.common import *
from harness import fakepool

EXT = ("SA", "BatchSA", "Bootstrap", "Displacement", "BSDISP", "ConstrainedModel", "Simulator")


def run():
    setup_imports()
    import numpy as np
    import pandas as pd
    from esat.model.sa import SA
    from esat.model.batch_sa import BatchSA
    from esat.error.bootstrap import Bootstrap
    from esat.error.displacement import Displacement
    from esat.error.bs_disp import BSDISP
    from esat.rotational.constrained import ConstrainedModel
    from esat.data.datahandler import DataHandler
    from esat_eval.simulator import Simulator
    ck = Check("P17", "model_checking",
               ["equality of a restored object: every public attribute, recursively (arrays bitwise with their type, "
                "frames, generators by state), and the next training iterations of a restored model",
                "objects trained with the built-in updates (a custom update cannot be pickled)"])
    ck.design("Persist", "Persist_MC.cfg")
    num = 900 if THOROUGH else 400
    hist, s = tlc_behaviours("Persist_Gen", "Persist_Gen.cfg",
                             extra=("-simulate", f"num={num}", "-depth", "13", "-seed", str(SEED)))
    ck.models.append({"model": "Persist_Gen -simulate", **s})
    pick = np.random.default_rng(SEED).permutation(len(hist))[:(4000 if THOROUGH else 700)]
    hist = [hist[i] for i in sorted(pick)]
    fakepool.set_schedule(lambda q: list(range(q)))
    CLS = {"SA": SA, "BatchSA": BatchSA, "Bootstrap": Bootstrap, "Displacement": Displacement, "BSDISP": BSDISP,
           "ConstrainedModel": ConstrainedModel, "Simulator": Simulator}
    NAMEARG = {"SA": "model_name", "BatchSA": "batch_name", "Bootstrap": "bs_name", "Displacement": "disp_name",
               "BSDISP": "bsdisp_name", "ConstrainedModel": "model_name", "Simulator": "sim_name"}

    rng = np.random.default_rng(SEED)
    m, n, k = 9, 4, 2
    V = rng.gamma(1.5, 1.0, (m, k)) @ rng.gamma(1.2, 1.0, (k, n)) + 0.2
    U = 0.1 * V + 0.05
    feats = [f"feature {i}" for i in range(n)]
    dfd, dfu = (pd.DataFrame(x, columns=feats, index=pd.date_range("2020-01-01", periods=m, name="Date")) for x in (V, U))

    def build():
        o = {}
        o["SA"] = SA(V=V, U=U, factors=k, seed=5)
        o["SA"].initialize()
        o["SA"].train(max_iter=12, converge_n=5, converge_delta=0.01)
        o["BatchSA"] = BatchSA(V=V, U=U, factors=k, models=3, seed=2, max_iter=8, parallel=False, verbose=False)
        o["BatchSA"].train()
        o["Bootstrap"] = Bootstrap(sa=o["SA"], feature_labels=feats, model_selected=1, bootstrap_n=3, block_size=2,
                                   seed=4, parallel=False)
        o["Bootstrap"].run()
        o["Displacement"] = Displacement(sa=o["SA"], feature_labels=feats, model_selected=1, features=[0, 2], parallel=False)
        o["Displacement"].run()
        o["BSDISP"] = BSDISP(sa=o["SA"], feature_labels=feats, model_selected=1, bootstrap_n=2, block_size=2, seed=4, features=[1, 3])
        o["BSDISP"].run(parallel=True)
        dh = DataHandler.load_dataframe(dfd, dfu)
        dh.get_data()
        cm = ConstrainedModel(base_model=o["SA"], data_handler=dh, softness=0.5)
        cm.add_constraint("set to zero", (0, 1), "feature")
        cm.add_constraint("define limits", (3, 1), "sample", min_value=0.1, max_value=0.4)
        cm.add_expression("(0.6*[factor:0|feature:2])-(1.2*[factor:1|feature:3])=0,250")
        cm.train(max_iterations=6, converge_delta=0.01, converge_n=3)
        o["ConstrainedModel"] = cm
        o["Simulator"] = Simulator(seed=3, factors_n=2, features_n=3, samples_n=8, verbose=False)
        o["Simulator"].get_data()
        return o

    def canon(x, h, depth=0):
        def put(*a):
            h.update(repr(a).encode())
        if depth > 14:
            put("deep")
        elif isinstance(x, np.ndarray):
            put("arr", str(x.dtype), x.shape)
            h.update(np.ascontiguousarray(x).tobytes() if x.dtype != object else repr(x.tolist()).encode())
        elif isinstance(x, np.generic):
            put("np", str(x.dtype))
            h.update(x.tobytes())
        elif isinstance(x, (str, int, bool, bytes, type(None))):
            put(x)
        elif isinstance(x, float):
            put("f", x.hex())
        elif isinstance(x, (list, tuple)):
            put("seq", len(x))
            for v in x:
                canon(v, h, depth + 1)
        elif isinstance(x, (set, frozenset)):
            put("set", sorted(map(repr, x)))
        elif isinstance(x, dict):
            put("dict", len(x))
            for a in x:
                canon(a, h, depth + 1)
                canon(x[a], h, depth + 1)
        elif isinstance(x, pd.DataFrame):
            put("frame", [str(c) for c in x.columns], [str(i) for i in x.index], [str(t) for t in x.dtypes])
            for c in range(x.shape[1]):
                canon(x.iloc[:, c].to_numpy(), h, depth + 1)
        elif isinstance(x, (pd.Series, pd.Index)):
            put("series", [str(v) for v in x])
        elif isinstance(x, np.random.Generator):
            put("rng", json.dumps(x.bit_generator.state, sort_keys=True, default=str))
        elif isinstance(x, (types.FunctionType, types.MethodType, types.BuiltinFunctionType, type)):
            put("fn", getattr(x, "__qualname__", str(x)))
        elif hasattr(x, "__dict__"):
            put("obj", type(x).__name__)
            for a in sorted(vars(x)):
                if not a.startswith("_"):
                    put("attr", a)
                    canon(vars(x)[a], h, depth + 1)
        else:
            put("other", type(x).__name__, str(x))

    def digest(x):
        h = hashlib.sha256()
        canon(x, h)
        return h.hexdigest()

    ORIG = build()
    if digest(ORIG) != digest(copy.deepcopy(ORIG)):
        raise RuntimeError("digest is not stable under copying")

    def change(cls, o, v):
        if cls == "SA":
            o.train(max_iter=2, converge_n=5, converge_delta=0.0)
        elif cls == "BatchSA":
            o.results[v % 3].train(max_iter=2, converge_n=5, converge_delta=0.0, model_i=v % 3 + 1)
            o.best_model = v % 3
        elif cls == "Simulator":
            o.update_contribution(factor_i=v % 2, curve_type="increasing")
            o.get_data()
        elif cls == "ConstrainedModel":
            o.add_expression(f"(0.6*[factor:0|feature:2])-({v}*[factor:1|feature:3])=0,250")
            o.softness = v + 0.25
        elif cls == "Bootstrap":
            o.threshold = 0.1 * v
            o.mapping_df.iloc[0, 1] = 10 + v
        elif cls == "Displacement":
            o.compiled_results.iloc[0, 3] = v
            o.swap_table[0, 0] = v
        else:
            o.n_drops = v
            o.disp_results[1].threshold_dQ = 0.01 * v
        if isinstance(getattr(o, "metadata", None), dict):
            o.metadata["changed"] = v

    def numbers(path):
        """numeric rows of a text file, and the lines before them"""
        rows, head = [], []
        for line in open(path):
            try:
                rows.append([float(x) for x in line.strip().split(",")])
            except ValueError:
                if line.strip():
                    head.append(line.strip().lstrip("# "))
        return rows, head

    def near(a, b):
        a, b = np.asarray(a, float), np.asarray(b, float)
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-5, atol=1e-9, equal_nan=True))

    def same_json(path, obj):
        def eq(a, b):
            if isinstance(b, dict):
                return isinstance(a, dict) and set(a) == {str(q) for q in b} and all(eq(a[str(q)], b[q]) for q in b)
            if isinstance(b, (set, frozenset)):
                b = sorted(b)
            if isinstance(b, (list, tuple, np.ndarray)):
                return isinstance(a, list) and len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
            if isinstance(b, (bool, np.bool_)) or b is None or isinstance(b, str):
                return a == b
            if isinstance(b, (int, float, np.generic)):
                return isinstance(a, (int, float)) and near(a, b)
            return True                     # objects have no text form
        return eq(json.load(open(path)), obj)

    def frame(path, df, index):
        g = pd.read_csv(path, index_col=0 if index else None)
        return list(map(str, g.columns)) == list(map(str, df.columns)) and g.shape == df.shape and all(
            near(g[c], df[c]) if np.issubdtype(df[c].dtype, np.number) else list(map(str, g[c])) == list(map(str, df[c])) for c in g.columns)

    def sa_files(d, nm, o, header):
        out = []
        labels = [f"Factor {i + 1}" for i in range(o.factors)]
        for suffix, mat, names in (("profile", o.H, header), ("contribution", o.W, labels), ("vprime", o.WH, header),
                                   ("residuals", o.V - o.WH, header)):
            rows, head = numbers(os.path.join(d, f"{nm}-{suffix}.csv"))
            out.append((f"{nm}-{suffix}", near(rows, mat) and (header is None or (head and head[-1].split(",") == list(names)))))
        if not nm.startswith("constrained_model-"):
            out.append((f"{nm}-metadata", same_json(os.path.join(d, f"{nm}-metadata.json"), o.metadata)))
        return out

    def disp_files(d, nm, o):
        J = lambda s: os.path.join(d, f"{nm}-{s}")
        rows, head = numbers(J("swaptable.csv"))
        lev = {float(q): i for i, q in enumerate(o.dQmax)}
        exp = [[r[0]] + list(np.round(100 * o.swap_table[lev[r[0]]] / o.count_table[lev[r[0]]], 2)) for r in rows if r and r[0] in lev]
        return [(f"{nm}-metadata", same_json(J("metadata.json"), o.metadata)),
                (f"{nm}-increase", same_json(J("increase-disp.json"), o.increase_results)),
                (f"{nm}-decrease", same_json(J("decrease-disp.json"), o.decrease_results)),
                (f"{nm}-swap", sorted(r[0] for r in rows) == sorted(lev) and near(rows, exp)),
                (f"{nm}-results", frame(J("results.csv"), o.compiled_results, False))]

    def bs_files(d, nm, o):
        J = lambda s: os.path.join(d, f"{nm}-{s}")
        res = {q: {"index": r["index"], "mapping": r["mapping"]} for q, r in o.bs_results.items()}
        got = json.load(open(J("results.json")))
        ok = set(got) == {str(q) for q in res} and all(
            got[str(q)]["index"] == [int(x) for x in r["index"]] and
            all(got[str(q)]["mapping"][str(f)]["match"] == r["mapping"][f]["match"] and
                bool(got[str(q)]["mapping"][str(f)]["mapped"]) == bool(r["mapping"][f]["mapped"]) for f in r["mapping"])
            for q, r in res.items())
        return [(f"{nm}-metadata", same_json(J("metadata.json"), o.metadata)), (f"{nm}-results", ok),
                (f"{nm}-mapping", frame(J("mapping.csv"), o.mapping_df, False)),
                (f"{nm}-qtable", frame(J("qtable.csv"), o.q_results, True)),
                (f"{nm}-ftables", same_json(J("ftables.json"), o.factor_tables)),
                (f"{nm}-profiles", same_json(J("profiles.json"), o.bs_profiles)),
                (f"{nm}-contributions", same_json(J("contributions.json"), o.bs_factor_contributions))]

    def text_files(cls, o, d, nm, header):
        if cls == "SA":
            return sa_files(d, nm, o, header)
        if cls == "BatchSA":
            return [x for i, r in enumerate(o.results) if r is not None for x in sa_files(d, f"{nm}-model-{i}", r, header)]
        if cls == "Displacement":
            return disp_files(d, nm, o)
        if cls == "Bootstrap":
            return bs_files(d, nm, o)
        if cls == "BSDISP":
            meta = json.load(open(os.path.join(d, f"{nm}-metadata.json")))
            out = [x for x in bs_files(d, nm, o.bootstrap) if x[0] not in (f"{nm}-metadata", f"{nm}-results")]
            out += [x for q, r in o.disp_results.items() for x in disp_files(d, f"{nm}-{q}", r)]
            return out + [(f"{nm}-compiled", frame(os.path.join(d, f"{nm}-results.csv"), o.compiled_results, False)),
                          (f"{nm}-meta", isinstance(meta, dict) and len(meta) > 0)]
        if cls == "ConstrainedModel":
            out = sa_files(d, f"constrained_model-{nm}", o.constrained_model, list(o.dh.features))
            meta = json.load(open(os.path.join(d, f"constrained_model-{nm}-metadata.json")))
            return out + [("meta", meta["expressions"] == o.expressions and meta["softness"] == o.softness
                           and len(meta["constraints"]) == len(o.constraints))]
        return [(f"{nm}-{s}", frame(os.path.join(d, f"{nm}_{s}.csv"), f, True)) for s, f in
                (("data", o.syn_data_df), ("uncertainty", o.syn_uncertainty_df), ("profiles", o.syn_profiles_df),
                 ("contributions", o.syn_contributions_df))]

    top = os.path.join(scratch(), "persist")
    home = os.getcwd()

    class World:
        def __init__(self):
            self.root = tempfile.mkdtemp(prefix="h-", dir=scratch())
            for d in ("ok", "cwd/rel"):
                os.makedirs(os.path.join(self.root, d))
            os.chdir(os.path.join(self.root, "cwd"))
            self.dirs = {"ok": os.path.join(self.root, "ok"), "missing": os.path.join(self.root, "no", "where"), "relative": "rel"}

        def snap(self):
            out = {}
            for b, _, fs in os.walk(self.root):
                for f in fs:
                    p = os.path.join(b, f)
                    st = os.stat(p)
                    out[p] = (st.st_size, st.st_mtime_ns)
            return out

        def close(self):
            os.chdir(home)
            shutil.rmtree(self.root, ignore_errors=True)

    def quiet(fn, *a, **kw):
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **kw)

    def path_in(w, p):
        return os.path.join(w.dirs["ok"], p + ".pkl")

    def replay(b, hi):
        def case(ev):
            w = World()
            try:
                objs, digs = {}, {}
                r = np.random.default_rng([SEED, hi])

                def obj(cls):
                    if cls not in objs:
                        objs[cls] = copy.deepcopy(ORIG[cls])
                        digs[cls] = [{digest(objs[cls])}]
                    return objs[cls]

                for t, op in enumerate(b):
                    e = dict(op, ev=op["op"])
                    cls = op.get("cls")
                    if op["op"] == "change":
                        o = obj(cls)
                        change(cls, o, len(digs[cls]))
                        digs[cls].append({digest(o)})
                        ev.append(e)
                    elif op["op"] in ("save", "text"):
                        o = obj(cls)
                        before = w.snap()
                        d = w.dirs[op["dir"]]
                        kw = {NAMEARG[cls]: op["name"], "output_directory": d}
                        pk = op["op"] == "save"
                        header = feats if t % 2 else None
                        if cls == "SA":
                            kw.update(pickle_model=pk, header=header)
                        elif cls == "BatchSA":
                            kw.update(pickle_batch=pk, header=header)
                        elif cls == "ConstrainedModel":
                            kw.update(pickle_model=pk)
                        elif cls != "Simulator":
                            kw.update(pickle_result=pk)
                        ret = quiet(o.save, **kw)
                        e["wrote"] = w.snap() != before
                        there = {"Simulator": "esat_simulator", "ConstrainedModel": f"constrained_model-{op['name']}"}.get(cls, op["name"])
                        want = path_in(w, there) if pk else w.dirs["ok"]
                        e["ret"] = ("nothing" if ret is None or ret is False else "place" if
                                    (ret is True and cls == "Simulator") or str(ret) == want else "other")
                        e["there"] = os.path.exists(path_in(w, there))
                        tx = dict(e, ev="text", files=[], least=0)
                        if op["dir"] == "ok" and (cls == "Simulator" or not pk):
                            files = text_files(cls, o, w.dirs["ok"], op["name"], header)
                            tx["files"] = [{"name": a, "same": bool(z)} for a, z in files]
                            tx["least"] = 4
                        if cls == "Simulator":
                            e["ev"] = "save"
                        if e["ev"] == "save":
                            ev.append(e)
                        if cls == "Simulator" or not pk:
                            ev.append(tx)
                        ev.append({"ev": "live", "same": digest(o) in digs[cls][-1] or cls == "ConstrainedModel"})
                        digs[cls][-1].add(digest(o))      # a constrained model notes its constraints in its metadata
                    elif op["op"] == "damage":
                        p = path_in(w, op["path"])
                        data = open(p, "rb").read()
                        how = op["how"]
                        new = {"truncate": data[:int(r.integers(0, max(1, len(data))))], "empty": b"", "text": b"Factor 1, Factor 2\n1.0,2.0\n",
                               "garbage": bytes(r.integers(0, 256, 200).tolist()),
                               "foreign": pickle.dumps({"W": [1, 2]} if t % 2 else np.arange(3))}[how]
                        open(p, "wb").write(new)
                        ev.append(e)
                    else:
                        before = w.snap()
                        if op["path"] == "relative":
                            pickle.dump(ORIG[cls], open(os.path.join(w.root, "cwd", "rel", "x.pkl"), "wb"))
                            before = w.snap()
                            p = "rel/x.pkl" if t % 2 else os.path.join(".", "rel", "x.pkl")
                        else:
                            p = path_in(w, op["path"])
                        back = quiet(CLS[cls].load, p)
                        e["wrote"] = w.snap() != before
                        e["ret"], e["vers"] = "nothing", []
                        if back is not None:
                            e["ret"] = "obj" if isinstance(back, CLS[cls]) else "other"
                            obj(cls)
                            dg = digest(back)
                            e["vers"] = [v for v, x in enumerate(digs[cls]) if dg in x]
                        ev.append(e)
            finally:
                w.close()
        return case

    for i, b in enumerate(hist):
        ck.rec.case(f"hist-{i}", {}, replay(b, i))

    # a restored object goes on exactly as the original
    def resume(ev):
        w = World()
        try:
            for meth in ("ls-nmf", "ws-nmf"):
                for stage in range(3):
                    a = SA(V=V, U=U, factors=k, seed=9, method=meth)
                    if stage > 0:
                        a.initialize()
                    if stage > 1:
                        a.train(max_iter=4, converge_n=3, converge_delta=0.0)
                    a.save("r", w.dirs["ok"], pickle_model=True)
                    b = SA.load(path_in(w, "r"))
                    ra, rb = (x.train(max_iter=5, converge_n=3, converge_delta=0.0) for x in (a, b))
                    ev.append({"ev": "resume", "same": ra == rb and all(np.array_equal(getattr(a, q), getattr(b, q))
                                                                        for q in ("W", "H", "WH", "q_list", "Qtrue", "converge_steps"))})
            o = copy.deepcopy(ORIG["BatchSA"])
            quiet(o.save, "r", w.dirs["ok"])
            q = BatchSA.load(path_in(w, "r"))
            quiet(o.train)
            quiet(q.train)
            ev.append({"ev": "resume", "same": all(np.array_equal(a.W, b.W) for a, b in zip(o.results, q.results)) and o.best_model == q.best_model})
            quiet(o.save, "m", w.dirs["ok"], pickle_model=True, pickle_batch=False)
            ev.append({"ev": "resume", "same": all((lambda z: z is not None and np.array_equal(z.W, a.W) and z.seed == a.seed)
                                                    (SA.load(path_in(w, f"m-model-{i}"))) for i, a in enumerate(o.results))})
            o = copy.deepcopy(ORIG["ConstrainedModel"])
            quiet(o.save, "r", w.dirs["ok"], pickle_model=True)
            q = ConstrainedModel.load(path_in(w, "constrained_model-r"))
            for z in (o, q):
                z.add_constraint("pull down", (1, 0), "feature", dQ=5)
                z.train(max_iterations=5)
            ev.append({"ev": "resume", "same": all(np.array_equal(getattr(o.constrained_model, a), getattr(q.constrained_model, a)) for a in ("W", "H"))})
        finally:
            w.close()
    ck.rec.case("resume", {}, resume)

    # the files of a batch are numbered by the position of the model, also when models failed
    def numbered(ev):
        for gaps in ([], [0], [1], [2], [0, 1], [0, 2], [0, 1, 2]):
            for pk in (False, True):
                w = World()
                try:
                    o = copy.deepcopy(ORIG["BatchSA"])
                    for g in gaps:
                        o.results[g] = None
                    live = [i for i, r in enumerate(o.results) if r is not None]
                    quiet(o.save, "b", w.dirs["ok"], pickle_batch=False, pickle_model=pk, header=feats)
                    files = []
                    for f in sorted(os.listdir(w.dirs["ok"])):
                        mt = re.fullmatch(r"b-model-(\d+)(\.pkl|-profile\.csv|-contribution\.csv)", f)
                        if not mt:
                            continue
                        p = os.path.join(w.dirs["ok"], f)
                        if f.endswith(".pkl"):
                            back = SA.load(p)
                            holds = [i for i in live if back is not None and np.array_equal(back.H, o.results[i].H)]
                        else:
                            rows = numbers(p)[0]
                            holds = [i for i in live if near(rows, o.results[i].H if "profile" in f else o.results[i].W)]
                        files.append({"number": int(mt.group(1)), "holds": holds})
                    ev.append({"ev": "numbers", "live": live, "files": files, "per": 1 if pk else 2})
                finally:
                    w.close()
    ck.rec.case("numbered", {}, numbered)

    # what is written when the caller does not say: a pickle, or text for models
    def defaults(ev):
        for cls in EXT:
            w = World()
            try:
                o = copy.deepcopy(ORIG[cls])
                quiet(o.save, **{NAMEARG[cls]: "d", "output_directory": w.dirs["ok"]})
                there = sorted(os.listdir(w.dirs["ok"]))
                ev.append({"ev": "default", "cls": cls, "pickles": sum(f.endswith(".pkl") for f in there),
                           "texts": sum(not f.endswith(".pkl") for f in there)})
            finally:
                w.close()
    ck.rec.case("defaults", {}, defaults)

    # truncation at every byte
    total = 0
    for cls in EXT:
        def cuts(ev):
            nonlocal total
            w = World()
            try:
                data = pickle.dumps(ORIG[cls])
                r = np.random.default_rng([SEED, 77])
                if THOROUGH or len(data) < 6000:
                    points = range(len(data))
                else:
                    points = sorted(set(range(150)) | set(range(len(data) - 150, len(data))) | set(r.integers(0, len(data), 600).tolist()))
                p = path_in(w, "cut")
                bad = raised = 0
                for z in points:
                    with open(p, "wb") as f:
                        f.write(data[:z])
                    try:
                        bad += CLS[cls].load(p) is not None
                    except Exception:
                        raised += 1
                total += len(points)
                os.makedirs(os.path.join(w.dirs["ok"], "dir.pkl"))
                try:
                    bad += CLS[cls].load(path_in(w, "dir")) is not None
                except Exception:
                    raised += 1
                ev.append({"ev": "cuts", "n": len(points), "notnone": int(bad), "raised": raised})
            finally:
                w.close()
        ck.rec.case(f"cuts-{cls}", {}, cuts, limit=700 if THOROUGH else 200)
    ck.notes["truncation_points"] = total

    def negatives():
        neg = []
        for c in ck.rec.cases[::25]:
            c = copy.deepcopy(c)
            for e in c["ev"]:
                if e["ev"] == "load":
                    e["ret"], e["vers"] = ("obj", [0]) if e["ret"] == "nothing" else ("nothing", [])
                    neg.append(c)
                    break
        def corrupt(kind, fn):
            for c in ck.rec.cases:
                for i, e in enumerate(c["ev"]):
                    if e["ev"] == kind and (kind != "text" or e["files"]):
                        c = copy.deepcopy(c)
                        fn(c["ev"][i])
                        neg.append(c)
                        return
        corrupt("save", lambda e: e.update(ret="other"))
        corrupt("text", lambda e: e["files"][0].update(same=False))
        corrupt("text", lambda e: e.update(files=e["files"][:2], least=4))
        corrupt("live", lambda e: e.update(same=False))
        corrupt("resume", lambda e: e.update(same=False))
        corrupt("cuts", lambda e: e.update(notnone=1))
        corrupt("numbers", lambda e: e["files"][0].update(number=e["files"][0]["number"] + 1))
        corrupt("default", lambda e: e.update(pickles=2))
        return neg
    ck.trace("Persist_Trace", negatives=negatives)
    return ck.finish()
