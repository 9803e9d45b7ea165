"""P14, P15, P16: the data handler, judged by spec/DataH_Trace.tla."""
import copy
import hashlib

from harness.common import *


class Box:
    def __init__(self, ev, rng, np, pd, DataHandler):
        self.ev, self.rng, self.np, self.pd, self.DH = ev, rng, np, pd, DataHandler
        self.h, self.labels = {}, {}

    def lab(self, x):
        return int(x) if not isinstance(x, str) else self.labels.setdefault(x, 1000 + len(self.labels))

    def dig(self, h):
        out = hashlib.sha256()
        for d in (h.input_data, h.uncertainty_data):
            out.update(d.to_csv().encode())
        return out.hexdigest()

    def code(self, a):
        """Exact zero -1, tiny positive 0, whole numbers themselves."""
        a = self.np.asarray(a, dtype=float)
        return [[NANV if x != x else -1 if x == 0 else 0 if 0 < x < 1e-6 else
                 int(round(x)) if abs(x - round(x)) < 1e-3 else NANV + 1 for x in r] for r in a]

    def table(self, h):
        return [{"n": str(f), "cat": r["Category"], "q": [fx(r[k], 0.25) for k in ("Min", "25th", "50th", "75th", "Max")],
                 "sn": fx(r["S/N"], 1e-4), "lo": fx(h.min_values[f], 0.25), "hi": fx(h.max_values[f], 0.25)}
                for f, r in h.metrics.iterrows()]

    def frames(self, n, feats, *, missing=0.0, zeros=0.1, loc=None, drop=0, repeat=False, text=0.0):
        """A random dataset: data and uncertainty frames, and the raw rows for the trace."""
        rng, np, pd = self.rng, self.np, self.pd
        names = [f"f{x}" for x in range(feats)] + [f"d{x}" for x in range(drop)]
        V = rng.integers(1, 1500, size=(n, len(names))).astype(float)
        U = rng.integers(1, 300, size=(n, len(names))).astype(float)
        for M in (V, U):
            M[rng.random(M.shape) < zeros] = 0
            M[rng.random(M.shape) < missing] = np.nan
        locs = [[0]] * n
        lcols = []
        if loc is not None:
            kind, count = loc
            lcols = ["latitude", "longitude"] if kind == "geo" else ["site"] if kind == "one" else ["state", "site"]
            pool = rng.integers(1, 60, size=(count, len(lcols)))
            pick = rng.integers(0, count, size=n)
            L = pool[pick].astype(float)
            locs = [[int(x) for x in pool[p]] for p in pick]
            if kind == "geo":
                L = 40 + 1e-5 * L + rng.choice([0, 2e-7, -2e-7], size=L.shape)
            at = int(rng.integers(len(names) + 1))
            V = np.concatenate([V[:, :at], L, V[:, at:]], axis=1)
            U = np.concatenate([U[:, :at], L, U[:, at:]], axis=1)
            names[at:at] = lcols
        p = rng.permutation(len(names))
        V, U, names = V[:, p], U[:, p], [names[x] for x in p]
        if missing and loc is None and n > 3:
            V[int(rng.integers(n))] = np.nan                       # a sample without any data
            U[int(rng.integers(n))] = np.nan
        days = pd.date_range("2021-03-01", periods=n, freq="D").strftime("%Y-%m-%d").tolist()
        if repeat:
            days = [days[x // 2] for x in range(n)]
        vdf = pd.DataFrame(V, columns=names, index=pd.Index(days, name="Date"))
        udf = pd.DataFrame(U, columns=names, index=pd.Index(days, name="Date"))
        self.text = []
        for col in names:                       # excluded and location columns may hold text
            if (col.startswith("d") or col == "site" or col == "state") and text and rng.random() < text:
                self.text.append(col)
                for df in (vdf, udf):
                    df[col] = pd.Series([x if x != x else f"t{int(x)}" for x in df[col]], index=df.index, dtype=object)
        raw = [{"lab": self.lab(days[x]), "loc": locs[x], "v": self.raw(V[x]), "u": self.raw(U[x])} for x in range(n)]
        return vdf, udf, names, raw, lcols, [x for x in names if x.startswith("d")]

    def raw(self, r):
        return [NANV if x != x else int(round(x)) for x in r]

    def load(self, key, how, **kw):
        vdf, udf, names, raw, lcols, dcols = self.frames(**kw)
        b, a = "", ""
        if how == "frame":
            b = vdf.to_csv() + udf.to_csv()
            h = self.DH.load_dataframe(input_df=vdf, uncertainty_df=udf)
            a = vdf.to_csv() + udf.to_csv()
            h.loc_cols = (lcols if len(lcols) != 1 or self.rng.random() < .5 else lcols[0]) if lcols else None
            h.drop_col = dcols or None
        else:
            ext, sep = {"csv": ("csv", ","), "tab": ("txt", "\t"), "plain": ("csv", ","), "inner": ("csv", ","),
                        "semi": ("txt", ";"), "xlsx": ("xlsx", ","), "xinner": ("xlsx", ",")}[how]
            d = os.path.join(scratch(), f"dh-{os.getpid()}")
            os.makedirs(d, exist_ok=True)
            paths = [os.path.join(d, f"{x}.{ext}") for x in ("con", "unc")]
            at = int(self.rng.integers(1, len(names) + 1))
            for f, p in zip((vdf, udf), paths):
                if how.endswith("inner"):       # the named index column is not the first one
                    f = f.reset_index()
                    f = f[list(f.columns[1:at + 1]) + ["Date"] + list(f.columns[at + 1:])]
                idx = not how.endswith("inner")
                if ext == "xlsx":
                    f.to_excel(p, index=idx)
                else:
                    f.to_csv(p, sep=sep, index=idx)
            h = self.DH(input_path=paths[0], uncertainty_path=paths[1],
                        index_col="Date" if how != "plain" and (how != "xlsx" or self.rng.random() < 0.5) else None,
                        drop_col=dcols or None, loc_cols=(lcols if len(lcols) != 1 or self.rng.random() < .5 else lcols[0]) if lcols else None)
        self.h[key] = h
        self.ev.append({"ev": "Load", "h": key, "how": how, "names": names, "text": self.text, "out": dcols + lcols, "raw": raw,
                        "labs": [self.lab(x) for x in h.input_data.index], "labsU": [self.lab(x) for x in h.uncertainty_data.index],
                        "argBefore": b, "argAfter": a, "table": self.table(h)})
        return h

    def get(self, key):
        h = self.h[key]
        b = self.dig(h)
        V, U = h.get_data()
        self.ev.append({"ev": "Get", "h": key, "features": [str(x) for x in h.features], "before": b, "after": self.dig(h),
                        "labs": [self.lab(x) for x in h.input_data_df.index], "labsU": [self.lab(x) for x in h.uncertainty_data_df.index],
                        "V": self.code(V), "U": self.code(U),
                        "dfV": self.zero(h.input_data_df), "dfU": self.zero(h.uncertainty_data_df)})

    def zero(self, d):
        """Frames may hold the zero or its replacement."""
        return [[0 if x == -1 else x for x in r] for r in self.code(d.to_numpy())]

    def set(self, key, f, cat):
        h = self.h[key]
        b = self.dig(h)
        ok = h.set_category(f, cat)
        self.ev.append({"ev": "Set", "h": key, "f": f, "c": cat, "ok": bool(ok), "before": b, "after": self.dig(h),
                        "cats": [[str(n), str(x)] for n, x in h.metrics["Category"].items()]})

    def split(self, key):
        h = self.h[key]
        b = self.dig(h)
        parts = h.split_locations()
        lc = h.loc_cols
        rec = []
        geo = not isinstance(lc, str) and sorted(lc or []) == ["latitude", "longitude"]       # 40 degrees and some 1e-5
        for x, q in enumerate(parts):
            self.h[f"{key}.{x + 1}"] = q
            rec.append({"labs": [self.lab(y) for y in q.input_data.index], "labsU": [self.lab(y) for y in q.uncertainty_data.index],
                        "loc": [int(str(v)[1:]) if isinstance(v, str) else int(round((v - 40) / 1e-5 if geo else v)) for v in
                                [q.metadata["location"][y] for y in lc]]})
        self.ev.append({"ev": "Split", "h": key, "parts": rec, "before": b, "after": self.dig(h)})
        return len(parts)

    def merge(self, key, others, labels):
        h = self.h[key]
        b, ob = self.dig(h), "".join(self.dig(self.h[o]) for o in others if o != key)
        ok = h.merge([self.h[o] for o in others], labels)
        src = [str(x) for x in h.input_data["source_label"]] if "source_label" in h.input_data.columns else []
        self.ev.append({"ev": "Merge", "h": key, "from": others, "labels": labels, "ok": bool(ok), "sources": src,
                        "before": b, "after": self.dig(h), "othersBefore": ob,
                        "othersAfter": "".join(self.dig(self.h[o]) for o in others if o != key)})


def start(prop, notes):
    setup_imports()
    import numpy as np
    import pandas as pd
    from esat.data.datahandler import DataHandler
    import functools
    ck = Check(prop, "model_checking", notes)
    ck.design("DataH_MC", "DataH_MC.cfg", workers=8)
    return ck, np, pd, functools.partial(Box, np=np, pd=pd, DataHandler=DataHandler)


def corrupt(ck, key, change, every):
    def negatives():
        neg = []
        for c in ck.rec.cases[::every]:
            c = copy.deepcopy(c)
            for e in c["ev"]:
                if e["ev"] == key:
                    change(e)
                    neg.append(c)
                    break
        return neg
    return negatives


def run_p14():
    ck, np, pd, box = start("P14", ["histories come from the specification: all of two steps, random ones of twelve",
                                    "values are whole numbers, so that float32 holds them exactly"])
    beh, s = tlc_behaviours("DataH_Gen", "DataH_Gen.cfg")
    ck.models.append({"model": "DataH_Gen", **s})
    lng, s = tlc_behaviours("DataH_Gen", "DataH_GenL.cfg", extra=("-simulate", f"num={1500 if THOROUGH else 250}", "-depth", "14", "-seed", str(SEED)))
    ck.models.append({"model": "DataH_Gen -simulate", **s})
    lng = lng[::26][:1500 if THOROUGH else 250]      # TLC prints every successor of the last step
    for i, b in enumerate(beh + lng):
        rng = np.random.default_rng([SEED, 14, i])

        def case(ev):
            x = box(ev, rng)
            x.load("h", "frame" if i % 3 else ["csv", "tab"][i % 2], n=int(rng.integers(3, 6)), feats=3, drop=int(i % 5 == 0),
                   loc=("one", 2) if i % 7 == 0 else None, missing=0.05 if i % 4 == 0 else 0)
            names = {"a": "f0", "b": "f1", "c": "f2", "A": "F1"}
            for op in b:
                if op["op"] == "set":
                    f = names.get(op["f"], "other")
                    if i % 5 == 0 and f == "f2":
                        f = "d0"
                    x.set("h", f, op["c"])
                else:
                    x.get("h")
                if i % 2 == 0:
                    x.get("h")
            x.get("h")
        ck.rec.case(f"hist-{i}", {"i": i}, case)

    def change(e):
        e["cats"] = e["cats"][:-1]
    ck.trace("DataH_Trace", negatives=corrupt(ck, "Set", change, 40))
    return ck.finish()


def run_p15():
    ck, np, pd, box = start("P15", ["values are whole numbers, so that float32 holds them exactly",
                                    "columns are numeric and a missing cell is empty"])
    for i in range(4):
        def absent(ev):
            d = os.path.join(scratch(), f"ab-{os.getpid()}")
            os.makedirs(d, exist_ok=True)
            paths = [os.path.join(d, f"{x}.csv") for x in ("con", "unc")]
            for p in paths:
                with open(p, "w") as f:
                    f.write("Date,a,b\n2020-01-01,1,2\n2020-01-02,2,3\n")
            for k in (0, 1):
                if i >> k & 1:
                    os.remove(paths[k])
            from esat.data.datahandler import DataHandler
            try:
                DataHandler(input_path=paths[0], uncertainty_path=paths[1])
                end = "built"
            except SystemExit:
                end = "exit"
            ev.append({"ev": "Files", "missing": bool(i % 4), "end": end})
        ck.rec.case(f"files-{i}", {"i": i}, absent)

    for i in range(700 if THOROUGH else 160):
        rng = np.random.default_rng([SEED, 15, i])

        def case(ev):
            x = box(ev, rng)
            x.load("h", ["frame", "csv", "tab", "plain", "inner", "semi", "xlsx", "xinner"][i % 8], n=int(rng.integers(3, 14)), feats=int(rng.integers(1, 6)),
                   drop=int(rng.integers(0, 3)), loc=None if i % 3 else (["one", "two", "geo"][i % 9 // 3], int(rng.integers(1, 4))),
                   missing=[0, 0.05, 0.2][i % 3] if i % 5 else 0.3, zeros=float(rng.choice([0, 0.1, 0.5])),
                   repeat=i % 6 == 0, text=0.4 if i % 5 == 3 else 0.0)
            x.get("h")
            x.get("h")
            if i % 4 == 0:
                x.set("h", "f0", "bad")
                x.get("h")
                x.set("h", "f0", "strong")
                x.get("h")
        ck.rec.case(f"load-{i}", {"i": i}, case)

    def change(e):
        e["labs"] = e["labs"] + [1]
    ck.trace("DataH_Trace", negatives=corrupt(ck, "Get", change, 15))
    return ck.finish()


def run_p16():
    ck, np, pd, box = start("P16", ["locations are numeric, as the loader requires", "values are whole numbers, so that float32 holds them exactly"])
    for i in range(500 if THOROUGH else 130):
        rng = np.random.default_rng([SEED, 16, i])

        def case(ev):
            x = box(ev, rng)
            kind = ["one", "two", "geo"][i % 3]
            kw = dict(n=int(rng.integers(4, 16)), feats=int(rng.integers(1, 4)), drop=int(rng.integers(0, 2)), loc=(kind, int(rng.integers(1, 5))),
                      missing=[0, 0.1][i % 2], repeat=i % 5 < 2, text=0.6 if i % 7 == 3 else 0.0)
            if i % 8 == 7:
                kw["loc"] = None
                x.load("h", "frame", **kw)
                ev.append({"ev": "Refused", "parts": len(x.h["h"].split_locations())})
                return
            x.load("h", ["frame", "csv"][i % 2], **kw)
            if i % 3 == 0:
                x.set("h", "f0", "weak")
            if i % 2:
                x.get("h")
            q = x.split("h")
            keys = [f"h.{y + 1}" for y in range(q)]
            for y in keys:
                x.get(y)
            x.get("h")
            base = keys[int(rng.integers(len(keys)))]
            others = [y for y in rng.permutation(keys).tolist() if y != base]
            labels = [f"site{rng.integers(100)}" for _ in others]
            if i % 4 == 0:
                x.merge(base, [], [])
                x.merge(base, keys, ["a"] * (len(keys) + 1))
                x.get(base)
            if i % 4 == 1:
                x.load("o", "frame", n=4, feats=kw["feats"] + 1, loc=None)
                x.merge(base, others + ["o"], labels + ["odd"])
                x.get(base)
            if others:
                if i % 3 == 1:
                    x.set(base, "f0", "bad" if kw["feats"] > 1 else "weak")
                x.merge(base, others, labels)
                x.get(base)
                x.get(others[0])
                x.set(base, "f0", "weak")
                x.get(base)
        ck.rec.case(f"sites-{i}", {"i": i}, case)

    def change(e):
        e["parts"][0]["labs"] = e["parts"][0]["labs"][:-1]
    ck.trace("DataH_Trace", negatives=corrupt(ck, "Split", change, 13))
    return ck.finish()
