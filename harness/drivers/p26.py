"""P26: the command line. Histories of commands generated from spec/Project.tla (editing the configuration files,
running batches, constrained models and error methods, simulated data, tables and figures, with options given and
left out) are carried out with the real command line on project directories; what every command saved or showed is
matched against what the library gives for the same settings passed with their types, and judged by
spec/Project_Trace.tla."""
import configparser
import copy
import hashlib
import io
import itertools
import pickle

from harness.common import *
from harness import fakepool

OM = -9                                    # an option left out
DEFAULTS = {
    "run_config.toml": {
        "project": {"name": "", "directory": "<dir>"}, "data": {"input_path": "", "uncertainty_path": "", "index_col": "0"},
        "estimator": {"samples": "250", "min_k": "2", "max_k": "12"},
        "parameters": {"factors": "-1", "method": "ls-nmf", "models": "20", "init_method": "col_means", "init_norm": "True", "seed": "42",
                       "max_iter": "20000", "converge_delta": "0.0001", "converge_n": "50", "verbose": "False", "parallel": "True"}},
    "error_config.toml": {
        "project": {"project_config": "<dir>/run_config.toml", "constrained_config": "", "selected_model": "-1"}, "disp": {"features": "[]"},
        "bs": {"bootstrap_n": "20", "block_size": "-1", "threshold": "0.6", "seed": "-1"},
        "bsdisp": {"bootstrap_output": "", "bootstrap_n": "20", "block_size": "-1", "threshold": "0.6", "seed": "-1", "threshold_dQ": "0.1",
                   "max_search": "50", "features": "[]"}},
    "constrained_config.toml": {
        "project": {"project_config": "<dir>/run_config.toml"},
        "parameters": {"selected_model": "-1", "softness": "1.0", "max_iter": "-1", "converge_delta": "0.1", "converge_n": "20"}},
    "sim_config.toml": {
        "project": {"directory": "<dir>"}, "data": {"input_path": "synthetic_data.csv", "uncertainty_path": "synthetic_uncertainty.csv"},
        "parameters": {"seed": "42", "factors_n": "6", "features_n": "40", "samples_n": "200", "outliers": "True", "outlier_p": "0.1", "outlier_mag": "2",
                       "contribution_max": "10", "noise_mean_min": "0.03", "noise_mean_max": "0.05", "noise_scale": "0.02",
                       "uncertainty_mean_min": "0.04", "uncertainty_mean_max": "0.06", "uncertainty_scale": "0.01"}}}
COMMAND = {"sol.residuals": ("analysis-solution", "plot-residuals"), "sol.statistics": ("analysis-solution", "statistics"),
           "sol.estimated": ("analysis-solution", "plot-estimated"), "sol.timeseries": ("analysis-solution", "plot-timeseries"),
           "sol.profile": ("analysis-solution", "plot-profile"), "sol.fingerprints": ("analysis-solution", "plot-fingerprints"),
           "sol.gspace": ("analysis-solution", "plot-gspace"), "sol.contributions": ("analysis-solution", "plot-contributions"),
           "sol.composition": ("analysis-solution", "plot-composition"), "sol.surface": ("analysis-solution", "plot-surface"),
           "bat.loss": ("analysis-batch", "plot-loss"), "bat.distribution": ("analysis-batch", "plot-distribution"),
           "inp.metrics": ("analysis-input", "metrics"), "inp.feature": ("analysis-input", "plot-feature"), "inp.data": ("analysis-input", "plot-data"),
           "inp.timeseries": ("analysis-input", "plot-timeseries"), "err.summary": ("analysis-error", "summary"), "err.results": ("analysis-error", "error-results"),
           "con.summary": ("analysis-constrained", "summary"), "con.q": ("analysis-constrained", "plot-q"),
           "con.constraints": ("analysis-constrained", "eval-constraints"), "con.expressions": ("analysis-constrained", "eval-expressions"),
           "con.profile": ("analysis-constrained", "plot-profile"), "con.fingerprints": ("analysis-constrained", "plot-fingerprints"),
           "con.gspace": ("analysis-constrained", "plot-gspace"), "con.contributions": ("analysis-constrained", "plot-contributions"),
           "estimate": ("estimate",), "sim.plot": ("simulator", "plot")}
QTYPE = {1: "True", 2: "Robust", 3: "Aux"}
FEATURES = {0: [], 1: [1], 24: [2, 4]}


def run():
    setup_imports()
    import numpy as np
    import pandas as pd
    import plotly.basedatatypes as pbd
    from click.testing import CliRunner
    import esat.configs as configs
    from esat.cli import esat_cli as cli
    from esat.data.analysis import BatchAnalysis, ModelAnalysis
    from esat.data.datahandler import DataHandler
    from esat.error.bootstrap import Bootstrap
    from esat.error.bs_disp import BSDISP
    from esat.error.displacement import Displacement
    from esat.estimator import FactorEstimator
    from esat.model.batch_sa import BatchSA
    from esat.rotational.constrained import ConstrainedModel
    from esat_eval.simulator import Simulator
    fakepool.install()
    ck = Check("P26", "model_checking", ["commands are invoked with click's test runner in this process", "figures are read as shown, tables from the log",
                                         "parallel runs use a pool that runs in this process"])
    ck.design("Project_MC", "Project_MC.cfg", workers=8)
    ck.design("Project_MC", "Project_MCS.cfg", workers=8)
    if THOROUGH:
        ck.design("Project_MC", "Project_MCT.cfg", workers=8)
    hist = []
    for cfg, num, simulated in (("Project_Gen.cfg", 160 if THOROUGH else 16, False), ("Project_GenS.cfg", 60 if THOROUGH else 8, True)):
        h, s = tlc_behaviours("Project_Gen", cfg, extra=("-simulate", f"num={4 * num}", "-depth", "60", "-seed", str(SEED)))
        ck.models.append({"model": "Project_Gen -simulate", "cfg": cfg, **s})
        rest, met = list(h), {}
        for _ in range(min(num, len(rest))):             # those with the most commands met seldom so far
            sight = lambda x: {(o["op"], o["kind"], o["live"], *o["with"]) for o in x} | {(o["kind"], o["live"], y, o[y]) for o in x for y in "mij"}
            best = max(range(len(rest)), key=lambda y: sum(1 / (1 + met.get(z, 0)) ** 2 for z in sight(rest[y])))
            for z in sight(rest[best]):
                met[z] = met.get(z, 0) + 1
            hist.append((simulated, rest.pop(best)))

    blank = {name: {s: dict(getattr(configs, name)[s]) for s in getattr(configs, name).sections()}
             for name in ("run_config", "error_config", "constrained_config", "sim_config")}
    DATE = re.compile(r"\d\d/\d\d/\d{4}, \d\d:\d\d:\d\d ?\w*|\d+:\d\d:\d\d\.\d+")

    class Log(logging.Handler):
        def __init__(self):
            super().__init__(logging.DEBUG)
            self.msgs = []

        def emit(self, record):
            self.msgs.append(record.getMessage())

    def observe(fn):
        """The figures shown by fn and the text it logs."""
        figs, real, log, root = [], pbd.BaseFigure.show, Log(), logging.getLogger()
        was = root.handlers, root.level, root.manager.disable
        pbd.BaseFigure.show = lambda self, *a, **k: figs.append(self.to_json())
        root.handlers, out = [log], None
        root.setLevel(logging.INFO)
        logging.disable(logging.NOTSET)
        try:
            out = fn()
        except CaseTimeout:
            raise
        except (Exception, SystemExit):
            if os.environ.get("P26_DEBUG"):
                traceback.print_exc()
        finally:
            root.handlers = was[0]
            root.setLevel(was[1])
            logging.disable(was[2])
            pbd.BaseFigure.show = real
        return figs, log.msgs, out

    def read(path):
        with open(path, "rb") as f:
            b = f.read()
        try:
            return DATE.sub("DATE", b.decode()).replace(os.path.dirname(path), "<dir>")
        except UnicodeDecodeError:
            return hashlib.sha256(b).hexdigest()

    def files(d):
        return {os.path.relpath(os.path.join(w, x), d): os.path.join(w, x) for w, _, fs in os.walk(d) for x in fs}

    def tables(rng, simulated, ci):
        """What the numbered configurations of a history say."""
        pick = lambda *a: a[int(rng.integers(len(a)))]
        f = 2 if simulated else pick(2, 2, 3)
        indexed = simulated or pick(True, True, False)
        R = []
        for r in range(3):
            form = ("first", "0") if simulated else pick(("first", "0"), ("first", "Date"), ("second", "1"), ("second", "Date")) if indexed else ("none", "")
            R.append(dict(form=form, factors=f, method=pick("ls-nmf", "ws-nmf"), models=pick(2, 3), init_method=pick("col_means", "kmeans"),
                          init_norm=pick(True, False), seed=int(rng.integers(1, 10000)), max_iter=int(rng.integers(8, 40)),
                          converge_delta=pick(0.1, 0.01, 1.0), converge_n=pick(3, 5, 10), verbose=pick(True, False), parallel=pick(True, False),
                          samples=pick(3, 4), min_k=2, max_k=3))
        E = [dict(sel=pick(-1, -1, 0, 1), con=e == 1, boot=1 if e == 2 else 0, disp=pick([], [1], [0, 2]), bs_n=pick(2, 3), bs_block=pick(-1, 3, 4),
                  bs_threshold=pick(0.5, 0.6, 0.8), bs_seed=pick(-1, 7, 11), n=pick(2, 3), block=pick(-1, 3, 5), threshold=pick(0.5, 0.6, 0.9),
                  seed=pick(-1, 3, 5), features=pick([0], [1, 2], [3]), max_search=pick(4, 6, 10), dQ=pick(0.1, 0.5, 1.0)) for e in range(3)]
        C = []
        for _ in range(2):
            cons = []
            at = rng.permutation(4)
            for x in range(int(rng.integers(1, 4))):
                kind = pick("set to zero", "define limits", "pull up", "pull down", "set to base value", "pull to value")
                d = {"constraint_type": kind, "index": [int(rng.integers(0, f)), int(at[x])], "target": "feature"}
                if kind == "define limits":
                    d.update(min_value=0.1, max_value=1.5)
                if kind.startswith("pull"):
                    d.update(dQ=pick(5, 20, 50))
                if kind == "pull to value":
                    d.update(target_value=0.4)
                if pick(True, False, False):
                    d.update(index=[int(rng.integers(0, 5)), int(rng.integers(0, f))], target="sample")
                cons.append(d)
            cons.insert(int(rng.integers(0, len(cons) + 1)), {"constraint_type": "pull up", "index": [-1, -1], "target": "feature", "dQ": 50})
            exprs = [pick("[factor:0|feature:1]-(0.5*[factor:1|feature:1])=0,25", "(0.66*[factor:0|feature:0])-(0.2*[factor:1|feature:2])=0,50")
                     for _ in range(int(rng.integers(0, 2)))]
            exprs.insert(0, "(0.66*[factor:-1|feature:-1])-(4.2*[factor:-1|feature:-1])=0,250")
            C.append(dict(sel=pick(-1, 0, 1), softness=pick(1.0, 0.5, 2.0), max_iter=pick(-1, 10, 25), converge_delta=pick(-1.0, 0.1, 0.5), converge_n=pick(-1, 5),
                          cons=cons, exprs=exprs))
        S = [dict(seed=int(rng.integers(1, 1000)), factors_n=f, features_n=5, samples_n=pick(24, 30), outliers=pick(True, False), outlier_p=pick(0.1, 0.2),
                  outlier_mag=pick(2.0, 1.5), contribution_max=pick(10, 5), noise_mean_min=0.03, noise_mean_max=0.05, noise_scale=0.02,
                  uncertainty_mean_min=0.04, uncertainty_mean_max=0.06, uncertainty_scale=0.01, verbose=pick(True, False),
                  curves={"0": pick({"curve_type": "logistic", "scale": 0.1, "frequency": 0.5}, {"curve_type": "increasing", "minimum": 0.1, "maximum": 0.9, "scale": 0.1}),
                          "1": {"curve_type": "periodic", "minimum": 0.1, "maximum": 0.9, "frequency": 0.5, "scale": 0.1}}) for _ in range(2)]
        return R, E, C, S

    NAMES = {1: "alpha", 2: "beta run"}

    class World:
        """A project of a history, and what the library gives for its configurations."""

        def __init__(self, ci, simulated, rng):
            self.simulated = simulated
            self.root = tempfile.mkdtemp(prefix="p26-", dir=scratch())
            self.dir = os.path.join(self.root, "project")
            self.cache, self.sig = {}, {}
            self.rng = rng
            self.R, self.E, self.C, self.S = tables(rng, simulated, ci)
            if not simulated:
                f, m = self.R[0]["factors"], int(rng.integers(18, 26))
                W0, H0 = rng.uniform(0.2, 2.5, (m, f)), rng.uniform(0.1, 1.5, (f, 5))
                V = pd.DataFrame(np.round((W0 @ H0) * np.exp(0.2 * rng.standard_normal((m, 5))) + 0.05, 5), columns=["SO4", "NO3", "EC", "OC", "Fe"])
                U = (V * rng.uniform(0.05, 0.3, V.shape) + 0.02).round(5)
                when = pd.date_range("2022-03-01", periods=m, freq="D").strftime("%Y-%m-%d")
                for form in ("first", "second", "none"):
                    for what, df in (("con", V), ("unc", U)):
                        d = df.copy()
                        if form != "none":
                            d.insert(0 if form == "first" else 1, "Date", when)
                        d.to_csv(os.path.join(self.root, f"{form}-{what}.csv"), index=False)

        def copy(self, x):
            return pickle.loads(pickle.dumps(x))

        def memo(self, key, fn):
            if key not in self.cache:
                with_log = observe(fn)
                self.cache[key] = with_log[2]
            return self.cache[key]

        # ----- what the settings mean
        def paths(self, r):
            if self.simulated:
                return [os.path.join(self.dir, f"synthetic_{x}.csv") for x in ("data", "uncertainty")]
            return [os.path.join(self.root, f"{self.R[r - 1]['form'][0]}-{x}.csv") for x in ("con", "unc")]

        def dh(self, r):
            spec = self.R[r - 1]["form"][1]
            col = int(spec) if spec.isdigit() else (spec or None)
            a, b = self.paths(r)
            dh = DataHandler(input_path=a, uncertainty_path=b, index_col=col)
            dh.get_data()
            return dh

        def sim(self, s):
            def make():
                p = dict(self.S[s - 1])
                curves = p.pop("curves")
                sim = Simulator(**p)
                for k, v in curves.items():
                    sim.update_contribution(factor_i=int(k), **v)
                sim.get_data()
                return sim
            return self.memo(("sim", s), make)

        def batch(self, s, r):
            def make():
                t = self.R[r - 1]
                if self.simulated:
                    sim = self.sim(s)
                    dh = DataHandler.load_dataframe(input_df=sim.syn_data_df, uncertainty_df=sim.syn_uncertainty_df)
                else:
                    dh = self.dh(r)
                V, U = dh.get_data()
                b = BatchSA(V=V, U=U, **{k: t[k] for k in ("factors", "method", "models", "init_method", "init_norm", "seed", "max_iter", "converge_delta",
                                                           "converge_n", "verbose", "parallel")})
                b.train()
                return b
            return self.copy(self.memo(("batch", s, r), make))

        def con(self, s, r, i, c):
            def make():
                t, b = self.C[c - 1], self.batch(s, r)
                m = ConstrainedModel(base_model=b.results[i], data_handler=self.dh(r), softness=t["softness"])
                for d in t["cons"]:
                    if d["index"] != [-1, -1]:
                        m.add_constraint(**dict(d, index=tuple(d["index"])))
                for x in t["exprs"]:
                    if "factor:-1" not in x:
                        m.add_expression(x)
                m.train(max_iterations=t["max_iter"] if t["max_iter"] != -1 else b.max_iter,
                        converge_delta=t["converge_delta"] if t["converge_delta"] > 0 else b.converge_delta,
                        converge_n=t["converge_n"] if t["converge_n"] != -1 else b.converge_n)
                return m if m.constrained_model is not None else None
            m = self.memo(("con", s, r, i, c), make)
            return None if m is None else self.copy(m)

        def subject(self, s, r, i, c):
            if c:
                m = self.con(s, r, i, c)
                return None if m is None else (m.constrained_model, -1)
            b = self.batch(s, r)
            return (b.results[i], i) if i < len(b.results) else None

        def err(self, k, key):
            def make():
                s, r, i, c, e = key[:5]
                t, sub, dh = self.E[e - 1], self.subject(s, r, i, c), self.dh(r)
                if sub is None:
                    return None
                model, label = sub
                if k == "disp":
                    x = Displacement(sa=model, feature_labels=dh.features, model_selected=label, features=t["disp"] or None)
                    x.run()
                elif k == "bs":
                    x = Bootstrap(sa=model, feature_labels=dh.features, model_selected=label, bootstrap_n=t["bs_n"],
                                  block_size=dh.optimal_block if t["bs_block"] == -1 else t["bs_block"], threshold=t["bs_threshold"],
                                  seed=model.seed if t["bs_seed"] == -1 else t["bs_seed"])
                    x.run()
                else:
                    bs = self.err("bs", key[5:]) if len(key) > 5 else None
                    x = BSDISP(sa=model, bootstrap=bs, feature_labels=dh.features, model_selected=label, bootstrap_n=t["n"],
                               block_size=dh.optimal_block if t["block"] == -1 else t["block"], threshold=t["threshold"],
                               seed=model.seed if t["seed"] == -1 else t["seed"], features=t["features"] or None, max_search=t["max_search"], threshold_dQ=t["dQ"])
                    x.run(parallel=self.R[self.q["r"] - 1]["parallel"])
                return x
            x = self.memo((k, *key, self.R[self.q["r"] - 1]["parallel"] if k == "bsdisp" else 0), make)
            return None if x is None else self.copy(x)

        def comparable(self, s, r):
            """A collapsed factor has no correlation with a synthetic one."""
            def make():
                self.copy(self.sim(s)).compare(batch_sa=self.batch(s, r))
                return True
            return self.memo(("cmp", s, r), make)

        # ----- saved results
        def text(self, k, obj, name, header):
            """The text files the library saves for a result."""
            d = tempfile.mkdtemp(dir=self.root)
            if k == "batch":
                obj.save(batch_name=name, output_directory=d, pickle_batch=False, pickle_model=False, header=header)
            elif k == "con":
                obj.save(model_name=name, output_directory=d, pickle_model=False)
            elif k == "sim":
                obj.save(sim_name="synthetic", output_directory=d)
            else:
                obj.save(**{f"{k}_name": f"{k}-{name}"}, output_directory=d, pickle_result=False)
            out = {x: read(p) for x, p in files(d).items() if not x.endswith(".pkl")}
            if k == "sim":                                # times count from now
                out = {x: [line.split(",", 1)[1] if "profiles" not in x else line for line in v.splitlines()] for x, v in out.items()}
            shutil.rmtree(d)
            return out

        def expected(self, k, key, name, header):
            at = (k, tuple(key), name, "text", self.R[self.q["r"] - 1]["parallel"] if k == "bsdisp" else 0)
            if at not in self.cache:
                obj = {"batch": self.batch, "con": self.con, "sim": self.sim}.get(k, lambda *a: self.err(k, a))(*key)
                self.cache[at] = None if obj is None else self.text(k, obj, name, header)
            return self.cache[at]

    def carry_out(ci, simulated, ops, ev, cfg):
        rng = np.random.default_rng([SEED, 26, ci])
        for _ in range(20):                               # constrained models of every batch must exist
            w = World(ci, simulated, rng)
            w.q = {"n": 1, "r": 1, "e": 1, "c": 1, "s": 1}
            if not simulated:
                if all(w.batch(0, r) is not None and w.batch(0, r).results[i] is not None and w.con(0, r, i, c) is not None for r in (1, 2, 3) for c in (1, 2)
                       for i in range(w.R[r - 1]["models"]) if w.C[c - 1]["sel"] in (-1, i)):
                    break
            elif all(w.batch(s, r) is not None and w.comparable(s, r) for s in (1, 2) for r in (1, 2, 3)):
                break
        q = w.q
        here = os.getcwd()
        os.chdir(w.root)
        runner = CliRunner()

        def invoke(*args):
            for name, val in blank.items():               # a process of its own
                getattr(configs, name).read_dict(val)
            form = int(rng.integers(0, 3))
            os.chdir(w.dir if form == 2 and os.path.exists(w.dir) else w.root)
            d = w.dir if form == 0 or not os.path.exists(w.dir) else "project" if form == 1 else "."
            n = next((k for k, x in enumerate(args) if x.startswith("-")), len(args))
            argv = [*args[:n], d, *args[n:]] if rng.integers(0, 2) else [*args, d]
            try:
                return runner.invoke(cli.esat_cli, argv, catch_exceptions=True)
            finally:
                os.chdir(w.root)

        def state():
            out = {}
            for x, p in files(w.dir).items():
                st = os.stat(p)
                out[x] = (st.st_mtime_ns, st.st_size, st.st_ino)
            return out

        def product(path):
            d, x = os.path.split(path)
            if d == "" and (x == "esat_simulator.pkl" or x.startswith("synthetic_")):
                return ("sim", 0)
            for n, name in NAMES.items():
                if d == "output" and (x == f"{name}.pkl" or x.startswith(f"{name}-model-")):
                    return ("batch", n)
                if d == "constrained" and x.startswith(f"constrained_model-{name}"):
                    return ("con", n)
                for k in ("disp", "bs", "bsdisp"):
                    if d == "error" and (x == f"{k}-{name}.pkl" or x.startswith(f"{k}-{name}-")):
                        return (k, n)
            return ("other", 0)

        def edit(name, values):
            path = os.path.join(w.dir, name)
            c = configparser.ConfigParser()
            c.read(path)
            for sec, kv in values.items():
                if sec in ("constraints", "expressions", "contributions"):
                    c.remove_section(sec)
                    c.add_section(sec)
                for k, v in kv.items():
                    c[sec][k] = str(v)
            with open(path, "w") as f:
                c.write(f)

        def configure():
            t = w.R[q["r"] - 1]
            a, b = w.paths(q["r"])
            data = {} if simulated else {"input_path": a, "uncertainty_path": b, "index_col": t["form"][1]}
            edit("run_config.toml", {"project": {"name": NAMES[q["n"]]}, "data": data, "estimator": {k: t[k] for k in ("samples", "min_k", "max_k")},
                                     "parameters": {k: t[k] for k in ("factors", "method", "models", "init_method", "init_norm", "seed", "max_iter", "converge_delta",
                                                                      "converge_n", "verbose", "parallel")}})
            t = w.E[q["e"] - 1]
            edit("error_config.toml", {"project": {"constrained_config": os.path.join(w.dir, "constrained_config.toml") if t["con"] else "", "selected_model": t["sel"]},
                                       "disp": {"features": t["disp"]},
                                       "bs": {"bootstrap_n": t["bs_n"], "block_size": t["bs_block"], "threshold": t["bs_threshold"], "seed": t["bs_seed"]},
                                       "bsdisp": {"bootstrap_output": os.path.join(w.dir, "error", f"bs-{NAMES[t['boot']]}.pkl") if t["boot"] else "",
                                                  "bootstrap_n": t["n"], "block_size": t["block"], "threshold": t["threshold"], "seed": t["seed"],
                                                  "threshold_dQ": t["dQ"], "max_search": t["max_search"], "features": t["features"]}})
            t = w.C[q["c"] - 1]
            edit("constrained_config.toml", {"parameters": {"selected_model": t["sel"], "softness": t["softness"], "max_iter": t["max_iter"],
                                                            "converge_delta": t["converge_delta"], "converge_n": t["converge_n"]},
                                             "constraints": {f"constraint{i}": json.dumps(d) for i, d in enumerate(t["cons"])},
                                             "expressions": {f"expression{i}": x for i, x in enumerate(t["exprs"])}})
            if simulated:
                t = dict(w.S[q["s"] - 1])
                curves = t.pop("curves")
                edit("sim_config.toml", {"parameters": t, "contributions": {k: json.dumps(v) for k, v in curves.items()}})

        # ----- set the project up
        def check_setup(what, wrote):
            before = state() if os.path.exists(w.dir) else {}
            observe(lambda: invoke(*what))
            after = state()
            same = True
            for x in wrote:
                if x not in after:
                    same = False
                    continue
                c = configparser.ConfigParser()
                c.read(os.path.join(w.dir, x))
                want = copy.deepcopy(DEFAULTS[x])
                if what[0] == "simulator" and x == "run_config.toml":
                    want["data"].update(input_path="<dir>/synthetic_data.csv", uncertainty_path="<dir>/synthetic_uncertainty.csv")
                for sec, kv in want.items():
                    for k, v in kv.items():
                        same = same and c.has_option(sec, k) and c[sec][k] == v.replace("<dir>", w.dir)
            if "constrained_config.toml" in wrote and same:
                same = len(c["constraints"]) == 6 and len(c["expressions"]) == 3 and all(json.loads(c["constraints"][k])["index"] == [-1, -1] for k in c["constraints"])
            ev.append({"ev": "setup", "what": " ".join(what), "same": same, "only": {x for x in after if after[x] != before.get(x)} <= set(wrote)})

        try:
            if simulated:
                check_setup(("simulator", "setup"), ["run_config.toml", "sim_config.toml"])
            else:
                check_setup(("setup",), ["run_config.toml"])
            check_setup(("setup-error",), ["error_config.toml"])
            check_setup(("setup-constrained",), ["constrained_config.toml"])
            configure()
            simmed = [0]                                  # the configuration the data were simulated with
            ran, conned, erred = [], [], {"disp": [], "bs": [], "bsdisp": []}
            sel = lambda r, i: [i] if i != -1 else list(range(w.R[r - 1]["models"]))
            add = lambda l, x: l.append(x) if x not in l else None
            header = lambda: [f"Feature {i}" for i in range(1, 6)] if simulated else ["SO4", "NO3", "EC", "OC", "Fe"]

            def updated(before, after, cand):
                out = []
                for k, x in sorted({product(f) for f in after if after[f] != before.get(f)} | {product(f) for f in before if f not in after}):
                    u = {"k": k, "x": x, "pkl": [], "txt": []}
                    if k != "other":
                        name = NAMES.get(x, "")
                        got = {os.path.basename(f): f for f in after if product(f) == (k, x)}
                        pkl = [f for f in got if f.endswith(".pkl")]
                        cls = {"batch": BatchSA, "con": ConstrainedModel, "sim": Simulator, "disp": Displacement, "bs": Bootstrap, "bsdisp": BSDISP}[k]
                        obj = cls.load(os.path.join(w.dir, got[pkl[0]])) if pkl else None
                        mine = None if obj is None else w.text(k, obj, name, header())
                        if k == "sim":
                            lines = {y: [v.split(",", 1)[1] if "profiles" not in y else v for v in read(os.path.join(w.dir, got[y])).splitlines()]
                                     for y in got if y not in pkl}
                        else:
                            lines = {y: read(os.path.join(w.dir, got[y])) for y in got if y not in pkl}
                        for key in cand(k):
                            want = w.expected(k, key, name, header())
                            if want is None:
                                continue
                            if os.environ.get("P26_DEBUG"):
                                for y in want:
                                    if want[y] != (mine or {}).get(y) or want[y] != lines.get(y):
                                        print("DIFF", k, key, y, "\nwant", str(want[y])[:500], "\nmine", str((mine or {}).get(y))[:500], "\nfile", str(lines.get(y))[:500], file=sys.stderr)
                            if want == mine:
                                u["pkl"].append(list(key))
                            if all(lines.get(y) == v for y, v in want.items()):
                                u["txt"].append(list(key))
                    out.append(u)
                return out

            def candidates(k):
                s = simmed[0]
                if k == "sim":
                    return [(1,), (2,)]
                if k == "batch":
                    return [(s, r) for r in (1, 2, 3)]
                if k == "con":
                    return [(s, r, i, q["c"]) for r in ran for i in sel(r, w.C[q["c"] - 1]["sel"])]
                e = q["e"]
                subs = conned if w.E[e - 1]["con"] else [(s, r, i, 0) for r in ran for i in sel(r, w.E[e - 1]["sel"])]
                keys = [(*x, e) for x in subs]
                if k == "bsdisp":
                    keys = [a + b for a in keys for b in [()] + erred["bs"]]
                return keys

            def shows(o):
                """The command of a figure or table, and what the library shows for a candidate."""
                kind, m, i, j = o["kind"], o["m"], o["i"], o["j"]
                args, opt = list(COMMAND[kind]), lambda flag, v: [] if v == OM else [flag, str(v)]
                s = simmed[0]
                base, con = rng.integers(0, 2), rng.integers(0, 2)
                its = lambda v, *d: [v] if v != OM else list(d)
                if kind.startswith("sol."):
                    args += opt(str(rng.choice(["-m", "--selected_model"])), m)
                if kind == "sol.surface":
                    args += opt("-i", i) + [x for f in FEATURES[j] for x in ("-f", str(f))]
                elif kind in ("sol.gspace", "con.gspace"):
                    args += opt("-x", i) + opt("-y", j)
                    if kind == "con.gspace":
                        args += (["--hide_base"] if not base else []) + (["--hide_delta"] if not con else [])
                elif kind == "inp.data":
                    args += opt("-x", i) + opt("-y", j)
                elif kind == "con.q":
                    args += [] if i == OM else ["-q", QTYPE[i]]
                elif kind.startswith("err."):
                    args += [f"--{x}" for x in o["with"]] + opt("--factor_idx", i)
                else:
                    args += opt("-i", i)
                items = {"sol.surface": [(x, j) for x in its(i, 0, 1)], "sol.gspace": [(x, y) for x in its(i, 0, 1) for y in its(j, 1, 2)],
                         "con.gspace": [(x, y) for x in its(i, 0, 1) for y in its(j, 1, 2)], "inp.data": [(x, y) for x in its(i, 0, 1) for y in its(j, 0, 1)],
                         "con.q": [(x,) for x in its(i, 1, 2, 3)]}.get(kind)
                if items is None:
                    plain = kind in ("sol.statistics", "sol.fingerprints", "sol.composition", "bat.loss", "bat.distribution", "inp.metrics", "err.summary",
                                     "con.summary", "con.constraints", "con.expressions", "con.fingerprints", "estimate", "sim.plot")
                    items = [()] if plain else [(x,) for x in its(i, 0, 1)]
                if kind.startswith("sol."):
                    keys = [(s, r, x) + it for r in ran for x in (range(w.R[r - 1]["models"]) if m == OM else [m]) if x < w.R[r - 1]["models"] for it in items]

                    def show(s, r, x, *it):
                        ma = ModelAnalysis(datahandler=w.dh(r), model=w.batch(s, r).results[x], selected_model=x)
                        if kind == "sol.statistics":
                            ma.calculate_statistics()
                            return str(ma.statistics)
                        if kind == "sol.surface":
                            f, feats = None if it[0] == -1 else it[0], FEATURES[it[1]]
                            for y in feats if f is None and feats else [None]:
                                ma.plot_factor_surface(feature_idx=y, factor_idx=f)
                            return None
                        {"sol.residuals": ma.plot_residual_histogram, "sol.estimated": ma.plot_estimated_observed, "sol.timeseries": ma.plot_estimated_timeseries,
                         "sol.profile": ma.plot_factor_profile, "sol.fingerprints": ma.plot_factor_fingerprints, "sol.gspace": ma.plot_g_space,
                         "sol.contributions": ma.plot_factor_contributions, "sol.composition": ma.plot_factor_composition}[kind](*it)
                elif kind.startswith("bat."):
                    keys = [(s, r) for r in ran]

                    def show(s, r):
                        b = BatchAnalysis(batch_sa=w.batch(s, r))
                        (b.plot_loss if kind == "bat.loss" else b.plot_loss_distribution)()
                elif kind.startswith("inp."):
                    keys = items

                    def show(*it):
                        dh = w.dh(q["r"])
                        if kind == "inp.metrics":
                            return str(dh.metrics)
                        if kind == "inp.timeseries":
                            dh.plot_feature_timeseries(feature_selection=[it[0]])
                        elif kind == "inp.feature":
                            dh.plot_data_uncertainty(feature_idx=it[0])
                        else:
                            dh.plot_feature_data(x_idx=it[0], y_idx=it[1])
                elif kind.startswith("err."):
                    keys = [(["disp", "bs", "bsdisp"].index(k) + 1, *key, *it) for k in erred for key in erred[k] for it in items]

                    def show(tag, *key):
                        x = w.err(["disp", "bs", "bsdisp"][tag - 1], key[:len(key) - len(items[0])])
                        x.summary() if kind == "err.summary" else x.plot_results(factor=key[-1])
                elif kind.startswith("con."):
                    keys = [(*key, *it) for key in conned for it in items]

                    def show(*key):
                        x, it = w.con(*key[:4]), key[4:]
                        if kind == "con.q":
                            x.plot_Q(Qtype=QTYPE[it[0]])
                        elif kind == "con.gspace":
                            x.plot_g_space(factor_idx1=it[0], factor_idx2=it[1], show_base=bool(base), show_delta=bool(con))
                        else:
                            {"con.summary": x.display_results, "con.constraints": x.evaluate_constraints, "con.expressions": x.evaluate_expressions,
                             "con.profile": x.plot_profile_contributions, "con.fingerprints": x.plot_factor_fingerprints,
                             "con.contributions": x.plot_factor_contributions}[kind](*it)
                elif kind == "estimate":
                    keys = [(r,) for r in (1, 2, 3)]

                    def show(r):
                        if simulated:
                            dh = DataHandler.load_dataframe(input_df=w.sim(s).syn_data_df, uncertainty_df=w.sim(s).syn_uncertainty_df)
                        else:
                            dh = w.dh(r)
                        V, U = dh.get_data()
                        t = w.R[r - 1]
                        return str(FactorEstimator(V=V, U=U).run(samples=t["samples"], min_factors=t["min_k"], max_factors=t["max_k"]))
                else:
                    keys = [(s, r) for r in ran]

                    def show(s, r):
                        x = w.copy(w.sim(s))
                        made = pd.to_datetime(pd.read_csv(os.path.join(w.dir, "synthetic_data.csv"), index_col=0).index)
                        x.time_steps = made               # times count from the moment of the simulation
                        for df in (x.syn_data_df, x.syn_uncertainty_df, x.syn_contributions_df):
                            df.index = made
                        x.compare(batch_sa=w.batch(s, r))
                        x.plot_comparison()
                flags = (bool(base), bool(con)) if kind == "con.gspace" else ()
                return args, keys, show, (kind, flags, q["r"] if kind.startswith("inp.") else 0)

            TEXT = ("inp.metrics", "sol.statistics", "estimate", "err.summary", "con.summary", "con.constraints", "con.expressions")
            for o in ops:
                op, s = o["op"], simmed[0]
                if op == "set":
                    q[o["f"]] = o["v"]
                    configure()
                    ev.append({"ev": "set", "f": o["f"], "v": o["v"]})
                    continue
                before = state()
                if op == "show":
                    args, keys, show, tag = shows(o)
                    figs, text, res = observe(lambda: invoke(*args))
                    text = "\n".join(text + [res.output if res is not None else ""])
                    match, some = [], len(figs) > 0
                    for key in keys:
                        at = (tag, key)
                        if at not in w.sig:
                            f, t, r = observe(lambda: show(*key))
                            w.sig[at] = f, (str(r) if r is not None else "\n".join(t)) if o["kind"] in TEXT else ""
                        f, t = w.sig[at]
                        if f == figs and t in text:
                            match.append(list(key))
                        some = some or (t != "" and t in text)
                    after = state()
                    ev.append({"ev": "show", "kind": o["kind"], "m": o["m"], "i": o["i"], "j": o["j"], "with": o["with"], "keys": match, "any": some,
                               "figs": len(figs), "updated": updated(before, after, lambda k: [])})
                    continue
                if simulated and op in ("run", "generate", "compare") and simmed[0] == 0:
                    simmed[0] = q["s"]
                args = {"run": ["run"], "con": ["run-constrained"], "generate": ["simulator", "generate"], "compare": ["simulator", "compare"],
                        "err": ["run-error"] + [f"--{x}" for x in o["with"]]}[op]
                observe(lambda: invoke(*args))
                if op == "run":
                    add(ran, q["r"])
                if op == "con":
                    for key in candidates("con"):
                        if w.con(*key) is not None:
                            add(conned, key)
                if op == "err":
                    for k in ("disp", "bs", "bsdisp"):
                        if k in o["with"]:
                            for key in candidates(k):
                                add(erred[k], key)
                after = state()
                ev.append({"ev": op, "with": o["with"], "updated": updated(before, after, candidates)})
            s = simmed[0]
            cfg.update(simulated=simulated, err=[{"sel": t["sel"], "con": t["con"], "boot": t["boot"]} for t in w.E], con=[t["sel"] for t in w.C],
                       best=[w.batch(s, r).best_model if r in ran else 0 for r in (1, 2, 3)])
        finally:
            os.chdir(here)
            shutil.rmtree(w.root, ignore_errors=True)

    T0 = {"simulated": False, "err": [{"sel": -1, "con": False, "boot": 0}] * 3, "con": [-1, -1], "best": [0, 0, 0]}

    def one(ci):
        simulated, ops = hist[ci]
        cfg = dict(T0)
        return lambda rec: rec.case(f"project-{ci}" + ("-sim" if simulated else ""), cfg, lambda ev: carry_out(ci, simulated, ops, ev, cfg), limit=400)

    ck.rec.parallel([one(ci) for ci in range(len(hist))])

    def negatives():
        out = []

        def bad(c, fn):
            c = copy.deepcopy(c)
            if fn(c):
                out.append(c)

        def first(c, pred):
            return next((e for e in c["ev"] if pred(e)), None)

        for c in ck.rec.cases[:8] + ck.rec.cases[-3:]:
            bad(c, lambda c: (e := first(c, lambda e: e["ev"] == "show" and e["keys"] and e["any"])) and (e.update(keys=[k for k in e["keys"] if False]) or True))
            bad(c, lambda c: (e := first(c, lambda e: e["ev"] in ("run", "con", "err") and e["updated"])) and (e["updated"][0].update(pkl=[]) or True))
            bad(c, lambda c: (e := first(c, lambda e: e["ev"] in ("run", "con", "err") and e["updated"])) and (e["updated"][0].update(txt=[]) or True))
            bad(c, lambda c: (e := first(c, lambda e: e["ev"] == "run")) and (e.update(updated=[]) or True))
            bad(c, lambda c: (e := first(c, lambda e: e["ev"] == "show" and not e["keys"] and not e["any"] and e["kind"][:3] in ("con", "err", "sol", "bat") and len(e["with"]) != 1))
                and (e.update(any=True, keys=[[0, 1, 0]]) or True))
            bad(c, lambda c: (e := first(c, lambda e: e["ev"] == "err" and e["updated"])) and (e["updated"].append({"k": "batch", "x": 1, "pkl": [], "txt": []}) or True))
            bad(c, lambda c: c["ev"][0].update(same=False) or True)
        return out

    ck.trace("Project_Trace", negatives=negatives)
    ck.notes.update(shown={k: sum(e["ev"] == "show" and e["kind"] == k and e["any"] for c in ck.rec.cases for e in c["ev"]) for k in COMMAND}, histories=len(hist), commands=sum(e["ev"] != "set" for c in ck.rec.cases for e in c["ev"]))
    return ck.finish()
