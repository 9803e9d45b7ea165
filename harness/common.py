"""Shared machinery: importing the code under test, running TLC, verdicts, evidence."""
import atexit
import contextlib
import importlib.util
import json
import logging
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESAT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("TQDM_DISABLE", "1")

_scratch = None
OUT = sys.stdout


def say(*a):
    print(*a, file=OUT)



def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="esatverif-", dir="/tmp")
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def setup_imports(fake_pool=True):
    for p in (os.path.join(VERIF, "harness", "stub"), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    spec = importlib.util.spec_from_file_location(
        "esat_eval", os.path.join(REPO, "eval", "__init__.py"),
        submodule_search_locations=[os.path.join(REPO, "eval")])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["esat_eval"] = mod
    spec.loader.exec_module(mod)
    if fake_pool:
        from harness import fakepool
        fakepool.install()
    import esat
    assert os.path.realpath(esat.__file__).startswith(os.path.realpath(REPO)), esat.__file__


@contextlib.contextmanager
def single_core(on=True):
    """A machine with one processor."""
    import multiprocessing
    saved = os.cpu_count, multiprocessing.cpu_count
    if on:
        os.cpu_count = multiprocessing.cpu_count = lambda: 1
    try:
        yield
    finally:
        os.cpu_count, multiprocessing.cpu_count = saved


@contextlib.contextmanager
def captured(name):
    """The messages a module of the library writes to its log."""
    got = []

    class H(logging.Handler):
        def emit(self, r):
            got.append(r.getMessage())
    lg, h = logging.getLogger(name), H(logging.INFO)
    saved = lg.level, lg.disabled, logging.root.manager.disable, lg.propagate
    lg.addHandler(h)
    lg.propagate = False
    lg.setLevel(logging.INFO)
    lg.disabled = False
    logging.disable(logging.NOTSET)
    try:
        yield got
    finally:
        lg.removeHandler(h)
        lg.level, lg.disabled, lg.propagate = saved[0], saved[1], saved[3]
        lg.manager._clear_cache()
        logging.disable(saved[2])


def labelled(text, label):
    """The number (or word) after 'label:' in a message; None without one."""
    m = re.search(re.escape(label) + r"\s*:\s*([-+.\w/]+)", text)
    return m.group(1) if m else None


class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout()


class Recorder:
    """Collects cases: {id, cfg, ev}. A case that raises ends in a Crash event, which no
    specification accepts."""

    def __init__(self, prop):
        self.prop = prop
        self.cases = []
        self.tracebacks = {}
        self.keys = set()
        self.t0 = time.time()

    def case(self, cid, cfg, fn, limit=150):
        ev = []
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit)
        try:
            fn(ev)
        except CaseTimeout:
            ev.append({"ev": "Crash", "what": "Timeout"})
        except (Exception, SystemExit) as e:
            self.tracebacks[cid] = traceback.format_exc()
            ev.append({"ev": "Crash", "what": type(e).__name__})
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        c = {"id": cid, "cfg": cfg, "ev": ev}
        self.cases.append(c)
        return c

    def parallel(self, jobs, procs=8):
        """Runs the jobs (functions of a recorder, recording cases) in forked processes; the cases are
        collected in the order of the jobs."""
        import pickle
        todo, out, running = list(enumerate(jobs)), {}, {}
        d = tempfile.mkdtemp(prefix="par-", dir=scratch())
        sys.stdout.flush()
        sys.stderr.flush()
        while todo or running:
            while todo and len(running) < procs:
                i, job = todo.pop(0)
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        null = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(null, 1)
                        r = Recorder(self.prop)
                        job(r)
                        with open(os.path.join(d, str(i)), "wb") as f:
                            pickle.dump((clean(r.cases), r.tracebacks), f)
                        code = 0
                    except BaseException:
                        with open(os.path.join(d, f"{i}.log"), "w") as f:
                            f.write(traceback.format_exc())
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                running[pid] = i
            pid, status = os.wait()
            if pid in running:
                i = running.pop(pid)
                if status != 0:
                    log = os.path.join(d, f"{i}.log")
                    raise RuntimeError(f"{self.prop}: recording process {i} ended with {status}\n" + (open(log).read()[-2000:] if os.path.exists(log) else ""))
                with open(os.path.join(d, str(i)), "rb") as f:
                    cases, tb = pickle.load(f)
                out[i] = cases
                self.tracebacks.update(tb)
        for i in sorted(out):
            self.cases += out[i]


def clean(x):
    """JSON with the types the specifications expect (ints, booleans, strings, lists, records)."""
    import numpy as np
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, np.ndarray):
        return clean(x.tolist())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return max(-(2**31 - 1), min(2**31 - 1, x))
    if isinstance(x, str):
        return x
    raise ValueError(f"cannot put {type(x)} {x!r} into a trace")


LIM = 2**30
NANV = -(2**31 - 1)


def fx(x, unit):
    """A real as an integer count of `unit` (saturating; NaN is NANV)."""
    x = float(x)
    if math.isnan(x):
        return NANV
    v = x / unit
    if v >= LIM:
        return LIM
    if v <= -LIM:
        return -LIM
    return int(round(v))


def fxm(a, unit):
    import numpy as np
    a = np.asarray(a, dtype=float)
    if a.ndim == 1:
        return [fx(v, unit) for v in a]
    return [fxm(r, unit) for r in a]


class TLCError(Exception):
    pass


def run_tlc(module, cfg, env=None, workers=1, timeout=600, extra=(), tag=None, mem="3g"):
    """Runs TLC in spec/; returns its output and statistics. Raises TLCError on machinery failure."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") + f" -Xmx{mem} -Xss64m -Djava.io.tmpdir={scratch()}").strip()
    cmd = ["tlc", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg,
           *extra, module]
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError(f"TLC timeout: {module} {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    st = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    stats = {"generated": int(st.group(1).replace(",", "")) if st else 0,
             "distinct": int(st.group(2).replace(",", "")) if st else 0,
             "wall": round(time.time() - t, 2)}
    return r.returncode, out, stats


def tlc_design(module, cfg, timeout=600, workers=4, extra=(), expect_actions=()):
    """Checks a design configuration exhaustively: any violation is a machinery error (the
    specification itself is fixed; the code is judged through traces)."""
    rc, out, stats = run_tlc(module, cfg, timeout=timeout, workers=workers, extra=extra)
    if rc != 0 or "No error has been found" not in out:
        raise TLCError(f"design model {module}/{cfg} failed (rc {rc}):\n{out[-3000:]}")
    return stats


VERD = re.compile(r'<<\s*"VERDICT",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)"\s*>>')
DONE = re.compile(r'<<\s*"DONE",\s*"([^"]*)"\s*>>')


def _tlc_once(module, cfg, cases, timeout, workers):
    ids = [c["id"] for c in cases]
    path = os.path.join(scratch(), f"cases-{module}-{time.time_ns()}.json")
    with open(path, "w") as f:
        json.dump([clean(c) for c in cases], f)
    rc, out, stats = run_tlc(module, cfg, env={"CASES": path}, timeout=timeout, workers=workers)
    os.unlink(path)
    flat = re.sub(r"\s*\n\s+", " ", out)
    verdicts = {m.group(1): (int(m.group(2)), m.group(3)) for m in VERD.finditer(flat)}
    done = set(DONE.findall(flat))
    missing = [i for i in ids if i not in verdicts and i not in done]
    return rc, out, stats, verdicts, missing


def tlc_trace(module, cfg, cases, timeout=700, workers=4):
    """Gives the verdict of a trace specification on every case: {id: (event number, clause)} of
    rejected cases, and statistics. Every case must reach a verdict; a case whose events the
    specification cannot even evaluate (a matrix of the wrong shape, a missing record) is rejected."""
    ids = [c["id"] for c in cases]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    if not cases:
        return {}, {"generated": 0, "distinct": 0, "wall": 0}
    rc, out, stats, verdicts, missing = _tlc_once(module, cfg, cases, timeout, workers)
    if rc == 0 and not missing:
        return verdicts, stats
    if "Parsing or semantic analysis failed" in out or "Starting..." not in out:
        raise TLCError(f"trace model {module} (rc {rc}):\n{out[-4000:]}")
    # an evaluation error stops TLC: find a case that causes one
    log = out
    part = cases
    while len(part) > 1:
        half = part[:len(part) // 2]
        rc, out, _, v, missing = _tlc_once(module, cfg, half, timeout, workers)
        verdicts.update(v)
        if rc != 0 or missing:
            part, log = half, out
        else:
            part = part[len(part) // 2:]
    rc, out, _, v, missing = _tlc_once(module, cfg, part, timeout, workers)
    if rc == 0 and not missing:
        raise TLCError(f"trace model {module} gave no verdict for all cases (rc {rc}):\n{log[-4000:]}")
    verdicts[part[0]["id"]] = (0, "trace-not-interpretable")
    EVAL_ERRORS[part[0]["id"]] = out[-3000:]
    for c in cases:
        verdicts.setdefault(c["id"], None)
    return verdicts, stats


EVAL_ERRORS = {}


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class Check:
    """One property check: design models + trace verdicts + evidence + exit status."""

    def __init__(self, prop, level, assumptions=()):
        self.prop, self.level = prop, level
        self.assumptions = list(assumptions)
        self.states = self.transitions = self.validated = 0
        self.models, self.samples, self.viol, self.known_hit = [], [], [], []
        self.t0 = time.time()
        self.rec = Recorder(prop)
        self.neg = 0
        self.notes = {}

    def design(self, module, cfg, **kw):
        s = tlc_design(module, cfg, **kw)
        self.states += s["distinct"]
        self.transitions += s["generated"]
        self.models.append({"model": module, "cfg": cfg, **s})
        return s

    def trace(self, module, cfg=None, cases=None, negatives=(), **kw):
        """negatives: corrupted copies of cases, which the specification must reject."""
        cfg = cfg or module + ".cfg"
        cases = self.rec.cases if cases is None else cases
        if callable(negatives):
            try:
                negatives = negatives()
            except Exception:
                if not any(e["ev"] == "Crash" for c in cases for e in c["ev"]):
                    raise
                negatives = []
        neg = [dict(c, id="neg:" + c["id"] + f":{i}") for i, c in enumerate(negatives)]
        verdicts, s = tlc_trace(module, cfg, list(cases) + neg, **kw)
        self.states += s["distinct"]
        self.transitions += s["generated"]
        self.models.append({"model": module, "cfg": cfg, "cases": len(cases), **s})
        known = load_known()
        n_bad = 0
        for c in cases:
            v = verdicts.get(c["id"])
            if v is None:
                self.validated += c["id"] not in verdicts
                continue
            k = [f for f in known if f["property"] == self.prop and f["clause"] == v[1]
                 and re.fullmatch(f["case"], c["id"])]
            if k:
                self.known_hit.append((k[0], c, v))
            else:
                n_bad += 1
                self.viol.append((c, v))
        if len(self.samples) < 3 and cases:
            c = cases[len(cases) // 2]
            txt = json.dumps(clean(c))
            self.samples.append(txt if len(txt) < 1500 else txt[:1500] + "...")
        if not n_bad:
            silent = [c["id"] for c in neg if c["id"] not in verdicts]
            unread = [i for i in verdicts if verdicts[i] and verdicts[i][1] == "trace-not-interpretable"]
            if unread:
                raise TLCError(f"{module} cannot evaluate {unread}:\n{EVAL_ERRORS[unread[0]]}")
            if silent:
                raise TLCError(f"{module} accepts corrupted traces: {silent[:5]}")
        self.neg += len(neg)
        return verdicts

    def finish(self):
        seen = set()
        for k, c, v in self.known_hit:
            if k["what"] not in seen:
                seen.add(k["what"])
                say(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "samples": self.samples, "models": self.models,
                           "corrupted_traces_rejected": self.neg, **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            rdir = os.path.join(VERIF, "replay")
            os.makedirs(rdir, exist_ok=True)
            for n, (c, v) in enumerate(self.viol[:5]):
                path = os.path.join(rdir, f"{self.prop}-{n}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "clause": v[1], "event": v[0], "case": clean(c),
                               "traceback": self.rec.tracebacks.get(c["id"]),
                               "tlc": EVAL_ERRORS.get(c["id"])}, f, indent=1)
                say(f"VIOLATION property={self.prop} replay={path}")
                say(f"  case {c['id']} event {v[0]}: clause '{v[1]}' fails")
                if c["id"] in self.rec.tracebacks:
                    say("  " + self.rec.tracebacks[c["id"]].strip().replace("\n", "\n  ")[-1500:])
            if len(self.viol) > 5:
                say(f"  ... {len(self.viol)} rejected cases in total")
            return 1
        say(f"OK property={self.prop} traces={self.validated} states={self.states} "
              f"wall={time.time() - self.t0:.1f}s")
        return 0


def tlc_behaviours(module, cfg, timeout=300, extra=(), workers=1):
    """The behaviours a generator configuration prints (`<<"BEH", json>>`), and TLC's statistics."""
    rc, out, stats = run_tlc(module, cfg, timeout=timeout, workers=workers, extra=extra)
    if rc != 0 and not extra:
        raise TLCError(f"generator {module}/{cfg} failed (rc {rc}):\n{out[-3000:]}")
    flat = re.sub(r"\n\s+", " ", out)
    beh = [json.loads(json.loads(m.group(1)))
           for m in re.finditer(r'<<\s*"BEH",\s*("(?:[^"\\]|\\.)*")\s*>>', flat)]
    if not beh:
        raise TLCError(f"generator {module}/{cfg} printed nothing:\n{out[-2000:]}")
    return beh, stats


def crash_outside_case(prop, e):
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(rdir, f"{prop}-0.json")
    txt = "".join(traceback.format_exception(e))
    with open(path, "w") as f:
        json.dump({"property": prop, "clause": "unexpected-exception", "traceback": txt}, f, indent=1)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": 0, "violations": 1,
                   "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [txt[-800:]]}},
                  f, indent=1)
    say(f"VIOLATION property={prop} replay={path}")
    say("  " + txt.strip().replace("\n", "\n  ")[-1500:])
    return 1
