"""The optimised training of /repo/rust/lib.rs as a Python module: lib.rs of the current tree is compiled, unchanged,
against the stand-ins of harness/rust for the crates that cannot be installed offline, and called through ctypes with
the conversions of arguments and results pyo3 and rust-numpy make."""
import ctypes as C
import operator
import os
import subprocess
import types

import numpy as np

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rust")


class In(C.Structure):
    _fields_ = [("p", C.c_void_p), ("r", C.c_int64), ("c", C.c_int64), ("f", C.c_int32)]


class Out(C.Structure):
    _fields_ = [("w", C.c_void_p), ("wf", C.c_int32), ("wr", C.c_int64), ("wc", C.c_int64),
                ("h", C.c_void_p), ("hf", C.c_int32), ("hr", C.c_int64), ("hc", C.c_int64),
                ("q", C.c_double), ("converged", C.c_int32), ("converge_i", C.c_int64),
                ("ql", C.c_void_p), ("nq", C.c_int64), ("err", C.c_char * 256)]


CB = C.CFUNCTYPE(None, C.c_int64, C.c_int64, C.c_int64, C.c_double, C.c_double, C.c_double, C.c_int32)


class PanicException(BaseException):
    pass


def build(repo, out):
    """The library, or None when lib.rs uses something the stand-ins do not have."""
    os.makedirs(out, exist_ok=True)
    src = os.path.join(out, "all.rs")
    with open(src, "w") as f:
        f.write(open(os.path.join(repo, "rust", "lib.rs")).read() + "\n" + open(os.path.join(HERE, "shim.rs")).read())
    for cmd in (["rustc", "--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "esat_macros",
                 os.path.join(HERE, "macros.rs"), "-o", os.path.join(out, "libesat_macros.so")],
                ["rustc", "--edition", "2021", "-O", "--cap-lints", "allow", "--crate-type", "cdylib", "--crate-name", "esat_native",
                 "--extern", "esat_macros=" + os.path.join(out, "libesat_macros.so"), src, "-o", os.path.join(out, "libesat_native.so")]):
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=out)
        if r.returncode != 0:
            return None, "\n".join(x for x in r.stderr.splitlines() if x.startswith("error"))[:600]
    return C.CDLL(os.path.join(out, "libesat_native.so")), ""


def module(lib):
    errors = {"RuntimeError": RuntimeError, "ValueError": ValueError, "OverflowError": OverflowError, "TypeError": TypeError,
              "PanicException": PanicException, "KeyError": KeyError}

    def array(a):
        if not isinstance(a, np.ndarray) or a.dtype != np.float32:
            raise TypeError("argument: type mismatch: array of float32 expected")
        if not (a.flags.c_contiguous or a.flags.f_contiguous) or a.ndim != 2:
            raise PanicException("not a contiguous matrix")
        f = a.flags.f_contiguous and not a.flags.c_contiguous
        return In(a.ctypes.data, a.shape[0], a.shape[1], int(f))

    def integer(x):
        if isinstance(x, (float, np.floating)):
            raise TypeError("argument: 'float' object cannot be interpreted as an integer")
        return operator.index(x)

    def flag(x):
        if x is None:
            return -1
        if not isinstance(x, (bool, np.bool_)):
            raise TypeError("argument: object cannot be cast as 'bool'")
        return int(x)

    class Train:
        """Pickled by name, as functions of an extension module are."""
        def __init__(self, name, call):
            self.name, self.call = name, call

        def __call__(self, *a, **k):
            return self.call(*a, **k)

        def __reduce__(self):
            return _named, (self.name,)

    def train(method):
        def run(v, u, we, w, h, max_iter, converge_delta, converge_n, robust_alpha, model_i,
                static_h=None, delay_h=None, progress_callback=None, prefer_gpu=None):
            ins = [array(x) for x in (v, u, we, w, h)]
            it, cn, mi = integer(max_iter), integer(converge_n), integer(model_i)
            W, H, Q = np.zeros(w.size), np.zeros(h.size), np.zeros(max(it, 1))
            o = Out(w=W.ctypes.data, h=H.ctypes.data, ql=Q.ctypes.data)
            delay = -2 ** 63 if delay_h is None else integer(delay_h)
            cb = CB() if progress_callback is None else CB(lambda a, b, c, d, e, f, g: progress_callback(a, b, c, d, e, f, bool(g)))
            rc = lib.esat_train(C.c_int32(method), *[C.byref(x) for x in ins], C.c_int64(it), C.c_double(float(converge_delta)), C.c_int64(cn),
                                C.c_double(float(robust_alpha)), C.c_int64(mi), C.c_int32(flag(static_h)), C.c_int64(delay), cb,
                                C.c_int32(flag(prefer_gpu)), C.byref(o))
            if rc:
                kind, _, msg = o.err.decode(errors="replace").partition(":")
                raise errors.get(kind, RuntimeError)(msg)
            return {"w": W.reshape((o.wr, o.wc), order="F" if o.wf else "C"), "h": H.reshape((o.hr, o.hc), order="F" if o.hf else "C"),
                    "q": float(o.q), "converged": bool(o.converged), "converge_i": int(o.converge_i),
                    "q_list": Q[:o.nq].astype(np.float32)}
        return run
    m = types.ModuleType("esat_rust")
    m.ls_nmf, m.ws_nmf, m.clear_screen = Train("ls_nmf", train(0)), Train("ws_nmf", train(1)), lambda: None
    return m


def _named(name):
    import esat_rust
    return getattr(esat_rust, name)
