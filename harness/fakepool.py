"""A deterministic multiprocessing.Pool: tasks run one at a time in this process on pickled copies
(as a worker would see them), and complete in the order chosen by SCHEDULE."""
import io
import pickle
from multiprocessing.reduction import ForkingPickler

SCHEDULE = [lambda n: list(range(n))]      # n tasks -> completion order (a permutation of 0..n-1)
CURRENT = [None]                           # (args, kwds) of the task being run
LOG = []                                   # (method, n, order) of every use


def set_schedule(fn):
    SCHEDULE[0] = fn


def _copy(obj):
    buf = io.BytesIO()
    ForkingPickler(buf, pickle.HIGHEST_PROTOCOL).dump(obj)
    return pickle.loads(buf.getvalue())


class _Outcome:
    def __init__(self, func, args, kwds):
        try:
            f, a, k = _copy((func, args, kwds))
            CURRENT[0] = (a, k)
            self.value = _copy(f(*a, **k))
            self.ok = True
        except Exception as e:             # delivered to the parent, as the real pool does
            self.value = e
            self.ok = False
        finally:
            CURRENT[0] = None

    def get(self):
        if self.ok:
            return self.value
        raise self.value


def _order(n):
    o = list(SCHEDULE[0](n))
    assert sorted(o) == list(range(n)), o
    return o


class _Async:
    def __init__(self, pool):
        self.pool, self.out, self.single = pool, None, True

    def ready(self):
        self.pool._flush()
        return True

    def wait(self, timeout=None):
        self.pool._flush()

    def successful(self):
        self.pool._flush()
        return self.out.ok

    def get(self, timeout=None):
        self.pool._flush()
        return self.out.get()


class _Done:
    def __init__(self, outs):
        self.outs = outs

    def ready(self):
        return True

    def wait(self, timeout=None):
        pass

    def successful(self):
        return all(o.ok for o in self.outs)

    def get(self, timeout=None):
        return [o.get() for o in self.outs]


class FakePool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.pending = []
        if initializer:
            initializer(*initargs)

    def _all(self, method, func, arglists):
        n = len(arglists)
        order = _order(n)
        LOG.append((method, n, tuple(order)))
        outs = [None] * n
        for i in order:
            outs[i] = _Outcome(func, arglists[i], {})
        return outs, order

    def imap_unordered(self, func, iterable, chunksize=1):
        outs, order = self._all("imap_unordered", func, [(a,) for a in iterable])
        for i in order:
            yield outs[i].get()

    def imap(self, func, iterable, chunksize=1):
        outs, _ = self._all("imap", func, [(a,) for a in iterable])
        for o in outs:
            yield o.get()

    def map(self, func, iterable, chunksize=None):
        return [o.get() for o in self._all("map", func, [(a,) for a in iterable])[0]]

    def starmap(self, func, iterable, chunksize=None):
        return [o.get() for o in self._all("starmap", func, [tuple(a) for a in iterable])[0]]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._whole("map_async", func, [(a,) for a in iterable], callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._whole("starmap_async", func, [tuple(a) for a in iterable], callback, error_callback)

    def _whole(self, method, func, args, callback, error_callback):
        d = _Done(self._all(method, func, args)[0])
        bad = [o for o in d.outs if not o.ok]
        if bad and error_callback:
            error_callback(bad[0].value)
        if not bad and callback:
            callback([o.value for o in d.outs])
        return d

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        h = _Async(self)
        self.pending.append((h, func, tuple(args), dict(kwds), callback, error_callback))
        return h

    def _flush(self):
        todo, self.pending = self.pending, []
        if not todo:
            return
        order = _order(len(todo))
        LOG.append(("apply_async", len(todo), tuple(order)))
        for i in order:
            h, func, args, kwds, cb, ecb = todo[i]
            h.out = _Outcome(func, args, kwds)
            if h.out.ok and cb:
                cb(h.out.value)
            if not h.out.ok and ecb:
                ecb(h.out.value)

    def close(self):
        pass

    def terminate(self):
        self.pending = []

    def join(self):
        self._flush()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._flush()


REAL = {}


def real():
    """Puts the real pool and manager back (for the cases that use real processes)."""
    import multiprocessing
    multiprocessing.Pool = REAL["Pool"]
    multiprocessing.context.BaseContext.Pool = REAL["ctx"]
    multiprocessing.Manager = REAL["Manager"]


def install():
    import multiprocessing
    import multiprocessing.pool
    import multiprocessing.context
    REAL.setdefault("Pool", multiprocessing.Pool)
    REAL.setdefault("ctx", multiprocessing.context.BaseContext.Pool)
    REAL.setdefault("Manager", multiprocessing.Manager)
    install_manager()
    multiprocessing.Pool = FakePool
    multiprocessing.context.BaseContext.Pool = lambda self, *a, **k: FakePool(*a, **k)
    return FakePool


_QUEUES = {}


def _queue_by_id(i):
    return _QUEUES[i]


class FakeQueue:
    """A manager queue: pickling it gives the same queue again."""

    def __init__(self):
        import queue
        self._q = queue.Queue()
        _QUEUES[id(self)] = self

    def __reduce__(self):
        return _queue_by_id, (id(self),)

    def __getattr__(self, name):
        return getattr(self._q, name)


class FakeManager:
    def Queue(self, maxsize=0):
        return FakeQueue()

    def list(self, x=()):
        return list(x)

    def dict(self, *a, **k):
        return dict(*a, **k)

    def Lock(self):
        import threading
        return threading.Lock()

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def install_manager():
    import multiprocessing
    multiprocessing.Manager = FakeManager
