"""In-process stand-in for multiprocessing pools: arguments and results go through pickle, as they would between
processes, so that slicing and reassembly are exercised without the cost of spawning."""
import multiprocessing
import pickle
import time
from contextlib import contextmanager


class Result:
    def __init__(self, v, err=None):
        self.v, self.err = v, err

    def get(self, timeout=None):
        if self.err is not None:
            raise self.err
        return self.v

    def ready(self):
        return True

    def wait(self, timeout=None):
        pass

    def successful(self):
        return self.err is None


def _rt(x):
    return pickle.loads(pickle.dumps(x, protocol=pickle.HIGHEST_PROTOCOL))


class Pool:
    used = 0
    made = []           # [processes, tasks] of every pool

    def __init__(self, processes=None, initializer=None, initargs=(), **k):
        Pool.used += 1
        self.processes = processes
        self.count = [processes, 0]
        Pool.made.append(self.count)
        if initializer is not None:
            initializer(*initargs)

    def _do(self, fn, args, kw=None):
        self.count[1] += 1
        fn = _rt(fn)
        a, k = _rt((args, kw or {}))
        return _rt(fn(*a, **k))

    def starmap(self, fn, it, chunksize=None):
        return [self._do(fn, tuple(a)) for a in it]

    def map(self, fn, it, chunksize=None):
        return [self._do(fn, (a,)) for a in it]

    imap = map

    def apply(self, fn, args=(), kwds=None):
        return self._do(fn, args, kwds)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        try:
            r = Result(self._do(fn, args, kwds))
        except Exception as e:  # noqa: BLE001
            return Result(None, e)
        if callback:
            callback(r.v)
        return r

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return Result(self.starmap(fn, it))

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return Result(self.map(fn, it))

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Ctx:
    def __init__(self, real):
        self._real = real

    Pool = Pool

    def __getattr__(self, name):
        return getattr(self._real, name)


@contextmanager
def fake_pool(ncpu, modules=()):
    """multiprocessing in this process: pools are stand-ins, ncpu cores are available."""
    import os
    saved = {k: getattr(multiprocessing, k) for k in ("get_context", "Pool", "cpu_count")}
    osc = os.cpu_count
    real_get = saved["get_context"]
    multiprocessing.get_context = lambda method=None: Ctx(real_get(method))
    multiprocessing.Pool = Pool
    multiprocessing.cpu_count = lambda: ncpu
    os.cpu_count = lambda: ncpu
    patched = []
    for m in modules:
        for k, v in (("cpu_count", lambda: ncpu), ("get_context", multiprocessing.get_context), ("Pool", Pool)):
            if hasattr(m, k):
                patched.append((m, k, getattr(m, k)))
                setattr(m, k, v)
    try:
        yield Pool
    finally:
        for k, v in saved.items():
            setattr(multiprocessing, k, v)
        os.cpu_count = osc
        for m, k, v in patched:
            setattr(m, k, v)


def wait_tick():
    time.sleep(0)
