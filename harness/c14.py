"""C14: the median stack (MedianComputer, nanmedian3D)."""
import os
import shutil
import tempfile

import numpy as np

from vlib import NAN, call, enc, main


def deco(frame, dtype):
    a = np.array(frame, dtype="float64")
    a[a == NAN] = np.nan
    return a.astype(dtype)


def laid(a, k):
    """The same image in another memory layout."""
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.zeros((2 * a.shape[0], 2 * a.shape[1]), dtype=a.dtype)
        b[::2, 1::2] = a
        return b[::2, 1::2]
    if k == 3:
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    return a


def life(base, n, rows, cols, mem, buf, dtype, ops):
    """Run one life of a stack on the real code; returns the trace event."""
    from stcal.outlier_detection.median import MedianComputer
    work = tempfile.mkdtemp(dir=base)
    item = np.dtype(dtype).itemsize
    ev = {"n": n, "rows": rows, "cols": cols, "mem": mem, "rowbytes": cols * item, "buf": buf or 0, "dtype": dtype,
          "ops": [], "everr": "", "med2": [], "dtypeOk": True}
    mc, err = call(MedianComputer, (n, rows, cols), mem, buffer_size=buf, dtype=dtype, tempdir=work)
    if err:
        ev["everr"] = err
        ev["left"] = 0
        return ev
    for k, op in enumerate(ops):
        data = laid(deco(op["data"], op.get("dtype", dtype)), (k + n + len(ops)) % 4)
        if op["idx"] < 0:
            _, err = call(mc.append, data)
        elif mem or op.get("pass_idx", True):
            _, err = call(mc.append, data, op["idx"])
        else:
            _, err = call(mc.append, data)
        ev["ops"].append({"idx": op["idx"], "data": op["data"], "shapeOk": op.get("shapeOk", True),
                          "typeOk": op.get("typeOk", True), "out": (err or "").split(":")[0]})
    m, err = call(mc.evaluate)
    if err:
        ev["everr"] = err
    else:
        ev["med2"] = enc(m, 2) if np.shape(m) == (rows, cols) else []
        ev["dtypeOk"] = m.dtype == np.dtype(dtype)
    ev["left"] = len(os.listdir(work))
    del mc
    shutil.rmtree(work, ignore_errors=True)
    return ev


def run(c):
    r = c.model("MedianMC")
    base = tempfile.mkdtemp(prefix="vc14.")
    evs = []
    try:
        # the model's behaviours, replayed
        behs = r.json
        rng = c.nprng("beh")
        idx = rng.permutation(len(behs))[: c.pick(1500, len(behs))]
        for k in idx:
            b = behs[int(k)]
            ops = [{"idx": o["idx"], "data": o["data"] if o["op"] == "append" else [[0]] * b["rows"],
                    "pass_idx": bool(rng.integers(2))} for o in b["ops"]]
            buf = [None, 1, 4 * b["n"], 8 * b["n"], 4 * b["n"] * b["rows"], 1 << 20][int(rng.integers(6))]
            evs.append(life(base, b["n"], b["rows"], 1, b["mem"], buf, "float32", ops))
        # larger random stacks
        for _ in range(c.pick(400, 3000)):
            n, rows, cols = (int(rng.integers(1, 10)), int(rng.integers(1, 13)), int(rng.integers(1, 5)))
            mem = bool(rng.integers(3) == 0)
            dtype = ["float32", "float64"][int(rng.integers(2))]
            row = cols * np.dtype(dtype).itemsize
            buf = [None, 0, 1, row * n, 2 * row * n - 1, 2 * row * n, 3 * row * n, 3 * row * n + row, rows * row * n,
                   1 << 24][int(rng.integers(10))]
            pnan = [0, 0.2, 0.9][int(rng.integers(3))]

            def frame(shape=(rows, cols)):
                a = rng.integers(-20, 20, size=shape)
                return np.where(rng.random(shape) < pnan, NAN, a).tolist()
            order = list(range(n)) if not mem else rng.permutation(n).tolist()
            full = bool(rng.integers(4)) or mem
            ops = []
            for i in order[: n if full else max(1, int(rng.integers(1, n + 1)))]:
                if rng.random() < 0.1:      # refused appends in between
                    kind = int(rng.integers(2))
                    if kind == 0:
                        shape = (rows + 1, cols + 1) if rows == cols or rng.integers(2) else (cols, rows)
                        if rng.integers(3) == 0 and (rows, cols) != (1, 1):     # numpy would repeat these
                            shape = [(1, cols), (rows, 1), (1, 1)][int(rng.integers(3))]
                            shape = (rows + 1, cols + 1) if shape == (rows, cols) else shape
                        ops.append({"idx": i, "data": frame(shape), "shapeOk": False})
                    elif mem:
                        ops.append({"idx": -1, "data": frame()})
                    else:
                        other = ["float64", "int32"] if dtype == "float32" else ["float32", "int64"]
                        ops.append({"idx": i, "data": frame(), "typeOk": False, "dtype": other[int(rng.integers(2))]})
                ops.append({"idx": i, "data": frame(), "pass_idx": bool(rng.integers(2))})
            if rng.random() < 0.3 and (full or mem):
                ops.append({"idx": n, "data": frame(), "pass_idx": bool(rng.integers(2))})
            evs.append(life(base, n, rows, cols, mem, buf, dtype, ops))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    c.validate("MedianTrace", evs, label="median stack")


if __name__ == "__main__":
    main("C14", run)
