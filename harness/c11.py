"""C11: saturation is complete, persistent, grows by the requested box and never removes flags."""
import numpy as np

from vlib import NAN, call, main

F = {"dnu": 1, "sat": 2, "floor": 64, "nochk": 2097152}
PATTERNS = [[], [[1], [2, 3], [4, 5], [6], [7, 8], [9]], [[1, 2], [3, 4], [9, 12], [13, 16], [17, 20], [21, 24]],
            [[1, 2, 3, 4], [5, 6, 7, 8], [9, 10, 11, 12], [13, 14, 15, 16], [17, 20], [30, 40]],
            [[1], [2], [3], [4], [5], [6]], [[1, 2], [10, 20, 30], [31, 40], [50], [60, 70], [71, 80]]]


def fl(x):
    a = np.array(x, dtype=float)
    a[a == NAN] = np.nan
    return a


def ints(a):
    a = np.asarray(a, dtype=float)
    return np.where(np.isnan(a), NAN, np.nan_to_num(a)).astype(np.int64)


def execute(e):
    from stcal.saturation.saturation import flag_saturated_pixels
    p, f = e["p"], e["p"]["F"]
    nr, nc = e["nr"], p["nc"]
    d = fl(e["d"])
    ni, ng = d.shape[:2]
    data = d.reshape(ni, ng, nr, nc).astype("f4")
    full = data.shape
    sh = full if e["four"] else (nr, nc)
    gdq = np.array(e["q"]).reshape(full).astype(e.get("gdt", "u1"))
    pdq = np.array(e["pdq"]).reshape(sh).astype("u4")
    thr, sdq = fl(e["thr"]).reshape(sh).astype("f4"), np.array(e["sdq"]).reshape(sh).astype("u4")
    bias = None
    if e["bias"]:
        b = np.array(e["bias"], dtype="f4")
        bias = (np.repeat(b.reshape(ni, 1, nr, nc), ng, axis=1) if e["four"] else b.reshape(nr, nc))
    z = fl(e["z"]).reshape(ni, nr, nc).astype("f4") if e["z"] else None
    before = data.copy()
    flags = {"DO_NOT_USE": f["dnu"], "SATURATED": f["sat"], "AD_FLOOR": f["floor"], "NO_SAT_CHECK": f["nochk"]}
    kw = {k: v for k, v in (("zframe", z), ("read_pattern", [list(r) for r in p["reads"]] or None), ("bias", bias)) if v is not None or nr % 2}
    if p["grow"] != 1 or nc % 2:
        kw["n_pix_grow_sat"] = p["grow"]
    res, err = call(flag_saturated_pixels, data, gdq, pdq, thr, sdq, p["limit"], flags, **kw)
    out = dict(e)
    out.update({"err": err or "", "out": [], "zout": [], "pdqout": [], "same": bool(np.array_equal(before, data, equal_nan=True))})
    if err is None:
        g, pq, zf = res
        out["out"] = np.asarray(g).astype(np.int64).reshape(ni, ng, -1).tolist()
        out["pdqout"] = np.asarray(pq).astype(np.int64).reshape((ni, ng, -1) if e["four"] else (-1,)).tolist()
        if e["z"]:
            out["zout"] = ints(zf).reshape(ni, -1).tolist()
    return out


def behaviours(bs, npx, size=128):
    """Behaviours of SaturationMC, many integrations in one call."""
    by = {}
    for b in bs:
        by.setdefault(repr((b["set"], b["thr"])), []).append(b)
    for k in sorted(by):
        g = by[k]
        for a in range(0, len(g), size):
            part = g[a:a + size]
            s = part[0]["set"]
            yield {"p": {"F": F, "nc": npx, "grow": s["grow"], "reads": s["reads"], "limit": 100}, "nr": 1, "four": False,
                   "d": [b["d"] for b in part], "q": [[[0] * npx for _ in b["d"]] for b in part], "thr": part[0]["thr"],
                   "sdq": [0] * npx, "pdq": [0] * npx, "bias": [10] * npx if s["reads"] else [], "z": []}


def random_case(rng):
    nr, nc = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    ni, ng = int(rng.integers(1, 4)), int(rng.integers(1, 7))
    four = bool(rng.integers(4) == 0)
    n = nr * nc
    small = bool(rng.integers(2))                  # flags of one byte
    f = dict(F, floor=64 if small else 4096, nochk=2097152)
    p = {"F": f, "nc": nc, "grow": int(rng.choice([0, 1, 1, 1, 2, 3])),
         "reads": PATTERNS[int(rng.integers(len(PATTERNS)))][:ng] if ng > 1 else [], "limit": int(rng.choice([100, 65535]))}
    top = 60
    base = rng.integers(1, 70, (ni, 1, n)) // int(rng.choice([1, 2, 5]))
    step = rng.integers(0, 40, (ni, ng, n)) // int(rng.choice([1, 2, 8, 8]))
    d = base + np.cumsum(step, axis=1)
    d = np.where(rng.random(d.shape) < 0.08, 0, d)
    d = np.where(rng.random(d.shape) < 0.05, rng.integers(-5, 130, d.shape), d)
    d = np.where(rng.random(d.shape) < 0.04, NAN, d)
    sparse = rng.random() < 0.5                    # few saturated pixels, so that growth shows
    if sparse:
        d = np.where((d != NAN) & (d > 50) & (rng.random((ni, 1, n)) < 0.9), 50, d)
    q = np.zeros(d.shape, dtype=int)
    q[rng.random(d.shape) < 0.03] |= f["sat"]
    q[rng.random(d.shape) < 0.05] |= f["dnu"]
    q[rng.random(d.shape) < 0.05] |= 4
    q[rng.random(d.shape) < 0.05] |= 16
    sh = (ni, ng, n) if four else (n,)
    thr = rng.integers(top - 8, top + 9, sh)
    thr = np.where(rng.random(sh) < 0.1, NAN, thr)
    thr = np.where(rng.random(sh) < 0.03, 5, thr)
    sdq = rng.choice([0, 0, 0, 0, 0, 4, f["nochk"], f["nochk"] | 4, 1], sh)
    pdq = rng.choice([0, 0, 0, 1, 8], sh)
    bias = []
    if rng.integers(2):
        bias = rng.integers(0, 15, (ni, n) if four else (n,)).tolist()
    z = []
    if rng.integers(2):
        z = np.where(rng.random((ni, n)) < 0.1, NAN, rng.integers(-3, 75, (ni, n))).tolist()
    return {"p": p, "nr": nr, "four": four, "d": d.tolist(), "q": q.tolist(), "thr": thr.tolist(), "sdq": sdq.tolist(),
            "pdq": pdq.tolist(), "bias": bias, "z": z, "gdt": "u1" if small else "u4"}


def run(c):
    r = c.model("SaturationMC", want_json=True)
    c.model("SaturationMC", cfg="SaturationMC3.cfg") if c.thorough else None
    events = [execute(e) for e in behaviours(r.json, 2)]
    c.validate("SaturationTrace", events, cfg="SaturationTrace.cfg", label="every integration over a few values")
    rng = c.nprng("random")
    events = [execute(random_case(rng)) for _ in range(c.pick(2500, 40000))]
    c.validate("SaturationTrace", events, cfg="SaturationTrace.cfg", label="random exposures")
    c.extra["rejected_inputs"] = 0


if __name__ == "__main__":
    main("C11", run)
