"""C12: linearity correction applies the polynomial exactly where it is valid."""
import numpy as np

from vlib import NAN, call, enc, main

SAT, NOLIN = 2, 1048576


def fl(x, dt):
    a = np.array(x, dtype=float)
    a[a == NAN] = np.nan
    return a.astype(dt)


def correct(data, gdq, pdq, lin, ldq, **k):
    from stcal.linearity import linearity
    return call(linearity.linearity_correction, data, gdq, pdq, lin, ldq,
                {"SATURATED": k.pop("sat", SAT), "NO_LIN_CORR": k.pop("nolin", NOLIN), "DO_NOT_USE": 1}, **k)


def adder(more, nr, nc):
    """An additional correction that depends on the column and on the counts."""
    a = np.array([m[0] for m in more], dtype=float).reshape(nr, nc)[0]
    b = more[0][1]

    def f(x):
        if x.shape[-1] != nc:
            raise ValueError("the last axis must span the detector")
        return a[None, None, :] + b * x
    return f


def execute(e):
    p = e["p"]
    nr, nc = e["dims"]
    dt = "f8" if e["ci"] else e.get("dt", "f4")
    data = fl(e["d"], dt)
    ni, ng = data.shape[:2]
    data = data.reshape(ni, ng, nr, nc)
    gdq = np.array(e["q"]).reshape(data.shape).astype("u1")
    pdq, ldq = (np.array(e[k]).reshape(nr, nc).astype("u4") for k in ("pdq", "ldq"))
    lin = fl(e["c"], dt).T.reshape(-1, nr, nc).copy()
    kw = {}
    if e["ci"]:
        kw = {"ilin_coeffs": fl(e["ci"], dt).T.reshape(-1, nr, nc).copy(), "read_pattern": [list(r) for r in p["reads"]]}
        if e["cap"]:
            kw["satval"] = np.array(e["cap"], dtype=float).reshape(nr, nc) / 6 * 5
        if any(m != [0, 0] for m in e["more"]):
            kw["additional_correction"] = adder(e["more"], nr, nc)
    if e["z"]:
        kw["zframe"] = fl(e["z"], dt).reshape(ni, nr, nc)
    g0 = gdq.copy()
    res, err = correct(data, gdq, pdq, lin, ldq, **kw)
    out = dict(e)
    out.update({"err": err or "", "out": [], "pdqout": [], "zout": [], "same": bool(np.array_equal(g0, gdq))})
    if err is None:
        s, q, z = res
        out["out"] = enc(s.reshape(ni, ng, -1), e["scale"], 1e-3)
        out["pdqout"] = np.asarray(q).astype(np.int64).reshape(-1).tolist()
        if e["z"]:
            out["zout"] = enc(z.reshape(ni, -1), 1, 1e-3)
    return out


def behaviours(bs):
    """Behaviours of LinearityMC, as the pixels of images with more rows than are worked on at a time."""
    by = {}
    for b in bs:
        s = b["set"]
        by.setdefault(repr((s["reads"], s["more"], s["cap"], len(s["c"]))), []).append(b)
    for k in sorted(by):
        g = by[k]
        step = 150 * 3
        for a in range(0, len(g), step):
            part = g[a:a + step]
            while len(part) % 3:
                part.append(part[-1])
            s = part[0]["set"]
            yield {"p": {"sat": SAT, "nolin": NOLIN, "reads": s["reads"], "h": 1, "u": 2}, "dims": [len(part) // 3, 3],
                   "scale": 16384, "d": [[[b["d"][i] for b in part] for i in range(3)]],
                   "q": [[[b["q"][i] for b in part] for i in range(3)]], "c": [b["set"]["c"] for b in part],
                   "ci": [b["set"]["ci"] for b in part], "ldq": [b["set"]["ldq"] for b in part], "pdq": [4] * len(part),
                   "more": [s["more"]] * len(part), "cap": [s["cap"][0]] * len(part) if s["cap"] else [], "z": []}


def polys(rng, n, cs, extra):
    return [[int(x) for x in (extra[int(rng.integers(len(extra)))] if rng.random() < 0.12 else cs[int(rng.integers(len(cs)))])]
            for _ in range(n)]


def flags(rng, ni, ng, n):
    """Mostly saturated from some group on, sometimes scattered."""
    q = np.zeros((ni, ng, n), dtype=int)
    first = rng.integers(0, ng + 6, (ni, n))
    for g in range(ng):
        q[:, g] |= np.where(first <= g, SAT, 0)
    q[rng.random(q.shape) < 0.04] ^= SAT
    q[rng.random(q.shape) < 0.1] |= 1
    q[rng.random(q.shape) < 0.1] |= 4
    return q


def classic_case(rng):
    nr, nc = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    ni, ng, n = int(rng.integers(1, 4)), int(rng.integers(1, 6)), nr * nc
    deg = int(rng.integers(1, 5))
    cs = [[int(rng.integers(-3, 4)), int(rng.choice([1, 2, -1]))] + rng.integers(-2, 3, deg - 1).tolist() for _ in range(6)]
    bad = [[0] * (deg + 1), [1, 0] + [2] * (deg - 1), [NAN, 1] + [1] * (deg - 1), [0, 2] + [1] * (deg - 2) + [NAN] * (deg > 1),
           [0, 1] + [0] * (deg - 1), [NAN] * (deg + 1), [1, NAN] + [0] * (deg - 1)]
    top = [0, 4000, 200, 40, 12][deg]
    d = rng.integers(-top // 8, top, (ni, ng, n))
    d = np.where(rng.random(d.shape) < 0.03, NAN, d)
    z = []
    if rng.integers(2):
        z = rng.integers(-2, top, (ni, n))
        z = np.where(rng.random(z.shape) < 0.25, 0, np.where(rng.random(z.shape) < 0.06, NAN, z)).tolist()
    return {"p": {"sat": SAT, "nolin": NOLIN, "reads": []}, "dims": [nr, nc], "scale": 1, "d": d.tolist(),
            "q": flags(rng, ni, ng, n).tolist(), "c": polys(rng, n, cs, bad), "ci": [],
            "ldq": rng.choice([0, 0, 0, 0, 1, 8, NOLIN, NOLIN | 2], n).tolist(), "pdq": rng.choice([0, 0, 1, 32], n).tolist(),
            "more": [[0, 0]] * n, "cap": [], "z": z, "dt": ["f4", "f8"][int(rng.integers(2))]}


# the mean reads are a power of two apart from the first, so that everything is exact
READS = [[[1], [2], [3], [5], [9]], [[1, 3], [4], [5, 7], [4, 8], [20]], [[2], [3, 5], [5, 7], [3, 5, 7, 9], [30, 40]],
         [[1, 2, 4, 5], [4], [5, 6, 8, 9], [3, 5], [11, 12]], [[1], [2], [3], [4, 6], [8, 9, 10, 11]]]


def deep_case(rng):
    nr, nc = [(int(rng.integers(1, 5)), int(rng.integers(1, 4))), (66, 1), (130, 1)][int(rng.choice([0, 0, 0, 0, 0, 0, 1, 2]))]
    ni, ng, n = int(rng.integers(1, 3)), int(rng.integers(2, 6)), nr * nc
    reads = READS[int(rng.integers(len(READS)))][:ng]
    if rng.integers(3):                  # curved correction, straight inverse
        cs, bad = [[1, 1, 1], [0, 2, 1], [1, 2, -1], [0, 1, 0], [-1, 2, 1]], [[0, 0, 1], [1, NAN, 1], [1, 2, NAN]]
        ics, ibad = [[0, 1], [1, 2], [2, 1], [-1, 3]], [[0, 0], [NAN, 1], [1, NAN]]
    else:
        cs, bad = [[0, 1], [1, 2], [-1, 2], [2, 1]], [[0, 0], [NAN, 2]]
        ics, ibad = [[0, 1, 1], [1, 2, -1], [0, 2, 1], [1, 1, 0]], [[1, 0, 1], [0, 1, NAN]]
    d = rng.integers(0, 4, (ni, ng, n))
    col = rng.integers(0, 6, nc)
    b = int(rng.choice([0, 0, 1]))
    on = bool(rng.integers(2))
    z = rng.integers(0, 9, (ni, n)).tolist() if rng.integers(3) == 0 else []
    return {"p": {"sat": SAT, "nolin": NOLIN, "reads": reads, "h": 1, "u": 4}, "dims": [nr, nc], "scale": 16384, "d": d.tolist(),
            "q": flags(rng, ni, ng, n).tolist(), "c": polys(rng, n, cs, bad), "ci": polys(rng, n, ics, ibad),
            "ldq": rng.choice([0] * 6 + [1, NOLIN], n).tolist(), "pdq": rng.choice([0, 0, 1, 32], n).tolist(),
            "more": [[int(col[j % nc]), b] if on else [0, 0] for j in range(n)],
            "cap": (rng.integers(1, 6, n) * 6).tolist() if rng.integers(2) else [], "z": z}


def bits(a):
    return np.ascontiguousarray(a).view("i4" if a.dtype.itemsize == 4 else "i8")


def images(a, npix):
    a = np.ascontiguousarray(a)
    v = a.reshape(-1, npix)
    if v.dtype.kind == "f":
        v = v.astype("f8").view("i8")
    v = v.astype(object)
    return {"shape": [0], "bits": [[f"{int(x):x}" for x in row] for row in v]}


def rows_case(rng):
    """Realistic numbers: the rows of an image in another order, and some of them alone."""
    nr, nc = int(rng.choice([3, 64, 65, 130])), 2
    ni, ng = int(rng.integers(1, 3)), int(rng.integers(2, 6))
    reads, k = [], 1
    for _ in range(ng):
        m = int(rng.integers(1, 6))
        reads.append(list(range(k, k + m)))
        k += m + int(rng.integers(0, 3))
    data = np.cumsum(rng.normal(900, 250, (ni, ng, nr, nc)), axis=1).astype("f4")
    q = flags(rng, ni, ng, nr * nc).reshape(data.shape).astype("u1")
    lin = np.array([5., 1.02, 2e-6, 3e-11])[:, None, None] * rng.normal(1, .05, (4, nr, nc))
    ilin = np.array([-5., .98, -2e-6, 1e-11])[:, None, None] * rng.normal(1, .05, (4, nr, nc))
    lin[:, rng.random((nr, nc)) < .1] = np.nan
    lin, ilin = lin.astype("f4"), ilin.astype("f4")
    ldq = rng.choice([0, 0, 0, NOLIN], (nr, nc)).astype("u4")
    pdq = rng.choice([0, 0, 1], (nr, nc)).astype("u4")
    z = np.where(rng.random((ni, nr, nc)) < .2, 0, rng.normal(500, 90, (ni, nr, nc))).astype("f4")
    sv = rng.normal(4000, 300, (nr, nc)).astype("f4") if rng.integers(2) else None
    deep = bool(rng.integers(4))
    corr = (lambda x: 3. + .01 * x + np.arange(nc, dtype=x.dtype)) if rng.integers(2) else None

    def go(order):
        kw = {"zframe": z[:, order].copy()}
        if deep:
            kw.update(ilin_coeffs=ilin[:, order].copy(), read_pattern=reads, additional_correction=corr,
                      satval=None if sv is None else sv[order].copy())
        res, err = correct(data[:, :, order].copy(), q[:, :, order].copy(), pdq[order].copy(), lin[:, order].copy(),
                           ldq[order].copy(), **kw)
        n = len(order) * nc
        return err or "", {} if err else {"data": images(res[0], n), "pixeldq": images(res[1], n), "zero": images(res[2], n)}
    e0, b0 = go(np.arange(nr))
    perm = rng.permutation(nr)[:int(rng.choice([nr, 1, max(1, nr // 2)]))]
    e1, b1 = go(perm)
    return {"whole": b0, "parts": b1, "err0": e0, "err1": e1, "perm": [int(r) * nc + k for r in perm for k in range(nc)],
            "reads": reads, "deep": deep, "changed": []}


def run(c):
    r = c.model("LinearityMC", want_json=True)
    c.validate("LinearityTrace", [execute(e) for e in behaviours(r.json)], cfg="LinearityTrace.cfg", label="every small ramp")
    rng = c.nprng("random")
    events = [execute(classic_case(rng)) for _ in range(c.pick(2500, 40000))]
    events += [execute(deep_case(rng)) for _ in range(c.pick(2500, 40000))]
    c.validate("LinearityTrace", events, cfg="LinearityTrace.cfg", label="random exposures")
    c.validate("SlicesTrace", [rows_case(rng) for _ in range(c.pick(150, 2000))], label="rows in another order")


if __name__ == "__main__":
    main("C12", run)
