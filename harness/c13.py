"""C13: dark subtraction uses the matching, averaged dark for every group."""
import numpy as np

from vlib import NAN, call, enc, main


def fl(x):
    a = np.array(x, dtype=float)
    a[a == NAN] = np.nan
    return a


class Model:
    """Stands in for a data model."""


def model(data, **kw):
    m, m.meta = Model(), Model()
    m.meta.exposure = Model()
    m.data = data
    for k, v in kw.items():
        setattr(m if k in ("dq", "groupdq", "pixeldq") else m.meta.exposure, k, v)
    return m


def execute(e):
    from stcal.dark_current import dark_sub
    p = e["p"]
    nr, nc = e["dims"]
    d = fl(e["d"]).reshape(p["ni"], p["ng"], nr, nc).astype("f4")
    dark = fl(e["dark"]).astype("f4")
    nd, dng = dark.shape[:2]
    dark = dark.reshape((nd, dng, nr, nc) if e["four"] else (dng, nr, nc))
    ddq = np.array(e["ddq"]).astype("u4")
    ddq = ddq.reshape((nd, 1, nr, nc) if e["four"] else (nr, nc))
    pdq = np.array(e["pdq"]).reshape(nr, nc).astype("u4")
    gdq = np.zeros(d.shape, "u1")
    sci = dict(groupdq=gdq, pixeldq=pdq, nframes=p["nf"], groupgap=p["gap"])
    if e["known"]:
        sci["integration_start"] = p["start"] or None
    ms, md = model(d, **sci), model(dark, dq=ddq, nframes=p["dnf"], ngroups=dng, groupgap=p["dgap"])
    before = (d.copy(), pdq.copy())
    res, err = call(dark_sub.do_correction, ms, md, "dark.fits" if e["save"] else None)
    out = dict(e)
    out.update({"rate": e.get("rate", []), "err": err or "", "out": [], "pdqout": [], "avg": [], "has": False, "named": False, "meta": [], "status": "",
                "same": bool(np.array_equal(before[0], d, equal_nan=True) and np.array_equal(before[1], pdq))})
    if err is None:
        s, a = res
        out["status"] = s.cal_step
        out["out"] = enc(s.data.reshape(p["ni"], p["ng"], -1))
        out["pdqout"] = np.asarray(s.pixeldq).astype(np.int64).reshape(-1).tolist()
        out["has"] = a is not None
        if a is not None:
            out["named"] = bool(a.save) and a.output_name == "dark.fits"
            out["meta"] = [int(a.exp_nframes), int(a.exp_ngroups), int(a.exp_groupgap)]
            out["avg"] = enc(a.data.reshape(nd, -1, nr * nc))
    return out


def behaviour(b, k):
    p, nd, dng = b["p"], b["nd"], b["dng"]
    n = max(nd, 1)
    dark = [[[12 * (100 * (i + 1) + f * f), NAN if f == 2 else 12 * (i + 1 + f)] for f in range(1, dng + 1)]
            for i in range(n)]
    d = [[[1000 * i + 50 * g + j for j in range(2)] for g in range(p["ng"])] for i in range(p["ni"])]
    return {"p": p, "dims": [1, 2] if k % 2 else [2, 1], "d": d, "dark": dark, "ddq": [[1 << i, 8] for i in range(n)],
            "four": nd > 0, "pdq": [64, 0], "known": p["start"] > 0, "save": k % 3 == 0}


def random_case(rng):
    four = bool(rng.integers(2))
    nd = int(rng.integers(1, 5)) if four else 1
    nf, gap = int(rng.choice([1, 2, 3, 4, 6])), int(rng.choice([0, 0, 1, 2, 5]))
    dnf, dgap = [(1, 0), (1, 0), (1, 0), (nf, gap), (nf, gap), (int(rng.integers(nf, nf + 3)), gap + 1)][int(rng.integers(6))]
    ng, ni = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    # the dark's frames are averaged one by one, so that it must have been read frame by frame, or as the science
    need = ng * nf + (ng - 1) * gap
    dng = max(2, need + int(rng.choice([-9, -4, -2, -1, 0, 1, 3]))) if (dnf, dgap) == (1, 0) else \
        max(2, ng + int(rng.integers(-2, 3)))
    nr, nc = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    n = nr * nc
    dark = np.cumsum(rng.integers(-3, 20, (nd, dng, n)), axis=1) * 12
    dark = np.where(rng.random(dark.shape) < 0.06, NAN, dark)
    d = rng.integers(-50, 2000, (ni, ng, n))
    d = np.where(rng.random(d.shape) < 0.04, NAN, d)
    start = int(rng.choice([0, 1, 1, 2, 3]))
    p = {"nf": nf, "gap": gap, "ng": ng, "ni": ni, "start": start, "dnf": dnf, "dgap": dgap}
    return {"p": p, "dims": [nr, nc], "d": d.tolist(), "dark": dark.tolist(), "four": four,
            "ddq": rng.choice([0, 0, 1, 2, 16, 2 ** 20], (nd, n)).tolist(), "pdq": rng.choice([0, 0, 1, 4], n).tolist(),
            "known": start > 0 or bool(rng.integers(2)), "save": bool(rng.integers(2))}


def averaged_dark_case(rng):
    """A dark whose groups are averages of frames themselves, or are not consecutive."""
    nf, gap = int(rng.integers(3, 6)), int(rng.integers(0, 4))
    while True:
        dnf, dgap = int(rng.integers(1, nf + 1)), int(rng.integers(0, gap + 1))
        if (dnf, dgap) not in ((1, 0), (nf, gap)):
            break
    ng, ni, n = int(rng.integers(1, 5)), int(rng.integers(1, 3)), 2
    need = ng * nf + (ng - 1) * gap
    dng = max(2, -(-need // (dnf + dgap)) + 1)
    rate = rng.integers(1, 9, n) * 24
    dark = [[(rate // 2 * (2 * h * (dnf + dgap) + dnf + 1)).tolist() for h in range(dng)]]
    p = {"nf": nf, "gap": gap, "ng": ng, "ni": ni, "start": 0, "dnf": dnf, "dgap": dgap}
    return {"p": p, "dims": [1, n], "d": rng.integers(0, 999, (ni, ng, n)).tolist(), "dark": dark, "four": False,
            "ddq": [[0] * n], "pdq": [0] * n, "known": False, "save": False, "rate": rate.tolist()}


def run(c):
    r = c.model("DarkMC", want_json=True)
    events = [execute(behaviour(b, k)) for k, b in enumerate(r.json)]
    c.validate("DarkTrace", events, cfg="DarkTrace.cfg", label="every small read-out")
    rng = c.nprng("random")
    events = [execute(random_case(rng)) for _ in range(c.pick(4000, 60000))]
    c.validate("DarkTrace", events, cfg="DarkTrace.cfg", label="random exposures")
    events = [execute(averaged_dark_case(rng)) for _ in range(40)]
    c.validate("DarkTrace", events, cfg="DarkTrace.cfg", label="averaged darks", known={"time": "averaged-dark"})


if __name__ == "__main__":
    main("C13", run)
