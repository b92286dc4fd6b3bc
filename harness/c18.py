"""C18: sky matching equalizes the images and never invents sky."""
import itertools

import numpy as np

from vlib import NAN, MachineryError, call, each, main, rnd, spare, spread

K = 200          # sky values are compared in units of 1/K
S = 1e-4         # degrees per pixel
METHODS = {"local": "local", "global": "global", "match": "match", "both": "global+match"}


class Stat:
    """Measures the sky of a set of pixels; records what it was given."""

    def __init__(self, p, log=None):
        self.p, self.log = p, log

    def __call__(self, data):
        p = self.p
        if self.log is not None:
            self.log.append(data.copy())
            return 1.0, data.size
        use = data[~((data < p["lower"] / K) | (data > p["upper"] / K))]
        if use.size < max(1, p["need"]):
            if p["refuse"]:
                raise ValueError("too few")
            return np.nan, use.size
        return (use.mean() if p["stat"] == "mean" else use.min()), use.size


def wcs(o, flip, turn):
    """A straight projection: image m lies at o (pixels), perhaps mirrored or turned."""
    fx, fy = flip

    def fwd(x, y, with_bounding_box=None):
        x, y = fx * np.asarray(x, dtype=float), fy * np.asarray(y, dtype=float)
        if turn:
            x, y = y, x
        return 10 + (x + o[0]) * S, (y + o[1]) * S

    def inv(r, d, with_bounding_box=None):
        x, y = (np.asarray(r, dtype=float) - 10) / S - o[0], np.asarray(d, dtype=float) / S - o[1]
        if turn:
            x, y = y, x
        return fx * x, fy * y
    return fwd, inv


def places(m):
    """Places of the pixel centres and the borders, in quarters of a pixel."""
    (ny, nx), (fwd, _) = m["shape"], wcs(m["o"], m["flip"], m["turn"])
    y, x = np.mgrid[:ny, :nx]

    def at(x, y):
        r, d = fwd(x, y)
        return np.rint((np.asarray(r) - 10) / S * 4).astype(int), np.rint(np.asarray(d) / S * 4).astype(int)
    px, py = at(x.ravel(), y.ravel())
    cx, cy = at(np.array([-.5, nx - .5]), np.array([-.5, ny - .5]))
    return [list(map(int, q)) for q in zip(px, py)], [int(cx.min()), int(cx.max()), int(cy.min()), int(cy.max())]


def overlaps(ims):
    """Which pixels of each image lie under each other image, as the code measures them."""
    from stcal.skymatch.skyimage import SkyImage
    logs = [[] for _ in ims]
    probes = []
    for m, log in zip(ims, logs):
        n = int(np.prod(m["shape"]))
        probes.append(SkyImage(np.arange(n, dtype=float).reshape(m["shape"]), np.ones(m["shape"], bool), *wcs(m["o"], m["flip"], m["turn"]),
                               Stat(None, log), stepsize=m["step"]))
    ov = []
    for a, log in zip(probes, logs):
        row = []
        for b in probes:
            log.clear()
            if a is not b:
                a.calc_sky(overlap=b)
            row.append(sorted({int(v) + 1 for d in log for v in d}))
        ov.append(row)
    return ov


def build(ims, item, p):
    from stcal.skymatch.skyimage import SkyGroup, SkyImage
    im = []
    for m in ims:
        a = np.array(m["v"], dtype=float)
        a[a == NAN] = np.nan
        im.append(SkyImage(a.reshape(m["shape"]), np.array(m["mask"], bool).reshape(m["shape"]), *wcs(m["o"], m["flip"], m["turn"]),
                           p["skystat"], stepsize=m["step"]))
    return im, [im[g[0] - 1] if len(g) == 1 and not p["single"] else SkyGroup([im[i - 1] for i in g]) for g in item]


def state(im, item, ims, ov):
    return {"item": item, "v": [rnd(x.image.ravel(), K) for x in im], "sky": rnd([x.sky for x in im], K),
            "ok": [bool(x.is_sky_valid) for x in im], "mask": [[i + 1 for i, b in enumerate(m["mask"]) if b] for m in ims], "ov": ov}


def history(ims, item, p, calls, ov=None):
    """Events of calls one after another on the same images."""
    from stcal.skymatch import skymatch
    if ov is None:
        ov, err = call(overlaps, ims)
        if err:
            yield {"err": err, "p": {k: p[k] for k in p if k != "skystat"}}
            return
    if not p.get("skystat"):
        p = dict(p, skystat=Stat(p))
    made, err = call(build, ims, item, p)
    if err:              # the spherical geometry package cannot join every set of polygons
        return
    im, items = made
    pos, rect = zip(*(places(m) for m in ims))
    for method, down, sub in calls:
        before = state(im, item, ims, ov)
        kw = spare({"skymethod": METHODS[method], "match_down": bool(down), "subtract": bool(sub)}, len(ims) != 2, skymethod="global+match", match_down=True, subtract=False)
        _, err = call(skymatch, items, **kw)
        after = state(im, item, ims, ov)
        yield {"p": {"stat": p["stat"], "need": max(1, p["need"]), "lower": p["lower"], "upper": p["upper"], "method": method, "down": bool(down),
                     "subtract": bool(sub)},
               "s": before, "out": {k: after[k] for k in ("v", "sky", "ok")}, "err": err or "", "pos": pos, "rect": rect}


FREE = {"stat": "mean", "need": 1, "lower": -10**9, "upper": 10**9, "refuse": True, "single": False}


def layouts():
    """Three images of 3x4 pixels for each graph of overlaps."""
    out = {}
    for o in itertools.product([(0, 0)], [(2, 0), (0, 9), (9, 0), (6, 0), (3, 0)], [(4, 0), (1, 1), (20, 20), (0, 2), (11, 0), (2, 9), (-3, 0), (3, 0)]):
        ims = [{"shape": (3, 4), "o": [q[0] + i * .17, q[1] + i * .34], "flip": [1, 1], "turn": False, "step": None} for i, q in enumerate(o)]
        ov, err = call(overlaps, ims)
        if err:
            continue
        g = tuple(bool(ov[a][b]) for a, b in ((0, 1), (0, 2), (1, 2)))
        if g == tuple(bool(ov[b][a]) for a, b in ((0, 1), (0, 2), (1, 2))):
            out.setdefault(g, (ims, ov))
    return out


LAYOUTS = {}


def replay(b):
    ov = b["ov"]
    ims, real = LAYOUTS[tuple(bool(ov[i][j]) for i, j in ((0, 1), (0, 2), (1, 2)))]
    ims = [dict(m, v=[b["v"][i][0]] * 12, mask=[bool(b["mask"][i])] * 12) for i, m in enumerate(ims)]
    return history(ims, [[1], [2], [3]], FREE, b["calls"], real)


def random_case(rng):
    n = int(rng.integers(1, 6))
    ims, tight = [], int(rng.integers(3, 14))
    for i in range(n):
        shape = (int(rng.integers(2, 6)), int(rng.integers(2, 6)))
        o = rng.integers(0, tight, 2) + np.array([i, (2 * i) % 5]) * .17      # borders of two images are not close together
        lvl = int(rng.integers(-15, 16))
        v = lvl + rng.integers(0, 12, shape)
        mask = rng.random(shape) < float(rng.choice([1, 1, .7, .2, 0]))
        v = np.where((rng.random(shape) < .1) & ~mask, NAN, v)
        if rng.integers(12) == 0:
            v.ravel()[0] = NAN
        ims.append({"shape": shape, "o": o.tolist(), "flip": rng.choice([1, 1, -1], 2).tolist(), "turn": bool(rng.integers(3) == 0),
                    "step": [None, None, 1, 2][int(rng.integers(4))], "v": v.ravel().tolist(), "mask": mask.ravel().tolist()})
    item, left = [], list(rng.permutation(n) + 1)
    while left:
        k = int(rng.choice([1, 1, 2, 3]))
        item.append([int(i) for i in left[:k]])
        left = left[k:]
    p = dict(FREE, stat=["mean", "mean", "min"][int(rng.integers(3))], need=int(rng.choice([1, 1, 3])), refuse=bool(rng.integers(2)),
             single=bool(rng.integers(3) == 0))
    if rng.integers(4) == 0:                       # the measure that the package supplies
        from stcal.skymatch.skystatistics import SkyStats
        p.update(stat="mean", need=1, skystat=SkyStats("mean", nclip=0))
    if "skystat" not in p and rng.integers(3) == 0:
        p.update(lower=int(rng.integers(-20, 0)) * K + K // 2, upper=int(rng.integers(5, 30)) * K + K // 2)
    calls = [(list(METHODS)[int(rng.integers(4))], bool(rng.integers(2)), bool(rng.integers(2))) for _ in range(int(rng.integers(1, 4)))]
    return ims, item, p, calls


def measured(rng):
    """One measurement of the sky with clipping."""
    from stcal.skymatch.skystatistics import SkyStats
    n = int(rng.integers(1, 13))
    v = rng.integers(10, 14 + int(rng.choice([0, 3, 12])), n)
    for _ in range(int(rng.integers(0, 3))):
        v[rng.integers(n)] = rng.integers(0, 31)
    c = {"stat": ["mean", "median"][int(rng.integers(2))], "lower": -1000, "upper": 1000, "nclip": int(rng.integers(0, 5)),
         "lsig": int(rng.integers(2, 9)), "usig": int(rng.integers(2, 9))}
    kw = {"skystat": c["stat"], "nclip": c["nclip"], "lsig": c["lsig"] / 2, "usig": c["usig"] / 2}
    if rng.integers(5) == 0:
        for k, d in (("nclip", 5), ("lsig", 8), ("usig", 8)):
            if rng.integers(2):
                c[k] = d
                kw.pop(k)
        if c["stat"] == "mean":
            kw.pop("skystat")
    for k, lo, hi in (("lower", 0, 12), ("upper", 12, 25)):
        if c["nclip"] > 0 and rng.integers(3) == 0:
            c[k] = int(rng.integers(lo, hi))
            kw[k] = c[k] + (.25 if k == "upper" else -.25)
    a = v.astype(float) if rng.integers(2) else v.astype(np.float32)
    st, err = call(SkyStats, **kw)
    a0 = a.copy()
    for _ in range(int(rng.integers(1, 3))):
        got, err = (None, err) if err else call(st.calc_sky if rng.integers(2) else st, a)
    return {"c": c, "v": v.tolist(), "K": K, "got": [int(rnd([got[0]], K)[0]), int(got[1])] if not err else [0, 0],
            "kept": bool(np.array_equal(a, a0)), "err": (err or "").split(":")[0]}


def random_history(rng):
    return list(history(*random_case(rng)))


def run(c):
    r = c.model("SkyMC", want_json=True)
    if c.thorough:
        c.model("SkyMC", cfg="SkyMCG.cfg", timeout=1500)
    rng = c.nprng("pick")
    bs = r.json
    pick = [bs[i] for i in sorted(rng.choice(len(bs), min(len(bs), c.pick(900, 15000)), replace=False))]
    LAYOUTS.update(layouts())
    if len(LAYOUTS) < 8:
        raise MachineryError(f"only {len(LAYOUTS)} graphs of overlaps")
    c.validate("SkyTrace", each(replay, pick), cfg="SkyTrace.cfg", label="every graph of three images")
    ev = spread(c, random_history, c.pick(600, 8000), "random")
    c.validate("SkyTrace", ev, cfg="SkyTrace.cfg", label="random images")
    c.validate("SkyTrace", spread(c, measured, c.pick(3000, 60000), "measured"), cfg="SkyTrace.cfg", label="measures of the sky")


if __name__ == "__main__":
    main("C18", run)
