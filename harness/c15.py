"""C15: outlier flagging marks exactly the pixels that differ from the model."""
import numpy as np

from vlib import NAN, call, enc, main, rnd


def fl(x, dt="f4"):
    a = np.array(x, dtype=float)
    a[a == NAN] = np.nan
    return a.astype(dt)


def test(e):
    from stcal.outlier_detection import utils
    p, imgs, same = e["p"], [], True
    for x in e["imgs"]:
        sci, err, m = (fl(x[k], e["dt"]).reshape(-1, p["nc"]) for k in ("sci", "err", "m"))
        b = [a.copy() for a in (sci, err, m)]
        if e["kind"] == "plain":
            res, er = call(utils.flag_crs, sci, err, m, p["snr1"] / 4)
        else:
            res, er = call(utils.flag_resampled_crs, sci, err, m, p["snr1"] / 4, p["snr2"] / 4, p["scale1"] / 4, p["scale2"] / 4,
                           float(p["backg"]))
        if er:
            return dict(e, err=er, same=True)
        same = same and all(np.array_equal(u, v, equal_nan=True) for u, v in zip(b, (sci, err, m)))
        imgs.append(dict(x, out=np.asarray(res).astype(int).reshape(-1).tolist()))
    return dict(e, err="", imgs=imgs, same=bool(same))


def behaviours(bs, nc, size=64):
    by = {}
    for b in bs:
        by.setdefault(repr(b["set"]), []).append(b)
    for k in sorted(by):
        for a in range(0, len(by[k]), size):
            part = by[k][a:a + size]
            s = part[0]["set"]
            p = dict(zip(("snr1", "snr2", "scale1", "scale2", "backg"), s), nc=nc)
            for kind in ("resampled", "plain"):
                yield {"kind": kind, "p": p, "dt": "f4", "imgs": [{k: b[k] for k in ("sci", "err", "m")} for b in part]}


def holes(rng, a, share):
    return np.where(rng.random(a.shape) < share, NAN, a)


def image_case(rng):
    nr, nc = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    p = {"nc": nc, "snr1": int(rng.integers(0, 25)), "snr2": int(rng.integers(0, 20)), "scale1": int(rng.integers(0, 9)),
         "scale2": int(rng.integers(0, 6)), "backg": int(rng.choice([0, 0, 1, 3, -2]))}
    imgs = []
    for _ in range(4):
        n = nr * nc
        if rng.integers(2):
            m = rng.integers(0, 12, n)
        else:                        # a smooth model with a source
            m = np.full(n, 5)
            m[rng.integers(n)] = 40
        off = np.where(rng.random(n) < .3, rng.integers(-30, 60, n), rng.integers(-2, 3, n))
        sci = m + off + p["backg"]
        err = rng.integers(0, 6, n) if rng.integers(2) else np.full(n, int(rng.integers(1, 5)))
        hole = float(rng.choice([0, .08, .3]))
        imgs.append({"sci": holes(rng, sci, hole).tolist(), "m": holes(rng, m, hole).tolist(), "err": holes(rng, err, hole).tolist()})
    return {"kind": ["resampled", "resampled", "plain"][int(rng.integers(3))], "p": p, "imgs": imgs,
            "dt": ["f4", "f8"][int(rng.integers(2))]}


def filter_case(rng):
    from stcal.outlier_detection import utils
    nr, nc = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    kr, kc = (int(rng.choice([1, 3, 5])) for _ in range(2))
    x = holes(rng, rng.integers(-4, 15, nr * nc), float(rng.choice([0, .1, .7])))
    res, err = call(utils.medfilt, fl(x, "f8").reshape(nr, nc), [kr, kc])
    return {"kind": "filter", "x": x.tolist(), "nr": nr, "nc": nc, "kr": kr, "kc": kc, "err": err or "",
            "out": enc(np.asarray(res).reshape(-1), 2) if not err else []}


def weight_case(rng):
    from stcal.outlier_detection import utils
    n = int(rng.integers(1, 60))
    x = rng.integers(8, 13, n) if rng.integers(2) else rng.integers(0, 4, n)
    x = np.where(rng.random(n) < .08, rng.integers(0, 60, n), x)
    x = np.where(rng.random(n) < .15, 0, x)
    if rng.integers(8) == 0:
        x = np.where(rng.random(n) < .2, -x, x)
    x = holes(rng, x, .05)
    maskpt = int(rng.choice([1, 2, 3, 4]))
    shape = (n,) if n % 2 else (2, n // 2)
    res, err = call(utils.compute_weight_threshold, fl(x, ["f4", "f8"][int(rng.integers(2))]).reshape(shape), maskpt / 4)
    return {"kind": "weight", "x": x.tolist(), "maskpt": maskpt, "err": err or "", "out": rnd([res], 1000)[0] if not err else 0}


def run(c):
    r = c.model("OutlierMC", want_json=True)
    if c.thorough:
        c.model("OutlierMC", cfg="OutlierMC3.cfg")
    c.validate("OutlierTrace", [test(e) for e in behaviours(r.json, 2)], cfg="OutlierTrace.cfg", label="every small image")
    rng = c.nprng("random")
    events = [test(image_case(rng)) for _ in range(c.pick(2500, 30000))]
    events += [filter_case(rng) for _ in range(c.pick(500, 5000))] + [weight_case(rng) for _ in range(c.pick(1000, 10000))]
    c.validate("OutlierTrace", events, cfg="OutlierTrace.cfg", label="random images")


if __name__ == "__main__":
    main("C15", run)
