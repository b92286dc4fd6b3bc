"""Histories of a mosaic (Resample), recorded step by step: used by C16 and C17."""
import functools

import numpy as np

from vlib import NAN, call, rnd, spare

SC = 2e-5                          # degrees per input pixel
VARS = {"rn": "var_rnoise", "ps": "var_poisson", "fl": "var_flat", "sky": "var_sky"}


@functools.lru_cache(maxsize=4000)
def mkwcs(o, scale, shape, box, spectral=False):
    """A gnomonic projection whose pixel o is the same place on the sky for every image (and, if spectral, its columns wavelengths)."""
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling import models as am
    from gwcs import coordinate_frames as cf
    from gwcs import wcs as gw
    t = (am.Shift(-o[0]) & am.Shift(-o[1]) | am.Scale(SC * scale) & am.Scale(SC * scale) | am.Pix2Sky_TAN()
         | am.RotateNative2Celestial(10.0, 5.0, 180.0))
    world = cf.CelestialFrame(name="world", axes_names=("lon", "lat"), reference_frame=coord.ICRS())
    if spectral:
        back = t.inverse
        t = am.Mapping((0, 1, 0)) | t & am.Polynomial1D(1, c0=1., c1=.01)
        t.inverse = am.Mapping((0, 1), n_inputs=3) | back
        world = cf.CompositeFrame([cf.CelestialFrame(name="sky", reference_frame=coord.ICRS(), axes_order=(0, 1)),
                                   cf.SpectralFrame(name="lam", unit=u.um, axes_order=(2,))], name="world")
    w = gw.WCS([(cf.Frame2D(name="detector"), t), (world, None)])
    w.array_shape = shape
    if box:
        w.bounding_box = box
    return w


def arr(x, shape, dt="f4"):
    a = np.array(x, dtype=float)
    a[a == NAN] = np.nan
    return a.reshape(shape).astype(dt)


def place(p, m):
    """Where the pixels of a model fall: numbers of output pixels, 0 outside."""
    ny, nx = m["shape"]
    oy, ox = p["shape"]
    y, x = np.mgrid[:ny, :nx]
    X, Y = (np.floor((g - o) / p["ratio"] + c + .5).astype(int) for g, o, c in ((x, m["o"][0], p["o"][0]), (y, m["o"][1], p["o"][1])))
    inside = (X >= 0) & (X < ox) & (Y >= 0) & (Y < oy)
    if m["box"]:
        (x0, x1), (y0, y1) = m["box"]
        inside &= (x >= x0) & (x <= x1) & (y >= y0) & (y <= y1)
        # the drizzle package ignores pixels next to one that has no place: the model has to flag these
    return np.where(inside, Y * ox + X + 1, 0).ravel().tolist()


def model(m, p):
    shape = tuple(m["shape"])
    none = [None, np.zeros((0,), "f4"), np.ones((shape[0] + 1, shape[1]), "f4")][m.get("none", 0)]
    d = {"data": arr(m["v"], shape, m.get("dt", "f4")), "dq": np.array(m["q"]).reshape(shape).astype("u4"), "filename": "x", "group_id": m["group"],
         "wcs": mkwcs(tuple(m["o"]), 1, shape, tuple(map(tuple, m["box"])) if m["box"] else None, bool(p.get("spectral"))), "exposure_time": m["exp"] / 4,
         "start_time": m["start"] / 4, "end_time": m["end"] / 4, "duration": None if m["dur"] == NAN else m["dur"] / 4,
         "measurement_time": None if m["meas"] == NAN else m["meas"] / 4, "pixelarea_steradians": (np.deg2rad(SC) * m.get("area", 1)) ** 2,
         "level": None if m["level"] == NAN else float(m["level"]), "subtracted": m["taken"], "err": arr(m["er"], shape)}
    for k, name in VARS.items():
        d[name] = arr(m[k], shape) ** 2 if m[k] else none
    if p.get("spectral"):
        d["bunit_data"] = p["unit"]
        if p["unit"] == "Jy" and p["flux"] == 1 and p["spread"] > 1:
            d["pixelarea_steradians"] = None
    if not m["sky"] and m.get("none", 0) == 0:
        del d["var_sky"]
    return d


def context(con, n):
    if con is None:
        return []
    con = np.asarray(con)
    return [[32 * z + b + 1 for z in range(con.shape[0]) for b in range(32) if (int(con[z].ravel()[j]) >> b) & 1] for j in range(n)]


def observe(r, p, before, after):
    om = r.output_model
    n = p["n"]
    t = lambda k: NAN if om.get(k) is None else rnd([om[k]], 4)[0]          # noqa: E731
    g = lambda k, s: [] if om.get(k) is None else rnd(np.asarray(om[k]).ravel(), s)   # noqa: E731
    err = om.get("err")
    ob = {"fin": bool(r.is_finalized()), "pointings": int(om["pointings"]), "groups": list(r.group_ids), "exp": t("exposure_time"),
          "start": t("start_time"), "end": t("end_time"), "dur": t("duration"), "elapsed": t("elapsed_exposure_time"), "meas": t("measurement_time"),
          "ratio": NAN if om.get("pixel_scale_ratio") is None else rnd([om["pixel_scale_ratio"]], 1000)[0],
          "area": [rnd([om["pixelarea_arcsecsq"] ** .5 / (SC * 3600 * p["ratio"])], 1000)[0],
                   rnd([om["pixelarea_steradians"] ** .5 / np.deg2rad(SC * p["ratio"])], 1000)[0]],
          "data": g("data", 1000), "wht": g("wht", p["wu"]), "con": context(om.get("con"), n), "dq": g("dq", 1),
          "err": g("err", 1000), "err2": [] if err is None else rnd(np.asarray(err, dtype=float).ravel() ** 2, 1000),
          "same": all(np.array_equal(a, b, equal_nan=True) for a, b in zip(before, after))}
    for k in ("rn", "ps", "fl"):
        ob[k] = g(VARS[k], 1000)
    return ob


def words(p):
    """The flags to ignore as words: those that do no harm, or (with a tilde) those that do."""
    name = (lambda b: ["BAD", "WARM", "COLD"][b]) if p.get("named") else lambda b: str(1 << b)
    yes, no = [name(b) for b in range(3) if (p["ignore"] >> b) & 1], [name(b) for b in range(3) if not (p["ignore"] >> b) & 1]
    sep = p.get("sep", "+")
    if p.get("tilde"):
        return "~" + (no[0] if len(no) == 1 else "(" + sep.join(no) + ")")
    return sep.join(yes)


def history(p, cat, steps):
    """One event: the steps (numbers of models from 1; 10 malformed, 20 finalize, 30 restart)."""
    from stcal.resample import Resample
    fill = p["fill"]
    good = {-1: None}.get(p["ignore"], p["ignore"])
    if p.get("word") and p["ignore"] > 0:
        good = words(p)
    kw = {"kernel": p["kernel"], "pixfrac": p["pixfrac"], "fillval": {NAN: None if p.get("fillword") == "None" else p.get("fillword", "NaN")}.get(fill, fill / 1000),
          "weight_type": {"ivm": "ivm", "sky": "ivm-sky", "time": "exptime"}[p["weight"]], "good_bits": good, "enable_ctx": p["ctx"],
          "enable_var": p["ask"], "compute_err": None if p["err"] == "none" else p["err"], "propagate_dq": p["dq"], "n_input_models": p["expect"] or None}
    kw = spare(kw, p.get("terse", False), pixfrac=1.0, kernel="square", fillval=0.0, weight_type="ivm", good_bits=0, enable_ctx=True, enable_var=True,
               compute_err=None, propagate_dq=False, n_input_models=None)
    out = {"spacing": SC * 3600 * p["ratio"]}
    wcs = {"wcs": mkwcs(tuple(p["o"]), p["ratio"], tuple(p["shape"]), tuple((-.5, s - .5) for s in p["shape"][::-1]), bool(p.get("spectral"))), "pixel_scale": out["spacing"]}
    if p.get("given"):
        wcs["pixel_scale_ratio"] = float(p["ratio"] * p["spread"])
    cat = [dict(m, map=place(p, m)) for m in cat]
    e = {"p": p, "cat": [{k: m[k] for k in m if k not in ("shape", "o", "box", "dt", "none", "area")} for m in cat], "steps": []}
    named = {}
    if p.get("named"):
        named["dq_flag_name_map"] = {"BAD": 1, "WARM": 2, "COLD": 4, "NEW": 8}
    if len(p["inc"]) < 3:
        named["error_from_variances"] = [VARS[k] for k in p["inc"]]
    r, err = call(type("Named", (Resample,), named) if named else Resample, wcs, **kw)
    if err:
        return dict(e, err=err)
    for s in steps:
        if s < 10:
            m = model(cat[s - 1], p)
            keep = {k: v.copy() for k, v in m.items() if isinstance(v, np.ndarray)}
            _, err = call(r.add_model, m)
            step = {"op": "add", "m": s}
            obs = (list(keep.values()), [m[k] for k in keep])
        else:
            step = {"op": {10: "bad", 20: "finalize", 30: "reset"}[s], "m": 0}
            obs = ([], [])
            if s == 10:
                m = model(cat[0], p)
                del m["end_time"]
                _, err = call(r.add_model, m)
            else:
                _, err = call(r.finalize if s == 20 else r.reset_arrays)
        ob, er2 = call(observe, r, p, *obs)
        if er2:
            return dict(e, err=er2)
        e["steps"].append(dict(step, err=err or "", obs=ob))
    return dict(e, err="")


def setting(**k):
    p = {"weight": "ivm", "ignore": 0, "ratio": 1, "n": 2, "shape": [1, 2], "o": [0.0, 0.0], "wu": 16, "vars": True, "ask": True, "err": "none",
         "dq": False, "ctx": True, "fill": 0, "kernel": "square", "pixfrac": .5, "expect": 0, "tell": True, "inc": ["rn", "ps", "fl"], "spread": 1, "flux": 1}
    p.update(k)
    return p


def behaviour(b):
    cat, steps = b
    # a second row of bad pixels: the drizzle package refuses images of one row
    pad = {"v": [0, 0], "q": [1, 1], "rn": [1, 1], "sky": [1, 1], "ps": [1, 1], "fl": [1, 1], "er": [1, 1]}
    cat = [dict(m, shape=[2, 2], o=[0.0, 0.0], box=None, **{k: m[k] + x for k, x in pad.items()}) for m in cat]
    return [history(setting(err="from_var", dq=True, fill=NAN, shape=[2, 2], n=4), cat, steps)]


def random_model(rng, ratio, names):
    shape = [int(rng.integers(2, 6)), int(rng.integers(2, 6))]
    n = shape[0] * shape[1]
    hole = lambda a, s: np.where(rng.random(n) < s, NAN, a).tolist()     # noqa: E731
    q = (rng.choice([0, 0, 0, 0, 1, 2, 4, 6, 5], n)).tolist()
    v = rng.integers(-20, 50, n)
    v = np.where((np.array(q) & 1 == 1) & (rng.random(n) < .5), NAN, v).tolist()     # bad under every mask in use
    t = int(rng.integers(1, 20))
    one = int(rng.choice([1, 2, 4]))
    m = {"shape": shape, "o": (rng.integers(-1, 4, 2) + rng.choice([-.1, .1], 2)).tolist(), "box": None, "v": v, "q": q,
         "rn": [one] * n if ratio > 1 else rng.choice([1, 2, 4], n).tolist() if rng.integers(3) else hole(rng.choice([0, 1, 1, 2, 4], n), .1),
         "sky": rng.choice([1, 2, 4, 4], n).tolist(), "ps": hole(rng.integers(0, 5, n), .06), "fl": hole(rng.integers(0, 5, n), .06),
         "er": rng.integers(0, 9, n).tolist(), "level": int(rng.integers(-3, 9)) if rng.integers(2) else NAN, "taken": bool(rng.integers(3) == 0),
         "group": names[int(rng.integers(len(names)))], "exp": t, "meas": int(rng.integers(1, 20)) if rng.integers(5) else NAN,
         "dur": int(rng.integers(1, 30)) if rng.integers(5) else NAN, "start": int(rng.integers(0, 90)), "dt": ["f4", "f8"][int(rng.integers(2))],
         "none": int(rng.integers(3))}
    m["end"] = m["start"] + t + int(rng.integers(3))
    if rng.integers(4) == 0 and min(shape) > 2:
        x0, y0 = int(rng.integers(0, 2)), int(rng.integers(0, 2))
        m["box"] = [[x0 - .5, shape[1] - 1.5 + int(rng.integers(2))], [y0 - .5, shape[0] - 1.5 + int(rng.integers(2))]]
        y, x = np.mgrid[:shape[0], :shape[1]]
        edge = ~((x >= x0 + (x0 > 0)) & (y >= y0 + (y0 > 0)) & (x <= min(shape[1] - 1, m["box"][0][1] - .6)) & (y <= min(shape[0] - 1, m["box"][1][1] - .6)))
        m["q"] = [5 if b else a for a, b in zip(q, edge.ravel())]
        m["inner"] = (~edge).tolist()
    for k, s in (("rn", .1), ("ps", .15), ("fl", .15), ("sky", .15)):
        if rng.random() < s:
            m[k] = []
    return m


def random_case(rng, deep=False):
    ratio = int(rng.choice([1, 1, 1, 2]))
    shape = [int(rng.integers(2, 6)), int(rng.integers(2, 6))] if ratio == 1 else [int(rng.integers(2, 4)), int(rng.integers(2, 4))]
    weight = ["ivm", "ivm", "sky", "time"][int(rng.integers(4))]
    kernel, frac = [("square", .5), ("square", .4), ("point", 1.0), ("turbo", .5)][int(rng.integers(4))]
    ask = bool(rng.integers(3))
    err = ["none", "from_var", "driz_err"][int(rng.integers(3))]
    p = setting(weight=weight, ignore=int(rng.choice([0, 0, 4, 6, 2])), ratio=ratio, shape=shape, n=shape[0] * shape[1], kernel=kernel, pixfrac=frac,
                o=[float(x) + (.25 if ratio == 2 else 0) for x in rng.integers(0, 3, 2)], wu=4 if weight == "time" else 16, ask=ask,
                vars=ask or err == "from_var", err=err, dq=bool(rng.integers(2)), ctx=bool(rng.integers(4)), fill=int(rng.choice([0, NAN, NAN, -2000])),
                expect=int(rng.choice([0, 0, 1, 3])), given=bool(rng.integers(3) == 0), word=bool(rng.integers(2)), terse=bool(rng.integers(2)),
                fillword=["NaN", "INDEF", "None"][int(rng.integers(3))],
                named=bool(rng.integers(2)), tilde=bool(rng.integers(3) == 0), sep="+|,"[int(rng.integers(3))])
    if rng.integers(3) == 0:
        p["inc"] = [["rn"], ["ps", "fl"], ["fl", "rn"]][int(rng.integers(3))]
    k = int(rng.integers(1, 6))
    names, cat = "abc"[:int(rng.integers(1, 4))], []
    while len(cat) < k:
        m = random_model(rng, ratio, names)
        at = np.array(place(p, m)).reshape(m["shape"]) > 0
        at &= np.array(m.pop("inner", True))
        if min(at.any(axis=0).sum(), at.any(axis=1).sum()) > 1:       # the drizzle package refuses less
            cat.append(m)
    if rng.integers(8) == 0:
        p["ignore"] = -1
        cat = [m for m in cat if not m["box"]] or [dict(cat[0], box=None)]
        k = len(cat)
        for m in cat:
            m["v"] = [0 if x == NAN else x for x in m["v"]]
    if deep:             # more models than a context plane holds
        steps = [int(x) for x in rng.integers(1, k + 1, 33 + int(rng.integers(5)))] + [20]
        for m in cat:
            m["v"] = [x if x == NAN else x % 7 for x in m["v"]]
    else:
        steps = []
        while len(steps) < int(rng.integers(3, 9)):
            steps.append(int(rng.choice([rng.integers(1, k + 1)] * 7 + [20, 20, 30, 10])))
        steps += [20] if rng.integers(4) else []
    if rng.integers(6) == 0 and ratio == 1:      # spectra: the ratio of scales is the caller's, flux densities go down with it
        p.update(spectral=True, given=True, spread=int(rng.choice([1, 2, 4])), unit=["Jy", "MJy/sr", "mJy", "DN/s"][int(rng.integers(4))])
        p["flux"] = p["spread"] if p["unit"] == "mJy" or p["unit"] == "Jy" and rng.integers(2) else 1
        p["kernel"] = "square" if p["kernel"] == "turbo" else p["kernel"]
        for m in cat if p["flux"] > 1 else []:     # missing noise counts as one whatever the unit
            m["rn"] = m["rn"] or [1] * len(m["v"])
    added = [x for x in steps if x < 10]
    if added and 30 not in steps and not p.get("given"):     # the first image sets the scale
        for i, m in enumerate(cat):
            if i != added[0] - 1 and rng.integers(3) == 0:
                m["area"] = int(rng.choice([2, 3]))
    return p, cat, steps


def random_history(rng):
    return [history(*random_case(rng))]


def deep_history(rng):
    return [history(*random_case(rng, True))]


LIFE = {"life", "refused", "pointings", "times", "empty", "scale", "inputs"}
PIXELS = {"data", "weight", "context", "flags", "variance", "error"}
