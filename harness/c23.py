"""C23: maps of pixels, predicted images, ranges and areas of pixels."""
import numpy as np
from astropy import coordinates as coord
from astropy import units as u
from astropy.modeling import Model, Parameter
from astropy.modeling.models import Pix2Sky_TAN, RotateNative2Celestial, Scale
from astropy.wcs import WCS as FitsWCS
from gwcs import coordinate_frames as cf
from gwcs import wcs as gw

from vlib import NAN, call, each, main, rnd, spread

UNIT = 1e-4 / 3600  # degrees
NOQ = [0] * 6


class Fault(Exception):
    pass


class Place(Model):
    """The place of a pixel, as the specification has it."""
    n_inputs = n_outputs = 2
    _separable = False
    unit = Parameter(default=1.0)

    def __init__(self, spec, state):
        super().__init__()
        self.spec, self.state = spec, state

    def evaluate(self, x, y, unit):
        if self.state.get("boom") == "forward":
            raise Fault("cannot map")
        W = self.spec
        m, o, q = W["m"], W["o"], W["q"]
        a = m[0] * x + m[1] * y + o[0] + q[0] * x * x + q[1] * x * y + q[2] * y * y
        b = m[2] * x + m[3] * y + o[1] + q[3] * x * x + q[4] * x * y + q[5] * y * y
        if W["hole"]:
            side, k = W["hole"]
            bad = [x < k, x > k, y < k, y > k][side - 1]
            a, b = np.where(bad, np.nan, a), np.where(bad, np.nan, b)
        return a, b


class Back(Model):
    n_inputs = n_outputs = 2
    _separable = False
    unit = Parameter(default=1.0)

    def __init__(self, spec, state):
        super().__init__()
        self.spec, self.state = spec, state

    def evaluate(self, a, b, unit):
        if self.state.get("boom") == "back":
            raise Fault("cannot map back")
        m, o = self.spec["m"], self.spec["o"]
        d = m[0] * m[3] - m[1] * m[2]
        return (m[3] * (a - o[0]) - m[1] * (b - o[1])) / d, (m[0] * (b - o[1]) - m[2] * (a - o[0])) / d


def system(W, sky=None, fits=False, unit=UNIT):
    """A coordinate system of the specification; returns it and the switch that makes it fail."""
    state = {}
    if fits and not any(W["q"]) and not W["hole"] and not W["box"]:
        w = FitsWCS(naxis=2)
        M = np.array(W["m"], float).reshape(2, 2)
        w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
        w.wcs.cunit = ["deg", "deg"]
        w.wcs.crval = sky
        w.wcs.cd = M * UNIT
        w.wcs.crpix = 1 - np.linalg.solve(M, np.array(W["o"], float))
        w.wcs.set()
        if W["shape"]:
            w.array_shape = tuple(W["shape"])
        return w, state
    f = Place(W, state)
    f.inverse = Back(W, state)
    if sky:
        f = f | Scale(unit) & Scale(unit) | Pix2Sky_TAN() | RotateNative2Celestial(sky[0], sky[1], 180.0)
        out = cf.CelestialFrame(name="sky", reference_frame=coord.ICRS(), unit=(u.deg, u.deg))
    else:
        out = cf.Frame2D(name="plane", axes_order=(0, 1), unit=(u.pix, u.pix))
    w = gw.WCS([(cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix)), f), (out, None)])
    if W["shape"]:
        w.array_shape = tuple(W["shape"])
    if W["box"]:
        b = [v / 4 for v in W["box"]]
        w.bounding_box = ((b[0], b[1]), (b[2], b[3]))
    return w, state


def box_of(w):
    b = getattr(w, "bounding_box", None)
    if b is None:
        return []
    try:
        b = b.bounding_box(order="F")
    except AttributeError:
        pass
    out = [4 * float(v) for lim in b for v in lim]
    return [int(v) if v == int(v) else NAN for v in out]


def one_call(systems, specs, k):
    """One call on shared systems; k: from, to (indices), shape, dis, step, order, fault."""
    from stcal.resample.utils import calc_pixmap
    (a, sa), (b, sb) = systems[k["from"]], systems[k["to"]]
    if k["fault"] == "from":
        sa["boom"] = "forward"
    elif k["fault"] == "to":
        sb["boom"] = "back"
    kw = {}
    if k["shape"]:
        kw["shape"] = tuple(k["shape"])
    if k["dis"] != "to" or k.get("say"):
        kw["disable_bbox"] = k["dis"]
    if k["step"] > 1 or k["order"] > 1:
        kw.update(stepsize=k["step"], order=k["order"])
    out, err = call(calc_pixmap, a, b, **kw)
    sa.pop("boom", None)
    sb.pop("boom", None)
    e = {"kind": "call", "from": specs[k["from"]], "to": specs[k["to"]], "one": k["from"] == k["to"], "shape": list(k["shape"]),
         "dis": k["dis"], "step": k["step"], "order": k["order"], "fault": k["fault"], "what": err or "", "err": (err or "").split(":")[0],
         "after": [box_of(a), box_of(b)], "shp": [], "out": []}
    if err is None and np.ndim(out) == 3 and out.shape[2] == 2:
        e["shp"] = list(out.shape[:2])
        e["out"] = rnd(out.reshape(-1, 2), 1000)
    return e


def behaviour(a):
    cat, calls = a
    systems = [system(W) for W in cat]
    return [one_call(systems, cat, {"from": k["from"] - 1, "to": k["to"] - 1, "shape": [], "dis": k["dis"], "step": k["how"][0],
                                    "order": k["how"][1], "fault": k["fault"]}) for k in calls]


def matrix(rng, kind=None, lo=250, hi=1500):
    kind = int(rng.integers(4)) if kind is None else kind
    s = lambda: int(rng.choice([-1, 1])) * int(rng.integers(lo, hi))  # noqa: E731
    if kind == 0:
        return [s(), 0, 0, s()]
    if kind == 1:
        return [0, s(), s(), 0]
    while True:
        m = [int(v) for v in rng.integers(-hi, hi, 4)]
        if abs(m[0] * m[3] - m[1] * m[2]) > lo * lo:
            return m


def some_box(rng, ny, nx):
    r = rng.random()
    if r < 0.3:
        return []
    if r < 0.5:
        return [-2, 4 * nx - 2, -2, 4 * ny - 2]
    x = sorted(int(v) for v in rng.choice(np.arange(-8, 4 * nx + 8), 2, replace=False))
    y = sorted(int(v) for v in rng.choice(np.arange(-8, 4 * ny + 8), 2, replace=False))
    return [x[0], x[1], y[0], y[1]]


def spec(rng, shape=None, distorted=None):
    ny, nx = shape or (int(rng.integers(1, 34)), int(rng.integers(1, 34)))
    if rng.random() < 0.15:
        ny, nx = (int(v) for v in rng.permutation([int(rng.integers(60, 130)), int(rng.integers(11, 22))]))
    W = {"m": matrix(rng), "o": [int(v) for v in rng.integers(-20000, 20000, 2)], "q": list(NOQ), "shape": [ny, nx], "box": some_box(rng, ny, nx), "hole": []}
    if rng.random() < 0.1:
        W["shape"] = []
    return W


def distort(rng, W, how):
    W = dict(W)
    if how == 1:
        W["q"] = [int(v) for v in rng.integers(-4, 5, 6)]
    if how == 2 and W["shape"]:
        side = int(rng.integers(1, 5))
        n = W["shape"][1 if side < 3 else 0]
        W["hole"] = [side, int(rng.integers(0, n + 1))]
    return W


def random_history(rng):
    """Calls on the same three systems."""
    sky = None if rng.random() < 0.5 else [float(rng.choice([0, 359.99999, 120.5, 10])), float(rng.choice([-88, -30, 0, 60, 85]))]
    specs, dist = [], []
    for i in range(3):
        how = int(rng.integers(3))
        W = distort(rng, spec(rng), how)
        specs.append(W)
    systems = [system(W, sky, fits=sky is not None and rng.random() < 0.4) for W in specs]
    plain = [i for i in range(3) if not any(specs[i]["q"]) and not specs[i]["hole"]]
    if not plain:
        return []
    out = []
    for _ in range(3):
        a, b = int(rng.integers(3)), int(rng.choice(plain))
        isfits = isinstance(systems[a][0], FitsWCS), isinstance(systems[b][0], FitsWCS)
        fault = str(rng.choice(["", "", "", "", "", "", "from", "to"]))
        if (fault == "from" and isfits[0]) or (fault == "to" and isfits[1]):
            fault = ""
        shape = [] if rng.random() < 0.7 else [int(v) for v in rng.integers(1, 40, 2)]
        if not shape and not specs[a]["shape"] and specs[a]["box"] and min(specs[a]["box"][1], specs[a]["box"][3]) < 2:
            shape = [5, 6]
        if specs[a]["hole"] and shape:
            shape = []
        out.append(one_call(systems, specs, {"from": a, "to": b, "shape": shape, "dis": str(rng.choice(["to", "from", "both", "none"])), "say": rng.random() < 0.5,
                                             "step": int(rng.choice([1, 2, 3, 5, 10, 40])), "order": int(rng.choice([1, 1, 3, 3, 2])), "fault": fault}))
    return out


def grid(rng):
    """A distorted image of any proportions on a coarse grid."""
    ny, nx = (int(v) for v in rng.permutation([int(rng.integers(11, 150)), int(rng.integers(11, 24))]))
    W = {"m": matrix(rng, hi=1200), "o": [int(v) for v in rng.integers(-20000, 20000, 2)], "q": [int(v) * int(rng.integers(2)) for v in rng.integers(-5, 6, 6)],
         "shape": [ny, nx], "box": some_box(rng, ny, nx) if rng.random() < 0.3 else [], "hole": []}
    T = {"m": matrix(rng, kind=int(rng.integers(2)), lo=500, hi=700), "o": [int(v) for v in rng.integers(-20000, 20000, 2)], "q": list(NOQ), "shape": [5, 5], "box": [], "hole": []}
    return one_call([system(W), system(T)], [W, T], {"from": 0, "to": 1, "shape": [], "dis": "to", "step": int(rng.integers(2, 13)), "order": int(rng.choice([1, 3])), "fault": ""})


def blot(rng):
    from stcal.outlier_detection.utils import gwcs_blot
    k = int(rng.choice([1, 2, 4]))
    s = [int(rng.choice([-1, 1])), int(rng.choice([-1, 1]))]
    T = {"m": [k * s[0], 0, 0, k * s[1]] if rng.random() < 0.5 else [0, k * s[0], k * s[1], 0], "o": [int(v) for v in rng.integers(-20, 20, 2)],
         "q": list(NOQ), "shape": [int(v) for v in rng.integers(2, 26, 2)], "box": [], "hole": []}
    nr, nc = T["shape"]
    T["box"] = some_box(rng, nr, nc)
    # distorted in the plane only by whole amounts, so that places are known exactly
    while True:
        m = [int(v) for v in rng.integers(-5, 6, 4)]
        if m[0] * m[3] != m[1] * m[2]:
            break
    S = {"m": m, "o": [0, 0], "q": list(NOQ), "shape": [int(v) for v in rng.integers(1, 26, 2)], "box": [], "hole": []}
    S["box"] = some_box(rng, *S["shape"])
    # the middle of one on the other
    d = T["m"][0] * T["m"][3] - T["m"][1] * T["m"][2]
    cx, cy = nc // 2, nr // 2
    px, py = S["shape"][1] // 2, S["shape"][0] // 2
    S["o"] = [T["m"][0] * cx + T["m"][1] * cy + T["o"][0] - m[0] * px - m[1] * py + int(rng.integers(-3, 4)),
              T["m"][2] * cx + T["m"][3] * cy + T["o"][1] - m[2] * px - m[3] * py + int(rng.integers(-3, 4))]
    assert d
    step = 1
    if rng.random() < 0.15:
        S["hole"] = [int(rng.integers(1, 5)), int(rng.integers(0, 6))]
    elif rng.random() < 0.2:
        step = 3
    order = int(rng.choice([1, 3]))
    data = rng.integers(-500, 500, (nr, nc))
    nan = rng.random((nr, nc)) < (0.1 if step == 1 and rng.random() < 0.4 else 0)
    img = np.where(nan, np.nan, data).astype("float32")
    fill = int(rng.choice([0, 0, -7, 33]))
    (a, _), (b, _) = system(S), system(T)
    keep = img.copy()
    kw = {} if fill == 0 else {"fillval": fill}
    if step > 1:
        kw.update(pixmap_stepsize=step, pixmap_order=order)
    out, err = call(gwcs_blot, img, b, tuple(S["shape"]), a, **kw)
    e = {"kind": "blot", "from": S, "to": T, "shape": S["shape"], "step": step, "order": order, "nr": nr, "nc": nc, "fill": fill,
         "data": np.where(nan, NAN, data).ravel().tolist(), "what": err or "", "err": (err or "").split(":")[0], "after": [box_of(a), box_of(b)],
         "same": bool(np.array_equal(img, keep, equal_nan=True)), "out": []}
    if err is None and np.shape(out) == tuple(S["shape"]):
        e["out"] = rnd(np.asarray(out, float).ravel(), 1000)
    return e


def ranges(rng):
    from stcal.resample.utils import resample_range
    n = [int(v) for v in rng.integers(0, 9, 2)]
    box = some_box(rng, *n) if rng.random() < 0.9 else []
    b = None if not box else ((box[0] / 4, box[1] / 4), (box[2] / 4, box[3] / 4))
    out, err = call(resample_range, tuple(n), b)
    return {"kind": "range", "shape": n, "box": box, "what": err or "", "err": (err or "").split(":")[0], "out": [int(v) for v in out] if err is None else []}


def area(rng):
    from stcal.resample.utils import compute_mean_pixel_area
    ny, nx = int(rng.integers(1, 70)), int(rng.integers(1, 70))
    W = {"m": matrix(rng, lo=400), "o": [int(v) for v in rng.integers(-60000, 60000, 2)], "q": list(NOQ), "shape": [ny, nx], "box": some_box(rng, ny, nx), "hole": []}
    if rng.random() < 0.5:
        W["m"] = matrix(rng, kind=0, lo=600)
        W["q"][0] = int(rng.integers(-3, 4))
    if rng.random() < 0.4:
        W["hole"] = [int(rng.integers(1, 3)), int(rng.integers(0, nx))]
    sky = [float(rng.choice([0, 359.99999, 120.5, 10])), float(rng.choice([-89.999, -30, 0, 60, 90]))]
    if rng.random() < 0.2:
        W["o"] = [-(W["m"][0] * nx + W["m"][1] * ny) // 2, -(W["m"][2] * nx + W["m"][3] * ny) // 2]
    w, _ = system(W, sky, unit=10 * UNIT)
    kw = {}
    if rng.random() < 0.5:
        kw["shape"] = (ny, nx)
        w.array_shape = None if rng.random() < 0.5 else (ny + 3, nx + 5)
    out, err = call(compute_mean_pixel_area, w, **kw)
    e = {"kind": "area", "from": W, "shape": [ny, nx], "what": err or "", "err": (err or "").split(":")[0], "out": NAN}
    if err is None and out is not None:
        e["out"] = rnd(out / np.radians(10 * UNIT) ** 2, 1)
    return e


def frame(rng):
    """The frame of an output image, from its coordinates only."""
    from stcal.resample import Resample
    ny, nx = int(rng.integers(6, 50)), int(rng.integers(6, 50))
    W = {"m": matrix(rng, lo=500), "o": [int(v) for v in rng.integers(-60000, 60000, 2)], "q": list(NOQ), "shape": [ny, nx], "box": [], "hole": []}
    kind = int(rng.integers(3))
    if kind:
        W["box"] = [int(rng.integers(-4, 5)), 4 * nx - int(rng.integers(1, 5)), int(rng.integers(-4, 5)), 4 * ny - int(rng.integers(1, 5))]
    if kind == 2:
        W["shape"] = []
    if rng.random() < 0.1:
        W["shape"], W["box"] = [], []
    sky = [float(rng.choice([0, 359.99999, 120.5])), float(rng.choice([-80, 0, 60]))]
    w, _ = system(W, sky, unit=10 * UNIT)
    r, err = call(Resample, {"wcs": w})
    e = {"kind": "frame", "from": W, "what": err or "", "err": (err or "").split(":")[0], "out": NAN, "shp": [], "shape": []}
    if err is None:
        e["out"] = rnd((r.output_pixel_scale / 3600 / (10 * UNIT)) ** 2, 1)
        e["shape"] = e["shp"] = list(r.output_array_shape)
    return e


def sampled(rng):
    """An image placed pixel upon pixel, its places found on a coarse grid."""
    from stcal.resample import Resample
    k = 1000
    sg = [int(rng.choice([-1, 1])) for _ in range(4)]
    swap = rng.random() < 0.5
    T = {"m": [k * sg[0], 0, 0, k * sg[1]], "o": [0, 0], "q": list(NOQ), "shape": [int(v) for v in rng.integers(8, 30, 2)], "box": [], "hole": []}
    S = {"m": [0, k * sg[2], k * sg[3], 0] if swap else [k * sg[2], 0, 0, k * sg[3]], "o": [0, 0], "q": list(NOQ), "shape": [int(v) for v in rng.integers(8, 30, 2)], "box": [], "hole": []}
    if rng.random() < 0.6:
        ny, nx = S["shape"]
        x0, x1, y0, y1 = int(rng.integers(0, 3)), nx - 1 - int(rng.integers(0, 3)), int(rng.integers(0, 3)), ny - 1 - int(rng.integers(0, 3))
        S["box"] = [4 * x0 - 2, 4 * x1 + 2, 4 * y0 - 2, 4 * y1 + 2]
    # the middles fall together, give or take
    mid = lambda W: [(W["m"][0] * (W["shape"][1] // 2) + W["m"][1] * (W["shape"][0] // 2)), (W["m"][2] * (W["shape"][1] // 2) + W["m"][3] * (W["shape"][0] // 2))]  # noqa: E731
    a, b = mid(S), mid(T)
    S["o"] = [b[i] - a[i] + k * int(rng.integers(-4, 5)) for i in range(2)]
    sky = [float(rng.choice([0, 120.5])), float(rng.choice([-30, 0, 60]))]
    step, order = int(rng.choice([1, 2, 3, 5, 20])), int(rng.choice([1, 3]))
    (ws, _), (wt, _) = system(S, sky), system(T, sky)
    ny, nx = S["shape"]
    data = rng.integers(-500, 500, (ny, nx))
    m = {"data": data.astype("f4"), "dq": np.zeros((ny, nx), "u4"), "filename": "x", "group_id": "a", "wcs": ws, "exposure_time": 1.0, "start_time": 0.0,
         "end_time": 1.0, "duration": 1.0, "measurement_time": 1.0, "pixelarea_steradians": np.radians(k * UNIT) ** 2, "level": None, "subtracted": False,
         "err": np.ones((ny, nx), "f4")}
    kw = {} if step == 1 else {"pixmap_stepsize": step, "pixmap_order": order}

    def go():
        r = Resample({"wcs": wt, "pixel_scale": k * UNIT * 3600}, weight_type="exptime", enable_var=False, compute_err=None, **kw)
        r.add_model(m)
        r.finalize()
        return r.output_model["data"]
    out, err = call(go)
    e = {"kind": "sampled", "from": S, "to": T, "shape": S["shape"], "step": step, "order": order, "data": data.ravel().tolist(), "what": err or "",
         "err": (err or "").split(":")[0], "after": [box_of(ws), box_of(wt)], "out": []}
    if err is None:
        e["out"] = rnd(np.asarray(out, float).ravel(), 100)
    return e


def run(c):
    r = c.model("PixmapMC", want_json=True)
    cat = next(b["cat"] for b in r.json if "cat" in b)
    bs = [b["calls"] for b in r.json if "calls" in b]
    ones = [b for b in bs if len(b) == 1]
    twos = [b for b in bs if len(b) == 2]
    rng = c.nprng("pick")
    n = c.pick(600, 12000)
    pick = ones + [twos[i] for i in sorted(rng.choice(len(twos), n, replace=False))]
    kw = {"cfg": "PixmapTrace.cfg"}
    c.validate("PixmapTrace", each(behaviour, [(cat, b) for b in pick]), label="every call", **kw)
    c.validate("PixmapTrace", spread(c, random_history, c.pick(500, 8000), "calls"), label="random calls", **kw)
    c.validate("PixmapTrace", spread(c, grid, c.pick(240, 3000), "grids"), label="coarse grids", **kw)
    c.validate("PixmapTrace", spread(c, blot, c.pick(500, 8000), "blot"), label="predicted images", **kw)
    c.validate("PixmapTrace", spread(c, ranges, c.pick(1000, 20000), "ranges"), label="ranges", **kw)
    c.validate("PixmapTrace", spread(c, area, c.pick(400, 6000), "areas"), label="areas", **kw)
    c.validate("PixmapTrace", spread(c, frame, c.pick(200, 2000), "frames"), label="frames", **kw)
    c.validate("PixmapTrace", spread(c, sampled, c.pick(240, 3000), "sampled"), label="resampled", **kw)


if __name__ == "__main__":
    main("C23", run)
