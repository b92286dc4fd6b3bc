"""C22: footprints and combined frames contain what they must."""
import math

import numpy as np

from vlib import each, main, spread
from vlib import call as _call


def call(*a, **k):
    r, err = _call(*a, **k)
    return r, err or ""


def imports():
    import gwcs
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling import models
    from gwcs import coordinate_frames as cf
    return gwcs, coord, u, models, cf


def make_wcs(ra, dec, scale, pa, par, shape, crpix=None, bbox=True):
    """A tangent-plane image; scale: (x, y) in degrees."""
    gwcs, coord, u, models, cf = imports()
    cx, cy = crpix or ((shape[1] - 1) / 2, (shape[0] - 1) / 2)
    c, s = math.cos(pa), math.sin(pa)
    t = (models.Shift(-cx) & models.Shift(-cy) | models.Scale(scale[0]) & models.Scale(scale[1])
         | models.AffineTransformation2D(matrix=[[par * c, s], [-par * s, c]]) | models.Pix2Sky_TAN() | models.RotateNative2Celestial(ra, dec, 180))
    w = gwcs.WCS([(cf.Frame2D(name="detector", axes_names=("x", "y"), unit=(u.pix, u.pix)), t),
                  (cf.CelestialFrame(reference_frame=coord.ICRS(), name="world", unit=(u.deg, u.deg)), None)])
    if bbox:
        w.bounding_box = ((-.5, shape[1] - .5), (-.5, shape[0] - .5))
    return w


def somewhere(rng):
    ra = float(rng.choice([0, .001, 359.9995, 90, 180.5, rng.random() * 360]))
    dec = float(rng.choice([0, 89.9, 90, -90, -89.99, 45.3, -30, math.degrees(math.asin(2 * rng.random() - 1))]))
    return ra, dec


# ---- unions ----
def outlines(sregion):
    out = []
    for p in sregion.split("POLYGON")[1:]:
        v = [float(x) for x in p.replace("ICRS", "").split()]
        out.append([v[i:i + 2] for i in range(0, len(v), 2)])
    return out


def union(polys, cut, pts, place, strings, ragged=False):
    """polys, cut: 1/100 pixel. place: a wcs whose pixels the polygons are in."""
    from stcal.alignment.resample_utils import combine_sregions
    t = place.forward_transform

    def sky(p):
        ra, dec = t(*(np.array(p, dtype=float).T / 100))
        return np.vstack([ra, dec]).T
    feet = [sky(p) for p in polys]
    if strings:
        feet = ["POLYGON ICRS  " + " ".join(f"{v:.9f}" for v in f.ravel()) for f in feet]
    s, err = call(combine_sregions, feet, t, sky(cut) if len(cut) else None)
    out = []
    if not err:
        for p in outlines(s):
            x, y = t.inverse(*np.array(p).T) if p else ((), ())
            out.append([[int(round(100 * float(a))), int(round(100 * float(b)))] for a, b in zip(x, y)])
    return {"kind": "union", "err": "ValueError" if err and "ValueError" in err and "overlap" in err else err, "polys": polys, "cut": cut, "pts": pts, "out": out}


def replay(b):
    w = make_wcs(10.684, 41.269, (3e-5, 3e-5), .3, -1, (10, 10))
    pts = [[x, y] for x in range(-75, 1400, 100) for y in range(-67, 1400, 100)]
    return union(b["polys"], b["cut"], pts, w, False)


def quad(rng, kind):
    x, y = (int(v) for v in rng.choice([0, 0, 3, 4, 50, 300, 302, 600, 900, int(rng.integers(0, 1500))], 2))
    w, h = (int(v) for v in rng.choice([300, 600, 603, int(rng.integers(100, 900))], 2))
    p = np.array([[x, y], [x + w, y], [x + w, y + h], [x, y + h]], dtype=float)
    if kind == 1:
        a = rng.random() * 7
        m = p.mean(axis=0)
        p = (p - m) @ np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]) + m
    elif kind == 2:
        p = p + rng.integers(-60, 60, (4, 2))
    elif kind == 3:                                           # more vertices
        p = np.array([[x, y], [x + w // 2, y - 40], [x + w, y], [x + w + 30, y + h // 2], [x + w, y + h], [x, y + h]])
    if rng.integers(2):
        p = p[::-1]
    return [[int(round(a)), int(round(b))] for a, b in np.roll(p, int(rng.integers(4)), axis=0)]


def random_union(rng):
    kind = int(rng.choice([0, 0, 1, 2]))
    polys = [quad(rng, kind if rng.integers(6) else int(rng.choice([0, 3]))) for _ in range(int(rng.integers(1, 4)))]
    if rng.integers(4) == 0:
        d = [int(v) for v in rng.choice([0, 1, 3, 4], 2)]
        polys.append([[a + d[0], b + d[1]] for a, b in polys[0]])
    cut = quad(rng, int(rng.choice([0, 1, 2]))) if rng.integers(3) == 0 else []
    if len(cut) and rng.integers(3) == 0:                       # a strip across everything
        cut = [[-500, 300], [3000, 300], [3000, 420], [-500, 420]]
    pts = [[int(a), int(b)] for a, b in rng.integers(-200, 2500, (40, 2))]
    pts += [[p[0] + int(rng.choice([-30, 30])), p[1] + int(rng.choice([-30, 30]))] for q in polys for p in q]
    ra, dec = somewhere(rng)
    s = float(rng.choice([1e-5, 3e-5, 1e-4]))
    # a projection cannot hold the pole in a corner of its own footprint: pixel (8, 8) is the middle
    w = make_wcs(ra, min(dec, 89.9) if abs(dec) > 89.9 else dec, (s, s), rng.random() * 6, int(rng.choice([1, -1])), (16, 16))
    return union(polys, cut, pts, w, bool(rng.integers(2)))


# ---- region strings ----
def split9(x):
    """A number of degrees as whole degrees and 1e-9 degrees (both of its sign)."""
    n = int(round(x * 10**9))
    s = -1 if n < 0 else 1
    return [s * (abs(n) // 10**9), s * (abs(n) % 10**9)]


def random_keyword(rng):
    from stcal.alignment.util import compute_s_region_keyword, sregion_to_footprint
    v = [[int(rng.integers(0, 360)) if k % 2 == 0 else int(rng.integers(-89, 90)), int(rng.choice([0, 1, 5, 10**9 - 1, int(rng.integers(0, 10**9))]))] for k in range(8)]
    v = [[a, -b if a < 0 or (a == 0 and k % 2 and rng.integers(2)) else b] for k, (a, b) in enumerate(v)]
    f = np.array([float(f"{'-' if a < 0 or b < 0 else ''}{abs(a)}.{abs(b):09d}") for a, b in v]).reshape(4, 2)
    nan = bool(rng.integers(10) == 0)
    if nan:
        f[int(rng.integers(4)), int(rng.integers(2))] = np.nan
    s, err = call(compute_s_region_keyword, f)
    back = [] if err or s is None else [split9(x) for x in np.asarray(sregion_to_footprint(s)).ravel()]
    return {"kind": "keyword", "err": err, "v": v, "nan": nan, "none": s is None, "back": back, "frame": " ".join((s or "").split()[:2])}


def random_region(rng):
    from stcal.alignment.util import compute_s_region_imaging, sregion_to_footprint
    ra, dec = somewhere(rng)
    shape = tuple(int(v) for v in rng.integers(2, 3000, 2))
    s = float(rng.choice([1e-5, 8.7e-6, 3e-5]))
    given = bool(rng.integers(2))
    w = make_wcs(ra, dec, (s, s), rng.random() * 6, int(rng.choice([1, -1])), shape, bbox=False)
    box = [[-.5, shape[1] - .5], [-.5, shape[0] - .5]]
    if given:
        lo, hi = rng.integers(0, 20, 2), rng.integers(30, 2000, 2)
        box = [[lo[k] - .5, hi[k] - .5] for k in (0, 1)]
        w.bounding_box = tuple(tuple(b) for b in box)
    center = bool(rng.integers(2))
    sh = shape if not given or rng.integers(2) else None
    if sh is not None and rng.integers(3) == 0:
        sh = (5, *shape)
    txt, err = call(compute_s_region_imaging, w, *([] if sh is None else [sh]), center=center)
    (x0, x1), (y0, y1) = [[math.floor(v + .5) for v in b] for b in box] if center else box
    r, d = w(np.array([x0, x0, x1, x1], dtype=float), np.array([y0, y1, y1, y0], dtype=float), with_bounding_box=False)
    want = [split9(v) for p in zip(np.mod(r, 360), d) for v in p]
    got = [] if err else [split9(v) for v in sregion_to_footprint(txt).ravel()]
    bb = [] if err else [int(round(2 * float(v))) for ax in w.bounding_box.bounding_box(order="F") for v in ax]
    return {"kind": "region", "err": err, "got": got, "want": want, "bbox": bb, "wantbox": [] if err else [int(2 * v) for b in box for v in b]}


# ---- combined frames ----
TRIPLES = [(1, 0), (0, 1), (-1, 0), (.6, .8), (.8, -.6), (-.28, .96), (5 / 13, -12 / 13), (-15 / 17, -8 / 17)]


def tangent(ra0, dec0, ra, dec):
    """Offsets east and north in the tangent plane, in mas."""
    a, d, d0 = np.radians(np.asarray(ra) - ra0), np.radians(dec), math.radians(dec0)
    den = np.sin(d) * math.sin(d0) + np.cos(d) * math.cos(d0) * np.cos(a)
    k = 180 / math.pi * 3600e3
    return np.cos(d) * np.sin(a) / den * k, (np.sin(d) * math.cos(d0) - np.cos(d) * math.sin(d0) * np.cos(a)) / den * k


def random_frame(rng):
    from stcal.alignment.util import wcs_from_sregions
    ra, dec = somewhere(rng)
    scale = float(rng.choice([8.7e-6, 3e-5, 1.7e-5]))
    sy = scale * float(rng.choice([1, 1, 1.1]))
    par = int(rng.choice([1, -1]))
    roll, yang = (TRIPLES[int(v)] for v in rng.integers(0, len(TRIPLES), 2))
    ang = lambda t: math.degrees(math.atan2(t[1], t[0]))      # noqa: E731
    shape = (int(rng.integers(20, 200)), int(rng.integers(20, 200)))
    ref = make_wcs(ra, dec, (scale, sy), rng.random() * 6, par, shape)
    info = {"ra_ref": ra, "dec_ref": dec, "roll_ref": ang(roll), "v3yangle": ang(yang), "vparity": par}
    base = make_wcs(ra, dec, (scale, scale), 0, 1, (1, 1), bbox=False)
    feet = []
    for _ in range(int(rng.integers(1, 5))):
        # other images around
        x, y = rng.integers(-300, 300, 2)
        r, d = base(float(x), float(y), with_bounding_box=False)
        im = make_wcs(float(r), float(d), (scale, scale), rng.random() * 6, par, (int(rng.integers(20, 200)), int(rng.integers(20, 200))))
        feet.append(im.footprint())
    ev = {"kind": "frame", "par": par, "roll": [round(10000 * v) for v in roll], "yangle": [round(10000 * v) for v in yang], "rot": [], "crpix": [],
          "crval": False, "shaped": False, "want": []}
    kw = {}
    s = math.sqrt(scale * sy)
    if rng.integers(3) == 0:
        t = TRIPLES[int(rng.integers(len(TRIPLES)))]
        kw["rotation"] = ang(t)
        ev["rot"] = [round(10000 * v) for v in t]
    if rng.integers(3) == 0:
        kw["pscale_ratio"] = float(rng.choice([.5, 2, 1.3]))
        s *= kw["pscale_ratio"]
    if rng.integers(4) == 0:
        s = kw["pscale"] = float(rng.choice([1e-5, 2.5e-5]))
    if rng.integers(4) == 0:
        kw["crpix"] = tuple(float(v) for v in rng.integers(-20, 200, 2))
        ev["crpix"] = [int(1000 * v) for v in kw["crpix"]]
    if rng.integers(4) == 0:
        kw["shape"] = tuple(int(v) for v in rng.integers(50, 600, 2))
        ev["shaped"], ev["want"] = True, list(kw["shape"])
    if rng.integers(4) == 0:
        r, d = base(*(float(v) for v in rng.integers(-50, 50, 2)), with_bounding_box=False)
        kw["crval"] = (float(r), float(d))
        ev["crval"] = True
    texts = rng.integers(2)
    arg = ["POLYGON ICRS  " + " ".join(f"{v:.9f}" for v in f.ravel()) for f in feet] if texts else feet
    w, err = call(wcs_from_sregions, arg, ref, info, **kw)
    ev["err"] = err
    ev["scale"] = int(round(100 * s * 3600e3))
    if err:
        return {**ev, "err": "small" if "too small" in err else err}
    allv = np.vstack(feet)
    x, y = w.invert(allv[:, 0], allv[:, 1], with_bounding_box=False)
    r, d = w(x, y, with_bounding_box=False)
    off = np.hypot((np.mod(r - allv[:, 0] + 180, 360) - 180) * np.cos(np.radians(allv[:, 1])), d - allv[:, 1]) * 3600e3 * 10
    (x0, x1), (y0, y1) = w.bounding_box.bounding_box(order="F")
    k = lambda v: int(round(1000 * float(v)))                 # noqa: E731
    # the point that the frame is centred on: where its tangent plane touches
    par0 = w.forward_transform
    cv = par0.crval if hasattr(par0, "crval") else kw.get("crval")
    cv = [float(v) for v in np.asarray(cv, dtype=float).ravel()]
    fx, fy = (float(v) for v in w.invert(*cv, with_bounding_box=False))
    pts = w(np.array([fx, fx + 100, fx]), np.array([fy, fy, fy + 100]), with_bounding_box=False)
    e, n = tangent(cv[0], cv[1], *pts)
    if kw.get("crval") and (abs(np.mod(cv[0] - kw["crval"][0] + 180, 360) - 180) > 1e-9 and abs(cv[1]) < 89 or abs(cv[1] - kw["crval"][1]) > 1e-9):
        ev["err"] = "not centred on the given point"
    return {**ev, "px": [[k(a), k(b)] for a, b in zip(x, y)], "lo": [k(x0), k(y0)], "hi": [k(x1), k(y1)], "shape": [int(v) for v in w.pixel_shape[::-1]],
            "off": int(math.ceil(off.max())), "stepx": [int(round(e[1] - e[0])), int(round(n[1] - n[0]))],
            "stepy": [int(round(e[2] - e[0])), int(round(n[2] - n[0]))], "fid": [k(fx), k(fy)]}


# ---- aberration ----
C = 299792.458
UNITS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (.6, .8, 0), (-.8, 0, .6), (1 / 3, 2 / 3, 2 / 3), (-2 / 7, 3 / 7, 6 / 7), (0, 0, -1), (.48, -.64, .6), (-1, 0, 0),
         (-4 / 9, -4 / 9, 7 / 9)]


def random_motion(rng):
    from stcal.velocity_aberration import compute_va_effects, compute_va_effects_vector
    u = np.array(UNITS[int(rng.integers(len(UNITS)))])
    v = np.array(UNITS[int(rng.integers(len(UNITS)))])
    b, g = [(.6, .8), (.28, .96), (.8, .6), (.1, math.sqrt(.99)), (.01, math.sqrt(.9999))][int(rng.integers(5))]
    n = lambda a: [int(round(10000 * float(x))) for x in a]   # noqa: E731

    def see(d, vel):
        if rng.integers(2):
            s, w = compute_va_effects_vector(*(vel * C), d)
            return float(s), np.asarray(w)
        s, ra, dec = compute_va_effects(*(vel * C), math.degrees(math.atan2(d[1], d[0])), math.degrees(math.asin(max(-1, min(1, d[2])))))
        ra, dec = math.radians(ra), math.radians(dec)
        return float(s), np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)])
    s, w = see(u, b * v)
    s2, back = see(w, -b * v)
    return {"kind": "motion", "err": "", "u": n(u), "v": n(v), "b": round(10000 * b), "g": round(10000 * g), "seen": n(w), "back": n(back),
            "scale": round(10000 * s), "scale2": round(10000 * s2)}


def random_slow(rng):
    from stcal.velocity_aberration import compute_va_effects, compute_va_effects_vector
    u = rng.normal(size=3)
    u = np.round(u / np.linalg.norm(u), 6)
    v = rng.normal(size=3) * float(rng.choice([0, 1, 10, 30]))
    v = np.round(np.clip(v, -20, 20) / C * 1e9)
    if rng.integers(2):
        s, w = compute_va_effects_vector(*(v * C / 1e9), u)
        w = np.asarray(w) - u
    else:
        d = u / np.linalg.norm(u)
        s, ra, dec = compute_va_effects(*(v * C / 1e9), math.degrees(math.atan2(d[1], d[0])), math.degrees(math.asin(d[2])))
        ra, dec = math.radians(ra), math.radians(dec)
        w = np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)]) - d
    return {"kind": "slow", "err": "", "u": [int(round(1e6 * x)) for x in u], "v": [int(x) for x in v], "moved": [int(round(1e9 * x)) for x in w], "scale": int(round(1e9 * (float(s) - 1)))}


def random_matrix(rng):
    from stcal.alignment.util import calc_rotation_matrix
    a, b = (TRIPLES[int(v)] for v in rng.integers(0, len(TRIPLES), 2))
    par = int(rng.choice([1, -1, 1, -1, 0, 2]))
    ang = lambda t: math.atan2(t[1], t[0]) + 2 * math.pi * int(rng.integers(-1, 2))      # noqa: E731
    m, err = call(calc_rotation_matrix, ang(a), ang(b), vparity=par)
    return {"kind": "matrix", "err": "ValueError" if err and "ValueError" in err else err, "roll": [round(10000 * v) for v in a], "yangle": [round(10000 * v) for v in b],
            "par": par, "m": [] if err else [round(10000 * float(v)) for v in m]}


def spectral(w):
    """The image as one whose columns (and rows) also tell a wavelength."""
    gwcs, coord, u, models, cf = imports()
    t, det = w.forward_transform, cf.Frame2D(name="detector", axes_names=("x", "y"), unit=(u.pix, u.pix))
    t = models.Mapping((0, 1, 0)) | t.copy() & models.Polynomial1D(1, c0=1., c1=.01)
    t.inverse = models.Mapping((0, 1), n_inputs=3) | w.forward_transform.inverse
    sky = cf.CelestialFrame(reference_frame=coord.ICRS(), name="sky", unit=(u.deg, u.deg), axes_order=(0, 1))
    lam = cf.SpectralFrame(name="lam", unit=u.um, axes_order=(2,), axes_names=("wavelength",))
    return gwcs.WCS([(det, t), (cf.CompositeFrame([sky, lam], name="world"), None)])


def random_scale(rng):
    from stcal.alignment.util import compute_scale
    ra, dec = somewhere(rng)
    sx, sy = (float(v) for v in rng.integers(20000, 200000, 2))          # micro-arcsec
    w = make_wcs(ra, dec, (sx / 3.6e9, sy / 3.6e9), rng.random() * 6, int(rng.choice([1, -1])), (100, 100))
    r = int(rng.choice([100, 100, 50, 130]))
    kw, disp = {} if r == 100 else {"pscale_ratio": r / 100}, 0
    if rng.integers(3) == 0:
        w, disp = spectral(w), int(rng.choice([1, 2, 1, 2, -1]))
        if disp > 0 or rng.integers(2):
            kw["disp_axis"] = max(disp, 0) or None
    at = w(*(float(v) for v in rng.integers(20, 80, 2)))
    s, err = call(compute_scale, w, tuple(float(v) for v in at), **kw)
    return {"kind": "scale", "err": "ValueError" if err and "ValueError" in err else err, "disp": disp, "sx": int(sx), "sy": int(sy), "ratio": r, "scale": 0 if err else int(round(s * 3.6e9))}


def run(c):
    r = c.model("FootprintMC", want_json=True)
    pick = c.nprng("pick").permutation(len(r.json))[:c.pick(900, 10**6)]
    c.validate("FootprintTrace", each(replay, [r.json[i] for i in pick]), cfg="Trace.cfg", label="two images at every offset")
    for fn, n in ((random_union, (600, 20000)), (random_keyword, (300, 5000)), (random_region, (300, 5000)), (random_frame, (400, 10000)),
                  (random_motion, (300, 3000)), (random_slow, (300, 5000)), (random_matrix, (200, 2000)), (random_scale, (200, 3000))):
        c.validate("FootprintTrace", spread(c, fn, c.pick(*n), fn.__name__), cfg="Trace.cfg", label=fn.__name__)


if __name__ == "__main__":
    main("C22", run)
