"""C20: images are aligned, left alone or refused as documented; reference catalogs hold what was asked for."""
import http.server
import math
import os
import socket
import tempfile
import threading
import urllib.parse

import numpy as np

SERVER = {"port": None, "rows": "", "mode": "up", "asked": [], "turn": 0, "over": threading.Event(), "nobody": None}
for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "all_proxy"):
    os.environ.pop(k, None)


class Service(http.server.BaseHTTPRequestHandler):
    """The catalog service: answers with what SERVER holds, and keeps the questions."""

    def do_GET(self):
        mode, over, asked = SERVER["mode"], SERVER["over"], SERVER["asked"]
        if not self.path.startswith(f"/turn{SERVER['turn']}/"):
            return          # asked by a case that is over
        asked.append(urllib.parse.parse_qs(urllib.parse.urlparse(self.path).query))
        if mode == "slow":
            over.wait(60)   # no answer before the case is over
        if mode == "loop":
            self.send_response(302)
            self.send_header("Location", self.path)
            self.end_headers()
            return
        body = SERVER["rows"].encode()
        try:
            self.send_response(200)
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)
        except OSError:
            pass

    def log_message(self, *a):
        pass


def service():
    """Where the catalogs are asked for: a server of this process."""
    from stcal.tweakreg import astrometric_utils
    if SERVER["port"] != os.getpid():
        srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Service)
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        SERVER["port"] = os.getpid()
        SERVER["url"] = f"http://127.0.0.1:{srv.server_address[1]}"
    SERVER["over"].set()
    SERVER["turn"] += 1
    SERVER["mode"], SERVER["asked"], SERVER["over"] = "up", [], threading.Event()
    astrometric_utils.SERVICELOCATION = f"{SERVER['url']}/turn{SERVER['turn']}"


def nobody():
    """A port nobody listens on, kept so that no one takes it."""
    if SERVER["nobody"] is None or SERVER["nobody"][0] != os.getpid():
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        SERVER["nobody"] = (os.getpid(), s)
    return f"http://127.0.0.1:{SERVER['nobody'][1].getsockname()[1]}"


from vlib import each, main, spare, spread  # noqa: E402

HEAD = "ra,dec,mag,objID,epoch,pmra,pmdec"


def attempt(fn, *a, **k):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k), ""
    except Exception as e:                                   # noqa: BLE001
        return None, type(e).__name__
    except BaseException as e:                               # noqa: BLE001
        if type(e).__name__ != "TweakregError":
            raise
        return None, "TweakregError"


def image(ra, dec, roll, v2, v3, n=1000, scale=.05, box=None, corr=None):
    """An image with the frames of a JWST or Roman image; corr: shift in an additional frame, arcsec."""
    import gwcs
    from astropy import coordinates as coord
    from astropy import units as u
    from astropy.modeling.models import Scale, Shift
    from astropy.modeling.rotations import RotationSequence3D
    from gwcs import coordinate_frames as cf
    from gwcs.geometry import CartesianToSpherical, SphericalToCartesian
    det = cf.Frame2D(name="detector", axes_order=(0, 1), unit=(u.pix, u.pix))
    v23 = cf.Frame2D(name="v2v3", axes_order=(0, 1), axes_names=("v2", "v3"), unit=(u.arcsec, u.arcsec))
    world = cf.CelestialFrame(reference_frame=coord.ICRS(), name="world")
    c = (n - 1) / 2
    a = (Shift(-c) & Shift(-c)) | (Scale(scale) & Scale(scale)) | (Shift(v2) & Shift(v3))
    b = ((Scale(1 / 3600) & Scale(1 / 3600)) | SphericalToCartesian(wrap_lon_at=180)
         | RotationSequence3D([v2 / 3600, -v3 / 3600, roll, dec, -ra], "zyxyz") | CartesianToSpherical(wrap_lon_at=360))
    w = gwcs.WCS([(det, a), (v23, b), (world, None)])
    w.bounding_box = box or ((-.5, n - .5), (-.5, n - .5))
    return w


class Attr(dict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.__dict__ = self

    @property
    def instance(self):
        return self


# ---- a field of stars, seen by images that point wrongly ----
class Field:
    def __init__(self, rng, n=25):
        self.ra0 = float(rng.choice([0.001, 359.999, 150, 80.05, rng.random() * 360]))
        self.dec0 = float(rng.choice([0, 20, -45, 40, -30]))       # where some arcsec to the east hardly turn an image
        self.roll = float(rng.choice([0, 30, 137.5, -80, 180]))
        self.v2, self.v3 = (float(v) for v in rng.choice([0, 100, -350, 420], 2))
        g = np.array([(i, j) for i in range(5) for j in range(5)], float)[:n]
        xy = (g - 2) * 9 + rng.uniform(-2, 2, g.shape)
        xy = xy[rng.permutation(len(xy))]
        self.x, self.y = 499.5 + xy[:, 0] / .05, 499.5 + xy[:, 1] / .05
        w = self.at(0, 0, 0)
        self.ra, self.dec = (np.asarray(v) for v in w(self.x, self.y, with_bounding_box=False))
        px = 499.5 + np.array([-420, 420, 420, -420, 0])
        py = 499.5 + np.array([-420, -420, 420, 420, 0])
        self.pra, self.pdec = w(px, py, with_bounding_box=False)

    def at(self, east, north, rot, box=None):
        """An image pointing so many arcsec off."""
        dec = self.dec0 + north / 3600
        dra = east / 3600 / math.cos(math.radians(self.dec0))
        return image((self.ra0 + dra) % 360, dec, self.roll + rot, self.v2, self.v3, box=box)

    def residual(self, px, wcs):
        """Where the wcs puts the places seen at px, minus where they are, mas to the east and north."""
        ra, dec = wcs(*px, with_bounding_box=False)
        e = ((np.asarray(ra) - self.pra + 180) % 360 - 180) * np.cos(np.radians(self.dec0)) * 3.6e6
        n = (np.asarray(dec) - self.pdec) * 3.6e6
        return [[int(round(a)), int(round(b))] for a, b in zip(e, n)]


class Observation:
    """Images of a field. specs: (group, stars, residual (east, north, arcsec), rotation, dither)."""

    def __init__(self, field, specs, rng, catalogs=True):
        from astropy.table import Table
        from stcal.tweakreg.tweakreg import construct_wcs_corrector
        self.f, self.specs, self.cs, self.px, self.imgs = field, specs, [], [], []
        for k, (grp, stars, off, rot, dith) in enumerate(specs):
            true = field.at(*dith, 0)
            x, y = (np.asarray(v) for v in true.invert(field.ra, field.dec, with_bounding_box=False))
            # half of the images end before some of their stars
            inside = np.zeros(len(x), bool)
            inside[[s - 1 for s in stars]] = True
            box, rows = None, np.flatnonzero(inside)
            if rng.integers(2) and len(rows) > 1:
                cut = float(rng.choice([x[rows].max() + .01, np.median(x[rows])]))
                out = x >= cut
                box = ((-.5, cut), (-.5, 999.5))
                rows = np.flatnonzero(inside | (out & (rng.random(len(x)) < .5)))
                inside &= ~out
            rows = rng.permutation(rows)
            wrong = field.at(dith[0] + off[0], dith[1] + off[1], rot, box=box)
            cat = Table({"x": x[rows], "y": y[rows]}, meta={"name": f"im{k}"}) if len(rows) else Table({"x": np.zeros(0), "y": np.zeros(0)})
            self.cs.append(construct_wcs_corrector(wrong, {"roll_ref": field.roll + rot, "v2_ref": field.v2, "v3_ref": field.v3}, cat, grp))
            self.px.append(true.invert(field.pra, field.pdec, with_bounding_box=False))
            self.imgs.append({"grp": grp, "srcs": sorted(int(i) + 1 for i in np.flatnonzero(inside))})

    def where(self):
        return [self.f.residual(p, c.wcs) for p, c in zip(self.px, self.cs)]

    def moved(self):
        """The largest distance of a corner from where it was at first, mas."""
        out = []
        for c in self.cs:
            a, b = (np.radians(w.footprint(axis_type="spatial")) for w in (c.original_wcs, c.wcs))
            d = 2 * np.arcsin(np.sqrt(np.sin((b - a)[:, 1] / 2) ** 2 + np.cos(a[:, 1]) * np.cos(b[:, 1]) * np.sin((b - a)[:, 0] / 2) ** 2))
            out.append(int(round(np.degrees(d.max()) * 3.6e6)))
        return out

    def groups(self):
        return [c.meta["group_id"] for c in self.cs]

    def status(self):
        out = []
        for c in self.cs:
            s = (c.meta.get("fit_info") or {}).get("status", "")
            out.append("FAILED" if s.startswith("FAILED") else s)
        return out

    def numbered(self):
        return [{"grp": g, "srcs": i["srcs"]} for g, i in zip(self.groups(), self.imgs)]


DEFAULTS = {"separation": 1.0, "use2dhist": True, "tolerance": .7, "minobj": 15, "fitgeometry": "rshift"}
FIT = {"fitgeometry": ("rshift", "shift", "rscale", "general")}


def relative(ob, p, geometry, rotated):
    from stcal.tweakreg.tweakreg import relative_align
    e = {"kind": "relative", "p": p, "imgs": ob.numbered(), "before": ob.where(), "alike": 4 if rotated else 2}
    kw = dict(searchrad=p["searchrad"] / 1e3, separation=p["sep"] / 1e3, use2dhist=p["use2d"], tolerance=p["tol"] / 1e3,
              xoffset=p["xoff"] / 1e3, yoffset=p["yoff"] / 1e3, enforce_user_order=p["enforce"], expand_refcat=p["expand"], minobj=p["minobj"],
              fitgeometry=geometry)
    _, e["err"] = attempt(relative_align, ob.cs, **spare(kw, bool(p["searchrad"] % 2000 == 0), **DEFAULTS, searchrad=2.0, xoffset=0.0, yoffset=0.0,
                                                         enforce_user_order=False, expand_refcat=False))
    e.update(after=ob.where(), corr=ob.moved(), st=ob.status(), after_grp=ob.groups())
    return e


COLS = [("RA", "DEC"), ("ra", "dec"), ("Ra", "deC"), ("RA",), ("dec",), (), ("RA", "DEC", "sky_centroid"), ("sky_centroid",), ("SKY_centroid",), ("ra", "sky_centroid"),
        ("RA", "ra", "DEC"), ("RA", "Dec", "dec"), ("sky_centroid", "Sky_Centroid"), ("x", "flux")]


def absolute(ob, p, refs, rng, geometry, rotated, cat=None, cols=None):
    """refs: stars of the reference catalog."""
    from astropy.coordinates import SkyCoord
    from astropy.table import Table
    from stcal.tweakreg.tweakreg import absolute_align
    f = ob.f
    cat = cat or ("file", "file", "service", "missing")[int(rng.choice([0, 1, 2, 2, 3], p=[.35, .3, .2, .1, .05]))]
    cols = cols if cols is not None else COLS[int(rng.choice(len(COLS)))] if rng.integers(3) == 0 else ("RA", "DEC")
    known = [s for s in refs if s <= len(f.ra)]
    far = [s for s in refs if s > len(f.ra)]
    ra = np.array([f.ra[s - 1] for s in known] + [f.ra0 + .05 + .001 * s for s in far])
    dec = np.array([f.dec[s - 1] for s in known] + [f.dec0 for _ in far])
    with tempfile.TemporaryDirectory(prefix="c20.") as d:
        kw, name = {}, os.path.join(d, "nothing.ecsv")
        rows = list(refs)
        if cat == "file":
            t = Table()
            shown = "sky_centroid" not in [k.lower() for k in cols] or sum(k.lower() in ("ra", "dec") for k in cols) == 2
            for k in cols:
                t[k] = {"ra": ra, "dec": dec, "x": ra, "flux": ra}[k.lower()] if k.lower() != "sky_centroid" else SkyCoord(ra, dec + (0 if not shown else 1 / 3600), unit="deg")
            if not cols:
                t["id"] = np.arange(len(ra))
            name = os.path.join(d, str(rng.choice(["cat.ecsv", "gaiadr3.ecsv"])))
            t.write(name, format="ascii.ecsv")
        elif cat == "service":
            service()
            pm = rng.random(len(refs)) < .8
            epoch = bool(rng.integers(2))
            body = [f"{ra[i]:.12f},{dec[i]:.12f},{int(rng.integers(14000, 21000)) / 1000},{s},2016.0,{'1.5' if pm[i] else ''},{'-2.5' if pm[i] else ''}" for i, s in enumerate(known + far)]
            rows = [s for i, s in enumerate(known + far) if pm[i] or not epoch]
            SERVER["rows"] = "\n".join(["# catalog", HEAD, *body]) + "\n" if body else "No data records found"
            name = str(rng.choice(["GAIADR3", "gaiadr2", " GAIArefcat "]))
            kw["epoch"] = 2021.5 if epoch else None
        save = bool(rng.integers(2))
        w = ob.cs[0].wcs
        info = Attr(v2_ref=f.v2, v3_ref=f.v3, roll_ref=f.roll, ra_ref=f.ra0, dec_ref=f.dec0, v3yangle=0.0, vparity=1)
        e = {"kind": "absolute", "p": p, "imgs": ob.numbered(), "refs": rows, "before": ob.where(), "alike": 4 if rotated else 2, "cat": cat, "save": save,
             "cols": {n: sum(k.lower() == m for k in cols) for n, m in (("ra", "ra"), ("dec", "dec"), ("cen", "sky_centroid"))}}
        corners = np.vstack([c.wcs.footprint() for c in ob.cs])
        SERVER["asked"] = []
        _, e["err"] = attempt(absolute_align, ob.cs, name, w, info, kw.pop("epoch", 2020.0), **({"save_abs_catalog": True} if save else {}), abs_catalog_output_dir=d,
                              **{"abs_" + k: v for k, v in spare(dict(searchrad=p["searchrad"] / 1e3, separation=p["sep"] / 1e3, use2dhist=p["use2d"], tolerance=p["tol"] / 1e3,
                                                                      minobj=p["minobj"], fitgeometry=geometry), len(refs) % 2 == 0, **DEFAULTS, searchrad=6.0).items()})
        asked = SERVER["asked"]
        e.update(after=ob.where(), st=ob.status(), after_grp=ob.groups(), searches=len(asked), saved=os.path.exists(os.path.join(d, f"fit_{name.strip().lower()}_ref.ecsv")), sr=0, seps=[])
        if asked:
            q = asked[0]
            e["sr"], e["seps"] = cone(float(q["RA"][0]), float(q["DEC"][0]), float(q["SR"][0]), corners)
    return e


def cone(ra, dec, sr, corners):
    """The search radius and the distances of the corners, 1e-7 degrees."""
    def unit(a, d):
        a, d = np.radians(a), np.radians(d)
        return np.stack([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)], axis=-1)
    chord = np.linalg.norm(unit(corners[:, 0], corners[:, 1]) - unit(ra, dec), axis=-1)
    return int(round(sr * 1e7)), [int(round(v * 1e7)) for v in np.degrees(2 * np.arcsin(chord / 2))]


def replay(a):
    b, seed = a
    rng = np.random.default_rng(seed)
    f = Field(rng)
    ob = Observation(f, [(i["grp"], i["srcs"], (o[0][0] / 1e3, o[0][1] / 1e3), 0, (0, 0)) for i, o in zip(b["imgs"], b["orig"])], NoCut())
    out = []
    for op in b["ops"]:
        g = FIT["fitgeometry"][int(rng.integers(2))]
        out.append(relative(ob, op["p"], g, False) if op["op"] == "relative" else absolute(ob, op["p"], op["refs"], rng, g, False, cat="file", cols=("RA", "DEC")))
    return out


class NoCut:
    """Stands in for a source of chance: images keep all their stars."""

    def integers(self, *a):
        return 0

    def permutation(self, x):
        return x


def random_history(rng):
    f = Field(rng)
    rotated = bool(rng.integers(4) == 0)
    ids = np.arange(1, 26)
    n = int(rng.choice([1, 2, 3, 4], p=[.1, .3, .3, .3]))
    groups = sorted(int(v) for v in rng.integers(1, n + 1, n)) if rng.integers(3) else list(range(1, n + 1))
    if rng.integers(4) == 0:
        groups = [int(v) for v in rng.permutation(groups)]
    where = {g: (float(rng.choice([0, .3, -.9, 1.5, rng.uniform(-2.5, 2.5), 5.2])), float(rng.choice([0, 0, .4, rng.uniform(-2.5, 2.5)])), rng.uniform(-.03, .03) if rotated else 0) for g in groups}
    left, specs = {}, []
    for g in groups:
        m = int(rng.choice([0, 3, 8, 12, 16, 20, 25], p=[.06, .06, .13, .15, .2, .2, .2]))
        s = left.setdefault(g, list(rng.permutation(ids)))
        mine, left[g] = s[:m], s[m:]
        specs.append((g, [int(v) for v in mine], where[g][:2], where[g][2], (float(rng.uniform(-1.5, 1.5)), float(rng.uniform(-1.5, 1.5)))))
    ob = Observation(f, specs, rng)
    out = []
    for _ in range(int(rng.integers(1, 4))):
        tol = int(rng.choice([400, 500, 700, int(rng.integers(300, 800))]))
        sep = int(rng.choice([1000, 1200, 1500, 2 * tol, int(1.4142 * tol) + 2, int(1.4142 * tol), tol], p=[.3, .2, .2, .1, .1, .05, .05]))
        p = {"sep": sep, "tol": tol, "minobj": int(rng.choice([5, 6, 8, 12, 15])), "searchrad": int(rng.choice([1000, 2000, 3000, 6000])), "use2d": bool(rng.integers(3)),
             "xoff": 0, "yoff": 0, "enforce": bool(rng.integers(2)), "expand": bool(rng.integers(3) == 0)}
        g = FIT["fitgeometry"][int(rng.choice([0, 0, 2, 3] if rotated else [0, 1, 2, 3]))]
        if rng.integers(3):
            if not p["use2d"] and len(ob.imgs) > 1 and rng.integers(4):
                a, b = ob.where()[0], ob.where()[-1]
                p["xoff"], p["yoff"] = (int(b[4][k] - a[4][k]) + int(rng.integers(-200, 200)) for k in (0, 1))
            out.append(relative(ob, p, g, rotated))
        else:
            refs = [int(v) for v in rng.permutation(28)[:int(rng.choice([0, 4, 10, 20, 28]))] + 1]
            out.append(absolute(ob, p, refs, rng, g, rotated))
    return out


def random_drift(rng):
    """One of several groups is far off and joins the others; then comes an alignment that allows little."""
    f = Field(rng)
    n = int(rng.choice([3, 4]))
    k = int(rng.choice([0, 0, n - 1, int(rng.integers(n))]))
    specs = []
    for g in range(n):
        stars = [int(v) for v in rng.permutation(np.arange(1, 26))[:int(rng.choice([10, 14]) if g == k else rng.choice([18, 22, 25]))]]
        off = (float(rng.choice([-1, 1]) * rng.uniform(1.6, 5.2)), float(rng.uniform(-.5, .5))) if g == k else (float(rng.uniform(-.2, .2)), 0.)
        specs.append((g + 1, stars, off, 0, (float(rng.uniform(-1.5, 1.5)), float(rng.uniform(-1.5, 1.5)))))
    ob = Observation(f, specs, rng)
    p = {"sep": 1000, "tol": 500, "minobj": 6, "searchrad": 6000, "use2d": True, "xoff": 0, "yoff": 0, "enforce": False, "expand": True}
    q = dict(p, searchrad=int(rng.choice([300, 600, 1000, 2500])), enforce=bool(rng.integers(2)), expand=bool(rng.integers(2)))
    return [relative(ob, p, "rshift", False), relative(ob, q, "rshift", False)]


def random_outlier(rng):
    """One source of the second image is where it should not be."""
    f = Field(rng)
    n = int(rng.choice([8, 9, 14, 20, 25, 25]))
    both = [int(v) for v in rng.permutation(25)[:n] + 1]
    ob = Observation(f, [(1, both, (0, 0), 0, (0, 0)), (2, both, (.6, 0), 0, (0, 0))], NoCut())
    o = int(rng.choice([200, 300, 400]))
    cat = ob.cs[1].meta["catalog"]
    k = int(rng.integers(n))
    cat["x"][k] += o / 50                                         # 50 mas a pixel
    sigma, nclip = float(rng.choice([2, 3, 4, 6])), int(rng.choice([0, 1, 3]))
    if abs(n - 1 - sigma**2) < .5:
        sigma += .5
    absolutely = bool(rng.integers(2))
    from stcal.tweakreg.tweakreg import absolute_align, relative_align
    kw = dict(searchrad=2.0, separation=1.5, tolerance=.7, minobj=6, fitgeometry="shift", nclip=nclip, sigma=sigma)
    if absolutely:
        from astropy.table import Table
        sel = np.array(both) - 1
        ob.cs, ob.px = ob.cs[1:], ob.px[1:]
        with tempfile.TemporaryDirectory(prefix="c20.") as d:
            Table({"RA": f.ra[sel], "DEC": f.dec[sel]}).write(d + "/c.ecsv", format="ascii.ecsv")
            _, err = attempt(absolute_align, ob.cs, d + "/c.ecsv", None, None, None, **{"abs_" + a: b for a, b in kw.items()})
    else:
        _, err = attempt(relative_align, ob.cs, **kw)
    # a source seen too far to the right shifts the image to the left
    co, si = math.cos(math.radians(f.roll)), math.sin(math.radians(f.roll))
    r = [[a * co - b * si] for a, b in ob.where()[-1]]
    return {"kind": "outlier", "err": err, "n": n, "sigma": int(sigma) if sigma == int(sigma) else int(sigma) + (1 if n - 1 < sigma**2 else 0), "nclip": nclip, "o": o,
            "got": int(round(sum(-a[0] for a in r) / len(r) * 10))}


def random_box(rng):
    from astropy.table import Table
    from stcal.tweakreg.tweakreg import construct_wcs_corrector, filter_catalog_by_bounding_box
    lo = [int(v) for v in rng.integers(-20, 300, 2)]
    hi = [a + int(rng.integers(50, 2000)) for a in lo]
    box = [[lo[0], hi[0]], [lo[1], hi[1]]]
    rows = []
    for _ in range(int(rng.integers(0, 14))):
        x, y = (int(rng.choice([b[0], b[1], b[0] + 1, b[1] - 1, b[0] - 1, b[1] + 1, int(rng.integers(b[0] - 100, b[1] + 100))], p=[.1] * 6 + [.4])) for b in box)
        rows.append({"x": x, "y": y, "nan": bool(rng.integers(10) == 0)})
    t = Table({"x": np.array([np.nan if r["nan"] else r["x"] / 10 for r in rows]), "y": np.array([r["y"] / 10 for r in rows]), "label": np.arange(len(rows)) + 1})
    real = tuple(tuple(v / 10 for v in b) for b in box)
    if rng.integers(2):
        w = image(10., 20., 0., 0., 0., box=real)
        c, err = attempt(construct_wcs_corrector, w, {"roll_ref": 0., "v2_ref": 0., "v3_ref": 0.}, t, "g")
        got = None if err else c.meta["catalog"]
    else:
        if rng.integers(5) == 0:
            real, box = None, []
        got, err = attempt(filter_catalog_by_bounding_box, t, real)
    return {"kind": "box", "err": err, "rows": rows, "box": box, "kept": [] if err else [int(v) for v in got["label"]]}


def random_refcat(rng):
    from astropy.table import Table
    from stcal.tweakreg.astrometric_utils import create_astrometric_catalog
    service()
    rows = []
    few = rng.integers(2)
    for k in range(int(rng.choice([0, 1, 2, 5, 12]))):
        rows.append({"mag": int(rng.choice([15000, 15500, 20000]) if few else rng.integers(8000, 22000)), "hasmag": bool(rng.integers(8)), "pm": bool(rng.integers(4)),
                     "ra": 10 + k / 1000, "dec": -5 + k / 512, "half": bool(rng.integers(2))})
    if rng.integers(2):
        rows = [{**r, "hasmag": True} for r in rows]
    epoch = bool(rng.integers(2))
    body = [f"{r['ra']},{r['dec']},{r['mag'] / 1000 if r['hasmag'] else ''},{100 + i},2016.0,{'1.0' if r['pm'] or r['half'] else ''},{'2.0' if r['pm'] else ''}" for i, r in enumerate(rows)]
    SERVER["rows"] = "\n".join([HEAD, *body]) + "\n" if rows else str(rng.choice(["No data records found\n", HEAD + "\n"]))
    mode = str(rng.choice(["up"] * 12 + ["slow", "gone", "loop"]))
    SERVER["mode"] = mode
    if mode == "gone":
        from stcal.tweakreg import astrometric_utils
        astrometric_utils.SERVICELOCATION = nobody()
    num = [] if rng.integers(3) == 0 else [int(rng.choice([0, 1, 2, 3, 5, 40, -1, -2, -3, -30]))]
    save = bool(rng.integers(2))
    with tempfile.TemporaryDirectory(prefix="c20.") as d:
        name = d + "/ref.ecsv"
        t, err = attempt(create_astrometric_catalog, image(10., -5., 0., 0., 0.), 2020.25 if epoch else None, catalog="GAIADR3", output=name if save else None,
                         num_sources=num[0] if num else None, timeout=.25 if mode == "slow" else 20)
        err = {"ConnectTimeout": "Timeout", "ReadTimeout": "Timeout"}.get(err, err)
        out = []
        if not err:
            for r in t:
                i = int(r["objID"]) - 100
                s = rows[i]
                m = np.ma.is_masked(r["mag"]) or not np.isfinite(float(r["mag"]))
                out.append({"i": i + 1, "ok": bool(float(r["RA"]) == s["ra"] and float(r["DEC"]) == s["dec"] and m == (not s["hasmag"]) and (m or round(1000 * float(r["mag"])) == s["mag"]))})
        saved = os.path.exists(name)
        same = saved and not err and [int(v) for v in Table.read(name)["objID"]] == [int(v) for v in t["objID"]]
    q = SERVER["asked"][0] if SERVER["asked"] else {}
    return {"kind": "refcat", "err": err, "service": mode, "rows": [{k: r[k] for k in ("mag", "hasmag", "pm")} for r in rows], "epoch": epoch, "num": num, "save": save, "out": out, "saved": saved,
            "same": bool(same), "asked": q.get("EPOCH") == ["2020.25"]}


def random_cone(rng):
    from stcal.tweakreg.astrometric_utils import compute_radius
    ra = float(rng.choice([0, .001, 359.9995, 180, rng.random() * 360]))
    dec = float(rng.choice([0, 60, -89.99, 90, 89.999, -45]))
    n = int(rng.choice([100, 1000, 3000]))
    lo, hi = rng.integers(-1, n // 3, 2), rng.integers(n // 2, n, 2)
    box = tuple((float(a) - .5, float(b) + .5) for a, b in zip(lo, hi)) if rng.integers(2) else None
    w = image(ra, dec, float(rng.random() * 360), *(float(v) for v in rng.choice([0, 300, -120], 2)), n=n, scale=float(rng.choice([.03, .06, .11])), box=box)
    r, err = attempt(compute_radius, w)
    e = {"kind": "cone", "err": err, "sr": 0, "seps": []}
    if not err:
        e["sr"], e["seps"] = cone(float(r[1][0]), float(r[1][1]), float(r[0]), w.footprint())
    return e


def random_angles(rng):
    """The pointing read back from an image, also one that has been aligned."""
    from stcal.tweakreg.utils import _wcsinfo_from_wcs_transform
    v2, v3 = (float(v) for v in rng.choice([0, 100, -350.5, 420], 2))
    ra, dec, roll = float(rng.uniform(0, 359)), float(rng.uniform(-80, 80)), float(rng.uniform(-179, 179))
    w = image(ra, dec, roll, v2, v3)
    given = [v2, v3, roll, ra, dec]
    tol = [1, 1, 1, 1, 1]
    want = ""
    if rng.integers(2):
        from tweakwcs.correctors import JWSTWCSCorrector
        c = JWSTWCSCorrector(w, {"roll_ref": roll, "v2_ref": v2, "v3_ref": v3})
        c.set_correction(shift=[float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2))])
        w = c.wcs
        tol = [1, 1, 1, 1500000, 1500000]
    elif rng.integers(4) == 0:
        import gwcs
        s = w.pipeline
        w, want = gwcs.WCS([(s[0].frame, w.get_transform("detector", "world")), (s[2].frame, None)]), "ValueError"
    g, err = attempt(_wcsinfo_from_wcs_transform, w)
    keys = ("v2_ref", "v3_ref", "roll_ref", "ra_ref", "dec_ref")
    unit = (1e5, 1e5, 1e6, 1e6, 1e6)
    return {"kind": "angles", "err": err, "want": want, "given": [round(a * u) for a, u in zip(given, unit)], "got": [] if err else [round(float(g[k]) * u) for k, u in zip(keys, unit)], "tol": tol}


def run(c):
    c.model("AlignMC")
    if c.thorough:
        c.model("AlignMC", "AlignMC4.cfg", timeout=1500)
    r = c.model("AlignMC", "AlignMCRun.cfg", want_json=True, args=("-simulate", f"num={c.pick(30, 1000)}", "-depth", "6"), workers=1)
    rng = c.nprng("replays")
    pick = rng.permutation(len(r.json))[:c.pick(150, 4000)]
    c.validate("AlignTrace", each(replay, [(r.json[i], int(rng.integers(2**40))) for i in pick]), label="histories of the specification")
    for fn, n in ((random_history, (260, 8000)), (random_drift, (60, 1500)), (random_outlier, (120, 3000)), (random_box, (200, 4000)), (random_refcat, (300, 6000)), (random_cone, (150, 3000)), (random_angles, (100, 2000))):
        c.validate("AlignTrace", spread(c, fn, c.pick(*n), fn.__name__), label=fn.__name__)


if __name__ == "__main__":
    main("C20", run)
