"""C19: a search of the tiled catalog gives the sources inside of the circle, once each, where they are at the epoch."""
import math
import os
import tempfile

import numpy as np

from vlib import main
from vlib import call as _call

ROOT = "stpubdata/gaia/gaia_dr3/public/hats/gaia"
NUMBERS = ("ra", "ra_error", "dec", "dec_error", "parallax", "parallax_error", "ref_epoch", "pmra", "pmra_error", "pmdec", "pmdec_error", "phot_g_mean_mag")


def call(*a, **k):
    r, err = _call(*a, **k)
    return r, err or ""


def ready(where):
    """The bucket is a directory."""
    import pyarrow.fs
    pyarrow.fs.S3FileSystem = lambda *a, **k: pyarrow.fs.SubTreeFileSystem(where, pyarrow.fs.LocalFileSystem())


def vec(ra, dec):
    a, d = np.radians(ra), np.radians(dec)
    return np.stack([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)], axis=-1)


def apart(a, b):
    """Angles between unit vectors, radians."""
    return 2 * np.arcsin(np.clip(np.linalg.norm(a - b, axis=-1) / 2, 0, 1))


def radec(v):
    v = v / np.linalg.norm(v, axis=-1, keepdims=True)
    return np.degrees(np.arctan2(v[..., 1], v[..., 0])) % 360, np.degrees(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))


def around(rng, ra, dec, r):
    """Places so far (degrees, an array) from a place, in any direction."""
    c = vec(ra, dec)
    e = np.array([-math.sin(math.radians(ra)), math.cos(math.radians(ra)), 0])
    n = np.cross(c, e)
    t = rng.random(len(r)) * 2 * np.pi
    r = np.radians(r)
    return radec(np.cos(r)[:, None] * c + np.sin(r)[:, None] * (np.cos(t)[:, None] * e + np.sin(t)[:, None] * n))


def cells(ra, dec, depth):
    from astropy import units as u
    from astropy_healpix import HEALPix
    return np.asarray(HEALPix(nside=2**depth, order="nested").lonlat_to_healpix(np.asarray(ra) * u.deg, np.asarray(dec) * u.deg), dtype=np.int64)


def corner(rng, depth):
    """A corner of a cell."""
    from astropy_healpix import HEALPix
    lon, lat = HEALPix(nside=2**depth, order="nested").boundaries_lonlat([int(rng.integers(12 * 4**depth))], step=1)
    k = int(rng.integers(4))
    return float(lon.to_value("deg").ravel()[k]), float(lat.to_value("deg").ravel()[k])


def center(rng, depth):
    k = int(rng.integers(6))
    if k == 0:
        return corner(rng, depth)
    if k == 1:
        return float(rng.choice([0, 1e-4, 359.9999, 359.5])), float(rng.uniform(-80, 80))
    if k == 2:
        return float(rng.random() * 360), float(rng.choice([90, -90, 89.99, -89.9, 89]))
    if k == 3:
        return float(rng.choice([0, 90, 45, 270])), float(rng.choice([0, math.degrees(math.asin(2 / 3)), -math.degrees(math.asin(2 / 3))]))
    return float(rng.random() * 360), math.degrees(math.asin(rng.uniform(-1, 1)))


def divide(rng, depth, places):
    """Tiles down to a depth, finest about the places."""
    near = {d: set(int(i) for i in cells([p[0] for p in places], [p[1] for p in places], d)) for d in range(depth + 1)}
    tiles, todo = [], [(0, i) for i in range(12)]
    while todo:
        d, i = todo.pop()
        if d < depth and rng.random() < (.75 if i in near[d] else .15 if d < 3 else .03):
            todo += [(d + 1, 4 * i + k) for k in range(4)]
        else:
            tiles.append((d, i))
    return tiles


class Catalog:
    def __init__(self, rng, where, tiles, ra, dec, empty=False):
        import pyarrow as pa
        import pyarrow.parquet as pq
        order = rng.permutation(len(ra))
        self.ra, self.dec = np.asarray(ra)[order], np.asarray(dec)[order]
        n = len(self.ra)
        self.fine = cells(self.ra, self.dec, 29)
        self.v = {k: np.round(rng.uniform(0, 1, n), 6) for k in NUMBERS}
        self.v["ra"], self.v["dec"] = self.ra, self.dec
        self.v["ref_epoch"] = rng.choice([2016.0, 2016.0, 2015.5], n)
        big = 10.0 ** rng.integers(0, 4, n)
        for k in ("pmra", "pmdec"):
            self.v[k] = np.rint(rng.uniform(-1, 1, n) * big)
        self.v["parallax"] = np.rint(rng.choice([0, 1, 20, 300, -2], n))
        self.v["phot_g_mean_mag"] = np.round(rng.uniform(8, 21, n), 3)
        for k in ("pmra", "pmdec", "parallax", "phot_g_mean_mag"):
            self.v[k][rng.random(n) < .08] = np.nan
        self.pm = ~(np.isnan(self.v["pmra"]) | np.isnan(self.v["pmdec"]) | np.isnan(self.v["parallax"]))
        self.ids = 2**60 + 7 * np.arange(n, dtype=np.int64) + 1
        self.holder = np.full((n, 2), -1, dtype=np.int64)
        root = os.path.join(where, ROOT)
        os.makedirs(root)
        self.tiles = []
        for d, i in tiles:
            m = np.flatnonzero(self.fine >> (2 * (29 - d)) == i)
            if not len(m) and not empty:
                continue
            m = m[np.argsort(self.fine[m])]
            self.tiles.append((int(d), int(i)))
            self.holder[m] = (d, i)
            t = {"_healpix_29": pa.array(self.fine[m])}
            for k in NUMBERS:
                x = self.v[k][m]
                t[k] = pa.array(x, mask=np.isnan(x)) if rng.integers(2) else pa.array(x)
            t["source_id"] = pa.array(self.ids[m])
            t["random_index"] = pa.array(m)
            out = os.path.join(root, "dataset", f"Norder={d}", f"Dir={i // 10000 * 10000}")
            os.makedirs(out, exist_ok=True)
            pq.write_table(pa.table({k: t[k] for k in rng.permutation(list(t))}), os.path.join(out, f"Npix={i}.parquet"), row_group_size=int(rng.choice([5, 50, 10000])))
        extra = bool(rng.integers(2))
        with open(os.path.join(root, "partition_info.csv"), "w") as f:
            f.write("Norder,Npix,Dir\n" if extra else "Norder,Npix\n")
            for k in rng.permutation(len(self.tiles)):
                d, i = self.tiles[int(k)]
                f.write(f"{d},{i},{i // 10000 * 10000}\n" if extra else f"{d},{i}\n")
        self.depth = max(d for d, _ in self.tiles) if self.tiles else 0


def search(cat, ra, dec, r, epoch, keep):
    """One search; keep: sources to look at."""
    from astropy import units as u
    from astropy.coordinates import get_body_barycentric
    from astropy.time import Time
    from stcal.tweakreg.astrometric_utils import get_catalog
    t, err = call(get_catalog, ra, dec, epoch, r, "GAIADR3_S3")
    at = vec(cat.ra, cat.dec)
    sep = apart(at, vec(ra, dec)) / math.radians(r)
    look = np.flatnonzero(keep(sep))
    depth = max(d for d, _ in cat.tiles)
    cell = cat.fine >> (2 * (29 - depth))
    earth = get_body_barycentric("earth", Time(epoch, format="decimalyear")).xyz.to_value(u.AU) if epoch else np.zeros(3)
    found = {}
    extra = 0
    known = {int(s): k for k, s in enumerate(cat.ids)}
    if not err:
        for row in t:
            k = known.get(int(row["objID"]))
            if k is None:
                extra += 1
            else:
                found.setdefault(k, []).append(row)
    look = sorted(set(int(k) for k in look) | set(found))
    src = []
    for k in look:
        s = {"sep": int(min(2e9, round(1e6 * float(sep[k])))), "pm": bool(cat.pm[k]), "n": len(found.get(k, [])), "holder": [int(x) for x in cat.holder[k]], "cell": int(cell[k]),
             "row": True, "dx": 0, "dy": 0, "dt": 0, "pmra": 0, "pmdec": 0, "plx": 0, "ex": 0, "ey": 0}
        if s["n"]:
            row = found[k][0]
            same = lambda a, b: (np.ma.is_masked(a) or np.isnan(float(a))) if np.isnan(b) else (not np.ma.is_masked(a) and float(a) == b)      # noqa: E731
            s["row"] = bool(int(row["source_id"]) == int(cat.ids[k]) and same(row["mag"], cat.v["phot_g_mean_mag"][k]) and same(row["epoch"], cat.v["ref_epoch"][k])
                            and all(same(row[c], cat.v[c][k]) for c in NUMBERS if c not in ("ra", "dec")) and 0 <= float(row["ra"]) <= 360)
            a, d = math.radians(cat.ra[k]), math.radians(cat.dec[k])
            east, north = np.array([-math.sin(a), math.cos(a), 0]), np.array([-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)])
            step = vec(float(row["ra"]), float(row["dec"])) - at[k]
            s["dx"], s["dy"] = (int(round(math.degrees(float(step @ w)) * 3.6e6)) for w in (east, north))
            if epoch and cat.pm[k]:
                s.update(dt=int(round(1000 * (epoch - cat.v["ref_epoch"][k]))), pmra=int(cat.v["pmra"][k]), pmdec=int(cat.v["pmdec"][k]), plx=int(cat.v["parallax"][k]),
                         ex=int(round(1000 * float(earth @ east))), ey=int(round(1000 * float(earth @ north))))
        src.append(s)
    return {"err": err, "tiles": [list(x) for x in cat.tiles if any(list(x) == s["holder"] for s in src)], "depth": int(depth), "src": src, "extra": extra, "epoch": bool(epoch),
            "border": 3 + int(math.ceil(6e-10 / math.radians(r) ** 2)), "at": [round(ra * 1e4), round(dec * 1e4), round(min(r * 1e6, 2e9))]}


def sources(rng, ra, dec, r, n):
    s = [around(rng, ra, dec, r * np.sqrt(rng.random(n))), around(rng, ra, dec, r * rng.uniform(1, 1.5, n // 2)), around(rng, ra, dec, r * (1 + rng.choice([-1, 1], n // 2) * 10.0 ** rng.uniform(-4, -2, n // 2)))]
    return np.concatenate([x[0] for x in s]), np.concatenate([x[1] for x in s])


def epochs(rng):
    return None if rng.integers(2) else float(rng.choice([2016.0, 2026.25, 2020.5, 2000.0, 2031.75]))


def random_catalog(rng):
    depth = int(rng.choice([0, 1, 2, 3, 4, 5, 6, 7]))
    size = 58.6 / 2**depth
    cones = []
    for _ in range(5):
        r = float(min(60, size * rng.choice([.02, .2, .7, 1.5, 4]) * rng.uniform(.5, 1.5))) if rng.integers(5) else float(rng.choice([.1, .02, 1e-3]))
        cones.append((*center(rng, depth), r))
    tiles = divide(rng, depth, cones)
    if rng.integers(3) == 0:
        tiles = [t for t in tiles if rng.random() < .8]
    ra, dec = zip(*[sources(rng, *k, 24) for k in cones])
    some = 200
    ra, dec = np.concatenate([*ra, rng.random(some) * 360]), np.concatenate([*dec, np.degrees(np.arcsin(rng.uniform(-1, 1, some)))])
    with tempfile.TemporaryDirectory(prefix="c19.") as where:
        held = np.zeros(len(ra), bool)
        fine = cells(ra, dec, 29)
        for d, i in tiles:
            held |= fine >> (2 * (29 - d)) == i
        if not held.any():
            return []
        cat = Catalog(rng, where, tiles, ra[held], dec[held], empty=bool(rng.integers(4) == 0))
        ready(where)
        return [search(cat, *k, epochs(rng), lambda sep: sep < 3) for k in cones]


def replay(rng, tiles, base):
    """Tiles of the specification, about a base cell of the sky."""
    from astropy_healpix import HEALPix
    d2 = 2
    where = {0: base[0], 1: base[1]}

    def real(t):
        d, i = t
        return (d, where[i // 4**d] * 4**d + i % 4**d)
    tiles = [real(t) for t in tiles]
    leaf = np.concatenate([np.arange(16) + 16 * b for b in base])
    lon, lat = HEALPix(nside=2**d2, order="nested").healpix_to_lonlat(leaf)
    ra, dec = lon.to_value("deg"), lat.to_value("deg")
    held = np.array([any(int(c) // 4 ** (d2 - d) == i for d, i in tiles) for c in leaf])
    out = []
    with tempfile.TemporaryDirectory(prefix="c19.") as w:
        cat = Catalog(rng, w, tiles, np.repeat(ra[held], 2), np.repeat(dec[held], 2))
        ready(w)
        for k in rng.permutation(len(leaf))[:6]:
            r = float(rng.choice([1, 8, 20, 33]))
            sep = np.degrees(apart(vec(ra, dec), vec(ra[k], dec[k])))
            if np.abs(sep - r).min() > 1e-3:
                out.append(search(cat, float(ra[k]), float(dec[k]), r, None, lambda s: s < 9e9))
    return out


def random_refcat(rng):
    """The reference catalog of an image, from tiles; an event of AlignTrace."""
    from astropy.table import Table
    from harness.c20 import attempt, image
    from stcal.tweakreg.astrometric_utils import compute_radius, create_astrometric_catalog
    ra0, dec0 = center(rng, 3)
    dec0 = max(-89.5, min(89.5, dec0))
    n = int(rng.choice([100, 1000, 3000]))
    w = image(ra0, dec0, float(rng.random() * 360), 0., 0., n=n, scale=.1)
    r, c = compute_radius(w)
    m = int(rng.choice([1, 2, 5, 12]))
    ra, dec = around(rng, ra0, dec0, r * .9 * np.sqrt(rng.random(m)))
    far = around(rng, ra0, dec0, r * rng.uniform(1.2, 3, 5))
    with tempfile.TemporaryDirectory(prefix="c19.") as where:
        cat = Catalog(rng, where, divide(rng, int(rng.integers(0, 6)), [(ra0, dec0)]), np.concatenate([ra, far[0]]), np.concatenate([dec, far[1]]))
        ready(where)
        inside = np.degrees(apart(vec(cat.ra, cat.dec), vec(float(c[0]), float(c[1])))) < r
        rows = [int(k) for k in np.flatnonzero(inside)]
        epoch = bool(rng.integers(2))
        num = [] if rng.integers(3) == 0 else [int(rng.choice([0, 1, 2, 3, 5, 40, -1, -2, -3, -30]))]
        save = bool(rng.integers(2))
        name = where + "/ref.ecsv"
        t, err = attempt(create_astrometric_catalog, w, 2016.0 if epoch else None, catalog="GAIADR3_S3", output=name if save else None, num_sources=num[0] if num else None)
        out = []
        if not err:
            pos = {int(cat.ids[k]): j + 1 for j, k in enumerate(rows)}
            for x in t:
                j = pos.get(int(x["objID"]), 0)
                mag = cat.v["phot_g_mean_mag"][rows[j - 1]] if j else 0
                gone = np.ma.is_masked(x["mag"]) or np.isnan(float(x["mag"]))
                out.append({"i": j, "ok": bool(j > 0 and (gone if np.isnan(mag) else not gone and float(x["mag"]) == mag))})
        saved = os.path.exists(name)
        same = saved and not err and [int(v) for v in Table.read(name)["objID"]] == [int(v) for v in t["objID"]]
    mags = [cat.v["phot_g_mean_mag"][k] for k in rows]
    return [{"kind": "refcat", "err": err, "service": "up", "rows": [{"mag": 0 if np.isnan(g) else round(1000 * g), "hasmag": not np.isnan(g), "pm": bool(cat.pm[k])} for g, k in zip(mags, rows)],
             "epoch": epoch, "num": num, "save": save, "out": out, "saved": saved, "same": bool(same), "asked": epoch}]


def _job(a):
    from vlib import quiet
    quiet()
    fn, seed, args = a
    return fn(np.random.default_rng(seed), *args)


def fresh(c, fn, cases, salt):
    """A process for each catalog: a process opens the catalog once."""
    import multiprocessing as mp
    seeds = c.nprng(salt).integers(0, 2**62, len(cases))
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        return [e for part in pool.map(_job, [(fn, int(s), a) for s, a in zip(seeds, cases)], chunksize=1) for e in part]


def run(c):
    import astropy.coordinates  # noqa: F401
    import astropy_healpix  # noqa: F401
    import pyarrow.parquet  # noqa: F401
    import stcal.tweakreg.astrometric_utils  # noqa: F401
    r = c.model("TilesMC", want_json=True)
    if c.thorough:
        c.model("TilesMC", "TilesMC3.cfg", timeout=1500)
    rng = c.nprng("tiles")
    pick = rng.permutation(len(r.json))[:c.pick(80, 2000)]
    bases = [(4, 5), (0, 4), (0, 1), (11, 8), (5, 2), (6, 7)]
    c.validate("TilesTrace", fresh(c, replay, [(r.json[i]["tiles"], bases[int(rng.integers(6))]) for i in pick], "replays"), label="divisions of the specification")
    c.validate("TilesTrace", fresh(c, random_catalog, [()] * c.pick(150, 4000), "random"), label="random_catalog")
    c.validate("AlignTrace", fresh(c, random_refcat, [()] * c.pick(120, 3000), "refcat"), label="reference catalogs")


if __name__ == "__main__":
    main("C19", run)
