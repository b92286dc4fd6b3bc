"""Shared driver of the ramp fitting checks: exposures of small integers, run through stcal.ramp_fitting.ramp_fit."""
from types import SimpleNamespace

import numpy as np

from fakepool import fake_pool
from vlib import NAN, call, enc, rnd

FLAGSETS = [
    {"dnu": 1, "sat": 2, "jump": 4, "pers": 32, "nogain": 1 << 19, "chg": 128, "uns": 1 << 24},
    {"dnu": 16, "sat": 64, "jump": 1, "pers": 8, "nogain": 1 << 10, "chg": 4, "uns": 1 << 20},
]


def dqdict(F):
    return {"GOOD": 0, "DO_NOT_USE": F["dnu"], "SATURATED": F["sat"], "JUMP_DET": F["jump"],
            "PERSISTENCE": F["pers"], "NO_GAIN_VALUE": F["nogain"], "UNRELIABLE_SLOPE": F["uns"],
            "CHARGELOSS": F["chg"]}


class Model:
    """The part of a ramp data model that ramp fitting reads."""

    def __init__(self, m, px, shape, order="=", zero=None, dark=True):
        nr, nc = shape
        assert nr * nc == len(px)
        ni, ng = m["ni"], m["ng"]
        data = np.zeros((ni, ng, nr, nc), dtype="f4")
        gdq = np.zeros((ni, ng, nr, nc), dtype="u1")
        pdq = np.zeros((nr, nc), dtype="u4")
        dk = np.zeros((nr, nc), dtype="f4")
        zf = np.zeros((ni, nr, nc), dtype="f4")
        self.gain = np.zeros((nr, nc), dtype="f4")
        self.rn = np.zeros((nr, nc), dtype="f4")
        for j, p in enumerate(px):
            r, c = divmod(j, nc)
            for i in range(ni):
                d = np.array(p["ints"][i]["d"], dtype=float)
                d[d == NAN] = np.nan
                data[i, :, r, c] = d
                gdq[i, :, r, c] = p["ints"][i]["q"]
            pdq[r, c] = p["pdq"]
            dk[r, c] = p["dark"]
            self.gain[r, c] = np.nan if p["gain"] == NAN else p["gain"]
            self.rn[r, c] = p["rn"]
            if p["zf"]:
                zf[:, r, c] = p["zf"]

        mix = np.random.default_rng(int(order[3:])) if order.startswith("mix") else None

        def o(a):
            """order: a byte order, or mixN: every array its own byte order and layout in memory"""
            od = order if mix is None else "=>"[int(mix.integers(2))]
            if mix is not None and mix.integers(3) == 0:
                a = np.asfortranarray(a)
            elif mix is not None and mix.integers(3) == 0:
                b = np.zeros(a.shape[:-1] + (2 * a.shape[-1] + 1,), a.dtype)
                b[..., 1::2] = a
                a = b[..., 1::2]
                if od != "=":
                    b = b.astype(b.dtype.newbyteorder(od))
                    a = b[..., 1::2]
                return a
            return a if od == "=" or a.dtype.itemsize == 1 else a.astype(a.dtype.newbyteorder(od))
        self.data, self.groupdq, self.pixeldq = o(data), gdq if mix is None else o(gdq), o(pdq)
        self.average_dark_current = o(dk)
        self.gain, self.rn = o(self.gain), o(self.rn)
        self.has_zero = any(p["zf"] for p in px) if zero is None else zero
        self.has_dark = dark
        if self.has_zero:
            self.zeroframe = o(zf)
        self.meta = SimpleNamespace(
            instrument=SimpleNamespace(name="MIRI" if m["miri"] else "NIRCAM"),
            exposure=SimpleNamespace(frame_time=float(m["tf"]), group_time=float(m["tg"]), groupgap=m["gap"],
                                     nframes=m["nf"], drop_frames1=m["drop"] if m["drop"] >= 0 else None,
                                     read_times=None))

    def hasattr(self, name):
        if name == "zeroframe":
            return self.has_zero
        if name == "average_dark_current":
            return self.has_dark
        return hasattr(self, name)


def fit(m, px, shape, cores="none", save_opt=False, order="=", algorithm="OLS_C", ncpu=8, real_pool=False):
    """-> (none?, error, per-pixel outputs)"""
    from stcal.ramp_fitting import ols_fit, ramp_fit
    mod = Model(m, px, shape, order)

    def go():
        return ramp_fit.ramp_fit(mod, save_opt, mod.rn, mod.gain, algorithm, "optimal", cores, dqdict(m["F"]),
                                 suppress_one_group=m["suppress"])
    if real_pool:
        res, err = call(go)
    else:
        with fake_pool(ncpu, [ols_fit]):
            res, err = call(go)
    if err:
        return False, err, None, mod
    img, integ, opt = res
    if img is None or integ is None:
        return True, "", None, mod
    return False, "", (img, integ, opt if save_opt else None), mod


OPT = ("oslope", "ovr", "ocr", "ovp", "owt", "oy", "osig2", "osigy2")


def outs(m, px, shape, raw):
    img, integ, opt = raw
    nr, nc = shape
    S = 1000
    a = {"slope": rnd(img["slope"], S), "dq": np.asarray(img["dq"]).astype(np.int64).tolist(),
         "vp": rnd(img["var_poisson"], S), "vr": rnd(img["var_rnoise"], S),
         "err2": rnd(np.asarray(img["err"], dtype=float) ** 2, S)}
    b = {"islope": rnd(integ["slope"], S), "idq": np.asarray(integ["dq"]).astype(np.int64).tolist(),
         "ivp": rnd(integ["var_poisson"], S), "ivr": rnd(integ["var_rnoise"], S),
         "ierr2": rnd(np.asarray(integ["err"], dtype=float) ** 2, S)}
    o = {}
    if opt is not None:
        o = {"oslope": rnd(opt["slope"], S), "ovr": rnd(opt["var_rnoise"], S), "ocr": enc(opt["crmag"]),
             "oped": rnd(opt["pedestal"], S), "ovp": rnd(opt["var_poisson"], S), "owt": rnd(opt["weights"], S),
             "oy": rnd(opt["yint"], S), "osig2": rnd(np.asarray(opt["sigslope"], dtype=float) ** 2, S),
             "osigy2": rnd(np.asarray(opt["sigyint"], dtype=float) ** 2, S)}
    res = []
    ni = m["ni"]
    for j in range(len(px)):
        r, c = divmod(j, nc)
        d = {k: v[r][c] for k, v in a.items()}
        d.update({k: [v[i][r][c] for i in range(ni)] for k, v in b.items()})
        if opt is not None:
            for k in OPT:
                d[k] = [[o[k][i][s][r][c] for s in range(len(o[k][i]))] for i in range(ni)]
            d["oped"] = [o["oped"][i][r][c] for i in range(ni)]
        else:
            d.update({k: [] for k in OPT + ("oped",)})
        res.append(d)
    return res


def event(m, px, shape, **k):
    none, err, raw, _ = fit(m, px, shape, **k)
    return {"m": m, "px": px, "none": none, "err": err, "out": outs(m, px, shape, raw) if raw else [],
            "run": {kk: str(v) for kk, v in k.items()}, "shape": list(shape)}


# --- generation ---------------------------------------------------------------

def meta(rng, ng, ni, F=None, miri=False, suppress=False):
    nf = int(rng.choice([1, 2, 4, 8]))
    return {"ng": ng, "ni": ni, "tg": int(rng.choice([1, 2, 3, 4])), "tf": int(rng.choice([1, 2])), "nf": nf,
            "gap": int(rng.integers(0, 3)), "drop": int(rng.integers(-1, 3)), "miri": miri, "suppress": suppress,
            "F": F or FLAGSETS[int(rng.integers(2))]}


def ramp(rng, q, F, level=None):
    """Integer data for one integration: a jagged ramp, wild values in flagged groups."""
    n = len(q)
    step = int(level if level is not None else rng.choice([3, 12, 40, 120, 300]))
    d = np.cumsum(rng.integers(max(0, step // 2), step + 2, size=n)) + int(rng.integers(0, 30))
    if rng.random() < 0.15:
        d = d[::-1].copy()
    if rng.random() < 0.3:
        d = d + rng.integers(-3, 4, size=n)
    for k in range(n):
        if q[k] & F["jump"]:
            d[k:] += int(rng.integers(20, 400))
        if q[k] & (F["dnu"] | F["sat"]):
            d[k] = int(rng.integers(1500, 1900)) if rng.random() < 0.8 else 0
    return np.clip(d, -100, 1900).astype(int).tolist()


def pixel(rng, m, qs, zf=False, gain=None, pdq=None, level=None):
    F = m["F"]
    g = int(rng.choice([1, 1, 2, 2, 5, 16])) if gain is None else gain
    ints = [{"d": ramp(rng, q, F, level), "q": [int(x) for x in q]} for q in qs]
    return {"ints": ints, "pdq": int(rng.choice([0, 0, 0, 1 << 14]) if pdq is None else pdq), "gain": g,
            "rn": int(rng.choice([2, 5, 11, 30])), "dark": int(rng.choice([0, 0, 1, 3])),
            "zf": [int(x) for x in rng.choice([0, 25, 60, 90], size=len(qs))] if zf else []}


def rand_q(rng, ng, F, extra=True):
    k = int(rng.integers(8))
    J, S, D, P, C = F["jump"], F["sat"], F["dnu"], F["pers"], F["chg"]
    q = np.zeros(ng, dtype=int)
    if k == 0:
        pass
    elif k in (1, 2):
        q = rng.choice([0, 0, 0, 0, J], size=ng)
    elif k == 3:
        s = int(rng.integers(0, ng + 1))
        q = rng.choice([0, 0, 0, J], size=ng)
        q[s:] |= S
        if rng.random() < 0.3:
            q[s:] |= D
    elif k == 4:
        q = rng.choice([0, 0, D, J, J | P, P], size=ng)
    elif k == 5 and extra:
        q = rng.choice([0, 0, 0, C | D, J], size=ng)
    else:
        q = rng.choice([0, 0, 0, J, D, S, P, J | D, S | D, J | P], size=ng)
    return [int(x) for x in q]


def conv(q, F):
    """Flags of the model (dnu 1, sat 2, jump 4, pers 32, chg 128, other) in the values of a flag set."""
    names = {1: "dnu", 2: "sat", 4: "jump", 32: "pers", 128: "chg"}
    out = 0
    rest = q
    for b, n in names.items():
        if q & b:
            out |= F[n]
            rest &= ~b
    if rest:
        used = 0
        for n in names.values():
            used |= F[n]
        free = [1 << i for i in range(8) if not used & (1 << i)]
        out |= free[0]
    return out


def bits(raw):
    """The products of a fit, bit for bit: name -> shape and images as 32-bit integers."""
    out = {}
    names = ("image", "integ", "opt")
    for nm, d in zip(names, raw):
        if d is None:
            continue
        for k, v in d.items():
            if v is None:
                continue
            a = np.asarray(v)
            a = a.astype(a.dtype.newbyteorder("="))
            if a.dtype == np.float64:
                a = a.astype("f4")
            if a.dtype == np.float32:
                a = np.where(np.isnan(a), np.float32(np.nan), a)     # one NaN only
                a = np.where(a == 0, np.float32(0), a)
            shp = list(a.shape)
            w = np.ascontiguousarray(a).view("i4") if a.dtype.itemsize == 4 else a.astype("i4")
            w = w.reshape((-1, shp[-2] * shp[-1])) if len(shp) >= 2 else w.reshape((1, -1))
            out[f"{nm}.{k}"] = {"shape": shp[:-2], "bits": w.tolist()}
    return out
