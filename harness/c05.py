"""C05: uneven-read ramps are fitted and split at jumps as the algorithm defines."""
import numpy as np

from vlib import NAN, call, each, main, rnd, spread


def outputs(o, shape, rt):
    """Slope, intercept, variances (in reads) and flags per pixel."""
    n = int(np.prod(shape[1:], dtype=int))
    par = np.asarray(getattr(o.parameters, "value", o.parameters), dtype=float)
    var, dq = np.asarray(o.variances, dtype=float), np.asarray(o.dq)
    good = par.shape == (*shape[1:], 2) and var.shape == (*shape[1:], 3) and dq.shape == tuple(shape) and o.fits is None
    if not good:
        par, var, dq = np.zeros((n, 2)), np.zeros((n, 3)), np.zeros((shape[0], n))
    return par.reshape(n, 2), var.reshape(n, 3), dq.reshape(shape[0], n), good


def fit(p, r, q, rn, shape, how=0):
    """r, q: resultants by pixels; rn per pixel. One event per pixel."""
    from stcal.ramp_fitting.ols_cas22_fit import fit_ramps_casertano
    rt = p["rt"] / 1000
    data = np.array(r, dtype=float).reshape(shape).astype(["f4", "f8"][how & 1])
    dq = np.array(q).reshape(shape).astype(["i4", "u4", "i8"][how % 3])
    noise = float(rn[0]) if len(set(rn)) == 1 and how & 2 else np.array(rn, dtype="f4").reshape(shape[1:])
    kw = {}
    if not p["std"]:
        kw = {"threshold_intercept": p["ic"] / 1000, "threshold_constant": p["cn"] / 1000}
    keep = [data.copy(), dq.copy(), np.copy(noise)]
    arg = data
    if how & 4:
        from astropy import units as u
        arg = (data / 1000) * (u.electron * 1000) if how & 1 else data * u.electron
    o, err = call(fit_ramps_casertano, arg, dq, noise, rt, [list(x) for x in p["reads"]], p["jump"], **kw)
    if err:
        return [{"err": err, "p": p}]
    par, var, out, good = outputs(o, shape, rt)
    if how & 4 and good:
        good = getattr(o.parameters, "unit", None) == arg.unit
    same = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, [data, dq, noise]))
    ev = []
    for j in range(par.shape[0]):
        f = np.array(q)[:, j]
        ev.append({"err": "", "p": p, "rn": int(rn[j]), "r": [0 if f[i] else int(x) for i, x in enumerate(np.array(r)[:, j])], "q": f.tolist(),
                   "dq": [int(x) for x in out[:, j]], "slope": rnd([par[j, 1] * rt], 1000)[0], "zero": rnd([par[j, 0]], 1000)[0],
                   "read": rnd([var[j, 0] * rt * rt], 1000)[0], "pois": rnd([var[j, 1] * rt * rt], 1000)[0],
                   "total": rnd([var[j, 2] * rt * rt], 1000)[0], "layout": bool(good), "same": bool(same)})
    return ev


def behaviour(b):
    p = dict(b["p"], std=True)
    r = np.array(b["r"], dtype=float)
    q = np.array(b["q"])
    r[q != 0] = [np.nan, 7777, -1e6, np.inf, 0][int(q.sum()) % 5]
    n = len(r)
    return fit(p, r[:, None], q[:, None], [5], (n, 1))


def pattern(rng, n):
    while True:
        t, reads = int(rng.integers(1, 3)), []
        for _ in range(n):
            m = int(rng.choice([1, 1, 2, 3, 4, 6] if n < 9 else [1, 1, 1, 2, 3]))
            reads.append(list(range(t, t + m)))
            t += m + int(rng.choice([0, 0, 0, 1, 2]))
        if t <= 21:
            return reads


# differences of the ends of a run exactly at a limit of the weights: (difference, read noise)
EDGES = [(d, s) for s in range(1, 60) for k in (5, 10, 20, 50, 100) for d in range(1, 16000) if d * d == k * k * (s * s + d)] or [(0, 1)]


def ramps(rng, reads, npix):
    n = len(reads)
    t = np.array([np.mean(x) for x in reads])
    r, rns = np.zeros((n, npix)), []
    for j in range(npix):
        rn = int(rng.choice([1, 2, 3, 5, 5, 8, 12, 20]))
        rate = float(rng.choice([0, .3, 1, 3, 8, 20, 60, 150, 400, -2]))
        x = rate * (t - t[0]) + float(rng.integers(-50, 100))
        x = x + rng.normal(0, 1, n) * rn * float(rng.choice([0, .3, 1, 1.5]))
        for _ in range(int(rng.choice([0, 0, 1, 1, 2]))):
            at = int(rng.integers(0, n))
            big = float(rng.choice([4, 8, 15, 40, 200, -15])) * rn + float(rng.choice([0, 1, 3])) * np.sqrt(max(rate, 0) * 4)
            x[at:] += big
            if rng.integers(2):
                x[at] -= big * rng.random()          # the jump comes during the resultant
        if rng.integers(12) == 0:
            d, rn = EDGES[int(rng.integers(len(EDGES)))]
            x[-1] = x[0] + d
        r[:, j] = np.clip(np.round(x), -3000, 13000)
        r[-1, j] = min(r[-1, j], r[0, j] + 13000)
        rns.append(rn)
    return r, rns


def random_image(rng):
    n = int(rng.choice([2, 3, 4, 5, 6, 7, 7, 9, 11]))
    reads = pattern(rng, n)
    dim = int(rng.integers(4))
    shape = [(n,), (n, int(rng.integers(1, 4))), (n, 1, 2), (n, 2, 3)][dim]
    npix = int(np.prod(shape[1:], dtype=int))
    r, rn = ramps(rng, reads, npix)
    q = np.where(rng.random((n, npix)) < rng.choice([0, .1, .3, .6]), rng.choice([1, 2, 4, 1024, 1 << 30], (n, npix)), 0)
    r = np.where((q != 0) & (rng.random((n, npix)) < .5), rng.choice([np.nan, np.inf, 1e20, -5e4]), r)
    std = bool(rng.integers(2))
    p = {"reads": reads, "rt": int(rng.choice([1000, 3040, 500])), "ic": 5500, "cn": 333, "jump": bool(rng.integers(4)), "std": std}
    if not std:
        p["ic"], p["cn"] = int(rng.choice([5500, 4000, 3000, 7000, 12000])), int(rng.choice([0, 333, 1000, 2000]))
    return fit(p, r, q, rn, shape, int(rng.integers(12)))


def one_pixel(rng):
    """A pixel's result does not depend on what else is in the image."""
    n = int(rng.integers(3, 8))
    reads = pattern(rng, n)
    r, rn = ramps(rng, reads, 4)
    q = np.where(rng.random((n, 4)) < .2, 1, 0)
    p = {"reads": reads, "rt": 3040, "ic": 5500, "cn": 333, "jump": True, "std": True}
    ev = fit(p, r, q, rn, (n, 4))
    alone = [fit(p, r[:, j:j + 1], q[:, j:j + 1], rn[j:j + 1], (n, 1))[0] for j in range(4)]
    return [dict(e, same=e["same"] and e == a) for e, a in zip(ev, alone)]


def run(c):
    r = c.model("Cas22MC", want_json=True)
    ev = each(behaviour, r.json)
    c.validate("Cas22Trace", ev, cfg="Trace.cfg", label="every small ramp")
    c.validate("Cas22Trace", spread(c, random_image, c.pick(2500, 40000), "images"), cfg="Trace.cfg", label="random images")
    c.validate("Cas22Trace", spread(c, one_pixel, c.pick(100, 2000), "alone"), cfg="Trace.cfg", label="pixels alone")


if __name__ == "__main__":
    main("C05", run)
