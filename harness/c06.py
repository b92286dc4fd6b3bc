"""C06: likelihood ramp fitting uses only differences between usable groups."""
import math

import numpy as np

from harness import rampfit
from vlib import NAN, call, each, main, rnd, spread


def fit(p, px, shape, q_extra=None):
    """px: per pixel {"ints": [{"d", "q", "zf"}], rn2, g, dk, pdq}. -> events"""
    from stcal.ramp_fitting import ramp_fit
    F, ft = p["F"], p["ft"] / 1000
    ni = len(px[0]["ints"])
    m = {"ng": p["ng"], "ni": ni, "tg": 1, "tf": 1, "nf": p["nf"], "gap": p["gap"], "drop": -1, "miri": False, "F": F}
    mod = rampfit.Model(m, [{"ints": [{"d": [0] * p["ng"], "q": i["q"]} for i in x["ints"]], "pdq": x["pdq"], "dark": 0, "gain": x["g"],
                             "rn": 1, "zf": [0]} for x in px], shape, zero=p["zero"])
    ex = mod.meta.exposure
    ex.frame_time, ex.group_time = ft, ft * (p["nf"] + p["gap"])
    if p["given"]:
        ex.read_times = [[ft * r for r in g] for g in p["reads"]]
    for j, x in enumerate(px):
        r, c = divmod(j, shape[1])
        for i in range(ni):
            mod.data[i, :, r, c] = x["ints"][i]["d"]
            if p["zero"]:
                mod.zeroframe[i, r, c] = x["ints"][i]["zf"]
        mod.rn[r, c] = math.sqrt(2 * x["rn2"])
        mod.average_dark_current[r, c] = x["dk"] / 1000 / ft
    rd = ramp_fit.create_ramp_fit_class(mod, "LIKELY", rampfit.dqdict(F))
    if p["thr"]:
        rd.rejection_threshold = p["thr"] / 100
    res, err = call(ramp_fit.ramp_fit_data, rd, False, mod.rn, mod.gain, "LIKELY", "optimal", "none")
    if err or res[0] is None:
        return [{"kind": "ramp", "err": err or "nothing"}]
    img, ints, _ = res
    split = p["zero"] and len(p["reads"][0]) > 1
    t2 = 2380
    if p["thr"]:
        q = math.erfc(p["thr"] / 100 / math.sqrt(2))
        t2 = round(-200 * math.log(q)) if q > 0 else round(p["thr"] ** 2 / 100) + 1000
    P = {"F": F, "times": ([p["reads"][0][:1], p["reads"][0][1:]] if split else p["reads"][:1]) + p["reads"][1:],
         "t1": round(p["thr"] ** 2 / 100) if p["thr"] else 2025, "t2": t2}
    n = lambda a, s: rnd(np.asarray(a, dtype=float).ravel(), s)      # noqa: E731
    a = {"slope": n(np.asarray(ints["slope"], dtype=float) * ft, 1000), "vp": n(np.asarray(ints["var_poisson"], dtype=float) * ft * ft, 1000),
         "vr": n(np.asarray(ints["var_rnoise"], dtype=float) * ft * ft, 1000), "er2": n((np.asarray(ints["err"], dtype=float) * ft) ** 2, 1000),
         "chi": n(ints["chisq"], 100), "idq": [int(v) for v in np.asarray(ints["dq"]).ravel()]}
    b = {"slope": n(np.asarray(img["slope"], dtype=float) * ft, 1000), "vp": n(np.asarray(img["var_poisson"], dtype=float) * ft * ft, 1000),
         "vr": n(np.asarray(img["var_rnoise"], dtype=float) * ft * ft, 1000), "er2": n((np.asarray(img["err"], dtype=float) * ft) ** 2, 1000)}
    npix, ev = len(px), []
    for j, x in enumerate(px):
        r, c = divmod(j, shape[1])
        for i in range(ni):
            y = x["ints"][i]
            d = [0 if k else int(v) for v, k in zip(y["d"], y["q"])]
            out = [int(v) for v in rd.groupdq[i, :, r, c]]
            q, q2, v = list(y["q"]), out, d
            if split:
                v = [y["zf"], (d[0] * p["nf"] - y["zf"]) // (p["nf"] - 1)] + d[1:]
                q, q2 = [q[0]] + q, [q[0]] + out
            ev.append({"kind": "ramp", "err": "", "p": P, "x": {"v": v, "q": q, "rn2": x["rn2"], "g": x["g"], "dk": x["dk"], "pdq": x["pdq"]},
                       "q2": q2, **{k: s[i * npix + j] for k, s in a.items()}})
        k = [i * npix + j for i in range(ni)]
        s = [a["slope"][i] for i in k]
        low = [v for v in s if v != NAN]
        ev.append({"kind": "image", "err": "", "F": F, "s": s, "vps": [a["vp"][i] for i in k], "vrs": [a["vr"][i] for i in k],
                   "idq": [a["idq"][i] for i in k], "dq": int(np.asarray(img["dq"])[r, c]), **{q: t[j] for q, t in b.items()},
                   # slopes and variances of few digits, or slopes of both signs, tell too little of the weights
                   "rough": len(low) > 0 and (min(low) < 2000 or min(a["vr"][i] for i in k if a["slope"][i] != NAN) < 100 or max(low) > 1500000)})
    return ev


def pattern(rng, ng, given):
    if not given:
        nf, gap = int(rng.choice([1, 2, 2, 3, 4])), int(rng.integers(0, 3))
        if ng * (nf + gap) > 21:
            gap, nf = (0, 2) if ng <= 10 else (0, 1)
        return [[k * (nf + gap) + 1 + i for i in range(nf)] for k in range(ng)], nf, gap
    while True:
        t, reads = 1, []
        for _ in range(ng):
            m = int(rng.choice([1, 1, 2, 3, 4] if ng < 9 else [1, 1, 1, 2]))
            reads.append(list(range(t, t + m)))
            t += m + int(rng.choice([0, 0, 1]))
        if t <= 22:
            return reads, int(rng.choice([2, 3, 4])), 0


def random_ramp(rng, reads, q, rn2, g, wild=True):
    t = np.array([np.mean(r) for r in reads])
    rate = float(rng.choice([0, 2, 10, 40, 100, 400, -3]))
    x = rate * t + rng.normal(0, 1, len(t)) * math.sqrt(rn2) * float(rng.choice([0, .5, 1, 1.3]))
    sd = math.sqrt(2 * rn2 + max(rate, 0) * 2 / g)
    for _ in range(int(rng.choice([0, 0, 0, 1, 1, 2, 3]))):
        k = int(rng.integers(0, len(t)))
        x[k:] += sd * float(rng.choice([3, 4, 5, 6, 8, 20, 60, -8]))
        if rng.integers(2):
            x[k] -= sd * 5 * rng.random()
    d = np.round(np.clip(x, -2000, 20000)).astype(float)
    for k in range(len(d)):
        if q[k] and wild:
            d[k] = rng.choice([d[k], 1e6, -3e4, 0, np.nan, np.inf])
    return d.tolist()


def random_case(rng):
    ng = int(rng.choice([4, 5, 6, 7] * 4 + [11, 13]))
    given = bool(rng.integers(2))
    reads, nf, gap = pattern(rng, ng, given)
    F = rampfit.FLAGSETS[int(rng.integers(2))]
    p = {"ng": ng, "ft": int(rng.choice([1000, 2500, 400])), "reads": reads, "nf": nf, "gap": gap, "F": F, "given": given,
         "zero": bool(rng.integers(4) == 0) and len(reads[0]) in (1, nf) and nf > 1 or bool(rng.integers(8) == 0 and len(reads[0]) == 1),
         "thr": int(rng.choice([0, 0, 300, 400, 450, 600]))}
    ni = int(rng.choice([1, 1, 2, 3]))
    shape = [(1, 1), (1, 3), (2, 2)][int(rng.integers(3))]
    px = []
    for _ in range(shape[0] * shape[1]):
        rn2, g = int(rng.choice([5, 20, 60, 150])), int(rng.choice([1, 2, 5]))
        ints = []
        for _ in range(ni):
            q = rampfit.rand_q(rng, ng, F) if rng.integers(3) else [0] * ng
            d = random_ramp(rng, reads, q, rn2, g)
            zf = 0
            if p["zero"]:
                base = d[0] if np.isfinite(d[0]) and abs(d[0]) < 3e4 else 100
                zf = int(round(base - rng.integers(0, 30)))
                if not q[0]:
                    zf += int((d[0] * nf - zf) % max(1, nf - 1))
            ints.append({"d": d, "q": q, "zf": zf})
        px.append({"ints": ints, "rn2": rn2, "g": g, "dk": int(rng.choice([0, 0, 500, 20000])), "pdq": int(rng.choice([0, 0, 1 << 14]))})
    return fit(p, px, shape)


def small_ramps(batch):
    """Ramps of the model, those of one read-out in one image."""
    groups = {}
    for b in batch:
        groups.setdefault(b["k"], []).append(b)
    ev = []
    for k, bs in groups.items():
        p, x = bs[0]["p"], bs[0]["x"]
        P = {"ng": len(x["q"]), "ft": 1000, "reads": p["times"], "nf": 2, "gap": 0, "F": rampfit.FLAGSETS[0], "given": True, "zero": False,
             "thr": 0 if p["t1"] == 2025 else 300}
        ev += fit(P, [{"ints": [{"d": b["x"]["v"], "q": b["x"]["q"]}], "rn2": b["x"]["rn2"], "g": b["x"]["g"], "dk": 0, "pdq": 0} for b in bs], (1, len(bs)))
    return ev


def run(c):
    r = c.model("LikelyMC", want_json=True)
    if c.thorough:
        c.model("LikelyMC", cfg="LikelyMC7.cfg")
    pick = c.nprng("pick").permutation(len(r.json))[:c.pick(5000, 10**6)]
    ev = each(small_ramps, [[r.json[j] for j in pick[i:i + 400]] for i in range(0, len(pick), 400)])
    c.validate("LikelyTrace", ev, cfg="Trace.cfg", label="every small ramp")
    c.validate("LikelyTrace", spread(c, random_case, c.pick(1200, 30000), "random"), cfg="Trace.cfg", label="random exposures")


if __name__ == "__main__":
    main("C06", run)
