"""C10: snowballs and showers only add flags around what triggered them."""
import numpy as np

from fakepool import fake_pool
from harness import jumps
from vlib import call, main

SHAPE = {"none": [], "one": [(0, 0)], "two": [(0, 0), (0, 1), (1, 0), (1, 1)],
         "plus": [(0, 0), (0, 1), (1, 0), (0, -1), (-1, 0)],
         "block": [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)],
         "hollow": [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)],
         "bar": [(a, b) for a in (-1, 0) for b in range(-2, 3)], "pole": [(a, b) for a in range(-2, 3) for b in (0, 1)],
         "slope": [(-2, -1), (-2, -2), (-1, -1), (-1, 0), (0, 0), (0, 1), (1, 1), (1, 2), (-1, -2), (0, -1), (1, 0)],
         "large": [(a, b) for a in range(-2, 3) for b in range(-2, 3) if abs(a) + abs(b) < 4],
         "tall": [(a, b) for a in range(-4, 5) for b in (-1, 0, 1)],
         "wide": [(a, b) for a in (-1, 0, 1) for b in range(-4, 5)],
         "slab": [(a, b) for a in range(-2, 3) for b in range(-3, 4)],
         "brick": [(a, b) for a in range(-1, 2) for b in range(-2, 3)],
         "ring": [(a, b) for a in range(-2, 3) for b in range(-2, 3) if max(abs(a), abs(b)) == 2]}


def base(F, nr, nc, **k):
    p = {"F": F, "nr": nr, "nc": nc, "minJump": 5, "minSat": 1, "expand": 20, "minSatR": 9, "satExpand": 2,
         "maxWidth": 200, "persist": True, "persistN": 3, "satRequired": True, "edge": 2, "nf": 1, "minSig": 1000,
         "ringIn": 10, "ringWidth": 10, "snr": 130, "minShower": 6, "showerExpand": 12, "masked": 2, "maxAmp": 60}
    p.update(k)
    return p


def run(e, cores="none"):
    from stcal.jump import jump
    from stcal.jump.jump_class import JumpData
    p, F = e["p"], e["p"]["F"]
    nr, nc = p["nr"], p["nc"]
    gdq = np.array(e["q"], dtype="u1").reshape(len(e["q"]), len(e["q"][0]), nr, nc)
    data = (np.array(e["d"], dtype="f4").reshape(gdq.shape) if e["d"] else np.zeros(gdq.shape, "f4"))
    pdq = np.array(e["pdq"], dtype="u4").reshape(nr, nc)
    rn = np.array(e["rn"], dtype="f4").reshape(nr, nc)
    jd = JumpData(gain2d=np.ones((nr, nc), "f4"), rnoise2d=rn, dqflags={
        "GOOD": 0, "SATURATED": F["sat"], "JUMP_DET": F["jump"], "NO_GAIN_VALUE": F["ngv"], "DO_NOT_USE": F["dnu"],
        "REFERENCE_PIXEL": F["ref"]})
    jd.init_arrays_from_arrays(data, gdq, pdq)
    jd.nframes = p["nf"]
    jd.dt_group, jd.n_reads_groupdiff = np.ones(1), np.ones(1) * 2 * p["nf"]
    jd.set_detection_settings(1e7, 1e7, 1e7, 1e6, 1e5, False)
    jd.set_after_jump(0, 0, 0, 0)
    jd.min_diffs_single_pass = 1000
    jd.minimum_sigclip_groups = p["minSig"]
    jd.only_use_ints = True
    jd.expand_large_events = e["snowballs"]
    jd.min_jump_area, jd.min_sat_area, jd.expand_factor = p["minJump"], p["minSat"], p["expand"] / 10
    jd.sat_required_snowball, jd.min_sat_radius_extend = p["satRequired"], p["minSatR"] / 10
    jd.sat_expand, jd.edge_size, jd.max_extended_width = p["satExpand"], p["edge"], p["maxWidth"]
    jd.mask_persist_grps_next_int, jd.persist_grps_flagged = p["persist"], p["persistN"]
    jd.find_showers = e["showers"]
    jd.extend_snr_threshold, jd.extend_min_area = p["snr"] / 100, p["minShower"]
    jd.extend_inner_radius, jd.extend_outer_radius = p["ringIn"] / 10, p["ringWidth"] / 10
    jd.extend_ellipse_expand_ratio, jd.grps_masked_after_shower = p["showerExpand"] / 10, p["masked"]
    jd.max_shower_amplitude = p["maxAmp"] / 10
    jd.max_cores = cores
    with fake_pool(16, [jump]):
        res, err = call(jump.detect_jumps_data, jd)
    out = dict(e)
    out.update({"err": err or "", "out": [], "n": 0, "pdqout": []})
    if err is None:
        g, pq, _, ext = res
        ni, ng = gdq.shape[:2]
        out["out"] = np.asarray(g).astype(int).reshape(ni, ng, nr * nc).tolist()
        out["pdqout"] = np.asarray(pq).astype(np.int64).reshape(-1).tolist()
        out["n"] = int(ext)
    return out


def put(plane, shape, at, flag, clear=0):
    nr, nc = plane.shape
    for a, b in SHAPE[shape]:
        r, c = at[0] + a, at[1] + b
        if 0 <= r < nr and 0 <= c < nc:
            plane[r, c] = (plane[r, c] & ~clear) | flag


def behaviour(b):
    """A behaviour of EventsMC, followed by a quiet integration."""
    F = jumps.FLAGSETS[0]
    nr, nc, ng = 8, b["set"]["nc"], 4
    q = np.zeros((2, ng, nr, nc), dtype=int)
    for k in range(1, ng + 1):
        if k == b["jg"]:
            put(q[0, k - 1], b["jk"], (b["jp"][0] - 1, b["jp"][1] - 1), F["jump"])
        if k >= b["sg"]:
            put(q[0, k - 1], b["sk"], (b["sp"][0] - 1, b["sp"][1] - 1), F["sat"], F["jump"])
    q[:, ng - 1] |= F["dnu"]
    q[:, :, 3, 4] |= 16
    p = base(F, nr, nc, satRequired=b["set"]["satRequired"])
    return {"p": p, "q": q.reshape(2, ng, -1).tolist(), "d": [], "rn": [4] * (nr * nc), "pdq": [0] * (nr * nc),
            "snowballs": True, "showers": False, "must": False}


def snow_case(rng):
    F = jumps.FLAGSETS[int(rng.integers(2))]
    nr, nc = [(12, 12), (10, 14), (14, 10), (8, 16), (7, 7)][int(rng.integers(5))]
    ng, ni = int(rng.choice([2, 3, 4, 6])), int(rng.choice([1, 2, 3]))
    p = base(F, nr, nc, minJump=int(rng.integers(3, 10)), minSat=int(rng.integers(1, 5)),
             expand=int(rng.choice([11, 15, 20, 22])), minSatR=int(rng.choice([9, 12, 12, 12, 18])),
             satExpand=int(rng.integers(0, 4)), maxWidth=int(rng.choice([200, 200, 7, 5])),
             persist=bool(rng.integers(4)), persistN=int(rng.choice([0, 1, 2, 3, ng, 25])),
             satRequired=bool(rng.integers(4)), edge=int(rng.choice([0, 1, 2, 3, 4])))
    q = np.zeros((ni, ng, nr, nc), dtype=int)
    names = ["two", "plus", "block", "hollow", "bar", "pole", "slope", "large", "tall", "wide", "ring", "one"]
    for i in range(ni):
        for _ in range(int(rng.integers(1, 4))):
            at = (int(rng.integers(nr)), int(rng.integers(nc)))
            g = int(rng.integers(0, ng))
            put(q[i, g], names[int(rng.integers(len(names)))], at, F["jump"])
            if rng.random() < 0.7:
                s = ["one", "two", "plus", "block", "large"][int(rng.integers(5))]
                sg = g + int(rng.choice([-1, 0, 0, 0, 1]))
                sp = (at[0] + int(rng.integers(-2, 3)), at[1] + int(rng.integers(-2, 3)))
                for k in range(max(0, sg), ng):
                    put(q[i, k], s, sp, F["sat"], F["jump"])
        if rng.random() < 0.4:
            q[i, int(rng.choice([0, ng - 1]))] |= F["dnu"]
        for _ in range(int(rng.integers(0, 6))):
            q[i, int(rng.integers(ng)), int(rng.integers(nr)), int(rng.integers(nc))] |= \
                int(rng.choice([F["dnu"], F["jump"], 16, F["sat"], 128]))
    return {"p": p, "q": q.reshape(ni, ng, -1).tolist(), "d": [], "rn": [4] * (nr * nc),
            "pdq": rng.choice([0, 0, 1, 4], nr * nc).tolist(), "snowballs": True, "showers": False, "must": False}


NOISE = [(0, 1), (0, 2), (0, 4), (7, 3), (12, 2), (3, 1), (5, 2)]      # median step, read noise: a whole root


def shower_case(rng, snow=False, clip=False):
    F = jumps.FLAGSETS[int(rng.integers(2))]
    nr, nc = [(10, 10), (8, 12), (12, 9)][int(rng.integers(3))]
    ni, ng = ([(1, 12), (2, 7), (1, 11), (3, 5), (1, 13)][int(rng.integers(5))] if not clip else
              [(5, 4), (6, 3), (5, 5)][int(rng.integers(3))])
    p = base(F, nr, nc, expand=int(rng.choice([11, 15, 20])), satExpand=3, snr=int(rng.choice([130, 73, 170, 230])), minShower=int(rng.choice([4, 6, 9, 15])),
             ringIn=int(rng.choice([10, 10, 0, 20])), ringWidth=int(rng.choice([10, 15, 26])),
             showerExpand=int(rng.choice([10, 12, 15, 20])), masked=int(rng.choice([0, 1, 2, 5])),
             maxAmp=int(rng.choice([5, 33, 157, 1000])), minSig=int(rng.choice([ni, 1])) if clip else 1000,
             persist=bool(rng.integers(2)), minSatR=5)
    m, s = NOISE[int(rng.integers(len(NOISE)))]
    rn = np.full((nr, nc), s)
    if rng.random() < 0.3:
        rn[rng.random((nr, nc)) < 0.2] = 2 if m == 0 else s
    d = np.zeros((ni, ng, nr, nc), dtype=int)
    step = np.full((ni, ng - 1, nr, nc), m)
    if clip:
        step += rng.integers(-2, 3, step.shape)
    else:
        step[rng.random(step.shape) < 0.1] += int(rng.integers(1, 4))
    sig = 2
    for _ in range(int(rng.integers(1, 4))):
        i, k = int(rng.integers(ni)), int(rng.integers(ng - 1))
        amp = int(rng.choice([3, 6, 12, 40])) * sig
        sh = ["block", "large", "large", "tall", "wide", "bar", "plus", "slope"][int(rng.integers(8))]
        msk = np.zeros((nr, nc), dtype=int)
        put(msk, sh, (int(rng.integers(1, nr - 1)), int(rng.integers(1, nc - 1))), 1)
        step[i, k] += amp * msk
    d[:, 1:] = np.cumsum(step, axis=1)
    q = np.zeros((ni, ng, nr, nc), dtype=int)
    if snow:
        s = rng.integers(3, 6)
        put(q[0, ng // 2], "slab", (4, 4), F["jump"])
        for k in range(ng // 2, ng):
            put(q[0, k], "brick", (4, int(s)), F["sat"], F["jump"])
    for _ in range(int(rng.integers(0, 15))):
        q[int(rng.integers(ni)), int(rng.integers(ng)), int(rng.integers(nr)), int(rng.integers(nc))] |= \
            int(rng.choice([F["dnu"], F["jump"], 16, F["sat"], F["sat"] | 16, F["dnu"] | 16]))
    for _ in range(int(rng.integers(0, 3))):
        i, k = int(rng.integers(ni)), int(rng.integers(1, ng))
        r, c = int(rng.integers(nr)), int(rng.integers(nc))
        q[i, k:, r, c] |= F["sat"]
    if rng.random() < 0.4:
        q[int(rng.integers(ni)), int(rng.choice([0, ng - 1]))] |= F["dnu"]
    if rng.random() < 0.2:
        q[0, 0] |= F["dnu"]
        q[0, 1] |= F["dnu"]
    d[(q & F["sat"]) != 0] += 57
    pdq = np.zeros((nr, nc), dtype=np.int64)
    if rng.random() < 0.5:
        pdq[rng.random((nr, nc)) < 0.08] = int(rng.choice([F["dnu"], F["ref"], F["ref"] | F["dnu"], 4, F["sat"], 16]))
    if rng.random() < 0.3:
        pdq[:, 0] |= F["ref"]
    return {"p": p, "q": q.reshape(ni, ng, -1).tolist(), "d": d.reshape(ni, ng, -1).tolist(), "rn": rn.reshape(-1).tolist(),
            "pdq": pdq.reshape(-1).tolist(), "snowballs": snow, "showers": True, "must": False}


def run_check(c):
    r = c.model("EventsMC", c.pick("EventsMC.cfg", "EventsMCW.cfg"), timeout=3000)
    rng = c.nprng("events")
    evs = []
    for k in rng.permutation(len(r.json))[: c.pick(500, 6000)]:
        evs.append(run(behaviour(r.json[int(k)])))
    for k in range(c.pick(260, 3000)):
        evs.append(run(snow_case(rng), cores=["none", "3"][k % 7 == 0]))
    for k in range(c.pick(260, 2500)):
        evs.append(run(shower_case(rng, snow=k % 5 == 0, clip=k % 4 == 1), cores=["none", "3"][k % 7 == 0]))
    off = []
    for _ in range(30):
        e = snow_case(rng)
        e["snowballs"] = False
        off.append(run(e))
    c.validate("EventsTrace", evs + off, label="large events")


if __name__ == "__main__":
    main("C10", run_check)
