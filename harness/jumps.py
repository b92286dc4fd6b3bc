"""Shared driver of the jump detection checks."""
import numpy as np

from fakepool import fake_pool
from vlib import NAN, call

FLAGSETS = [{"dnu": 1, "sat": 2, "jump": 4, "ngv": 1 << 19, "ref": 1 << 30},
            {"dnu": 32, "sat": 8, "jump": 64, "ngv": 1 << 9, "ref": 1 << 12}]


class Stub:
    pass


def jump_data(e, order="="):
    from stcal.jump.jump_class import JumpData
    p, F = e["p"], e["p"]["F"]
    ni, ng, nr, nc = e["ni"], e["ng"], e["nr"], e["nc"]
    data = np.zeros((ni, ng, nr, nc), dtype="f4")
    gdq = np.zeros((ni, ng, nr, nc), dtype="u1")
    pdq = np.zeros((nr, nc), dtype="u4")
    gain = np.zeros((nr, nc), dtype="f4")
    rn = np.zeros((nr, nc), dtype="f4")
    for j, x in enumerate(e["px"]):
        r, c = divmod(j, nc)
        for i in range(ni):
            d = np.array(x["ints"][i]["d"], dtype=float)
            d[d == NAN] = np.nan
            data[i, :, r, c] = d
            gdq[i, :, r, c] = x["ints"][i]["q"]
        gain[r, c] = np.nan if x["gain"] == NAN else x["gain"]
        rn[r, c] = x["rn"]
        pdq[r, c] = x["pdq"]
    flags = {"GOOD": 0, "SATURATED": F["sat"], "JUMP_DET": F["jump"], "NO_GAIN_VALUE": F["ngv"], "DO_NOT_USE": F["dnu"], "REFERENCE_PIXEL": F["ref"]}
    how = len(e["px"]) + p["t"] + ng
    if how % 2:                # from a data model
        m = Stub()
        m.meta, m.data, m.groupdq, m.pixeldq = Stub(), data, gdq, pdq
        m.meta.exposure = Stub()
        if p["nf"] and (how % 4 == 1 or not p["reads"]):
            m.meta.exposure.nframes = p["nf"]
        if p["reads"] or how % 4 == 1:
            m.meta.exposure.read_pattern = [list(x) for x in p["reads"]] or None
        jd = JumpData(m, gain2d=gain, rnoise2d=rn, dqflags=flags)
    else:
        jd = JumpData(gain2d=gain, rnoise2d=rn, dqflags=flags)
        jd.init_arrays_from_arrays(data, gdq, pdq)
        jd.nframes = p["nf"]
        if p["reads"]:
            t = np.array([np.mean(x) for x in p["reads"]])
            n = np.array([len(x) for x in p["reads"]])
            jd.dt_group, jd.n_reads_groupdiff = np.diff(t), n[1:] + n[:-1]
        else:
            jd.dt_group, jd.n_reads_groupdiff = np.ones(1), np.ones(1) * 2 * p["nf"]
    mx = 1e6 if p["mx"] < 0 else p["mx"] / 2
    seen = (p["t"] / 2, p["t2"] / 2, p["t3"] / 2, mx, p["mn"] / 2, p["nb"])
    if how % 3 == 0:           # what equals the documented default is left alone
        for k, v, d in zip(("rejection_thresh", "three_grp_thresh", "four_grp_thresh", "max_jump_to_flag_neighbors", "min_jump_to_flag_neighbors", "flag_4_neighbors"),
                           seen, (4.0, 6.0, 5.0, 1000, 10, True)):
            if v != d:
                setattr(jd, k, v)
    else:
        jd.set_detection_settings(*seen)
    if p["n1"] or p["n2"] or how % 3:
        jd.set_after_jump(p["dn1"], p["n1"], p["dn2"], p["n2"])
    clip = (p["minGroups"], p["minSig"], p["onlyInts"])
    if how % 3 == 1:
        jd.set_sigma_clipping_info(*clip)
    elif how % 3 == 2 or clip != (3, 100, True):
        jd.minimum_groups, jd.minimum_sigclip_groups, jd.only_use_ints = clip
    if how % 3 or p["minPass"] != 10:
        jd.min_diffs_single_pass = p["minPass"]
    return jd


def run(e, cores="none", ncpu=16, slices=None, extra=None, real_pool=False):
    from stcal.jump import jump
    jd = jump_data(e)
    jd.max_cores = cores
    for k, v in (extra or {}).items():
        setattr(jd, k, v)
    if real_pool:
        res, err = call(jump.detect_jumps_data, jd)
    else:
        with fake_pool(ncpu, [jump]):
            res, err = call(jump.detect_jumps_data, jd)
    out = dict(e)
    out.update({"err": err or "", "slices": slices or 1, "q": [], "pdq": [], "n": 0, "cores": str(cores)})
    if err is None:
        g, pq, n, ext = res
        ni, ng, nr, nc = e["ni"], e["ng"], e["nr"], e["nc"]
        g = np.asarray(g).astype(int)
        out["q"] = [[g[i, :, r, c].tolist() for i in range(ni)] for r in range(nr) for c in range(nc)]
        out["pdq"] = np.asarray(pq).astype(np.int64).reshape(-1).tolist()
        out["n"] = int(n)
        out["ext"] = int(ext)
    return out


# --- generation -----------------------------------------------------------------

READS = [[[1], [2], [4], [5], [7], [9], [11], [12]],                       # intervals 1 2 1 2 2 2 1
         [[1], [4, 5, 6], [7], [9], [10, 11, 12], [15], [16], [20]],        # 4 2 2 2 4 1 4
         [[1, 3], [3, 5], [5, 7], [7, 9], [9, 11], [11, 13], [13, 15], [15, 17]]]   # uniform, interval 2


def settings(rng, ng, ni, meth=None, uneven=False, nb=False, after=False):
    meth = meth or ["onepass", "iterative", "iterative", "sigclip"][int(rng.integers(4))]
    p = {"F": FLAGSETS[int(rng.integers(2))], "t": int(rng.integers(5, 12)), "t3": int(rng.integers(6, 14)),
         "t2": int(rng.integers(7, 16)), "nf": int(rng.choice([1, 2, 4])), "S": 1, "dt": [1], "reads": [],
         "nb": bool(nb), "mx": -1, "mn": 0, "dn1": 0, "n1": 0, "dn2": 0, "n2": 0, "minGroups": 3, "minSig": 1000,
         "onlyInts": bool(rng.integers(2)), "minPass": 1000}
    if uneven:
        rd = READS[int(rng.integers(3))]
        k = int(rng.integers(0, 8 - ng + 1)) if ng <= 8 else 0
        p["reads"] = rd[k:k + ng]
        t = [sum(x) / len(x) for x in p["reads"]]
        p["dt"] = [int(b - a) for a, b in zip(t, t[1:])]
        p["nn"] = [len(a) + len(b) for a, b in zip(p["reads"], p["reads"][1:])]
        p["S"] = max([1] + p["dt"])
    else:
        p["nn"] = [2 * p["nf"]]
    if meth == "onepass":
        p["minPass"] = int(rng.integers(0, max(1, ng)))
    elif meth == "sigclip":
        p["onlyInts"] = bool(rng.integers(2)) and ni >= 3
        p["minSig"] = int(rng.integers(1, ni + 1)) if p["onlyInts"] else int(rng.integers(1, ni * ng + 1))
        p["t"] = int(rng.integers(3, 7))
    else:
        p["minPass"] = int(rng.choice([ng, 10, 100]))
    if rng.random() < 0.15:
        p["minGroups"] = int(rng.integers(2, 6))
    if rng.random() < 0.1:
        p["minPass"] = ng - 2
    if rng.random() < 0.15:
        p.update(t=8, t2=12, t3=10)
        if meth != "sigclip" and rng.integers(2):
            p.update(minSig=100, onlyInts=True, minGroups=3)
    if nb:
        p["mn"] = int(rng.integers(0, 40))
        p["mx"] = -1 if rng.random() < 0.4 else max(p["mn"], 20) + int(rng.integers(1, 60))
        if rng.random() < .15:
            p["mn"] = 20
    if after:
        p["dn1"], p["n1"] = int(rng.integers(0, 300)), int(rng.integers(0, 4))
        p["dn2"], p["n2"] = int(rng.integers(100, 900)), int(rng.integers(0, ng + 2))
    return p


def case(rng, nr, nc, ng, ni, p, pjump=0.25, pflag=0.2):
    F = p["F"]
    uneven = bool(p["reads"])
    small = uneven and len(set(zip(p["dt"], p["nn"]))) > 1
    sig = p["minSig"] < 1000
    g0 = int(rng.choice([1, 1, 2]))
    px = []
    dead = [[rng.random() < 0.06 for _ in range(ng)] for _ in range(ni)]
    base = int(rng.choice([1, 2, 3]) if small else rng.choice([0, 4, 10, 30, 60]))
    for _ in range(nr * nc):
        ints = []
        jag = int(rng.choice([0, 1, 3])) if not small else 1
        for i in range(ni):
            dt = p["dt"] if len(p["dt"]) > 1 else [p["dt"][0]] * (ng - 1)
            d = [int(rng.integers(0, 20)) if not small else int(rng.integers(0, 4))]
            for k in range(ng - 1):
                s = base * dt[k] + int(rng.integers(-jag, jag + 1))
                if rng.random() < pjump:
                    hi = 14 if small else 120 if sig else [40, 200, 700][int(rng.integers(3))]
                    s += int(rng.integers(-hi // 3, hi))
                d.append(d[-1] + s)
            q = [0] * ng
            u = rng.random()
            if u < 0.12:
                s = int(rng.integers(0, ng))
                for k in range(s, ng):
                    q[k] |= F["sat"]
                    d[k] = d[s]
            elif u < 0.3 and pflag:
                for k in range(ng):
                    if rng.random() < pflag:
                        q[k] |= int(rng.choice([F["dnu"], F["dnu"], F["sat"], F["jump"], 16, F["dnu"] | F["jump"]]))
                        if q[k] & (F["dnu"] | F["sat"]):
                            d[k] = d[k] + int(rng.integers(-5, 100))
            for k in range(ng):
                if dead[i][k]:
                    q[k] |= F["dnu"]
            if rng.random() < 0.02:
                d[int(rng.integers(ng))] = NAN
            ints.append({"d": d, "q": q})
        u = rng.random()
        gain = g0 if u > 0.04 else int(rng.choice([0, -1, NAN]))
        rn = int(rng.choice([0, 1, 2])) if small else int(rng.choice([0, 2, 4, 9, 20]))
        if p["nb"] and rn == 0:
            rn = 1
        px.append({"ints": ints, "gain": gain, "rn": rn, "pdq": int(rng.choice([0, 0, 4, F["dnu"]]))})
    return {"p": p, "ni": ni, "ng": ng, "nr": nr, "nc": nc, "px": px}


# --- the behaviours of the specification --------------------------------------------

IMG = {"quiet": ([5, 5, 6, 5, 6], [0] * 6), "mid": ([5, 70, 6, 5, 6], [0] * 6), "huge": ([5, 900, 6, 5, 6], [0] * 6),
       "grow": ([5, 55, 56, 54, 6], [0] * 6), "sat": ([5, 70, 0, 0, 0], [0, 0, 2, 2, 2, 2]),
       "dnu": ([5, 6, 5, 6, 5], [0, 0, 1, 0, 0, 0]), "late": ([5, 6, 5, 6, 80], [0] * 6)}


def base(F=None, **k):
    p = {"F": F or FLAGSETS[0], "t": 8, "t3": 10, "t2": 12, "nf": 1, "S": 1, "dt": [1], "nn": [2], "reads": [],
         "nb": False, "mx": -1, "mn": 0, "dn1": 0, "n1": 0, "dn2": 0, "n2": 0, "minGroups": 3, "minSig": 1000,
         "onlyInts": False, "minPass": 100}
    p.update(k)
    return p


def image_behaviour(b):
    """A behaviour of JumpImgMC as an event."""
    px = []
    for kind in b["px"]:
        st, q = IMG[kind]
        d = [3]
        for s in st:
            d.append(d[-1] + s)
        px.append({"ints": [{"d": d, "q": q}], "gain": 1, "rn": 4, "pdq": 0})
    p = base(nb=b["nb"], n1=b["n1"], mn=10, mx=60, dn1=50, dn2=5000)
    return {"p": p, "ni": 1, "ng": 6, "nr": len(px), "nc": 1, "px": px}, b["n"]


def pixel_behaviours(rng, behs, per=12):
    """Behaviours of JumpPixMC, gathered as images."""
    for k in range(0, len(behs), per):
        part = behs[k:k + per]
        meth = ["onepass", "iterative", "iterative", "sigclip"][int(rng.integers(4))]
        p = settings(rng, 5, 1, meth=meth)
        p.update({"t": 8, "t3": 10, "t2": 12, "minGroups": 3})
        F = p["F"]
        px = []
        for b in part:
            q = [{0: 0, 1: F["dnu"], 2: F["sat"]}[x] for x in b["q"]]
            px.append({"ints": [{"d": b["d"], "q": q}], "gain": 1, "rn": 4, "pdq": 0})
        yield {"p": p, "ni": 1, "ng": 5, "nr": 1, "nc": len(px), "px": px}


def random_case(rng, nb=False, after=False, shapes=((1, 6), (2, 3), (3, 2), (1, 1)), maxng=8, **k):
    ng = min(maxng, int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8])))
    ni = int(rng.choice([1, 1, 2, 3]))
    uneven = bool(rng.integers(4) == 0) and ng > 1
    p = settings(rng, ng, ni, uneven=uneven, nb=nb, after=after)
    nr, nc = shapes[int(rng.integers(len(shapes)))]
    return case(rng, nr, nc, ng, ni, p, **k)


def long_case(rng):
    """Long ramps with a rare jump or two, after which many groups are flagged."""
    ng, ni = int(rng.integers(54, 76)), 1
    nr, nc = (4, 6) if rng.random() < 0.5 else (3, 8)
    p = settings(rng, ng, ni, meth="onepass", after=True)
    p.update({"minPass": 5, "minGroups": 3, "dn1": 60, "n1": int(rng.integers(40, 70)), "dn2": 150,
              "n2": int(rng.integers(0, 70)), "t": 10, "reads": [], "dt": [1], "nn": [2 * p["nf"]], "S": 1})
    px = []
    hot = {int(k): int(rng.integers(2, ng - 1)) for k in rng.choice(nr * nc, size=int(rng.integers(1, 3)), replace=False)}
    F = p["F"]
    for j in range(nr * nc):
        step = rng.integers(3, 6, ng - 1)
        q = [0] * ng
        if j in hot:
            step[hot[j]] += int(rng.choice([90, 100, 300]))
            if rng.random() < 0.5:
                for k in range(min(ng - 1, hot[j] + int(rng.integers(3, 40))), ng):
                    q[k] |= F["sat"] if rng.random() < 0.3 else 0
                if rng.random() < 0.5:
                    q[int(rng.integers(hot[j] + 2, ng)) if hot[j] + 2 < ng else ng - 1] |= F["dnu"]
        d = [int(v) for v in np.concatenate([[3], 3 + np.cumsum(step)])]
        px.append({"ints": [{"d": d, "q": q}], "gain": 1, "rn": 4, "pdq": 0})
    return {"p": p, "ni": ni, "ng": ng, "nr": nr, "nc": nc, "px": px}
