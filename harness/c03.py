"""C03: ramp fitting gives the same products however the rows are divided among processes."""
import numpy as np

from harness import rampfit as rf
from harness.rampfit_cases import random_exposures, shape_of
from vlib import main


def run(c):
    c.model("SlicesMC")
    rng = c.nprng("slices")
    evs, evs2 = [], []
    for m, px in random_exposures(c, rng, c.pick(220, 1500), per=12):
        shape = [(12, 1), (6, 2), (4, 3), (3, 4), (2, 6)][int(rng.integers(5))]
        so = bool(rng.integers(2))
        order = ["=", "=", ">", f"mix{int(rng.integers(1 << 30))}"][int(rng.integers(4))]
        none, err, raw, _ = rf.fit(m, px, shape, save_opt=so, order=order)
        whole = rf.bits(raw) if raw else {}
        for cores in [str(int(rng.integers(2, 14))), ["quarter", "half", "all"][int(rng.integers(3))]]:
            ncpu = int(rng.integers(2, 17))
            n1, e1, raw1, _ = rf.fit(m, px, shape, cores=cores, save_opt=so, ncpu=ncpu, order=order)
            evs.append({"whole": whole, "parts": rf.bits(raw1) if raw1 else {}, "perm": [],
                        "err0": err + ("none" if none else ""), "err1": e1 + ("none" if n1 else ""),
                        "cores": cores, "ncpu": ncpu, "m": m, "px": px, "shape": shape})
            evs2.append({"m": m, "px": px, "none": n1, "err": e1, "out": rf.outs(m, px, shape, raw1) if raw1 else [],
                         "run": {"cores": cores, "ncpu": ncpu, "save_opt": so}, "shape": list(shape)})
    # real worker processes
    for m, px in random_exposures(c, rng, c.pick(2, 6), per=12, miri=False):
        m["suppress"] = False
        none, err, raw, _ = rf.fit(m, px, (4, 3), save_opt=True)
        n1, e1, raw1, _ = rf.fit(m, px, (4, 3), cores="3", save_opt=True, real_pool=True)
        evs.append({"whole": rf.bits(raw) if raw else {}, "parts": rf.bits(raw1) if raw1 else {}, "perm": [],
                    "err0": err + ("none" if none else ""), "err1": e1 + ("none" if n1 else ""),
                    "cores": "3 (real)", "ncpu": 0, "m": m, "px": px, "shape": (4, 3)})
    c.validate("SlicesTrace", evs, label="slices")
    c.validate("RampOLSTrace", evs2, label="ramp fit in slices")


if __name__ == "__main__":
    main("C03", run)
