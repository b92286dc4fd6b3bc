"""C04: ramp fitting is repeatable, per pixel, indifferent to byte order, and leaves its inputs alone."""
import numpy as np

from harness import rampfit as rf
from harness.rampfit_cases import random_exposures, shape_of
from vlib import main

KEEP = ("data", "pixeldq", "gain", "average_dark_current", "zeroframe")


def run_one(m, px, shape, **k):
    mod0 = rf.Model(m, px, shape, k.get("order", "="))
    none, err, raw, mod = rf.fit(m, px, shape, **k)
    changed = []
    for name in KEEP:
        if hasattr(mod0, name):
            a, b = getattr(mod0, name), getattr(mod, name)
            if a.dtype != b.dtype or a.tobytes() != b.tobytes():
                changed.append(name)
    return err + ("none" if none else ""), rf.bits(raw) if raw else {}, changed


def likely(rng, m, px):
    """Exposures for the likelihood fit: at least four groups, positive gain."""
    for p in px:
        p["gain"] = max(1, p["gain"] if p["gain"] != rf.NAN else 1)
    m["suppress"] = False


def run(c):
    c.model("SlicesMC")
    rng = c.nprng("repeat")
    evs = []
    for algo, n in (("OLS_C", c.pick(120, 1200)), ("LIKELY", c.pick(120, 1200))):
        for m, px in random_exposures(c, rng, n, per=8):
            if algo == "LIKELY":
                if m["ng"] < 4:
                    continue
                likely(rng, m, px)
            shape = shape_of(rng, len(px))
            so = bool(rng.integers(2))
            e0, b0, ch0 = run_one(m, px, shape, save_opt=so, algorithm=algo)
            variants = ["again", "order", "mixed", "perm", "among"]
            for v in variants:
                perm, kw, px1, sh1 = [], {}, px, shape
                if v == "order":
                    kw["order"] = ">"
                elif v == "mixed":
                    kw["order"] = f"mix{int(rng.integers(1 << 30))}"
                elif v == "perm":
                    perm = [int(x) for x in rng.permutation(len(px))]
                    px1 = [px[i] for i in perm]
                    if rng.integers(2):
                        sh1 = shape_of(rng, len(px))
                elif v == "among":
                    # a few of the pixels, alone; what depends on the image as a whole must not differ
                    if m["miri"] or (e0 and algo == "OLS_C"):
                        continue
                    perm = sorted(int(x) for x in rng.choice(len(px), size=int(rng.integers(1, len(px))), replace=False))
                    px1 = [px[i] for i in perm]
                    F = m["F"]
                    if all(q["q"][0] & F["sat"] for p in px1 for q in p["ints"]):
                        continue
                    if any(p["zf"] for p in px) != any(p["zf"] for p in px1):
                        continue
                    sh1 = (1, len(px1))
                e1, b1, ch1 = run_one(m, px1, sh1, save_opt=so, algorithm=algo, **kw)
                evs.append({"whole": b0, "parts": b1, "perm": perm, "err0": e0, "err1": e1,
                            "changed": [f"{x} ({v})" for x in ch1] + ch0, "kind": v, "algorithm": algo,
                            "m": m, "px": px, "shape": shape})
    c.validate("SlicesTrace", evs, label="repeat")


if __name__ == "__main__":
    main("C04", run)
