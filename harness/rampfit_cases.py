"""The exposures on which ramp fitting is checked, shared by C01 (numbers), C02 (data quality), C03 (slices)."""
import numpy as np

from harness import rampfit as rf


def pattern_exposures(c, rng, behs, per=24):
    """The model's flag patterns, as pixels of exposures of one or two integrations."""
    by = {}
    for b in behs:
        by.setdefault(len(b["q"]), []).append(b["q"])
    for ng, pats in sorted(by.items()):
        order = rng.permutation(len(pats))
        pats = [pats[int(k)] for k in order]
        k = 0
        while k < len(pats):
            ni = 1 + int(rng.integers(2))
            m = rf.meta(rng, ng, ni, suppress=bool(rng.integers(4) == 0))
            zf = bool(rng.integers(4) == 0)
            px = []
            while len(px) < per and k < len(pats):
                qs = []
                for _ in range(ni):
                    qs.append([rf.conv(x, m["F"]) for x in pats[k % len(pats)]])
                    k += 1
                px.append(rf.pixel(rng, m, qs, zf=zf))
            yield m, px


def random_exposures(c, rng, count, maxng=8, per=12, miri=None):
    for _ in range(count):
        ng = int(rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 11, 14]))
        ng = min(ng, maxng)
        ni = int(rng.choice([1, 1, 2, 3]))
        mi = bool(rng.integers(4) == 0) if miri is None else miri
        m = rf.meta(rng, ng, ni, miri=mi, suppress=bool(rng.integers(3) == 0))
        F = m["F"]
        zf = bool(rng.integers(3) == 0)
        px = []
        lead = int(rng.integers(0, ng + 1)) if mi and rng.random() < 0.6 else 0
        last = mi and rng.random() < 0.6
        allsat = rng.random() < 0.04
        for _ in range(per if ng <= 8 else per // 2):
            qs = [rf.rand_q(rng, ng, F) for _ in range(ni)]
            for q in qs:
                for k in range(lead):
                    q[k] |= F["dnu"]
                if last:
                    q[-1] |= F["dnu"]
                if allsat:
                    q[0] |= F["sat"]
            if zf:      # persistence-only groups are outside the zero frame rule
                qs = [[x & ~F["pers"] if x == F["pers"] else x for x in q] for q in qs]
            gain, pdq = None, None
            u = rng.random()
            if u < 0.04:
                gain = int(rng.choice([0, -2, rf.NAN]))
            elif u < 0.10:
                pdq = int(rng.choice([F["dnu"], F["sat"], F["jump"], F["nogain"], 1 << 12]))
            px.append(rf.pixel(rng, m, qs, zf=zf, gain=gain, pdq=pdq))
        if lead and rng.random() < 0.3:     # one pixel keeps its leading group
            px[0]["ints"][0]["q"][0] &= ~(F["dnu"] | F["chg"])
        yield m, px


def shape_of(rng, n):
    divs = [d for d in range(1, n + 1) if n % d == 0]
    r = int(rng.choice(divs))
    return (r, n // r)


def select(c, evs, bad_events):
    return bad_events


def run_cases(c, clauses, pats=False, count=None):
    rng = c.nprng("cases")
    evs = []
    if pats:
        r = c.model("RampOLSMC") if not c.thorough else c.model("RampOLSMC", "RampOLSMC5.cfg")
        for m, px in pattern_exposures(c, rng, r.json):
            evs.append(rf.event(m, px, shape_of(rng, len(px)), save_opt=bool(rng.integers(2))))
    for m, px in random_exposures(c, rng, count or c.pick(700, 4000), maxng=14):
        evs.append(rf.event(m, px, shape_of(rng, len(px)), save_opt=bool(rng.integers(2))))
    c.validate("RampOLSTrace", evs, label="ramp fit", only=clauses)
    return evs
