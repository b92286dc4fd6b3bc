"""C09: jump detection does not depend on the number of processes."""
from harness import jumps
from vlib import main

KNOWN = {"spread": "after-jump-across-slices", "reset": "all-jump-group-of-a-slice"}


def slices_of(nr, cores, ncpu):
    """Number of slices of a request (words are fractions of the processors)."""
    words = {"quarter": ncpu // 4, "half": ncpu // 2, "all": ncpu}
    n = int(cores) if cores.isdigit() else max(1, words[cores])
    return min(n, nr, ncpu)


def reset_case():
    """Two rows: in the first, every pixel is a jump in group 4; detection by sigma clipping."""
    p = jumps.base(t=3, minSig=2)
    px = []
    for st in ([5, 6, 90, 5, 6, 5], [5, 6, 5, 6, 5, 6]):
        d = [3]
        for s in st:
            d.append(d[-1] + s)
        px.append({"ints": [{"d": d, "q": [0] * 7}], "gain": 1, "rn": 4, "pdq": 0})
    return {"p": p, "ni": 1, "ng": 7, "nr": 2, "nc": 1, "px": px}


def run(c):
    c.model("SlicesMC")
    r = c.model("JumpImgMC", c.pick("JumpImgMC.cfg", "JumpImgMC4.cfg"))
    rng = c.nprng("slices")
    evs = [jumps.run(reset_case(), cores="2", slices=2),
           jumps.run(jumps.image_behaviour({"px": ["mid", "grow", "quiet"], "nb": True, "n1": 1, "n": 2})[0],
                     cores="2", slices=2)]
    behs = [b for b in r.json if b["n"] > 1]
    pick = rng.permutation(len(behs))[: c.pick(350, 3000)]
    for k in pick:
        e, n = jumps.image_behaviour(behs[int(k)])
        evs.append(jumps.run(e, cores=str(n), slices=n))
    for _ in range(c.pick(260, 2500)):
        k = int(rng.integers(4))
        e = jumps.random_case(rng, nb=k != 1, after=k in (1, 3), shapes=((5, 2), (7, 1), (4, 3), (6, 2), (3, 3)),
                              pjump=float(rng.choice([0.03, 0.1, 0.25])))
        cores = [str(int(rng.integers(2, 9))), ["quarter", "half", "all"][int(rng.integers(3))]][int(rng.integers(2))]
        ncpu = int(rng.integers(2, 17))
        evs.append(jumps.run(e, cores=cores, ncpu=ncpu, slices=slices_of(e["nr"], cores, ncpu)))
    # real worker processes
    for _ in range(c.pick(2, 5)):
        e = jumps.random_case(rng, nb=True, shapes=((5, 2),))
        evs.append(jumps.run(e, cores="2", slices=2, real_pool=True))
    c.validate("JumpTrace", evs, label="jump detection in slices", known=KNOWN)


if __name__ == "__main__":
    main("C09", run)
