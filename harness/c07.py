"""C07: two-point jump detection flags exactly the outlying differences."""
from harness import jumps
from vlib import main

CL = {"error", "flags", "count", "unusable", "other", "pixels"}


def run(c):
    r = c.model("JumpPixMC")
    rng = c.nprng("detect")
    evs = []
    for e in jumps.pixel_behaviours(rng, r.json):
        evs.append(jumps.run(e))
    for _ in range(c.pick(400, 4000)):
        evs.append(jumps.run(jumps.random_case(rng)))
    c.validate("JumpTrace", evs, label="jump detection", only=CL)


if __name__ == "__main__":
    main("C07", run)
