"""C08: jump flags spread to neighbours and later groups exactly as configured."""
from harness import jumps
from vlib import main

CL = {"error", "flags", "count", "unusable", "other", "pixels"}


def run(c):
    r = c.model("JumpImgMC", c.pick("JumpImgMC.cfg", "JumpImgMC4.cfg"))
    rng = c.nprng("spread")
    evs = []
    for b in r.json:
        if b["n"] == 1:
            evs.append(jumps.run(jumps.image_behaviour(b)[0]))
    for _ in range(c.pick(320, 3000)):
        k = int(rng.integers(3))
        e = jumps.random_case(rng, nb=k != 1, after=k != 0, shapes=((3, 4), (1, 6), (4, 3), (5, 1), (2, 2), (3, 3)),
                              pjump=float(rng.choice([0.03, 0.1, 0.25])))
        evs.append(jumps.run(e))
    for _ in range(c.pick(10, 120)):
        evs.append(jumps.run(jumps.long_case(rng)))
    c.validate("JumpTrace", evs, label="spreading of jumps", only=CL)


if __name__ == "__main__":
    main("C08", run)
