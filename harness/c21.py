"""C21: requests for processes are honoured within what exists."""
import fakepool
from harness import jumps
from harness import rampfit as rf
from harness.rampfit_cases import random_exposures
from vlib import call, main

WORDS = ["none", "one", "quarter", "half", "all"]
JUNK = ["", "None", "NONE", "One", "some", "7.5", "-5", "3/4", "1e2", "+3", "3.0", " ", "two", "third", "quarters", "0x4", "1_0"]


def number(req):
    return int(req) if req.isascii() and req.isdigit() else -1


def direct(req, rows, avail):
    from stcal.multiprocessing import compute_num_cores
    got, err = call(compute_num_cores, req, rows, avail)
    ok = err is None and isinstance(got, int) and not isinstance(got, bool)
    return {"req": req, "num": number(req), "rows": rows, "avail": avail, "got": int(got) if ok else -1, "err": err or ""}


def run(c):
    c.model("SlicesMC")
    evs = []
    for avail in list(range(1, 18)) + [31, 32, 64, 255]:
        for rows in (1, 2, 3, 4, 5, 7, 8, 16, 33, 2048):
            for req in WORDS + [str(n) for n in (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40, 1000)] + ["08", "00"] + JUNK:
                evs.append(direct(req, rows, avail))
    c.validate("WorkersTrace", evs, label="requests")
    rng = c.nprng("use")
    used = []
    for k in range(c.pick(160, 1500)):
        avail = int(rng.integers(1, 20))
        req = str(rng.choice(WORDS + ["0", "1", "2", "3", "5", "40", "junk", "7.5"]))
        nr, nc = [(1, 12), (2, 6), (3, 4), (4, 3), (6, 2), (12, 1)][int(rng.integers(6))]
        fakepool.Pool.made.clear()
        if k % 2:
            e = jumps.random_case(rng, shapes=((nr, min(nc, 4)),))
            out = jumps.run(e, cores=req, ncpu=avail)
            done, err = out["err"] == "", out["err"]
        else:
            m, px = next(iter(random_exposures(c, rng, 1, per=12, miri=False)))
            F = m["F"]
            if all(q["q"][0] & F["sat"] for p in px for q in p["ints"]):
                continue
            none, err, raw, _ = rf.fit(m, px, (nr, nc), cores=req, ncpu=avail)
            done = err == ""
        made = [[-1 if a is None else a, b] for a, b in fakepool.Pool.made]
        used.append({"req": req, "num": number(req), "rows": nr, "avail": avail, "made": made, "done": done, "err": err,
                     "what": "jumps" if k % 2 else "fit"})
    c.validate("WorkersTrace", used, label="use of processes")


if __name__ == "__main__":
    main("C21", run)
