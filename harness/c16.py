"""C16: resampling follows its life cycle and reports what went in."""
from harness import mosaic
from vlib import each, main, spread

# all clauses count: the pixels too must be those of exactly the models added since the start
ONLY = mosaic.LIFE | {"data", "weight", "context", "error"}


def run(c):
    r = c.model("MosaicMC", want_json=True)
    if c.thorough:
        c.model("MosaicMC", cfg="MosaicMC7.cfg")
    cat = next(b["cat"] for b in r.json if "cat" in b)
    bs = [b["steps"] for b in r.json if "steps" in b]
    rng = c.nprng("pick")
    pick = [bs[i] for i in sorted(rng.choice(len(bs), min(len(bs), c.pick(2500, 10**6)), replace=False))]
    ev = each(mosaic.behaviour, [(cat, s) for s in pick])
    c.validate("MosaicTrace", ev, cfg="MosaicTrace.cfg", label="every history", only=ONLY | {"error"})
    ev = spread(c, mosaic.random_history, c.pick(400, 6000), "random")
    c.validate("MosaicTrace", ev, cfg="MosaicTrace.cfg", label="random histories", only=ONLY)


if __name__ == "__main__":
    main("C16", run)
