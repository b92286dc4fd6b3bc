"""C17: resampled images are the weighted means of the good input pixels."""
from harness import mosaic
from vlib import main, spread


def run(c):
    c.model("MosaicMC", constants=None)
    ev = spread(c, mosaic.random_history, c.pick(1500, 20000), "random")
    c.validate("MosaicTrace", ev, cfg="MosaicTrace.cfg", label="random images", only=mosaic.PIXELS | {"error", "refused", "inputs"})
    ev = spread(c, mosaic.deep_history, c.pick(20, 200), "deep")
    c.validate("MosaicTrace", ev, cfg="MosaicTrace.cfg", label="many images", only=mosaic.PIXELS | {"error", "refused", "inputs"})


if __name__ == "__main__":
    main("C17", run)
