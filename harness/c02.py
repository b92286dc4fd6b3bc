"""C02: data quality of ramp-fit products."""
from harness.rampfit_cases import run_cases
from vlib import main

CLAUSES = {"idq", "dq", "nan", "zerovar", "none", "error"}


def run(c):
    run_cases(c, CLAUSES, pats=True, count=c.pick(500, 4000))


if __name__ == "__main__":
    main("C02", run)
