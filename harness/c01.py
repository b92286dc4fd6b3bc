"""C01: slopes and variances of a ramp fit come from the usable groups only, split at jumps."""
from harness.rampfit_cases import run_cases
from vlib import main

CLAUSES = {"slope", "islope", "vr", "ivr", "vp", "ivp", "err", "ierr", "oslope", "oweight", "ocr", "oped",
           "ovp", "owt", "oyint", "osig", "osigy", "error"}


def run(c):
    run_cases(c, CLAUSES, pats=True)


if __name__ == "__main__":
    main("C01", run)
