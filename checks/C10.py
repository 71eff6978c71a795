#!/usr/bin/env python3
from common import *
from vlib import main


def run(c):
    ops(c, "simp", 450, "the simplification", "simplification")
    # three clocks; large constants and three letters
    ops(c, "wide/simp", 210, "the simplification", "simplification", build=False)
    # with urgent unobservable transitions
    ops(c, "esimp", 250, "the simplification", "simplification", build=False)


if __name__ == "__main__":
    main(run, "C10")
