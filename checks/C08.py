#!/usr/bin/env python3
from common import *
from vlib import main


def run(c):
    ops(c, "comp", 500, "the complement_or_completion", "complement_or_completion")
    # three clocks; large constants and three letters
    ops(c, "wide/comp", 240, "the complement_or_completion", "complement_or_completion", build=False)
    # with urgent unobservable transitions
    ops(c, "ecomp", 400, "the complement_or_completion", "complement_or_completion", build=False)


if __name__ == "__main__":
    main(run, "C08")
