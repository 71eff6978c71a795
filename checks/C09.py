#!/usr/bin/env python3
from common import *
from vlib import main


def run(c):
    ops(c, "inter", 350, "the product", "product")
    # three clocks; large constants and three letters
    ops(c, "wide/inter", 180, "the product", "product", build=False)
    # with urgent unobservable transitions
    ops(c, "einter", 250, "the product", "product", build=False)


if __name__ == "__main__":
    main(run, "C09")
