#!/usr/bin/env python3
from common import *
from vlib import main


def run(c):
    ops(c, "zone", 800, "the zone_graph", "zone_graph")
    # three clocks; large constants and three letters
    ops(c, "wide/zone", 300, "the zone_graph", "zone_graph", build=False)


if __name__ == "__main__":
    main(run, "C12")
