#!/usr/bin/env python3
"""C04: 'no counterexample' is reported only for automata with equal languages."""
from common import *
from vlib import main


def run(c):
    ops(c, "eqo", 1500, "the equivalence oracle", "no counterexample was reported for different automata", only={"nocex", "unchanged"})
    # three clocks; large constants and three letters
    ops(c, "wide/eqo", 450, "the equivalence oracle", "no counterexample was reported for different automata", only={"nocex", "unchanged"}, build=False)


if __name__ == "__main__":
    main(run, "C04")
