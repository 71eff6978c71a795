"""The models of the shipped learners, written down independently of their sources (from their
documentation): an automaton in the projection of the drivers, and its letters."""


class B:
    def __init__(self, acc, n):
        self.a = dict(d=1, n=n, mc=[], init=[1], acc=[bool(x) for x in acc], st=[[] for _ in acc])

    def t(self, s, a, t, g=(), r=()):
        self.a["st"][s].append(dict(a=a, t=t + 1, g=[list(x) for x in g], r=[[x, 0, 0] for x in r]))
        return self


def simple(k):
    """Two locations; x < k stays, x >= k leaves with x := 0; x <= k returns"""
    return B([1, 0], 1).t(0, "a", 0, [(0, "<", k)]).t(0, "a", 1, [(0, ">=", k)], [0]).t(1, "a", 0, [(0, "<=", k)]).t(1, "a", 1, [(0, ">", k)]).a, "a"


def unbalanced(k):
    """a b c with b exactly k after the start and c exactly k after a"""
    return B([0, 0, 0, 1], 2).t(0, "a", 1, (), [1]).t(1, "b", 2, [(0, ">=", k), (0, "<=", k)]).t(2, "c", 3, [(1, ">=", k), (1, "<=", k)]).a, "abc"


def unbalanced_loop(states, clocks, scale):
    """A loop of a; clock number c watches every length-th step: strictly between length*scale and twice that"""
    guards, resets = [[] for _ in range(states)], [[] for _ in range(states)]
    c, length = 0, 1
    while c < clocks:
        for first in range(length):
            if c >= clocks:
                break
            for s in range(first, states - length + 1, length):
                end = (s + length - 1) % states
                guards[end] += [(c, ">", length * scale), (c, "<", 2 * length * scale)]
                resets[end].append(c)
            c += 1
        length += 1
    b = B([1] * states, clocks)
    for s in range(states):
        b.t(s, "a", (s + 1) % states, guards[s], resets[s])
    return b.a, "a"


def light(k):
    """press/release/starthold/endhold/touch"""
    b = B([1, 1, 1, 1, 1, 0], 1)
    b.t(0, "p", 1, (), [0])
    b.t(1, "r", 0, [(0, "<", k)]).t(1, "r", 4, [(0, ">=", k)]).t(1, "s", 2, [(0, ">=", 2 * k)]).t(1, "s", 5, [(0, "<", 2 * k)])
    b.t(2, "r", 3).t(3, "e", 0).t(4, "t", 0)
    return b.a, "prset"
