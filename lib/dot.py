"""Reads back the graphs that the library prints."""
import re
from fractions import Fraction
from math import lcm

EPS = ("ε", "\\u03b5", "UNOBSERVABLE")
NODE = re.compile(r'^\s*loc(\d+) \[init=([01]|true|false), match=([01]|true|false)\]$')
EDGE = re.compile(r'^\s*loc(\d+)->loc(\d+) \[label="(.*?)"(?:, guard="\{(.*?)\}")?(?:, reset="\{(.*?)\}")?\]$')
CON = re.compile(r'^x(\d+) (<=|<|>=|>) (-?\d+)$')
RES = re.compile(r'^x(\d+) := (?:x(\d+)|([-+0-9.e]+))$')


class Unreadable(Exception):
    pass


def graphs(text, heading):
    """The printed graphs which follow the heading"""
    out = []
    for part in text.split(heading)[1:]:
        m = re.match(r"\s*(digraph G \{\n.*?^\})", part, re.M | re.S)
        if not m:
            raise Unreadable("no graph after: " + heading)
        out.append(m.group(1))
    return out


def parse(text, clocks=None, letters=None, eps=None):
    lines = text.strip().split("\n")
    if lines[0] != "digraph G {" or lines[-1].strip() != "}":
        raise Unreadable("not a graph: " + lines[0])
    nodes, edges = {}, []
    for l in lines[1:-1]:
        m = NODE.match(l)
        if m:
            if int(m.group(1)) in nodes:
                raise Unreadable("a location is printed twice: " + l)
            nodes[int(m.group(1))] = (m.group(2) in ("1", "true"), m.group(3) in ("1", "true"))
            continue
        m = EDGE.match(l)
        if not m:
            raise Unreadable("unreadable line: " + l)
        g, r = [], []
        for x in (m.group(4) or "").split(", ") if m.group(4) is not None else []:
            k = CON.match(x)
            if not k:
                raise Unreadable("unreadable guard: " + l)
            g.append([int(k.group(1)), k.group(2), int(k.group(3))])
        for x in (m.group(5) or "").split(", ") if m.group(5) is not None else []:
            k = RES.match(x)
            if not k:
                raise Unreadable("unreadable assignment: " + l)
            r.append((int(k.group(1)), int(k.group(2))) if k.group(2) is not None else (int(k.group(1)), Fraction(k.group(3))))
        label = m.group(3)
        edges.append((int(m.group(1)), int(m.group(2)), "" if label == eps else label, g, r))
    if sorted(nodes) != list(range(len(nodes))):
        raise Unreadable("the locations are not numbered from 0")
    d = 1
    for e in edges:
        for _, v in e[4]:
            if isinstance(v, Fraction):
                d = lcm(d, v.denominator)
    if d > 4096:
        raise Unreadable("a printed constant is not a small binary fraction")
    st = [[] for _ in nodes]
    used = [-1]
    for s, t, a, g, r in edges:
        if s not in nodes or t not in nodes:
            raise Unreadable("an edge of an unknown location")
        used += [x for x, _, _ in g] + [x for x, _ in r] + [v for _, v in r if not isinstance(v, Fraction)]
        st[s].append(dict(a=a, t=t + 1, g=g, r=[[x, 0, int(v * d)] if isinstance(v, Fraction) else [x, 1, v] for x, v in r]))
    n = max(used) + 1 if clocks is None else clocks
    return dict(d=d, n=n, mc=[], init=[k + 1 for k in sorted(nodes) if nodes[k][0]], acc=[nodes[k][1] for k in sorted(nodes)], st=st)
