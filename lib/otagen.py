"""Seeded generator of JSON descriptions of one-clock automata: supported ones and damaged ones."""
import json, random

GOOD = ["[", "("], ["]", ")"]


def interval(lo, loC, hi, hiC):
    return ("[" if loC else "(") + str(lo) + "," + ("+)" if hi is None else str(hi) + ("]" if hiC else ")"))


def pieces(rnd, top):
    """Disjoint intervals covering the nonnegative reals"""
    cuts = sorted({(rnd.randint(0, top), rnd.randint(0, 1)) for _ in range(rnd.randint(0, 3))} - {(0, 0)})
    out, lo, loC = [], 0, True
    for c, side in cuts:
        out.append((lo, loC, c, bool(side)))
        lo, loC = c, not side
    out.append((lo, loC, None, False))
    return out


def names(rnd, n):
    pool = rnd.choice([["1", "2", "3", "4", "5"], ["s0", "s1", "s10", "s2", "sink"], ["q", "q q", "Q", "q_1", "[0,+)"], ["a", "b", "r", "n", "+"]])
    return rnd.sample(pool, n)


def description(rnd):
    n = rnd.randint(1, 4)
    l = names(rnd, n)
    sigma = rnd.sample(list("abrnx+["), rnd.randint(1, 3))
    top = rnd.choice([1, 2, 3, 3, 5, 12])
    tran = []
    for s in l:
        for a in sigma:
            for p in pieces(rnd, top):
                if rnd.random() < 0.7:
                    tran.append([s, a, interval(*p), rnd.choice("rn"), rnd.choice(l)])
    rnd.shuffle(tran)
    return dict(name="A", l=l, sigma=sigma, tran=tran, init=rnd.choice(l), accept=rnd.sample(l, rnd.randint(0, n)))


def wide(rnd):
    """More locations, larger constants"""
    n = rnd.randint(5, 11)
    l = rnd.choice([[str(k) for k in range(n)], [f"s{k}" for k in range(8, 8 + n)]])
    rnd.shuffle(l)
    sigma = rnd.sample(list("abcdrnz"), rnd.randint(1, 4))
    top = rnd.choice([9, 10, 25, 120, 300])
    tran = []
    for k, s in enumerate(l):
        for a in sigma:
            ps = pieces(rnd, top)
            for m, p in enumerate(ps):
                if rnd.random() < 0.75:
                    # a way through all of them
                    tran.append([s, a, interval(*p), rnd.choice("rnr"), l[(k + 1) % n] if m == 0 else rnd.choice(l)])
    if rnd.random() < 0.5:
        rnd.shuffle(tran)
    return dict(name="A", l=l, sigma=sigma, tran=tran, init=rnd.choice(l), accept=rnd.sample(l, rnd.randint(1, n - 1)))


def damage(rnd, d, kind):
    d = json.loads(json.dumps(d))
    t = d["tran"]
    if not t and kind < 8:
        t.append([d["l"][0], d["sigma"][0], "[0,+)", "r", d["l"][0]])
    e = rnd.choice(t) if t else None
    if kind == 0:  # any interval instead: often nondeterministic
        e[2] = interval(rnd.randint(0, 3), rnd.random() < .5, rnd.choice([None, 0, 1, 2, 3, 4]), rnd.random() < .5)
    elif kind == 1:  # the same again
        t.append(list(e[:4]) + [rnd.choice(d["l"])])
    elif kind == 2:
        e[0] = "nowhere"
    elif kind == 3:
        e[4] = "nowhere"
    elif kind == 4:
        e[1] = rnd.choice(["", "ab", "tau"])
    elif kind == 5:  # blanks around the numbers
        k = e[2].index(",")
        at = [1, k] if e[2][0] in "([" else [k]
        if "+" not in e[2]:
            at += [k + 1, len(e[2]) - 1]
        k = rnd.choice(at)
        e[2] = e[2][:k] + " " + e[2][k:]
    elif kind == 6:  # a letter outside the alphabet
        e[1] = "z"
    elif kind == 7:  # leading zeros, empty intervals
        e[2] = rnd.choice(["[00,01]", "(1,1)", "[2,1]", "(0,0]", "[1,1)", "[012,+)", "(0,0)", "[0,0]"])
    elif kind == 8:
        d["init"] = rnd.choice(["nowhere", ""])
    elif kind == 9:
        d["sigma"].append(rnd.choice(["", "ab"]))
    elif kind == 10:
        del d[rnd.choice(["l", "sigma", "tran", "init", "accept"])]
    elif kind == 11:  # repeated names
        k = rnd.choice(["l", "sigma", "accept"])
        if d[k]:
            d[k].append(d[k][0])
    elif kind == 12:
        d["l"] = []
    else:
        d["tran"] = []
    return d


KINDS = 14


def malformed():
    """Descriptions with one part that is not supported at all; all of them must be refused. Each is a case of its own."""
    def make(f):
        d = dict(name="A", l=["1", "2"], sigma=["a"], tran=[["1", "a", "(1,3]", "n", "2"], ["2", "a", "[0,+)", "r", "1"]], init="1", accept=["2"])
        f(d)
        return d

    def put(k, v):
        return lambda d: d["tran"][0].__setitem__(k, v)
    iv = {"decimal": "[1,2.5]", "infinity-twice": "[1,++)", "infinity-closed": "[1,+]", "no-lower": "(,2)", "no-upper": "[1,)", "not-numbers": "[a,b]",
          "negative": "[-1,2]", "no-brackets": "1,2", "no-comma": "[1]", "three-numbers": "[1,2,3]", "too-large": "[0,4294967297]",
          "blank-in-infinity": "[1,+ )", "trailing-blank": "[1,2] x"}
    out = [("interval-" + k, make(put(2, v))) for k, v in iv.items()]
    out += [("reset-unknown", make(put(3, "R"))), ("reset-empty", make(put(3, ""))),
            ("accept-unknown", make(lambda d: d["accept"].append("nowhere")))]
    return out


def field(x):
    return dict(s=x, ch=list(x))


def project(d):
    """The shape Ota.tla reads"""
    return dict(keys=sorted(d), l=d.get("l", []), sigma=[field(x) for x in d.get("sigma", [])],
                tran=[[field(x) for x in e] for e in d.get("tran", [])], init=d.get("init", ""), accept=d.get("accept", []))


def text(rnd, d):
    d = dict(d)
    if "tran" in d:
        d["tran"] = {str(k): e for k, e in enumerate(d["tran"])}
    items = list(d.items())
    rnd.shuffle(items)
    return json.dumps(dict(items), indent=rnd.choice([None, 2]))


def generate(seed, count):
    out = []
    for k in range(count):
        rnd = random.Random(seed * 1000003 + k)
        d = description(rnd)
        if k % 2 == 1:
            d = damage(rnd, d, (k // 2) % KINDS)
            if rnd.random() < 0.1:
                d = damage(rnd, d, rnd.randint(0, 7)) if "tran" in d and d.get("l") and d.get("sigma") else d
        out.append((d, text(rnd, d)))
    for k in range(count // 10):
        rnd = random.Random(seed * 1000003 + 500000 + k)
        d = wide(rnd)
        if k % 4 == 3:
            d = damage(rnd, d, rnd.randint(0, KINDS - 1))
        out.append((d, text(rnd, d)))
    return out
