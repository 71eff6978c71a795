"""Pairs of rows which were declared equivalent, for Renaming.tla."""
import ta


def _classes(l):
    """Number of distinct non-integral fractional parts of the clocks of a region."""
    n = len(l["w"]) + 1
    b = {(x[0], x[1]): (x[2], x[3]) for x in l["z"]}
    point = lambda i, j: b[(i, j)][1] == 1 and b[(j, i)][1] == 1 and b[(i, j)][0] == -b[(j, i)][0]
    reps = []
    for i in range(1, n + 1):
        if point(i, 0) or any(point(i, j) for j in reps):
            continue
        reps.append(i)
    return reps, point


def grid(p):
    """A grid on which all joint regions of the two rows and a column have points"""
    l, _ = _classes(p["l"])
    r, _ = _classes(p["r"])
    eq = len({j for i, j in p["ren"] if j in r and i in l}) if p.get("found", 1) else 0
    return len(l) + max(0, len(r) - eq) + max([len(_classes(s)[0]) for s in p["cols"]] + [0]) + 1


def cases(cid, aut, pairs):
    """pairs: dict(l, r, ren, cols). The pairs are grouped by the grid they need."""
    by = {}
    for p in pairs:
        p.setdefault("found", 1)
        p.setdefault("asked", 0)
        by.setdefault(grid(p), []).append(p)
    return [dict(id=f"{cid}/g{k}", K=k, aut=ta._convert(aut, k * aut["d"], 0, caps=False), pairs=ps) for k, ps in sorted(by.items())]


def recorded(x):
    """The pairs of a record of the driver "renaming"."""
    ps = [dict(l=x["rows"][p["i"] - 1], r=x["rows"][p["j"] - 1], ren=p["ren"], cols=x["cols"], found=p["found"], asked=p["asked"])
          for p in x["pairs"]]
    return [p for p in ps if grid(p) <= 7]
