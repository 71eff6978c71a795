"""Which generated target automata a check uses.  The pools are numbered generator seeds; VERIF_SEED
selects a window in each pool.  Pools were vetted on the unchanged tree: a listed number is left out
because learning it there takes very long (it never gives a wrong answer)."""

POOL = dict(c1s=3000, c1m=1000, c1l=400, c2s=1500, c2m=600, c2c=800, c1w=800, c1x=800, c1n=800, c3s=800)
SKIP = dict(c1m={617, 707}, c1l={128, 204, 302, 348},
            c2s={430, 476, 480, 535, 575, 597, 613, 774, 818, 850, 930, 964, 1101, 1202, 1265, 1268, 1327, 1357, 1364, 1398, 1403, 1412, 1471, 1482},
            c2m={159, 253, 279, 477, 521, 579}, c2c={472},
            c1w={28, 43, 47, 95, 123, 180, 199, 379, 380, 411, 436, 455, 475, 599, 647, 719, 741},
            c1n={9, 114, 154, 427, 471, 513, 555, 735, 747},
            c3s={13, 25, 29, 33, 45, 60, 61, 85, 92, 93, 105, 113, 125, 129, 132, 137, 140, 141, 145, 149, 157, 161,
                 165, 173, 189, 193, 217, 221, 224, 229, 236, 245, 249, 253, 260, 261, 269, 271, 272, 276, 285, 289,
                 301, 313, 317, 320, 324, 325, 333, 337, 356, 361, 365, 381, 385, 395, 397, 400, 405, 421, 424, 429,
                 433, 437, 449, 461, 476, 485, 497, 501, 509, 525, 533, 541, 544, 549, 561, 565, 577, 595, 597, 609,
                 613, 624, 645, 656, 657, 684, 693, 697, 700, 701, 716, 724, 749, 753, 764, 765, 773, 793})


# with long counterexamples
LONG = dict(c1m={224, 919}, c2m={25, 579}, c1l={6, 84, 269, 270, 278, 382},
            c2s={452, 482, 578, 1161, 1265, 1268, 1357, 1364, 1403, 1471})


def window(fam, seed, count, long=False):
    """count numbers of the pool, as (from, to) ranges avoiding the skipped ones"""
    n = POOL[fam]
    start = (seed - 1) * 97 % n
    nums, i = [], start
    while len(nums) < min(count, n):
        k = i % n
        if k not in SKIP.get(fam, ()) and not (long and k in LONG.get(fam, ())):
            nums.append(k)
        i += 1
        if i - start > 2 * n:
            break
    nums.sort()
    out, a = [], None
    for k in nums:
        if a is not None and k == b:
            b += 1
            continue
        if a is not None:
            out.append((a, b))
        a, b = k, k + 1
    if a is not None:
        out.append((a, b))
    return out


def args(fam, seed, count, mode=0, long=False):
    return [f"{fam}:{a}:{b}:{mode}" for a, b in window(fam, seed, count, long)]


def learning(c, f=1.0):
    k = 6 if c.thorough else f
    r = ["named:0:0:0", "named:0:0:1"]
    r += args("c1s", c.seed, int(150 * k)) + args("c1s", c.seed + 7, int(50 * k), 1)
    r += args("c1m", c.seed, int(60 * k)) + args("c1l", c.seed, int(20 * k))
    r += args("c2s", c.seed, int(60 * k)) + args("c2m", c.seed, int(40 * k)) + args("c2c", c.seed, int(60 * k))
    r += args("c1w", c.seed, int(30 * k)) + args("c1x", c.seed, int(30 * k))
    r += args("c1n", c.seed, int(30 * k)) + args("c3s", c.seed, int(30 * k))
    return r
