"""Checks of the generation of showers (P32), against Shower, MCShower and TraceShower."""
import os, random
from vlib import DRV, REPO, merge_ops
from checks_index import H

EXT = ["-I" + os.path.join(REPO, "extern/shower_profile"), "-I" + os.path.join(REPO, "extern/utilities")] + \
      ["-I" + os.path.join(REPO, "extern/shower_profile", d) for d in ("shower_1D", "environment", "charge_excess_profile", "shower_creator")]
ZEN = [(0, 1, 1), (0, -1, 1), (1, 0, 1), (3, 4, 5), (4, 3, 5), (3, -4, 5), (5, 12, 13), (12, -5, 13)]
AZI = [(0, 1, 1), (1, 0, 1), (0, -1, 1), (-1, 0, 1), (3, 4, 5), (-3, 4, 5), (4, -3, 5), (-12, -5, 13)]


def profile(r, had, en):
    m = r.choice([1, 2, 3, 5, 8, 12])
    g, x = [], r.choice([1, 1, 15, 101, 255])
    for _ in range(m):
        g.append(x)
        x += 2 * r.randrange(1, 80)                                # odd: never reached exactly by a whole step
    q = [r.choice([0, r.randrange(50)])] + [r.randrange(50) for _ in range(m - 1)]
    return dict(had=had, en=en, g=g, q=q)


def history(r):
    h = H()
    for _ in range(r.choice([1, 1, 2])):
        lib = []
        energies = r.sample(range(1, 41), r.choice([1, 2, 3, 5]))
        for _ in range(r.choice([1, 2, 4, 8])):
            lib.append(profile(r, r.randrange(2), r.choice(energies)))
        h.op("CLib", ["r"], [len(lib)] + [[p["had"], p["en"], len(p["g"])] + p["g"] + p["q"] for p in lib], lib=lib)
        for _ in range(r.choice([3, 6])):
            had = r.choice(lib)["had"]
            mine = [p for p in lib if p["had"] == had]
            en = r.choice([r.choice(mine)["en"], r.randrange(1, 41), r.randrange(1, 41)])
            near = min(abs(p["en"] - en) for p in mine)
            sizes = [sum(1 for p in mine if p["en"] == e) for e in set(p["en"] for p in mine) if abs(e - en) == near]
            pick = -1 if r.random() < 0.35 else r.randrange(min(sizes))
            s = [8 * r.randrange(-12, 13) + r.choice([0, 0, 1, 5]) for _ in range(3)]
            z, a = r.choice(ZEN), r.choice(AZI)
            k, prior = r.choice([1, 1, 2, 3, 7, 16]), r.choice([0, 0, 1, 3])
            h.op("CShower", ["a", "b", "c", "d", "ok"], [had, en, pick, s, z[0], z[1], a[0], a[1], k, prior],
                 had=had, en=en, pick=pick, s=s, dir=dict(sz=z[0], cz=z[1], hz=z[2], sa=a[0], ca=a[1], ha=a[2]), k=k)
    return h.ops


def p32(c):
    c.assumptions = ["well-formed library files with at least one profile of the primary type; grammages increase and are positive",
                     "no track point falls exactly on a grammage of the profile (either side of a rounding is right there)"]
    mc = c.pool.submit(c.model_check, "MCShower.tla", "MCShower.cfg", 2, 840, {"MaxG": 40} if c.thorough else {"MaxG": 20})
    b = c.build("shower_driver.cc", extra=EXT)
    r = random.Random(c.seed * 7919 + 32)
    ok = c.conform(b, [history(r) for _ in range(4000 if c.thorough else 400)], merge_ops, "TraceShower.tla", "TraceShower.cfg", "showers")
    mc.result()
    return ok
