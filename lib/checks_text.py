"""Checks of special functions and the analytic dipole (P29), exported texts (P30), and what the simulation package is told about
geometry and antenna (P31), against Analytic, Export, Geometry and TraceText."""
import math, os, random, struct
from vlib import DRV, REPO, merge_ops
from checks_index import H

MEEP = ["-I" + os.path.join(REPO, "eisvogel/meep"), "-I" + os.path.join(REPO, "eisvogel/meep/impl"), "-I" + os.path.join(DRV, "stub")]
TRACE = ("TraceText.tla", "TraceText.cfg")


# ------------------------------------------------------------------------------------------------ texts
def floats(r, n, times=False):
    """bit patterns of normal numbers and zeros"""
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.12:
            b = r.choice([0, 0x80000000])
        elif k < 0.3:                                              # few digits: ties
            b = bits(r.choice([-1, 1]) * r.randrange(0, 4096) / 2.0 ** r.randrange(0, 12))
        elif k < 0.45:                                             # rounding up through nines
            b = bits(r.choice([-1, 1]) * (10.0 ** r.randrange(-6, 6)) * (1 - 2.0 ** -r.randrange(3, 24)))
        elif k < 0.9 or times:
            b = bits(r.choice([-1, 1]) * r.random() * 10.0 ** r.randrange(-8, 7))
        else:
            b = (r.randrange(2) << 31) | (r.randrange(1, 255) << 23) | r.randrange(1 << 23)
        if 0 < (b >> 23) & 255 < 255 or b & 0x7fffffff == 0:
            out.append(b)
        else:
            out.append(0x3f800000)
    return out


def bits(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def number(b):
    s, e, m = b >> 31, (b >> 23) & 255, b & 0x7fffff
    if e == 0:
        return [s, 0, 0]
    m |= 0x800000
    e -= 150
    while m % 2 == 0 and e < 0:                                    # fewer digits to multiply
        m //= 2
        e += 1
    return [s, m, e]


def texts(r):
    h = H()
    for _ in range(r.choice([1, 2, 3])):                           # the later ones overwrite the former
        n = r.choice([0, 1, 2, 3, 5])
        t, v = floats(r, n, True), floats(r, n)
        d = r.choice([0, 0, 0, 0, 1, 2])
        tp = 3 if d == 2 else r.choice([0, 1, 2, 3, 3, 5, 8, 12])
        vp = 15 if d else r.choice([0, 1, 2, 3, 6, 8, 15, 15, 20])
        h.op("XExport", ["o"], [n, tp, vp, d, t, v], t=[number(x) for x in t], v=[number(x) for x in v], tp=tp, vp=vp)
    return h.ops


def p30(c):
    b = c.build("text_driver.cc", extra=MEEP)
    r = random.Random(c.seed * 104729 + 30)
    return c.conform(b, [texts(r) for _ in range(6000 if c.thorough else 500)], merge_ops, *TRACE, "texts")


# ------------------------------------------------------------------------------------------------ geometry, antenna
def setup(r):
    h = H()
    small = [-5, -1, 0, 0, 1, 3, 64, 100]
    for _ in range(r.randrange(1, 6)):
        q = [r.choice(small), r.choice(small), r.choice([-200, -64, -1, 0, 1, 64]), r.choice([-200, -64, -1, 0, 1, 64])]
        if r.random() < 0.5:
            q = sorted(q[:2]) + sorted(q[2:])
        h.op("SRegion", ["r"] + (["e", "g"] if 0 <= q[0] <= q[1] and q[2] <= q[3] else []), [r.randrange(2), q], q=q)
    for _ in range(r.randrange(1, 5)):
        vol = [r.choice([-1, 0, 64, 200, 640]), r.choice([-640, -100, -1, 0, 64]), r.choice([-100, 0, 1, 64, 640])]
        qs = []
        for _ in range(r.randrange(0, 6)):
            near = lambda x: x + r.choice([-1, 0, 0, 0, 1, 5])
            lo, hi = sorted([max(0, near(r.choice([0, 0, vol[0] // 2]))), max(0, near(vol[0]))])
            a, e = sorted([near(vol[1]), near(vol[2])])
            qs.append([lo, hi, a, e])
        ps = [[r.randrange(0, 2000), r.randrange(-2000, 2000)] for _ in range(r.randrange(1, 5))]
        a, b = r.randrange(-9, 10), r.randrange(-9, 10)
        ok = vol[0] >= 0 and vol[1] <= vol[2]
        h.op("SVolume", ["r"] + (["g", "cn", "to", "from", "eps", "chi"] if ok else []), [vol, a, b, len(qs), qs_flat(qs), len(ps), qs_flat(ps)], vol=vol, a=a, b=b, qs=qs, ps=ps)
    for _ in range(r.randrange(1, 4)):
        s = r.randrange(-100, 300)
        e = s + r.choice([0, 1, 30, 300])
        vol = [r.choice([64, 128, 256]), r.choice([-256, -64, 0, 64]), 0]
        vol[2] = vol[1] + r.choice([64, 128, 320])
        z = r.randrange(vol[1], vol[2] + 1)
        fs = [r.randrange(-40, 41) for _ in range(r.choice([0, 1, 1, 2]))]
        p = [r.randrange(-20, 21), r.randrange(-20, 21)]
        ts = [s - 1, s, s + 1, e - 1, e, e + 1, 0] + [r.randrange(-200, 700) for _ in range(3)]
        h.op("SAntenna", ["own", "src", "n", "last", "int", "und", "c", "at"], [s, e, z, len(fs), fs, p, r.choice([1, 2, 4, 8]), vol, len(ts), ts],
             s=s, e=e, z=z, fs=fs, p=p, vol=vol, ts=ts)
    if r.random() < 0.3:
        res, nz, nr = r.choice([1, 2, 4, 8]), r.choice([4, 8]), r.choice([4, 8])
        zmin = r.choice([-128, 0, 64])
        zpos = zmin + r.randrange(0, nz * 64 // res + 1)
        s = r.randrange(-100, 100)
        e = s + r.choice([0, 1, 100])
        p0 = r.randrange(-20, 21)
        ts = [s - 1, s, s + 1, e - 1, e, e + 1]
        h.op("SRun", ["n", "src", "c", "at"], [res, nz, nr, zmin, zpos, s, e, p0, len(ts), ts], s=s, e=e, p0=p0, zmin=zmin, zpos=zpos, ts=ts)
    return h.ops


def qs_flat(qs):
    return [x for q in qs for x in q]


def p31(c):
    c.assumptions += ["MEEP is replaced by a stand-in that keeps a copy of the source it is given"]
    b = c.build("text_driver.cc", extra=MEEP)
    r = random.Random(c.seed * 15485863 + 31)
    return c.conform(b, [setup(r) for _ in range(8000 if c.thorough else 600)], merge_ops, *TRACE, "setup")


# ------------------------------------------------------------------------------------------------ special functions, dipole
def gammas(r, n):
    h = H()
    for _ in range(n):
        a = r.randrange(1, 10)
        z = r.choice([r.randrange(1, 200), r.randrange(1, 64 * 20), 64 * a + r.randrange(-3, 4), 64 + r.randrange(-2, 3)])
        z = max(1, z)
        h.op("AGamma", ["v"], [a, z], a=a, z=z)
    return h.ops


Y = lambda N: math.sqrt(2 ** (1 / (N + 1)) - 1)


def region(r):
    """a region, filter and oversampling for which the grid has many points at whole 64ths and robust numbers of points"""
    while True:
        N = r.choice([1, 2, 3, 4, 4, 6, 8])
        tp4 = r.choice([1, 2, 4, 8, 12, 20])
        n4 = r.choice([4, 4, 5, 6, 7, 8])
        ext = [r.choice([2, 4, 8, 16]) * 64, r.choice([2, 4, 8, 16]) * 64, r.randrange(4, 160) * 16]
        u = N * Y(N) / (math.pi * tp4 / 4)                        # steps per unit of time, without oversampling
        want = r.choice([4, 8, 8, 16])
        os_ = round(100 * (want + 0.5) / (ext[0] / 64 * u * n4 / 4))
        if not 20 <= os_ <= 20000:
            continue
        n = [ext[i] / 64 * u * os_ / 100 * (1 if i == 2 else n4 / 4) for i in range(3)]
        if not all(0.05 < x % 1 < 0.95 and 2 <= x < 40 for x in n):
            continue
        k = [int(x) for x in n]
        whole = [(ext[i] % k[i] == 0) for i in range(3)]
        if not all(whole) and r.random() < 0.97:
            continue
        if (k[0] + 1) * (k[1] + 1) * (k[2] + 1) > 6000:
            continue
        return N, tp4, n4, ext, os_, k


def dipoles(r, n):
    h = H()
    for _ in range(n):
        N, tp4, n4, ext, os_, k = region(r)
        r0 = r.choice([0, 0, 0, 64, 128, 192])
        z0 = r.choice([0, -ext[1], -ext[1] // 2, 64, 256, -ext[1] - 64])
        frm = [r0, z0, 0]
        upto = [r0 + ext[0], z0 + ext[1], ext[2]]
        nearest = math.hypot(r0, 0 if z0 <= 0 <= z0 + ext[1] else min(abs(z0), abs(z0 + ext[1])))
        rmin = r.choice([0, 1, 32, 64, 100, 200])
        grid = 1 if nearest > rmin and nearest > 0 and r.random() < 0.7 else 0
        pts, dist = [], []
        cand = []
        for i in range(k[0] + 1):
            for j in range(k[1] + 1):
                if (ext[0] * i) % k[0] or (ext[1] * j) % k[1]:
                    continue
                x, z = r0 + ext[0] * i // k[0], z0 + ext[1] * j // k[1]
                R = math.isqrt(x * x + z * z)
                if R * R == x * x + z * z or x * x + z * z < rmin * rmin:
                    cand.append((i, j, R if R * R == x * x + z * z else 0))
        axis = [q for q in cand if q[2] and (r0 + ext[0] * q[0] // k[0] == 0)]
        off = [q for q in cand if q not in axis]
        for _ in range(14):
            if not cand:
                break
            pool = off if off and (r.random() < 0.75 or not axis) else axis or cand
            i, j, R = r.choice(pool)
            t = r.randrange(k[2] + 1)
            front = R * n4 / 4 / (ext[2] / k[2])                  # where the signal arrives
            if r.random() < 0.6:
                t = min(k[2], max(0, int(front) + r.choice([0, 1, 1, 2, 3])))
            if 4 * ext[2] * t // k[2] - R * n4 > 25 * tp4 * 64 // N:   # long after
                t = min(k[2], int(front) + 2)
            pts.append([i, j, t])
            dist.append(R)
        pieces = lambda m: math.prod(-(-(x + 1) // m) for x in k)
        mx = r.choice([m for m in [2, 3, 4, 5, 7, 16, 45] if pieces(m) <= 150])
        rows = []
        if grid and mx < max(k) + 1 and r.random() < 0.5:              # between the grid points, compared with a production in one piece
            for _ in range(4):
                i, j = r.randrange(2 * k[0] + 1), r.randrange(2 * k[1] + 1)
                R = math.hypot(r0 + ext[0] * i / 2 / k[0], z0 + ext[1] * j / 2 / k[1]) / 64
                rows.append([i, j, round(20 + 3 * math.log2(R) + 2 * math.log2(n4 / 4) + 2)])
        h.op("ADipole", ["s", "e", "n", "old", "v", "w", "x", "y"],
             [], **{"from": frm, "upto": upto, "n4": n4, "tp4": tp4, "N": N, "rmin": rmin, "os": os_, "grid": grid, "pts": pts, "dist": dist})
        h.ops[-1]["script"] = "ADipole " + " ".join(str(x) for x in [r0, upto[0], z0, upto[1], upto[2], n4, tp4, N, rmin, repr(os_ / 100), mx, r.choice([0, 0, 1, 2]), grid, len(pts)] + qs_flat(pts) + [len(rows)] + qs_flat(rows))
    return h.ops


def p29(c):
    c.assumptions += ["special functions of integer order up to 9 and arguments up to 20, dipole fields at points whose distance is a whole number of 64ths",
                      "accuracy: 1/5000 (special function), 1/1000 and 1/20000 of the static field (dipole)"]
    b = c.build("text_driver.cc", extra=MEEP)
    r = random.Random(c.seed * 32452843 + 29)
    ok = c.conform(b, [gammas(r, 10) for _ in range(300 if c.thorough else 16)], merge_ops, *TRACE, "gamma")
    if ok:
        ok = c.conform(b, [dipoles(r, 1) for _ in range(2500 if c.thorough else 250)], merge_ops, *TRACE, "dipole")
    return ok
