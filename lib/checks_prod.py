"""Check of the production of Green's functions from simulations, P28, against Production, MCProd and TraceProd.  MEEP itself is
replaced by drivers/stub/meep.hpp, whose fields are prescribed by the specification."""
import os, random
from vlib import DRV, REPO, merge_ops
from checks_index import H, sample

MEEP = ["-I" + os.path.join(REPO, "eisvogel/meep"), "-I" + os.path.join(REPO, "eisvogel/meep/impl"), "-I" + os.path.join(DRV, "stub")]


def boxes(r, nz, nr, most=6):
    """a division of the simulation volume into boxes"""
    bs = [(0, nz, 0, nr)]
    for _ in range(r.randrange(0, most)):
        i = r.randrange(len(bs))
        z0, z1, r0, r1 = bs[i]
        ax = r.choice([0, 1])
        if (z1 - z0 if ax == 0 else r1 - r0) < 2:
            continue
        if ax == 0:
            c = r.randrange(z0 + 1, z1)
            bs[i:i + 1] = [(z0, c, r0, r1), (c, z1, r0, r1)]
        else:
            c = r.randrange(r0 + 1, r1)
            bs[i:i + 1] = [(z0, z1, r0, c), (z0, z1, c, r1)]
    r.shuffle(bs)
    return bs


def field(r):
    m = r.choice([3, 7, 9, 13, 17, 31])
    co = [[r.randrange(m) for _ in range(3)] + [r.choice([0, 1, 2]), r.randrange(m)] for _ in range(2)]
    if r.random() < 0.15:
        co[r.randrange(2)] = [0, 0, 0, 0, m // 2]                 # this component is zero
    bs = r.choice([0, 0, 2, 5])
    return dict(co=co, m=m, arr=r.choice([0, 0, 0, 1, 2]), bs=bs, be=bs + r.choice([0, 3, 6]), gain=r.choice([1, 2, 4]) if m <= 17 else 1)


class Job:
    """everything that determines what is produced, except for how the work is shared"""
    def __init__(self, r):
        self.nz, self.nr = r.choice([4, 8, 8, r.randrange(3, 11)]), r.choice([4, 8, 8, r.randrange(3, 9)])
        if r.random() < 0.2:                                       # long ones, where positions in units of cells get rounded
            self.nz, self.nr = r.randrange(11, 48), r.randrange(2, 4)
            if r.random() < 0.5:
                self.nz, self.nr = self.nr, self.nz
        self.res = r.choice([1, 2, 4, 0.5])
        self.cell = int(4096 / self.res)
        self.zmin = self.cell * r.choice([0, 0, -2, -self.nz, 3, -100])
        self.ds = r.choice([1, 1, 2, 2, 3])
        self.ov = r.choice([0, 1, 1, 2, 2, 3])
        need = 8 * self.ds
        def span(n):
            if r.random() < 0.35 or 8 * n <= need + 8:
                return 0, 8 * n
            w = r.randrange(need + 8, 8 * n + 1)
            a = r.randrange(0, 8 * n - w + 1)
            if r.random() < 0.6:
                a, w = 8 * (a // 8), max(8, 8 * (w // 8))
            return a, a + w
        a, b = span(self.nr)
        if r.random() < 0.4:
            a, b = 0, b - a
        c, d = span(self.nz)
        self.q = [a, b, c, d]
        self.nt = r.randrange(2, 8)
        self.dt = int(64 / self.res * 0.5)                         # courant factor 1/2
        self.ts = r.choice([self.dt, self.dt, 2 * self.dt, 3 * self.dt, self.dt + 5, max(1, self.dt // 2)])
        self.tend = (self.nt - 1) * self.ts + r.choice([0, 0, r.randrange(0, self.ts)])
        self.dyn = r.choice([1, 2, 2, 3, 4, 5, 8, 50])
        self.amin = r.choice([0, 0, 1, 2, 3, 6, 10])
        self.f = field(r)
        self.bx = boxes(r, self.nz, self.nr)
        self.whole = 1
        self.pre = 0


class PH(H):
    def gen(self, id, j, r, key, jobs=None, csh=None, schedule=None, owners=None):
        jobs = jobs or r.choice([1, 1, 2, 2, 3, 4])
        csh = csh or r.choice([1, 2, 2, 3, 4, 20])
        owners = owners or [r.randrange(jobs) for _ in j.bx]
        cache, ct, cl = r.choice([0, 1, 2, 5]), r.choice([1, 2, 3, 20]), r.choice([1, 2, 3, 20])
        stale, other = r.choice([0, 0, 0, 1]), r.choice([0, 0, 0, 1])
        if schedule is None:
            schedule = [[0] * 6 for _ in range(jobs)]
            if jobs > 1 and r.random() < 0.5:
                for s in schedule:
                    for b in range(6):
                        s[b] = r.choice([0, 0, 0, 0, 12])
        f = j.f
        ev = dict(nz=j.nz, nr=j.nr, cell=j.cell, zmin=j.zmin, q=j.q, ds=j.ds, ov=j.ov, dt=j.dt, ts=j.ts, tend=j.tend, dyn=j.dyn, amin=j.amin,
                  csh=csh, whole=j.whole, pre=j.pre, key=key, **f)
        need = ["r", "files", "left", "ch", "sh", "s", "e"] if self.ok(j) else ["r", "files"]
        self.op("MGen", need, [], **ev)
        x = j.cell / 4096.0
        zm = j.zmin / 4096.0
        rmax, zmax = j.nr * x, zm + j.nz * x
        if not j.whole:
            if r.random() < 0.5:
                rmax += x / 2
            else:
                zmax += x / 2
        a = [id, jobs, j.pre, stale, other, float(j.res), zm, rmax, zmax, j.q[0] / 8 * x, j.q[1] / 8 * x, zm + j.q[2] / 8 * x, zm + j.q[3] / 8 * x,
             j.tend / 64, j.ts / 64, 0.5, j.ds, float(j.dyn), j.amin / 2, j.ov, csh, cache, ct, cl] + f["co"][0] + f["co"][1]
        a += [f["m"], f["arr"], f["bs"], f["be"], f["gain"], len(j.bx)]
        for b, o in zip(j.bx, owners):
            a += list(b) + [o]
        a += [d for s in schedule for d in s]
        self.ops[-1]["script"] = "MGen " + " ".join(repr(float(v)) if isinstance(v, float) else str(v) for v in a)

    @staticmethod
    def ok(j):
        return j.whole and j.pre != 2 and 0 <= j.q[0] < j.q[1] <= 8 * j.nr and 0 <= j.q[2] < j.q[3] <= 8 * j.nz


def rand_hist(r):
    h = PH()
    j = Job(r)
    for n in range(r.choice([1, 2, 3])):
        if n and r.random() < 0.3:
            j.bx = boxes(r, j.nz, j.nr)                            # another division: comparable only by value
            h.gen(n, j, r, 100 + n)
        else:
            h.gen(n, j, r, 0 if n == 0 or j.bx is first else 200 + n)
        if n == 0:
            first = j.bx
    return h


def refused(r):
    h = PH()
    j = Job(r)
    kind = r.randrange(4)
    if kind == 0:
        j.whole = 0
    elif kind == 1:
        j.pre = 2
    elif kind == 2:
        j.q[r.choice([1, 3])] += 8 * 12
    else:
        a = r.choice([0, 2])
        j.q[a + 1] = j.q[a]
    h.gen(0, j, r, 0)
    j2 = Job(r)
    j2.pre = r.choice([0, 1])
    h.gen(1, j2, r, 1)
    return h


def from_model(hist, r, jobs):
    """a schedule and a division found by the model: along z, with the last job to arrive at each barrier being slow before it"""
    j = Job(r)
    n = hist["cuts"][-1]
    scale = max(1, j.nz // n)
    ends = [c * scale for c in hist["cuts"]]
    ends[-1] = j.nz
    j.bx = [(a, b, 0, j.nr) for a, b in zip([0] + ends, ends)]
    late = [hist["late"][str(b)] if isinstance(hist["late"], dict) else hist["late"][b] for b in range(5)]
    schedule = [[12 if b < 5 and late[b] == k else 0 for b in range(6)] for k in range(jobs)]
    h = PH()
    h.gen(0, j, r, 0, jobs=jobs, schedule=schedule, owners=hist["owner"])
    h.gen(1, j, r, 0, jobs=1)
    return h


def p28(c):
    c.assumptions += ["MEEP is replaced by a stand-in whose simulation chunks tile the volume and whose points are the cell centres; parallel jobs are processes",
                      "times and lengths are dyadic, so that the grid is exact"]
    r = random.Random(c.seed * 7919 + 28)
    jobs = 2
    hs = c.histories("MCProd.tla", "MCProd.cfg", {})
    if c.thorough:
        c.model_check("MCProd.tla", "MCProd.cfg", workers=8, consts={"Jobs": 3, "Cells": 3, "Samples": 1}, heap="16g", timeout=3000)
        c.model_check("MCProd.tla", "MCProd.cfg", workers=8, consts={"Jobs": 2, "Cells": 4, "Samples": 2, "Part": 2}, heap="16g", timeout=3000)
    b = c.build("meep_driver.cc", extra=MEEP)
    hs = [h for _, h in sorted((str(h), h) for h in hs)]
    sel = sample(hs, 400 if c.thorough else 60, c.seed)
    ok = c.conform(b, [from_model(h, r, jobs).ops for h in sel], merge_ops, "TraceProd.tla", "TraceProd.cfg", "schedules")
    if ok:
        n = 3000 if c.thorough else 260
        ok = c.conform(b, [rand_hist(r).ops for _ in range(n)], merge_ops, "TraceProd.tla", "TraceProd.cfg", "random")
    if ok:
        n = 400 if c.thorough else 40
        ok = c.conform(b, [refused(r).ops for _ in range(n)], merge_ops, "TraceProd.tla", "TraceProd.cfg", "refused")
    return ok
