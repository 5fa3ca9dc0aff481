"""Checks of the containers behind the chunk library: P09 (Cache / LRU), P10 (MemoryPool / Pool), P11 and P12 (RStarTree / SpatialIndex, RTree)."""
import random
from vlib import merge_ops


def flat(*vs):
    return " ".join(str(int(x)) for v in vs for x in (v if isinstance(v, (list, tuple)) else [v]))


class H:
    def __init__(self):
        self.ops = []

    def op(self, name, need, script_args, **ev):
        e = {"op": name}
        e.update(ev)
        self.ops.append({"script": name + " " + flat(*script_args), "ev": e, "need": need, "post": None})


def sample(hs, n, seed):
    """keep all short histories and a seeded sample of the others"""
    if len(hs) <= n:
        return hs
    r = random.Random(seed)
    hs = list(hs)
    r.shuffle(hs)
    hs.sort(key=len)
    k = n // 4
    rest = hs[k:]
    r.shuffle(rest)
    return hs[:k] + rest[:n - k]


# ------------------------------------------------------------------------------------------------ cache
class CacheH(H):
    def __init__(self, rng, depth):
        super().__init__()
        self.r, self.depth = rng, depth
        self.keys = []
        self.n = 0
        self.op("CNew", ["r"], [depth, rng.randrange(2)], depth=depth)

    def val(self):
        self.n += 1
        return self.n

    def obs(self, p=0.3):
        for name in ("CFree", "CAll", "CO2N", "CN2O"):
            if self.r.random() < p:
                self.op(name, ["v"], [])

    def full(self):
        return len(self.keys) >= self.depth

    def ins(self, k, v=None):
        v = self.val() if v is None else v
        name = self.r.choice(["CIns", "CInsRef"])
        self.op("CIns", ["r"], [k, v], k=k, v=v)
        self.ops[-1]["script"] = "%s %d %d" % (name, k, v)
        self.keys.append(k)

    def get(self, k):
        self.op("CGet", ["v"], [k], k=k)

    def set(self, k, v=None):
        v = self.val() if v is None else v
        self.op("CSet", ["r"], [k, v], k=k, v=v)

    def evict(self, k):
        self.op("CEvict", ["v"], [k], k=k)
        self.keys.remove(k)

    def old(self, order):
        self.op("COld", ["v"], [])
        self.keys.remove(order)


def cache_from_model(h, rng):
    c = CacheH(rng, h[0]["k"])
    order = []
    for s in h[1:]:
        k = s["k"]
        if s["op"] == "ins":
            c.ins(k)
            order.append(k)
        elif s["op"] in ("get", "set"):
            c.get(k) if s["op"] == "get" else c.set(k)
            order.remove(k)
            order.append(k)
        elif s["op"] == "evict":
            c.evict(k)
            order.remove(k)
        else:
            c.old(order[0])
            order.pop(0)
        c.obs(0.15)
    c.obs(1.0)
    for k in (1, 2, 3, 4):
        c.op("CHas", ["v"], [k], k=k)
    return c.ops


def cache_random(seed, steps, deep=False):
    r = random.Random("cache/%s" % seed)
    depth = r.choice([1, 2, 3, 4, 5, 8, 16]) if not deep else r.choice([33, 64, 130, 257])
    c = CacheH(r, depth)
    order = []
    universe = r.randrange(1, 3 * depth + 4)
    big = r.random() < 0.2
    key = lambda i: i if not big else (i * 2654435761) % 2147483647
    for _ in range(steps):
        x = r.random()
        k = key(r.randrange(universe))
        if x < 0.55:                                     # the way the chunk cache uses it
            if k in order:
                c.get(k) if r.random() < 0.6 else c.set(k)
                order.remove(k)
            else:
                if c.full():
                    c.old(order.pop(0))
                c.ins(k)
            order.append(k)
        elif x < 0.7 and order:
            k = r.choice(order)
            c.evict(k)
            order.remove(k)
        elif x < 0.8 and order:
            k = r.choice([order[0], order[-1], r.choice(order)])
            c.get(k)
            order.remove(k)
            order.append(k)
        elif x < 0.9:
            c.op("CHas", ["v"], [k], k=k)
        else:
            c.obs(0.4 if not deep else 0.1)
    c.obs(1.0)
    return c.ops


def p09(c):
    b = c.pool.submit(c.build, "index_driver.cc")
    c.assumptions = ["entries are inserted only when a slot is free and the key is not contained, looked up and evicted only when contained, as the class requires"]
    mc = c.pool.submit(c.model_check, "LRUList.tla", "LRUList.cfg", 4, 840, {"MaxOps": 30, "Depths": "{1, 2, 3, 4}", "Keys": "{1, 2, 3, 4, 5}"} if c.thorough else None)
    hs = c.histories("LRUList.tla", "LRUList.cfg", {"MaxOps": 9 if c.thorough else 7})
    c.extra["histories_enumerated_by_tlc"] = len(hs)
    hs = sample(hs, 12000 if c.thorough else 2500, c.seed)
    ops = [cache_from_model(h, random.Random("c/%s/%d" % (c.seed, i))) for i, h in enumerate(hs)]
    ops += [cache_random("%s/%d" % (c.seed, i), 120) for i in range(3000 if c.thorough else 300)]
    ops += [cache_random("deep/%s/%d" % (c.seed, i), 900, True) for i in range(40 if c.thorough else 8)]
    mc.result()
    return c.conform(b.result(), ops, merge_ops, "TraceLRU.tla", "TraceLRU.cfg", "cache")


# ------------------------------------------------------------------------------------------------ pool
class PoolH(H):
    def __init__(self, rng, init):
        super().__init__()
        self.r = rng
        self.live = {}
        self.n = 0
        self.op("PNew", ["r"], [init], init=init)

    def alloc(self, h):
        self.n += 1
        v = self.n if self.r.random() < 0.9 else 5
        self.op("PAlloc", ["s"], [h, v], v=v)
        self.live[h] = v

    def free(self, h):
        self.op("PFree", ["r", "s"], [h])
        del self.live[h]

    def look(self, p=0.3):
        for h in list(self.live):
            if self.r.random() < p:
                self.op(self.r.choice(["PGet", "PGet", "PSeat"]), ["v", "s"], [h])
        for n in ("PList", "PApply"):
            if self.r.random() < p:
                self.op(n, ["v"], [])

    def set(self, h):
        self.n += 1
        self.op("PSet", ["r", "s"], [h, self.n], v=self.n)

    def reset(self):
        self.op("PReset", ["r"], [])
        self.live.clear()

    def grow(self):
        self.op("PGrow", ["r"], [])


def pool_from_model(h, rng):
    p = PoolH(rng, h[0]["h"])
    for s in h[1:]:
        {"alloc": lambda: p.alloc(s["h"]), "free": lambda: p.free(s["h"]), "reset": p.reset, "grow": p.grow}[s["op"]]()
        p.look(0.1)
    p.look(1.0)
    return p.ops


def pool_random(seed, steps, many=False):
    r = random.Random("pool/%s" % seed)
    p = PoolH(r, r.choice([1, 1, 2, 3, 5, 8, 20]))
    hmax = 0
    bias = r.choice([0.45, 0.55, 0.7]) if not many else 0.8
    for _ in range(steps):
        x = r.random()
        if x < 0.75:
            if r.random() < bias or not p.live:
                hmax += 1
                p.alloc(hmax)
            else:
                hs = list(p.live)
                p.free(r.choice([hs[0], hs[-1], r.choice(hs)]))
        elif x < 0.83 and p.live:
            p.set(r.choice(list(p.live)))
        elif x < 0.97:
            p.look(0.15 if not many else 0.02)
        elif x < 0.985:
            if len(p.live) < 40 and not many:
                p.grow()
        elif not many or x > 0.999:
            p.reset()
    p.look(1.0)
    return p.ops


def p10(c):
    b = c.pool.submit(c.build, "index_driver.cc")
    c.assumptions = ["only slots in use are released or accessed", "the initial size is at least one slot"]
    mc = c.pool.submit(c.model_check, "PoolLists.tla", "PoolLists.cfg", 4, 840,
                       {"MaxOps": 40, "MaxCap": 8, "Handles": "{1, 2, 3, 4, 5}", "Inits": "{1, 2, 3}"} if c.thorough else None)
    hs = c.histories("PoolLists.tla", "PoolLists.cfg", {"MaxOps": 9 if c.thorough else 8})
    c.extra["histories_enumerated_by_tlc"] = len(hs)
    hs = sample(hs, 12000 if c.thorough else 2500, c.seed)
    ops = [pool_from_model(h, random.Random("p/%s/%d" % (c.seed, i))) for i, h in enumerate(hs)]
    ops += [pool_random("%s/%d" % (c.seed, i), 120) for i in range(3000 if c.thorough else 300)]
    ops += [pool_random("many/%s/%d" % (c.seed, i), 900, True) for i in range(40 if c.thorough else 8)]
    mc.result()
    return c.conform(b.result(), ops, merge_ops, "TracePool.tla", "TracePool.cfg", "pool")


# ------------------------------------------------------------------------------------------------ spatial index
class TreeH(H):
    def __init__(self, rng, dims):
        super().__init__()
        self.r, self.D = rng, dims
        self.ents = {}                   # name -> (s, e)
        self.n = 0
        self.top = 4
        self.last = []
        init = rng.choice([1, 2, 3, 10, 100])
        self.op("TNew", ["r"], [dims, init], dims=dims)

    def ins(self, name, s, e):
        self.n += 1
        self.op("TIns", ["r"], [s, e, self.n], s=list(s), e=list(e), v=self.n)
        self.ents[name] = (list(s), list(e))
        self.top = max([self.top] + [x + 1 for x in e])

    def insn(self, bs):
        """several insertions, one event"""
        out = []
        for name, (s, e) in bs:
            self.n += 1
            out.append(dict(s=list(s), e=list(e), v=self.n))
            self.ents[name] = (list(s), list(e))
            self.top = max([self.top] + [x + 1 for x in e])
        self.op("TInsN", ["r"], [len(out)] + [x for b in out for x in (b["s"], b["e"], b["v"])], b=out)

    def inside(self, name):
        s, e = self.ents[name]
        return [self.r.choice([a, b - 1, self.r.randrange(a, b)]) for a, b in zip(s, e)]

    def upd(self, name, s, e):
        x = self.inside(name)
        self.op("TUpd", ["r"], [x, s, e], x=x, s=list(s), e=list(e))
        self.ents[name] = (list(s), list(e))
        self.top = max([self.top] + [x + 1 for x in e])

    def point(self, x=None):
        r = self.r
        if x is None:
            if self.ents and r.random() < 0.75:
                x = self.inside(r.choice(list(self.ents)))
                if r.random() < 0.35:
                    i = r.randrange(self.D)
                    x[i] = max(0, x[i] + r.choice([-2, -1, 1, 2]))
            else:
                x = [r.randrange(self.top) for _ in range(self.D)]
        if r.random() < 0.15 and self.ents:
            self.n += 1
            self.op("TSet", ["r"], [x, self.n], x=x, v=self.n)
        else:
            self.op("TPt", ["r"], [x], x=x)
        self.last = self.last[-3:] + [x]

    def again(self):
        """the lookups made before, in particular the last one, which the index remembers"""
        for x in reversed(self.last):
            self.op("TPt", ["r"], [x], x=x)

    def box(self):
        r = self.r
        s, e = [], []
        for _ in range(self.D):
            a, b = r.randrange(self.top), r.randrange(self.top)
            if r.random() < 0.4:
                b = a + r.randrange(1, 3)
            a, b = min(a, b), max(a, b)
            s.append(a)
            e.append(max(b, a + 1))
        if r.random() < 0.3 and self.ents:
            s, e = [list(v) for v in self.ents[r.choice(list(self.ents))]]
        self.op("TBox", ["r"], [s, e], s=s, e=e)

    def obs(self, w):
        """w: op -> probability"""
        r = self.r
        if r.random() < w.get("pt", 0):
            for _ in range(r.randrange(1, 5)):
                self.point()
        if r.random() < w.get("box", 0):
            for _ in range(r.randrange(1, 3)):
                self.box()
        for k, n, need in (("all", "TAll", ["r"]), ("bb", "TBB", ["s", "e"]), ("empty", "TEmpty", ["r"]), ("dump", "TDump", ["t"])):
            if r.random() < w.get(k, 0):
                self.op(n, need, [])
        if r.random() < w.get("apply", 0) and self.ents:
            d = 100000
            self.op("TApply", ["r"], [d], d=d)
            self.n += d

    def rebuild(self):
        if self.ents:
            self.op("TRebuild", ["r"], [])
            self.again()

    def clear(self):
        if self.ents and self.r.random() < 0.8:
            self.point(self.inside(self.r.choice(list(self.ents)[-3:])))
        self.op("TClear", ["r"], [])
        self.ents.clear()
        self.again()


W11 = dict(pt=0.6, box=0.45, all=0.08, bb=0.05, empty=0.03, dump=0.02, apply=0.03)
W12 = dict(pt=0.15, box=0.08, all=0.04, bb=0.3, empty=0.05, dump=0.5, apply=0.01)


def tree_from_model(h, rng, w):
    """every interval of the model stands for a column of K boxes, so that the real fan-out is exceeded as in the model"""
    K = rng.choice([1, 4, 5, 7, 11])
    dims = rng.choice([2, 3])
    t = TreeH(rng, dims)
    S = rng.choice([1, 2, 5])
    off = rng.randrange(3)

    def real(s, e, k):
        lo, hi = [off + S * s, 3 * k], [off + S * e, 3 * k + rng.choice([1, 2, 3])]
        if dims == 3:
            lo.append(k % 2)
            hi.append(k % 2 + 1)
        return lo, hi
    cur = {}
    nid = 0
    for s in h:
        if s["op"] == "ins":
            nid += 1
            cur[nid] = (s["s"], s["e"])
            ks = list(range(K))
            rng.shuffle(ks)
            for k in ks:
                t.ins((nid, k), *real(s["s"], s["e"], k))
        elif s["op"] == "upd":
            n = [i for i, (a, b) in cur.items() if a <= s["x"] < b][0]
            cur[n] = (s["s"], s["e"])
            ks = list(range(K))
            rng.shuffle(ks)
            for k in ks:
                lo, hi = real(s["s"], s["e"], k)
                a, b = t.ents[(n, k)]
                lo[1:], hi[1:] = a[1:], b[1:]
                t.upd((n, k), lo, hi)
        elif s["op"] == "find":
            k = rng.randrange(K)
            x = [off + S * s["x"], 3 * k] + ([k % 2] if dims == 3 else [])
            t.point(x)
        elif s["op"] == "rebuild":
            t.rebuild()
        else:
            t.clear()
            cur.clear()
        t.obs(w)
    t.obs(dict(pt=1, box=1, all=1, bb=1, empty=1, dump=1))
    return t.ops


def tree_random(seed, w, n=None, steps=60):
    r = random.Random("tree/%s" % seed)
    dims = r.choice([1, 2, 2, 3, 3, 3])
    t = TreeH(r, dims)
    side = {1: [30, 120], 2: [6, 14], 3: [3, 6]}[dims]
    if n and n > 300:
        side = {1: [n, n + 1], 2: [36, 40], 3: [11, 13]}[dims]
    cells = [r.randrange(side[0], side[1]) for _ in range(dims)]
    C = r.choice([1, 2, 4, 7, 100])                    # cell size
    grid = []

    def idx(k):
        out = []
        for m in cells:
            out.append(k % m)
            k //= m
        return out
    tot = 1
    for m in cells:
        tot *= m
    order = list(range(tot))
    mode = r.choice(["fwd", "back", "shuffle", "shuffle", "blocks"])
    if mode == "back":
        order.reverse()
    elif mode == "shuffle":
        r.shuffle(order)
    elif mode == "blocks":
        order.sort(key=lambda k: (sum(idx(k)), k))
    lim = n or r.choice([9, 12, 25, 60, 110])
    order = order[:lim]
    tight = r.random() < 0.5                            # boxes fill their cells (a tiling)
    base = [r.choice([0, 0, 3, 1000]) for _ in range(dims)]

    def rbox(cell):
        s, e = [], []
        for c, b in zip(cell, base):
            lo = b + c * C
            if tight or C == 1:
                s.append(lo)
                e.append(lo + C)
            else:
                a = r.randrange(C)
                s.append(lo + a)
                e.append(lo + r.randrange(a + 1, C + 1))
        return s, e
    free = []
    while order or r.random() < 0.8:
        x = r.random()
        if x < 0.62 and order:
            if lim > 150:
                t.insn([(k, rbox(idx(k))) for k in order[:25]])
                del order[:25]
            for _ in range(r.choice([1, 1, 2, 6])):
                if order:
                    k = order.pop(0)
                    t.ins(k, *rbox(idx(k)))
        elif x < 0.8 and t.ents:
            k = r.choice(list(t.ents))
            if tight and C > 1:
                # a chunk that grows along one axis, the last cell of its row
                s, e = [list(v) for v in t.ents[k]]
                a = r.randrange(dims)
                cell = idx(k)
                if cell[a] == cells[a] - 1:
                    e[a] += r.randrange(1, 4)
                else:
                    e[a] = s[a] + r.randrange(1, C + 1)
                t.upd(k, s, e)
            else:
                t.upd(k, *rbox(idx(k)))
        elif x < 0.84:
            t.rebuild()
        elif x < 0.85:
            t.clear()
            if r.random() < 0.5 and len(order) > 3:
                order = order[:lim // 3]
        t.obs(w)
        if len(t.ops) > max(700, 4 * lim):
            break
    t.obs(dict(pt=1, box=1, all=1, bb=1, empty=1, dump=1))
    return t.ops


def trees(c, w, n, nbig):
    b = c.pool.submit(c.build, "index_driver.cc")
    c.assumptions = ["boxes are non-empty and pairwise disjoint, as chunks are", "no resize or bulk rebuild is requested of an empty index",
                     "a resized box is named by one of the points it contains"]
    mcs = [c.pool.submit(c.model_check, "RTree.tla", "RTree.cfg", 4, 840, k) for k in
           ([{"MaxOps": 6}, {"Max": 2, "MaxOps": 6}] if not c.thorough else [{"MaxOps": 9}, {"Max": 2, "MaxOps": 8}, {"Max": 4, "Min": 2, "MaxEnts": 6, "Width": 6, "MaxOps": 8}])]
    hs = c.histories("RTree.tla", "RTree.cfg", {"MaxOps": 5 if c.thorough else 4, "Max": 2})
    c.extra["histories_enumerated_by_tlc"] = len(hs)
    hs = sample(hs, 3000 if c.thorough else n, c.seed)
    ops = [tree_from_model(h, random.Random("t/%s/%d" % (c.seed, i)), w) for i, h in enumerate(hs)]
    ops += [tree_random("%s/%d" % (c.seed, i), w) for i in range((1500 if c.thorough else nbig))]
    ops += [tree_random("big/%s/%d" % (c.seed, i), {k: v * 0.3 for k, v in w.items()}, 260) for i in range(40 if c.thorough else 10)]
    ops += [tree_random("huge/%s/%d" % (c.seed, i), {k: v * 0.2 for k, v in w.items()}, 1250) for i in range(20 if c.thorough else 4)]
    for m in mcs:
        m.result()
    return c.conform(b.result(), ops, merge_ops, "TraceTree.tla", "TraceTree.cfg", "tree", heap="3g")


def p11(c):
    return trees(c, W11, 500, 200)


def p12(c):
    return trees(c, W12, 400, 160)
