"""Checks of the distributed-array properties P01-P08 and P19: specification DistArray / ChunkStore, driver dist_driver.cc."""
import random
import distgen
from distgen import Gen, Hist, prod
from vlib import merge_ops

TRACE = ("TraceDist.tla", "TraceDist.cfg")


def drivers(c, want=("d32",)):
    conf = {"d32": ("-DDIMS=3", "-DVEC=2"), "d21": ("-DDIMS=2", "-DVEC=1")}
    futs = {k: c.pool.submit(c.build, "dist_driver.cc", conf[k]) for k in want}
    return futs


def large(seed, kind):
    """many chunks (the index and the entry pool have to grow), or one chunk larger than the initial buffers"""
    r = random.Random("large/%s/%s" % (seed, kind))
    h = Hist(r, 3, 2)
    if kind == "many":
        n = [r.randrange(5, 8), r.randrange(5, 7), r.randrange(4, 6)]
        h.new(1, None, r.choice([0, 1, 3, 7]))
        idx = [[i, j, k] for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
        order = r.choice(["shuffle", "forward", "backward"])
        if order == "shuffle":
            r.shuffle(idx)
        elif order == "backward":
            idx.reverse()
        for q, x in enumerate(idx):
            h.reg(1, [2 * x[0], x[1], x[2]], [2 * x[0] + 1, x[1] + 1, x[2] + 1])
            if q % 40 == 7:
                h.rnd_get(1)
        r.shuffle(idx)
        for q, x in enumerate(idx):
            h.app(1, 1, [2 * x[0] + 1, x[1], x[2]], [1, 1, 1], 1)
            for ch in h.obj[1]["ch"]:
                if ch["s"] == [2 * x[0], x[1], x[2]]:
                    ch["e"][0] += 1
            if q % 17 == 3:
                h.rnd_get(1)
        h.shape(1)
        h.rnd_fill(1, whole=True)
        h.loop(1)
        h.flush(1)
        h.dump(1)
        d = h.close(1)
        h.new(1, d, 2)
        h.rnd_fill(1, whole=True)
        h.rebuild(1, [r.randrange(2, 5) for _ in range(3)], 1, 1, "genl")
        h.rnd_fill(1, whole=True)
        h.dump(1)
        h.loop(1)
    else:
        sh = [r.randrange(20, 26), r.randrange(18, 22), r.randrange(12, 16)]
        h.new(1, None, r.choice([0, 1, 2]), r.choice([[1, -1, -1], [-1, -1, 2], [7, 5, 4], [1, 1, -1]]))
        d = h.data(prod(sh), r.choice([0, 0.5, 0.9]))
        h.reg(1, [0, 0, 0], sh, 0, 0, d=d)
        h.rnd_get(1)
        h.flush(1)
        h.dump(1)
        if h.obj[1]["ser"][0] == 1:
            h.app(1, 1, [sh[0], 0, 0], [2, sh[1], sh[2]], 1)
            h.obj[1]["ch"][0]["e"][0] += 2
        h.fill(1, [1, 2, 3], [sh[0] - 1, 5, sh[2]], [0, 0, 0], [sh[0] - 2, 3, sh[2] - 3])
        dd = h.close(1)
        h.new(1, dd, 1)
        for _ in range(5):
            h.rnd_get(1)
        h.swap(1, 1, 2)
        for _ in range(4):
            h.rnd_get(1)
        dd = h.close(1)
        h.new(1, dd, 1)
        for _ in range(6):
            h.rnd_get(1)
        h.shape(1)
    return h.ops


def store_hists(c, keep, n, seed, consts=None):
    """histories enumerated by TLC from ChunkStore, mapped to the real array"""
    k = {"MaxOps": 4 if not c.thorough else 5}
    k.update(consts or {})
    hs = c.histories("ChunkStore.tla", "ChunkStore.cfg", k)
    hs = [h for h in hs if keep([s["op"] for s in h])]
    total = len(hs)
    r = random.Random("store/%s" % seed)
    if len(hs) > n:
        # all the shorter ones first, then a sample
        r.shuffle(hs)
        hs.sort(key=len)
        short = [h for h in hs if len(h) <= 4][: n // 3]
        rest = hs[len(short):]
        r.shuffle(rest)
        hs = short + rest[: n - len(short)]
    c.extra.setdefault("histories_enumerated_by_tlc", 0)
    c.extra["histories_enumerated_by_tlc"] += total
    c.extra["histories_replayed_from_tlc"] = c.extra.get("histories_replayed_from_tlc", 0) + len(hs)
    return [distgen.from_store_history(h, random.Random("m/%s/%d" % (seed, i))) for i, h in enumerate(hs)]


def lineages(n):
    def f(c):
        return [distgen.lineage(random.Random("lin/%s/%d" % (c.seed, i))) for i in range(n * (12 if c.thorough else 1))]
    return f


def multiaxes(n):
    def f(c):
        return [distgen.multiaxis(random.Random("max/%s/%d" % (c.seed, i))) for i in range(n * (12 if c.thorough else 1))]
    return f


def volumes(c):
    """an array of more than 2^16 elements, in few chunks"""
    r = random.Random("vol/%s" % c.seed)
    h = Hist(r, 3, 2)
    h.new(1, None, 1)
    n = r.choice([66, 70])
    for k in r.sample([0, 1], 2):
        s, e = [0, 16 * k, 0], [n, 16 * k + 16, 33]
        h.reg(1, s, e, 0, 1, d=[0] * prod([y - x for x, y in zip(s, e)]))
        h.shape(1)
    h.get(1, [r.randrange(0, n), r.randrange(0, 32), 32])
    d = h.close(1)
    h.new(1, d, 1)
    h.shape(1)
    return [h.ops]


def both(*fs):
    def f(c):
        return [h for g in fs for h in g(c)]
    return f


def run(c, weights, gen=None, n=350, store=None, mc=None, mc_store=True, big=(), with2d=True, n2=120, extra=None):
    gen = dict(gen or {})
    want = ["d32"] + (["d21"] if with2d else [])
    futs = drivers(c, want)
    scale = 12 if c.thorough else 1
    jobs = []
    if mc_store:
        jobs.append(c.pool.submit(c.model_check, "ChunkStore.tla", "ChunkStore.cfg", 4, 840, {"MaxOps": 9 if c.thorough else 6}))
    if mc:
        jobs.append(c.pool.submit(c.model_check, "MCDistArray.tla", "MCDistArray.cfg", 4, 840, mc(c)))
    hs = []
    sf = None
    if store:
        sf = c.pool.submit(store_hists, c, store[0], store[1] * (8 if c.thorough else 1), c.seed, store[2] if len(store) > 2 else None)
    g = Gen(c.seed, 3, 2, weights, **gen)
    hs += [g.history(i) for i in range(n * scale)]
    for k in big:
        hs.append(large(c.seed, k))
    if extra:
        hs += extra(c)
    if sf:
        hs += sf.result()
    for j in jobs:
        j.result()
    c.log("design specification checked; %d histories generated" % len(hs))
    b = futs["d32"].result()
    ok = c.conform(b, hs, merge_ops, TRACE[0], TRACE[1], "d32", heap="3g")
    if ok and with2d:
        gen2 = dict(gen)
        gen2["layouts"] = None
        if gen2.get("evs") == ("cyl",):
            gen2["evs"] = ("genl",)
        g2 = Gen(c.seed + 1000, 2, 1, weights, **gen2)
        ok = c.conform(futs["d21"].result(), [g2.history(i) for i in range(n2 * scale)], merge_ops, TRACE[0], TRACE[1], "d21", heap="3g")
    return ok


ASSUME = [
    "values used are non-negative integers < 1000 per vector component (exactly representable); chunk sizes are small except in the dedicated large histories",
    "appends are issued at the end of an existing chunk without margin, along an axis the on-disk layout of the array supports",
    "regions registered or imported do not overlap (the precondition of the implementation)",
    "the directory image taken after a public call returned is what a crash at that point leaves behind; loss of data the operating system has accepted is not modelled",
]


def p01(c):
    c.assumptions = ASSUME
    return run(c, dict(reg=12, app=14, get=18, fill=6, flush=3, reopen=1, move=1, imp=1, rebuild=1, part=1, swap=1, crash=0),
               store=(lambda o: o[-1] in ("read", "app", "flush", "regz", "reg") and "crash" not in o, 250), big=("many", "one"),
               extra=multiaxes(80))


def p02(c):
    c.assumptions = ASSUME
    return run(c, dict(reg=12, app=12, get=8, fill=2, flush=4, reopen=6, crash=7, move=1, imp=1, rebuild=1, part=1, swap=1),
               store=(lambda o: "crash" in o or "reopen" in o, 350), big=("many",), extra=both(lineages(80), multiaxes(40)))


def p03(c):
    c.assumptions = ASSUME
    return run(c, dict(reg=12, app=8, get=6, fill=2, flush=2, reopen=2, move=6, imp=9, rebuild=1, part=1, swap=1, crash=1),
               mc=lambda c: {"MaxLevel": 7 if c.thorough else 6}, mc_store=False, n=400,
               store=(lambda o: "import" in o, 150), extra=lineages(200))


def p04(c):
    c.assumptions = ASSUME
    return run(c, dict(reg=10, app=5, get=2, fill=1, flush=1, reopen=1, rebuild=7, part=9, swap=1, imp=1),
               gen=dict(steps=16, maxext=5, maxov=2, csh_max=5), mc=lambda c: {"MaxLevel": 7 if c.thorough else 6}, mc_store=False, n=330)


def p05(c):
    c.assumptions = ASSUME
    return run(c, dict(reg=11, app=8, get=8, fill=3, flush=2, reopen=2, swap=9, shape=2, rebuild=1, move=1),
               mc=lambda c: {"MaxLevel": 7 if c.thorough else 6}, mc_store=False, n=380,
               store=(lambda o: "swap" in o, 200), big=("one",))


def p06(c):
    c.assumptions = ASSUME
    return run(c, dict(reg=12, app=10, get=1, fill=1, shape=16, bad=8, flush=1, reopen=2, imp=2, rebuild=2, swap=2, move=1, loop=0, check=0),
               gen=dict(gaps=0.5, steps=34), mc=lambda c: {"MaxLevel": 7 if c.thorough else 6}, mc_store=False, n=500, extra=volumes)


def p07(c):
    c.assumptions = ASSUME
    return run(c, dict(reg=14, app=6, get=8, fill=5, flush=2, reopen=3, move=2, imp=3, swap=3, bad=4, rebuild=4, part=4, loop=2),
               gen=dict(opt=0.85, pz=0.9), n=380, store=(lambda o: "regz" in o, 200))


def p08(c):
    c.assumptions = ASSUME + ["the array is contiguous and starts at the origin, as the loop requires"]
    return run(c, dict(reg=14, app=9, get=3, fill=1, loop=16, rebuild=4, swap=2, reopen=1, imp=2, flush=1),
               gen=dict(offset=0.0, gaps=0.05, ov=0.3, opt=0.5), mc=lambda c: {"MaxLevel": 6}, mc_store=False, n=420, big=("many",))


def p19(c):
    c.assumptions = ASSUME + ["the array starts at r = 0, as a cylindrical field does"]
    return run(c, dict(reg=10, app=3, get=1, fill=1, flush=0, rebuild=9, part=9, swap=0, check=0, bad=0, imp=0),
               gen=dict(offset=0.0, evs=("cyl",), maxov=3, maxext=5, csh_max=5, steps=14, ov=0.05), mc=lambda c: {"MaxLevel": 6}, mc_store=False, n=380,
               with2d=False)
