"""Checks of the on-disk formats: P13 (streamed arrays) and P14 (bytes in files), against Streamer, Wire and TraceStreamer."""
import random
from vlib import merge_ops
from checks_index import H, sample

INF = -1


def prod(v):
    p = 1
    for x in v:
        p *= x
    return p


def s32(u):
    u &= 0xffffffff
    return u - (1 << 32) if u >= 1 << 31 else u


# bit patterns of ordinary floats (never -0, denormal, infinite or NaN: those only in dense mode)
def fbits(r):
    x = r.random()
    if x < 0.5:
        return s32((127 + r.randrange(0, 9)) << 23 | r.randrange(8) << 20)
    e = r.randrange(1, 255)
    return s32(r.randrange(2) << 31 | e << 23 | r.getrandbits(23))


def anybits(r):
    x = r.random()
    if x < 0.2:
        return r.choice([0, s32(0x80000000), 1, s32(0x80000001), s32(0x7f800000), s32(0xff800000), s32(0x7fc00000), s32(0x7fc12345), s32(0xffc00001)])
    return s32(r.getrandbits(32))


def vecs(r, n, comps, mode, zeros):
    """n vectors; runs of zero vectors; vectors that are partly zero"""
    out = []
    zero = r.random() < zeros
    for _ in range(n):
        if r.random() < 0.35:
            zero = r.random() < zeros
        if zero:
            v = [0] * comps
        else:
            v = [(anybits(r) if mode == 1 and r.random() < 0.2 else fbits(r)) for _ in range(comps)]
            if comps > 1 and r.random() < 0.3:
                v[r.randrange(comps)] = 0
        out += v
    return out


class S(H):
    def __init__(self, r, dims, n, buf=None):
        super().__init__()
        self.r, self.D, self.n = r, dims, n
        self.arr = {}          # file -> list of dicts ser, sh, fin
        self.op("SNew", ["r"], [dims, n, buf if buf is not None else r.choice([1, 2, 7, 100, 10000])], dims=dims, n=n)

    def ser(self, f, ser, sh, m, d, view=0):
        self.op("SSer", ["r"], [f, m, view, ser, sh, d], f=f, ser=ser, sh=sh, m=m, d=d)
        if any(x != INF for x in ser):
            self.arr.setdefault(f, []).append(dict(ser=ser, sh=list(sh), fin=not self.even(sh, ser)))

    @staticmethod
    def even(sh, ser):
        return all(c == INF or c >= x or x % c == 0 for x, c in zip(sh, ser))

    def extendable(self, f, ax, sh):
        a = self.arr[f][-1]
        c, x = a["ser"], a["sh"]
        return (not a["fin"] and all(i == ax - 1 or sh[i] == x[i] for i in range(self.D))
                and c[ax - 1] != INF and c[ax - 1] <= x[ax - 1] and x[ax - 1] % c[ax - 1] == 0
                and all(c[i] == INF or c[i] >= x[i] for i in range(ax - 1)))

    def app(self, f, ax, sh, m, d, view=0):
        self.op("SApp", ["r"], [f, ax, m, view, sh, d], f=f, ax=ax, sh=sh, m=m, d=d)
        if self.extendable(f, ax, sh):
            a = self.arr[f][-1]
            a["fin"] = not self.even(sh, a["ser"])
            a["sh"][ax - 1] += sh[ax - 1]
            return True
        return False

    def fin(self, f, k):
        self.op("SFin", ["r"], [f, k], f=f, k=k)
        self.arr[f][k - 1]["fin"] = True

    def read(self, f):
        self.op("SRead", ["a", "end"], [f], f=f)

    def words(self, f):
        self.op("SWords", ["w"], [f], f=f)

    def obs(self, f, wr, ww):
        if self.r.random() < wr:
            self.read(f)
        if self.r.random() < ww:
            self.words(f)


def from_model(h, r, wr, ww):
    D = len(h[0]["sh"])
    n = 1 if D != 2 and D != 3 else r.choice({2: [1, 3], 3: [1, 2]}[D])
    s = S(r, D, n)

    def data(o, base):
        # the pattern of zeros is the model's, the values are arbitrary
        out = []
        for k in range(1, prod(o["sh"]) + 1):
            p = o["p"]
            z = p == 1 or (p > 1 and (k + base) % p != 0)
            out += [0] * n if z else [fbits(r) for _ in range(n)]
        return out
    k = 0
    for o in h:
        k += 1
        if o["op"] == "ser":
            s.ser(1, o["ser"], o["sh"], o["m"], data(o, 10), r.randrange(2))
        elif o["op"] == "app":
            s.app(1, o["ax"], o["sh"], o["m"], data(o, 100 * (k - 1)), r.randrange(2))
        else:
            s.fin(1, 1)
        s.obs(1, wr if k < len(h) else 1, ww if k < len(h) else 0.5)
    s.words(1)
    return s.ops


def rlayout(r, D, sh=None, big=3):
    while True:
        c = [r.choice([INF, 1, 2, r.randrange(1, big + 2)]) for _ in range(D)]
        if any(x != INF for x in c):
            return c


def stream_random(seed, wr, ww):
    r = random.Random("stream/%s" % seed)
    D, n = r.choice([(1, 1), (2, 1), (2, 3), (3, 1), (3, 2), (3, 2), (4, 1)])
    s = S(r, D, n)
    lim = {1: 14, 2: 6, 3: 4, 4: 3}[D]
    nf = r.choice([1, 1, 2])
    for _ in range(r.randrange(3, 14)):
        f = r.randrange(1, nf + 1)
        x = r.random()
        zeros = r.choice([0.0, 0.3, 0.6, 0.9, 1.0])
        m = r.choice([1, 2, 2])
        if f not in s.arr or x < 0.25:
            sh = [r.randrange(1, lim + 1) for _ in range(D)]
            ser = [INF] * D if r.random() < 0.04 else rlayout(r, D, sh)
            s.ser(f, ser, sh, m, vecs(r, prod(sh), n, m, zeros), r.randrange(2))
            if f not in s.arr:
                continue
        elif x < 0.9:
            a = s.arr[f][-1]
            good = [ax for ax in range(1, D + 1) if s.extendable(f, ax, a["sh"])]
            ax = r.choice(good) if good and r.random() < 0.85 else r.randrange(1, D + 1)
            sh = list(a["sh"])
            c = a["ser"][ax - 1]
            sh[ax - 1] = c * r.randrange(1, 3) if c != INF and r.random() < 0.75 else r.randrange(1, lim + 1)
            if r.random() < 0.06 and D > 1:
                j = r.randrange(D)
                sh[j] += 1
            if prod(a["sh"]) > 400:
                continue
            s.app(f, ax, sh, m, vecs(r, prod(sh), n, m, zeros), r.randrange(2))
        elif x < 0.94:
            s.fin(f, r.randrange(1, len(s.arr[f]) + 1))
        s.obs(f, wr, ww)
    for f in s.arr:
        s.read(f)
        s.words(f)
    return s.ops


def stream_big(seed, kind):
    """single serialization chunks of more than 10000 (65536) words, runs of tens of thousands of null vectors, hundreds of appended slices"""
    r = random.Random("streambig/%s/%s" % (seed, kind))
    if kind == "long":
        s = S(r, 1, 1, r.choice([100, 10000, 100000]))
        k = r.randrange(66000, 72000)
        s.ser(1, [k], [k], 1, vecs(r, k, 1, 2, 0.2))
    elif kind == "null":
        s = S(r, 2, 1, r.choice([100, 10000]))
        sh = [2, r.randrange(33000, 36000)]
        d = [0] * prod(sh)
        for _ in range(3):
            d[r.randrange(len(d) - 300 if r.random() < 0.5 else 200)] = fbits(r)
        s.ser(1, r.choice([[2, INF], [1, INF]]), sh, 2, d)
    elif kind == "append":
        # one array that grows slice by slice, and a second one behind it
        s = S(r, 2, 1)
        w = r.randrange(1, 4)
        s.ser(1, [1, INF], [1, w], 2, vecs(r, w, 1, 2, 0.5))
        for k in range(r.randrange(260, 300)):
            rows = r.choice([1, 1, 1, 2])
            s.app(1, 1, [rows, w], r.choice([1, 2]), vecs(r, rows * w, 1, 2, 0.5))
            if k % 61 == 7:
                s.read(1)
        s.ser(1, [1, INF], [2, 2], 1, vecs(r, 4, 1, 1, 0.3))
    elif kind == "axis":
        # long along one axis, many serialization chunks
        s = S(r, 3, 2)
        sh = [r.randrange(1, 3) for _ in range(3)]
        sh[r.randrange(3)] = r.randrange(100, 400)
        s.ser(1, [r.choice([INF, 1, 3, 16, 64, 100]) if x > 2 else r.choice([1, INF]) for x in sh[:2]] + [r.choice([1, 7, 64])], sh, 2, vecs(r, prod(sh), 2, 2, 0.6))
        s.ser(2, rlayout(r, 3), sh, 1, vecs(r, prod(sh), 2, 1, 0.6))
        s.read(2)
    else:
        D, n = r.choice([(3, 2), (2, 3), (1, 1)])
        sh = {3: [3, 45, 40], 2: [60, 60], 1: [10700]}[D]
        s = S(r, D, n, 10000)
        ser = {3: [1, INF, INF], 2: [INF, 60], 1: [10700]}[D]
        m = 1 if kind == 0 else 2
        z = [0.0, 0.5, 0.98][kind % 3]
        s.ser(1, ser, sh, m, vecs(r, prod(sh), n, 2, z))
    s.read(1)
    s.words(1)
    return s.ops


# ------------------------------------------------------------------------------------------------ files made from the format
def zero(v):
    return all(x == 0 for x in v)


def segwords(r, vs, m, n):
    if m == 1:
        return [x for v in vs for x in v]
    out = []
    i = 0
    while i < len(vs):
        if zero(vs[i]):
            j = i
            while j < len(vs) and zero(vs[j]):
                j += 1
                if r.random() < 0.15:
                    break                      # runs may be split
            out += [0] * n + [j - i]
            i = j
        else:
            out += vs[i]
            i += 1
    return out


def boxes(sh, ser):
    c = [x if k == INF else k for x, k in zip(sh, ser)]
    out = [[]]
    for x, k in zip(sh, c):
        out = [b + [(i, min(i + k, x))] for b in out for i in range(0, x, k)]
    return out


def stored(r, ser, sh, n, d, m=None):
    """record of a stored array, and its words"""
    at = {}
    import itertools
    for k, x in enumerate(itertools.product(*[range(q) for q in sh])):
        at[x] = d[k * n:(k + 1) * n]
    segs = []
    for b in boxes(sh, ser):
        mm = m or r.choice([1, 2])
        vs = [at[x] for x in itertools.product(*[range(lo, hi) for lo, hi in b])]
        segs.append(dict(m=mm, w=segwords(r, vs, mm, n)))
    a = dict(ser=ser, sh=sh, fin=0 if S.even(sh, ser) else 1, segs=segs)
    return a


def num(k):
    return [-1, -1] if k == INF else [0, k]


def arrwords(a):
    w = []
    for k in a["ser"]:
        w += num(k)
    for k in a["sh"]:
        w += num(k)
    w += num(a["fin"])
    for g in a["segs"]:
        w += num(g["m"]) + num(len(g["w"])) + g["w"]
    return w


def put_random(seed):
    r = random.Random("put/%s" % seed)
    D, n = r.choice([(1, 1), (2, 1), (2, 3), (3, 1), (3, 2), (4, 1)])
    s = S(r, D, n)
    lim = {1: 14, 2: 6, 3: 4, 4: 3}[D]
    arrs, starts, w = [], [], []
    for _ in range(r.randrange(1, 4)):
        sh = [r.randrange(1, lim + 1) for _ in range(D)]
        ser = [INF] * D if r.random() < 0.2 else rlayout(r, D)
        a = stored(r, ser, sh, n, vecs(r, prod(sh), n, 2, r.choice([0, 0.4, 0.8])))
        if r.random() < 0.1:
            a["fin"] = 1
        starts.append(len(w))
        w += arrwords(a)
        arrs.append(a)
    s.op("SPut", ["r"], [1, len(arrs), starts, len(w), w], f=1, a=arrs, w=w)
    s.arr[1] = [dict(ser=a["ser"], sh=list(a["sh"]), fin=bool(a["fin"])) for a in arrs]
    s.read(1)
    # old files can be extended and finalised
    last = s.arr[1][-1]
    for ax in range(1, D + 1):
        c = last["ser"][ax - 1]
        if c == INF:
            continue
        sh = list(last["sh"])
        sh[ax - 1] = c
        m = r.choice([1, 2])
        s.app(1, ax, sh, m, vecs(r, prod(sh), n, m, 0.4))
        s.read(1)
    if r.random() < 0.3:
        s.fin(1, r.randrange(1, len(arrs) + 1))
    s.read(1)
    s.words(1)
    return s.ops


# ------------------------------------------------------------------------------------------------ values of the basic types
def W(*w):
    return dict(k="w", w=list(w))


def Str(b):
    return dict(k="s", b=list(b))


def Cat(*x):
    return dict(k="a", x=list(x))


def Vec(x):
    return dict(k="v", x=list(x))


def wordbytes(ws):
    out = []
    for w in ws:
        u = w & 0xffffffff
        out += [u >> 24, (u >> 16) & 255, (u >> 8) & 255, u & 255]
    return out


def tbytes(t):
    k = t["k"]
    if k == "w":
        return wordbytes(t["w"])
    if k == "s":
        return wordbytes([0, len(t["b"])]) + t["b"]
    if k == "n":
        return wordbytes([0, len(t["w"])]) + wordbytes(t["w"])
    if k == "v":
        return wordbytes([0, len(t["x"])]) + sum((tbytes(x) for x in t["x"]), [])
    if k == "a":
        return sum((tbytes(x) for x in t["x"]), [])
    return wordbytes([0, len(t["kk"])]) + sum((tbytes(x) for x in t["kk"]), []) + wordbytes([0, len(t["vv"])]) + sum((tbytes(x) for x in t["vv"]), [])


def toks(t):
    k = t["k"]
    if k == "w":
        return t["w"]
    if k == "s":
        return [len(t["b"])] + t["b"]
    if k == "n":
        return [len(t["w"])] + t["w"]
    if k == "v":
        return [len(t["x"])] + sum((toks(x) for x in t["x"]), [])
    if k == "a":
        return sum((toks(x) for x in t["x"]), [])
    return [len(t["kk"])] + sum((toks(a) + toks(b) for a, b in zip(t["kk"], t["vv"])), [])


def value(r, ty):
    u32 = lambda: W(r.choice([r.randrange(300), s32(r.getrandbits(32)), s32(r.getrandbits(r.randrange(1, 33)))]))
    u64 = lambda: W(r.choice([0, 0, r.randrange(5), s32(r.getrandbits(32)), -1]), r.choice([r.randrange(300), s32(r.getrandbits(32)), -1]))
    f32 = lambda: W(anybits(r))
    f64 = lambda: W(s32(r.getrandbits(32)), s32(r.getrandbits(32)))
    n = r.choice([0, 1, 2, 3, r.randrange(12)]) if r.random() < 0.97 else r.randrange(12, 160)
    string = lambda: Str([r.randrange(256) for _ in range(r.choice([0, 1, 5, r.randrange(40)]) if r.random() < 0.97 else r.randrange(40, 700))])
    floats = lambda k: dict(k="n", w=[anybits(r) for _ in range(k)])
    name = lambda: Str([r.choice(b"abcdef0123456789-") for _ in range(r.choice([0, 36, 36, 5]))])
    size = lambda: W(0, r.choice([r.randrange(1000), r.getrandbits(31)]))
    meta = lambda D: Cat(W(0, r.randrange(2)), name(), u32(), *([size() for _ in range(2 * D)] + [W(0, r.randrange(5))]))

    def mp(keys, val, srt):
        kk = []
        for _ in range(n):
            k = keys()
            if k not in kk:
                kk.append(k)
        kk.sort(key=srt)
        return dict(k="m", kk=kk, vv=[val() for _ in kk])
    un = lambda t: [x & 0xffffffff for x in t["w"]]
    return {"u32": u32, "u64": u64, "f32": f32, "f64": f64, "str": string, "vf32": lambda: floats(r.choice([0, 1, n, r.randrange(50)])),
            "vu64": lambda: Vec([u64() for _ in range(n)]), "vstr": lambda: Vec([string() for _ in range(n)]), "vf64": lambda: Vec([f64() for _ in range(n)]),
            "vvf32": lambda: Vec([floats(r.randrange(4)) for _ in range(n)]),
            "au32": lambda: Cat(u32(), u32(), u32()), "af32": lambda: Cat(f32(), f32()),
            "mu32f32": lambda: mp(u32, f32, un), "mstru64": lambda: mp(string, u64, lambda t: t["b"]),
            "mu64vf32": lambda: mp(u64, lambda: floats(r.randrange(4)), un),
            "V3u64": lambda: Cat(u64(), u64(), u64()), "V2f32": lambda: Cat(f32(), f32()), "vV2f32": lambda: Vec([Cat(f32(), f32()) for _ in range(n)]),
            "meta3": lambda: Vec([meta(3) for _ in range(n)]), "meta2": lambda: Vec([meta(2) for _ in range(n)]),
            "green": lambda: Cat(*[f32() for _ in range(9)])}[ty]()


TYPES = ["u32", "u64", "f32", "f64", "str", "vf32", "vu64", "vstr", "vf64", "vvf32", "au32", "af32", "mu32f32", "mstru64", "mu64vf32", "V3u64", "V2f32", "vV2f32",
         "meta3", "meta2", "green"]


class X(H):
    def put(self, ty, v, r):
        self.op("XEnc", ["b"], [], v=v)
        self.ops[-1]["script"] = "XEnc %s %s" % (ty, " ".join(map(str, toks(v))))
        fv = v
        if v["k"] == "m":
            o = list(range(len(v["kk"])))
            r.shuffle(o)
            fv = dict(k="m", kk=[v["kk"][i] for i in o], vv=[v["vv"][i] for i in o])
        tail = [r.randrange(256) for _ in range(r.randrange(4))]
        b = tbytes(fv) + tail
        self.op("XDec", ["o", "rest"], [], v=v, fv=fv, b=b, tail=tail)
        self.ops[-1]["script"] = "XDec %s %d %s" % (ty, len(b), " ".join(map(str, b)))


def values_random(seed):
    r = random.Random("val/%s" % seed)
    x = X()
    for _ in range(12):
        ty = r.choice(TYPES)
        x.put(ty, value(r, ty), r)
    return x.ops


def values_big(seed, k):
    r = random.Random("valbig/%s/%d" % (seed, k))
    x = X()
    x.put("vf32", dict(k="n", w=[fbits(r) for _ in range(k)]), r)
    return x.ops


# ------------------------------------------------------------------------------------------------ directories of chunks
def tiling(r, D, lim, nmax):
    """disjoint boxes tiling a region from the origin"""
    cuts = [sorted({0} | {r.randrange(1, lim + 1) for _ in range(r.choice([1, 2]))}) for _ in range(D)]
    import itertools
    out = []
    for x in itertools.product(*[range(len(c) - 1) for c in cuts]):
        out.append(([cuts[i][x[i]] for i in range(D)], [cuts[i][x[i] + 1] - cuts[i][x[i]] for i in range(D)]))
    return out[:nmax]


def dir_many(seed):
    """a directory of some hundred chunks, far from the origin"""
    r = random.Random("dirm/%s" % seed)
    s = S(r, 2, 1)
    ser = [1, INF]
    s.op("DNew", ["r"], [r.choice([0, 1, 30, 300]), ser], ser=ser)
    base = [r.choice([0, r.randrange(100000)]) for _ in range(2)]
    n = [r.randrange(12, 18), r.randrange(10, 15)]
    bx = [(base[0] + 2 * i, base[1] + j) for i in range(n[0]) for j in range(n[1])]
    r.shuffle(bx)
    for q, (i, j) in enumerate(bx):
        d = vecs(r, 2, 1, 2, r.choice([0, 1]))
        s.op("DReg", ["r"], [[i, j], 0, r.randrange(2), [2, 1], d], s=[i, j], sh=[2, 1], ov=0, d=d)
        if q in (40, 90):
            s.op("DFlush", ["r"], [])
            s.op("DScan", ["idx", "files"], [])
    s.op("DClose", ["r"], [])
    s.op("DScan", ["idx", "files"], [])
    s.op("DNew", ["r"], [r.choice([0, 30, 300]), ser], ser=ser)
    s.op("DGet", ["a"], [base, [base[0] + 2 * n[0], base[1] + n[1]]], s=base, e=[base[0] + 2 * n[0], base[1] + n[1]])
    return s.ops


def dir_write(seed):
    r = random.Random("dirw/%s" % seed)
    D, n = r.choice([(1, 1), (2, 1), (2, 3), (3, 2), (3, 2), (3, 1)])
    s = S(r, D, n)
    ser = rlayout(r, D)
    grow = r.random() < 0.4
    if grow:
        ser = [1] + [INF] * (D - 1)
    s.op("DNew", ["r"], [r.choice([0, 1, 3]), ser], ser=ser)
    bx = tiling(r, D, {1: 9, 2: 6, 3: 4}[D], 8)
    r.shuffle(bx)
    last = max(bx, key=lambda b: b[0][0])
    for st, sh in bx:
        ov = 0 if grow else r.choice([0, 0, 1, 2])
        ext = [x + 2 * ov for x in sh]
        d = vecs(r, prod(ext), n, 2, r.choice([0, 0.5, 1, 1]))
        s.op("DReg", ["r"], [st, ov, 0 if grow and st == last[0] else r.randrange(2), ext, d], s=st, sh=sh, ov=ov, d=d)
        if r.random() < 0.2:
            s.op("DFlush", ["r"], [])
            s.op("DScan", ["idx", "files"], [])
    if grow:
        st, sh = last
        grown = sh[0]
        for _ in range(r.randrange(3)):
            ssh = list(sh)
            ssh[0] = r.randrange(1, 3)
            d = vecs(r, prod(ssh), n, 2, 0.5)
            at = [st[0] + grown] + st[1:]                # the slice begins where the chunk ends
            grown += ssh[0]
            s.op("DApp", ["r"], [1, at, ssh, d], ax=1, s=st, sh=ssh, d=d)
            if r.random() < 0.5:
                s.op("DFlush", ["r"], [])
    s.op(r.choice(["DFlush", "DClose"]), ["r"], [])
    s.op("DScan", ["idx", "files"], [])
    return s.ops


def dir_read(seed):
    r = random.Random("dirr/%s" % seed)
    D, n = r.choice([(1, 1), (2, 1), (2, 3), (3, 2), (3, 2), (3, 1)])
    s = S(r, D, n)
    bx = tiling(r, D, {1: 9, 2: 6, 3: 4}[D], 8)
    r.shuffle(bx)
    ids = r.sample(range(0, r.choice([20, 100000])), len(bx))
    es, chunks = [], []
    for (st, sh), i in zip(bx, ids):
        ty = 1 if r.random() < 0.25 else 0
        nm = "" if ty else "%08x-%04x-chunk-%d" % (r.getrandbits(32), r.getrandbits(16), i)
        ov = r.choice([0, 0, 1])
        es.append(dict(ty=ty, nm=list(nm.encode()), id=i, s=st, sh=sh, ov=ov))
        if not ty:
            ext = [x + 2 * ov for x in sh]
            chunks.append((nm, stored(r, rlayout(r, D) if r.random() < 0.8 else [INF] * D, ext, n, vecs(r, prod(ext), n, 2, 0.5))))
    term = Vec([Cat(W(0, e["ty"]), Str(e["nm"]), W(e["id"]), *([W(0, x) for x in e["s"]] + [W(0, x) for x in e["sh"]] + [W(0, e["ov"])])) for e in es])
    b = tbytes(term)
    s.op("DPutIdx", ["r"], [len(b), b], es=es, b=b)
    for nm, a in chunks:
        w = arrwords(a)
        s.op("DPutChunk", ["r"], [], nm=list(nm.encode()), a=a, w=w)
        s.ops[-1]["script"] = "DPutChunk %s %d %s" % (nm, len(w), " ".join(map(str, w)))
    ser = rlayout(r, D)
    s.op("DNew", ["r"], [r.choice([0, 1, 2, 9]), ser], ser=ser)
    hi = [max(b[0][i] + b[1][i] for b in bx) for i in range(D)]
    for st, sh in r.sample(bx, min(len(bx), 4)):
        lo, up = [], []
        for i in range(D):
            a = r.randrange(sh[i])
            lo.append(st[i] + a)
            up.append(st[i] + r.randrange(a + 1, sh[i] + 1))
        s.op("DGet", ["a"], [lo, up], s=lo, e=up)
    if len(bx) == prod([len({b[0][i] for b in bx}) for i in range(D)]):
        lo0 = [min(b[0][i] for b in bx) for i in range(D)]
        s.op("DGet", ["a"], [lo0, hi], s=lo0, e=hi)
    return s.ops


SMALL = {"MaxSh": 2, "MaxSer": 2, "MaxOps": 2, "Patterns": "{0, 1, 2}"}


def p13(c):
    b = c.pool.submit(c.build, "stream_driver.cc")
    c.assumptions = ["floats other than -0, denormals, infinities and NaNs wherever zero vectors are suppressed (compiled with -ffast-math)",
                     "only the last array of a file is extended", "single precision, the only element type for which storing is implemented"]
    mcs = [c.pool.submit(c.model_check, "MCStreamer.tla", "MCStreamer.cfg", 4, 840, k) for k in
           ([{"MaxOps": 1, "Patterns": "{0, 2}"}, {"D": 3, "MaxSh": 2, "MaxSer": 2, "MaxOps": 1, "Patterns": "{2}"}] if not c.thorough else
            [{"MaxOps": 2}, {"D": 3, "MaxSh": 2, "MaxSer": 2, "MaxOps": 2, "Patterns": "{2}"}, {"D": 1, "MaxSh": 5, "MaxSer": 4, "MaxOps": 3, "Patterns": "{0, 1, 2, 3}"}])]
    hs = c.histories("MCStreamer.tla", "MCStreamer.cfg", {"MaxOps": 1, "Patterns": "{0, 2}"})
    hs += c.histories("MCStreamer.tla", "MCStreamer.cfg", {"D": 3, "MaxSh": 2, "MaxSer": 2, "MaxOps": 1, "Patterns": "{2}"})
    if c.thorough:
        hs += c.histories("MCStreamer.tla", "MCStreamer.cfg", {"MaxSh": 2, "MaxSer": 2, "MaxOps": 2, "Patterns": "{1, 2}"})
    c.extra["histories_enumerated_by_tlc"] = len(hs)
    hs = sample(hs, 25000 if c.thorough else 2500, c.seed)
    ops = [from_model(h, random.Random("s/%s/%d" % (c.seed, i)), 1, 0.1) for i, h in enumerate(hs)]
    ops += [stream_random("%s/%d" % (c.seed, i), 0.7, 0.2) for i in range(12000 if c.thorough else 1200)]
    ops += [stream_big(c.seed, k) for k in range(6 if c.thorough else 3)]
    ops += [stream_big("%s/%d" % (c.seed, i), k) for i in range(4 if c.thorough else 1) for k in ("long", "null", "append", "axis", "axis")]
    for m in mcs:
        m.result()
    return c.conform(b.result(), ops, merge_ops, "TraceStreamer.tla", "TraceStreamer.cfg", "stream", heap="3g")


def p14(c):
    b = c.pool.submit(c.build, "stream_driver.cc")
    c.assumptions = ["compared with the format written down in Streamer.tla and Wire.tla, which is the one of the base revision",
                     "names of chunk files are arbitrary but distinct"]
    mc = c.pool.submit(c.model_check, "MCStreamer.tla", "MCStreamer.cfg", 2, 840, {"MaxOps": 1, "Patterns": "{2}"})
    k = 10 if c.thorough else 1
    ops = [put_random("%s/%d" % (c.seed, i)) for i in range(500 * k)]
    ops += [stream_random("14/%s/%d" % (c.seed, i), 0.1, 0.8) for i in range(500 * k)]
    ops += [values_random("%s/%d" % (c.seed, i)) for i in range(300 * k)]
    ops += [values_big(c.seed, n) for n in ([9999, 10000, 10001, 20000, 20500] if c.thorough else [10000, 10001])]
    ops += [dir_write("%s/%d" % (c.seed, i)) for i in range(400 * k)]
    ops += [dir_read("%s/%d" % (c.seed, i)) for i in range(400 * k)]
    ops += [stream_big(c.seed, kk) for kk in range(3 if c.thorough else 2)]
    ops += [stream_big("14/%s/%d" % (c.seed, i), k) for i in range(4 if c.thorough else 1) for k in ("long", "null", "append", "axis")]
    ops += [dir_many("%s/%d" % (c.seed, i)) for i in range(12 if c.thorough else 2)]
    mc.result()
    return c.conform(b.result(), ops, merge_ops, "TraceStreamer.tla", "TraceStreamer.cfg", "format", heap="3g")
