"""Checks of Green's functions: P15 (convolution), P16 (causal, additive, linear), P17 (outside of the domain), P18 (sampling on a
grid), P27 (persistence), against GreensFunction, MCWalk and TraceGreen."""
import itertools, math, random, struct
from vlib import merge_ops
from checks_index import H, sample

PYTH = [(3, 4), (4, 3), (5, 12), (8, 15), (12, 5), (15, 8), (20, 21), (7, 24), (24, 7)]


def num(x):
    return repr(float(x)) if isinstance(x, float) else str(int(x))


class G:
    """A field on a grid, and how it is cut into chunks"""
    def __init__(self, r, N=None, big=False):
        self.N = N or [r.randrange(2, 7), r.randrange(2, 7), r.randrange(3, 13)]
        if not N and r.random() < 0.05:
            self.N[r.randrange(3)] = r.randrange(14, 50)
        self.st = [r.choice([0, 0, 0, 8, 24]), r.choice([-16, -8, 0, 8, 12]), r.choice([0, 0, 0, 0, -8, 8])]
        self.dt = [r.choice([4, 8, 8, 16]) for _ in range(3)]
        self.m = r.choice([5, 9, 11, 17])
        self.co = [[r.randrange(self.m) for _ in range(3)] + [r.choice([0, 1]), r.randrange(self.m)] for _ in range(2)]
        self.bd = r.choice([0, 0, 1])
        self.zb = 0
        self.zs, self.ze = [0, 0, 0], [0, 0, 0]

    def zero_box(self, r, cuts, ov):
        """make one chunk (with its margin) zero, sometimes"""
        self.zb = 1
        for a in range(3):
            k = r.randrange(len(cuts[a]) - 1)
            self.zs[a], self.ze[a] = cuts[a][k] - ov, cuts[a][k + 1] + ov

    def pos(self, a, x8):
        p = (x8 - self.st[a]) * 16
        assert p % self.dt[a] == 0
        return p // self.dt[a]

    def end(self, a):
        return self.st[a] + self.dt[a] * self.N[a]

    def ev(self):
        return dict(bd=self.bd, N=self.N, co=self.co, m=self.m, zb=self.zb, zs=self.zs, ze=self.ze, st=self.st, dt=self.dt)


def rcuts(r, n):
    k = r.randrange(0, min(n, 4))
    return [0] + sorted(r.sample(range(1, n), k)) + [n]


class GH(H):
    def __init__(self, r):
        super().__init__()
        self.r = r

    def make(self, id, g, cuts=None, how=None, ov=2, opt=None, cache=2, csh=None):
        r = self.r
        cuts = cuts or [rcuts(r, n) for n in g.N]
        how = r.randrange(2) if how is None else how
        opt = r.randrange(2) if opt is None else opt
        csh = csh or [r.choice([n, r.randrange(1, n + 1)]) for n in g.N]
        if how and g.bd == 1:
            # the cylindrical rule looks mirrored indices up: the margin must not reach beyond the array
            ov = min(ov, g.N[0])
        bx = [([c[0] for c in x], [c[1] for c in x]) for x in itertools.product(*[list(zip(c, c[1:])) for c in cuts])]
        r.shuffle(bx)
        self.op("GMake", ["r"], [], id=id, ov=ov, how=how, opt=opt, **g.ev())
        args = [id, g.bd, how, ov, opt, cache] + csh + g.N + g.co[0] + g.co[1] + [g.m, g.zb] + g.zs + g.ze + g.st + g.dt + [len(bx)]
        for s, e in bx:
            args += s + e
        self.ops[-1]["script"] = "GMake " + " ".join(map(str, args))

    def open(self, id, cache):
        self.op("GOpen", ["r"], [id, cache], id=id)

    def close(self, id, which):
        self.op("GClose", ["r"], [id, which], id=id, which=which)

    def meta(self, id, which):
        self.op("GMeta", ["s", "e", "mb"], [id, which], id=id, which=which)

    def sig(self, id, which, kern, mode, segs, ts, dt, ns, init, via=0, dbl=0, only=()):
        self.op("GSig", ["exc", "a"], [], id=id, which=which, kern=kern, mode=mode, segs=segs, ts=ts, dt=dt, ns=ns, init=init, only=list(only))
        a = [id, which, via, dbl, kern, mode, len(segs)]
        for s in segs:
            a += s["x0"] + s["d"] + [s["n"], s["t0"], s["st"], s["q"], s["w2"] / 2]
        self.ops[-1]["script"] = "GSig " + " ".join(map(num, a + [ts, dt, ns, len(init)] + init))

    def diff(self, id, which, kern, segs, ts, dt, ns, key, tol, via=0, dbl=0):
        self.op("GDiff", ["exc", "a"], [], id=id, which=which, key=key, tol=tol, len=ns)
        a = [id, which, via, dbl, kern, 0, len(segs)]
        for s in segs:
            a += s["x0"] + s["d"] + [s["n"], s["t0"], s["st"], s["q"], s["w"]]
        self.ops[-1]["script"] = "GDiff " + " ".join(map(num, a + [ts, dt, ns, ns] + [0] * ns))

    def acc(self, id, which, kern, mode, rz, ts, dt, ns, src, w2, init, dbl=0):
        self.op("GAcc", ["exc", "a"], [], id=id, which=which, kern=kern, mode=mode, r=rz[0], z=rz[1], ts=ts, dt=dt, ns=ns, sr=src[0], sz=src[1], w2=w2, init=init)
        self.ops[-1]["script"] = "GAcc " + " ".join(map(num, [id, which, dbl, kern, mode] + rz + [ts, dt, ns] + src + [w2 / 2, len(init)] + init))

    def fill(self, id, which, kern, s8, step8, ns):
        self.op("GFill", ["sh", "d"], [], id=id, which=which, kern=kern, s8=s8, step8=step8, ns=ns)
        self.ops[-1]["script"] = "GFill " + " ".join(map(num, [id, which, kern] + s8 + step8 + ns))


    def cause(self, id, which, kern, mode, segs, ts, dt, ns, init, dbl):
        """times in units of 1/4096"""
        self.op("GCause", ["exc", "a"], [], id=id, which=which, segs=[dict(t0=s["t0"]) for s in segs], ts=ts, dt=dt, ns=ns, init=init)
        a = [id, which, 0, dbl, kern, mode, len(segs)]
        for s in segs:
            a += s["x0"] + s["d"] + [s["n"], s["t0"] / 512, s["st"], s["q"], s["w2"] / 2]
        self.ops[-1]["script"] = "GCause " + " ".join(map(num, a + [ts / 512, dt / 512, ns, len(init)] + init))

    def fine(self, id, which, kern, mode, rz, ts, dt, ns, src, init, dbl):
        """positions and times in units of 1/4096"""
        self.op("GFine", ["exc", "a"], [], id=id, which=which, mode=mode, r=rz[0], z=rz[1], ts=ts, dt=dt, ns=ns, init=init)
        self.ops[-1]["script"] = "GFine " + " ".join(map(num, [id, which, dbl, kern, mode, rz[0] / 512, rz[1] / 512, ts / 512, dt / 512, ns] + src + [1.0, len(init)] + init))

    def raw(self, id, s, e, w):
        b = lambda v: [struct.unpack("i", struct.pack("f", x))[0] for x in v]
        self.op("GRaw", ["r"], [id] + b(s) + b(e) + b(w), id=id, s0=b(s), e0=b(e))

    def rawget(self, id, again):
        self.op("GRawGet", ["s", "e"], [id, again], id=id)


# ------------------------------------------------------------------------------------------------ tracks (all in eighths)
def root(v):
    k = math.isqrt(v)
    return k if k * k == v else None


def path(r, g, n):
    """start and displacement such that every radius is representable"""
    z0 = r.randrange(g.st[1] - 4, g.end(1) + 5)
    dz = r.choice([0, 1, 2, 4, 8, -1, -2, -4, -8, r.randrange(-16, 17)])
    hi = max(g.end(0) + 6, 4)
    kind = r.choice(["vert", "vert", "axis", "ray", "ray", "any"])
    if kind == "vert":
        while True:
            a, b = r.choice([(1, 0), (0, 1), (-1, 0)] + PYTH[:4])
            k = r.randrange(0, hi)
            if root(a * a + b * b) * k <= hi + 8 or k <= 1:
                break
        return [a * k, b * k, z0], [0, 0, dz or 1]
    if kind == "axis":
        s = r.choice([1, -1])
        a = r.randrange(0, hi)
        x = [s * a, 0] if r.random() < 0.5 else [0, s * a]
        d = r.choice([1, 2, 4, 8, -1, -2, -4, -8])
        return x + [z0], ([d, 0] if x[1] == 0 else [0, d]) + [dz]
    if kind == "ray":
        a, b = r.choice(PYTH[:2])
        k = r.randrange(-hi // 5 - 1, hi // 5 + 1)
        d = r.choice([1, 1, 2, -1, -2])
        return [a * k, b * k, z0], [a * d, b * d, dz]
    while True:                                     # two points with representable radii (n = 1 only)
        p = [(s1 * a * k, s2 * b * k) for a, b in PYTH + [(1, 0), (0, 1)] for k in range(0, hi) if root((a * a + b * b) * k * k) <= hi
             for s1, s2 in [(1, 1), (-1, 1), (1, -1)]]
        u, v = r.choice(p), r.choice(p)
        if n == 1 and abs(u[0] - v[0]) <= 24 and abs(u[1] - v[1]) <= 24:
            return [u[0], u[1], z0], [v[0] - u[0], v[1] - u[1], dz]
        if n != 1:
            return [u[0], u[1], z0], [0, 0, dz or 2]


def statuses(g, seg, ts, dt, ns):
    out = set()
    for i in range(seg["n"] + 1):
        x = [seg["x0"][a] + i * seg["d"][a] for a in range(3)]
        rr = root(x[0] * x[0] + x[1] * x[1])
        if rr is None:
            return None
        for j in range(ns):
            t = ts + j * dt - seg["t0"] - i * seg["st"]
            if t < 0:
                out.add("early")
                continue
            p = [g.pos(0, rr), g.pos(1, x[2]), g.pos(2, t)]
            if any(p[a] < 0 or p[a] > 16 * g.N[a] for a in range(3)):
                out.add("out")
            elif any(p[a] == 16 * g.N[a] for a in range(3)) or (p[0] == 0 and g.st[0] > 0) or (p[1] == 0 and seg["d"][2]):
                out.add("edge")
            else:
                out.add("in")
    return out


def segment(r, g, nmax=8, st=None):
    n = r.choice([1, 2, 3, r.randrange(1, nmax + 1)])
    s = [x for x in range(1, 9) if n * x > 8 * (n - 1)]
    x0, d = path(r, g, n)
    return dict(x0=x0, d=d, n=n, t0=r.randrange(-16, 40), st=st or r.choice([8, 8, r.choice(s)]), q=r.choice([1, 1, -1, 2, -3]), w2=r.choice([2, 2, 1, -2, 3, 4]))


def window(r, g, seg, want):
    dt = r.choice([1, 2, 4, 8, 16])
    span = g.dt[2] * g.N[2]
    ns = r.choice([1, 2, r.randrange(1, 14)])
    if want == "late" or r.random() < 0.3:
        ts = seg["t0"] + seg["n"] * seg["st"] + r.randrange(0, max(1, span // 2))
    else:
        ts = seg["t0"] + r.randrange(-24, span)
    return ts, dt, ns


def find(r, g, ok, nmax=8, tries=300):
    for _ in range(tries):
        seg = segment(r, g, nmax)
        w = window(r, g, seg, None)
        s = statuses(g, seg, *w)
        if s is not None and ok(s):
            return seg, w
    return None


# ------------------------------------------------------------------------------------------------ histories
def start(seed, tag, N=None):
    r = random.Random("%s/%s" % (tag, seed))
    h = GH(r)
    g = G(r, N)
    cuts = [rcuts(r, n) for n in g.N]
    if r.random() < 0.4:
        g.zero_box(r, cuts, 2)
    kern = r.choice([1, 2, 2])
    ov = r.choice([2, 2, 3]) if kern == 2 else r.choice([1, 1, 2, 3])
    return r, h, g, cuts, kern, ov


def extra(r, ns, zero):
    return [0 if zero else r.choice([0, 5, -7, 100, 1000])for _ in range(ns)] + [r.choice([0, 1, -9]) for _ in range(r.randrange(0, 4))]


def conv(seed, want, nq=5):
    """want: in (all pairs inside), early (windows beginning before the segment), out (tracks leaving the domain)"""
    r, h, g, cuts, kern, ov = start(seed, "conv-" + want)
    h.make(0, g, cuts, ov=ov)
    which = 0
    if r.random() < 0.6:
        which = 1
        h.open(0, r.choice([1, 2, 3]) if r.random() < 0.5 else 1)
    ok = dict(early=lambda s: "early" in s and "out" not in s and "in" in s,
              out=lambda s: "out" in s and ("in" in s or r.random() < 0.3))
    ok["in"] = lambda s: "out" not in s and "in" in s
    for _ in range(nq):
        segs = []
        f = find(r, g, ok[want])
        if f is None:
            continue
        seg, (ts, dt, ns) = f
        segs = [seg]
        mode = r.randrange(2)
        x = r.random()
        if want != "out" and x < 0.35:
            # the same current in pieces, or several segments
            for _ in range(r.choice([1, 1, 2])):
                if seg["n"] > 1 and r.random() < 0.7:
                    k = r.randrange(1, segs[-1]["n"]) if segs[-1]["n"] > 1 else 0
                    if k:
                        a = segs.pop()
                        b = dict(a, n=a["n"] - k, x0=[a["x0"][i] + k * a["d"][i] for i in range(3)], t0=a["t0"] + k * a["st"])
                        segs += [dict(a, n=k), b]
                else:
                    for _ in range(40):
                        s2 = segment(r, g)
                        s2["t0"] = seg["t0"] + r.randrange(-8, 9)
                        st = statuses(g, s2, ts, dt, ns)
                        if st is not None and "out" not in st:
                            segs.append(s2)
                            break
            r.shuffle(segs)
        if any(s["n"] * s["st"] <= 8 * (s["n"] - 1) for s in segs):
            segs = [seg]
        if want == "out" and mode == 0 and r.random() < 0.5:
            mode = 1
        via, dbl = 0, r.randrange(2)
        if which and kern == 2 and mode == 0 and r.random() < 0.5:
            via, dbl = 1, 0
            for s in segs:
                s["w2"] = 2
        h.sig(0, which, kern, mode, segs, ts, dt, ns, extra(r, ns, want == "in" and r.random() < 0.5), via, dbl)
    for _ in range(2):
        # one integration point
        rz = [r.randrange(max(0, g.st[0] - (4 if want == "out" else 0)), g.end(0) + (5 if want == "out" else 0)),
              r.randrange(g.st[1] - (12 if want == "out" else 0), g.end(1) + (5 if want == "out" else 0))]
        ts = r.randrange(max(g.st[2], 0), g.end(2) + (9 if want == "out" else 0))
        dt = r.choice([1, 2, 4, 8, 16])
        ns = r.randrange(1, 12)
        if want != "out":
            ns = max(1, min(ns, (g.end(2) - 1 - ts) // dt + 1))
        h.acc(0, which, kern, 1 if want == "out" and r.random() < 0.7 else r.randrange(2), rz, ts, dt, ns,
              [r.randrange(-3, 4), r.randrange(-3, 4)], r.choice([2, 1, -4]), extra(r, ns, False), r.randrange(2))
    return h.ops


def long_track(seed, k):
    """more samples and integration points than the internal block sizes"""
    r = random.Random("long/%s/%d" % (seed, k))
    h = GH(r)
    n = r.choice([99, 100, 101, 120, 199, 200, 201, r.randrange(90, 230)])
    ns = r.choice([99, 100, 101, 130, 200, 201, r.randrange(90, 230)])
    if k % 3 == 0:
        n = r.randrange(3, 30)
    if k % 3 == 1:
        ns = r.randrange(3, 30)
    dz = r.choice([1, 2])
    # samples every dt, integration points every 8: t - t' between 0 and T
    dt = 8
    lead = r.choice([-3, 0, 0, 2]) if k % 3 else r.choice([-3, 0, 5])
    T = max(1, ns + max(lead, 0))
    g = G(r, [2, n * dz // 8 + 2, T])
    g.st, g.dt, g.m, g.bd = [0, 0, 0], [8, 8, 8], 9, 0
    g.co = [[r.randrange(9) for _ in range(3)] + [0, r.randrange(9)] for _ in range(2)]
    tc = sorted(set(r.sample(range(1, T), min(T - 1, r.choice([0, 1, 4]))))) if T > 1 else []
    h.make(0, g, [[0, 2], [0] + ([r.randrange(1, g.N[1])] if r.random() < 0.5 else []) + [g.N[1]], [0] + tc + [T]], how=0, ov=1, opt=1)
    rad = r.choice([0, 8])
    seg = dict(x0=[rad, 0, 0], d=[0, 0, dz], n=n, t0=0, st=8, q=1, w2=2)
    only = {0, 1, ns - 1, ns - 2} | {b + k for b in (100, 200) for k in (-1, 0, 1)} | {r.randrange(ns) for _ in range(12)}
    h.sig(0, 0, 1, r.randrange(2), [seg], 8 * lead, dt, ns, extra(r, ns, False), 0, r.randrange(2), sorted(x for x in only if 0 <= x < ns))
    return h.ops


def compare(seed, nobj=4):
    """tracks at arbitrary positions: the answer does not depend on chunks, caches, objects, or on cutting the track"""
    r, h, g, cuts, kern, ov = start(seed, "cmp")
    g.bd = 0
    kern = r.choice([1, 2])
    qs = []
    for _ in range(6):
        for _ in range(200):
            n = r.randrange(1, 9)
            st = r.uniform(0.9, 0.98)
            a = [[r.uniform(-g.end(0), g.end(0)) / 8 for _ in range(2)] + [r.uniform(g.st[1], g.end(1)) / 8] for _ in range(2)]
            x0 = a[0]
            d = [r.choice([0, 0.3, 1]) * (a[1][i] - a[0][i]) / n for i in range(3)]
            t0, dt = r.uniform(-3, 3), r.choice([r.uniform(0.1, 2), r.uniform(0.1, 2), 0.5])
            ns = r.randrange(1, 16)
            ts = t0 + r.uniform(-2, g.end(2) / 8)
            good = True
            for i in range(n + 1):
                x = [x0[k] + i * d[k] for k in range(3)]
                rad = math.hypot(x[0], x[1])
                good &= g.st[0] / 8 + 1e-3 < rad < g.end(0) / 8 - 1e-3 and g.st[1] / 8 + 1e-3 < x[2] < g.end(1) / 8 - 1e-3
                if not good:
                    break
                for j in range(ns):
                    t = ts + j * dt - t0 - i * st
                    good &= abs(t) > 1e-3 and (t < 0 or g.st[2] / 8 + 1e-3 < t < g.end(2) / 8 - 1e-3)
            if good:
                qs.append((x0, d, n, t0, st, r.uniform(-2, 2), r.uniform(-2, 2), ts, dt, ns))
                break
    for id in range(nobj):
        h.make(id, g, ov=r.choice([2, 3]) if kern == 2 else r.choice([1, 2]), cache=r.choice([1, 2]), how=r.randrange(2))
        which = r.randrange(2)
        if which:
            h.open(id, r.choice([1, 2, 3]))
            h.close(id, 0)
        for key, (x0, d, n, t0, st, q, w, ts, dt, ns) in enumerate(qs):
            one = dict(x0=x0, d=d, n=n, t0=t0, st=st, q=q, w=w)
            segs = [one]
            if n > 1 and r.random() < 0.4:
                k = r.randrange(1, n)
                segs = [dict(one, n=k), dict(one, n=n - k, x0=[x0[i] + k * d[i] for i in range(3)], t0=t0 + k * st)]
                r.shuffle(segs)
            if r.random() < 0.2:
                segs = [dict(s, q=s["q"] / 2) for s in segs] * 2
            v = max(1.0, abs(q * w) * sum(abs(x) for x in d))
            h.diff(id, which, kern, segs, ts, dt, ns, key + 1, int(60 * (n + 1) * v) + 200, 0, r.randrange(2))
        h.close(id, which)
    return h.ops


def from_walk(hh, seed, kern):
    """a run of MCWalk: the chunks along t, the samples and integration points, both modes"""
    r = random.Random("walk/%s/%s" % (seed, sorted(hh.items())))
    h = GH(r)
    T = hh["cuts"][-1]
    g = G(r, [r.randrange(2, 4), r.randrange(2, 4), T])
    g.st[2], g.dt = 0, [8, 8, 16]
    ov = kern
    cuts = [rcuts(r, g.N[0]), rcuts(r, g.N[1]), [0] + list(hh["cuts"])]
    nulls = [k for k in hh["nulls"] if k < len(cuts[2])]
    if nulls:
        g.zb, k = 1, nulls[0]
        g.zs, g.ze = [-9, -9, cuts[2][k - 1] - ov], [99, 99, cuts[2][k] + ov]
    h.make(0, g, cuts, how=0, ov=ov, opt=1)
    init = extra(r, hh["ns"], False)
    if hh["pts"] == 1:
        if hh["off"] < 0:
            return None
        rz = [r.randrange(g.st[a], g.end(a)) for a in range(2)]
        h.acc(0, 0, kern, hh["mode"], rz, hh["off"], hh["samp"], hh["ns"], [r.randrange(-3, 4), r.choice([1, 2, -1])], 2, init, r.randrange(2))
    else:
        if hh["step"] != 8:
            return None
        n = hh["pts"] - 1
        z0, z1 = r.randrange(g.st[1] + 1, g.end(1)), r.randrange(g.st[1] + 1, g.end(1))
        d = (z1 - z0) // n
        a = r.randrange(g.st[0] + 1, g.end(0))
        if d == 0:
            d = 1 if z0 + n < g.end(1) else -1
            if z0 + d * n <= g.st[1]:
                d = 0
        seg = dict(x0=[a, 0, z0], d=[0, 0, d], n=n, t0=r.randrange(-8, 9), st=8, q=1, w2=2)
        h.sig(0, 0, kern, hh["mode"], [seg], seg["t0"] + hh["off"], hh["samp"], hh["ns"], init, 0, r.randrange(2))
    return h.ops


def grids(seed, nq=4):
    r, h, g, cuts, kern, ov = start(seed, "grid", None if random.Random(seed).random() < 0.8 else [4, 3, 20])
    h.make(0, g, cuts, ov=ov)
    which = r.randrange(2)
    if which:
        h.open(0, r.choice([1, 2]))
    for _ in range(nq):
        s8, st8, ns = [], [], []
        for a in range(3):
            lo, up = g.st[a], g.st[a] + g.dt[a] * (g.N[a] - 1)
            while True:
                n = r.randrange(2, [5, 5, 9][a])
                d = r.choice([1, 2, 3, g.dt[a], g.dt[a], g.dt[a] // 2, 2 * g.dt[a]])
                if (n - 1) * d <= up - lo:
                    break
            s = r.randrange(lo, up - (n - 1) * d + 1)
            if r.random() < 0.3:
                s = lo
            if r.random() < 0.3:
                s = up - (n - 1) * d
            s8.append(s)
            st8.append(d)
            ns.append(n)
        h.fill(0, which, kern, s8, st8, ns)
    return h.ops


def lives(seed):
    """made, closed, reopened any number of times with any cache"""
    r, h, g, cuts, kern, ov = start(seed, "life")
    h.make(0, g, cuts, ov=ov, cache=r.choice([1, 2]))
    h.meta(0, 0)
    f = [x for x in (find(r, g, lambda s: "out" not in s and "in" in s, 4) for _ in range(2)) if x]
    up = [g.st[a] + g.dt[a] * (g.N[a] - 1) for a in range(3)]
    ns = [2, 2, r.randrange(2, 5)]
    st8 = [r.randrange(1, max(2, (up[a] - g.st[a]) // (ns[a] - 1) + 1)) for a in range(3)]
    st8 = [min(st8[a], (up[a] - g.st[a]) // (ns[a] - 1)) for a in range(3)]

    def ask(which):
        for seg, (ts, dt, n) in f:
            h.sig(0, which, kern, r.randrange(2), [seg], ts, dt, n, extra(r, n, False), 0, r.randrange(2))
        if all(x > 0 for x in st8):
            h.fill(0, which, kern, list(g.st), st8, ns)
        h.meta(0, which)
    alive = True
    if r.random() < 0.7:
        ask(0)
    for _ in range(r.randrange(1, 4)):
        if alive and r.random() < 0.5:
            h.close(0, 0)
            alive = False
        h.open(0, r.choice([1, 1, 2, 3]))
        ask(1)
        if r.random() < 0.5:
            h.close(0, 1)
    if alive:
        ask(0)
    return h.ops


def hair(seed, nq=6):
    """samples that precede the first current by any margin, down to a hair"""
    r, h, g, cuts, kern, ov = start(seed, "hair")
    h.make(0, g, cuts, ov=ov)
    for _ in range(nq):
        f = find(r, g, lambda s: "out" not in s and "edge" not in s and "in" in s)
        if f is None:
            continue
        seg, (_, dt, ns) = f
        seg = dict(seg, t0=seg["t0"] * 512 + r.choice([0, 0, r.randrange(-512, 512)]))
        d = dt * 512 if r.random() < 0.7 else r.randrange(200, 8192)
        j = r.randrange(0, 6)
        # the sample number j precedes the current by `e`
        e = r.choice([1, 2, 3, 8, 30, 200, r.randrange(1, 2000)])
        h.cause(0, 0, kern, 1, [seg], seg["t0"] - e - j * d, d, j + r.randrange(1, 6), extra(r, 12, False), r.randrange(2))
    return h.ops


def faces(seed, nq=8):
    """points a hair on either side of the faces of the domain"""
    r, h, g, cuts, kern, ov = start(seed, "face")
    h.make(0, g, cuts, ov=ov)
    which = r.randrange(2)
    if which:
        h.open(0, r.choice([1, 2]))
    for _ in range(nq):
        lo = [512 * g.st[a] for a in range(3)]
        hi = [512 * g.end(a) for a in range(3)]
        x = [r.randrange(lo[a] + 1, hi[a] - 1) for a in range(3)]
        for a in r.sample(range(3), r.choice([1, 1, 2])):
            e = r.choice([1, 1, 2, 5, 40, 300, r.randrange(1, 6000)]) * r.choice([1, -1])
            x[a] = r.choice([lo[a], hi[a]]) + e
        x[2] = max(x[2], 0)
        dt = r.choice([512, 1024, 4096, r.randrange(100, 9000)])
        back = r.choice([0, 0, 1, 2])
        ts = x[2] - back * dt
        if ts < 0:
            ts = x[2]
        h.fine(0, which, kern, r.randrange(2), [max(x[0], 0), x[1]], ts, dt, r.randrange(1, 6), [r.choice([-2, 1, 3]), r.choice([-1, 2])], extra(r, 6, False), r.randrange(2))
    return h.ops


def coordinates(seed):
    """any coordinates whatsoever, through any number of reopenings"""
    r = random.Random("raw/%s" % seed)
    h = GH(r)
    for id in range(3):
        k = r.choice([1, 3, 300, 1e4, 1e-3])
        s = [r.choice([0.0, r.uniform(-k, k), round(r.uniform(-k, k), 2)]) for _ in range(3)]
        w = [r.choice([0.1, 0.3, 1.0, r.uniform(0.01, 2), round(r.uniform(0.01, 2), 2)]) for _ in range(3)]
        e = [s[a] + r.choice([1, 1, 1.01]) * w[a] * r.randrange(2, 500) for a in range(3)]
        h.raw(id, s, e, w)
        h.rawget(id, 0)
        for _ in range(r.randrange(1, 3)):
            h.rawget(id, 1)
    return h.ops


def nonempty(hs):
    return [h for h in hs if h]


ASSUME = ["the field values are small integers and positions are multiples of 1/16 of a cell where results are compared with the specification; "
          "arbitrary positions are compared between differently chunked objects", "grids of at least two points per axis, margins at least as wide as the interpolation",
          "a sample exactly at the end of the grid, or a track within rounding of a face, may or may not count as inside"]


def walk_model(c):
    cfgs = [{"Samps": "{4, 16}", "Steps": "{0, 8}"}, {"MaxPts": 5, "MaxNs": 5, "Total": 2, "Steps": "{8}", "Samps": "{8, 24}"}]
    if c.thorough:
        cfgs = [{"MaxPts": 5, "MaxNs": 7, "Total": 3, "Samps": "{4, 12, 16, 24, 40}"}, {"MaxPts": 4, "MaxNs": 5, "Total": 4, "IB": 3}, {"IB": 1, "SB": 3, "MaxNs": 7}]
    return [c.pool.submit(c.model_check, "MCWalk.tla", "MCWalk.cfg", 4, 840, k) for k in cfgs]


def walks(c, k, n):
    hs = c.histories("MCWalk.tla", "MCWalk.cfg", {"MaxPts": 3, "MaxNs": 4, "Steps": "{8}", "Offs": k, "Lead": 24, "Samps": "{4, 8, 16, 24}"})
    c.extra["histories_enumerated_by_tlc"] = len(hs)
    hs = sample2(hs, n, c.seed)
    return nonempty([from_walk(h, c.seed, 1 + i % 2) for i, h in enumerate(hs)])


def sample2(hs, n, seed):
    r = random.Random(seed)
    return hs if len(hs) <= n else r.sample(hs, n)


def finish(c, b, mcs, ops, tag):
    for m in mcs:
        m.result()
    return c.conform(b.result(), nonempty(ops), merge_ops, "TraceGreen.tla", "TraceGreen.cfg", tag, heap="3g")


def p15(c):
    b = c.pool.submit(c.build, "gf_driver.cc", (), True, "-O2")
    c.assumptions = ASSUME
    mcs = walk_model(c)
    k = 8 if c.thorough else 1
    ops = walks(c, "{24, 28, 32, 64}", 12000 if c.thorough else 700)
    ops += [conv("%s/%d" % (c.seed, i), "in") for i in range(300 * k)]
    ops += [long_track(c.seed, i) for i in range(30 * k)]
    ops += [compare("%s/%d" % (c.seed, i)) for i in range(150 * k)]
    return finish(c, b, mcs, ops, "signal")


def p16(c):
    b = c.pool.submit(c.build, "gf_driver.cc", (), True, "-O2")
    c.assumptions = ASSUME
    mcs = walk_model(c)
    k = 8 if c.thorough else 1
    ops = walks(c, "{0, 16, 20, 24, 32}", 8000 if c.thorough else 500)
    ops += [conv("%s/%d" % (c.seed, i), "early") for i in range(400 * k)]
    ops += [long_track("16/%s" % c.seed, i) for i in range(15 * k)]
    ops += [compare("16/%s/%d" % (c.seed, i), 2) for i in range(100 * k)]
    ops += [hair("%s/%d" % (c.seed, i)) for i in range(150 * k)]
    return finish(c, b, mcs, ops, "causal")


def p17(c):
    b = c.pool.submit(c.build, "gf_driver.cc", (), True, "-O2")
    c.assumptions = ASSUME
    mcs = walk_model(c)
    k = 8 if c.thorough else 1
    ops = walks(c, "{24, 48, 64, 72, 88}", 8000 if c.thorough else 700)
    ops += [conv("%s/%d" % (c.seed, i), "out", 6) for i in range(500 * k)]
    ops += [faces("%s/%d" % (c.seed, i)) for i in range(150 * k)]
    return finish(c, b, mcs, ops, "outside")


def p18(c):
    b = c.pool.submit(c.build, "gf_driver.cc", (), True, "-O2")
    c.assumptions = ASSUME + ["at least two samples per axis"]
    k = 8 if c.thorough else 1
    return finish(c, b, [], [grids("%s/%d" % (c.seed, i)) for i in range(500 * k)], "grid")


def p27(c):
    b = c.pool.submit(c.build, "gf_driver.cc", (), True, "-O2")
    c.assumptions = ASSUME
    k = 8 if c.thorough else 1
    ops = [lives("%s/%d" % (c.seed, i)) for i in range(350 * k)]
    ops += [compare("27/%s/%d" % (c.seed, i), 3) for i in range(60 * k)]
    ops += [coordinates("%s/%d" % (c.seed, i)) for i in range(60 * k)]
    return finish(c, b, [], ops, "lives")
