"""Checks of dense arrays and the pure helpers: P20 (downsampling), P21 (dense arrays), P22 (loops and boxes), P23 (quadrature
weights), P24 (interpolation), P25 (NumPy files), P26 (vectors), against DenseArray, Loops, Numpy, Vectors and GreensFunction."""
import itertools, random
from vlib import merge_ops
from checks_index import H, sample


def prod(v):
    n = 1
    for x in v:
        n *= x
    return n


class DH(H):
    """A history of array operations, with the shapes and the sharing of memory tracked to stay in the domain of each operation"""
    def __init__(self, r, d, v):
        super().__init__()
        self.r, self.d, self.v = r, d, v
        self.han = {}
        self.nbuf = 0
        self.op("DInit", ["r"], [d, v], d=d, v=v)

    def do(self, name, args, need=("r", "dump"), **ev):
        self.op(name, list(need), args, **ev)

    # ---- bookkeeping
    def sh(self, h):
        return self.han[h]["sh"]

    def owns(self, h):
        return self.han[h]["own"]

    def alone(self, h):
        return self.owns(h) and not any(g != h and x["b"] == self.han[h]["b"] for g, x in self.han.items())

    def fresh(self, h, sh):
        self.nbuf += 1
        self.han[h] = dict(b=self.nbuf, s=[0] * len(sh), sh=list(sh), own=True)

    def box(self, sh):
        s = [self.r.randrange(n) for n in sh]
        e = [self.r.randrange(a + 1, n + 1) for a, n in zip(s, sh)]
        return s, e

    def shape(self, mx=4):
        if self.r.random() < 0.03:
            sh = [self.r.randrange(1, 3) for _ in range(self.d)]
            sh[self.r.randrange(self.d)] = self.r.choice([self.r.randrange(9, 40), self.r.randrange(60, 140)])
            return sh
        return [self.r.randrange(1, mx + 1) for _ in range(self.d)]

    def val(self):
        return self.r.choice([0, 0, self.r.randrange(-9, 100)])

    # ---- operations
    def new(self, h, sh, how=None, val=None):
        r = self.r
        how = r.choice([0, 1] + ([2, 3] if self.d == 1 else [])) if how is None else how
        val = self.val() if val is None else val
        self.fresh(h, sh)
        self.do("DNew", [h, how, val, sh], h=h, how=how, val=val, sh=list(sh))

    def column(self, h, os, d):
        self.do("DCol", [h, len(d) // self.v, os, d], h=h, os=list(os), d=list(d))

    def newv(self, h, sh, base=None, zeros=0.0):
        """all elements different"""
        self.new(h, sh, 0, 0)
        k = base if base is not None else self.r.randrange(1, 500)
        for os in itertools.product(*[range(n) for n in sh[:-1]]):
            d = []
            for _ in range(sh[-1] * self.v):
                d.append(0 if self.r.random() < zeros else k)
                k += 1
            self.column(h, list(os) + [0], d)

    def copy(self, h, g):
        self.fresh(h, self.sh(g))
        self.do("DCopy", [h, g], h=h, g=g)

    def assign(self, h, g):
        self.han[h]["sh"] = list(self.sh(g))
        self.do("DAssign", [h, g], h=h, g=g)

    def fill(self, h, s, e, v):
        self.do("DFill", [h, v, s, e], h=h, s=s, e=e, val=v)

    def frm(self, h, g, is_, ie, os):
        self.do("DFrom", [h, g, is_, ie, os], h=h, g=g, **{"is": is_, "ie": ie, "os": os})

    def resize(self, h, sh, how, v):
        self.han[h]["sh"] = list(sh)
        self.do("DResize", [h, how, v, sh], h=h, how=how, val=v, sh=list(sh))

    def view(self, h, g, s, e):
        x = self.han[g]
        self.han[h] = dict(b=x["b"], s=[a + b for a, b in zip(x["s"], s)], sh=[b - a for a, b in zip(s, e)], own=False)
        self.do("DView", [h, g, s, e], h=h, g=g, s=s, e=e)

    def drop(self, h):
        del self.han[h]
        self.do("DDrop", [h], h=h)

    def app(self, h, g, ax, how):
        if ax == 1:
            self.han[h]["sh"][0] += self.sh(g)[0]
        self.do("DApp", [h, g, ax - 1, how], h=h, g=g, ax=ax, how=how)

    def swap(self, h, g, i, j):
        sh = list(self.sh(g))
        sh[i - 1], sh[j - 1] = sh[j - 1], sh[i - 1]
        self.han[h]["sh"] = sh
        self.do("DSwap", [h, g, i - 1, j - 1], h=h, g=g, i=i, j=j)

    def at(self, h):
        return [self.r.randrange(n) for n in self.sh(h)]

    def setat(self, h, x=None, d=None):
        x = self.at(h) if x is None else x
        d = [self.val() for _ in range(self.v)] if d is None else d
        self.do("DSet", [h, self.r.randrange(3), x, d], h=h, x=x, d=d)

    def down(self, h, g, s, f):
        self.han[h]["sh"] = [max(0, (a + n - 1) // k + 1 - (a + k - 1) // k) for a, n, k in zip(s, self.sh(g), f)]
        self.do("DDown", [h, g, s, f], ("o", "dump"), h=h, g=g, s=s, f=f)

    def downsh(self, s, sh, f):
        self.do("DDownSh", [s, sh, f], ("v",), s=s, sh=sh, f=f)

    def look(self):
        """questions"""
        r = self.r
        h = r.choice(list(self.han))
        sh = self.sh(h)
        q = r.randrange(8)
        if prod(sh) == 0:
            self.do("DMeta", [h], ("sh", "vol", "nel", "own"), h=h)
            return
        if q <= 1:
            how = r.randrange(4)
            s, e = self.box(sh) if how == 2 else ([0] * self.d, list(sh))
            self.do("DLoop", [h, how, s, e], ("v", "dump"), h=h, how=how, s=s, e=e)
        elif q == 2:
            x = self.at(h)
            inn = [r.randrange(sh[-1] - x[-1]) for _ in range(r.randrange(1, 6))]
            self.do("DSeq", [h, len(inn), x, inn], ("v", "dump"), h=h, x=x, inn=inn)
        elif q == 3:
            self.do("DNull", [h], h=h)
        elif q == 4:
            self.do("DNullAt", [h, self.at(h)], h=h, x=self.ops[-1]["ev"].get("x", None))
            x = self.at(h)
            self.ops.pop()
            self.do("DNullAt", [h, x], h=h, x=x)
        elif q == 5:
            x = [r.randrange(n + 2) for n in sh]
            self.do("DHas", [h, x], h=h, x=x)
        elif q == 6:
            self.do("DMeta", [h], ("sh", "vol", "nel", "own"), h=h)
        else:
            x = list(sh)
            y = [n if r.random() < 0.75 else n + 1 for n in x]
            ax = r.randrange(1, self.d + 1)
            self.do("DConcat", [ax - 1, r.randrange(2), x, y], ("r",), x=x, y=y, ax=ax)

    def spare(self):
        return [h for h in range(1, 6) if h not in self.han]

    def step(self):
        r = self.r
        hs = list(self.han)
        alone = [h for h in hs if self.alone(h)]
        own = [h for h in hs if self.owns(h) and prod(self.sh(h))]
        full = [h for h in hs if prod(self.sh(h))]
        free = self.spare()
        x = r.random()
        if not hs or (free and x < 0.07):
            if r.random() < 0.6:
                self.newv(r.choice(free), self.shape(), None, r.choice([0, 0, 0.5, 1]))
            else:
                self.new(r.choice(free), self.shape())
        elif x < 0.13 and free:
            self.copy(r.choice(free), r.choice(hs))
        elif x < 0.19 and alone and len(hs) > 1:
            h = r.choice(alone)
            self.assign(h, r.choice([g for g in hs if g != h]))
        elif x < 0.23 and full:
            self.do("DAll", [(h := r.choice(full)), (v := self.val())], h=h, val=v)
        elif x < 0.32 and full:
            h = r.choice(full)
            s, e = self.box(self.sh(h))
            self.fill(h, s, e, self.val())
        elif x < 0.44 and full:
            h, g = r.choice(full), r.choice(full)
            n = [r.randrange(1, min(a, b) + 1) for a, b in zip(self.sh(h), self.sh(g))]
            is_ = [r.randrange(a - k + 1) for a, k in zip(self.sh(g), n)]
            os = [r.randrange(a - k + 1) for a, k in zip(self.sh(h), n)]
            if self.han[h]["b"] == self.han[g]["b"]:
                a = [p + q for p, q in zip(is_, self.han[g]["s"])]
                b = [p + q for p, q in zip(os, self.han[h]["s"])]
                if all(p < q + k and q < p + k for p, q, k in zip(a, b, n)):
                    return
            self.frm(h, g, is_, [a + k for a, k in zip(is_, n)], os)
        elif x < 0.49 and own:
            h = r.choice(own)
            os = self.at(h)
            n = r.randrange(1, self.sh(h)[-1] - os[-1] + 1)
            self.column(h, os, [self.val() for _ in range(n * self.v)])
        elif x < 0.55 and alone:
            h = r.choice(alone)
            sh = list(self.sh(h))
            if r.random() < 0.4 and sh[0] > 1:
                sh[0] = r.randrange(1, sh[0] + 1)
            else:
                sh = self.shape()
            how = r.choice([0, 0, 1] + ([2] if self.d == 1 else []))
            self.resize(h, sh, how, self.val())
            if how != 1 and r.random() < 0.5:
                self.do("DAll", [h, (v := self.val())], h=h, val=v)
        elif x < 0.57 and own:
            self.do("DClear", [(h := r.choice(own))], h=h)
        elif x < 0.64 and full:
            self.setat(r.choice(full))
        elif x < 0.69 and full:
            h, g = r.choice(full), r.choice(full)
            p, q = self.at(h), self.at(g)
            self.do("DMove", [h, g, p, q], h=h, g=g, x=p, y=q)
        elif x < 0.80 and free and full:
            g = r.choice(full)
            self.view(r.choice(free), g, *self.box(self.sh(g)))
        elif x < 0.84 and len(hs) > 2:
            self.drop(r.choice(hs))
        elif x < 0.90 and alone and len(full) > 1:
            h = r.choice(alone)
            ax = r.choice([1, 1, 1, r.randrange(1, self.d + 1)])
            g = [g for g in full if g != h and all(i == ax - 1 or a == b for i, (a, b) in enumerate(zip(self.sh(h), self.sh(g))))]
            if g and prod(self.sh(h)) and prod(self.sh(h)) < 200:
                self.app(h, r.choice(g), ax, r.randrange(2))
        elif x < 0.95 and alone and len(full) > 1:
            h = r.choice(alone)
            g = [g for g in full if g != h]
            if g:
                self.swap(h, r.choice(g), r.randrange(1, self.d + 1), r.randrange(1, self.d + 1))
        elif full:
            h = r.choice(full)
            how = r.randrange(3)
            s, e = self.box(self.sh(h)) if how == 2 else ([0] * self.d, list(self.sh(h)))
            k = r.randrange(-3, 4)
            self.do("DAdd", [h, how, k, s, e], h=h, s=s, e=e, k=k)


def dense_random(seed, n=25):
    r = random.Random("dense/" + seed)
    h = DH(r, r.choice([1, 2, 2, 3, 3]), r.choice([1, 2, 3]))
    for _ in range(n):
        h.step()
        if h.han and r.random() < 0.5:
            h.look()
    return h.ops


def dense_from_model(hist, r):
    h = DH(r, 2, 1)
    for e in hist:
        op = e["op"]
        if op == "DNewV":
            h.newv(e["h"], e["sh"], e["d"] + 1)
        elif op == "DCopy":
            h.copy(e["h"], e["g"])
        elif op == "DAssign":
            h.assign(e["h"], e["g"])
        elif op == "DResize":
            h.resize(e["h"], e["sh"], 0, 0)
        elif op == "DView":
            h.view(e["h"], e["g"], e["s"], e["e"])
        elif op == "DFill":
            h.fill(e["h"], e["s"], e["e"], e["val"])
        elif op == "DFrom":
            h.frm(e["h"], e["g"], e["is"], e["ie"], e["os"])
        elif op == "DApp":
            h.app(e["h"], e["g"], e["ax"], e["how"])
        elif op == "DSwap":
            h.swap(e["h"], e["g"], e["i"], e["j"])
        elif op == "DDrop":
            h.drop(e["h"])
    if h.han:
        h.look()
        h.look()
    return h.ops


def p21(c):
    b = c.pool.submit(c.build, "dense_driver.cc")
    c.assumptions = ["regions are not empty", "a copied region does not overlap its destination", "an array is resized, assigned to, or extended only while it has no views",
                     "resizing keeps elements only where the first extent alone shrinks", "extension along an axis other than the first is refused"]
    mc = c.pool.submit(c.model_check, "MCDense.tla", "MCDense.cfg", 6, 840, {"MaxOps": 5} if c.thorough else {"MaxOps": 4}, True, "8g")
    n = 4 if c.thorough else 3
    hs = [x for x in c.histories("MCDense.tla", "MCDense.cfg", {"MaxOps": n, "Shapes": "{12, 21, 22}"}) if len(x) == n]
    c.extra["histories_enumerated_by_tlc"] = len(hs)
    hs = sample(hs, 12000 if c.thorough else 1500, c.seed)
    ops = [dense_from_model(h, random.Random("m%d/%s" % (i, c.seed))) for i, h in enumerate(hs)]
    ops += [dense_random("%s/%d" % (c.seed, i)) for i in range(6000 if c.thorough else 700)]
    mc.result()
    return c.conform(b.result(), ops, merge_ops, "TraceDense.tla", "TraceDense.cfg", "dense", heap="3g")


# ------------------------------------------------------------------------------------------------ downsampling
def pieces(cuts):
    for t in itertools.product(*[range(len(q) - 1) for q in cuts]):
        yield [cuts[i][k] for i, k in enumerate(t)], [cuts[i][k + 1] for i, k in enumerate(t)]


def down_history(r, s, sh, f, cuts, v):
    h = DH(r, len(s), v)
    h.newv(1, sh)
    h.new(2, [1] * len(s), 1, 0)
    h.down(2, 1, s, f)
    h.downsh(s, sh, f)
    for a, b in pieces(cuts):
        p = [x + y for x, y in zip(s, a)]
        if r.random() < 0.5:
            h.view(3, 1, a, b)
        else:
            h.new(3, [y - x for x, y in zip(a, b)], 0, 0)
            h.frm(3, 1, a, b, [0] * len(s))
        if r.random() < 0.5:
            h.drop(2)
            h.new(2, h.shape(), 1, 5)
        h.down(2, 3, p, f)
        h.downsh(p, [y - x for x, y in zip(a, b)], f)
        h.drop(3)
    return h.ops


def p20(c):
    b = c.pool.submit(c.build, "dense_driver.cc")
    c.assumptions = ["pieces are not empty (their downsampled version may be)"]
    mcs = [c.pool.submit(c.model_check, "MCDown.tla", "MCDown.cfg", 4, 840, k) for k in
           ([{"D": 2, "MaxS": 2, "MaxSh": 3, "MaxF": 3}] if not c.thorough else [{"D": 1, "MaxS": 9, "MaxSh": 9, "MaxF": 8}, {"D": 2, "MaxS": 3, "MaxSh": 4, "MaxF": 5}, {"D": 3, "MaxS": 1, "MaxSh": 2, "MaxF": 3}])]
    hs = c.histories("MCDown.tla", "MCDown.cfg", {"D": 1, "MaxS": 5, "MaxSh": 6, "MaxF": 5})
    hs += c.histories("MCDown.tla", "MCDown.cfg", {"D": 2, "MaxS": 1, "MaxSh": 3, "MaxF": 3})
    c.extra["histories_enumerated_by_tlc"] = len(hs)
    hs = sample(hs, 6000 if c.thorough else 1200, c.seed)
    ops = []
    for i, h in enumerate(hs):
        x = h[0]
        ops.append(down_history(random.Random("%s/%d" % (c.seed, i)), x["s"], x["sh"], x["f"], x["cuts"], 1 + i % 3))
    for i in range(2000 if c.thorough else 250):
        r = random.Random("down/%s/%d" % (c.seed, i))
        d = r.choice([1, 2, 3])
        sh = [r.randrange(1, 6 if d == 3 else 12) for _ in range(d)]
        cuts = [[0] + sorted(r.sample(range(1, n), r.randrange(0, min(n, 3)))) + [n] for n in sh]
        ops.append(down_history(r, [r.choice([0, r.randrange(0, 8), r.randrange(0, 40)]) for _ in sh], sh, [r.choice([1, 2, 3, r.randrange(1, 15)]) for _ in sh], cuts, r.choice([1, 2])))
    for m in mcs:
        m.result()
    return c.conform(b.result(), ops, merge_ops, "TraceDense.tla", "TraceDense.cfg", "down")


# ------------------------------------------------------------------------------------------------ loops and boxes
class LH(H):
    def chunks(self, sg, s, e, c):
        self.op("LChunks", ["v"], [sg, len(s), s, e, c], s=s, e=e, c=c)

    def elems(self, sg, s, e):
        self.op("LElems", ["v"], [sg, len(s), s, e], s=s, e=e)

    def arr(self, sh, c):
        self.op("LArr", ["v"], [0, len(sh), sh, c], s=[0] * len(sh), e=sh, c=c)

    def over(self, sg, as_, ash, bs, bsh):
        self.op("LOver", ["r", "v"], [sg, len(as_), as_, ash, bs, bsh], ash=ash, bs=bs, bsh=bsh, **{"as": as_})

    def cont(self, s, sh, x):
        self.op("LCont", ["r"], [0, len(s), s, sh, x], s=s, sh=sh, x=x)

    def empty(self, s, e):
        self.op("LEmpty", ["r"], [0, len(s), s, e], s=s, e=e)


def p22(c):
    b = c.pool.submit(c.build, "dense_driver.cc")
    c.assumptions = ["boxes to intersect are not empty; membership is asked with unsigned indices", "sums of begin and chunk size do not overflow"]
    cons = [{"D": 1, "Lo": 2, "MaxE": 5, "MaxC": 4}, {"D": 2, "Lo": 1, "MaxE": 2, "MaxC": 3}] + \
           ([{"D": 2, "Lo": 0, "MaxE": 5, "MaxC": 4}, {"D": 3, "Lo": 0, "MaxE": 3, "MaxC": 2}] if c.thorough else [])
    mcs = [c.pool.submit(c.model_check, "MCLoops.tla", "MCLoops.cfg", 4, 840, k) for k in cons]
    mcs += [c.pool.submit(c.model_check, "MCLoops.tla", "MCLoops.cfg", 2, 840, {"D": 3, "Lo": 0, "MaxE": 2, "MaxC": 2})]
    hs = []
    for k in cons[:2] + [{"D": 2, "Lo": 0, "MaxE": 4, "MaxC": 3}, {"D": 3, "Lo": 0, "MaxE": 2, "MaxC": 2}]:
        hs += c.histories("MCLoops.tla", "MCLoops.cfg", k)
    c.extra["regions_enumerated_by_tlc"] = len(hs)
    r = random.Random("loops/%s" % c.seed)
    ops = []
    cur = LH()
    def nxt():
        nonlocal cur
        if len(cur.ops) >= 200:
            ops.append(cur.ops)
            cur = LH()
        return cur
    for h in hs:
        x = h[0]
        neg = any(v < 0 for v in x["b"] + x["e"])
        for sg in ([1] if neg else [0, 1]):
            nxt().chunks(sg, x["b"], x["e"], x["c"])
            if all(v == 1 for v in x["c"]):
                nxt().elems(sg, x["b"], x["e"])
        if not neg and not any(x["b"]) and all(x["e"]):
            nxt().arr(x["e"], x["c"])
        if not neg:
            nxt().empty(x["b"], x["e"])
    for i in range(20000 if c.thorough else 2500):
        d = r.choice([1, 2, 3, 3, 4])
        sg = r.randrange(2)
        lo = -6 if sg else 0
        m = {1: 20, 2: 7, 3: 5, 4: 4}[d]
        s = [r.randrange(lo, 8) for _ in range(d)]
        e = [a + r.choice([r.randrange(0, m), r.randrange(-2, m)]) for a in s]
        if not sg:
            e = [max(0, x) for x in e]
        k = [r.choice([1, 2, r.randrange(1, m + 2), r.choice([m + 3, 1000000])]) for _ in range(d)]
        nxt().chunks(sg, s, e, k)
        if i % 4 == 0:                                                 # few, but large
            big = [r.choice([r.randrange(8, 40), r.randrange(40, 300), r.choice([64, 128, 1024, 4096])]) for _ in range(d)]
            num = [r.choice([1, 2, 3, 4]) if q < 2 else 1 for q in range(d)]
            s2 = [r.randrange(0, 3000) - (1500 if sg else 0) for _ in range(d)]
            nxt().chunks(sg, s2, [a + max(0, c_ * n + r.choice([0, 0, 1, 2, -1, -2, c_ // 8, c_ // 2, r.randrange(-c_, c_)])) for a, c_, n in zip(s2, big, num)], big)
        if r.random() < 0.4:
            nxt().elems(sg, s, e)
        if not sg:
            nxt().empty(s, e)
            if r.random() < 0.3:
                nxt().arr([r.randrange(1, m) for _ in range(d)], k)
        ash, bsh = [r.randrange(1, 5) for _ in range(d)], [r.randrange(1, 5) for _ in range(d)]
        bs = [a + r.choice([0, n, -k, n - 1, 1 - k, r.randrange(-4, 5)]) for a, n, k in zip(s, ash, bsh)]
        if not sg:
            bs = [max(0, x) for x in bs]
        nxt().over(sg, s, ash, bs, bsh)
        nxt().over(sg, s, ash, [a + r.randrange(-1, 2) if a > 0 else a for a in s], bsh)
        us = [abs(x) for x in s]
        nxt().cont(us, ash, [max(0, a + r.choice([0, n - 1, n, -1, r.randrange(0, 6)])) for a, n in zip(us, ash)])
        nxt().cont(us, ash, [a + r.randrange(0, n) for a, n in zip(us, ash)])
    ops.append(cur.ops)
    for m in mcs:
        m.result()
    return c.conform(b.result(), ops, merge_ops, "TraceDense.tla", "TraceDense.cfg", "loops")


# ------------------------------------------------------------------------------------------------ quadrature weights
def p23(c):
    b = c.pool.submit(c.build, "dense_driver.cc")
    c.assumptions = ["there are at least two points, blocks are not empty"]
    n = 12 if c.thorough else 10
    hs = c.histories("MCSplit.tla", "MCSplit.cfg", {"MaxN": n})
    c.extra["splits_enumerated_by_tlc"] = len(hs)
    c.extra["exhaustive"] = "all ways of splitting up to %d points" % n
    ops, cur = [], H()
    def add(n, bl, slack=1):
        nonlocal cur
        if len(cur.ops) >= 100:
            ops.append(cur.ops)
            cur = H()
        cur.op("QSplit", ["v"], [n, len(bl), slack, bl], n=n)
    for h in hs:
        add(h[0]["n"], h[0]["blocks"])
    r = random.Random("quad/%s" % c.seed)
    for i in range(3000 if c.thorough else 400):
        n = r.choice([r.randrange(2, 40), r.randrange(2, 400), r.choice([99, 100, 101, 200, 201, 1000, 1001])])
        bl, left, size = [], n, r.choice([1, 2, 7, 50, 100, n])
        while left:
            k = min(left, size if r.random() < 0.7 else r.randrange(1, size + 1))
            bl.append(k)
            left -= k
        add(n, bl, r.choice([0, 1, 8]))
    ops.append(cur.ops)
    return c.conform(b.result(), ops, merge_ops, "TraceDense.tla", "TraceDense.cfg", "quad")


# ------------------------------------------------------------------------------------------------ interpolation
def batches(r, n):
    k = r.choice([0, 0, 1, 2])
    if k == 0:
        return [n]
    if k == 1:
        return [1] * n
    out = []
    while n:
        out.append(r.randrange(1, n + 1))
        n -= out[-1]
    return out


def fnum(x):
    return repr(float(x)) if isinstance(x, float) else str(int(x))


def interp_history(seed):
    r = random.Random("interp/" + seed)
    v = r.choice([1, 2, 2, 3])
    h = DH(r, 3, v)
    for _ in range(4):
        kern = r.choice([1, 2])
        lo, hi = (0, 1) if kern == 1 else (1, 2)         # neighbours below, above the cell
        N = [r.randrange(lo + hi + 1, lo + hi + 6) for _ in range(2)] + [r.randrange(lo + hi + 1, lo + hi + 12)]
        wide = r.random() < 0.1
        if wide:
            N[2] = r.randrange(20, 200)
            N[r.randrange(2)] = r.randrange(8, 40)
        m = r.choice([5, 9, 11, 17])
        co = [[r.randrange(m) for _ in range(3)] + [r.choice([0, 1]), r.randrange(m)] for _ in range(v)]
        view = r.randrange(2)
        head = [kern] + N + [x for q in co for x in q] + [m, view]
        rng = lambda n: (16 * lo, 16 * (n - 1 - hi) + 15)
        for _ in range(6):
            p = [r.choice([r.randrange(rng(n)[0], rng(n)[1] + 1), 16 * r.randrange(lo, n - hi)]) for n in N[:2]]
            a, b = rng(N[2])
            q = r.choice([r.randrange(a, b + 1), 16 * r.randrange(lo, N[2] - hi)])
            n = r.randrange(1, 9) if not wide else r.choice([r.randrange(9, 40), r.randrange(60, 150)])
            d = r.choice([0, 1, 8, 16, 32, r.randrange(0, 40)])
            if n > 1:
                d = min(d, (b - q) // (n - 1))
            bl = batches(r, n)
            h.op("DInterp", ["v"], head + p + [q, d, len(bl)] + bl, kern=kern, sh=N, co=co, m=m, p=p, q=q, d=d, n=n, vd=v, tol=12)
        # positions that are not representable: the same points in different batches
        for _ in range(2):
            p = [r.uniform(lo, n - 1 - hi + 0.99) for n in N[:2]]
            n = r.randrange(2, 40) if not wide else r.choice([r.randrange(2, 300), r.randrange(500, 1100)])
            q = r.uniform(lo, N[2] - 1 - hi + 0.5)
            d = (N[2] - 1 - hi + 0.99 - q) / n * r.random()
            key = len(h.ops)
            for bl in [[n], [1] * n, batches(r, n)]:
                h.op("DIDiff", ["v"], [], key=key, n=n * v, tol=8)
                h.ops[-1]["script"] = "DIDiff " + " ".join([fnum(x) for x in head + p + [q, d] + [len(bl)] + bl])
    return h.ops


def p24(c):
    b = c.pool.submit(c.build, "dense_driver.cc", (), True, "-O1")
    c.assumptions = ["positions keep the neighbourhood of the kernel inside of the array", "the output buffer is zero before", "three-dimensional arrays, single precision"]
    ops = [interp_history("%s/%d" % (c.seed, i)) for i in range(2500 if c.thorough else 300)]
    # every position in sixteenths of one cell, every axis, both kernels
    r = random.Random(c.seed)
    for kern in (1, 2):
        lo, hi = (0, 1) if kern == 1 else (1, 2)
        for ax in range(3):
            h = DH(r, 3, 2)
            N = [lo + hi + 2] * 3
            m = 17
            co = [[r.randrange(m) for _ in range(3)] + [1, r.randrange(m)] for _ in range(2)]
            head = [kern] + N + [x for q in co for x in q] + [m, 0]
            for k in range(32):
                p = [16 * lo + 16 + 5] * 3
                p[ax] = 16 * lo + k
                h.op("DInterp", ["v"], head + p[:2] + [p[2], 0, 1, 1], kern=kern, sh=N, co=co, m=m, p=p[:2], q=p[2], d=0, n=1, vd=2, tol=12)
            ops.append(h.ops)
    c.extra["exhaustive"] = "all positions in sixteenths of a cell per axis, both kernels"
    return c.conform(b.result(), ops, merge_ops, "TraceDense.tla", "TraceDense.cfg", "interp")


# ------------------------------------------------------------------------------------------------ NumPy files
def digits(n):
    return [int(x) for x in str(n)]


def npy(h, sh, v, m, cc):
    h.op("DNpy", ["b"], [], digits=[digits(x) for x in sh] + [digits(v)], count=prod(sh) * v,
         words=dict(m=[(m >> s) & 255 for s in (24, 16, 8, 0)], c=[(cc >> s) & 255 for s in (24, 16, 8, 0)]))
    h.ops[-1]["script"] = "DNpy " + " ".join(str(x) for x in list(sh) + [m, cc, h.r.choice([0, 1, 1, 2, 3, 4, 5, 6])])


def p25(c):
    b = c.pool.submit(c.build, "dense_driver.cc")
    c.assumptions = ["the exported array owns its data"]
    r = random.Random("npy/%s" % c.seed)
    ops = []
    for d, v in [(d, v) for d in (1, 2, 3) for v in (1, 2, 3)] + [(4, 1)]:
        for k in range(40 if c.thorough else 5):
            h = DH(r, d, v)
            for _ in range(6):
                sh = [r.choice([1, 2, r.randrange(1, 12 if d < 3 else 6), r.choice([10, 11]) if d < 3 else 3]) for _ in range(d)]
                npy(h, sh, v, r.randrange(1, 2**32), r.randrange(2**32))
            # the length of the header crosses a multiple of 64 only with large extents: arrays without elements
            if d > 1:
                sh = [0] + [r.randrange(10 ** (q - 1), 10 ** q) for q in (r.randrange(1, 19) for _ in range(d - 1))]
                npy(h, sh, v, 1, 0)
            ops.append(h.ops)
    # all header lengths around the next multiple of 64
    for t in range(44, 62):
        h = DH(r, 4, 1)
        q = [18, 18, 18]
        while sum(q) > t - 6:
            q[r.choice([i for i in range(3) if q[i] > 1])] -= 1
        npy(h, [0] + [r.randrange(10 ** (k - 1), 10 ** k) for k in q], 1, 1, 0)
        ops.append(h.ops)
    for d, v, sh in [(1, 1, [9999]), (1, 1, [10000]), (2, 1, [73, 137]), (2, 2, [50, 100]), (3, 3, [10, 23, 29]), (1, 2, [10001]), (3, 1, [20, 30, 34])]:
        h = DH(r, d, v)
        npy(h, sh, v, r.randrange(1, 2**32), r.randrange(2**32))
        ops.append(h.ops)
    return c.conform(b.result(), ops, merge_ops, "TraceDense.tla", "TraceDense.cfg", "npy", heap="3g")


# ------------------------------------------------------------------------------------------------ vectors
EACH = ["add", "sub", "mul", "div", "adds", "subs", "muls", "divs", "iadd", "isub", "imul", "idiv", "iadds", "isubs", "imuls", "idivs",
        "eq", "ne", "ge", "min", "max", "mins", "inner", "int", "float", "size", "copy", "move", "assign", "zero", "const", "fill", "at",
        "setat", "begin", "viewset", "viewown", "null", "selfadds", "selfmuls", "selfsubs", "selfadd", "selfcopy"]
FLOATS = ["maxs", "ceil", "floor", "ceilnext", "floorprev"]


def vec_args(r, ty, f, d, small=False):
    fl = ty in (2, 3)
    m = 3 if small else (50 if not fl else 200)
    lo = 0 if ty == 1 or f in ("size", "ceil", "floor") else 1 if f in ("ceilnext", "floorprev") else -m
    v = lambda: r.randrange(lo, m + 1)
    a, b, k = [v() for _ in range(d)], [v() for _ in range(d)], v()
    if f in ("div", "idiv", "divs", "idivs"):
        nz = lambda x: x if x else r.choice([1, 2, 3, 8])
        b, k = [nz(x) for x in b], nz(k)
        if fl:
            a = [x * r.randrange(-9, 10) for x in b] if f in ("div", "idiv") else [k * r.randrange(-9, 10) for _ in b]
    if ty == 1 and f in ("sub", "isub"):
        a = [x + y for x, y in zip(a, b)]
    if ty == 1 and f in ("subs", "isubs"):
        a = [x + k for x in a]
    if ty == 1 and f == "selfsubs":
        a = [a[0]] + [x + a[0] for x in a[1:]]
    if f in ("eq", "ne", "null", "ge") and r.random() < 0.8:
        if f == "null":
            a = [0] * d
        else:
            b = list(a)
        if r.random() < 0.6:
            i = r.randrange(d)
            if f == "null":
                a[i] = v()
            else:
                b[i] = max(lo, b[i] + r.choice([-1, 1]))
    return a, b, k


def p26(c):
    b = c.pool.submit(c.build, "dense_driver.cc")
    c.assumptions = ["integers and small multiples of 1/8 (exact in floating point), no overflow, no division by zero", "mixed minimum and maximum: the result is representable in the first operand's type"]
    ops, cur = [], H()
    r = random.Random("vec/%s" % c.seed)
    def put(ty, f, a, b_, k):
        nonlocal cur
        if len(cur.ops) >= 300:
            ops.append(cur.ops)
            cur = H()
        cur.op("VOp", ["v", "a", "b"], [], ty=ty, f=f, x=a, y=b_, k=k)
        cur.ops[-1]["script"] = "VOp %d %d %s " % (len(a), ty, f) + " ".join(str(x) for x in a + b_ + [k])
    n = 40 if c.thorough else 12
    for d in (1, 2, 3, 4):
        for ty in (0, 1, 2, 3):
            for f in EACH + (FLOATS if ty in (2, 3) else []):
                for i in range(n * 4 if f in ("eq", "ne", "ge", "null") else n):
                    put(ty, f, *vec_args(r, ty, f, d, i % 2 == 0))
        # large numbers: exact in the type itself and (up to 2^31) in the specification, but not in single precision
        for ty in (0, 1, 3):
            for f in ("inner", "mul", "imul", "muls", "imuls", "add", "iadd", "sub", "adds", "isub", "max", "min", "mins", "eq", "ge", "copy", "move", "assign", "const", "fill", "viewset", "viewown") + (("maxs",) if ty == 3 else ()):
                for i in range(max(1, n // 3)):
                    v = lambda: r.randrange(15000, 21000) | 1
                    a, b_, k = [v() for _ in range(d)], [v() for _ in range(d)], v()
                    if f not in ("inner", "mul", "imul", "muls", "imuls"):
                        a, b_, k = [[x * 47000 + r.randrange(47000) for x in q] for q in (a, b_)] + [k * 47000 + 1]
                    if f == "eq" or f == "ge":
                        b_ = list(a)
                        b_[r.randrange(d)] += r.randrange(-1, 2)
                    if f in ("sub", "isub") and ty == 1:
                        a = [max(x, y) for x, y in zip(a, b_)]
                    put(ty, f, a, b_, k)
        for ty, m in ((2, 2**22), (3, 2**29)):
            for f in ("ceil", "floor", "ceilnext", "eq", "ge", "max", "maxs", "min", "mins", "size", "copy"):
                for i in range(max(2, n // 2)):
                    v = lambda: min(m, 2 ** r.randrange(6, 31) + r.choice([-8, -1, 0, 1, 8])) if i % 2 else r.randrange(1, m)
                    put(ty, f, [v() for _ in range(d)], [v() for _ in range(d)], v())
        # mixed signedness
        for i in range(n * 4):
            for f in ("min", "max", "mins"):
                a = [r.randrange(-9, 10) for _ in range(d)]
                u = [r.randrange(0, 10) for _ in range(d)]
                put(4, f, a, u, r.randrange(0, 10))
                put(5, "max", u, a, 0)
                put(5, f, u, [abs(x) for x in a], r.randrange(0, 10))
    # all pairs of a small range
    rng = list(itertools.product(range(-2, 3), repeat=2))
    for f in ("add", "sub", "mul", "eq", "ne", "ge", "min", "max"):
        for a in rng:
            for b_ in rng if c.thorough else r.sample(rng, 6):
                put(0, f, list(a), list(b_), 1)
    for ty in (0, 1, 2):
        for f in ("rz", "zr", "rzt", "tzr", "xyz", "xyzt"):
            for i in range(n):
                if len(cur.ops) >= 300:
                    ops.append(cur.ops)
                    cur = H()
                x = [r.randrange(0 if ty == 1 else -50, 51) for _ in range(4)]
                cur.op("VName", ["v"], [], f=f, x=x)
                cur.ops[-1]["script"] = "VName %d %s " % (ty, f) + " ".join(str(v) for v in x)
    ops.append(cur.ops)
    return c.conform(b.result(), ops, merge_ops, "TraceDense.tla", "TraceDense.cfg", "vec")
