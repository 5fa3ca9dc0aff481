"""Generates histories of distributed-array operations (script lines for drivers/dist_driver.cc plus trace events)."""
import itertools, random


def flat(v):
    return " ".join(str(int(x)) for x in v)


def cp(c):
    c = dict(c)
    c["s"], c["e"] = list(c["s"]), list(c["e"])
    return c


def prod(v):
    p = 1
    for x in v:
        p *= x
    return p


class Hist:
    """One history under construction, with just enough bookkeeping to produce operations in their domain."""

    def __init__(self, rng, dims=3, vec=2):
        self.rng, self.D, self.vec = rng, dims, vec
        self.ops = []
        self.nextdir = 1
        self.obj = {}      # id -> state
        self.stored = {}   # dir -> chunks (closed arrays)
        self.flags = {}
        self.pz = 0.5

    # ---------------------------------------------------------------- raw operations
    def emit(self, script, ev, need, post=None):
        self.ops.append({"script": script, "ev": ev, "need": need, "post": post})

    def newdir(self):
        self.nextdir += 1
        return self.nextdir - 1

    def value(self, pz):
        r = self.rng
        if r.random() < pz:
            return 0
        a = r.randrange(0, 1000)
        if self.vec == 1:
            return max(a, 1)
        b = r.randrange(0, 1000)
        k = r.random()
        if k < 0.12:
            a = 0
        elif k < 0.24:
            b = 0
        return (a + 1000 * b) or 1

    def data(self, n, pz=None):
        r = self.rng
        if pz is None:
            pz = r.choice([0, 0, 0.5, 0.9, 1.0]) if r.random() < self.pz else 0
        if pz not in (0, 1.0) and r.random() < 0.5:   # runs of zeros
            out = []
            while len(out) < n:
                k = r.randrange(1, 7)
                z = r.random() < pz
                out += [0 if z else self.value(0) for _ in range(k)]
            return out[:n]
        return [self.value(pz) for _ in range(n)]

    def ser_tokens(self, ser):
        return flat(ser)

    def new(self, a, d=None, cache=1, ser=None):
        if d is None:
            d = self.newdir()
        ser = ser or [1] + [-1] * (self.D - 1)
        self.emit("New %d %d %d %s" % (a, d, cache, flat(ser)), {"op": "New", "a": a, "dir": d}, ["r"])
        self.obj[a] = {"dir": d, "ch": self.stored.pop(d, []), "per": None, "cache": cache, "ser": ser, "swapped": False,
                       "dirty": False}
        self.obj[a].update(self.flags.pop(d, {}))
        self.obj[a]["per"] = [cp(c) for c in self.obj[a]["ch"]]
        return d

    def reg(self, a, s, e, ov=0, opt=0, d=None, pz=None):
        sh = [y - x + 2 * ov for x, y in zip(s, e)]
        d = d if d is not None else self.data(prod(sh), pz)
        null = opt == 1 and not any(d)
        self.emit("Reg %d %s %s %d %d %s" % (a, flat(s), flat(e), ov, opt, flat(d)),
                  {"op": "Reg", "a": a, "s": s, "e": e, "ov": ov, "opt": opt, "d": d}, ["r"])
        self.obj[a]["ch"].append({"s": list(s), "e": list(e), "ov": ov, "null": null})

    def app(self, a, ax, s, sh, must, d=None, pz=None):
        """ax is 1-based.  The effect on the bookkeeping is left to the caller (accepted() below)."""
        d = d if d is not None else self.data(prod(sh), pz)
        self.emit("App %d %d %s %s %s" % (a, ax, flat(s), flat(sh), flat(d)),
                  {"op": "App", "a": a, "ax": ax, "s": s, "sh": sh, "d": d, "must": must}, ["r"])

    def get(self, a, x):
        self.emit("Get %d %s" % (a, flat(x)), {"op": "Get", "a": a, "x": x}, ["v"])

    def fill(self, a, s, e, o, ash, bg=None):
        bg = self.value(0) if bg is None else bg
        self.emit("Fill %d %s %s %s %s %d" % (a, flat(s), flat(e), flat(o), flat(ash), bg),
                  {"op": "Fill", "a": a, "s": s, "e": e, "o": o, "as": ash, "bg": bg}, ["v"])

    def shape(self, a):
        self.emit("Shape %d" % a, {"op": "Shape", "a": a}, ["v"])

    def loop(self, a):
        n0 = self.D
        self.emit("Loop %d" % a, {"op": "Loop", "a": a, "n0": n0}, ["xs", "vs"])

    def flush(self, a):
        self.emit("Flush %d" % a, {"op": "Flush", "a": a}, ["r"])
        o = self.obj[a]
        o["per"] = [cp(c) for c in o["ch"]]
        o["dirty"] = False
        o["swapdirty"] = False

    def close(self, a):
        self.emit("Close %d" % a, {"op": "Close", "a": a}, ["r"])
        o = self.obj.pop(a)
        self.stored[o["dir"]] = o["ch"]
        self.flags[o["dir"]] = {k: o.get(k, False) for k in ("swapped", "grown", "crashed")}
        return o["dir"]

    def crash(self, a, cache, ser):
        d = self.newdir()
        self.emit("Crash %d %d %d %s" % (a, d, cache, flat(ser)), {"op": "Crash", "a": a, "dir": d}, ["r"])
        o = self.obj[a]
        grown = any(c["e"] != p["e"] for p in o["per"] for c in o["ch"] if c["s"] == p["s"])
        self.obj[a] = {"dir": d, "ch": [cp(c) for c in o["per"]], "per": [cp(c) for c in o["per"]], "cache": cache, "ser": ser,
                       "swapped": o["swapped"], "dirty": False, "grown": grown or o.get("grown", False), "crashed": True}

    def move(self, a):
        d = self.newdir()
        old = self.obj[a]["dir"]
        self.emit("Move %d %d" % (a, d), {"op": "Move", "a": a, "dir": d}, ["r"])
        o = self.obj[a]
        o["dir"] = d
        o["per"] = [cp(c) for c in o["ch"]]
        o["swapdirty"] = False
        self.emit("Gone %d" % old, {"op": "Gone", "dir": old}, ["gone"])

    def imp(self, a, d, mv):
        self.emit("Import %d %d %d" % (a, d, mv), {"op": "Import", "a": a, "dir": d, "move": mv}, ["r"])
        self.obj[a]["ch"] += [cp(c) for c in self.stored[d]]
        if mv:
            del self.stored[d]

    @staticmethod
    def _calls(D):
        def post(e):
            c = e["calls"]
            seen = sorted(set(tuple(c[i:i + D]) for i in range(0, len(c), D)))
            e["calls"] = [list(x) for x in seen]
        return post

    def tiles(self, s, e, csh):
        ax = [[(x, min(x + c, b)) for x in range(a, b, c)] for a, b, c in zip(s, e, csh)]
        return [([t[0] for t in q], [t[1] for t in q]) for q in itertools.product(*ax)]

    def rebuild(self, a, csh, ov, opt, ev):
        tmp = self.newdir()
        if ev == "none":
            ov = 0
        self.emit("Rebuild %d %s %d %d %d %s" % (a, flat(csh), tmp, ov, opt, ev),
                  {"op": "Rebuild", "a": a, "csh": csh, "ov": ov, "opt": opt, "ev": ev}, ["r", "calls", "tmpgone"], self._calls(self.D))
        o = self.obj[a]
        e = self.bbox(a)[1]
        o["ch"] = [{"s": t[0], "e": t[1], "ov": ov, "null": opt == 1} for t in self.tiles([0] * self.D, e, csh)]
        o["per"] = [cp(c) for c in o["ch"]]
        o["swapdirty"] = o["grown"] = o["crashed"] = False

    def part(self, a, s, e, o, csh, ov, opt, ev, d=None):
        d = d or self.newdir()
        if ev == "none":
            ov, o = 0, s
        self.emit("Part %d %s %s %s %s %d %d %d %s" % (a, flat(s), flat(e), flat(o), flat(csh), d, ov, opt, ev),
                  {"op": "Part", "a": a, "s": s, "e": e, "o": o, "csh": csh, "dir": d, "ov": ov, "opt": opt, "ev": ev}, ["r", "calls"],
                  self._calls(self.D))
        sh = [y - x for x, y in zip(s, o)]
        self.stored.setdefault(d, [])
        self.stored[d] += [{"s": [p + q for p, q in zip(t[0], sh)], "e": [p + q for p, q in zip(t[1], sh)], "ov": ov, "null": opt == 1}
                           for t in self.tiles(s, e, csh)]
        return d

    def swap(self, a, i, j):
        self.emit("Swap %d %d %d" % (a, i, j), {"op": "Swap", "a": a, "i": min(i, j), "j": max(i, j)}, ["r"])
        o = self.obj[a]
        for c in o["ch"]:
            for k in ("s", "e"):
                c[k][i - 1], c[k][j - 1] = c[k][j - 1], c[k][i - 1]
        o["swapped"] = True
        o["swapdirty"] = True

    def dump(self, d):
        self.emit("Dump %d" % d, {"op": "Dump", "dir": d}, ["ch"])

    def files(self, d):
        self.emit("Files %d" % d, {"op": "Files", "dir": d}, ["n"])

    # ---------------------------------------------------------------- queries on the bookkeeping
    def bbox(self, a):
        ch = self.obj[a]["ch"]
        return [min(c["s"][i] for c in ch) for i in range(self.D)], [max(c["e"][i] for c in ch) for i in range(self.D)]

    def contiguous(self, a):
        ch = self.obj[a]["ch"]
        if not ch:
            return False
        s, e = self.bbox(a)
        return sum(prod([y - x for x, y in zip(c["s"], c["e"])]) for c in ch) == prod([y - x for x, y in zip(s, e)])

    def rnd_index(self, a):
        c = self.rng.choice(self.obj[a]["ch"])
        return [self.rng.randrange(x, y) for x, y in zip(c["s"], c["e"])]

    # ---------------------------------------------------------------- composite operations
    def rnd_get(self, a):
        if self.obj[a]["ch"]:
            self.get(a, self.rnd_index(a))

    def rnd_fill(self, a, whole=False):
        ch = self.obj[a]["ch"]
        if not ch:
            return
        r = self.rng
        s0, e0 = self.bbox(a)
        if whole:
            s, e = s0, e0
        else:
            s, e = [], []
            for x, y in zip(s0, e0):
                p = r.randrange(max(0, x - 1), y)
                q = r.randrange(p + 1, y + 2)
                s.append(p)
                e.append(q)
        o = [r.choice([0, 0, 1, 2]) for _ in s]
        ash = [y - x + p + r.choice([0, 0, 1]) for x, y, p in zip(s, e, o)]
        self.fill(a, s, e, o, ash)

    def rnd_append(self, a, plan_free=None, maxrows=3):
        """append to a random chunk that can be extended along the first axis (or another one, if the layout allows for it)"""
        r, o = self.rng, self.obj[a]
        if o.get("grown"):
            return False
        ser = o["ser"]
        cand = [c for c in o["ch"] if not c["null"] and c["ov"] == 0]
        if not cand:
            return False
        c = r.choice(cand)
        if ser[0] == -1 and self.D > 1:
            ax, must = 2, (1 if o["cache"] == 0 and ser[1] == 1 else 0)
            if ser[1] != 1:
                return False
        else:
            ax, must = 1, 1
        rows = r.randrange(1, maxrows + 1)
        if ser[ax - 1] == 2:
            if (c["e"][0] - c["s"][0]) % 2:
                return False
            rows = 2
        s = list(c["s"])
        s[ax - 1] = c["e"][ax - 1]
        sh = [y - x for x, y in zip(c["s"], c["e"])]
        sh[ax - 1] = rows
        e = [x + y for x, y in zip(s, sh)]
        for k in o["ch"]:
            if all(k["s"][i] < e[i] and s[i] < k["e"][i] for i in range(self.D)):
                return False
        if plan_free is not None and not plan_free(s, e):
            return False
        if not must:
            return False
        self.app(a, ax, s, sh, must)
        c["e"][ax - 1] += rows
        return True

    def bad_append(self, a):
        """an append that has to be rejected without any effect"""
        r, o = self.rng, self.obj[a]
        if not o["ch"] or o.get("grown"):
            return
        kind = r.choice(["shape", "nochunk", "null"])
        D = self.D
        if kind == "nochunk":
            s0, e0 = self.bbox(a)
            s = [y + 3 for y in e0]
            self.app(a, 1, s, [1] * D, 1)
        elif kind == "null":
            cand = [c for c in o["ch"] if c["null"] and c.get("surenull")]
            if cand:
                c = r.choice(cand)
                sh = [y - x for x, y in zip(c["s"], c["e"])]
                sh[0] = 1
                s = list(c["s"])
                s[0] = c["e"][0]
                self.app(a, 1, s, sh, 1)
        else:
            cand = [c for c in o["ch"] if c["ov"] == 0]
            if cand:
                c = r.choice(cand)
                sh = [y - x for x, y in zip(c["s"], c["e"])]
                sh[0] = r.randrange(1, 3)
                k = r.randrange(1, D)
                sh[k] += r.choice([1, -1]) if sh[k] > 1 else 1
                s = list(c["s"])
                s[0] = c["e"][0]
                self.app(a, 1, s, sh, 1)

    def checkpoint(self, a, full=True):
        """compare everything that can be observed"""
        self.shape(a)
        self.rnd_fill(a, whole=True)
        o = self.obj[a]
        if full and not o.get("crashed"):
            self.flush(a)
            self.dump(o["dir"])
            self.files(o["dir"])
        if self.contiguous(a) and self.bbox(a)[0] == [0] * self.D:
            self.loop(a)

    # ---------------------------------------------------------------- plans: tilings registered piece by piece
    def cuts(self, lo, hi, n):
        """split [lo, hi) into up to n pieces"""
        r = self.rng
        k = min(n, hi - lo) - 1
        pts = sorted(r.sample(range(lo + 1, hi), k)) if k > 0 else []
        pts = [lo] + pts + [hi]
        return list(zip(pts[:-1], pts[1:]))

    def plan(self, start, ext, pieces):
        ax = [self.cuts(s, s + x, p) for s, x, p in zip(start, ext, pieces)]
        t = [([q[0] for q in z], [q[1] for q in z]) for z in itertools.product(*ax)]
        self.rng.shuffle(t)
        return t


LAYOUTS3 = [[1, -1, -1], [1, -1, -1], [1, 1, -1], [1, 1, 1]]
LAYOUTS2 = [[1, -1], [1, -1], [1, 1]]


class Gen:
    """Weighted random walk over operations, with the weights given per property."""

    W0 = dict(reg=10, app=8, get=10, fill=4, shape=1, loop=1, flush=1, reopen=1, crash=0, move=0, imp=0, rebuild=0, part=0, swap=0, bad=1,
              check=1)

    def __init__(self, seed, dims=3, vec=2, weights=None, ov=0.15, opt=0.3, pz=0.5, steps=28, maxext=4, pieces=(1, 3), offset=0.15,
                 caches=(0, 1, 1, 2, 3, 4), gaps=0.15, evs=("none", "gen", "genl"), maxov=2, layouts=None, csh_max=4, append_frac=0.6, wide=0.07):
        self.wide = wide
        self.seed, self.dims, self.vec = seed, dims, vec
        self.w = dict(self.W0)
        self.w.update(weights or {})
        self.ov, self.opt, self.pz, self.steps, self.maxext, self.pieces = ov, opt, pz, steps, maxext, pieces
        self.offset, self.caches, self.gaps, self.evs, self.maxov, self.csh_max = offset, caches, gaps, evs, maxov, csh_max
        self.layouts = layouts or (LAYOUTS3 if dims == 3 else LAYOUTS2)
        self.append_frac = append_frac

    def layout(self, r):
        """cache depth and on-disk layout of a new object, and whether its chunks may be appended to"""
        x = r.random()
        if x < 0.08:
            return r.choice(self.caches), [2] + [-1] * (self.dims - 1)
        if x < 0.14:
            return 0, [-1, 1] + [-1] * (self.dims - 2)
        if x < 0.20 and self.dims == 3:
            return r.choice(self.caches), r.choice([[3, 2, -1], [2, 2, 2], [-1, -1, 2]])
        return r.choice(self.caches), list(r.choice(self.layouts))

    def history(self, index):
        r = random.Random("%s/%s/%s" % (self.seed, index, sorted(self.w.items())))
        h = Hist(r, self.dims, self.vec)
        h.pz = self.pz
        D = self.dims
        plans = {}
        # several arrays share the index space, so that they can be imported into each other: array k occupies its own slab
        nobj = 1
        if self.w["imp"]:
            nobj = r.choice([2, 2, 3])
        base = [0] * D
        wide = None
        if r.random() < self.offset:
            base = [r.randrange(0, 3) for _ in range(D)]
            if r.random() < 0.3:
                base = [r.choice([0, 1, r.randrange(300), r.randrange(70000)]) for _ in range(D)]
        impax = r.randrange(D)
        ext0 = [r.randrange(1, self.maxext + 1) for _ in range(D)]
        if r.random() < self.wide:
            # long along one axis: sizes, chunk numbers and margins beyond what the other histories reach
            wide = r.randrange(D)
            ext0 = [r.randrange(1, 3) for _ in range(D)]
            ext0[wide] = r.choice([r.randrange(9, 20), r.randrange(17, 40), r.randrange(33, 72)])
            if nobj > 1 and impax == wide:
                impax = (wide + 1) % D
        for a in range(1, nobj + 1):
            cache, ser = self.layout(r)
            if wide is not None and cache:
                cache = r.choice([cache, 6, 20])
            h.new(a, None, cache, ser)
            ext = list(ext0)
            if nobj > 1:
                ext[impax] = r.randrange(1, self.maxext + 1)
            start = list(base)
            pcs = [r.randrange(self.pieces[0], self.pieces[1] + 1) for _ in range(D)]
            if wide is not None:
                pcs[wide] = r.choice([1, 2, 3, 8, 20])
            plans[a] = h.plan(start, ext, pcs)
            if nobj > 1:
                base = list(base)
                base[impax] += ext[impax]
            if r.random() < self.gaps and len(plans[a]) > 1:
                plans[a].pop()
        pend = {a: {} for a in plans}      # id(chunk bookkeeping) -> tile to be filled by appending
        names = [k for k, v in self.w.items() if v > 0]
        wts = [self.w[k] for k in names]
        main = 1

        def do_reg(a):
            if not plans[a]:
                return False
            s, e = plans[a].pop()
            o = h.obj[a]
            opt = 1 if r.random() < self.opt else 0
            ov = r.randrange(1, self.maxov + 1) if r.random() < self.ov else 0
            pz = 1.0 if (opt and r.random() < 0.45) else None
            appendable = o["ser"][0] in (1, 2) and not (o["ser"][0] == 2 and o.get("swapped")) and o["ser"] not in ([2, 2, 2],)
            if o["ser"][0] == -1 and D > 1 and o["ser"][1] == 1 and o["cache"] == 0:
                ax = 2
            else:
                ax = 1
                if o["ser"][0] == -1:
                    appendable = False
            if ax == 2:
                appendable = True
            e2 = list(e)
            n = e[ax - 1] - s[ax - 1]
            if appendable and ov == 0 and pz is None and not o.get("grown") and n > 1 and r.random() < self.append_frac:
                k = r.randrange(1, n)
                if o["ser"][0] == 2 and ax == 1:
                    k -= k % 2
                if k > 0:
                    e2[ax - 1] = s[ax - 1] + k
            h.reg(a, list(s), list(e2), ov, opt, pz=pz)
            c = o["ch"][-1]
            c["surenull"] = c["null"]
            if e2 != list(e):
                if c["null"]:
                    rest = list(s)
                    rest[ax - 1] = e2[ax - 1]
                    plans[a].append((rest, list(e)))
                else:
                    pend[a][(tuple(c["s"]))] = (ax, list(e))
            return True

        def find(a, s):
            for c in h.obj[a]["ch"]:
                if tuple(c["s"]) == s:
                    return c
            return None

        def do_app(a):
            o = h.obj[a]
            if not pend[a]:
                return False
            key = r.choice(sorted(pend[a]))
            ax, e = pend[a][key]
            c = find(a, key)
            if c is None or c["null"]:
                del pend[a][key]
                return False
            left = e[ax - 1] - c["e"][ax - 1]
            rows = r.randrange(1, left + 1)
            if o["ser"][0] == 2 and ax == 1:
                rows = 2 if left >= 2 else left
            s = list(c["s"])
            s[ax - 1] = c["e"][ax - 1]
            sh = [y - x for x, y in zip(c["s"], c["e"])]
            sh[ax - 1] = rows
            h.app(a, ax, s, sh, 1)
            c["e"][ax - 1] += rows
            if c["e"][ax - 1] == e[ax - 1] or (o["ser"][0] == 2 and rows == 1):
                del pend[a][key]
            return True

        def settle(a):
            """the chunks stay as they are: what was to be appended becomes a tile of its own"""
            for key, (ax, e) in pend[a].items():
                c = find(a, key)
                if c is not None and c["e"][ax - 1] < e[ax - 1]:
                    s = list(c["s"])
                    s[ax - 1] = c["e"][ax - 1]
                    plans[a].append((s, list(e)))
            pend[a] = {}

        def chunkshape(a):
            lo, hi = h.bbox(a)
            return [r.randrange(1, self.csh_max + 1) if y - x <= 8 else r.choice([r.randrange(1, 5), r.randrange(1, y - x + 4)]) for x, y in zip(lo, hi)]

        def finish(a):
            while plans[a] or pend[a]:
                do_app(a) or do_reg(a)

        nsteps = r.randrange(self.steps // 2, self.steps + 1)
        for _ in range(nsteps):
            a = main if r.random() < 0.75 else r.choice(sorted(h.obj))
            if a not in h.obj:
                a = r.choice(sorted(h.obj))
            op = r.choices(names, wts)[0]
            o = h.obj[a]
            if op == "reg":
                do_reg(a)
            elif op == "app":
                do_app(a) or do_reg(a)
            elif op == "get":
                h.rnd_get(a)
            elif op == "fill":
                h.rnd_fill(a)
            elif op == "shape":
                h.shape(a)
            elif op == "loop":
                if h.contiguous(a) and h.bbox(a)[0] == [0] * D:
                    h.loop(a)
                else:
                    h.rnd_get(a)
            elif op == "bad":
                if o["ser"][0] == 1:
                    h.bad_append(a)
                    h.shape(a)
            elif op == "flush":
                h.flush(a)
            elif op == "check":
                h.checkpoint(a)
            elif op == "reopen":
                d = h.close(a)
                h.dump(d) if not o.get("crashed") else None
                c2 = r.choice(self.caches)
                if o["ser"][0] == -1:
                    c2 = 0
                h.new(a, d, c2, o["ser"])
                for k in ("swapped", "grown", "crashed"):
                    h.obj[a][k] = o.get(k, False)
            elif op == "crash":
                if o.get("swapdirty"):
                    h.flush(a)
                if r.random() < 0.4:
                    h.flush(a)
                    for _ in range(r.randrange(0, 4)):
                        r.choice([do_reg, do_app, lambda x: h.rnd_get(x)])(a)
                before = [cp(c) for c in o["ch"]]
                settle(a)
                h.crash(a, 0 if o["ser"][0] == -1 else r.choice(self.caches), o["ser"])
                # what got lost may be written again, unless it is on disk as part of a chunk that has grown
                for c in before:
                    p = find(a, tuple(c["s"]))
                    if p is None:
                        plans[a].append((list(c["s"]), list(c["e"])))
                    else:
                        for i in range(D):
                            if p["e"][i] < c["e"][i]:
                                s2 = list(p["s"])
                                s2[i] = p["e"][i]
                                e2 = list(c["e"])
                                plans[a].append((s2, e2))
                                break
                h.rnd_fill(a, whole=True)
                h.shape(a)
            elif op == "move":
                h.move(a)
            elif op == "imp":
                others = [b for b in h.obj if b != a]
                if others and not o["swapped"]:
                    b = r.choice(others)
                    if not h.obj[b]["swapped"]:
                        ob = h.obj[b]
                        settle(b)
                        crashed = ob.get("crashed")
                        d = h.close(b)
                        mv = 1 if (r.random() < 0.5) else 0
                        h.imp(a, d, mv)
                        if not mv and not crashed:
                            h.dump(d)
                        if crashed:
                            h.obj[a]["crashed"] = True
                        h.rnd_fill(a)
                        if mv or r.random() < 0.5:
                            plans[a] += plans[b]     # whatever was still to be written to b can now be written to a
                            plans[b] = []
                        else:
                            # b stays on its own, with its own contents
                            h.new(b, d, ob["cache"], ob["ser"])
                            h.obj[b]["crashed"] = crashed
                            plans[b] = []
                            h.rnd_fill(b, whole=True)
                            h.shape(b)
                            h.close(b)
            elif op == "rebuild":
                settle(a)
                if r.random() < 0.7:
                    finish(a)
                if h.contiguous(a) and h.bbox(a)[0] == [0] * D:
                    csh = chunkshape(a)
                    ev = r.choice(self.evs)
                    h.rebuild(a, csh, r.randrange(0, self.maxov + 1), 1 if r.random() < self.opt else 0, ev)
                    h.dump(h.obj[a]["dir"]) if not o.get("crashed") else None
                    h.rnd_fill(a, whole=True)
                    if plans[a]:
                        plans[a] = []
            elif op == "part":
                settle(a)
                if r.random() < 0.7:
                    finish(a)
                if h.contiguous(a):
                    s0, e0 = h.bbox(a)
                    s = [r.randrange(x, y) for x, y in zip(s0, e0)]
                    e = [r.randrange(x + 1, y + 1) for x, y in zip(s, e0)]
                    oo = s if r.random() < 0.4 else [r.randrange(0, 5) for _ in s]
                    csh = chunkshape(a)
                    ev = r.choice(self.evs)
                    d = h.part(a, s, e, oo, csh, r.randrange(0, self.maxov + 1), 1 if r.random() < self.opt else 0, ev)
                    h.dump(d)
                    h.files(d)
                    h.rnd_fill(a, whole=r.random() < 0.5)
                    if r.random() < 0.5:
                        b = 4
                        if b not in h.obj:
                            h.new(b, d, r.choice(self.caches))
                            h.checkpoint(b, full=False)
                            h.close(b)
            elif op == "swap":
                if D > 1 and not o.get("grown") and o["ch"]:
                    settle(a)
                    i, j = r.sample(range(1, D + 1), 2)
                    h.swap(a, i, j)
                    def sw(v):
                        v = list(v)
                        v[i - 1], v[j - 1] = v[j - 1], v[i - 1]
                        return v
                    plans[a] = [(sw(s), sw(e)) for s, e in plans[a]]
                    h.shape(a)
                    h.rnd_fill(a, whole=r.random() < 0.5)
        for a in sorted(h.obj):
            if r.random() < 0.6:
                if not h.obj[a].get("grown"):
                    finish(a)
            h.checkpoint(a, full=not h.obj[a].get("crashed"))
        for a in sorted(h.obj):
            o = h.obj[a]
            d = h.close(a)
            if not o.get("crashed"):
                h.dump(d)
            h.new(a, d, 1, o["ser"])
            h.rnd_fill(a, whole=True)
        return h.ops


def from_store_history(hist, rng, vec=2):
    """Turn a history of ChunkStore (a list of [op, p]) into operations on a real 3-d array: position p is a box, a slice is one or
    two rows along the first axis."""
    h = Hist(rng, 3, vec)
    yx = [rng.randrange(1, 4), rng.randrange(1, 3)]
    rows = rng.choice([1, 1, 2])
    ser = rng.choice([[1, -1, -1], [1, -1, -1], [1, 1, -1], [1, 1, 1]])
    box = {}
    orient = [1, 2]
    depth = hist[0]["p"]
    h.new(1, None, depth, ser)
    posax = rng.choice([2, 3])
    swapped = False

    def base(p):
        s = [0, 0, 0]
        s[posax - 1] = (p - 1) * yx[posax - 2]
        sh = [rows, yx[0], yx[1]]
        return s, sh

    for st in hist[1:]:
        op, p = st["op"], st["p"]
        o = h.obj[1]
        if op in ("reg", "regz", "import"):
            s, sh = base(p)
            s = [s[0] + 0, s[1], s[2]]
            if swapped:
                s = [s[1], s[0], s[2]]
                sh = [sh[1], sh[0], sh[2]]
            e = [x + y for x, y in zip(s, sh)]
            if any(all(k["s"][i] < e[i] and s[i] < k["e"][i] for i in range(3)) for k in o["ch"]):
                h.shape(1)          # taken by a chunk that was extended meanwhile
                continue
            if op == "import":
                h.new(2, None, 1, ser)
                h.reg(2, s, e, 0, 0, pz=rng.choice([0, 0.5]))
                d = h.close(2)
                h.imp(1, d, rng.choice([0, 1]))
                box[p] = h.obj[1]["ch"][-1]
            else:
                if op == "regz":
                    h.reg(1, s, e, 0, 1, d=[0] * prod(sh))
                else:
                    h.reg(1, s, e, 0, rng.choice([0, 0, 1]), d=[max(1, h.value(0.3)) for _ in range(prod(sh))])
                box[p] = h.obj[1]["ch"][-1]
        elif p not in box and op in ("app", "read"):
            h.shape(1)
        elif op == "app":
            c = box[p]
            s = list(c["s"])
            s[0] = c["e"][0]
            sh = [y - x for x, y in zip(c["s"], c["e"])]
            sh[0] = rng.choice([1, 1, 2])
            e = [x + y for x, y in zip(s, sh)]
            clash = any(k is not c and all(k["s"][i] < e[i] and s[i] < k["e"][i] for i in range(3)) for k in o["ch"])
            if clash:
                h.get(1, [rng.randrange(x, y) for x, y in zip(c["s"], c["e"])])
                continue
            h.app(1, 1, s, sh, 1)
            c["e"][0] += sh[0]
        elif op == "read":
            c = box[p]
            if rng.random() < 0.8:
                h.get(1, [rng.choice([x, y - 1]) for x, y in zip(c["s"], c["e"])])
            else:
                h.fill(1, list(c["s"]), list(c["e"]), [0, 0, 0], [y - x for x, y in zip(c["s"], c["e"])])
        elif op == "flush":
            h.flush(1)
        elif op == "reopen":
            d = h.close(1)
            h.new(1, d, p, ser)
            box = rebox(h, box)
        elif op == "crash":
            o2 = dict(o)
            h.crash(1, p, ser)
            h.obj[1]["crashed"] = True
            box = rebox(h, box)
        elif op == "swap":
            h.swap(1, 1, 2)
            swapped = not swapped
        else:
            raise ValueError(op)
    # everything that can be observed
    crashed = h.obj[1].get("crashed")
    for p in sorted(box):
        h.get(1, [rng.randrange(x, y) for x, y in zip(box[p]["s"], box[p]["e"])])
    h.shape(1)
    h.rnd_fill(1, whole=True)
    if not crashed:
        h.flush(1)
        h.dump(h.obj[1]["dir"])
        h.files(h.obj[1]["dir"])
    d = h.close(1)
    if not crashed:
        h.dump(d)
    h.new(1, d, 1, ser)
    h.rnd_fill(1, whole=True)
    return h.ops


def rebox(h, box):
    out = {}
    for p, c in box.items():
        for k in h.obj[1]["ch"]:
            if k["s"] == c["s"]:
                out[p] = k
    return out


def lineage(rng, vec=2):
    """Arrays passed on: built, rechunked, reopened, imported into another one, extended there, imported again."""
    r = rng
    h = Hist(r, 3, vec)
    rows, k = r.choice([1, 1, 2]), r.randrange(1, 3)
    slot = [0]

    def cache():
        return r.choice([0, 1, 2, 3, 4, 6, 9])

    def grow(a, n):
        for _ in range(n):
            s = [0, slot[0], 0]
            w = r.choice([1, 1, 2])
            slot[0] += w
            opt = 1 if r.random() < 0.15 else 0
            pz = 1 if opt else r.choice([0, 0.4])
            h.reg(a, s, [rows, s[1] + w, k], 0, opt, pz=pz)
            if r.random() < 0.15:
                h.rnd_get(a)

    def extend(a):
        c = r.choice(h.obj[a]["ch"])
        if c.get("null") or c["ov"] or any(k is not c and k["e"][0] > c["e"][0] for k in h.obj[a]["ch"]):
            return
        sh = [y - x for x, y in zip(c["s"], c["e"])]
        sh[0] = 1
        h.app(a, 1, [c["e"][0], c["s"][1], c["s"][2]], sh, 1)
        c["e"][0] += 1

    def look(a, n=3):
        for _ in range(n):
            h.rnd_get(a)

    def reopen(a):
        d = h.close(a)
        if r.random() < 0.3:
            h.dump(d)
        h.new(a, d, cache())

    # the first array starts at the origin and may be rechunked
    h.new(1, None, cache())
    grow(1, r.randrange(1, 5))
    for _ in range(r.randrange(0, 4)):
        q = r.random()
        if q < 0.55:
            e = h.bbox(1)[1]
            h.rebuild(1, [r.randrange(1, x + 1) for x in e], r.choice([0, 0, 1]), r.choice([0, 1]), r.choice(["none", "genl", "gen"]))
        elif q < 0.8:
            reopen(1)
        else:
            grow(1, 1) if all(c["e"][0] == rows for c in h.obj[1]["ch"]) else None
    look(1)
    live = 1
    for hop in range(r.randrange(1, 4)):
        nxt = 2 if live == 1 else 1
        d = h.close(live)
        h.new(nxt, None, cache())
        grow(nxt, r.randrange(0, 4))
        if r.random() < 0.4 and h.obj[nxt]["ch"]:
            reopen(nxt)
        mv = r.choice([0, 1])
        h.imp(nxt, d, mv)
        if r.random() < 0.5:
            look(nxt)
        grow(nxt, r.randrange(0, 5))
        if r.random() < 0.4:
            extend(nxt)
        c = h.obj[nxt]["ch"]
        for ch in r.sample(c, min(len(c), 8)):
            h.get(nxt, [r.randrange(x, y) for x, y in zip(ch["s"], ch["e"])])
        if not mv:
            h.dump(d)
        q = r.random()
        if q < 0.3:
            h.flush(nxt)
            h.dump(h.obj[nxt]["dir"])
            h.files(h.obj[nxt]["dir"])
        elif q < 0.6:
            reopen(nxt)
            grow(nxt, r.randrange(0, 3))
        elif q < 0.75:
            h.move(nxt)
        for ch in r.sample(c, min(len(c), 4)):
            h.get(nxt, [r.randrange(x, y) for x, y in zip(ch["s"], ch["e"])])
        h.rnd_fill(nxt, whole=True)
        h.shape(nxt)
        live = nxt
    d = h.close(live)
    h.dump(d)
    h.files(d)
    h.new(live, d, cache())
    h.rnd_fill(live, whole=True)
    return h.ops


def multiaxis(rng, vec=2):
    """Chunks that are extended along one axis after the other (innermost first, as the on-disk layout demands), under small caches,
    with reads, flushes and reopening in between.  Slices along the second or third axis cannot be joined in memory, so everything is
    flushed unless the chunk is on disk and nothing is pending along this axis."""
    r = rng
    h = Hist(r, 3, vec)
    ser = r.choice([[2, 2, 2], [1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2], [1, 2, -1], [1, 1, -1], [-1, 2, 1], [-1, 1, 2], [-1, 1, 1]])
    h.new(1, None, r.choice([0, 1, 1, 2, 2, 3, 4]), ser)
    todo = []
    pending = {}
    for i in range(r.randrange(1, 4)):
        axes = [k for k in (3, 2, 1) if ser[k - 1] > 0]
        if len(axes) > 2 and r.random() < 0.4:
            axes.remove(r.choice(axes))
        sh = [ser[k] if ser[k] > 0 else r.randrange(1, 3) for k in range(3)]
        if 1 in axes and not any(k > 1 for k in axes):
            sh[0] = ser[0] * r.choice([1, 2])
        s = [r.choice([0, 1, 2]), 24 * i, r.choice([0, 1])]
        h.reg(1, s, [x + y for x, y in zip(s, sh)], 0, 0, pz=r.choice([0, 0, 0.5]))
        c = h.obj[1]["ch"][-1]
        plan = []
        for k in axes:
            plan += [k] * r.choice([1, 1, 2, 3])
        todo.append((c["s"], plan))
        pending[tuple(c["s"])] = {2, 3}

    def chunk(s):
        return next(c for c in h.obj[1]["ch"] if c["s"] == s)

    while any(p for _, p in todo):
        q = r.random()
        s0, plan = r.choice([t for t in todo if t[1]])
        c = chunk(s0)
        if q < 0.62:
            k = plan.pop(0) - 1
            if k > 0 and h.obj[1]["cache"] > 0 and k + 1 in pending[tuple(s0)]:
                h.flush(1)
                for z in pending.values():
                    z.clear()
                if r.random() < 0.4:
                    h.get(1, [r.choice([x, y - 1]) for x, y in zip(c["s"], c["e"])])
            pending[tuple(s0)].add(k + 1)
            s = list(c["s"])
            s[k] = c["e"][k]
            sh = [y - x for x, y in zip(c["s"], c["e"])]
            sh[k] = ser[k] * r.choice([1, 1, 2])
            h.app(1, k + 1, s, sh, 1)
            c["e"][k] += sh[k]
        elif q < 0.80:
            h.get(1, [r.choice([x, y - 1]) for x, y in zip(c["s"], c["e"])])
        elif q < 0.88:
            h.flush(1)
            if r.random() < 0.4:
                h.dump(h.obj[1]["dir"])
        elif q < 0.93:
            d = h.close(1)
            h.new(1, d, r.choice([0, 1, 2, 3]), ser)
            for z in pending.values():
                z.clear()
        elif q < 0.96:
            h.move(1)
        else:
            h.shape(1)
    for s0, _ in todo:
        c = chunk(s0)
        h.fill(1, list(c["s"]), list(c["e"]), [0, 0, 0], [y - x for x, y in zip(c["s"], c["e"])])
    h.shape(1)
    h.flush(1)
    h.dump(h.obj[1]["dir"])
    d = h.close(1)
    h.new(1, d, 1, ser)
    for s0, _ in todo:
        c = chunk(s0)
        h.fill(1, list(c["s"]), list(c["e"]), [0, 0, 0], [y - x for x, y in zip(c["s"], c["e"])])
    return h.ops
