"""Definitions along the extents a user can choose freely: how many dimensions, variables, attributes, dimensions of a
variable, values of an attribute, bytes of a name; with the item that matters at any place among the others."""
import gen
from gen import DS, nm, limbs, data

LADDER = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 48, 63, 64, 65, 66]
TALL = [99, 100, 101, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300]


def extent(r):
    return r.choice(LADDER) if r.random() < 0.8 else r.choice(TALL)


def place(r, n):
    """A place among n: the ends, their neighbours, powers of two, or anywhere."""
    if r.random() < 0.5:
        return r.randrange(n)
    return min(n - 1, r.choice([0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, n - 1, max(0, n - 2)]))


def names(r, stem, n):
    k = r.randrange(5)
    if k == 0:
        w = r.randrange(1, 60)
        return [stem * w + "%d" % i for i in range(n)]
    if k == 1:
        return ["%d" % i + stem * r.choice([1, 3]) for i in range(n)]
    if k == 2:
        out, i = [], 0          # neighbours that differ only by their case
        while len(out) < n:
            out += [stem + "a%d" % i, stem + "A%d" % i]
            i += 1
        return out[:n]
    if k == 3:
        return [stem + "é" * (i % 5) + "%d" % i for i in range(n)]
    return [stem + "%d" % i for i in range(n)]


class Big:
    """A definition and the calls that lead to it."""

    def __init__(self, r, nd, nv, ng, na, k, unlim=0.7):
        self.r, self.pre = r, []
        dims = names(r, "d", nd)
        u = place(r, nd) if nd and r.random() < unlim else None
        self.dims = []
        for i, n in enumerate(dims):
            size = r.choice([0, 1, 2, 3]) if i == u else (1 if i > 6 and r.random() < 0.9 else r.choice([1, 2, 3]))
            self.pre.append(dict(op="set_unlimited_dim" if i == u else "add_fixed_dim", name=nm(n), size=limbs(size)))
            self.dims.append(dict(n=nm(n), u=i == u, s=limbs(size)))
        self.u = u
        self.attrs = []
        for n in names(r, "g", ng):
            self.attrs.append(self.attr(n))
            self.pre.append(dict(op="add_gattr", via="typed", name=nm(n), t=self.attrs[-1]["t"], d=self.attrs[-1]["d"]))
        self.vars = []
        vs = names(r, "v", nv)
        lot = place(r, nv) if nv else 0
        for i, n in enumerate(vs):
            t = r.choice(gen.TYPES)
            d = self.pickdims(k if i == lot else r.choice([0, 1, 1, 2, 3]))
            self.pre.append(dict(op="add_var", via="generic", name=nm(n), dims=[self.dims[j]["n"] for j in d], t=t))
            v = dict(n=nm(n), t=t, d=[j + 1 for j in d], a=[])
            for m in names(r, "a", na if i == lot else r.choice([0, 0, 0, 1, 2])):
                a = self.attr(m)
                v["a"].append(a)
                self.pre.append(dict(op="add_vattr", via=r.choice(["typed", "mut"]), var=nm(n), name=nm(m), t=a["t"], d=a["d"]))
            self.vars.append(v)
        self.lot = lot

    def attr(self, n):
        t = self.r.choice(gen.TYPES)
        return dict(n=nm(n), t=t, d=data(self.r, t, self.r.choice([0, 1, 1, 2, 3])))

    def pickdims(self, k):
        """k dimensions; the unlimited one, if it is among them, is the first."""
        d = self.r.sample(range(len(self.dims)), min(k, len(self.dims)))
        if self.u in d:
            d.remove(self.u)
            d.insert(0, self.u)
        return d

    def model(self):
        return dict(dims=self.dims, attrs=self.attrs, vars=self.vars)

    def some(self, s):
        return s[place(self.r, len(s))]["n"] if s else nm("nothing")

    def call(self):
        r = self.r
        k = r.randrange(16)
        new = nm(r.choice(["new", "nEw", "", "a/b", "d1", "v1", "z" * 256, "z" * 257]))
        V = self.vars[self.lot] if self.vars else dict(n=nm("v"), a=[])
        if k < 5:        # a variable with many dimensions
            d = [self.dims[j]["n"] for j in self.pickdims(r.choice([len(self.dims), len(self.dims), extent(r)]))]
            w = r.randrange(6)
            if w == 0 and self.u is not None:       # the unlimited dimension at another place
                un = self.dims[self.u]["n"]
                d = [x for x in d if x != un]
                d.insert(place(r, len(d) + 1), un)
            if w in (1, 5) and d:                   # a dimension twice
                d.insert(place(r, len(d) + 1), d[place(r, len(d))])
            if w in (2, 5):                         # undefined ones, also several times
                for _ in range(r.choice([1, 1, 2, 3])):
                    x = r.choice(["x", "y", "x"])
                    j = place(r, len(d) + 1)
                    d[j:j] = [nm(x)] * r.choice([1, 1, 2])
            return dict(op="add_var", via=r.choice(["typed", "generic"]), name=self.some(self.vars) if r.random() < 0.1 else nm("w%d" % r.randrange(99)), dims=d, t=r.choice(gen.TYPES))
        if k < 8:
            return dict(op="remove_dim", name=self.some(self.dims))
        if k == 8:
            return dict(op="rename_dim", name=self.some(self.dims), new=r.choice([self.some(self.dims), new]))
        if k == 9:
            return dict(op="rename_var", name=self.some(self.vars), new=r.choice([self.some(self.vars), new]))
        if k == 10:
            return dict(op="rename_gattr", name=self.some(self.attrs), new=r.choice([self.some(self.attrs), new]))
        if k == 11:
            return dict(op="rename_vattr", via="typed", var=V["n"], name=self.some(V["a"]), new=r.choice([self.some(V["a"]), new]))
        if k == 12:
            return r.choice([dict(op="remove_var", name=self.some(self.vars)), dict(op="remove_gattr", name=self.some(self.attrs)),
                             dict(op="remove_vattr", via=r.choice(["typed", "mut"]), var=V["n"], name=self.some(V["a"]))])
        t = r.choice(gen.TYPES)
        if k == 13:
            return dict(op=r.choice(["add_fixed_dim", "set_unlimited_dim"]), name=r.choice([self.some(self.dims), new]), size=limbs(2))
        if k == 14:
            return dict(op="add_gattr", via="typed", name=r.choice([self.some(self.attrs), new]), t=t, d=data(r, t, extent(r)))
        return dict(op="add_vattr", via=r.choice(["typed", "mut"]), var=V["n"], name=r.choice([self.some(V["a"]), new]), t=t, d=data(r, t, extent(r)))

    def probe(self):
        r = self.r
        ids = [place(r, len(self.dims) + 1) for _ in range(r.choice([0, 1, 2, 3, 8]))] if self.dims else [0]
        V = self.vars[self.lot] if self.vars else None
        if V and r.random() < 0.5:
            vn, an = V["n"], self.some(V["a"])
        else:
            vn, an = self.some(self.vars), self.some(self.attrs)
        return dict(op="probe", q=dict(dn=self.some(self.dims), vn=vn, an=an, ids=ids))


def big(r, many=1):
    """One or two of the extents are large."""
    e = [r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 4]), r.choice([0, 1, 2]), r.choice([0, 1, 2]), r.choice([1, 2])]
    w = r.choice([0, 0, 0, 1, 1, 2, 3])
    e[w] = extent(r)
    if w == 0:
        e[1] = r.choice([1, 2, 3, 4, 6, 9])
        e[4] = r.choice([e[0], extent(r)])
    return Big(r, *e)


def scripts(r, count, between=("reopen",), length=8):
    """Sequences of calls on such definitions."""
    sc = []
    for _ in range(count):
        b = big(r)
        ops = []
        for _ in range(r.randint(length // 2, length)):
            if r.random() < 0.25 + 0.35 * (len(between) > 1):
                x = r.choice(between)
                ops.append(b.probe() if x == "probe" else dict(op=x, ver=r.choice([1, 2]), hmin=limbs(r.choice([0, 0, 100]))) if x == "reopen" else dict(op=x))
            ops.append(b.call())
        if "sizes" in between:
            ops.append(dict(op="sizes"))
        sc.append(dict(pre=b.pre, model=b.model(), ops=ops))
    return sc


def headers(r, level):
    """Definitions for the file: one extent each.  level: how far the extents go."""
    out = []
    ladder = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]
    far = {0: [], 1: [511, 512, 513, 1023, 1024, 1025], 2: [511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]}[level]

    def small(d):
        if r.random() < 0.5:
            d.fixed("x", 3)
        if r.random() < 0.5:
            d.unlim("t", r.choice([0, 1, 2]))
        if r.random() < 0.6:
            d.var("first", r.choice(gen.TYPES), ["x"] if "x" in d.dims else [])

    def last(d):
        if r.random() < 0.7:
            d.var("last", r.choice(gen.TYPES), [])
        if r.random() < 0.5:
            d.gattr("end", "i16", [1, 2])
    for n in ladder + far:
        d = DS()
        small(d)
        for s in names(r, "d", n):
            d.fixed(s, 1)
        d.var("v", r.choice(gen.TYPES), [x for x in d.dims if not d.dims[x][0]][-3:])
        last(d)
        out.append(d)
        d = DS()
        small(d)
        for s in names(r, "v", n):
            d.var(s, r.choice(gen.TYPES), r.choice([[], ["x"] if "x" in d.dims else [], ["t"] if "t" in d.dims else []]))
        last(d)
        out.append(d)
        d = DS()
        small(d)
        for s in names(r, "g", n):
            t = r.choice(gen.TYPES)
            d.gattr(s, t, data(r, t, r.choice([0, 1, 2, 3])))
        last(d)
        out.append(d)
        d = DS()
        small(d)
        d.var("v", r.choice(gen.TYPES), [])
        for s in names(r, "a", n):
            t = r.choice(gen.TYPES)
            d.vattr("v", s, t, data(r, t, r.choice([0, 1, 2, 3])))
        last(d)
        out.append(d)
        if n <= 1024:
            d = DS()
            if r.random() < 0.5:
                d.unlim("t", 2)
            m = n - (1 if "t" in d.dims else 0)
            for j in range(max(m, 0) + 2):
                d.fixed("d%d" % j, 2 if j % 100 == 3 else 1)
            ds = [x for x in d.dims if not d.dims[x][0]]
            r.shuffle(ds)
            d.var("v", r.choice(["i8", "i16", "i32"]), ((["t"] if "t" in d.dims else []) + ds)[:n])
            last(d)
            out.append(d)
        if n <= 256:
            d = DS()
            s = "n" * n
            if n:
                d.fixed(s, 1)
                d.gattr("m" * n, "u8", [1])
                d.var("o" * n, "i16", [s])
                d.vattr("o" * n, "p" * n, "i8", [1])
            last(d)
            out.append(d)
    # the characters of the names
    for c in [chr(x) for x in range(32, 127) if x != 47] + ["\x80", "\x85", "\xa0", "é", "e\u0301", "\u0600", "\u200b", "\u2028", "\u3000", "\ufeff", "\uffff", "𝄞", "\U0010ffff"]:
        d = DS()
        first = c if c.isalnum() or c == "_" or max(map(ord, c)) > 127 else "_"
        d.fixed(first, 1)
        d.fixed("a" + c, 2)
        d.fixed("a" + c + "b", 1)
        d.var("a" + c * r.choice([1, 2, 3]), r.choice(gen.TYPES), r.sample(list(d.dims), r.randrange(3)))
        d.vattr(d.vars[-1][0], "y" + c, "u8", [1])
        d.gattr("z" + c, "i16", [1, 2])
        if max(map(ord, c)) > 127 or r.random() < 0.3:
            d.var(first, "i8", [])
            d.gattr(first, "u8", nm(c))
        out.append(d)
    # the values of an attribute
    lens = ladder + [511, 512, 513, 1023, 1024, 1025] + ([4095, 4096, 4097, 32767, 32768, 65535] if level else []) + [65536, 65537 + r.randrange(9)] + ([131072, 262145] if level == 2 else [])
    for n in lens:
        for t in gen.TYPES if n < 40 or level == 2 else r.sample(gen.TYPES, 2) if n < 4000 else [r.choice(["u8", "i8"]), r.choice(["i16", "i32"])] if n < 40000 else [r.choice(["u8", "i8", "i16"])]:
            d = DS()
            if r.random() < 0.5:
                d.gattr("a", t, data(r, t, n))
                d.fixed("x", 3)
                d.var("v", "i16", ["x"])
            else:
                d.var("v", "i16", [])
                d.vattr("v", "a", t, data(r, t, n))
                d.var("w", "f64", [])
            d.gattr("b", "i8", [1])
            out.append(d)
    return out
