"""Generators of scripts (random, seeded). They aim; they judge nothing."""
import random

TYPES = ["i8", "u8", "i16", "i32", "f32", "f64"]
SIZE = dict(i8=1, u8=1, i16=2, i32=4, f32=4, f64=8)
SPECIAL = {
    "i8": [[0x80], [0x81], [0x7f], [0]], "u8": [[0], [255], [0x41]],
    "i16": [[0x80, 0], [0x80, 1], [0x7f, 0xff], [0, 0xff]],
    "i32": [[0x80, 0, 0, 0], [0x80, 0, 0, 1], [1, 2, 3, 4]],
    "f32": [[0x7f, 0xc0, 0, 1], [0x7f, 0x80, 0, 0], [0x80, 0, 0, 0], [0x7c, 0xf0, 0, 0], [0x7f, 0x80, 0, 1]],
    "f64": [[0x7f, 0xf8, 0, 0, 0, 0, 0, 1], [0xff, 0xf0, 0, 0, 0, 0, 0, 0], [0x80, 0, 0, 0, 0, 0, 0, 0], [0x47, 0x9e, 0, 0, 0, 0, 0, 0], [0x7f, 0xf0, 0, 0, 0, 0, 0, 1]],
}


def limbs(n):
    out = []
    while n:
        out.append(n & 255)
        n >>= 8
    return out


def nm(s):
    return list(s.encode())


def data(r, t, n):
    out = []
    for _ in range(n):
        if r.random() < 0.25:
            out += r.choice(SPECIAL[t])
        else:
            out += [r.randrange(256) for _ in range(SIZE[t])]
    return out


class DS:
    """What the generator knows of the data set it defines."""

    def __init__(self):
        self.ops, self.dims, self.vars = [], {}, []

    def fixed(self, n, s):
        self.ops.append(dict(op="add_fixed_dim", name=nm(n), size=limbs(s)))
        self.dims[n] = (False, s)

    def unlim(self, n, s):
        self.ops.append(dict(op="set_unlimited_dim", name=nm(n), size=limbs(s)))
        self.dims[n] = (True, s)

    def var(self, n, t, dims):
        self.ops.append(dict(op="add_var", via="generic", name=nm(n), dims=[nm(d) for d in dims], t=t))
        rec = bool(dims) and self.dims[dims[0]][0]
        chunk = 1
        for d in dims[1 if rec else 0:]:
            chunk *= self.dims[d][1]
        self.vars.append((n, t, chunk, self.dims[dims[0]][1] if rec else 1, rec))

    def gattr(self, n, t, d):
        self.ops.append(dict(op="add_gattr", via="typed", name=nm(n), t=t, d=d))

    def vattr(self, v, n, t, d):
        self.ops.append(dict(op="add_vattr", via="typed", var=nm(v), name=nm(n), t=t, d=d))

    def event(self):
        return dict(c="ds", ops=self.ops)


def similar(r, d):
    """Another data set of the same shape: as many dimensions, variables, attributes, and calls."""
    what = r.sample(["names", "types", "sizes", "data", "order"], r.choice([1, 1, 2, 5]))
    longer = lambda x: x + "_" * r.choice([0, 1, 3, 4, 4, 8])
    names = {}

    def rename(kind, b):
        k = (kind, tuple(b))
        if "names" in what:
            names.setdefault(k, nm(longer(bytes(b).decode())))
        return names.get(k, b)

    out, vt = DS(), {}
    for o in d.ops:
        o = dict(o)
        c = o["op"]
        kind = "d" if "dim" in c else "v" if c.endswith("_var") else "a"
        if "name" in o:
            o["name"] = rename(kind, o["name"])
        if "var" in o:
            o["var"] = rename("v", o["var"])
        if "dims" in o:
            o["dims"] = [rename("d", x) for x in o["dims"]]
        if "size" in o and "sizes" in what:
            o["size"] = limbs(r.choice([1, 2, 3, 4, 5]))
        if c == "add_var" and "types" in what:
            o["t"] = r.choice(TYPES)
        if c.endswith("attr") and "d" in o and "data" in what:
            o["t"] = r.choice(TYPES)
            o["d"] = data(r, o["t"], r.choice([0, 1, 2, 3, 9]))
        out.ops.append(o)
        n = bytes(o["name"]).decode()
        if c in ("add_fixed_dim", "set_unlimited_dim"):
            out.dims[n] = (c == "set_unlimited_dim", sum(x << 8 * k for k, x in enumerate(o["size"])))
        elif c == "remove_dim":
            out.dims.pop(n, None)
        elif c == "add_var":
            dims = [bytes(x).decode() for x in o["dims"]]
            rec = bool(dims) and out.dims[dims[0]][0]
            chunk = 1
            for x in dims[1 if rec else 0:]:
                chunk *= out.dims[x][1]
            out.vars.append((n, o["t"], chunk, out.dims[dims[0]][1] if rec else 1, rec))
        elif c == "remove_var":
            out.vars = [v for v in out.vars if v[0] != n]
    return out


def sequence(r, paths=3):
    """Sessions one after the other, whose definitions are made in the same place (and look alike)."""
    d, ev = rand_ds(r, minvars=1), []
    ends = ("close", "close", "drop", "forget")
    for k in range(r.randint(2, 4)):
        p = r.randrange(paths)
        for e in session(r, d, writes=(0, 4), bad=0.05, ends=ends):
            e = dict(e)
            if e["c"] == "ds":
                e["at"] = 1
            if "p" in e:
                e["p"] = p
            if e["c"] in ("op", "cn"):
                e["c"] = "op"
            ev.append(e)
        ev += [dict(c="snap", p=p), dict(c="ro", p=p), dict(c="rvs"), dict(c="rc")]
        d = similar(r, d)
    return dict(tag="sequence", evs=ev)


NAMES = ["a", "bb", "ccc", "dddd", "é", "x_1", "9z", "long_name_of_something", "T.s", "€uro", "n+1", "q", "r", "s", "t", "u"]


def pool(r):
    """Names to take from the end; in half of the cases such that are easily taken for each other, or changed on their way."""
    out = NAMES[:]
    r.shuffle(out)
    if r.random() < 0.5:
        l = r.choice([252, 253, 254, 255])
        f = r.choice([["a", "a ", "a  ", "A", "aa", "a_"], ["é", "e\u0301", "É", "e", "é "], ["b", "b\u00a0", "b\u3000", "b\u2028", "b\u200b", "b."],
                      ["x 1", "x_1", "x  1", "x%201", "x.1"], ["z" * l, "z" * l + "a", "z" * l + "b", "z" * l + " ", "z" * (l - 1) + "é"],
                      ["1", "01", "1.0", "1e0", "_1"], ["q~", "q\"", "q\\", "q:", "q*", "q|"], ["\u0085", "\u00a0", "\u200d", "\ufeff", "𝄞", "\U0010ffff"],
                      ["ß", "ss", "ﬁ", "fi", "Ω", "\u2126"], ["c", "cc", "ccc", "cccc", "ccccc"]])
        f = f[:]
        r.shuffle(f)
        out = out[:9] + [x for x in f if x not in out[:9]]
    return out


def rand_ds(r, maxdims=4, maxvars=5, recs=(0, 1, 1, 2, 2, 3, 5), attrs=True, unlim=0.75, sizes=(1, 1, 2, 3, 3, 4, 5), minvars=0):
    d = DS()
    names = pool(r)
    n = r.randrange(maxdims + 1)
    upos = r.randrange(n + 1) if r.random() < unlim else -1
    fixed, u = [], None
    for i in range(n + 1):
        if i == upos:
            u = names.pop()
            d.unlim(u, r.choice(recs))
        if i < n:
            x = names.pop()
            d.fixed(x, r.choice(sizes))
            fixed.append(x)
    if r.random() < 0.15:      # a dimension that goes away again
        x = names.pop()
        d.fixed(x, 2)
        d.ops.append(dict(op="remove_dim", name=nm(x)))
        del d.dims[x]
    names = pool(r)
    vt = r.choice([TYPES, ["i8", "u8", "i16"], TYPES])
    for i in range(r.randrange(minvars, maxvars + 1)):
        dims = r.sample(fixed, min(len(fixed), r.choice([0, 1, 1, 2, 3])))
        if u and r.random() < 0.6:
            dims = [u] + dims
        x = names.pop()
        d.var(x, r.choice(vt), dims)
        if attrs:
            for a in r.sample(pool(r)[-5:], r.choice([0, 0, 1, 2])):
                t = r.choice(TYPES)
                d.vattr(x, a, t, data(r, t, r.choice([0, 1, 1, 2, 3, 5])))
    if attrs:
        for a in r.sample(pool(r)[-5:], r.choice([0, 0, 1, 2, 3])):
            t = r.choice(TYPES)
            d.gattr(a, t, data(r, t, r.choice([0, 1, 1, 2, 3, 5])))
    if r.random() < 0.1 and d.vars:
        v = d.vars.pop(r.randrange(len(d.vars)))
        d.ops.append(dict(op="remove_var", name=nm(v[0])))
    return d


def hmin(r):
    return r.choice([0, 0, 0, 1, 7, 100, 255, 256, 333, 1024])


def good_write(r, d):
    n, t, chunk, recs, rec = r.choice(d.vars)
    if r.random() < 0.4 or recs == 0:
        return dict(c="wv", n=nm(n), t=t, d=data(r, t, chunk * recs))
    return dict(c="wr", n=nm(n), t=t, i=limbs(r.randrange(recs)), d=data(r, t, chunk))


def bad_write(r, d):
    k = r.randrange(6)
    if k == 0 or not d.vars:
        e = dict(n=nm(r.choice(["nope", "", "é?"])), t=r.choice(TYPES))
        e["d"] = data(r, e["t"], 1)
        return dict(e, c="wv") if r.random() < 0.5 else dict(e, c="wr", i=[])
    n, t, chunk, recs, rec = r.choice(d.vars)
    if k == 1:
        t2 = r.choice([x for x in TYPES if x != t])
        return dict(c="wv", n=nm(n), t=t2, d=data(r, t2, chunk * recs)) if r.random() < 0.5 else dict(c="wr", n=nm(n), t=t2, i=[], d=data(r, t2, chunk))
    if k == 2:
        i = r.choice([recs, recs, recs + 1, 255, 2**31, 2**32, 2**63, 2**64 - 1])
        return dict(c="wr", n=nm(n), t=t, i=limbs(max(i, recs)), d=data(r, t, chunk))
    wrong = [x for x in (chunk * recs - 1, chunk * recs + 1, 0, chunk * recs * 2, chunk) if x >= 0]
    if k in (3, 4):
        return dict(c="wv", n=nm(n), t=t, d=data(r, t, r.choice(wrong)))
    return dict(c="wr", n=nm(n), t=t, i=limbs(r.randrange(recs + 1)), d=data(r, t, r.choice([chunk - 1, chunk + 1, 0, chunk * 2, chunk * recs])))


def large_ds(r, total=40000):
    """Many chunks, large chunks, many variables or many dimensions; about `total` bytes of data."""
    d = DS()
    k = r.randrange(6)
    types = r.choice([TYPES, ["i8", "u8", "i16"], [r.choice(TYPES)]])
    recs = 0
    if k == 0:        # large chunks
        n = r.choice([255, 256, 257, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 12288, 16384, 16385, 20480])
        if n > 8200:       # (of one kind)
            types = [r.choice(["i8", "u8", "i16", "i32"])] if r.random() < 0.7 else types
        d.fixed("n", n)
        if r.random() < 0.5:
            d.unlim("t", r.choice([1, 2, 3]))
        d.fixed("m", r.choice([2, 3]))
        nv = max(1, min(4, total // (n * 8)))
        for j in range(nv):
            dims = r.choice([["n"], ["n"], ["m", "n"] if n < 2000 else ["n"], ["m"]])
            d.var("v%d" % j, r.choice(types), (["t"] if "t" in d.dims and r.random() < 0.6 else []) + dims)
    elif k in (1, 2):      # many records
        recs = r.choice([31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 300, 600, 1000])
        d.unlim("t", recs)
        d.fixed("m", r.choice([2, 3, 5]))
        for j in range(r.randint(1, 3)):
            d.var("v%d" % j, r.choice(types), (["t"] if j == 0 or r.random() < 0.7 else []) + (["m"] if r.random() < 0.5 else []))
    elif k == 3:      # many variables
        d.fixed("n", 3)
        d.unlim("t", r.choice([0, 1, 2, 3]))
        d.fixed("m", 2)
        for j in range(r.choice([20, 33, 64, 65, 100, 130])):
            d.var("v%d" % j, r.choice(types), r.choice([[], ["t"], ["n"], ["t", "n"], ["m", "n"], ["t", "m", "n"]]))
    elif k == 4:      # many dimensions, variables of high rank
        u = r.random() < 0.6
        if u:
            d.unlim("t", r.choice([1, 2, 3, 4]))
        n = r.choice([8, 17, 33, 70, 140])
        for j in range(n):
            d.fixed("d%d" % j, 2 if j % 9 == 0 else r.choice([1, 1, 1, 3 if j < 12 else 1]))
        fixed = [x for x in d.dims if not d.dims[x][0]]
        for j in range(r.randint(2, 6)):
            dims = r.sample(fixed, r.choice([1, 3, 5, 7, 8]))
            while True:
                size = 1
                for x in dims:
                    size *= d.dims[x][1]
                if size <= 600:
                    break
                dims.pop()
            d.var("v%d" % j, r.choice(types), (["t"] if u and r.random() < 0.5 else []) + dims)
    else:             # long names and attributes
        d.fixed("x" * r.choice([1, 127, 255, 256]), 3)
        d.fixed("é" * r.choice([1, 64, 127, 128]), 2)
        dims = list(d.dims)
        for j in range(r.randint(1, 3)):
            d.var(chr(97 + j) * r.choice([1, 127, 128, 255, 256]), r.choice(types), r.sample(dims, r.randrange(3)))
            for q in range(r.randrange(4)):
                t = r.choice(TYPES)
                d.vattr(d.vars[-1][0], chr(65 + q) * r.choice([1, 50, 256]), t, data(r, t, r.choice([0, 1, 127, 128, 255, 256, 257, 1000, 2048])))
        for q in range(r.randrange(1, 5)):
            t = r.choice(TYPES)
            d.gattr(chr(65 + q) * r.choice([1, 50, 255]), t, data(r, t, r.choice([3, 128, 256, 511, 512, 513, 1500])))
    return d


def large_writes(r, d):
    """Whole variables, and series of records in several orders."""
    ev = []
    vs = d.vars[:]
    r.shuffle(vs)
    for n, t, chunk, recs, rec in vs[:r.randint(1, len(vs))]:
        if not rec or recs == 0 or r.random() < 0.3:
            ev.append(dict(c="wv", n=nm(n), t=t, d=data(r, t, chunk * recs)))
            continue
        which = r.choice(["all", "all", "rev", "half", "but", "some", "late"])
        idx = list(range(recs))
        if which == "rev":
            idx.reverse()
        elif which == "half":
            idx = idx[r.randrange(2)::2]
        elif which == "but":
            del idx[r.choice([0, -1, recs // 2])]
        elif which == "some":
            idx = r.sample(idx, min(recs, r.randint(1, 40)))
        elif which == "late":
            idx = idx[recs // 2:]
        ev += [dict(c="wr", n=nm(n), t=t, i=limbs(i), d=data(r, t, chunk)) for i in idx[:200] + idx[-60:][max(0, 260 - len(idx)):]]
    if r.random() < 0.4:
        r.shuffle(ev)
    return ev


def large_session(r, end="close"):
    d = large_ds(r)
    ev = [d.event(), dict(c="op", p=0), dict(c="sd", d=1, ver=r.choice([1, 2]), hmin=limbs(r.choice([0, 0, 100, 1024, 4096, 5000])))]
    ev += large_writes(r, d)
    if r.random() < 0.4:
        ev.append(dict(c="snap", p=0))
    ev.append(dict(c=end))
    return d, ev


def bulk(r, what, n, t=None):
    """Definitions of one large extent (what: values of a variable, values of a record, records), around n."""
    d = DS()
    t = t or r.choice([x for x in TYPES if n * SIZE[x] <= 600000] or ["i8"])
    k = max(1, n + r.choice([-1, 0, 1, 1, 2, 3, 5]))
    small = r.choice(["i8", "i16", "i32", "f64"])
    if what == "records":
        t = r.choice(["i8", "i16", "i32"]) if n > 5000 and SIZE[t] == 8 else t
        d.unlim("t", k)
        d.var("a", small, [])
        d.var("v", t, ["t"])
        d.var("b", r.choice(["i8", "i16"]), ["t"])
    else:
        if what == "record":
            d.unlim("t", 2 if n < 40000 else 1)
        d.fixed("n", k)
        d.var("a", small, ["t"] if what == "record" and r.random() < 0.5 else [])
        d.var("v", t, (["t"] if what == "record" else []) + ["n"])
        d.var("z", small, ["t"] if what == "record" and r.random() < 0.5 else [])
    ev = [d.event(), dict(c="op", p=0), dict(c="sd", d=1, ver=r.choice([1, 2]), hmin=limbs(r.choice([0, 0, 100])))]
    _, t, chunk, recs, _ = d.vars[1]
    wr = lambda i: dict(c="wr", n=nm("v"), t=t, i=limbs(i), d=data(r, t, chunk))
    if what == "records":
        idx = sorted({i for x in (0, 1, 127, 255, 256, 257, 300, n // 2, n - 1, n, 32767, 32768, 65535, 65536, k - 2, k - 1) for i in [x] if i < k} | {r.randrange(k) for _ in range(6)})
        if r.random() < 0.5:
            idx.reverse()
        ev += [wr(i) for i in idx if r.random() < 0.85]
        if r.random() < 0.5:
            ev.insert(r.choice([3, len(ev)]), dict(c="wv", n=nm("v"), t=t, d=data(r, t, k)))
    elif r.random() < 0.85:
        ev.append(dict(c="wv", n=nm("v"), t=t, d=data(r, t, chunk * recs)) if what == "values" or r.random() < 0.5 else wr(r.randrange(recs)))
    for v in (d.vars[0], d.vars[2]):
        if r.random() < 0.6 and v[3] < 5000:
            ev.append(dict(c="wv", n=nm(v[0]), t=v[1], d=data(r, v[1], v[2] * v[3])))
    ev.append(dict(c="close"))
    reads = [dict(c="rv", n=nm("v"), t=r.choice(["", t])), dict(c="rv", n=nm("v"), t=r.choice(["", t])), dict(c="rr", n=nm("v"), t=r.choice(["", t]), i=limbs(recs - 1))]
    if d.vars[1][4]:
        reads += [dict(c="rr", n=nm("v"), t="", i=limbs(i)) for i in sorted({0, recs // 2, recs - 1, recs, min(recs, 256), min(recs, 65536)})]
    else:
        reads.pop()
    reads += [dict(c="ra")]
    if what == "records" and n > 5000:
        reads = reads[:1] + reads[3:-1]
    r.shuffle(reads)
    ev += [dict(c="snap", p=0), dict(c="ro", p=0)] + reads + [dict(c="rview"), dict(c="rc")]
    return dict(tag="bulk", evs=ev)


READ = [dict(c="rvs"), dict(c="rview"), dict(c="rc")]


def session(r, ds, writes=(0, 10), bad=0.1, ends=("close",), snap_before=0.3, mid_read=0.0, early_bad=0.1, second_def=0.1):
    """One session on path 0 from its creation to the reading of the file."""
    ev = [ds.event(), dict(c=r.choice(["cn", "op"]), p=0)]
    if r.random() < early_bad:
        ev.append(bad_write(r, ds) if r.random() < 0.5 or not ds.vars else good_write(r, ds))
    ver, h = r.choice([1, 2]), hmin(r)
    ev.append(dict(c="sd", d=1, ver=ver, hmin=limbs(h)))
    if r.random() < 0.2:
        ev.append(dict(c="snap", p=0))
    for _ in range(r.randint(*writes)):
        if r.random() < bad:
            ev.append(bad_write(r, ds))
        elif ds.vars:
            ev.append(good_write(r, ds))
        if r.random() < second_def * 0.3:
            ev.append(dict(c="sd", d=1, ver=r.choice([1, 2]), hmin=[]))
        if r.random() < mid_read:
            ev += [dict(c="snap", p=0)] if r.random() < 0.5 else []
            ev += [dict(c="ro", p=0), dict(c="rvs")]
    if r.random() < snap_before:
        ev.append(dict(c="snap", p=0))
    ev.append(dict(c=r.choice(ends)))
    return ev


def full_session(r, ds, **kw):
    ev = session(r, ds, **kw)
    k = r.random()
    if k < 0.5:      # judged through the cells only
        ev += [dict(c="ro", p=0)] + READ + [dict(c="snap", p=0)]
    else:            # judged through the bytes as well
        ev += [dict(c="snap", p=0), dict(c="ro", p=0)] + READ
    return dict(tag="session", evs=ev)
