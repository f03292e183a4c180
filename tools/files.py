"""NetCDF-3 files built by hand, and mutations of bytes. They aim; they judge nothing."""
from gen import TYPES, SIZE, NAMES, data, limbs, nm, pool


def i32(n):
    return list(int(n % 2**32).to_bytes(4, "big"))


def pad(b):
    return b + [0] * (-len(b) % 4)


def ename(n):
    n = n if isinstance(n, (bytes, bytearray, list)) else n.encode()
    return i32(len(n)) + pad(list(n))


def elist(tag, items, tagged=False):
    if not items:
        return i32(tag if tagged else 0) + i32(0)
    return i32(tag) + i32(len(items)) + sum(items, [])


def eattr(a):
    n, t, d = a
    return ename(n) + i32(TYPES.index(t) + 1) + i32(len(d) // SIZE[t]) + pad(d)


class File:
    """dims: [(name, size or None)]; vars: [dict(n, t, d (ids), a, begin, vs)]; the data: {offset: bytes}"""

    def __init__(self, ver=1):
        self.ver, self.recs, self.dims, self.attrs, self.vars, self.tagged, self.indet = ver, 0, [], [], [], False, False
        self.blocks, self.end = [], 0

    def header(self):
        out = [67, 68, 70, self.ver] + ([255] * 4 if self.indet else i32(self.recs))
        out += elist(10, [ename(n) + i32(0 if s is None else s) for n, s in self.dims], self.tagged)
        out += elist(12, [eattr(a) for a in self.attrs], self.tagged)
        vs = []
        for v in self.vars:
            vs.append(ename(v["n"]) + i32(len(v["d"])) + sum([i32(x) for x in v["d"]], []) + elist(12, [eattr(a) for a in v["a"]], self.tagged)
                      + i32(TYPES.index(v["t"]) + 1) + v["vs"] + list(int(v["begin"]).to_bytes(4 if self.ver == 1 else 8, "big")))
        return out + elist(11, vs, self.tagged)

    def bytes(self):
        b = self.header()
        b += [0x5a] * (self.end - len(b))
        for o, d in self.blocks:
            b[o:o + len(d)] = d
        return b

    def chunk(self, v):
        n = SIZE[v["t"]]
        for k, x in enumerate(v["d"]):
            if self.dims[x][1] is not None:
                n *= self.dims[x][1]
        return n

    def isrec(self, v):
        return bool(v["d"]) and self.dims[v["d"][0]][1] is None


def foreign(r, special=0.15, indet=0.3, weird=0.6, attrs=True):
    """A random well-formed file."""
    f = File(r.choice([1, 2]))
    names = pool(r)
    nd = r.randrange(4)
    for _ in range(nd):
        f.dims.append((names.pop(), r.choice([1, 1, 2, 3, 4, 5])))
    u = None
    if r.random() < 0.75:
        u = r.randrange(nd + 1)
        f.dims.insert(u, (names.pop(), None))
        f.recs = r.choice([0, 1, 2, 2, 3, 4])
    f.tagged = r.random() < 0.3

    def at():
        out = []
        for n in r.sample(pool(r)[-4:], r.choice([0, 0, 1, 2])) if attrs else []:
            t = r.choice(TYPES)
            out.append((n, t, data(r, t, r.choice([0, 1, 2, 3, 5]))))
        return out
    f.attrs = at()
    names = pool(r)
    fixed = [i for i, d in enumerate(f.dims) if d[1] is not None]
    for _ in range(r.randrange(6)):
        d = r.sample(fixed, min(len(fixed), r.choice([0, 1, 1, 2, 3])))
        if u is not None and r.random() < 0.6:
            d = [u] + d
        f.vars.append(dict(n=names.pop(), t=r.choice(TYPES), d=d, a=at(), begin=0, vs=[0] * 4))
    rv = [v for v in f.vars if f.isrec(v)]
    if len(rv) == 1 and f.chunk(rv[0]) % 4 and r.random() > special:
        rv[0]["t"] = r.choice(["i32", "f32", "f64"])
    place(r, f, weird)
    if u is not None and rv and r.random() < indet:
        # a determinate count can be left out only if the records are at the end of the file
        place(r, f, weird, records_last=True)
        f.indet = True
    return f


def place(r, f, weird, records_last=False):
    f.blocks = []
    pos = len(f.header())
    odd = r.random() < weird
    gap = lambda: r.choice([0, 0, 4, 8, 3, 1, 20]) if odd else 0
    pos += gap()
    segs = [("v", v) for v in f.vars if not f.isrec(v)]
    rv = [v for v in f.vars if f.isrec(v)]
    if odd:
        r.shuffle(segs)
        r.shuffle(rv)
        segs.insert(len(segs) if records_last else r.randrange(len(segs) + 1), ("r", None))
    else:
        segs.append(("r", None))
    for k, v in segs:
        pos += gap()
        if k == "v":
            v["begin"] = pos
            d = data(r, v["t"], f.chunk(v) // SIZE[v["t"]])
            f.blocks.append((pos, d))
            pos += len(d) + (-len(d) % 4)
        elif rv:
            stride = sum(f.chunk(v) + (-f.chunk(v) % 4) for v in rv)
            if len(rv) == 1:
                stride = f.chunk(rv[0])       # the format: no padding between the records of a single variable
            o = pos
            for v in rv:
                v["begin"] = o
                for c in range(f.recs):
                    f.blocks.append((o + c * stride, data(r, v["t"], f.chunk(v) // SIZE[v["t"]])))
                o += f.chunk(v) + (-f.chunk(v) % 4)
            pos += stride * f.recs
    f.end = pos
    if not records_last and odd and r.random() < 0.3:
        f.end += r.choice([1, 4, 17])
    for v in f.vars:
        c = f.chunk(v)
        v["vs"] = i32(c + (-c % 4))
        if odd and r.random() < 0.4:
            v["vs"] = r.choice([[0] * 4, [255] * 4, i32(c), i32(1), i32(2**31 - 1), i32(c + 4)])


def wide(r, indet=0.2):
    """A well-formed file in which one thing is many: dimensions, attributes, variables, dimensions of a variable, records, values of an
    attribute or bytes of a name."""
    import scale
    f = File(r.choice([1, 2]))
    n = scale.extent(r)
    k = r.randrange(8)
    u = r.random() < 0.6 or k == 5
    dims = scale.names(r, "d", n if k in (0, 4) else r.choice([1, 2, 3]))
    f.dims = [(x, 1 if i % 50 != 3 else 2) for i, x in enumerate(dims)]
    if k == 6:
        f.dims[0] = ("n" * min(n, 255), 2)
    if u:
        f.recs = n if k == 5 else r.choice([0, 1, 2, 3])
        f.dims.insert(scale.place(r, len(f.dims) + 1), ("unlim", None))
    ui = [i for i, d in enumerate(f.dims) if d[1] is None]
    fixed = [i for i, d in enumerate(f.dims) if d[1] is not None]

    def at(stem, m):
        out = []
        for x in scale.names(r, stem, m):
            t = r.choice(TYPES)
            out.append((x, t, data(r, t, r.choice([0, 1, 2, 3]))))
        return out
    f.attrs = at("g", n if k == 1 else r.choice([0, 1, 2]))
    if k == 7:
        t = r.choice(TYPES)
        f.attrs.insert(r.randrange(len(f.attrs) + 1), ("long", t, data(r, t, n)))
    vs = scale.names(r, "v", n if k == 2 else r.choice([1, 2, 3]))
    lot = scale.place(r, len(vs))
    for i, x in enumerate(vs):
        d = r.sample(fixed, min(len(fixed), n if k == 4 and i == lot else r.choice([0, 0, 1, 2])))
        if ui and r.random() < (0.8 if k == 5 else 0.4):
            d = ui + d
        f.vars.append(dict(n=x, t=r.choice(TYPES), d=d, a=at("a", n if k == 3 and i == lot else r.choice([0, 0, 1])), begin=0, vs=[0] * 4))
    rv = [v for v in f.vars if f.isrec(v)]
    if len(rv) == 1 and f.chunk(rv[0]) % 4:
        rv[0]["t"] = r.choice(["i32", "f32", "f64"])
    place(r, f, 0.6)
    if rv and r.random() < indet:
        place(r, f, 0.6, records_last=True)
        f.indet = True
    return f


def put_read(b, tag="file", reads=None):
    return dict(tag=tag, evs=[dict(c="put", p=0, b=b), dict(c="ro", p=0)] + (reads if reads is not None else [dict(c="rvs"), dict(c="rview"), dict(c="rc")]))


def sparse(r):
    """A well-formed file with huge gaps, or very many records: a script that puts it and reads parts of it."""
    f = File(r.choice([1, 2, 2, 2]))
    cap = 2**31 - 1 if f.ver == 1 else 2**38
    rec = r.random() < 0.75
    f.dims = [("m", r.choice([2, 3, 4, 5])), ("k", 3)]
    u = None
    if rec:
        u = r.randrange(3)
        f.dims.insert(u, ("t", None))
        f.recs = r.choice([0, 0, 1, 2, 3, 2**16, 2**20 + 1, 2**28 + 3, 2**29, 2**30, 2**31 - 2, 2**31 - 1])
    fixed = [i for i in range(len(f.dims)) if i != u]
    for i in range(r.randrange(1, 5)):
        d = r.sample(fixed, r.choice([0, 1, 1, 2]))
        f.vars.append(dict(n="v%d" % i, t=r.choice(TYPES), d=[u] + d if rec and r.random() < 0.6 else d, a=[], begin=0, vs=r.choice([[0] * 4, [255] * 4])))
    rv = [v for v in f.vars if f.isrec(v)]
    if len(rv) == 1 and f.chunk(rv[0]) % 4:
        rv[0]["t"] = r.choice(["i32", "f32", "f64"])
    if r.random() < 0.4 and rv:
        f.indet = True
    stride = sum(f.chunk(v) + (-f.chunk(v) % 4) for v in rv)
    h = len(f.header())
    segs = [v for v in f.vars if not f.isrec(v)] + (["r"] if rv else [])
    if r.random() < 0.6:
        r.shuffle(segs)
    if f.indet or f.ver == 1:
        segs = [x for x in segs if x != "r"] + ["r"]
    pos, blocks, reads = h, [], []
    gap = lambda: r.choice([0, 4, 3, 100, 2**16, 2**31 - h - 60, 2**31 - 1, 2**31, 2**32 - h, 2**32, 2**33 + 4])
    if f.indet and f.recs == 0:
        f.recs = 1
    if f.recs * stride > 2**40:
        f.recs = 2**40 // stride
    for x in segs:
        g = gap()
        o = pos + g
        if o > cap - 4096:
            o = pos
        if x != "r":
            x["begin"] = o
            d = data(r, x["t"], f.chunk(x) // SIZE[x["t"]])
            blocks.append((o, d))
            pos = o + len(d) + (-len(d) % 4)
            reads += [dict(c="rv", n=nm(x["n"]), t=r.choice(["", x["t"]])), dict(c="rr", n=nm(x["n"]), t="", i=[]), dict(c="rr", n=nm(x["n"]), t="", i=[1])]
        else:
            off = 0
            if f.recs == 0 and f.ver == 2 and not f.indet and r.random() < 0.6:      # nothing is stored there
                off = r.choice([2**43, 2**50, 2**62, 2**63 - 1 - 2**20])
            for v in rv:
                v["begin"] = o + off
                off += f.chunk(v) + (-f.chunk(v) % 4)
                want = [0, 1, f.recs - 1, f.recs - 2, f.recs] + [(b - v["begin"]) // stride + y for b in (2**31, 2**32, 2**33) for y in (-1, 0, 1)]
                for c in sorted({c for c in want if 0 <= c <= f.recs}):
                    if c < f.recs:
                        blocks.append((v["begin"] + c * stride, data(r, v["t"], f.chunk(v) // SIZE[v["t"]])))
                    reads.append(dict(c="rr", n=nm(v["n"]), t=r.choice(["", v["t"]]), i=limbs(c)))
                if f.recs <= 3:
                    reads.append(dict(c="rv", n=nm(v["n"]), t=""))
            pos = o + stride * f.recs
    if r.random() < 0.2 and not f.indet:
        pos = max(pos - r.choice([1, 4, 2**20, 2**31]), h)
        blocks = [(o, d) for o, d in blocks if o + len(d) <= pos]
    ev = [dict(c="putx", p=0, b=f.header(), x=[dict(o=limbs(o), d=d) for o, d in sorted(blocks)], len=limbs(pos)), dict(c="ro", p=0)]
    r.shuffle(reads)
    return dict(tag="sparse-foreign", evs=ev + reads + [dict(c="rview"), dict(c="rc")])


def twice(r, attrs):
    """One attribute more than once: the same again, or another of the same name."""
    a = list(attrs) + [("q", "i8", [1])]
    x = r.choice(a)
    t = r.choice(TYPES)
    a.insert(r.randrange(len(a) + 1), x if r.random() < 0.5 else (x[0], x[1], []) if r.random() < 0.3 else (x[0], t, data(r, t, r.choice([0, 1, 2]))))
    return a


def unruly(r):
    """A file whose header can be parsed, with a definition that breaks a rule (or two)."""
    f = foreign(r) if r.random() < 0.8 else wide(r)
    names = NAMES[:]
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.randrange(14)
        bad = r.choice([b"", b"a/b", b"/", b" a", b"a ", b"1/", b"\x01", b"a\x7f", b"a\x00", b"*x", b"x" * 300, "é/".encode()])
        if k == 0 and f.dims:
            x = r.choice(f.dims)
            f.dims.append((x[0], r.choice([1, 2, None])) if r.random() < 0.6 else x)
        elif k == 1:
            f.dims += [(n, None) for n in r.sample(["una", "duo", "tri"], 2)]
        elif k == 2 and f.dims:
            i = r.randrange(len(f.dims))
            f.dims[i] = (bad, f.dims[i][1])
        elif k == 3 and f.vars:
            v = dict(r.choice(f.vars))
            f.vars.insert(r.randrange(len(f.vars) + 1), v)
        elif k == 4 and f.vars:
            r.choice(f.vars)["n"] = bad
        elif k == 5:
            f.attrs = twice(r, f.attrs)
        elif k == 6:
            f.attrs = f.attrs + [(bad, "u8", [65])]
        elif k == 7 and f.vars:
            v = r.choice(f.vars)
            v["a"] = twice(r, v["a"])
        elif k == 8 and f.vars:
            v = r.choice(f.vars)
            v["a"] = v["a"] + [(bad, "u8", [65])]
        elif k == 9 and f.vars and f.dims:
            v = r.choice(f.vars)
            v["d"] = v["d"] + [r.randrange(len(f.dims))] * r.choice([1, 2])
        elif k == 10 and f.vars:
            v = r.choice(f.vars)
            v["d"] = list(v["d"])
            for _ in range(r.choice([1, 1, 2])):
                v["d"].insert(r.randrange(len(v["d"]) + 1), len(f.dims) + r.choice([0, 0, 1, 5, 2**31 - 1 - len(f.dims), 2**16, 255]))
        elif k == 11 and f.vars and any(d[1] is None for d in f.dims):
            u = [i for i, d in enumerate(f.dims) if d[1] is None][0]
            v = r.choice(f.vars)
            v["d"] = [x for x in range(len(f.dims)) if x != u][:2] + [u]
        elif k == 12 and f.vars and r.random() < 0.15:
            f.dims += [("d%d" % i, 1) for i in range(1030)]
            r.choice(f.vars)["d"] = list(range(len(f.dims) - 1030, len(f.dims) - 1030 + r.choice([1025, 1026, 1030])))
        elif k == 13:
            rv = [v for v in f.vars if f.isrec(v)] if all(x < len(f.dims) for v in f.vars for x in v["d"]) else []
            for v in rv:
                v["begin"] += r.choice([2**20, 2**30])
            f.indet = f.indet or bool(rv)
    return f


FIELD = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 255, 256, 257, 1023, 1024, 1025, 65536, 2**24, 2**30, 2**31 - 4, 2**31 - 3, 2**31 - 1, 2**31, 2**31 + 1,
         2**32 - 2, 2**32 - 1, 0x80, 0x8000, 0x41414141, 0x2f616263]


def mutations(r, b, hl, count):
    """Changed copies of b (header length hl)."""
    out = []
    for _ in range(count):
        c = list(b)
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            k = r.randrange(12)
            h = max(1, min(hl, len(c)))
            if k <= 3 and len(c) >= 4:      # a field of the header
                o = 4 * r.randrange(max(1, h // 4))
                c[o:o + 4] = i32(r.choice(FIELD)) if r.random() < 0.8 else i32(int.from_bytes(bytes(c[o:o + 4]), "big") + r.choice([-1, 1, 2, -2, 4, -4]))
            elif k <= 6:                    # a byte
                o = r.randrange(h)
                if o < len(c):
                    c[o] = r.choice([0, 1, 0x7f, 0x80, 0xff, c[o] ^ 1, c[o] ^ 0x80, (c[o] + 1) % 256, (c[o] - 1) % 256, r.randrange(256), 0x2f, 0x20, 0xc3])
            elif k == 7:
                c = c[:r.randrange(len(c) + 1)]
            elif k == 8:
                c = c[:r.randrange(h + 1)]
            elif k == 9:                    # removes or repeats words
                o = 4 * r.randrange(max(1, h // 4))
                m = 4 * r.choice([1, 2, 3, 8])
                c = c[:o] + (c[o + m:] if r.random() < 0.5 else c[o:o + m] + c[o:])
            elif k == 10:                   # a part replaced by another
                o, q = 4 * r.randrange(max(1, h // 4)), 4 * r.randrange(max(1, h // 4))
                m = 4 * r.choice([1, 2, 3, 4])
                c[o:o + m] = c[q:q + m]
            else:
                c += [r.randrange(256) for _ in range(r.choice([1, 3, 4, 8, 100]))]
        out.append(c)
    return out


def sweep(b, hl, values=(0, 1, 0x7f, 0x80, 0xff, "^1", "+1", "-1", 0x2f)):
    """Every byte of the header with some values."""
    for o in range(hl):
        seen = {b[o]}
        for v in values:
            x = b[o] ^ 1 if v == "^1" else (b[o] + 1) % 256 if v == "+1" else (b[o] - 1) % 256 if v == "-1" else v
            if x not in seen:
                seen.add(x)
                c = list(b)
                c[o] = x
                yield c


def field_sweep(b, hl):
    for o in range(0, hl - 3, 4):
        for v in FIELD:
            x = i32(v)
            if b[o:o + 4] != x:
                c = list(b)
                c[o:o + 4] = x
                yield c


def seed_headers():
    """Small headers with every construct."""
    out = []
    for ver in (1, 2):
        f = File(ver)
        f.recs = 2
        f.dims = [("t", None), ("xy", 2)]
        f.attrs = [("a", "u8", [104, 105, 33]), ("e", "f64", [])]
        f.vars = [dict(n="v", t="i16", d=[0, 1], a=[("u", "i16", [1, 2])], begin=0, vs=i32(4)),
                  dict(n="ws", t="i8", d=[1], a=[], begin=0, vs=i32(4)), dict(n="s", t="f32", d=[0], a=[], begin=0, vs=i32(4))]
        h = len(f.header())
        f.vars[1]["begin"], f.vars[0]["begin"], f.vars[2]["begin"] = h, h + 4, h + 8
        f.blocks = [(h, [1, 2, 0, 0]), (h + 4, list(range(16)))]
        f.end = h + 20
        out.append((f.bytes(), h))
        f = File(ver)
        f.dims = [("é", 3)]
        f.vars = [dict(n="x", t="f64", d=[0], a=[], begin=0, vs=i32(24))]
        h = len(f.header())
        f.vars[0]["begin"] = h
        f.blocks = [(h, list(range(24)))]
        f.end = h + 24
        out.append((f.bytes(), h))
        f = File(ver)                # (every list that can be empty is empty)
        f.vars = [dict(n="k", t="i32", d=[], a=[], begin=0, vs=i32(4)), dict(n="l", t="u8", d=[], a=[("e", "i8", [])], begin=0, vs=i32(4))]
        h = len(f.header())
        f.vars[0]["begin"], f.vars[1]["begin"] = h, h + 4
        f.blocks = [(h, [1, 2, 3, 4, 5, 0, 0, 0])]
        f.end = h + 8
        out.append((f.bytes(), h))
    f = File(1)
    out.append((f.bytes(), 32))
    return out
