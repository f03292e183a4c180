"""C07-C20: writing sessions, files and readers (NC3, MC_Format, TraceIO)."""
import random
import beh, faults, files, gen, more, scale
from gen import DS, READ, limbs, nm, data

ASSUME = ["the Rust compiler, the operating system's files (RLIMIT_FSIZE for a storage that is full), and the getters through which the harness observes a data set",
          "TLC evaluates the specification correctly",
          "traces are judged on the executions that were run: larger definitions, files and histories are sampled"]


def rng(ctx, salt):
    return random.Random(ctx.seed * 100003 + salt)


def nc3(ctx, cfg, count, salt, limited=False, model=True):
    """Behaviours of NC3 replayed on the code (all of them, or a sample)."""
    out = ctx.model("NC3", cfg, workers=4)
    bs = ctx.printed(out, "BEH")
    r = rng(ctx, salt)
    total = len(bs)
    if len(bs) > count:
        bs = [bs[i] for i in sorted(r.sample(range(len(bs)), count))]
    ctx.models[-1] += "; %d of %d behaviours replayed" % (len(bs), total)
    judge(ctx, [beh.script(b, r, limited) for b in bs], "behaviours of " + cfg)


def judge(ctx, scripts, what):
    ctx.validate("TraceIO", ctx.run_scripts("io", scripts), what)


def sessions(ctx, count, salt, what="random sessions", dsf=None, **kw):
    r = rng(ctx, salt)
    judge(ctx, [styled(r, gen.full_session(r, (dsf or gen.rand_ds)(r), **kw)) for _ in range(count)], what)


def large(ctx, count, salt, end="close"):
    r = rng(ctx, salt)
    sc = []
    for k in range(count):
        d, ev = gen.large_session(r, end)
        tail = [dict(c="snap", p=0), dict(c="ro", p=0)] if r.random() < 0.6 else [dict(c="ro", p=0)]
        sc.append(dict(tag="large", evs=ev + tail + gen.READ))
    judge(ctx, sc, "large sessions")


def bulk(ctx, plan, salt):
    """Numbers of values or of records that do not fit in 8, 15, 16 (17) bits; plan: (what, numbers, types of the variable)."""
    r = rng(ctx, salt)
    judge(ctx, [gen.bulk(r, what, n, t) for what, ns, ts in plan for n in ns for t in ts for _ in range(ctx.pick(1, 3))], "bulk sessions")


def sequences(ctx, count, salt):
    r = rng(ctx, salt)
    judge(ctx, [gen.sequence(r) for _ in range(count)], "sessions that follow each other")


# -- definitions -----------------------------------------------------------------------------------

def reachable(ctx, cfgs, count, salt):
    """The definitions reachable in MC_DataSet, written with both versions."""
    r = rng(ctx, salt)
    sc = []
    for cfg in cfgs:
        out = ctx.model("MC_DataSet", cfg, workers=1)
        hs = [s["pre"] for s in ctx.printed(out, "EMIT")]
        if len(hs) > count:
            hs = [hs[i] for i in sorted(r.sample(range(len(hs)), count))]
        for h in hs:
            for ver in (1, 2):
                sc.append(define(dict(c="ds", ops=h), ver, r.choice([0, 0, 33, 120, 200, 256]), r))
    judge(ctx, sc, "definitions of " + "/".join(cfgs))


def define(ds, ver, hmin, r, close=True):
    ev = [ds, dict(c="op", p=0), dict(c="sd", d=1, ver=ver, hmin=limbs(hmin)), dict(c="snap", p=0), dict(c="close" if close else "drop")]
    return dict(tag="define", evs=ev + [dict(c="ro", p=0), dict(c="rc")])


def big_ds(r):
    """A header larger than the reader's buffer."""
    d = DS()
    long = lambda k: ("n%d" % k) + r.choice(["x", "é", "_"]) * r.randrange(0, 120)
    n = r.randrange(1, 30)
    for k in range(n):
        d.fixed(long(k), r.choice([1, 2, 3]))
    if r.random() < 0.7:
        d.unlim("t", r.choice([0, 1, 2]))
    dims = list(d.dims)
    for k in range(r.randrange(0, 14)):
        ids = r.sample([x for x in dims if not d.dims[x][0]], r.randrange(0, min(n, 3) + 1))
        if "t" in d.dims and r.random() < 0.5:
            ids = ["t"] + ids
        d.var(long(k), r.choice(gen.TYPES), ids)
        for j in range(r.randrange(3)):
            t = r.choice(gen.TYPES)
            d.vattr(d.vars[-1][0], "a%d" % j, t, data(r, t, r.randrange(0, 30)))
    for j in range(r.randrange(1, 5)):
        t = r.choice(gen.TYPES)
        d.gattr(long(j), t, data(r, t, r.choice([1, 7, 100, 256, 300, 700])))
    return d


def definitions(ctx, small, big, salt):
    r = rng(ctx, salt)
    sc = []
    for k in range(small):
        sc.append(define(gen.rand_ds(r).event(), r.choice([1, 2]), gen.hmin(r), r, r.random() < 0.8))
    for k in range(big):
        sc.append(define(big_ds(r).event(), r.choice([1, 2]), r.choice([0, 0, 1000, 1024, 1025, 3000]), r, r.random() < 0.8))
    judge(ctx, sc, "random definitions")


def pad4(n):
    return (n + 3) // 4 * 4


def sparse(ctx, count, salt):
    """Definitions with huge variables or many records: offsets and sizes around 2^31 and 2^32, never filled."""
    r = rng(ctx, salt)
    M = 2**31 - 4
    sc = []
    for k in range(count):
        d = DS()
        # the huge variables, from sizes that end near the boundaries
        target = r.choice([2**31 - 1, 2**31, 2**32, 2**33, 3 * 2**30, 5 * 2**29])
        h = r.choice([256, 512, 1024])
        size = max(1, target - h + r.choice([-12, -8, -7, -5, -4, -3, -1, 0, 1, 3, 4, 5, 8, 12]))
        t = r.choice(["u8", "u8", "i8", "i16", "i32", "f64"])
        n = min(M, size // gen.SIZE[t])
        if r.random() < 0.2:
            n, t = r.choice([M, M - 1, M - 3]), r.choice(["u8", "i8"])
        many = r.random() < 0.45
        recs = r.choice([0, 1, 2, 3])
        if many:
            recs = r.choice([2**16, 2**20 + 1, 2**29, 2**30 - 1, 2**31 - 1, 2**31 - 1, 2**31, 2**32])
        d.fixed("n", n)
        rec = many or recs == 0 or r.random() < 0.6
        if rec:
            d.unlim("t", recs)
            d.fixed("m", r.choice([2, 3, 5, 9]))
        small = lambda k, rec2: d.var("s%d" % k, r.choice(gen.TYPES), (["t"] if rec2 else []) + (["m"] if rec and r.random() < 0.4 else []))
        isrec = lambda p: rec and r.random() < p
        if r.random() < 0.3:
            small(0, isrec(0.5))
        if not many or r.random() < 0.4:
            d.var("big", t, (["t"] if isrec(0.3) else []) + ["n"])
        if many:
            small(9, True)
        for k in range(1, r.randrange(1, 4)):
            small(k, isrec(0.5))
        if recs == 0:
            d.fixed("n2", r.choice([2**20, 2**28]))
            d.var("bigger", "i8", ["n", "n2"])
            small(7, True)
        if r.random() < 0.2 and not many:
            d.var("big2", t, ["n"])
            small(5, isrec(0.5))
        ev = [d.event(), dict(c="op", p=0)]
        for v in ([1, 2] if r.random() < 0.7 else [2]):
            ev.append(dict(c="sd", d=1, ver=v, hmin=limbs(h)))
        rs = sum(pad4(v[2] * gen.SIZE[v[1]]) for v in d.vars if v[4])
        base = h + sum(pad4(v[2] * gen.SIZE[v[1]]) for v in d.vars if not v[4])
        written = []
        for _ in range(r.randrange(1, 5)):
            vs = [v for v in d.vars if v[0][0] == "s"]
            if vs:
                v = r.choice(vs)
                if v[3] == 0:
                    ev.append(dict(c="wv", n=nm(v[0]), t=v[1], d=[]))
                if v[3] == 0 or base > 2**39:      # (there nothing can be stored)
                    continue
                top = min(v[3], max(1, 2**39 // max(rs, 1))) - 1      # files of less than 2^40 bytes
                i = r.choice([0, 1, 2, top, top - 1] + [(b - base) // max(rs, 1) + x for b in (2**31, 2**32, 2**33) for x in (-1, 0, 1)])
                i = min(max(i, 0), top)
                ev.append(dict(c="wr", n=nm(v[0]), t=v[1], i=limbs(i), d=data(r, v[1], v[2])))
                written.append((v, i))
        ev += [dict(c="ext", p=0), dict(c="forget"), dict(c="ro", p=0)]
        for v, i in written:
            for j in (i, i + 1):
                ev.append(dict(c="rr", n=nm(v[0]), t=r.choice(["", v[1]]), i=limbs(j)))
        for v in d.vars:
            if v[0][0] == "s":
                ev += [dict(c="rr", n=nm(v[0]), t="", i=limbs(i)) for i in range(min(v[3], 3))]
                if not v[4] or v[3] <= 3:
                    ev.append(dict(c="rv", n=nm(v[0]), t=""))
        ev.append(dict(c="rc"))
        sc.append(dict(tag="sparse", evs=ev))
    judge(ctx, sc, "sparse files")


def huge_headers(ctx, count, salt):
    """Headers of several reader's buffers, up to hundreds of KiB."""
    r = rng(ctx, salt)
    sc = []
    for k in range(count):
        d = DS()
        total = [66000, 130000, 20000, 262200, 40000, 530000][k % 6] + r.randrange(200)
        way = k % 3
        if way == 0:            # one long attribute
            t = r.choice(gen.TYPES)
            d.gattr("a", t, data(r, t, total // gen.SIZE[t]))
            d.fixed("x", 3)
            d.var("v", "i16", ["x"])
        elif way == 1:          # attributes of a variable, and another variable after it
            d.var("v", "i8", [])
            for j in range(5):
                t = r.choice(gen.TYPES)
                d.vattr("v", "a%d" % j, t, data(r, t, total // 5 // gen.SIZE[t]))
            d.var("u", "f64", [])
        else:                   # many dimensions and variables
            for j in range(total // 130):
                d.fixed("dimension_%d" % j + "é" * r.randrange(8), 1 + j % 3)
            for j in range(total // 130):
                d.var("variable_%d" % j, r.choice(gen.TYPES), r.sample(list(d.dims), 1) if r.random() < 0.7 else [])
        sc.append(define(d.event(), r.choice([1, 2]), r.choice([0, 0, 70000]), r))
    judge(ctx, sc, "huge headers")


def extents(ctx, level, salt, part=1):
    """One extent of the definition at a time, from none to hundreds (or thousands)."""
    r = rng(ctx, salt)
    hs = scale.headers(r, level)
    if part < 1:
        hs = [d for d in hs if r.random() < part]
    judge(ctx, [define(d.event(), r.choice([1, 2]), r.choice([0, 0, 0, 1000, 4096]), r, r.random() < 0.8) for d in hs], "definitions of many extents")


def format_model(ctx):
    for c in ctx.pick(["MC_FormatQ"], ["MC_Format", "MC_FormatM", "MC_Format3"]):
        ctx.model("MC_Format", c)


# -- the checks ------------------------------------------------------------------------------------

def c07(ctx):
    format_model(ctx)
    reachable(ctx, ctx.pick(["MC_DataSetA"], ["MC_DataSetA", "MC_DataSetB", "MC_DataSetC"]), ctx.pick(250, 4000), 1)
    definitions(ctx, ctx.pick(250, 4000), ctx.pick(100, 1200), 2)
    sparse(ctx, ctx.pick(60, 600), 3)
    large(ctx, ctx.pick(20, 300), 5)
    sequences(ctx, ctx.pick(80, 1500), 6)
    extents(ctx, ctx.pick(0, 1), 7)
    return ctx.finish(ASSUME)


def c08(ctx):
    ctx.model("NC3", "NC3_all")
    format_model(ctx)
    nc3(ctx, ctx.pick("NC3_emitW", "NC3_emitW2"), ctx.pick(500, 6000), 1)
    sessions(ctx, ctx.pick(350, 5000), 2, snap_before=1.0, writes=(1, 8), bad=0, dsf=lambda r: gen.rand_ds(r, minvars=2, attrs=r.random() < 0.5, recs=(1, 2, 3)))
    sparse(ctx, ctx.pick(150, 1500), 3)
    definitions(ctx, ctx.pick(100, 1000), 0, 4)
    large(ctx, ctx.pick(40, 500), 5)
    return ctx.finish(ASSUME)


def c09(ctx):
    format_model(ctx)
    reachable(ctx, ctx.pick(["MC_DataSetB"], ["MC_DataSetA", "MC_DataSetB", "MC_DataSetC"]), ctx.pick(250, 4000), 1)
    definitions(ctx, ctx.pick(200, 3000), ctx.pick(200, 2000), 2)
    sessions(ctx, ctx.pick(100, 1000), 3, writes=(0, 3))
    sparse(ctx, ctx.pick(40, 300), 4)
    huge_headers(ctx, ctx.pick(3, 12), 5)
    large(ctx, ctx.pick(24, 300), 6)
    extents(ctx, ctx.pick(0, 1), 7, ctx.pick(0.6, 1))
    return ctx.finish(ASSUME)


def c10(ctx):
    ctx.model("NC3", ctx.pick("NC3_all", "NC3_deep"))
    nc3(ctx, ctx.pick("NC3_emitW", "NC3_emitW2"), ctx.pick(900, 14000), 1)
    sessions(ctx, ctx.pick(500, 8000), 2, writes=(1, 12), bad=0.05)
    sparse(ctx, ctx.pick(100, 1500), 3)
    large(ctx, ctx.pick(64, 800), 4)
    sequences(ctx, ctx.pick(80, 1500), 5)
    bulk(ctx, [("values", (32768, 65536), gen.TYPES), ("values", (131072,), ("u8", "i16")), ("record", (32768, 65536), (None,)), ("records", (256, 32768), (None,))], 6)
    return ctx.finish(ASSUME)


def c11(ctx):
    ctx.model("NC3", ctx.pick("NC3_all", "NC3_deep"))
    ctx.model("NC3", "NC3_F1", expect_violation="WrittenIsStored")
    nc3(ctx, ctx.pick("NC3_emitW", "NC3_emitW2"), ctx.pick(1900, 14000), 1)
    sessions(ctx, ctx.pick(300, 6000), 2, writes=(4, 20), bad=0.02, snap_before=0.5)
    large(ctx, ctx.pick(48, 600), 3)
    bulk(ctx, [("records", (256, 256, 300, 1024, 4096, 32768, 65536), (None,)), ("values", (32768, 65536), (None, None)), ("record", (32768, 65536), (None,))], 4)
    return ctx.finish(ASSUME)


def chunk_lengths(ctx, salt):
    """Chunks of many lengths (the powers of two, their neighbours and multiples), written or not."""
    r = rng(ctx, salt)
    lens = {1, 2, 3, 12288, 20480, 24576, 3000, 5000, 10000}
    for k in range(2, ctx.pick(15, 17)):
        lens |= {2**k - 1, 2**k, 2**k + 1}
    sc = []
    for n in sorted(lens):
        for t in (gen.TYPES if n < 300 else r.sample(gen.TYPES, 2) if n < 5000 else [r.choice(["i8", "u8"]), r.choice(["i16", "i32"])]):
            d = DS()
            rec = r.random() < 0.5
            if rec:
                d.unlim("t", r.choice([1, 2, 2]) if n < 5000 else 1)
            f = [x for x in (2, 3, 4, 64, 1024) if n % x == 0 and x < n]
            if f and r.random() < 0.4:
                x = r.choice(f)
                d.fixed("m", n // x)
                d.fixed("n", x)
                dims = ["m", "n"]
            else:
                d.fixed("n", n)
                dims = ["n"]
            d.var("a", r.choice(["i8", "i16", "i32"]), (["t"] if rec and r.random() < 0.5 else []))
            d.var("v", t, (["t"] if rec else []) + dims)
            d.var("z", r.choice(["i8", "i16", "i32"]), (["t"] if rec and r.random() < 0.5 else []))
            ev = [d.event(), dict(c="op", p=0), dict(c="sd", d=1, ver=r.choice([1, 2]), hmin=[])]
            ev += [dict(c="wv", n=nm(v[0]), t=v[1], d=gen.data(r, v[1], v[2] * v[3])) for v in d.vars if r.random() < (0.25 if v[0] == "v" else 0.5)]
            sc.append(dict(tag="lengths", evs=ev + [dict(c="close"), dict(c="snap", p=0), dict(c="ro", p=0), dict(c="rv", n=nm("v"), t=""), dict(c="ra"), dict(c="rc")]))
    judge(ctx, sc, "chunk lengths")


def c12(ctx):
    ctx.model("NC3", ctx.pick("NC3_all", "NC3_deep"))
    ctx.model("NC3", "NC3_F2", expect_violation="ClosedIsComplete")
    nc3(ctx, ctx.pick("NC3_emitW", "NC3_emitW2"), ctx.pick(900, 14000), 1)
    sessions(ctx, ctx.pick(250, 5000), 2, writes=(0, 4), bad=0.02, snap_before=0.4)
    sessions(ctx, ctx.pick(150, 3000), 3, what="random sessions, records", writes=(0, 6), bad=0.02, snap_before=0.4,
             dsf=lambda r: gen.rand_ds(r, minvars=1, maxvars=7, unlim=1, recs=(0, 1, 2, 3, 7), attrs=False))
    large(ctx, ctx.pick(48, 800), 4)
    chunk_lengths(ctx, 6)
    bulk(ctx, [("records", (256, 256, 300, 1024, 4096, 32768, 65536), (None,)), ("values", (65536, 131072), (None,)), ("record", (32768, 65536), (None,))], 7)
    sequences(ctx, ctx.pick(60, 1500), 5)
    return ctx.finish(ASSUME)


def c13(ctx):
    ctx.model("NC3", ctx.pick("NC3_all", "NC3_deep"))
    ctx.model("NC3", "NC3_F3", expect_violation="WrittenIsStored")
    nc3(ctx, ctx.pick("NC3_emitB", "NC3_emitB2"), ctx.pick(1300, 20000), 1)
    sessions(ctx, ctx.pick(400, 8000), 2, writes=(2, 14), bad=0.6, early_bad=0.3)
    large(ctx, ctx.pick(24, 300), 3)
    r, sc = rng(ctx, 4), []
    for _ in range(ctx.pick(300, 5000)):
        s = gen.full_session(r, gen.rand_ds(r, maxvars=4, minvars=1), writes=(1, 10), bad=r.choice([0.2, 0.5, 0.8]), early_bad=0.3, ends=("close", "close", "drop"), mid_read=0.05)
        sc.append(dict(s, twp="C13", without="rejected"))
    judge(ctx, sc, "sessions with and without the refused calls")
    return ctx.finish(ASSUME)


def odd(r):
    return dict(c="odd", what=r.choice(["dir", "missing", "under", "long", "nul", "empty", "loop"]), how=r.choice(["cn", "op", "ro"]))


def styled(r, s):
    """The files under other names: relative, not UTF-8, long, or through links."""
    if r.random() < 0.4:
        s["style"] = r.choice([1, 2, 3, 4])
        if s["style"] == 3:
            for e in s["evs"]:
                if e["c"] == "cn":      # (a link is there already)
                    e["c"] = "op"
    return s


def lifecycle(r, k):
    """Random histories over two paths: existing files, refused and second definitions, sessions that follow each other."""
    ev = []
    dss = [gen.rand_ds(r, maxvars=3) for _ in range(2)]
    huge = DS()
    huge.fixed("h", 2**31 - 4)
    huge.var("a", "i8", ["h"])
    huge.var("b", "i8", [])
    huge.vars = []          # nothing is written to it
    dss.append(huge)
    for d in dss:
        ev.append(d.event())
    for p in (0, 1):
        if r.random() < 0.5:
            ev.append(dict(c="put", p=p, b=r.choice([[], [1, 2, 3], files.foreign(r).bytes()])))
    for _ in range(r.randint(1, 3)):
        ev.append(dict(c=r.choice(["cn", "op", "op"]), p=r.randrange(2)))
        ev.append(dict(c="acc"))
        cur = None
        for _ in range(r.randint(0, 8)):
            a = r.random()
            if a < 0.4:
                i = r.choice([0, 0, 1, 2])
                ver = 1 if i == 2 else r.choice([1, 2])
                ev.append(dict(c="sd", d=i + 1, ver=ver, hmin=limbs(gen.hmin(r))))
                if cur is None and i < 2:
                    cur = dss[i]
            elif a < 0.5:
                ev.append(dict(c="acc"))
            elif cur is None:
                d = r.choice(dss[:2])
                ev.append(gen.good_write(r, d) if d.vars else gen.bad_write(r, d))
            else:
                ev.append(gen.good_write(r, cur) if cur.vars and r.random() < 0.7 else gen.bad_write(r, cur))
        ev.append(dict(c=r.choice(["close", "close", "drop"])))
        if r.random() < 0.5:
            ev += [dict(c="snap", p=0), dict(c="snap", p=1)]
        if r.random() < 0.3:
            ev += [dict(c="ro", p=r.randrange(2)), dict(c="rvs"), dict(c="rc")]
        if r.random() < 0.2:
            ev.append(dict(c="rm", p=r.randrange(2)))
    for _ in range(r.choice([0, 0, 1, 2])):
        ev.insert(r.randrange(len(dss), len(ev) + 1), odd(r))
    return styled(r, dict(tag="lifecycle", evs=ev))


def c14(ctx):
    ctx.model("NC3", ctx.pick("NC3_all", "NC3_deep"))
    nc3(ctx, "NC3_emitC", ctx.pick(1200, 20000), 1)
    r = rng(ctx, 2)
    judge(ctx, [lifecycle(r, k) for k in range(ctx.pick(500, 8000))], "random life cycles")
    sequences(ctx, ctx.pick(60, 1500), 3)
    return ctx.finish(ASSUME)


def c15(ctx):
    ctx.model("NC3", ctx.pick("NC3_all", "NC3_deep"))
    nc3(ctx, ctx.pick("NC3_emitR", "NC3_emitR2"), ctx.pick(1200, 20000), 1)
    sessions(ctx, ctx.pick(400, 7000), 2, writes=(0, 8), ends=("drop", "forget"), mid_read=0.15, bad=0.05)
    large(ctx, ctx.pick(32, 400), 4, "drop")
    large(ctx, ctx.pick(16, 200), 5, "forget")
    ctx.model("Transfer", ctx.pick("Transfer", "Transfer_deep"))
    r = rng(ctx, 3)
    judge(ctx, [faults.crash(r) for _ in range(ctx.pick(40, 600))], "the process stops during a transfer")
    return ctx.finish(ASSUME)


def f12_scripts():
    """The smallest file of the known finding F12, and one with an indeterminate count."""
    out = []
    for indet in (False, True):
        f = files.File(1)
        f.dims, f.recs, f.indet = [("t", None)], 3, indet
        f.vars = [dict(n="v", t="i16", d=[0], a=[], begin=0, vs=[0, 0, 0, 4])]
        h = len(f.header())
        f.vars[0]["begin"], f.blocks, f.end = h, [(h, [0, 1, 0, 2, 0, 3])], h + (6 if not indet else 12)
        if indet:
            f.blocks = [(h, [0, 1, 0, 2, 0, 3, 0, 4, 0, 5, 0, 6])]
        out.append(files.put_read(f.bytes(), "F12"))
    return out


def c16(ctx):
    format_model(ctx)
    r = rng(ctx, 1)
    judge(ctx, f12_scripts(), "the records of a single record variable")
    judge(ctx, [files.put_read(files.foreign(r).bytes(), "foreign") for _ in range(ctx.pick(900, 15000))], "foreign files")
    judge(ctx, [files.put_read(files.wide(r).bytes(), "wide") for _ in range(ctx.pick(150, 3000))], "files of many extents")
    judge(ctx, [files.sparse(r) for _ in range(ctx.pick(150, 3000))], "sparse foreign files")
    sessions(ctx, ctx.pick(150, 2000), 2, writes=(0, 6))
    return ctx.finish(ASSUME)


def mutated(ctx, sweeps, count, salt):
    r = rng(ctx, salt)
    sc = []
    if sweeps:
        for b, h in files.seed_headers():
            sw = [files.put_read(m, "sweep") for m in list(files.sweep(b, h)) + list(files.field_sweep(b, h))]
            sc += sw if sweeps >= 1 else r.sample(sw, int(len(sw) * sweeps))
    judge(ctx, sc, "changed bytes and fields")
    sc = []
    while len(sc) < count:
        f = files.foreign(r)
        sc += [files.put_read(m, "mutant") for m in files.mutations(r, f.bytes(), len(f.header()), 10)]
    sc += [files.put_read([r.randrange(256) for _ in range(r.randrange(60))], "random") for _ in range(count // 20)]
    sc += [files.put_read([67, 68, 70, r.choice([1, 2])] + [r.choice([0, 0, 0, 1, 2, 10, 11, 12, 255]) for _ in range(r.randrange(80))], "random") for _ in range(count // 20)]
    for _ in range(count // 40):
        sc.append(dict(tag="odd", evs=[odd(r) for _ in range(4)]))
    judge(ctx, sc, "mutated files")
    judge(ctx, [files.put_read(files.unruly(r).bytes(), "unruly") for _ in range(count // 2)], "files that break a rule")


def c17(ctx):
    format_model(ctx)
    mutated(ctx, 1, ctx.pick(2000, 30000), 1)
    return ctx.finish(ASSUME)


def c25(ctx):
    format_model(ctx)
    r = rng(ctx, 25)
    sc = []
    for k in range(ctx.pick(800, 15000)):
        f = files.unruly(r)
        b = f.header() if f.end < len(f.header()) else f.bytes()
        sc.append(files.put_read(b, "unruly", []))
        if r.random() < 0.3:
            sc += [files.put_read(m, "unruly", []) for m in files.mutations(r, b, len(f.header()), 1)]
    judge(ctx, sc, "definitions that break rules")
    mutated(ctx, ctx.pick(0.5, 1), ctx.pick(1200, 20000), 2)
    sc = []
    for b, h in files.seed_headers():
        sc += [files.put_read(b[:n], "cut", []) for n in range(h)]
        for n in r.sample(range(h), min(h, ctx.pick(20, 10**6))):        # what there is of the last construct is wrong
            m = b[:n]
            for _ in range(r.choice([1, 1, 2])):
                if m:
                    o = max(0, n - 1 - r.randrange(8))
                    m[o] = r.choice([0, 1, 10, 11, 12, 0x80, 0xff, 67])
            sc.append(files.put_read(m, "cut", []))
    for _ in range(ctx.pick(60, 600)):         # headers that are larger than what is read at once
        d = big_ds(r)
        ver = r.choice([1, 2])
        n = header_len(d, ver)
        for _ in range(3):
            o = r.choice([r.randrange(n), 1024 * r.randrange(1, 1 + n // 1024) - r.randrange(9) if n > 1024 else 5])
            ev = [d.event(), dict(c="op", p=0), dict(c="sd", d=1, ver=ver, hmin=[]), dict(c="close"), dict(c="poke", p=0, o=max(0, o), b=[r.choice([0, 1, 2, 12, 0x80, 0xff]) for _ in range(r.choice([0, 1, 1, 4]))]),
                  dict(c="snap", p=0), dict(c="ro", p=0)]
            sc.append(dict(tag="big", evs=ev))
    judge(ctx, sc, "cut and large headers")
    return ctx.finish(ASSUME)


def c18(ctx):
    r = rng(ctx, 1)
    sc = []
    for k in range(ctx.pick(60, 600)):
        f = files.foreign(r, indet=0 if k % 3 else 1, special=0)
        sc.append(dict(tag="cuts", evs=[dict(c="put", p=0, b=f.bytes()), dict(c="cuts", p=0)]))
    for k in range(ctx.pick(60, 600)):
        d = gen.rand_ds(r, maxdims=3, maxvars=4)
        ev = gen.session(r, d, writes=(1, 5), bad=0, mid_read=0)
        sc.append(dict(tag="cuts", evs=ev + [dict(c="cuts", p=0)]))
    for k in range(ctx.pick(4, 40)):
        d = big_ds(r)
        ev = [d.event(), dict(c="op", p=0), dict(c="sd", d=1, ver=r.choice([1, 2]), hmin=[]), dict(c="close")]
        sc.append(dict(tag="cuts", evs=ev + [dict(c="cuts", p=0, lens=sorted({r.randrange(6000) for _ in range(60)} | {1023, 1024, 1025, 2047, 2048, 2049}))]))
    for b, h in files.seed_headers():
        sc.append(dict(tag="cuts", evs=[dict(c="put", p=0, b=b), dict(c="cuts", p=0)]))
    judge(ctx, sc, "prefixes")
    return ctx.finish(ASSUME)


def read_calls(r, names, count):
    """Reads in any order; and reads in the order of the file (the values of the variables of one record after each
    other), with other reads in between."""
    ev = []
    rec = [x for x in names if x[2] > 1] or [x for x in names if x[2]]
    if rec and r.random() < 0.6:
        cells = [(n, t, i) for i in range(max(x[2] for x in rec)) for n, t, k in rec if i < k]
        at, step = r.randrange(len(cells)), r.choice([1, 1, 1, len(rec), 2])
        while at < len(cells) and len(ev) < 2 * count:
            n, t, i = cells[at]
            ev.append(dict(c="rr", n=nm(n), t=r.choice(["", t]), i=limbs(i)))
            if r.random() < 0.5:
                ev += read_calls(r, names, -1)
            at += step if r.random() < 0.9 else r.choice([0, -step if at >= step else 0])
    if count < 0:
        ev, count = [], 1
    for _ in range(count):
        a = r.random()
        n, t, recs = r.choice(names) if names and r.random() < 0.9 else ("nope", "i8", 1)
        if a < 0.35:
            ev.append(dict(c="rv", n=nm(n), t=r.choice(["", "", t, r.choice(gen.TYPES)])))
        elif a < 0.75:
            ev.append(dict(c="rr", n=nm(n), t=r.choice(["", t, r.choice(gen.TYPES)]), i=limbs(r.choice([0, 0, 1, 2, max(recs - 1, 0), recs, recs + 1, 2**32, 2**64 - 1]))))
        elif a < 0.88:
            ev.append(dict(c="ra"))
        else:
            ev.append(dict(c="rview"))
    return ev


def c19(ctx):
    ctx.model("NC3", ctx.pick("NC3_all", "NC3_deep"))
    nc3(ctx, ctx.pick("NC3_emitR", "NC3_emitR2"), ctx.pick(700, 20000), 1)
    r = rng(ctx, 2)
    sc = []
    for k in range(ctx.pick(350, 6000)):
        f = files.foreign(r)
        b = f.bytes()
        if r.random() < 0.4:       # some data is missing
            h = len(f.header())
            b = b[:r.randrange(h, len(b) + 1)] if len(b) >= h else b
        sc.append(files.put_read(b, "reads", read_calls(r, [(v["n"], v["t"], f.recs if f.isrec(v) else 1) for v in f.vars], r.randint(3, 14)) + [dict(c="rc")]))
    for k in range(ctx.pick(250, 4000)):
        d = gen.rand_ds(r)
        ev = gen.session(r, d, bad=0)
        ev += [dict(c="ro", p=0)] + read_calls(r, [(v[0], v[1], v[3]) for v in d.vars], r.randint(3, 14)) + [dict(c="rc")]
        sc.append(dict(tag="reads", evs=ev))
    judge(ctx, sc, "random reads")
    return ctx.finish(ASSUME)


def header_len(d, ver):
    """Length of the header (an aim for the limits only)."""
    n = 32
    for o in d.ops:
        n += 8 + len(o.get("name", [])) + 4
        n += len(o.get("d", [])) + 12 if "d" in o else 0
        n += 28 + 4 * len(o.get("dims", [])) if o["op"] == "add_var" else 0
    return n


def limits(ctx, count, points, salt):
    r = rng(ctx, salt)
    sc = []
    for k in range(count):
        d = gen.rand_ds(r, maxdims=3, maxvars=4)
        ver, h = r.choice([1, 2]), gen.hmin(r) if r.random() < 0.4 else 0
        writes = [gen.good_write(r, d) for _ in range(r.randint(0, 5))] if d.vars else []
        size = header_len(d, ver) + h + sum(c * gen.SIZE[t] * n + 4 * n for _, t, c, n, _ in d.vars)
        for _ in range(points):
            l = r.randrange(size + 8)
            ev = [d.event()]
            body = [dict(c="op", p=0), dict(c="sd", d=1, ver=ver, hmin=limbs(h))] + writes
            at = r.choice([0, 1, 1, 2, r.randrange(len(body) + 1)])
            body.insert(at, dict(c="lim", l=limbs(l)))
            if r.random() < 0.3:
                body.insert(r.randrange(at + 1, len(body) + 1), dict(c="unlim"))
                if r.random() < 0.5:
                    body.append(dict(c="sd", d=1, ver=ver, hmin=limbs(h)))
                    body += writes[:2]
            if r.random() < 0.5:
                body.append(dict(c="snap", p=0))
            ev += body + [dict(c="close"), dict(c="unlim"), dict(c="snap", p=0), dict(c="ro", p=0), dict(c="rvs"), dict(c="rc")]
            sc.append(dict(tag="limit", evs=ev))
    judge(ctx, sc, "storage limits")


def every_limit(ctx, count, salt):
    """Every limit from zero to the length of the file, on small sessions."""
    r = rng(ctx, salt)
    sc = []
    for k in range(count):
        d = gen.rand_ds(r, maxdims=2, maxvars=2, minvars=1, attrs=k % 2 == 0, recs=(1, 2), sizes=(1, 2))
        if not d.vars:
            d.var("v", "i16", [])
        ver = 1 + k % 2
        writes = [gen.good_write(r, d) for _ in range(r.randint(1, 2))]
        size = header_len(d, ver) + sum(c * gen.SIZE[t] * n + 4 * n for _, t, c, n, _ in d.vars)
        for l in range(size + 4):
            ev = [d.event(), dict(c="op", p=0), dict(c="lim", l=limbs(l)), dict(c="sd", d=1, ver=ver, hmin=[])] + writes
            ev += [dict(c="close"), dict(c="snap", p=0)]
            sc.append(dict(tag="limit", evs=ev))
    judge(ctx, sc, "every storage limit")


def c20(ctx):
    ctx.model("NC3", ctx.pick("NC3_lim", "NC3_limdeep"))
    ctx.model("NC3", "NC3_F14", expect_violation="NothingBeforeDefinition")
    nc3(ctx, ctx.pick("NC3_emitL", "NC3_emitL2"), ctx.pick(1200, 12000), 1, limited=True)
    limits(ctx, ctx.pick(60, 800), ctx.pick(8, 12), 2)
    every_limit(ctx, ctx.pick(4, 40), 3)
    ctx.model("Transfer", ctx.pick("Transfer", "Transfer_deep"))
    ctx.model("Transfer", "Transfer_swallow", expect_violation="ReturnedIsStored")
    r = rng(ctx, 4)
    judge(ctx, [faults.ioerr(r) for _ in range(ctx.pick(50, 800))], "a transfer fails")
    return ctx.finish(ASSUME)


def schedules(ctx, cfg):
    """The schedules of the transfers in the model Transfer."""
    seen = set()
    for sch in ctx.printed(ctx.model("Transfer", cfg, workers=1), "SCHED"):
        while sch and sch[-1] == 0:
            sch.pop()
        seen.add(tuple(sch))
    seen.discard(())
    return sorted(seen)


def c21(ctx):
    ctx.model("Transfer", ctx.pick("Transfer", "Transfer_deep"))
    for b, inv in (("single", "ReturnedIsStored"), ("eintr", "OnlyFailures"), ("count", "LoadedIsStored")):
        ctx.model("Transfer", "Transfer_" + b, expect_violation=inv)
    r = rng(ctx, 1)
    sc = []
    scheds = schedules(ctx, ctx.pick("Transfer_emit", "Transfer_emit3"))
    r.shuffle(scheds)
    for k in range(0, len(scheds), 4):
        ss = [dict(s=list(x), cycle=c) for x in scheds[k:k + 4] for c in (False, True)]
        for _ in range(2):
            sc.append(faults.parts(r, ss))
        sc.append(faults.foreign_parts(r, files.foreign(r).bytes(), ss))
    judge(ctx, sc, "schedules of Transfer")
    sc = []
    for k in range(ctx.pick(150, 2500)):
        sc.append(faults.parts(r, faults.cycles(r, 2)))
        sc.append(faults.foreign_parts(r, files.foreign(r).bytes(), faults.cycles(r, 2)))
    for k in range(ctx.pick(12, 150)):
        ev = [big_ds(r).event(), dict(c="op", p=0), dict(c="sd", d=1, ver=r.choice([1, 2]), hmin=limbs(r.choice([0, 0, 1500])))]
        sc.append(faults.parts(r, faults.cycles(r, 2), None, ev + [dict(c="close")]))
    judge(ctx, sc, "random schedules")
    return ctx.finish(ASSUME)


def c22(ctx):
    ctx.model("NC3", ctx.pick("NC3_all", "NC3_deep"))
    r = rng(ctx, 1)
    judge(ctx, [more.independent(r) for _ in range(ctx.pick(400, 6000))], "interleaved sessions and readers")
    judge(ctx, [more.successive(r) for _ in range(ctx.pick(250, 4000))], "sessions one after the other")
    return ctx.finish(ASSUME)


def c23(ctx):
    format_model(ctx)
    r = rng(ctx, 1)
    judge(ctx, [more.copies(r, k) for k in range(ctx.pick(700, 12000))], "copies")
    return ctx.finish(ASSUME)


CHECKS = {"C%02d" % n: (fn, "model_checking") for n, fn in
          zip(range(7, 24), (c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23))}
CHECKS["C25"] = (c25, "model_checking")
