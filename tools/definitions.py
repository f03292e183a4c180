"""C01-C06: the definition layer (MC_DataSet, TraceDef)."""
import random
import scale

ASSUME = ["the Rust compiler and the getters through which the harness observes a data set (cross-checked against each other by C04)",
          "TLC evaluates the specification correctly"]


def mc_scripts(ctx, cfg, what):
    """Scripts from the exhaustive exploration of MC_DataSet: every reachable definition, every call (or lookup)."""
    out = ctx.model("MC_DataSet", cfg, workers=1)
    ops = ctx.printed(out, "OPS")[0] if what == "ops" else ctx.printed(out, "PROBES")[0]
    if what == "sizes":
        ops = [{"op": "sizes"}]
    ss = [dict(s, fan=True, ops=ops) for s in ctx.printed(out, "EMIT")]
    # every third definition also as a reader gives it
    return ss + [dict(s, open=1 + k % 2) for k, s in enumerate(ss) if k % ctx.pick(3, 1) == 0]


def walks(ctx, mcs, count, length, salt, between=(), p=0.5):
    """Longer histories through the definitions of MC_DataSet: what a definition says does not depend on how it came about."""
    r = random.Random(ctx.seed * 100003 + 700 + salt)
    sc = []
    for cfg in mcs:
        out = ctx.model("MC_DataSet", cfg, workers=1)
        kinds = {}
        for o in ctx.printed(out, "OPS")[0]:
            kinds.setdefault(o["op"], []).append(o)
        # (removals make room)
        names = sorted(kinds) + sorted(k for k in kinds if k.startswith("remove"))
        states = ctx.printed(out, "EMIT")
        probes = ctx.printed(out, "PROBES")[0]
        for _ in range(count):
            s, ops = r.choice(states), []
            for _ in range(r.randint(length // 2, length)):
                o = r.choice(kinds[r.choice(names)])
                ops.append(o)
                if o["op"] == "rename_dim" and r.random() < 0.3:
                    ops.append(dict(o, name=o["new"], new=o["name"]))
                if between and r.random() < p:
                    b = r.choice(between)
                    ops.append(r.choice(probes) if b == "probe" else {"op": b})
            if "sizes" in between:
                ops.append({"op": "sizes"})
            sc.append(dict(pre=s["pre"], model=s["model"], ops=ops))
    ctx.validate("TraceDef", ctx.run_scripts("def", sc), "walks from " + "/".join(mcs))


def extents(ctx, count, salt, between=("reopen",)):
    r = random.Random(ctx.seed * 100003 + 800 + salt)
    ctx.validate("TraceDef", ctx.run_scripts("def", scale.scripts(r, count, between)), "definitions of many extents")


def gen(ctx, kind, count, length, salt):
    p = ctx.path("gen%d.jsonl" % salt)
    ctx.harness("def-gen", kind, ctx.seed * 1000 + salt, count, length, p)
    with open(p) as f:
        return f.read().splitlines()


def defs(ctx, what, mcs, rand):
    for cfg in mcs:
        ctx.validate("TraceDef", ctx.run_scripts("def", mc_scripts(ctx, cfg, what)), "behaviours of " + cfg)
    for salt, (kind, n, length) in enumerate(rand):
        ctx.validate("TraceDef", ctx.run_scripts("def", gen(ctx, kind, n, length, salt)), "random " + kind)


def c01(ctx):
    import iochecks      # definitions read from files: changed headers
    iochecks.mutated(ctx, ctx.pick(0.25, 1), ctx.pick(400, 5000), 11)
    return ops_check(ctx)


def ops_check(ctx):
    defs(ctx, "ops", ctx.pick(["MC_DataSetA", "MC_DataSetB"], ["MC_DataSetA", "MC_DataSetB", "MC_DataSetC"]),
         ctx.pick([("ops", 400, 40), ("many", 16, 200)], [("ops", 6000, 60), ("ops", 300, 400), ("many", 300, 400)]))
    walks(ctx, ["MC_DataSetA", "MC_DataSetB"], ctx.pick(150, 4000), 24, 1)
    extents(ctx, ctx.pick(400, 6000), 1)
    return ctx.finish(ASSUME)


def c04(ctx):
    defs(ctx, "probes", ctx.pick(["MC_DataSetA", "MC_DataSetB"], ["MC_DataSetA", "MC_DataSetB", "MC_DataSetC"]),
         ctx.pick([("probe", 300, 40), ("manyprobe", 12, 150)], [("probe", 4000, 60), ("manyprobe", 200, 300)]))
    walks(ctx, ["MC_DataSetA", "MC_DataSetB"], ctx.pick(250, 6000), 24, 2, ("probe",), 0.7)
    extents(ctx, ctx.pick(250, 4000), 2, ("probe", "probe", "reopen"))
    return ctx.finish(ASSUME)


def c05(ctx):
    defs(ctx, "sizes", ["MC_DataSetA", "MC_DataSetC"],
         ctx.pick([("sizes", 300, 40), ("bigsizes", 1500, 1)], [("sizes", 3000, 60), ("bigsizes", 20000, 1)]))
    walks(ctx, ["MC_DataSetA"], ctx.pick(400, 8000), 24, 3, ("sizes",), 0.6)
    extents(ctx, ctx.pick(250, 4000), 3, ("sizes", "sizes", "reopen"))
    return ctx.finish(ASSUME)


def c06(ctx):
    p = ctx.path("names.jsonl")
    ctx.harness("names", ctx.tier, ctx.seed, p, ctx.path("scratch"))
    with open(p) as f:
        ctx.validate("TraceDef", f.read().splitlines(), "names")
    defs(ctx, "ops", ["MC_DataSetA", "MC_DataSetB"], ctx.pick([("ops", 100, 40)], [("ops", 1000, 60)]))
    return ctx.finish(ASSUME)


def c24(ctx):
    r = random.Random(ctx.seed * 100003 + 24)
    sc = []
    for cfg in ("MC_DataSetA", "MC_DataSetB"):
        hs = [s["pre"] for s in ctx.printed(ctx.model("MC_DataSet", cfg, workers=1), "EMIT")]
        # definitions of the model against each other: the neighbours, and a sample of the others
        for h in hs:
            near = [g for g in hs if abs(len(g) - len(h)) <= 1 and g[:len(h) - 1] == h[:len(g) - 1][:len(h) - 1]]
            others = r.sample(near, min(len(near), 6)) + r.sample(hs, ctx.pick(4, 60)) + [h]
            sc.append(dict(pre=h, ops=[dict(op="eq", pre=g, reopen=r.random() < 0.2) for g in others]))
    ctx.validate("TraceDef", ctx.run_scripts("def", sc), "pairs of definitions of MC_DataSet")
    defs(ctx, "ops", [], ctx.pick([("eq", 500, 24)], [("eq", 8000, 40)]))
    return ctx.finish(ASSUME)


CHECKS = {"C01": (c01, "model_checking"), "C02": (ops_check, "model_checking"), "C03": (ops_check, "model_checking"),
          "C04": (c04, "model_checking"), "C05": (c05, "model_checking"), "C06": (c06, "model_checking"),
          "C24": (c24, "model_checking")}
