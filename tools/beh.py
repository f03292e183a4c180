"""Behaviours of NC3.tla (abstract) to scripts with real definitions and values (and the results that NC3 expects)."""
from gen import DS, SIZE, SPECIAL, TYPES, limbs, nm, data
import random

FX = lambda n: (False, n)
RC = lambda n: (True, n)
CATALOG = {1: ([FX(1), RC(1)], 2), 2: ([RC(1), FX(2), RC(2)], 2), 3: ([RC(1), RC(1)], 3), 4: ([FX(2), FX(1)], 0), 5: ([FX(1), RC(1)], 0),
           6: ([RC(2), RC(1), FX(1)], 1), 7: ([], 0), 8: ([FX(1)], 0), 9: ([RC(1)], 2)}
# types and lengths whose chunks take one or two words
WORDS = {1: [("i8", 3), ("i16", 1), ("u8", 1), ("i32", 1), ("f32", 1), ("i16", 2), ("i8", 4), ("u8", 2)],
         2: [("f64", 1), ("i8", 5), ("i16", 3), ("i32", 2), ("u8", 8), ("f32", 2), ("u8", 7)]}
FILL = dict(i8=[0x81], u8=[0], i16=[0x80, 0x01], i32=[0x80, 0, 0, 1], f32=[0x7c, 0xf0, 0, 0], f64=[0x47, 0x9e, 0, 0, 0, 0, 0, 0])
HMIN = 1024      # more than any header here: the reserved space is known


class Conc:
    def __init__(self, i, r, words_only=False):
        vs, self.recs = CATALOG[i]
        self.ds = DS()
        if any(x[0] for x in vs) or r.random() < 0.3:
            self.ds.unlim("t", self.recs)
        self.vars = []
        dims = {}
        for k, (rec, size) in enumerate(vs):
            t, n = r.choice(WORDS[size])
            if n not in dims and (n > 1 or r.random() < 0.5):
                dims[n] = "d%d" % n
                self.ds.fixed(dims[n], n)
            d = (["t"] if rec else []) + ([dims[n]] if n in dims else [])
            name = "v%d" % (k + 1) if r.random() < 0.7 else ["é", "x y"][k % 2] + str(k)
            self.ds.var(name, t, d)
            self.vars.append((name, t, n, self.recs if rec else 1))
        if i == 8:
            self.ds.fixed("huge", 2**31 - 4)
            self.ds.ops.insert(0, self.ds.ops.pop())
            # the huge variable comes first, so that the offset of the other does not fit
            self.ds.var("hv", "u8", ["huge"])
            self.ds.ops.insert(1, self.ds.ops.pop())

    def name(self, v):
        return self.vars[v - 1][0] if v else "unknown"

    def chunk(self, tok, v, c):
        n, t, k, _ = self.vars[v - 1]
        if tok == 0:
            return FILL[t] * k
        r = random.Random(tok * 10007 + v * 101 + c)
        return data(r, t, k)


def script(beh, r, limited=False):
    concs = {}
    evs, defs = [], {}
    used = sorted({e["d"] for e in beh if e["c"] == "sd"})
    for i in used:
        concs[i] = Conc(i, r)
        evs.append(concs[i].ds.event())
        defs[i] = len(defs) + 1
    cur = None          # the definition of the file
    hmin = HMIN if limited else r.choice([0, 0, 5, 300])
    ses = None
    for k, e in enumerate(beh):
        c = e["c"]
        tok = k + 1
        out = dict(c=c)
        if "x" in e:
            out["xr"] = e["x"]
        if c in ("cn", "op"):
            out["p"] = 0
            if e["x"] == "ok":
                cur = None
                ses = None
        elif c == "sd":
            out.update(d=defs[e["d"]], ver=e["ver"], hmin=limbs(hmin))
            if e["x"] == "ok":
                cur = ses = concs[e["d"]]
        elif c in ("wv", "wr"):
            bad = e.get("bad")
            if bad == "nodef":
                out.update(n=nm("v1"), t="i8", d=[1])
            elif bad == "unknown":
                out.update(n=nm("nope"), t="i8", d=[1])
            else:
                name, t, n, chunks = ses.vars[e["v"] - 1]
                out.update(n=nm(name), t=t)
                lo, hi = (0, chunks) if c == "wv" else (e["i"], e["i"] + 1)
                d = sum([ses.chunk(tok, e["v"], j) for j in range(lo, hi)], [])
                if bad == "type":
                    out["t"] = r.choice([x for x in TYPES if x != t])
                    d = data(r, out["t"], n * chunks)
                elif bad == "len":
                    d = d + data(r, t, 1) if r.random() < 0.5 or not d else d[SIZE[t]:]
                out["d"] = d
            if c == "wr":
                out["i"] = limbs(e.get("i", 0))
        elif c == "lim":
            l = e["l"]
            out["l"] = limbs(HMIN + 4 * (l - 2) if l >= 2 else l * 40)
        elif c == "ro":
            out["p"] = 0
        elif c in ("rv", "rr"):
            out["t"] = ""
            if e.get("bad") == "unknown":
                out["n"] = nm("nope")
            else:
                name, t, n, chunks = cur.vars[e["v"] - 1]
                out["n"] = nm(name)
                if e.get("bad") == "type":
                    out["t"] = r.choice([x for x in TYPES if x != t])
                elif r.random() < 0.3:
                    out["t"] = t
                if e.get("xv"):
                    lo = 0 if c == "rv" else e["i"]
                    out["xd"] = [sum([cur.chunk(x, e["v"], lo + j) for j, x in enumerate(e["xv"][0])], [])]
                if c == "rr":
                    out["i"] = limbs(e["i"])
        elif c in ("close", "drop", "forget"):
            ses = None
        evs.append(out)
    # the rest: the end of the session, and the file
    on = False
    rd = False
    for e in beh:
        if e["c"] in ("cn", "op") and e["x"] == "ok":
            on = True
        if e["c"] in ("close", "drop", "forget"):
            on = False
    if on:
        evs.append(dict(c=r.choice(["close", "close", "drop"])))
    if r.random() < 0.5 or limited:
        evs.append(dict(c="snap", p=0))
    evs += [dict(c="ro", p=0), dict(c="rvs"), dict(c="rc")]
    return dict(tag="NC3", evs=evs)
