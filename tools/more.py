"""C22, C23: sessions and readers next to each other, copies."""
import files, gen
from gen import limbs, nm


def on_path(ev, p, d):
    """The events of gen.session, on path p with definition d."""
    out = []
    for e in ev:
        e = dict(e)
        if "p" in e:
            e["p"] = p
        if e["c"] == "sd":
            e["d"] = d
        out.append(e)
    return out


def order(r, n, parts):
    k = r.randrange(4)
    if k == 0:
        return [i % parts for i in range(n)]
    if k == 1:
        return [r.randrange(parts) for _ in range(n)]
    out = []
    while len(out) < n:
        out += [r.randrange(parts)] * r.randint(1, 6)
    return out


def independent(r, idx=0):
    """Two or three sessions and readers, each alone and then interleaved."""
    n = r.choice([2, 2, 2, 3])
    shared = r.random() < 0.5
    dss = [gen.rand_ds(r, maxdims=3, maxvars=3, minvars=1, recs=(0, 1, 2, 3)) for _ in range(n)]
    if not shared and r.random() < 0.5:     # the same names for other things
        dss[1] = gen.rand_ds(r, maxdims=3, maxvars=3, minvars=1, recs=(0, 1, 2, 3))
    if shared:
        dss = [dss[0]] * n
        pre = [dss[0].event()]
    else:
        pre = [d.event() for d in dss]
    parts = []
    same_file = r.random() < 0.2
    if same_file:       # several readers of one file
        f = files.foreign(r)
        pre = [dict(c="put", p=0, b=f.bytes())]
        names = [(v["n"], v["t"], f.recs if f.isrec(v) else 1) for v in f.vars]
        from iochecks import read_calls
        for k in range(n):
            parts.append([dict(c="ro", p=0)] + read_calls(r, names, r.randint(2, 8)) + [dict(c="rc")])
    else:
        for k in range(n):
            ev = gen.session(r, dss[k], writes=(0, 6), bad=0.1, ends=("close", "close", "drop"), snap_before=0.2, mid_read=0.1)[1:]
            ev = on_path(ev, k, 1 if shared else k + 1)
            ev += [dict(c="ro", p=k), dict(c="rvs"), dict(c="rview"), dict(c="rc"), dict(c="snap", p=k)]
            if r.random() < 0.2:        # a session whose storage is limited
                at = [i for i, e in enumerate(ev) if e["c"] == "sd"][0]
                ev.insert(at, dict(c="lim", l=limbs(r.choice([0, 10, 50, 100, 200, 300, 500]))))
                ev.insert([i for i, e in enumerate(ev) if e["c"] in ("close", "drop")][0] + r.choice([0, 1]), dict(c="unlim"))
            parts.append(ev)
    m = sum(len(p) for p in parts) * 3
    return dict(tag="parts", twp="C22", pre=pre, parts=parts, order=order(r, m, n))


def successive(r):
    """Sessions one after the other, with definitions made in the same place; each also alone."""
    n = r.choice([2, 2, 3])
    ver, d, parts = r.choice([1, 2, 0]), gen.rand_ds(r, maxdims=3, maxvars=3, minvars=1, recs=(0, 1, 2, 3)), []
    for k in range(n):
        ev = on_path(gen.session(r, d, writes=(0, 5), bad=0.05, ends=("close", "close", "drop"), snap_before=0.2), k, 1)
        for e in ev:
            if e["c"] == "ds":
                e["at"] = 1
            if e["c"] == "sd" and ver:
                e["ver"] = ver
        parts.append(ev + [dict(c="ro", p=k), dict(c="rvs"), dict(c="rview"), dict(c="rc"), dict(c="snap", p=k)])
        d = gen.similar(r, d)
    if r.random() < 0.2:
        at = [i for i, e in enumerate(parts[0]) if e["c"] == "sd"][0]
        parts[0].insert(at, dict(c="lim", l=limbs(r.choice([0, 10, 50, 100, 200, 300, 500]))))
        parts[0].insert([i for i, e in enumerate(parts[0]) if e["c"] in ("close", "drop")][0] + r.choice([0, 1]), dict(c="unlim"))
    return dict(tag="parts", twp="C22", pre=[], parts=parts, order=[])


def copies(r, k):
    """A file is opened, and its definition and values are written to another one."""
    ver, h = r.choice([1, 2]), gen.hmin(r)
    src = k % 3
    if src == 0:        # a file of another writer
        f = files.foreign(r, special=0)
        ev = [dict(c="put", p=0, b=f.bytes())]
    else:
        d = gen.rand_ds(r, recs=(0, 1, 2, 3, 5))
        ev = gen.session(r, d, writes=(0, 6), bad=0, snap_before=0)
        sd = [e for e in ev if e["c"] == "sd"][0]
        ver, h0 = sd["ver"], sd["hmin"]
    ev += [dict(c="ro", p=0)]
    if src == 1:        # everything the same
        ev.append(dict(c="cp", p=1, ver=ver, hmin=h0, rev=r.random() < 0.5))
    else:
        ev.append(dict(c="cp", p=1, ver=r.choice([0, 2]), hmin=limbs(h), rev=r.random() < 0.5))
    if r.random() < 0.5:
        ev += [dict(c="ro", p=1), dict(c="cp", p=2, ver=r.choice([0, 2]), hmin=limbs(gen.hmin(r)))]
    ev += [dict(c="ro", p=1), dict(c="rvs"), dict(c="rc")]
    return dict(tag="copy", evs=ev)
