"""C15, C20, C21: transfers of the operating system in parts, interrupted, failing, or the last ones of the process."""
import gen
from gen import limbs, nm


def small_session(r, **kw):
    args = dict(maxdims=3, maxvars=3, recs=(0, 1, 2, 3), sizes=(1, 2, 3, 5))
    args.update(kw)
    d = gen.rand_ds(r, **args)
    ev = gen.session(r, d, writes=(0, 4), bad=0.1, snap_before=0.0, early_bad=0.05)
    return d, ev


def parts(r, scheds, d=None, ev=None):
    """The same session and the same reads, without and with transfers in parts."""
    if ev is None:
        d, ev = small_session(r)
    reads = [dict(c="snap", p=0), dict(c="ro", p=0), dict(c="rvs"), dict(c="rview"), dict(c="rc")]
    return dict(tag="parts", twp="C21", scheds=scheds, evs=ev + reads)


CYCLES = [[1], [2], [3], [4, 0], [4, 2], [3, 4, 1], [0, 4, 0, 2, 0, 3, 4]]


def cycles(r, n):
    out = [dict(s=r.choice(CYCLES)) for _ in range(n)]
    out.append(dict(s=[r.choice([0, 1, 2, 3, 4]) for _ in range(r.randint(2, 7))]))
    return out


def foreign_parts(r, f, scheds):
    """A file of another writer, read with transfers in parts."""
    return dict(tag="parts", twp="C21", scheds=scheds,
                evs=[dict(c="put", p=0, b=f), dict(c="ro", p=0), dict(c="rvs"), dict(c="rc")])


def crash(r):
    """The process stops at each transfer of a session (before it, or after half of it)."""
    d, ev = small_session(r, maxdims=2, maxvars=3, recs=(1, 2, 3), sizes=(1, 2, 3))
    ev += [dict(c="snap", p=0)] if r.random() < 0.6 else []
    ev += [dict(c="ro", p=0), dict(c="rvs"), dict(c="rc")]
    return dict(tag="crash", sweep=dict(acts=r.choice([[7], [8], [7, 8]]), reads=False, max=60), evs=ev)


def ioerr(r):
    """The n-th transfer fails (once, or from then on)."""
    d, ev = small_session(r, maxdims=2, maxvars=3, recs=(0, 1, 2), sizes=(1, 2, 3))
    lasts = r.random() < 0.5
    if r.random() < 0.4:      # reads that fail
        ev += [dict(c="ro", p=0), dict(c="rvs"), dict(c="nofault"), dict(c="rvs"), dict(c="rview"), dict(c="rc"), dict(c="snap", p=0)]
        sw = dict(writes=False, cycle=lasts, acts=[5], max=60)
    else:
        ev += [dict(c="nofault"), dict(c="snap", p=0), dict(c="ro", p=0), dict(c="rvs"), dict(c="rc")]
        sw = dict(reads=False, cycle=lasts, acts=[r.choice([5, 6])], max=60)
    return dict(tag="ioerr", sweep=sw, evs=ev)
