"""Underflow counter: symbolic memory stalls and output stalls, counting enabled and read at symbolic moments; the value
software reads is compared with the number of pixel clocks without a valid beat."""
import random
import z3
from migen import *
from fv.bench import *
from checks.vout import *
from fv.pipe import registers

FUNCTIONS = ["litevideo.output.core.VideoOutCore (underflow detection)"]
BOUNDS = ("a 4x3 raster (3x2 active pixels), every memory and output stall pattern of 14 (quick) / 20 (thorough) cycles, counting enabled for the 0..6th cycle on and sampled at "
          "any later moment, twice; clock ratios 1:1, 2:1, 1:2; from any state: the difference of samples 14 / 24 clocks apart")
ASSUMPTIONS = ["Migen simulator semantics of the design", "enable and sampling take effect within 6 pixel clocks; a value in between "
               "is accepted"]


def job(ratio, K, mode="rgb"):
    m = mk(mode, 4)
    b = Bench(m, domains=D)
    p = {"hscan": 3, "hsync_end": 3, "hsync_start": 2, "hres": 3, "vscan": 2, "vsync_end": 2, "vsync_start": 1, "vres": 2}
    p["hres"], p["vres"] = 2, 1
    p["base"], p["length"] = 0, 2 << SH[mode]
    params(b, m.initiator, p)
    key = b.var("key", DW[mode])
    on = b.var("on", 1)
    b.set(m.initiator.enable.storage, on)
    mem = Mem(b, m.port, 1, key, True)
    sched = {"1:1": [("sys", "pix")], "2:1": [("sys",), ("sys", "pix")], "1:2": [("pix",), ("sys", "pix")]}[ratio]
    s = m.source
    b.set(s.ready, 1)
    W = 10
    lo = hi = bvv(0, W)            # certainly / possibly counted so far
    start = b.var("start", 3)
    age = bvv(0, 4)                # pixel clocks since enabled
    n = 0

    def frame(en, calm=False):
        nonlocal lo, hi, age, n
        doms = sched[n % len(sched)]
        n += 1
        if "pix" in doms:
            mem.drive()
            if calm:
                b.set(m.port.cmd.ready, 1)
        if calm:
            b.set(s.ready, 1)
        elif "pix" in doms:
            b.inp(s.ready)
        v = b.get(s.valid)
        b.set(m.underflow_enable.storage, en)
        if "pix" in doms:
            mem.cycle()
            miss = Not(v)
            hi = ite(And(en, miss), hi + 1, hi, W)
            lo = ite(And(en, miss, z3.UGE(age, 6)), lo + 1, lo, W)
            age = ite(And(en, z3.ULT(age, 15)), age + 1, age, 4)
        b.tick(list(doms))

    for i in range(8):
        frame(False)
    for t in range(K):
        frame(z3.UGE(t, z3.ZeroExt(5, start)) if not isinstance(t, int) else z3.UGE(bvv(t, 8), z3.ZeroExt(5, start)))
    for rd in range(2):
        # sample
        l0 = lo
        while "sys" not in sched[n % len(sched)]:
            frame(True)
            l0 = lo
        b.set(m.underflow_update.re, 1)
        frame(True)
        b.set(m.underflow_update.re, 0)
        for i in range(8):
            frame(True)
        val = bv(b.get(m.underflow_counter.status), 32)
        b.check("at least the clocks without a pixel while counting", z3.UGE(val, z3.ZeroExt(22, l0)))
        b.check("at most the clocks without a pixel while counting", z3.ULE(val, z3.ZeroExt(22, hi)))
        b.cover("some %d" % rd, z3.UGT(l0, 0))
        if rd == 0:
            for i in range(6):
                frame(True)
                b.check("the value read does not move", eq(bv(b.get(m.underflow_counter.status), 32), val))
    # disabled: starts from zero again
    for i in range(8):
        frame(False)
    lo = hi = bvv(0, W)
    age = bvv(0, 4)
    for i in range(10):
        frame(True)
    l0 = lo
    while "sys" not in sched[n % len(sched)]:
        frame(True)
        l0 = lo
    b.set(m.underflow_update.re, 1)
    frame(True)
    b.set(m.underflow_update.re, 0)
    for i in range(8):
        frame(True)
    val = bv(b.get(m.underflow_counter.status), 32)
    b.check("disabling clears: at least", z3.UGE(val, z3.ZeroExt(22, l0)))
    b.check("disabling clears: at most", z3.ULE(val, z3.ZeroExt(22, hi)))
    return b.solve(timeout=400, validate=1)


def distance(n, learn=None, gap=9):
    """from any state: the difference of two samples is the number of clocks without a pixel between them.  learn: a
    concrete run from reset that returns the delays of sampling that fit"""
    m = mk("rgb", 4)
    b = Bench(m, domains=D)
    s = m.source
    p = {"hscan": 3, "hsync_end": 3, "hsync_start": 2, "hres": 2, "vscan": 2, "vsync_end": 2, "vsync_start": 1, "vres": 1,
         "base": 0, "length": 8}
    params(b, m.initiator, p)
    b.set(m.initiator.enable.storage, 1)
    b.set(s.ready, 1)
    b.set(m.underflow_enable.storage, 1)
    rnd = random.Random(n)
    if learn is None:
        for r in registers(b):
            b.inp(r)
    port = m.port
    vals, miss = [], []
    for t in range(40 if learn is not None else 12):
        if learn is not None:
            b.set(port.cmd.ready, 1)
            b.set(port.rdata.valid, rnd.randrange(14) == 0)
        b.tick(D)
    for t in range(gap + n + 12):
        if learn is not None:
            b.set(port.rdata.valid, rnd.randrange(14) == 0)
        else:
            b.inp(port.rdata.valid)
            b.inp(port.cmd.ready)
            b.inp(s.ready)
        up = t in (0, n)
        b.set(m.underflow_update.re, int(up))
        miss.append(b.get(s.valid))
        b.tick(D)
        if t in (gap, n + gap):
            vals.append(b.get(m.underflow_counter.status))
    if learn is not None:
        return [k for k in learn if sum(1 for v in miss[k:k + n] if not v) == vals[1] - vals[0]]
    return b, vals, miss


def exact(n):
    fit = list(range(8))
    for k in range(20):
        fit = distance(12 + k, fit)
    if len(fit) != 1:
        raise RuntimeError("sampling delay not identified: %r" % (fit,))
    d = fit[0]
    b, vals, miss = distance(n)
    cnt = bvv(0, 32)
    for v in miss[d:d + n]:
        cnt = cnt + ite(Not(v), bvv(1, 32), bvv(0, 32), 32)
    b.check("difference of two samples", eq(vals[1], bv(vals[0], 32) + cnt))
    b.cover("several", cnt == n // 2)
    b.cover("large", vals[0] == 0x7fffffff)
    return b.solve(timeout=300, validate=0)


def jobs(tier):
    th = tier == "thorough"
    o = [{"name": "counter %s" % r, "func": job, "kw": dict(ratio=r, K=(20 if th else 14) if r != "1:2" else 12 if th else 8)} for r in ("1:1", "2:1", "1:2")]
    o.append({"name": "exact difference from any state", "func": exact, "kw": dict(n=24 if th else 14)})
    return o
