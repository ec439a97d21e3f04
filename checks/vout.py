"""VideoOutCore with a memory model: in-order reads, every command-stall pattern, fixed read latency; the word at
address a is a xor a symbolic key."""
import z3
from migen import *
from fv.bench import *

D = ["pix", "sys"]
PAR = ["hres", "hsync_start", "hsync_end", "hscan", "vres", "vsync_start", "vsync_end", "vscan"]
AW = 8
DW = {"rgb": 32, "raw": 32, "ycbcr422": 16}
SH = {"rgb": 2, "raw": 2, "ycbcr422": 1}


def mk(mode, depth):
    from litevideo.output.core import VideoOutCore
    from litedram.common import LiteDRAMNativePort
    p = LiteDRAMNativePort("read", AW, DW[mode], clock_domain="pix")
    m = VideoOutCore(p, mode, fifo_depth=depth)
    m.port = p
    return m


class Mem:
    def __init__(self, b, p, latency, key, stall=True):
        self.b, self.p, self.key = b, p, key
        self.pipe = [(False, bvv(0, AW))] * latency
        self.stall = stall

    def word(self, a):
        return z3.ZeroExt(self.p.dw - AW, a) ^ self.key

    def drive(self):
        """set the port inputs of this cycle"""
        b, p = self.b, self.p
        v, a = self.pipe[-1]
        self.ret = (v, a)
        b.set(p.rdata.valid, v)
        b.set(p.rdata.data, self.word(a))
        if self.stall:
            b.inp(p.cmd.ready, "cmd_ready")
        else:
            b.set(p.cmd.ready, 1)

    def cycle(self):
        """observe this cycle's command, before the clock edge"""
        b, p = self.b, self.p
        acc = And(b.get(p.cmd.valid), b.peek(p.cmd.ready))
        addr = bv(b.get(p.cmd.addr), AW)
        self.pipe = [(acc, addr)] + self.pipe[:-1]
        return acc, addr


def params(b, ini, p):
    for n in PAR + ["base", "length"]:
        b.set(getattr(ini, n).storage, p[n])


class Raster:
    """reference beat counter: not started (lead-in beat), then positions (h, v)"""
    def __init__(self, b, p, W=4, on=False, h=0, v=0):
        self.b, self.p, self.W = b, p, W
        self.on, self.h, self.v = on, bvv(h, W), bvv(v, W)
        self.n = 0

    def g(self, x):
        x = self.p[x]
        return bvv(x, self.W) if isinstance(x, int) else bits(x, self.W - 1, 0)

    def outputs(self):
        g = self.g
        de = And(self.on, z3.ULT(self.h, g("hres")), z3.ULT(self.v, g("vres")))
        hs = And(self.on, z3.UGE(self.h, g("hsync_start")), z3.ULT(self.h, g("hsync_end")))
        vs = And(self.on, z3.UGE(self.v, g("vsync_start")), z3.ULT(self.v, g("vsync_end")))
        return de, hs, vs

    def last(self):
        return And(self.on, self.h == self.g("hscan"), self.v == self.g("vscan"))

    def advance(self, beat):
        W = self.W
        eol = self.h == self.g("hscan")
        nh = ite(Or(Not(self.on), eol), bvv(0, W), self.h + 1, W)
        nv = ite(Or(Not(self.on), self.last()), bvv(0, W), ite(eol, self.v + 1, self.v, W), W)
        self.n += 1
        h = z3.BitVec("rh%d_%d" % (id(self), self.n), W)
        v = z3.BitVec("rv%d_%d" % (id(self), self.n), W)
        o = z3.Bool("ro%d_%d" % (id(self), self.n))
        self.b.constraints += [h == ite(beat, nh, self.h, W), v == ite(beat, nv, self.v, W), o == bo(Or(self.on, beat))]
        self.h, self.v, self.on = h, v, o


def many(mode, frames, every=0, tail=14, latency=2):
    """a long run of small frames (every: base rewritten each so many frames), then any memory and output stalls from the
    start of any of them"""
    m = mk(mode, 4)
    b = Bench(m, domains=D)
    p = {"hres": 2, "hsync_start": 2, "hsync_end": 3, "hscan": 3, "vres": 1, "vsync_start": 1, "vsync_end": 2, "vscan": 2}
    words = 12 if mode == "raw" else 2
    p["length"] = words << SH[mode]
    dw = DW[mode]
    key = 0x5ac3965a & ((1 << dw) - 1)
    ini, s = m.initiator, m.source
    nd = len(s.data)
    p["base"] = 0
    params(b, ini, p)
    b.set(ini.enable.storage, 1)
    b.set(s.ready, 1)
    b.set(m.port.cmd.ready, 1)
    pipe = [(0, 0)] * latency
    old = new = 0           # bases that may be shown
    since = 0
    h, v, on, idx, cur = 0, 0, 0, 0, None
    f = t = 0
    snaps, extra = [], []
    while f < frames and t < 40 * frames + 200:
        ret, a = pipe[-1]
        b.set(m.port.rdata.valid, ret)
        b.set(m.port.rdata.data, a ^ key)
        ok = b.get(s.valid)
        if ok:
            de = int(on and h < p["hres"] and v < p["vres"])
            hs = int(on and p["hsync_start"] <= h < p["hsync_end"])
            vs = int(on and p["vsync_start"] <= v < p["vsync_end"])
            for nm, sig, r in (("data enable", s.de, de), ("horizontal sync", s.hsync, hs), ("vertical sync", s.vsync, vs)):
                b.check(nm, eq(b.get(sig), r))
            if (on if mode == "raw" else de):
                d = b.get(s.data)
                if idx == 0:
                    cur = old if old != new and eq(d, (old ^ key) & ((1 << nd) - 1)) is True else new
                    if since > 7:
                        cur = new
                b.check("pixel", eq(d, ((cur + idx) & 255 ^ key) & ((1 << nd) - 1)))
                idx = (idx + 1) % words
        acc, addr = b.get(m.port.cmd.valid), b.get(m.port.cmd.addr)
        pipe = [(acc, addr)] + pipe[:-1]
        b.tick(D)
        t += 1
        if ok:
            last = on and h == p["hscan"] and v == p["vscan"]
            if not on or h == p["hscan"]:
                v = 0 if not on or last else v + 1
                h = 0
            else:
                h += 1
            on = 1
            if last:
                f += 1
                since += 1
                if since > 8:
                    snaps.append(b.snap())
                    extra.append((new, pipe))
                if every and f % every == 0:
                    old, new, since = new, (new + 37) & 255, 0
                    b.set(ini.base.storage, new << SH[mode])
    b.check("%d frames are shown in time" % frames, f == frames)
    if f < frames:
        return b.solve(validate=0)
    r = b.solve(timeout=200, validate=0)
    if r.status != "held":
        return r
    j = b.jump(snaps, "frames")
    base = bv(b.table(j, [x[0] for x in extra], AW), AW)
    b.set(ini.base.storage, z3.Concat(bvv(0, 32 - AW - SH[mode]), base, bvv(0, SH[mode])))
    mem = Mem(b, m.port, latency, bvv(key, dw))
    mem.pipe = [(bo(b.table(j, [x[1][i][0] for x in extra], 1)), bv(b.table(j, [x[1][i][1] for x in extra], AW), AW))
                for i in range(latency)]
    ras = Raster(b, p, on=True)
    idx = bvv(0, 8)
    for t in range(tail):
        mem.drive()
        r = b.inp(s.ready, "ready")
        v = b.get(s.valid)
        de, hs, vs = ras.outputs()
        for nm, sig, x in (("data enable", s.de, de), ("horizontal sync", s.hsync, hs), ("vertical sync", s.vsync, vs)):
            b.check(nm, Implies(v, Iff(b.get(sig), x)))
        shown = ras.on if mode == "raw" else de
        b.check("pixel", Implies(And(v, shown), eq(bv(b.get(s.data), nd), bits(mem.word(base + idx), nd - 1, 0))))
        mem.cycle()
        beat = And(v, r)
        n = z3.BitVec("idx%d" % t, 8)
        b.constraints.append(n == ite(And(beat, shown), ite(idx + 1 == words, bvv(0, 8), idx + 1, 8), idx, 8))
        idx = n
        ras.advance(beat)
        b.tick(D)
    return b.solve(timeout=500, validate=1, by_frame=True)


def taken_whole(m, sink, fields):
    """every value of the documented width survives being put on a parameter stream"""
    b = Bench(m)
    for n, w in fields:
        x = b.var(n, w)
        b.set(getattr(sink, n), x)
        b.check("every bit of %s is taken" % n, eq(bv(b.peek(getattr(sink, n)), 32), z3.ZeroExt(32 - w, x) if w < 32 else x))
    return b.solve(timeout=100, validate=1)
