"""Changing what is shown: the base address is rewritten at a symbolic moment while running, and the output is disabled
and enabled again with new parameters; every frame must come from one buffer, from its first word."""
import z3
from migen import *
from fv.bench import *
from checks.vout import *

FUNCTIONS = ["litevideo.output.core.VideoOutCore (Initiator, TimingGenerator, DMAReader)"]
BOUNDS = ("base rewritten at any of 128 moments within 140 (quick) / 180 (thorough) cycles, 6-word frames, read FIFO of 4; "
          "disabled after 2..8 (quick) / 2..16 cycles, 62 cycles off, then 40 cycles with other parameters; base rewritten 150 / 600 times; every value of the 12-bit timing and 32-bit base and length registers; memory not "
          "stalling, 8-bit word addresses")
ASSUMPTIONS = ["Migen simulator semantics of the design", "legal frame parameters, length = active pixels",
               "the memory answers in order"]


def geometry(hres, vres, h, v):
    return {"hres": hres, "hsync_start": hres, "hsync_end": hres + 1, "hscan": h,
            "vres": vres, "vsync_start": vres, "vsync_end": vres + 1, "vscan": v}


def flip(K, depth, stall, part):
    m = mk("rgb", depth)
    b = Bench(m, domains=D)
    p = geometry(3, 2, 4, 3)
    words = 6
    bases = [b.var("base%d" % i, AW) for i in range(2)]
    b.assume(bases[0] != bases[1])
    when = b.var("when", 7)
    p["length"] = words * 4
    p["base"] = 0
    params(b, m.initiator, p)
    b.set(m.initiator.enable.storage, 1)
    key = b.var("key", 32)
    mem = Mem(b, m.port, 2, key, stall)
    ras = Raster(b, p)
    idx = bvv(0, 3)
    cur = bvv(0, AW)
    s = m.source
    b.set(s.ready, 1)
    new = False
    newf = False
    for t in range(K):
        base = z3.If(z3.ULE(when, t), bases[1], bases[0])
        b.set(m.initiator.base.storage, z3.ZeroExt(22, z3.Concat(base, bvv(0, 2))))
        mem.drive()
        v = b.get(s.valid)
        de, hs, vs = ras.outputs()
        b.check("data enable", Implies(v, Iff(b.get(s.de), de)))
        pix = And(v, de)
        got = bits(b.get(s.data) ^ bits(key, 23, 0), AW - 1, 0) - z3.ZeroExt(AW - 3, idx)
        first = idx == 0
        b.check("first word of a buffer", Implies(And(pix, first), Or(got == bases[0], got == bases[1])))
        b.check("whole frame from one buffer", Implies(And(pix, Not(first)), got == cur))
        b.check("no way back to the old buffer", Implies(And(pix, new), got == bases[1]))
        mem.cycle()
        x = z3.BitVec("cur%d" % t, AW)
        y = z3.BitVec("idx%d" % t, 3)
        z = z3.Bool("new%d" % t)
        b.constraints += [x == ite(And(pix, first), got, cur, AW), y == ite(pix, ite(idx == words - 1, bvv(0, 3), idx + 1, 3), idx, 3),
                          z == bo(Or(new, And(pix, got == bases[1])))]
        cur, idx, new = x, y, z
        ras.advance(v)
        b.tick(D)
    b.cover("both buffers shown", And(new, z3.UGE(when, 6)))
    return b.solve(timeout=800, validate=1, by_frame=True, part=part)


def restart(R, off_max, part):
    """disabled at a symbolic moment, R cycles off, enabled again with other parameters"""
    m = mk("rgb", 4)
    b = Bench(m, domains=D)
    p = geometry(1, 1, 2, 2)
    q = geometry(2, 2, 3, 3)
    key = b.var("key", 32)
    mem = Mem(b, m.port, 2, key, False)
    off = b.var("off", 5)
    b.assume(z3.And(z3.UGE(off, 2), z3.ULE(off, off_max)))
    s = m.source
    b.set(s.ready, 1)
    for ph, g, n in ((0, p, 1), (1, q, 4)):
        base = b.var("base", AW)
        g["base"] = z3.ZeroExt(22, z3.Concat(base, bvv(0, 2)))
        g["length"] = n * 4
        params(b, m.initiator, g)
        ras = Raster(b, g)
        idx = bvv(0, 3)
        seen = False
        for t in range(R + off_max if ph == 0 else 40):
            b.set(m.initiator.enable.storage, z3.If(z3.ULT(bvv(t, 8), z3.ZeroExt(3, off)), bvv(1, 1), bvv(0, 1)) if ph == 0 else 1)
            mem.drive()
            v = b.get(s.valid)
            de, hs, vs = ras.outputs()
            if ph == 0 and t == R + off_max - 1:
                b.check("stopped", Not(v))
            b.check("data enable", Implies(v, Iff(b.get(s.de), de)))
            b.check("horizontal sync", Implies(v, Iff(b.get(s.hsync), hs)))
            b.check("vertical sync", Implies(v, Iff(b.get(s.vsync), vs)))
            b.check("pixel", Implies(And(v, de), eq(b.get(s.data), bits(mem.word(base + z3.ZeroExt(5, idx)), 23, 0))))
            mem.cycle()
            pix = And(v, de)
            y = z3.BitVec("idx%d_%d" % (ph, t), 3)
            b.constraints += [y == ite(pix, ite(idx == n - 1, bvv(0, 3), idx + 1, 3), idx, 3)]
            idx = y
            seen = Or(seen, And(pix, idx == n - 1))
            ras.advance(v)
            b.tick(D)
        b.check("a frame is shown", seen)
    return b.solve(timeout=800, validate=1, by_frame=True, part=part)


FULL = [(n, 32 if n in ("base", "length") else 12) for n in
        ("hres", "hsync_start", "hsync_end", "hscan", "vres", "vsync_start", "vsync_end", "vscan", "base", "length")]


def whole():
    """what software writes, all bits of it, is what the timing generator and the frame reader are given"""
    from litevideo.output.core import Initiator
    m = Initiator("pix")
    b = Bench(m, domains=D)
    want = {n: b.var(n, w) for n, w in FULL}
    for n, w in FULL:
        b.set(getattr(m, n).storage, want[n])
    b.set(m.enable.storage, 1)
    b.set(m.source.ready, 0)
    seen = False
    for t in range(14):
        v = b.get(m.source.valid)
        for n, w in FULL:
            b.check("%s arrives whole" % n, Implies(v, eq(bv(b.get(getattr(m.source, n)), 32), z3.ZeroExt(32 - w, want[n]) if w < 32 else want[n])))
        seen = Or(seen, v)
        b.tick(D)
    b.check("parameters arrive", seen)
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    th = tier == "thorough"
    o = [{"name": "base rewritten while running part %d/4" % (i + 1), "func": flip,
          "kw": dict(K=180 if th else 140, depth=4, stall=False, part=(i, 4))} for i in range(4)]
    o += [{"name": "disabled and enabled again part %d/4" % (i + 1), "func": restart,
           "kw": dict(R=62, off_max=16 if th else 8, part=(i, 4))} for i in range(4)]
    o.append({"name": "registers of 12 and 32 bits arrive whole", "func": whole})
    o.append({"name": "base rewritten again and again", "func": many,
              "kw": dict(mode="rgb", frames=6000 if th else 1500, every=10, tail=12)})
    return o
