"""Video output core: symbolic frame geometry, base address, memory stalls and pixel back-pressure; every beat compared
with the raster, every active pixel with the memory word it must show."""
import z3
from migen import *
from fv.bench import *
from checks.vout import *

FUNCTIONS = ["litevideo.output.core.VideoOutCore (Initiator, TimingGenerator, DMAReader, LiteDRAMDMAReader inside)"]
BOUNDS = ("from reset: frames up to 4x4 beats for 25 (quick) / 32 (thorough) cycles with every memory stall pattern, 50/70 "
          "without stalls, 4x3 frames for 33/44 cycles, output stalls for 17/22; 8-bit word addresses, read FIFO of 4, "
          "latency 1..3; raw mode: every beat a word; 600 (quick) / 3000 "
          "(thorough) small frames, then 14 cycles of any stalls from the start of any of them")
ASSUMPTIONS = ["Migen simulator semantics of the design", "legal frame parameters, length = active pixels",
               "the memory answers in order, after a fixed latency"]


def job(mode, K, depth=4, latency=2, hmax=3, vmax=3, stall_out=False, stall_mem=True, sym=True, part=None):
    m = mk(mode, depth)
    b = Bench(m, domains=D)
    W = 4
    p = {}
    if sym:
        for a, mx in (("h", hmax), ("v", vmax)):
            for n in ("res", "sync_start", "sync_end", "scan"):
                p[a + n] = b.var(a + n, 12)
                b.assume(z3.ULE(p[a + n], mx))
            r, s, e, n = [p[a + x] for x in ("res", "sync_start", "sync_end", "scan")]
            b.assume(z3.And(z3.UGE(r, 1), z3.ULE(r, s), z3.ULT(s, e), z3.ULE(e, n)))
    else:
        for a, mx in (("h", hmax), ("v", vmax)):
            p[a + "scan"], p[a + "sync_end"], p[a + "sync_start"], p[a + "res"] = mx, mx, mx - 1, mx - 1
    base = b.var("base", AW)
    low = b.var("base_low", SH[mode])
    if mode == "raw":       # every beat shows a word
        words = bits(bv(p["hscan"], 12) + 1, 7, 0) * bits(bv(p["vscan"], 12) + 1, 7, 0)
    elif sym:
        words = bits(p["hres"], 7, 0) * bits(p["vres"], 7, 0)
    else:
        words = bvv(p["hres"] * p["vres"], 8)
    p["base"] = z3.ZeroExt(32 - AW - SH[mode], z3.Concat(base, low))
    p["length"] = z3.ZeroExt(24 - SH[mode], z3.Concat(words, bvv(0, SH[mode])))
    key = b.var("key", DW[mode])
    params(b, m.initiator, p)
    b.set(m.initiator.enable.storage, 1)
    mem = Mem(b, m.port, latency, key, stall_mem)
    ras = Raster(b, p)
    idx = bvv(0, 8)
    s = m.source
    b.set(s.ready, 1)
    wraps = False
    underflows = False
    for t in range(K):
        mem.drive()
        if stall_out:
            r = b.inp(s.ready, "ready")
        else:
            r = 1
        v = b.get(s.valid)
        de, hs, vs = ras.outputs()
        b.check("data enable", Implies(v, Iff(b.get(s.de), de)))
        b.check("horizontal sync", Implies(v, Iff(b.get(s.hsync), hs)))
        b.check("vertical sync", Implies(v, Iff(b.get(s.vsync), vs)))
        want = mem.word(base + idx)
        shown = ras.on if mode == "raw" else de
        b.check("pixel", Implies(And(v, shown), eq(bv(b.get(s.data), len(s.data)), bits(want, len(s.data) - 1, 0))))
        b.check("returned data is not refused", Implies(mem.ret[0], b.get(m.port.rdata.ready)))
        acc, addr = mem.cycle()
        beat = And(v, r)
        n = z3.BitVec("idx%d" % t, 8)
        end = And(shown, idx + 1 == words)
        b.constraints.append(n == ite(And(beat, shown), ite(end, bvv(0, 8), idx + 1, 8), idx, 8))
        idx = n
        wraps = Or(wraps, And(beat, end))
        underflows = Or(underflows, And(ras.on, Not(v)))
        ras.advance(beat)
        b.tick(D)
    b.cover("all pixels of a frame shown", wraps)
    if stall_mem:
        b.cover("memory too slow for the raster", underflows)
    return b.solve(timeout=800, validate=1, by_frame=True, part=part)


def jobs(tier):
    th = tier == "thorough"
    o = []

    def add(name, n=1, **kw):
        for i in range(n):
            o.append({"name": name + (" part %d/%d" % (i + 1, n) if n > 1 else ""), "func": job,
                      "kw": dict(kw, part=(i, n) if n > 1 else None)})
    add("rgb, several frames", n=4, mode="rgb", K=44 if th else 33, hmax=3, vmax=2, sym=False)
    add("rgb, any geometry", n=2, mode="rgb", K=32 if th else 25, latency=3)
    add("rgb, any geometry, memory never stalls", mode="rgb", K=70 if th else 50, stall_mem=False)
    add("rgb, output stalls", n=2, mode="rgb", K=22 if th else 17, stall_out=True, latency=1)
    add("ycbcr422", mode="ycbcr422", K=26 if th else 20)
    add("raw", mode="raw", K=30 if th else 24)
    add("raw, several frames", mode="raw", K=28 if th else 26, hmax=2, vmax=2, sym=False)
    add("raw, output stalls", mode="raw", K=20 if th else 16, stall_out=True, latency=1)
    for mode in ("rgb", "ycbcr422", "raw"):
        o.append({"name": "many frames, " + mode, "func": many, "kw": dict(mode=mode, frames=3000 if th else 600)})
    return o
