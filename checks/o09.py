"""Genlock: the frame reader follows symbolic vertical syncs of the stream it is locked to (symbolic base, length, delay and
memory stalls), and the assembled output shows a symbolic raster's active beats with the words of the buffer."""
import z3
from migen import *
from fv.bench import *
from checks.vout import *
from checks.o02 import drive

FUNCTIONS = ["litevideo.output.core.DMAReader (genlock)", "litevideo.output.core.TimingGenerator (genlock)",
             "litevideo.output.core.VideoOutCore (genlock)"]
BOUNDS = ("reader: 13 (quick) / 17 (thorough) cycles from reset, 8-bit word addresses, any base, length and delay, any vertical "
          "sync and command stalls, again for 14 cycles after any number up to 1024 of frames; core: rasters up to 4x4 beats for 32 / 40 cycles with every memory stall pattern, for "
          "22 / 26 with output stalls, 8-bit word addresses, delays 0..3; the first word at any 20 and 28-bit base and delay")
ASSUMPTIONS = ["Migen simulator semantics of the design", "the frame is longer than the delay",
               "base and length are held until the frame has been requested (the stream contract)",
               "the stream waits for the output (its ready is honoured); output enabled during a vertical blanking",
               "a vertical sync is noticed 1 to 5 clocks after it; one during a frame's requests starts nothing"]


RW = 8


def reader(dw, K, before=0):
    from litevideo.output.core import DMAReader
    from litevideo.output.common import frame_timing_layout
    from litedram.common import LiteDRAMNativePort
    from litex.soc.interconnect import stream

    class Top(Module):
        def __init__(self):
            self.port = LiteDRAMNativePort("read", RW, dw)
            self.lock = stream.Endpoint(frame_timing_layout)
            self.submodules.dut = dut = DMAReader(self.port, 32, self.lock)
            sh = log2_int(dw//8)
            self.base, self.words = Signal(RW), Signal(RW)
            self.comb += self.base.eq(dut.sink.base[sh:]), self.words.eq(dut.sink.length[sh:])
    d = Top()
    b = Bench(d)
    delay = bvv(2, 32) if before else b.var("delay", 32)
    b.set(d.dut.delay_base.storage, delay)
    delay = bits(delay, RW - 1, 0)
    c = d.port.cmd
    cnt, ctx = delay, None
    run = False             # between the first command of a frame and its last
    seen = False            # a vertical sync since the last frame that is certainly noticed
    old = 15                # cycles since the last possible start (vertical sync; or reset)
    frames = bvv(0, 3)
    vs_prev = 0
    age, poss, idle_ok = bvv(0, 4), True, bvv(0, 4)
    hist = []
    ended = bvv(63, 6)      # clocks since the last command of the previous frame (63: none yet)
    if before:
        # frames of 6 words, a vertical sync every 24 clocks; then the state before any of the syncs
        snaps = []
        w = {"base": 16 * dw // 8, "length": 8 * dw // 8}
        for n, x in w.items():
            b.set(getattr(d.dut.sink, n), x)
        for s in (d.dut.sink.valid, c.ready, d.dut.source.ready):
            b.set(s, 1)
        for f in range(before):
            asked = []
            late = 0
            for t in range(24):
                b.set(d.lock.vsync, int(t < 6 and f > 0))
                b.set(d.port.rdata.valid, late)
                late = int(b.get(c.valid))
                if late:
                    asked.append(b.get(c.addr))
                b.tick()
            b.check("the words of the frame", asked == list(range(18, 24)))
            snaps.append(b.snap())
        r = b.solve(timeout=60, validate=0)
        if r.status != "held":
            return r
        b.jump(snaps, "frames")
        b.set(d.port.rdata.valid, 0)
        ctx = {"p": {n: bvv(x, 32) for n, x in w.items()}, "held": True}
        age, ended, prev_valid = bvv(14, 4), bvv(20, 6), True
    for t in range(K):
        vs = b.inp(d.lock.vsync, "vsync")
        ctx = drive(b, d, ctx, rdata=False)
        if t or before:
            b.assume(Implies(prev_valid, b.peek(d.dut.sink.valid)))     # enabled once and for all
        prev_valid = b.peek(d.dut.sink.valid) == 1
        b.assume(z3.ULT(delay, bv(b.peek(d.words), RW)))
        b.assume(z3.ULT(bv(b.peek(d.dut.delay_base.storage), 32), bvv(1 << RW, 32)))
        rise = And(vs == 1, Not(vs_prev))
        vs_prev = vs == 1
        hist.append(rise)
        v = b.get(c.valid)
        # a rise in one of the last 5 cycles before this one, not older than 3 before the last command
        could = first_frame = (ended == 63)
        for k, r in enumerate(reversed(hist)):         # r happened k cycles ago
            if k >= 1:
                could = Or(could, And(r, z3.ULE(bvv(k, 6), ended + 3)))
        # must: a rise after the last command, at least 5 cycles ago
        must = And(first_frame, z3.UGE(age, 3))
        for k, r in enumerate(reversed(hist)):
            if k >= 5:
                must = Or(must, And(r, z3.ULT(bvv(k, 6), ended), Not(first_frame)))
        b.check("reads", Implies(v, eq(b.get(c.we), 0)))
        b.check("word of the frame", Implies(v, eq(b.get(c.addr), bv(b.peek(d.base), RW) + cnt)))
        b.check("a frame starts after a vertical sync only", Implies(And(v, Not(run)), And(could, prev_valid)))
        b.check("a started frame is requested to its end", Implies(run, v))
        b.check("a vertical sync starts a frame", Implies(And(must, prev_valid), v))
        acc = And(v, b.peek(c.ready))
        end = And(acc, cnt + 1 == bv(b.peek(d.words), RW))
        ns = []
        new = [ite(end, delay, ite(acc, cnt + 1, cnt, RW), RW), ite(And(prev_valid, z3.ULT(age, 14)), age + 1, age, 4),
               ite(end, bvv(1, 6), ite(z3.ULT(ended, 50), ended + 1, ended, 6), 6), frames + bv(end, 3),
               bv(Or(And(run, Not(end)), And(v, Not(end))), 1)]
        for i, x in enumerate(new):
            y = z3.BitVec("m%d_%d" % (i, t), x.size())
            b.constraints.append(y == x)
            ns.append(y)
        cnt, age, ended, frames, run = ns
        run = run == 1
        b.tick()
    b.cover("two frames", z3.UGE(frames, 2))
    return b.solve(timeout=700, validate=1, by_frame=True)


def core(mode, K, hmax=3, vmax=3, stall_out=False, stall_mem=True, latency=2, part=None):
    from litevideo.output.core import VideoOutCore
    from litevideo.output.common import frame_timing_layout
    from litedram.common import LiteDRAMNativePort
    from litex.soc.interconnect import stream
    p = LiteDRAMNativePort("read", AW, DW[mode], clock_domain="pix")
    lock = stream.Endpoint(frame_timing_layout)
    m = VideoOutCore(p, mode, fifo_depth=4, genlock_stream=lock)
    m.port, m.lock = p, lock
    b = Bench(m, domains=D)
    q = {}
    for a, mx in (("h", hmax), ("v", vmax)):
        for n in ("res", "sync_start", "sync_end", "scan"):
            q[a + n] = b.var(a + n, 12)
            b.assume(z3.ULE(q[a + n], mx))
        r, s, e, n = [q[a + x] for x in ("res", "sync_start", "sync_end", "scan")]
        b.assume(z3.And(z3.UGE(r, 1), z3.ULE(r, s), z3.ULT(s, e), z3.ULE(e, n)))
    # the vertical sync is over before the line that ends the frame is, and lasts a line
    base, low = b.var("base", AW), b.var("base_low", SH[mode])
    delay = b.var("delay", 2)
    words = bits(q["hres"], 7, 0) * bits(q["vres"], 7, 0)
    length = words + bv(delay, 8)
    q["base"] = z3.ZeroExt(32 - AW - SH[mode], z3.Concat(base, low))
    q["length"] = z3.ZeroExt(24 - SH[mode], z3.Concat(length, bvv(0, SH[mode])))
    b.set(m.dma.delay_base.storage, bv(delay, 32))
    key = b.var("key", DW[mode])
    params(b, m.initiator, q)
    b.set(m.initiator.enable.storage, 1)
    mem = Mem(b, m.port, latency, key, stall_mem)
    ras = Raster(b, q, on=True)
    s = m.source
    b.set(s.ready, 1)
    b.set(lock.valid, 0)
    idx = bvv(0, 8)
    wraps = False
    LEAD = 5
    for t in range(K):
        mem.drive()
        r = b.inp(s.ready, "ready") if stall_out else 1
        de, hs, vs = ras.outputs()
        go = t >= LEAD      # enabled before the stream's first line
        b.set(lock.valid, 1 if go else 0)
        b.set(lock.de, And(de, go))
        b.set(lock.hsync, And(hs, go))
        b.set(lock.vsync, And(vs, go))
        b.set(lock.last, And(ras.last(), go))
        v = b.get(s.valid)
        b.check("nothing before the stream's beats", Implies(not go, Not(v)))
        b.check("blanking beats pass", Implies(And(go, Not(de)), v))
        b.check("data enable", Implies(v, Iff(b.get(s.de), de)))
        b.check("horizontal sync", Implies(v, Iff(b.get(s.hsync), hs)))
        b.check("vertical sync", Implies(v, Iff(b.get(s.vsync), vs)))
        want = mem.word(base + bv(delay, AW) + idx)
        b.check("pixel", Implies(And(v, de), eq(bv(b.get(s.data), len(s.data)), bits(want, len(s.data) - 1, 0))))
        beat = And(v, r, go)
        if go:
            b.check("the stream moves with the output", Iff(b.get(lock.ready), beat))
        mem.cycle()
        n = z3.BitVec("idx%d" % t, 8)
        end = And(de, idx + 1 == words)
        b.constraints.append(n == ite(And(beat, de), ite(end, bvv(0, 8), idx + 1, 8), idx, 8))
        idx = n
        wraps = Or(wraps, And(beat, ras.last()))
        ras.advance(beat)
        b.tick(D)
    b.cover("a frame is over", wraps)
    b.cover("the next frame's first pixel", And(wraps, idx != 0))
    return b.solve(timeout=800, validate=1, by_frame=True, part=part)


def first(aw):
    """any base and any delay of the address width: the first word asked for"""
    from litevideo.output.core import DMAReader
    from litevideo.output.common import frame_timing_layout
    from litedram.common import LiteDRAMNativePort
    from litex.soc.interconnect import stream

    class Top(Module):
        def __init__(self):
            self.port = LiteDRAMNativePort("read", aw, 32)
            self.lock = stream.Endpoint(frame_timing_layout)
            self.submodules.dut = DMAReader(self.port, 4, self.lock)
    d = Top()
    b = Bench(d)
    base, delay, words = b.var("base", aw), b.var("delay", aw), b.var("words", aw)
    b.assume(z3.ULT(delay, words))
    b.set(d.dut.delay_base.storage, z3.ZeroExt(32 - aw, delay))
    for n, x in (("base", base), ("length", words)):
        b.set(getattr(d.dut.sink, n), z3.ZeroExt(30 - aw, z3.Concat(x, bvv(0, 2))))
    b.set(d.dut.sink.valid, 1)
    c = d.port.cmd
    for t in range(8):
        b.inp(d.lock.vsync, "vsync")
        b.check("first word", Implies(b.get(c.valid), eq(b.get(c.addr), base + delay)))
        b.tick()
    b.check("a frame is started", b.get(c.valid))
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    t = tier == "thorough"
    return [{"name": "first word, %d bit addresses" % w, "func": first, "kw": {"aw": w}} for w in (20, 28)] + \
        [{"name": "reader-%d" % w, "func": reader, "kw": {"dw": w, "K": 17 if t else 13}} for w in (16, 32)] + \
        [{"name": "reader after many frames", "func": reader, "kw": {"dw": 32, "K": 14, "before": 1024}}] + \
        [{"name": "core-%s" % md, "func": core, "kw": {"mode": md, "K": 40 if t else 32}} for md in ("rgb", "ycbcr422")] + \
        [{"name": "core-rgb, output stalls", "func": core, "kw": {"mode": "rgb", "K": 26 if t else 22, "stall_out": True}}]
