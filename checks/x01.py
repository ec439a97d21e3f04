"""Terminal video timing against the documented VGA raster, decided for all time by induction next to a free-running
raster counter; when no invariant is found, one whole frame from reset decides."""
import z3
from migen import *
from fv.bench import *
from fv.induct import houdini

FUNCTIONS = ["litevideo.terminal.core.Terminal"]
BOUNDS = "unbounded in time and for all memory contents (induction); first lines from reset besides"
ASSUMPTIONS = ["Migen simulator semantics of the design"]

HT, HS, HB, HA = 800, 96, 48, 640
VT, VS, VB, VA = 521, 2, 29, 480


class Pair(Module):
    """terminal and a raster counter; x, y: position of the pixel on the outputs; on: outputs are in step (after the
    first clock edges)"""

    def __init__(self, x0, y0, skip):
        from litevideo.terminal.core import Terminal
        self.submodules.dut = Terminal()
        self.x, self.y = Signal(10, reset=x0), Signal(10, reset=y0)
        self.nx, self.ny = Signal(10), Signal(10)
        self.n = Signal(4, reset=skip)
        self.on, self.hs, self.vs, self.vis = Signal(), Signal(), Signal(), Signal()
        self.comb += [
            If(self.x == HT - 1, self.nx.eq(0)).Else(self.nx.eq(self.x + 1)),
            self.ny.eq(self.y),
            If(self.x == HT - 1, If(self.y == VT - 1, self.ny.eq(0)).Else(self.ny.eq(self.y + 1))),
            self.hs.eq(self.x >= HS), self.vs.eq(self.y >= VS), self.on.eq(self.n == 0),
            self.vis.eq((self.x >= HS + HB) & (self.x < HS + HB + HA) & (self.y >= VS + VB) & (self.y < VS + VB + VA)),
        ]
        self.sync.vga += [self.x.eq(self.nx), self.y.eq(self.ny), If(self.n != 0, self.n.eq(self.n - 1))]


def latency():
    """cycles from reset to the first rising edge of hsync, minus its pulse width (where the raster starts)"""
    from litevideo.terminal.core import Terminal
    d = Terminal()
    b = Bench(d, domains=("sys", "vga"), bigmem=1024, watch=[d.hsync])
    for t in range(2 * HT):
        if bo(b.get(d.hsync)) is True:
            return t - HS
        b.tick("vga")
    return 0


def make():
    l = latency()
    ok = 0 <= l <= 8
    d = Pair((-l) % HT if ok else 0, VT - 1 if ok and l else 0, l if ok else 0)
    Bench(d, domains=("sys", "vga"), bigmem=1024)
    return d


def sync(b, d):
    t, on = d.dut, b.peek(d.on)
    return [("hsync", Implies(on, Iff(b.get(t.hsync), b.peek(d.hs)))),
            ("vsync", Implies(on, Iff(b.get(t.vsync), b.peek(d.vs))))]


def dark(b, d):
    t = d.dut
    return [("black outside the picture", Implies(And(b.peek(d.on), Not(b.peek(d.vis))), And(
        eq(b.get(t.red), 0), eq(b.get(t.green), 0), eq(b.get(t.blue), 0))))]


def drive(b, d, prev):
    if b.sym.keep is None:
        for s in b.design.free_inputs():
            b.inp(s)
    return {}


def induction():
    d = make()
    t = d.dut
    def user(b, d):
        return [("x", z3.ULT(bv(b.peek(d.x), 10), HT)), ("y", z3.ULT(bv(b.peek(d.y), 10), VT)),
                ("start", Or(eq(b.peek(d.n), 0), *[And(eq(b.peek(d.n), k), eq(b.peek(d.x), HT - k), eq(b.peek(d.y), VT - 1))
                                                   for k in range(1, 9)]))]
    r = houdini(d, drive, [d.x, d.y, d.nx, d.ny, d.hs, d.vs], sync, domains=("sys", "vga"), exclude=[d.x, d.y, d.n],
                guards=lambda b, d: [b.peek(d.on)], user=user, watch=[t.hsync, t.vsync, d.on, d.hs, d.vs, d.vis],
                step_prop=dark)
    if r.status == "open":
        r2 = frame()
        r2.detail = "no inductive correspondence: one frame from reset (%s) %s" % (r.detail, r2.detail)
        return r2
    return r


def frame():
    """one frame and the first lines of the next, sync signals (and black where no memory content reaches)"""
    d = make()
    b = Bench(d, domains=("sys", "vga"), watch=[d.dut.hsync, d.dut.vsync, d.on, d.hs, d.vs])
    n = VT * HT + 3 * HT
    for i in range(n):
        on = b.peek(d.on)
        for name, s, r in (("hsync", d.dut.hsync, d.hs), ("vsync", d.dut.vsync, d.vs)):
            c = Implies(on, Iff(b.peek(s), b.peek(r)))
            if c is not True:
                b.get(s)
                b.check(name, c)
        if len(b.checks) > 4:
            break
        b.tick("vga")
    return b.solve(timeout=300, validate=0)


def lines(n):
    d = make()
    b = Bench(d, domains=("sys", "vga"), bigmem=1024)
    b.set_mem(b.design.bigs[0])
    for i in range(n * HT + 8):
        for nm, c in sync(b, d) + dark(b, d):
            b.check(nm, c)
        b.tick("vga")
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    return [dict(name="induction", func=induction), dict(name="first lines", func=lines, kw=dict(n=4))] + \
        ([dict(name="whole frame", func=frame)] if tier != "quick" else [])
