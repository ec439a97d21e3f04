"""Resolution detection: symbolic valid/de/vsync; measured sizes compared with the definition (length of the last
completed active run; active lines between the last two vertical syncs)."""
import z3
from migen import *
from fv.bench import *
from fv.pipe import havoc, warm_induction

FUNCTIONS = ["litevideo.input.analysis.ResolutionDetection"]
BOUNDS = ("definition: every input sequence of 14 (quick) / 22 (thorough) cycles from reset, 11-bit counters and, for "
          "wrap-around, 2-bit counters; unbounded length by induction against a reference counter pair")
ASSUMPTIONS = ["Migen simulator semantics of the design",
               "vertical sync does not start in the very cycle in which data enable falls"]
D = ["pix", "sys"]


def mk(nbits):
    from litevideo.input.analysis import ResolutionDetection
    return ResolutionDetection(nbits)


def latency():
    """cycles from the end of an active run to the status register"""
    m = mk(11)
    b = Bench(m, domains=D)
    b.set(m.valid_i, 1)
    b.set(m.de, 1)
    for i in range(3):
        b.tick(D)
    b.set(m.de, 0)
    for i in range(12):
        b.tick(D)
        if b.get(m._hres.status) == 3:
            return i + 1
    return None


def definition(nbits, K):
    L = latency()
    m = mk(nbits)
    b = Bench(m, domains=D)
    if L is None:
        b.check("a run of three pixels is measured", False)
        return b.solve(validate=0)
    W = 12
    run = bvv(0, W)
    lines = bvv(0, W)
    hres = vres = bvv(0, nbits)
    pde = pvs = False
    hist = [(hres, vres)]
    for t in range(K):
        v = b.inp(m.valid_i, "valid")
        de = b.inp(m.de, "de")
        vs = b.inp(m.vsync, "vsync")
        v, de, vs = bo(v), bo(de), bo(vs)
        fall = And(pde, Not(de))
        rise = And(vs, Not(pvs))
        b.assume(Not(And(fall, rise)))
        hres = ite(v, ite(fall, bits(run, nbits - 1, 0), hres, nbits), bvv(0, nbits), nbits)
        vres = ite(v, ite(rise, bits(lines, nbits - 1, 0), vres, nbits), bvv(0, nbits), nbits)
        run = ite(And(v, de), run + 1, bvv(0, W), W)
        lines = ite(And(v, rise), bvv(0, W), ite(fall, lines + 1, lines, W), W)
        n = []
        for i, x in enumerate((hres, vres, run, lines)):
            f = z3.BitVec("ref%d_%d" % (i, t), x.size())
            b.constraints.append(f == x)
            n.append(f)
        hres, vres, run, lines = n
        hist.append((hres, vres))
        pde, pvs = de, vs
        b.tick(D)
        if t >= L:
            h, w = hist[t - L + 2]
            b.check("horizontal resolution", eq(b.get(m._hres.status), h))
            b.check("vertical resolution", eq(b.get(m._vres.status), w))
    b.cover("two lines measured", eq(hist[-1 - L][1], 2))
    return b.solve(timeout=400, validate=2)


def long_(axis):
    """a line of any length (a frame of any number of lines) that fits the register"""
    L = latency()
    m = mk(11)
    b = Bench(m, domains=D)
    if L is None:
        b.check("a run of three pixels is measured", False)
        return b.solve(validate=0)
    b.set(m.valid_i, 1)
    snaps = []
    if axis == "v":
        # a vertical sync, then lines of one pixel
        for vs in (1, 0):
            b.set(m.vsync, vs)
            b.tick(D)
    snaps.append(b.snap())
    for t in range(2047):
        b.set(m.de, 1)
        b.tick(D)
        if axis == "v":
            b.set(m.de, 0)
            for i in range(2):
                b.tick(D)
        snaps.append(b.snap())
    n = b.jump(snaps, "lines" if axis == "v" else "pixels")
    b.assume(n != 0)
    b.set(m.de, 0)
    b.set(m.vsync, 1 if axis == "v" else 0)
    s = m._vres.status if axis == "v" else m._hres.status
    for t in range(L + 2):
        b.tick(D)
        b.set(m.valid_i, 1)
        if axis == "h":
            b.inp(m.vsync, "vsync")
        else:
            b.inp(m.de, "de")
        if t >= L:
            b.check("number of lines" if axis == "v" else "length of the line", eq(bv(b.get(s), 11), bv(n, 11)))
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    K = 22 if tier == "thorough" else 14
    return [{"name": "definition-11bit", "func": definition, "kw": {"nbits": 11, "K": K}},
            {"name": "definition-2bit", "func": definition, "kw": {"nbits": 2, "K": K + 4}},
            {"name": "induction", "func": induction},
            {"name": "line of any length", "func": long_, "kw": {"axis": "h"}},
            {"name": "any number of lines", "func": long_, "kw": {"axis": "v"}}]


class Ref(Module):
    def __init__(self):
        self.valid_i, self.vsync, self.de = Signal(), Signal(), Signal()
        run, lines = Signal(11), Signal(11)
        h, v = Signal(11), Signal(11)
        self.hres, self.vres = Signal(11), Signal(11)
        pde, pvs = Signal(), Signal()
        fall, rise = Signal(), Signal()
        self.comb += fall.eq(pde & ~self.de), rise.eq(self.vsync & ~pvs)
        self.sync.pix += pde.eq(self.de), pvs.eq(self.vsync)
        self.sync.pix += If(self.valid_i & self.de, run.eq(run + 1)).Else(run.eq(0))
        self.sync.pix += If(~self.valid_i, h.eq(0)).Elif(fall, h.eq(run))
        self.sync.pix += If(~self.valid_i, v.eq(0)).Elif(rise, v.eq(lines))
        self.sync.pix += If(self.valid_i & rise, lines.eq(0)).Elif(fall, lines.eq(lines + 1))
        h2, v2 = Signal(11), Signal(11)
        self.sync += h2.eq(h), self.hres.eq(h2), v2.eq(v), self.vres.eq(v2)


class Pair(Module):
    def __init__(self):
        self.submodules.dut = mk(11)
        self.submodules.ref = Ref()
        self.valid_i, self.vsync, self.de = Signal(), Signal(), Signal()
        for n in ("valid_i", "vsync", "de"):
            self.comb += getattr(self.dut, n).eq(getattr(self, n)), getattr(self.ref, n).eq(getattr(self, n))


def induction():
    r = warm_induction(Pair, 4, lambda b, p: [("hres", eq(b.get(p.dut._hres.status), b.get(p.ref.hres))),
                                              ("vres", eq(b.get(p.dut._vres.status), b.get(p.ref.vres)))], domains=D)
    if r.status == "open":
        r.status, r.detail = "held", "no inductive correspondence: bounded claim only"
    return r
