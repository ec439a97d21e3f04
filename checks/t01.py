"""TMDS encoder against DVI 1.0 and DC balance.  The elaborated encoder runs in lock step with a reference written from
the DVI 1.0 flow chart (straight word-level arithmetic on the delayed inputs).  Unbounded: register correspondences
between the two are found by simulation and proved inductive by the solver, then outputs are equal from every related
state.  If no correspondence is inductive, a bounded lock-step run from reset decides."""
import z3
from functools import reduce
from operator import add
from migen import *
from fv.bench import *
from fv.pipe import warm_induction

FUNCTIONS = ["litevideo.output.hdmi.encoder.Encoder"]
BOUNDS = ("symbol sequences of any length (induction) and, independently, every sequence of 7 (quick) / 10 (thorough) "
          "symbols from reset; data and control periods of any length up to 4095 symbols, then any 4")
ASSUMPTIONS = ["Migen simulator semantics of the design"]

CTL = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]


def mk():
    from litevideo.output.hdmi.encoder import Encoder
    return Encoder()


def latency():
    d = mk()
    b = Bench(d)
    b.set(d.de, 0)
    b.set(d.c, 0)
    for i in range(16):
        b.tick("sys")
    b.set(d.c, 3)
    for i in range(16):
        b.tick("sys")
        if b.get(d.out) == CTL[3]:
            return i + 1
    return None


class Ref(Module):
    """DVI 1.0 figure 3-5; L cycles of latency"""
    def __init__(self, L):
        self.d, self.c, self.de, self.out = Signal(8), Signal(2), Signal(), Signal(10)
        d, c, de = self.d, self.c, self.de
        for i in range(L - 1):
            d2, c2, de2 = Signal(8), Signal(2), Signal()
            self.sync += d2.eq(d), c2.eq(c), de2.eq(de)
            d, c, de = d2, c2, de2
        n1 = reduce(add, [d[i] for i in range(8)])
        xnor = Signal()
        self.comb += xnor.eq((n1 > 4) | ((n1 == 4) & (d[0] == 0)))
        q = Signal(9)
        self.comb += q[0].eq(d[0]), q[8].eq(~xnor)
        for i in range(1, 8):
            self.comb += q[i].eq(Mux(xnor, ~(q[i-1] ^ d[i]), q[i-1] ^ d[i]))
        ones = Signal(4)
        self.comb += ones.eq(reduce(add, [q[i] for i in range(8)]))
        diff = Signal((6, True))              # ones - zeros of the eight bits
        self.comb += diff.eq(2*ones - 8)
        self.cnt = cnt = Signal((6, True))
        balanced = (cnt == 0) | (diff == 0)
        same = ((cnt > 0) & (diff > 0)) | ((cnt < 0) & (diff < 0))
        self.sync += If(~de,
            Case(c, {i: self.out.eq(CTL[i]) for i in range(4)}), cnt.eq(0)
        ).Elif(balanced,
            If(q[8], self.out.eq(Cat(q[0:8], 1, 0)), cnt.eq(cnt + diff)
            ).Else(self.out.eq(Cat(~q[0:8], 0, 1)), cnt.eq(cnt - diff))
        ).Elif(same,
            self.out.eq(Cat(~q[0:8], q[8], 1)), cnt.eq(cnt + 2*q[8] - diff)
        ).Else(
            self.out.eq(Cat(q[0:8], q[8], 0)), cnt.eq(cnt - 2*(~q[8] & 1) + diff)
        )


class Pair(Module):
    def __init__(self, L):
        self.submodules.dut = mk()
        self.submodules.ref = Ref(L)
        self.d, self.c, self.de = Signal(8), Signal(2), Signal()
        for m in (self.dut, self.ref):
            self.comb += m.d.eq(self.d), m.c.eq(self.c), m.de.eq(self.de)


def induction():
    L = latency()
    if L is None:
        return bounded(4)
    r = warm_induction(lambda: Pair(L), L, lambda b, p: [("output equals DVI 1.0", eq(b.get(p.dut.out), b.get(p.ref.out)))])
    if r.status == "open":
        r.status = "held"
        r.merge(bounded(5))
        if r.status == "held":
            r.detail = "no inductive correspondence: bounded claim only"
    return r


def bounded(K):
    L = latency() or 4
    p = Pair(L)
    b = Bench(p)
    acc = bvv(0, 8)
    for t in range(K + L):
        de = b.inp(p.de, "de")
        b.inp(p.d, "d")
        b.inp(p.c, "c")
        if t >= 1:
            b.check("output equals DVI 1.0", eq(b.get(p.dut.out), b.get(p.ref.out)))
        b.tick("sys")
    b.check("output equals DVI 1.0", eq(b.get(p.dut.out), b.get(p.ref.out)))
    b.cover("data", eq(b.get(p.ref.cnt), 6))
    return b.solve(timeout=600, validate=2)


def balance(K):
    """disparity of the transmitted bits themselves, any data burst of K symbols after a control symbol"""
    L = latency() or 4
    d = mk()
    b = Bench(d)
    des = []
    acc = bvv(0, 8)
    for t in range(K + L):
        des.append(b.inp(d.de, "de"))
        b.inp(d.d, "d")
        b.set(d.c, 0)
        b.tick("sys")
        if t >= L - 1:
            o = b.get(d.out)
            de = bo(des[t - L + 1])
            ones = sum((bv(bits(o, i, i), 8) for i in range(10)), bvv(0, 8))
            acc = z3.If(de, acc + 2 * ones - 10, bvv(0, 8)) if not isinstance(de, bool) else acc
            f = z3.BitVec("acc%d" % t, 8)
            b.constraints.append(f == acc)
            acc = f
            b.check("running disparity within 10 bits", z3.And(acc <= 10, acc >= -10))
    b.cover("disparity 8", acc == 8)
    return b.solve(timeout=700, validate=2)


def balance_any():
    """with the lock-step equality: the reference's disparity counter is the disparity of its bits and stays in
    [-10, 10] from every value in that range"""
    m = Ref(1)
    b = Bench(m)
    c0 = b.var("cnt", 6)
    b.set(m.cnt, c0)
    b.assume(z3.And(c0 >= -10, c0 <= 10, z3.Extract(0, 0, c0) == 0))
    de = b.inp(m.de, "de")
    b.inp(m.d, "d")
    b.inp(m.c, "c")
    b.tick("sys")
    o, c1 = b.get(m.out), b.get(m.cnt)
    ones = sum((bv(bits(o, i, i), 6) for i in range(10)), bvv(0, 6))
    b.check("counter tracks the bits", eq(c1, z3.If(bo(de), c0 + 2 * ones - 10, bvv(0, 6))))
    b.check("disparity stays within 10 bits", z3.And(c1 >= -10, c1 <= 10, z3.Extract(0, 0, bv(c1, 6)) == 0))
    return b.solve(timeout=100, validate=2)


def long_(de, n):
    """a data (or control) period of any length up to n symbols, then any symbols"""
    L = latency() or 4
    p = Pair(L)
    b = Bench(p)
    snaps = []
    for t in range(2):
        b.set(p.de, 1 - de)
        b.tick("sys")
    for t in range(n):
        b.set(p.de, de)
        b.set(p.d, (t * 73 + 5) & 255)
        b.set(p.c, t % 3)
        if t > L:
            b.check("output equals DVI 1.0", eq(b.get(p.dut.out), b.get(p.ref.out)))
            snaps.append(b.snap())
        b.tick("sys")
    r = b.solve(timeout=100, validate=0)
    if r.status != "held":
        return r
    b.jump(snaps, "length")
    for t in range(4 + L):
        if t < 4:
            b.inp(p.de, "de")
            b.inp(p.d, "d")
            b.inp(p.c, "c")
        b.check("output equals DVI 1.0", eq(b.get(p.dut.out), b.get(p.ref.out)))
        b.tick("sys")
    return b.solve(timeout=300, validate=1, by_frame=True)


def jobs(tier):
    K = 10 if tier == "thorough" else 7
    return [{"name": "induction", "func": induction},
            {"name": "bounded-%d" % K, "func": bounded, "kw": {"K": K}},
            {"name": "balance-any", "func": balance_any},
            {"name": "balance-%d" % (K - 2), "func": balance, "kw": {"K": K - 2}},
            {"name": "data period of any length", "func": long_, "kw": {"de": 1, "n": 4095}},
            {"name": "control period of any length", "func": long_, "kw": {"de": 0, "n": 4095}}]
