"""Clock trees of receivers and transmitters: symbolic levels on the outputs of the vendor's clock generators and strobe/lock
answers; what reaches the clock domains, their resets, the status registers and the serialisers.  The frequency of each
generator output follows from the parameters of the primitive."""
from fractions import Fraction
import z3
from migen import *
from fv.bench import *
from fv.inst import instances, port, param, same_net
from checks.i06 import Miswired, need, guarded

FUNCTIONS = ["litevideo.input.clocking.S6Clocking, S7Clocking", "litevideo.output.hdmi.s6.S6HDMIOutClocking",
             "litevideo.output.hdmi.s7.S7HDMIOutClocking", "litevideo.output.driver.Driver, litevideo.input.HDMIIn (wiring of strobe and clocks)"]
BOUNDS = ("any clock levels, lock answers and software resets over 8 (quick) / 14 (thorough) cycles; every serialiser of receivers and "
          "transmitters of both families; integrated and external clocking; split receiver clocking")
ASSUMPTIONS = ["Migen simulator semantics of the design (asynchronous resets are combinational there)",
               "frequencies by the vendor's formula: input x feedback multiplier / input divider / output divider"]


class _P:
    pass


def pads(inverted=False):
    p = _P()
    for n in ("clk", "data0", "data1", "data2"):
        for s in "pn":
            setattr(p, n + "_" + s, Signal(name=n + "_" + s))
    if inverted:
        p.clk_p.inverted = True
    return p


class Top(Module):
    def __init__(self, what):
        self.pads = pads(what.endswith("inverted"))
        k = what.split()
        if k[1] == "out":
            from litevideo.output.driver import Driver
            for n in ("base50", "clk100"):
                setattr(self.clock_domains, "cd_" + n, ClockDomain(n, reset_less=True))
            ext = None
            if "external" in k:
                ext = self.ext = _P()
                for n in ("pll0_pix10x", "pll1_pix2x", "pll2_pix", "pll_locked"):
                    setattr(ext, n, Signal(name=n))
            self.submodules.dut = Driver({"s6": "xc6slx45", "s7": "xc7a35t"}[k[0]], self.pads, "rgb", ext)
        else:
            from litevideo.input import HDMIIn
            self.submodules.dut = HDMIIn(self.pads, device={"s6": "xc6", "s7": "xc7"}[k[0]], split_mmcm="split" in k)
        self.clk = self.dut.clocking


# what each domain needs: frequency relative to the pixel clock
NEED = {"s6 in": {"pix": 1, "pix_o": 1, "pix2x": 2, "pix10x": 10}, "s6 out": {"pix": 1, "pix2x": 2, "pix10x": 10},
        "s7 in": {"pix": 1, "pix_o": 1, "pix1p25x": Fraction(5, 4), "pix5x": 5, "pix5x_o": 5}, "s7 out": {"pix": 1, "pix5x": 5}}
GEN = ("PLL_ADV", "MMCME2_ADV", "PLLE2_ADV")
BUF = ("BUFG", "BUFR", "BUFIO", "BUFH", "BUFIO2", "IBUFG", "BUFMR")


def start(what):
    m = Top(what)
    m.finalize()
    doms = sorted({cd.name for cd in m._fragment.clock_domains} | {"sys"})
    b = Bench(m, domains=doms, cut=False)
    b.cds = {cd.name: cd for cd in b.design.cds}
    return m, b


def tree(m, b, what):
    """symbolic levels on every generator output and the input pads, carried through the buffers;
    returns {level variable: frequency relative to the link or base clock}"""
    src = {}
    gens = [x for g in GEN for x in instances(b, g)]
    for g in gens:
        for i in range(6):
            o = port(g, "CLKOUT%d" % i)
            if o is not None:
                src[b.inp(o, "clkout%d" % i)] = (g, i)
        o = port(g, "CLKFBOUT")
        if o is not None:
            src[b.inp(o, "fb")] = (g, "fb")
    for x in instances(b, "DCM_CLKGEN"):
        src[b.inp(port(x, "CLKFX"), "clkfx")] = (x, "fx")
    if hasattr(m, "ext"):
        for i, n in enumerate(("pll0_pix10x", "pll1_pix2x", "pll2_pix")):
            src[b.inp(getattr(m.ext, n), n)] = ("ext", (10, 2, 1)[i])
    link = None
    for x in instances(b, "IBUFDS") + instances(b, "IBUFDS_DIFF_OUT") + instances(b, "IBUFGDS"):
        if same_net(port(x, "I"), m.pads.clk_p):
            need(same_net(port(x, "IB"), m.pads.clk_n), "both clock pads reach the input buffer")
            link = z3.BitVec("link_clock", 1)
            if port(x, "O") is not None:
                b.set(port(x, "O"), link)
            if port(x, "OB") is not None:
                b.set(port(x, "OB"), ~link)
    if what.split()[1] == "in":
        need(link is not None, "the clock pads feed an input buffer")
    for n in ("base50", "clk100"):
        if n in b.cds and what.split()[1] == "out":
            src[b.inp(b.cds[n].clk, n)] = ("base", 1)
    strobe = None
    for k in range(6):
        for n in BUF:
            for x in instances(b, n):
                b.set(port(x, "O"), b.peek(port(x, "I")))
        for x in instances(b, "BUFPLL"):
            b.set(port(x, "IOCLK"), b.peek(port(x, "PLLIN")))
    for x in instances(b, "BUFPLL"):
        strobe = b.inp(port(x, "SERDESSTROBE"), "strobe")
    return src, link, strobe


def num(g, n, default=1):
    v = param(g, n)
    if v is None:
        return Fraction(default)
    return Fraction(v if isinstance(v, (int, float)) else v.value)


def mult(g):
    n, = [n for n in ("CLKFBOUT_MULT", "CLKFBOUT_MULT_F") if param(g, n) is not None]
    return num(g, n) / num(g, "DIVCLK_DIVIDE")


def divide(g, i):
    for n in ("CLKOUT%d_DIVIDE" % i, "CLKOUT%d_DIVIDE_F" % i):
        if param(g, n) is not None:
            return num(g, n)
    return Fraction(1)


def same(a, b):
    """are two clock levels one and the same wire (for every level of all sources)"""
    s = z3.Solver()
    s.add(bv(a, 1) != bv(b, 1))
    return s.check() == z3.unsat


def frequency(b, src, link, inverted, v, depth=0):
    """relative to the link clock or the base clock"""
    need(depth < 5, "clock loop")
    if link is not None and same(v, ~link if inverted else link):
        return Fraction(1)
    for x, (g, i) in src.items():
        if not same(v, x):
            continue
        if g == "ext":
            return Fraction(i)
        if g == "base" or i == "fx":
            return Fraction(1)
        sel = port(g, "CLKINSEL")
        cin = "CLKIN1"
        if sel is not None and same(bit(b.get(sel), 0), 0):
            cin = "CLKIN2"
        need(port(g, cin) is not None, "selected input clock of a generator is connected")
        cin = frequency(b, src, link, inverted, b.peek(port(g, cin)), depth + 1)
        fb = b.peek(port(g, "CLKFBIN"))
        need(any(same(fb, y) for y, (h, j) in src.items() if h is g and j == "fb"), "feedback of the generator is its own")
        need(num(g, "CLKOUT%d_PHASE" % i, 0) == 0, "phase 0")
        return cin * mult(g) / divide(g, i)
    return None


def ratios(what):
    m, b = start(what)
    src, link, strobe = tree(m, b, what)
    want = NEED[" ".join(what.split()[:2])]
    f = {}
    for n in want:
        need(n in b.cds, "clock domain " + n)
        v = b.get(b.cds[n].clk)
        f[n] = frequency(b, src, link, what.endswith("inverted"), v)
        need(f[n] is not None, "clock of %s is an output of a generator" % n)
    for n, r in want.items():
        b.check("frequency of %s relative to the pixel clock" % n, f[n] == r * f["pix"])
        if what.split()[1] == "in":
            b.check("%s relative to the link clock" % n, f[n] == r)
    for g in instances(b, "BUFPLL"):
        b.check("strobe every fifth bit", num(g, "DIVIDE") == 5)
        b.check("the strobe follows the word clock", eq(b.get(port(g, "GCLK")), b.get(b.cds["pix2x"].clk)))
        b.check("the strobe generator knows the lock", True if hasattr(m, "ext") else
                Iff(b.peek(port(g, "LOCKED")), b.peek(port(instances(b, "PLL_ADV")[0], "LOCKED"))))
    # serialisers
    word = {"s6 in": "pix2x", "s6 out": "pix2x", "s7 in": "pix1p25x", "s7 out": "pix"}[" ".join(what.split()[:2])]
    fast = {"s6": "pix10x", "s7": "pix5x"}[what[:2]]
    n = 0
    for x in instances(b):
        if x.of in ("ISERDES2", "OSERDES2", "ISERDESE2", "OSERDESE2"):
            n += 1
            two = x.of.endswith("S2")
            b.check("bit clock of a serialiser", eq(b.get(port(x, "CLK0" if two else "CLK")), b.get(b.cds[fast].clk)))
            b.check("word clock of a serialiser", eq(b.get(port(x, "CLKDIV")), b.get(b.cds[word].clk)))
            if two:
                b.check("strobe of a serialiser", eq(b.get(port(x, "IOCE")), strobe))
                b.check("serialiser not in reset", eq(b.get(port(x, "RST")), 0))
            if x.of == "ISERDESE2":
                b.check("inverted bit clock", eq(b.get(port(x, "CLKB")), ~bv(b.get(b.cds[fast].clk), 1)))
                b.check("reset with its clock", Iff(b.get(port(x, "RST")), b.get(b.cds[word].rst)))
            if x.of == "OSERDESE2":
                b.check("reset with its clock", Iff(b.get(port(x, "RST")), b.get(b.cds[word].rst)))
        if x.of in ("IODELAY2", "IDELAYE2"):
            b.check("control clock of a delay", eq(b.get(port(x, "CLK" if x.of == "IODELAY2" else "C")), b.get(b.cds[word].clk)))
            if x.of == "IODELAY2":
                b.check("bit clock of a delay", eq(b.get(port(x, "IOCLK0")), b.get(b.cds[fast].clk)))
    b.check("serialisers", n >= (7 if what.split()[1] == "out" and what[:2] == "s7" else 6))
    return b.solve(timeout=60, validate=1)


RESET = {"s6 in": ("pix", "pix2x"), "s6 out": (), "s7 in": ("pix", "pix1p25x", "pix_o"), "s7 out": ("pix",)}


def lock(what, K):
    m, b = start(what)
    c = m.clk
    kind = " ".join(what.split()[:2])
    from litex.soc.interconnect.csr import CSRStorage, CSR
    hist = []
    doms = sorted(b.cds)
    for t in range(K):
        for n, s in sorted(vars(c).items()):
            if isinstance(s, CSRStorage):
                b.inp(s.storage)
            elif isinstance(s, CSR):
                b.inp(s.re)
        lk = {}
        for g in GEN + ("DCM_CLKGEN",):
            for x in instances(b, g):
                lk[g] = b.inp(port(x, "LOCKED"), "locked")
        for x in instances(b, "BUFPLL"):
            lk["BUFPLL"] = b.inp(port(x, "LOCK"), "lock") if port(x, "LOCK") is not None else None
        hist.append(lk)
        main = lambda h: {"s6 in": h.get("BUFPLL"), "s6 out": h.get("BUFPLL"), "s7 in": h.get("MMCME2_ADV"),
                          "s7 out": h.get("MMCME2_ADV")}[kind]
        for n in RESET[kind]:
            of = main
            if n == "pix_o" and "split" in what:
                of = lambda h: h["PLLE2_ADV"]
            b.check("%s is in reset while its clock is not locked" % n, Implies(Not(of(lk)), b.get(b.cds[n].rst)))
            if t >= 4:
                b.check("%s leaves reset when its clock is locked" % n,
                        Implies(And(*[of(h) for h in hist[-5:]]), Not(b.get(b.cds[n].rst))))
        if kind == "s6 out" and "external" not in what:
            st = b.get(c._status.status)
            b.check("status: pixel clock locked", Iff(bit(st, 2), lk["DCM_CLKGEN"]))
            b.check("the multiplier waits for the pixel clock", Implies(Not(lk["DCM_CLKGEN"]), b.get(port(instances(b, "PLL_ADV")[0], "RST"))))
            flag = bit(st, 3)
        elif hasattr(c, "_locked"):
            flag = bo(b.get(c._locked.status))
        else:
            flag = None
        if flag is not None and t >= 4:
            b.check("lock status", And(Implies(And(*[main(h) for h in hist[-5:]]), flag),
                                       Implies(And(*[Not(main(h)) for h in hist[-5:]]), Not(flag))))
        b.tick(doms)
    return b.solve(timeout=200, validate=1)


def jobs(tier):
    W = ["s6 in", "s7 in", "s7 in split", "s7 in inverted", "s6 out", "s6 out external", "s7 out"]
    K = 14 if tier == "thorough" else 8
    return [{"name": "clock tree " + w, "func": guarded(ratios), "kw": {"what": w}} for w in W] + \
        [{"name": "resets and lock status " + w, "func": guarded(lock), "kw": {"what": w, "K": K}} for w in W if "inverted" not in w and
         "external" not in w]
