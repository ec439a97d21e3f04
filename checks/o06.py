"""HDMI transmitter PHY: symbolic pixels, syncs and data enable through the real encoders to the words handed to the vendor
serialisers, compared bit by bit, in transmission order, with the DVI lane assignment."""
import z3
from migen import *
from fv.bench import *
from fv.inst import instances, port, param, same_net
from checks.i06 import configured, need, guarded

FUNCTIONS = ["litevideo.output.hdmi.s7.S7HDMIOutPHY, S7HDMIOutEncoderSerializer",
             "litevideo.output.hdmi.s6.S6HDMIOutPHY, _S6HDMIOutEncoderSerializer", "Encoder inside them"]
BOUNDS = "7 pixels of any value after reset, lanes with and without inverted pads, encoded and raw modes; the same after any number up to 512 of lines of 16 clocks"
ASSUMPTIONS = ["Migen simulator semantics of the design",
               "OSERDESE2 sends D1..D8 then the slave's D3, D4; OSERDES2 at 5:1 sends the slave's D1..D4 then the master's "
               "D1 (Xilinx user guides); the pix clock is high in the first half of its period",
               "the encoder's own word sequence is decided by T01"]


def pads(inv):
    class P:
        pass
    p = P()
    for i in range(3):
        for s in "pn":
            x = Signal(name="data%d_%s" % (i, s))
            if inv >> i & 1 and s == "p":
                x.inverted = True
            setattr(p, "data%d_%s" % (i, s), x)
    return p


def wire(b, pads, fam, names=("data0", "data1", "data2"), ce=True):
    """per lane: list of the ten expressions in transmission order (s7) or two sets of five (s6)"""
    lanes = []
    for i, nm in enumerate(names):
        buf = [x for x in instances(b, "OBUFDS") if same_net(port(x, "O"), getattr(pads, nm + "_p"))]
        need(len(buf) == 1 and same_net(port(buf[0], "OB"), getattr(pads, nm + "_n")), "output buffer of " + nm)
        se = port(buf[0], "I")
        of = "OSERDESE2" if fam == "s7" else "OSERDES2"
        ser = instances(b, of)
        ma = [x for x in ser if port(x, "OQ") is not None and same_net(port(x, "OQ"), se)]
        need(len(ma) == 1, "one serialiser drives " + nm)
        ma = ma[0]
        casc = [("SHIFTOUT1", "SHIFTIN1"), ("SHIFTOUT2", "SHIFTIN2")] if fam == "s7" else [("SHIFTOUT3", "SHIFTIN3"), ("SHIFTOUT4", "SHIFTIN4")]
        sl = [x for x in ser if port(x, casc[0][0]) is not None and same_net(port(x, casc[0][0]), port(ma, casc[0][1]))]
        need(len(sl) == 1, "a slave serialiser behind the master of " + nm)
        need(all(same_net(port(sl[0], o), port(ma, q)) for o, q in casc), "slave serialiser cascaded")
        for x, md in ((ma, "MASTER"), (sl[0], "SLAVE")):
            if fam == "s7":
                configured(b, x, [], [("DATA_WIDTH", 10), ("DATA_RATE_OQ", "DDR"), ("SERDES_MODE", md)])
            else:
                configured(b, x, [("OCE", 1), ("RST", 0), ("TRAIN", 0)] + [("T%d" % k, 0) for k in range(1, 5)],
                           [("DATA_WIDTH", 5), ("DATA_RATE_OQ", "SDR"), ("SERDES_MODE", md), ("OUTPUT_MODE", "DIFFERENTIAL")])
        if fam == "s7":
            lanes.append([port(ma, "D%d" % k) for k in range(1, 9)] + [port(sl[0], "D3"), port(sl[0], "D4")])
            lanes[-1].append([port(ma, "OCE"), port(sl[0], "OCE")])
        else:
            need(all(same_net(port(ma, o), port(sl[0], q)) for o, q in (("SHIFTOUT1", "SHIFTIN1"), ("SHIFTOUT2", "SHIFTIN2"))),
                 "master serialiser cascaded")
            lanes.append([port(sl[0], "D%d" % k) for k in range(1, 5)] + [port(ma, "D1"), []])
    return lanes


class Top(Module):
    def __init__(self, fam, mode, inv):
        from litevideo.output.hdmi.s7 import S7HDMIOutPHY
        from litevideo.output.hdmi.s6 import S6HDMIOutPHY
        self.clock_domains.cd_pix = ClockDomain(reset_less=fam == "s6")
        if fam == "s7":
            self.clock_domains.cd_pix5x = ClockDomain(reset_less=True)
        else:
            self.clock_domains.cd_pix2x = ClockDomain(reset_less=True)
            self.clock_domains.cd_pix10x = ClockDomain(reset_less=True)
        self.pads = pads(inv)
        self.submodules.phy = (S7HDMIOutPHY if fam == "s7" else S6HDMIOutPHY)(self.pads, mode)


def encoded(seq):
    """the encoder alone on (d, c, de) per cycle"""
    from litevideo.output.hdmi.encoder import Encoder
    e = Encoder()
    b = Bench(e, cut=False)
    o = []
    for d, c, de in seq:
        for s, v in ((e.d, d), (e.c, c), (e.de, de)):
            b.set(s, v)
        o.append(b.get(e.out))
        b.tick("sys")
    return o


def job(fam, mode, inv, K=7, before=0):
    m = Top(fam, mode, inv)
    doms = ["pix", "pix2x"] if fam == "s6" else ["pix"]
    b = Bench(m, domains=doms, cut=False)
    lanes = wire(b, m.pads, fam)
    s = m.phy.sink
    seq = [[], [], []]
    words = [[], [], []]
    half = [None] * 3
    if before:
        # lines of 8 pixels and 8 clocks of blanking; then the state after any of them
        snaps = []
        for t in range(16 * before):
            de = int(t % 16 < 8)
            b.set(s.de, de)
            for x in (s.c0, s.c1, s.c2) if mode == "raw" else (s.b, s.g, s.r):
                b.set(x, 37 * t & 255 if de else 0)
            b.check("always ready", eq(b.get(s.ready), 1))
            if fam == "s7":
                b.tick("pix")
            else:
                b.set(m.cd_pix.clk, 1)
                b.tick("pix2x")
                b.set(m.cd_pix.clk, 0)
                b.tick(["pix", "pix2x"])
            if t % 16 == 15:
                snaps.append(b.snap())
        r = b.solve(timeout=60, validate=0)
        if r.status != "held":
            return r
        b.jump(snaps, "lines")
    for t in range(K):
        if mode == "raw":
            for i in range(3):
                seq[i].append(bits(bv(b.inp(getattr(s, "c%d" % i)), 16), 9, 0))
            b.inp(s.de)
        else:
            px = [b.inp(x) for x in (s.b, s.g, s.r)]
            hs, vs, de = [b.inp(x) for x in (s.hsync, s.vsync, s.de)]
            for i in range(3):
                seq[i].append((px[i], z3.Concat(vs, hs) if i == 0 else bvv(0, 2), de))
        b.check("always ready", eq(b.get(s.ready), 1))
        if fam == "s7":
            for i in range(3):
                words[i].append([b.get(e) for e in lanes[i][:10]])
                if t:
                    b.check("serialisers enabled", And(*[bo(b.get(e)) for e in lanes[i][10]]))
            b.tick("pix")
        else:
            # pix rises together with pix2x; pix2x rises again at half the period, when pix is still seen high
            b.set(m.cd_pix.clk, 1)
            b.tick("pix2x")
            lo = [[b.get(e) for e in lanes[i][:5]] for i in range(3)]
            b.set(m.cd_pix.clk, 0)
            b.tick(["pix", "pix2x"])
            for i in range(3):
                words[i].append(lo[i] + [b.get(e) for e in lanes[i][:5]])
    for i in range(3):
        ref = seq[i] if mode == "raw" else encoded([(0, 0, 0)] * 8 + seq[i])[8:] if before else encoded(seq[i])
        for t in range(K):
            for k in range(10):
                want = bits(bv(ref[t], 10), k, k)
                if inv >> i & 1:
                    want = ~want
                b.check("lane %d bit %d" % (i, k), eq(bv(words[i][t][k], 1), want))
    return b.solve(timeout=300, validate=2)


class Clk(Module):
    def __init__(self, fam, kind):
        from litevideo.output.hdmi.s7 import S7HDMIOutClocking
        from litevideo.output.hdmi.s6 import S6HDMIOutClocking
        class P:
            pass
        self.pads = p = P()
        for n in ("base50", "clk100"):
            setattr(self.clock_domains, "cd_" + n, ClockDomain(n, reset_less=True))
        if kind == "single":
            p.clk = Signal()
        else:
            p.clk_p, p.clk_n = Signal(name="clk_p"), Signal(name="clk_n")
            if kind == "inverted":
                p.clk_p.inverted = True
        self.submodules.dut = (S7HDMIOutClocking if fam == "s7" else S6HDMIOutClocking)(p, None)


def clock(fam, kind):
    """the clock pad is high in the first half of the pixel period, whatever software does"""
    try:
        m = Clk(fam, kind)
    except AttributeError as e:
        # the real constructor refuses these pads
        m = Module()
        m.x = Signal()
        m.sync += m.x.eq(~m.x)
        b = Bench(m)
        b.check("the clocking can be built for %s clock pads (%s)" % (kind, e), eq(b.get(m.x), 1))
        return b.solve(validate=0)
    b = Bench(m, domains=["sys", "pix"] + (["pix2x"] if fam == "s6" else []), cut=False)
    d, p = m.dut, m.pads
    inv = kind == "inverted"
    from litex.soc.interconnect.csr import CSRStorage, CSR
    for t in range(4):
        for n, c in sorted(vars(d).items()):
            if isinstance(c, CSRStorage):
                b.inp(c.storage)
            elif isinstance(c, CSR):
                b.inp(c.re)
        ck = b.inp(d.cd_pix.clk)
        if fam == "s7" and kind == "single":
            b.check("clock pad", eq(b.get(p.clk), ck))
        elif fam == "s7":
            lane = wire(b, p, fam, ["clk"])[0]
            for k in range(10):
                b.check("clock bit %d" % k, eq(bv(b.get(lane[k]), 1), int((k < 5) != inv)))
        else:
            o = instances(b, "ODDR2")
            assert len(o) == 1
            q = b.inp(port(o[0], "Q"), "Q")
            if kind == "single":
                b.check("clock pad", eq(b.get(p.clk), q))
            else:
                buf = [x for x in instances(b, "OBUFDS") if same_net(port(x, "O"), p.clk_p)]
                assert len(buf) == 1 and same_net(port(buf[0], "OB"), p.clk_n)
                b.check("clock pad", eq(bv(b.get(port(buf[0], "I")), 1), q))
            c0, c1 = bv(b.get(port(o[0], "C0")), 1), bv(b.get(port(o[0], "C1")), 1)
            b.check("clocked by the pixel clock", And(c0 == ck, c1 == ~ck))
            b.check("level of the halves", And(eq(b.get(port(o[0], "D0")), int(not inv)), eq(b.get(port(o[0], "D1")), int(inv))))
            b.check("enabled", And(eq(b.get(port(o[0], "CE")), 1), eq(b.get(port(o[0], "R")), 0), eq(b.get(port(o[0], "S")), 0)))
        b.tick("sys")
    return b.solve(timeout=100, validate=1)


def jobs(tier):
    return [{"name": "clock pad %s %s" % (f, k), "func": guarded(clock), "kw": {"fam": f, "kind": k}} for f in ("s7", "s6")
            for k in ("differential", "inverted", "single")] + [{"name": "%s %s inverted=%d" % (f, mo, i), "func": guarded(job), "kw": {"fam": f, "mode": mo, "inv": i}}
            for f in ("s7", "s6") for mo, i in (("rgb", 0), ("rgb", 5), ("raw", 0), ("raw", 2))] + \
        [{"name": "%s %s after many lines" % (f, mo), "func": guarded(job), "kw": {"fam": f, "mode": mo, "inv": 0, "before": 512}}
         for f in ("s7", "s6") for mo in ("rgb", "raw")]
