"""Receiver of each FPGA family with its real clocking and deserialisers: symbolic pixels enter as the serial bits on the pads of
the three data lanes (at the outputs of the vendor's input serialisers) and must leave as that line on red, green and blue."""
import z3
from fv.inst import instances, port, param, same_net
from checks.hin import *
from checks.i01 import sequence
from checks.i06 import Miswired, need, guarded, edges, drive, schedule

FUNCTIONS = ["litevideo.input.HDMIIn on both families (S6DataCapture, S7DataCapture, S6Clocking, S7Clocking and the whole receiver)"]
BOUNDS = ("lines of 8 (quick) / 16 (thorough) pixels of any colour; a constant bit offset and word skew per lane, 7-series: three phases "
          "of the 5:4 clocks; lanes with and without inverted pads")
ASSUMPTIONS = ["Migen simulator semantics of the design", "words of the active line are words a DVI transmitter sends",
               "bit order of ISERDES outputs as in I06; clocks locked"]


class _Pad:
    pass


class Top(Module):
    def __init__(self, fam, inv, hdmi, **kw):
        from litevideo.input import HDMIIn
        p = self.pads = _Pad()
        for n in ("clk", "data0", "data1", "data2"):
            for s in "pn":
                setattr(p, n + "_" + s, Signal(name=n + "_" + s))
        for i in range(3):
            if inv >> i & 1:
                getattr(p, "data%d_p" % i).inverted = True
        self.submodules.h = HDMIIn(p, device="xc" + fam[1], hdmi=hdmi, **kw)
        self.fam = fam


def behind(b, net, of, i):
    x = [p for p in instances(b, of) if port(p, i) is not None and same_net(port(p, i), net)]
    need(len(x) >= 1, "%s behind the pad" % of)
    return x


def lane(b, m, k):
    """bits of one deserialiser word in order of arrival, lines of the slave (7-series)"""
    p, n = getattr(m.pads, "data%d_p" % k), getattr(m.pads, "data%d_n" % k)
    of = "IBUFDS_DIFF_OUT" if m.fam == "s7" else "IBUFDS"
    buf = behind(b, p, of, "I")[0]
    need(same_net(port(buf, "IB"), n), "both pads reach the input buffer")
    if m.fam == "s7":
        r = []
        for o in ("O", "OB"):
            d = behind(b, port(buf, o), "IDELAYE2", "IDATAIN")[0]
            s = behind(b, port(d, "DATAOUT"), "ISERDESE2", "DDLY")[0]
            r.append([port(s, "Q%d" % j) for j in range(8, 0, -1)])
        return r
    se = {}
    for d in behind(b, port(buf, "O"), "IODELAY2", "IDATAIN"):
        s = behind(b, port(d, "DATAOUT"), "ISERDES2", "D")[0]
        se[param(s, "SERDES_MODE")] = s
    need(sorted(se) == ["MASTER", "SLAVE"], "two serialisers behind the pad")
    return [[port(se["SLAVE"], "Q4")] + [port(se["MASTER"], "Q%d" % j) for j in range(1, 5)]]


def bench(m, hdmi, dvimode):
    m.finalize()
    doms = sorted({cd.name for cd in m._fragment.clock_domains} | {"sys"})
    b = Bench(m, domains=doms, cut=False)
    cds = {cd.name: cd for cd in b.design.cds}
    base = ["sys", "pix", "pix2x"] if m.fam == "s6" else ["sys", "pix", "pix1p25x"]
    b.group = {d: [d] for d in base}
    for d in base:
        for e in base:
            if e in cds:
                b.sym.set(cds[e].clk, int(e == d))
        for n, cd in cds.items():
            if n not in base and b.sym.get(cd.clk) == 1:
                b.group[d].append(n)
    for e in base:
        if e in cds:
            b.sym.set(cds[e].clk, 0)
    if m.fam == "s6":
        for i in instances(b, "BUFPLL"):
            b.set(port(i, "LOCK"), 1)
    for i in instances(b, "MMCME2_ADV") + instances(b, "PLL_ADV"):
        b.set(port(i, "LOCKED"), 1)
    if hdmi:
        b.set(m.h.decode_terc4.dvimode.storage, 1 if dvimode else 0)
    return b


def run(m, b, seq, skew, off, phase, inv, each):
    """seq: words of the three lanes per pixel; each(t) after every pixel clock"""
    fast = "pix2x" if m.fam == "s6" else "pix1p25x"
    bits_ = []
    for i in range(3):
        s = [0] * (off[i] + 10 * skew[i])
        for w in seq:
            x = w[0][i] ^ (0x3ff if inv >> i & 1 else 0) if isinstance(w[0][i], int) else (~w[0][i] if inv >> i & 1 else w[0][i])
            s += [x >> k & 1 if isinstance(x, int) else bits(x, k, k) for k in range(10)]
        bits_.append(s)
    nets = [lane(b, m, i) for i in range(3)]
    n = len(nets[0][0])
    pos = 0
    t = 0

    def feed():
        nonlocal pos
        for i in range(3):
            w = (bits_[i][pos:pos + n] + [0] * n)[:n]
            drive(b, nets[i][0], w)
            for x in nets[i][1:]:
                drive(b, x, [1 ^ y if isinstance(y, int) else ~y for y in w])
        pos += n
    feed()
    for doms in schedule(m.fam, len(seq), phase):
        edges(b, *sorted(doms | ({"sys"} if "pix" in doms else set())))
        if fast in doms:
            feed()
        if "pix" in doms:
            each(t)
            t += 1


def job(fam, inv, hdmi, dvimode, n, skew, off, phase=0):
    m = Top(fam, inv, hdmi)
    s = m.h.syncpol
    b = bench(m, hdmi, dvimode)
    seq, start, _, _ = sequence(None, hdmi, dvimode, n)
    de = []
    run(m, b, seq, skew, off, phase, inv, lambda t: de.append(b.get(s.de)))
    last = max([t for t in range(start, len(de)) if de[t] == 1], default=None)
    b = bench(m, hdmi, dvimode)
    b.check("the line is received", last is not None)
    if last is None:
        return b.solve(validate=0)
    lat = last - (start + n - 1)
    seq, start, pix, (hs, vs, pulse) = sequence(b, hdmi, dvimode, n)

    def each(t):
        j = t - start - lat
        if j < -3 or t < start:
            return
        b.check("de covers exactly the line", Iff(b.get(s.de), 0 <= j < n))
        b.check("input valid", eq(b.get(s.valid_o), 1))
        if 0 <= j < n:
            for x, ch in ((s.r, 2), (s.g, 1), (s.b, 0)):
                b.check("pixel %d colour" % j, eq(b.get(x), dvi_decode(pix[j][ch])))
        elif n < j:
            ref = seq[start + j][1] ^ z3.Concat(vs, hs)
            b.check("hsync active-high", Iff(b.get(s.hsync), bit(ref, 0)))
            b.check("vsync active-high", Iff(b.get(s.vsync), bit(ref, 1)))
    run(m, b, seq, skew, off, phase, inv, each)
    b.cover("a pulse", pulse[1] == 1)
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    n = 16 if tier == "thorough" else 8
    js = []
    for fam in ("s6", "s7"):
        for k, (inv, hdmi, dvi, skew, off, ph) in enumerate((
                (0, False, False, (0, 0, 0), (0, 3, 7), 0), (2, True, False, (1, 0, 0), (4, 4, 9), 3),
                (5, True, True, (0, 2, 1), (8, 1, 6), -5))):
            js.append({"name": "%s %s inverted=%d" % (fam, ("dvi", "hdmi", "hdmi, dvi mode")[k], inv), "func": guarded(job),
                       "kw": dict(fam=fam, inv=inv, hdmi=hdmi, dvimode=dvi, n=n, skew=skew, off=off, phase=ph)})
    return js
