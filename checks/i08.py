"""Capture end to end: two small frames of symbolic pixels are received as TMDS words by the whole HDMI/DVI receiver and
captured by its DMA into the slots software armed (real CSR bank); every word written to memory is compared with the pixels
of its place."""
import random
import z3
from checks.hin import *
from checks.i01 import feed

FUNCTIONS = ["litevideo.input.HDMIIn with dram_port (receiver, FrameExtraction, RGB2YCbCr, YCbCr444to422, DMA, CSR bank)"]
BOUNDS = ("two frames of 2 lines x 4 pixels (the second changes one line length), rgb and 4:2:2, DVI and HDMI framing, words of 64 bits, "
          "any slot address, six bits of every colour word symbolic (rgb) / fixed random colours (4:2:2), memory stalls fixed patterns")
ASSUMPTIONS = ["Migen simulator semantics of the design", "vendor deserialiser and clocking primitives replaced by word inputs",
               "pixel and system clocks tick together; at least 20 words between the last active word and vsync"]
AWD = 20


class Top(Module):
    def __init__(self, **kw):
        from litedram.common import LiteDRAMNativePort
        from litex.soc.interconnect.csr_bus import CSRBank, Interface
        self.port = LiteDRAMNativePort("write", AWD, 64)
        self.submodules.h = hdmi_in(self.port, fifo_depth=8, **kw)
        self.bus = Interface(data_width=32)
        self.csrs = self.h.dma.get_csrs()
        self.submodules.bank = CSRBank(self.csrs, bus=self.bus)

    def adr(self, csr):
        for i, c in enumerate(self.bank.simple_csrs):
            if c in csr.simple_csrs:
                return i


def pixel(b, rnd):
    """a data word; equal neighbours at bits 0, 1 and 5, 6 keep every ten-bit window of the stream from being a control
    word, so that the control path of the run stays concrete"""
    if b is None:
        return rnd.getrandbits(3) << 7 | rnd.getrandbits(3) << 2 | 3
    return z3.Concat(b.var("px", 3), bvv(0, 2), b.var("px", 3), bvv(3, 2))


def sequence(b, mode, hdmi, dvimode, lines, pol):
    """words per cycle; per frame its list of pixels"""
    seq, frames = [], []
    hs, vs = pol & 1, pol >> 1
    rnd = random.Random(5)

    def blank(k, pre=0, v=0):
        for i in range(k):
            h = hs ^ (1 if 3 <= i < 6 else 0)
            c0 = (vs ^ (1 if v and 20 <= i < 20 + v else 0)) << 1 | h
            seq.append((CTL[c0], CTL[0] if i < k - pre else CTL[1], CTL[0]))
        if hdmi and not dvimode and pre:
            seq.extend([tuple(VGB)] * 2)
    blank(16, 8)
    seq.extend([(0b0111110000,) * 3] * 20)
    blank(24, 8)
    seq.extend([(0b0111110000,) * 3] * 20)
    start = len(seq) + 10
    for f in lines:
        blank(50, 8, v=5)
        pix = []
        for n in f:
            for i in range(n):
                w = tuple(pixel(b if mode == "rgb" else None, rnd) for k in range(3))
                seq.append(w)
                pix.append(w)
            blank(26, 8)
        frames.append(pix)
    blank(60)
    return seq, frames, start


def reference(mode, pix):
    """memory words of a frame"""
    out = []
    if mode == "rgb":
        p = [z3.Concat(bvv(0, 8), *[bv(dvi_decode(x[k]), 8) for k in (2, 1, 0)]) for x in pix]
        return [z3.Concat(p[i], p[i + 1]) for i in range(0, len(p), 2)]
    from litevideo.csc.rgb2ycbcr import RGB2YCbCr
    from fv.stream import isolated
    d = RGB2YCbCr()
    c = []
    for x in pix:
        b = Bench(d)
        isolated(b, d.sink, d.source, {k: dvi_decode(x[i]) for k, i in (("r", 2), ("g", 1), ("b", 0))})
        c.append([b.peek(getattr(d.source, k)) for k in ("y", "cb", "cr")])
    h = []
    for i in range(0, len(c), 2):
        cb, cr = (c[i][1] + c[i + 1][1]) >> 1, (c[i][2] + c[i + 1][2]) >> 1
        h += [cb << 8 | c[i][0], cr << 8 | c[i + 1][0]]
    return [bvv(h[i] << 48 | h[i + 1] << 32 | h[i + 2] << 16 | h[i + 3], 64) for i in range(0, len(h), 4)]


def job(mode, hdmi, dvimode, pol, off, stall):
    m = Top(mode=mode, hdmi=hdmi)
    b = Bench(m, domains=DOM)
    h = m.h
    if hdmi:
        b.set(h.decode_terc4.dvimode.storage, 1 if dvimode else 0)
    lines = ((4, 4), (4, 4)) if mode == "rgb" else ((8, 8), (8, 8))
    seq, frames, t0 = sequence(b, mode, hdmi, dvimode, lines, pol)
    seq = [(w,) for w in seq]
    refs = [reference(mode, f) for f in frames]
    nw = len(refs[0])
    assert all(len(r) == nw for r in refs)
    slots = [h.dma._slot_array.slot0, h.dma._slot_array.slot1]
    base = [b.var("slot%d" % i, AWD) for i in (0, 1)]
    b.assume(base[0] - base[1] > 16)
    prog = [(h.dma._frame_size, nw * 8)]
    for i in (0, 1):
        prog += [(slots[i]._address, z3.ZeroExt(32 - AWD - 3, z3.Concat(base[i], bvv(0, 3)))), (slots[i]._status, 1)]
    p = m.port
    ncmd = ndat = bvv(0, 8)
    for t in range(len(seq)):
        now = t0 <= t < t0 + len(prog)
        if now:
            b.set(m.bus.adr, m.adr(prog[t - t0][0]))
            b.set(m.bus.dat_w, prog[t - t0][1])
        b.set(m.bus.we, int(now))
        feed(b, h, seq, (0, 0, 0), t, off)
        b.set(p.cmd.ready, 0 if stall and t % stall else 1)
        b.set(p.wdata.ready, 0 if stall and (t + 1) % stall else 1)
        c = And(b.get(p.cmd.valid), b.peek(p.cmd.ready))
        for f in range(2):
            for k in range(nw):
                n = f * nw + k
                b.check("word %d of frame %d goes to its place" % (k, f),
                        Implies(And(c, ncmd == n), And(eq(b.get(p.cmd.we), 1), eq(bv(b.get(p.cmd.addr), AWD), base[f] + k))))
        b.check("nothing else is written", Implies(c, z3.ULT(ncmd, 2 * nw)))
        ncmd = z3.simplify(ncmd + bv(c, 8))
        w = And(b.get(p.wdata.valid), b.peek(p.wdata.ready))
        for f in range(2):
            for k in range(nw):
                b.check("content of word %d of frame %d" % (k, f),
                        Implies(And(w, ndat == f * nw + k), eq(b.get(p.wdata.data), refs[f][k])))
        b.check("all bytes of a word", Implies(w, eq(b.get(p.wdata.we), 0xff)))
        ndat = z3.simplify(ndat + bv(w, 8))
        if t == t0 + len(prog):
            for i in (0, 1):
                b.check("slot %d armed" % i, eq(b.get(slots[i]._status.storage), 1))
        b.tick(DOM)
    b.check("both frames are in memory", And(ncmd == 2 * nw, ndat == 2 * nw))
    for i in (0, 1):
        b.check("slot %d done" % i, eq(b.get(slots[i]._status.storage), 2))
    if mode == "rgb":
        b.cover("a red pixel", z3.And(z3.UGT(bits(refs[1][0], 23, 16), 128), bits(refs[1][0], 15, 12) == 0))
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    o = []
    kinds = [("dvi", False, False), ("hdmi", True, False), ("hdmi in dvi mode", True, True)]
    n = 0
    for mode in ("rgb", "ycbcr422"):
        for nm, h, d in kinds:
            n += 1
            for k in ([n] if tier != "thorough" else range(n, n + 8, 2)):
                off = (k % 10, (3 * k + 1) % 10, (7 * k + 2) % 10)
                o.append({"name": "%s %s polarity %d stall %d bits %d%d%d" % ((mode, nm, k % 4, (0, 3, 2)[k % 3]) + off), "func": job,
                          "kw": dict(mode=mode, hdmi=h, dvimode=d, pol=k % 4, off=off, stall=(0, 3, 2)[k % 3])})
    return o
