"""HDMI/DVI receiver end to end (word capture replaced by plain inputs): after the channels are synchronised, a line of
symbolic pixels leaves the receiver as exactly that line on r, g, b while de is set, with the right syncs."""
import z3
from checks.hin import *

FUNCTIONS = ["litevideo.input.HDMIIn (CharSync, Decoding, ChanSync, DecodeTERC4, TimingDelayChannel, SyncPolarity)"]
BOUNDS = ("lines of 8 pixels of any colour, each of the ten bit offsets on each channel (ten combinations), skew 0..2 words, "
          "hsync/vsync of either polarity; HDMI lines between data islands of 8 (quick) / 32 (thorough) words of any content")
ASSUMPTIONS = ["Migen simulator semantics of the design", "vendor deserialiser and clocking primitives replaced by word "
               "inputs", "words of the active line are words a DVI transmitter sends", "syncs do not change within a data island"]


def legal(w):
    """a word a transmitter may send for some byte: the transition-minimising choice of bit 8"""
    d = dvi_decode(w)
    ones = sum([z3.ZeroExt(3, bits(d, i, i)) for i in range(8)], bvv(0, 4))
    xnor = z3.Or(z3.UGT(ones, 4), z3.And(ones == 4, bits(d, 0, 0) == 0))
    return z3.Not(bit(w, 8)) == xnor


TERC4 = [0b1010011100, 0b1001100011, 0b1011100100, 0b1011100010, 0b0101110001, 0b0100011110, 0b0110001110, 0b0100111100,
         0b1011001100, 0b0100111001, 0b0110011100, 0b1011000110, 0b1010001110, 0b1001110001, 0b0101100011, 0b1011000011]


def terc4(v):
    """HDMI 1.3 table 5-36 / section 5.4.3"""
    if isinstance(v, int):
        return TERC4[v]
    r = bvv(TERC4[0], 10)
    for i in range(1, 16):
        r = z3.If(v == i, bvv(TERC4[i], 10), r)
    return r


def island(b, seq, hs, vs, n):
    """a data island during blanking: preamble, guard bands and n words of any content, syncs in channel 0"""
    c0 = z3.Concat(vs, hs) if b is not None else vs << 1 | hs
    seq.extend([((ctl_word(c0), CTL[1], CTL[1]), c0)] * 8)
    gb = 0b0100110011
    one = lambda x, y: terc4(z3.Concat(bvv(y, 1) if isinstance(y, int) else y, bvv(x, 1) if isinstance(x, int) else x, vs, hs)
                             if b is not None else y << 3 | x << 2 | vs << 1 | hs)
    for i in range(n + 4):
        if 2 <= i < n + 2:
            x, y = (b.var("header", 1) if b is not None else 1), int(i != 2)
            w = (one(x, y),) + tuple(terc4(b.var("packet", 4)) if b is not None else TERC4[(7 * i + 3 * k) % 16] for k in (1, 2))
        else:
            w = (one(1, 1), gb, gb)
        seq.append((w, "island"))


def sequence(b, hdmi, dvimode, n, isl=0):
    """(words, control code) per cycle; b None: a concrete instance"""
    one = b is not None
    hs, vs = (b.var("hsync_idle", 1), b.var("vsync_idle", 1)) if one else (0, 0)
    pulse = [b.var("hsync_pulse", 1) if one else 0 for i in range(6)]
    seq = []

    def blank(k, pre, pulses=()):
        for i in range(k):
            h = hs
            if 2 <= i < 2 + len(pulses):
                h = h ^ pulses[i - 2]
            c0 = z3.Concat(vs, h) if one else (vs << 1 | h)
            seq.append(((ctl_word(c0), CTL[0] if i < k - pre else CTL[1], CTL[0]), c0))
        if hdmi and not dvimode and pre:
            seq.extend([(tuple(VGB), None)] * 2)

    blank(16, 8)
    seq.extend([((0b0111110000,) * 3, None)] * 20)
    if isl:
        blank(24, 8)
        seq.extend([((0b0111110000,) * 3, None)] * 20)
        blank(14, 0)
        island(b, seq, hs, vs, isl)
        blank(12, 0)
    blank(24, 8)
    start = len(seq)
    pix = []
    for i in range(n):
        w = tuple(b.var("pix%d" % k, 10) for k in range(3)) if one else (0b0111110000,) * 3
        if one:
            for x in w:
                b.assume(z3.Not(is_ctl(x)))
                b.assume(legal(x))
        seq.append((w, None))
        pix.append(w)
    if one and hdmi and not dvimode:
        b.assume(z3.Not(z3.And(*[x == g for x, g in zip(pix[0], VGB)])))
    blank(30, 0, pulse)
    if isl:
        island(b, seq, hs, vs, isl)
        blank(12, 0, pulse)
    return seq, start, pix, (hs, vs, pulse)


def feed(b, m, seq, skew, t, off=(0, 0, 0)):
    """the words of the deserialisers, each cut off[i] bits late"""
    for i in range(3):
        k = t - skew[i]
        w = seq[k][0][i] if k >= 0 else CTL[0]
        p = seq[k - 1][0][i] if k >= 1 else CTL[0]
        o = off[i]
        if o and isinstance(w, int) and isinstance(p, int):
            w = (w << o | p >> (10 - o)) & 0x3ff
        elif o:
            w = z3.Concat(bits(bv(w, 10), 9 - o, 0), bits(bv(p, 10), 9, 10 - o))
        b.set(getattr(m, "data%d_cap" % i).d, w)


def bench(m, hdmi, dvimode):
    b = Bench(m, domains=DOM)
    if hdmi:
        b.set(m.decode_terc4.dvimode.storage, 1 if dvimode else 0)
    return b


def line(hdmi, dvimode, n, skew=(0, 0, 0), off=(0, 0, 0), isl=0):
    m = hdmi_in(hdmi=hdmi)
    # delay of the whole receiver, from a concrete run: end of the active run
    b = bench(m, hdmi, dvimode)
    seq, start, _, _ = sequence(None, hdmi, dvimode, n, isl)
    last = None
    for t in range(len(seq)):
        feed(b, m, seq, skew, t, off)
        b.tick(DOM)
        if b.get(m.syncpol.de) == 1 and t >= start:
            last = t
    b = bench(m, hdmi, dvimode)
    b.check("the line is received", last is not None)
    if last is None:
        return b.solve(validate=0)
    lat = last - (start + n - 1)
    seq, start, pix, (hs, vs, pulse) = sequence(b, hdmi, dvimode, n, isl)
    for t in range(len(seq)):
        feed(b, m, seq, skew, t, off)
        b.tick(DOM)
        j = t - start - lat
        s = m.syncpol
        if isl and -isl - 24 <= j < -3:
            b.check("no picture in an island", eq(b.get(s.de), 0))
            b.check("no sync in an island without one", And(eq(b.get(s.hsync), 0), eq(b.get(s.vsync), 0)))
            continue
        if j < -3 or t < start:
            continue
        b.check("de covers exactly the line", Iff(b.get(s.de), 0 <= j < n))
        b.check("input valid", eq(b.get(s.valid_o), 1))
        if 0 <= j < n:
            for x, ch in ((s.r, 2), (s.g, 1), (s.b, 0)):
                b.check("pixel %d colour" % j, eq(b.get(x), dvi_decode(pix[j][ch])))
        elif n < j:
            ref = z3.Concat(vs, hs) if isinstance(seq[start + j][1], str) else seq[start + j][1]
            ref = ref ^ z3.Concat(vs, hs)
            b.check("hsync active-high", Iff(b.get(s.hsync), bit(ref, 0)))
            b.check("vsync active-high", Iff(b.get(s.vsync), bit(ref, 1)))
    b.cover("a pulse", pulse[1] == 1)
    return b.solve(timeout=300, validate=1)


def jobs(tier):
    js = []
    kinds = (("dvi-receiver", False, False), ("hdmi-receiver", True, False), ("hdmi-receiver-dvi-mode", True, True))
    for k in range(10):
        for j, (nm, h, d) in enumerate(kinds):
            if tier != "thorough" and j != k % 3:
                continue
            sk = ((0, 0, 0), (2, 0, 1))[k % 2]
            off = (k, (k + 3) % 10, (k + 7) % 10)
            js.append({"name": "%s skew%d%d%d bits%d%d%d" % ((nm,) + sk + off), "func": line,
                       "kw": {"hdmi": h, "dvimode": d, "n": 16 if tier == "thorough" else 8, "skew": sk, "off": off}})
    for k, (o, sk) in enumerate((((0, 0, 0), (0, 0, 0)), ((3, 7, 8), (1, 0, 2)))):
        js.append({"name": "hdmi-receiver with data islands skew%d%d%d bits%d%d%d" % (sk + o), "func": line,
                   "kw": {"hdmi": True, "dvimode": False, "n": 8, "skew": sk, "off": o, "isl": 32 if tier == "thorough" else 8}})
    return js
