"""HDMI period decoding: after any received history, a control period / preamble / guard band / data island or video
period built to HDMI 1.3 with symbolic lengths and contents drives the period flags exactly over the words they name;
TERC4 words decode to their nibble; DVI mode follows channel 0's data enable."""
import z3
from migen import *
from fv.bench import *
from fv.pipe import havoc

FUNCTIONS = ["litevideo.input.decoding.DecodeTERC4", "litevideo.input.decoding.DecodeTERC4Channel"]
BOUNDS = ("4 words of any history from reset, 4 control words, 8-word preamble, guard band, 1..7 video pixels or island "
          "words with symbolic content, symbolic length; all TERC4 words; every single word after any history; video periods of any length up to 4095 and islands of any length up to 1023 words")
ASSUMPTIONS = ["Migen simulator semantics of the design"]
CTL = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]
VGB = [0b1011001100, 0b0100110011, 0b1011001100]
DGB = 0b0100110011
TERC4 = [0b1010011100, 0b1001100011, 0b1011100100, 0b1011100010, 0b0101110001, 0b0100011110, 0b0110001110,
         0b0100111100, 0b1011001100, 0b0100111001, 0b0110011100, 0b1011000110, 0b1010001110, 0b1001110001,
         0b0101100011, 0b1011000011]
DOM = ["pix", "sys"]


def mk():
    from litevideo.input.decoding import DecodeTERC4
    return ClockDomainsRenamer({"sys": "pix"})(DecodeTERC4())


def ctl(c):
    e = bvv(CTL[0], 10)
    for i in range(1, 4):
        e = z3.If(c == i, bvv(CTL[i], 10), e)
    return e


def terc4(n):
    e = bvv(TERC4[0], 10)
    for i in range(1, 16):
        e = z3.If(n == i, bvv(TERC4[i], 10), e)
    return e


def legal_data(b, w):
    b.assume(z3.And(*[w != c for c in CTL]))


def put(b, m, ws, de=None):
    for i in range(3):
        r = getattr(m, "data_in%d" % i)
        b.set(r.raw, ws[i])
        if de is not None:
            b.set(r.de, de)


def latency(kind):
    """measured on a concrete run: words from the first payload word to its flag"""
    m = mk()
    b = Bench(m, domains=DOM)
    b.set(m.valid_i, 1)
    ws = sequence(kind, None, 4)
    n = None
    for t, (w, tag) in enumerate(ws + [(tuple(CTL[0] for _ in range(3)), "c")] * 8):
        if tag == "p" and n is None:
            n = t
        put(b, m, w)
        b.peek(m.de_hdmi)
        f = m.de_hdmi if kind == "video" else m.encrypting_data
        if b.get(f) == 1:
            return (t - n) if n is not None else None
        b.tick(DOM)
    return None


def sequence(kind, b, n):
    r = []

    def c(name):
        return b.var(name, 2) if b else None

    for i in range(4):
        r.append((tuple(ctl(b.var("c", 2)) if b else CTL[0] for _ in range(3)), "c"))
    for i in range(8):
        h = ctl(b.var("hv", 2)) if b else CTL[0]
        r.append(((h, CTL[1], CTL[0] if kind == "video" else CTL[1]), "c"))
    for i in range(2):
        if kind == "video":
            r.append((tuple(VGB), "g"))
        else:
            h = terc4(z3.Concat(bvv(3, 2), b.var("hv", 2))) if b else TERC4[12]
            r.append(((h, DGB, DGB), "g"))
    for i in range(n):
        if b is None:
            r.append((tuple((0b0111110000 if kind == "video" else TERC4[5]) for _ in range(3)), "p"))
        elif kind == "video":
            w = [b.var("pix%d" % k, 10) for k in range(3)]
            for x in w:
                legal_data(b, x)
            if i == 0:
                # two guard band words are followed by a pixel that is not a third one
                b.assume(z3.Not(z3.And(*[x == g for x, g in zip(w, VGB)])))
            r.append((tuple(w), "p"))
        else:
            r.append((tuple(terc4(b.var("nib%d" % k, 4)) for k in range(3)), "p"))
    if kind != "video":
        for i in range(2):
            h = terc4(z3.Concat(bvv(3, 2), b.var("hv", 2))) if b else TERC4[12]
            r.append(((h, DGB, DGB), "t"))
    return r


def period(kind, n):
    L = latency(kind)
    m = mk()
    b = Bench(m, domains=DOM)
    b.check("the period is recognised", L is not None and L >= 0)
    if L is None or L < 0:
        return b.solve(validate=0)
    b.set(m.valid_i, 1)
    for t in range(4):
        put(b, m, [b.var("history", 10) for i in range(3)])
        b.inp(m.valid_i, "history")
        b.tick(DOM)
    b.set(m.valid_i, 1)
    seq = sequence(kind, b, n)
    end = b.var("length", 3)
    b.assume(z3.ULE(end, n - 1 if kind == "video" else n))
    first = [i for i, (w, k) in enumerate(seq) if k == "p"][0]
    tail = 8
    tags = []
    for t in range(len(seq) + tail):
        if t < len(seq):
            w, k = seq[t]
        else:
            w, k = tuple(ctl(b.var("c", 2)) for i in range(3)), "c"
        if kind == "video" and k == "p":
            # symbolic length: pixels past the end are control words
            over = z3.UGT(bvv(t - first, 3), end)
            w = tuple(z3.If(over, ctl(b.var("c", 2)), x) for x in w)
            tags.append(("p", Not(over)))
        else:
            tags.append((k, True))
        put(b, m, w)
        if t >= L:
            k0, live = tags[t - L]
            vid = live if (k0 == "p" and kind == "video") else False
            isl = True if (k0 == "p" and kind != "video") else False
            if t - L >= 3:
                b.check("data enable covers exactly the pixels", Iff(b.get(m.de_hdmi), vid))
                b.check("video decryption covers exactly the pixels", Iff(b.get(m.encrypting_video), vid))
                b.check("data decryption covers exactly the island", Iff(b.get(m.encrypting_data), isl))
                if k0 in "pc":
                    b.check("island flag", Iff(b.get(m.encoding_terc4), isl))
        b.tick(DOM)
    b.cover("short and long", Or(end == 1, end == n - 1))
    return b.solve(timeout=400, validate=1)


def long_(kind, n):
    """a period of any length up to n words, then its end and another control period"""
    L = latency(kind)
    m = mk()
    b = Bench(m, domains=DOM)
    b.check("the period is recognised", L is not None and L >= 0)
    if L is None or L < 0:
        return b.solve(validate=0)
    b.set(m.valid_i, 1)
    seq = sequence(kind, None, n)
    if kind != "video":
        seq = seq[:-2]
    flags = [m.encrypting_video, m.de_hdmi] if kind == "video" else [m.encrypting_data, m.encoding_terc4]
    snaps = []
    for t, (w, k) in enumerate(seq):
        put(b, m, w)
        if t >= L:
            k0 = seq[t - L][1]
            for f in flags:
                if kind == "video" or f is flags[0] or k0 in "pc":
                    b.check("flag over the whole period", eq(b.get(f), int(k0 == "p")))
        b.tick(DOM)
        if k == "p" and seq[max(0, t - L - 1)][1] == "p":
            snaps.append(b.snap())
    r = b.solve(timeout=100, validate=0)
    if r.status != "held":
        return r
    b.jump(snaps, "length")
    tail = [True] * L
    for t in range(L + 8):
        if kind == "video":
            w, k = ([b.var("pix%d" % i, 10) for i in range(3)], True) if t < 2 else ([ctl(b.var("c", 2)) for i in range(3)], False)
            if k:
                for x in w:
                    legal_data(b, x)
        elif t < 2:
            w, k = [terc4(b.var("nib%d" % i, 4)) for i in range(3)], True
        elif t < 4:
            w, k = [terc4(z3.Concat(bvv(3, 2), b.var("hv", 2))), DGB, DGB], False
        else:
            w, k = [ctl(b.var("c", 2)) for i in range(3)], False
        put(b, m, w)
        tail.append(k)
        k0 = tail[t]
        for f in flags:
            if kind == "video" or f is flags[0] or t - L not in (2, 3):
                b.check("flag covers exactly the period", Iff(b.get(f), k0))
        b.tick(DOM)
    return b.solve(timeout=300, validate=1, by_frame=True)


def nibbles():
    m = mk()
    b = Bench(m, domains=DOM)
    havoc(b)
    n = [b.var("n%d" % i, 4) for i in range(3)]
    put(b, m, [terc4(x) for x in n])
    b.set(m.valid_i, 1)
    b.tick(DOM)
    for i in range(3):
        b.check("TERC4 nibble of channel %d" % i, eq(b.get(getattr(m, "data%d_dect4" % i).decval.d), n[i]))
    return b.solve(timeout=100, validate=2)


def words():
    """one word after any history: control words, guard bands and everything else are told apart on every channel"""
    m = mk()
    b = Bench(m, domains=DOM)
    havoc(b)
    ws = [b.var("w%d" % i, 10) for i in range(3)]
    put(b, m, ws)
    ok = b.inp(m.valid_i, "valid")
    b.tick(DOM)
    for i in range(3):
        o = getattr(m, "data%d_dect4" % i).decval
        w = ws[i]
        for n in ("c_valid", "vgb", "dgb", "de"):
            b.check("channel %d: nothing flagged (%s) while the link is not valid" % (i, n), Implies(Not(ok), eq(b.get(getattr(o, n)), 0)))
        isc = Or(*[w == c for c in CTL])
        v, d = w == VGB[i], w == DGB
        b.check("channel %d: control words flagged" % i, Implies(ok, Iff(b.get(o.c_valid), isc)))
        for k, c in enumerate(CTL):
            b.check("channel %d: control code %d" % (i, k), Implies(And(ok, w == c), eq(b.get(o.c), k)))
        b.check("channel %d: video guard band flagged" % i, Implies(ok, Iff(b.get(o.vgb), v)))
        b.check("channel %d: data guard band flagged" % i, Implies(ok, Iff(b.get(o.dgb), d)))
        b.check("channel %d: other words are data" % i, Implies(ok, Iff(b.get(o.de), Not(Or(isc, v, d)))))
    b.cover("control, guard band and data", And(ws[0] == CTL[2], ws[1] == DGB, ws[2] == 0))
    return b.solve(timeout=100, validate=2)


def dvi():
    """DVI mode: de_o is channel 0's data enable, as late as the HDMI data enable is"""
    m = mk()
    b = Bench(m, domains=DOM)
    L = latency("video")
    b.set(m.dvimode.storage, 1)
    for i in range(4):
        b.tick(DOM)
    hist = []
    for t in range(8):
        if L is not None and t >= L:
            b.check("de_o follows de", Iff(b.get(m.de_o), hist[t - L]))
        hist.append(b.inp(m.data_in0.de, "de"))
        b.inp(m.data_in0.raw)
        b.inp(m.valid_i)
        b.tick(DOM)
    b2 = Bench(m, domains=DOM)
    b.check("period recognised", L is not None)
    return b.solve(timeout=100, validate=1)


def jobs(tier):
    n = 7
    return [{"name": "video-period", "func": period, "kw": {"kind": "video", "n": n}},
            {"name": "data-island", "func": period, "kw": {"kind": "island", "n": n}},
            {"name": "terc4", "func": nibbles}, {"name": "single words", "func": words}, {"name": "dvi-mode", "func": dvi},
            {"name": "video period of any length", "func": long_, "kw": {"kind": "video", "n": 4095}},
            {"name": "data island of any length", "func": long_, "kw": {"kind": "island", "n": 1023}}]
