"""Frame extraction: symbolic data enable / vsync / pixels; the stream of memory words is compared with the definition
(pixels of a frame packed in order, first pixel in the most significant slot, start-of-frame on the first word after
each vsync, an incomplete word discarded at the next vsync)."""
import random
import z3
from migen import *
from fv.bench import *

FUNCTIONS = ["litevideo.input.analysis.FrameExtraction (rgb and ycbcr422, word widths 2, 4 (and 8) pixels)",
             "RGB2YCbCr, YCbCr444to422, stream.AsyncFIFO inside it"]
BOUNDS = ("every de/vsync/valid/pixel sequence of 12 (quick) / 18 (thorough) cycles from reset in rgb mode; every line "
          "pattern of 16 / 24 cycles around one vsync in ycbcr422 mode (fixed distinct pixel colours; colours: C01, C05); "
          "the same from after 300 / 1100 frames, 1200 / 4400 lines, a line of 2400 / 8800 words")
ASSUMPTIONS = ["Migen simulator semantics of the design", "pixel and system clocks tick together; memory side always "
               "ready (loss on overflow: I03)", "vertical sync does not start inside an active line; in ycbcr422 mode "
               "at least 12 blanking cycles precede it and lines are pixel pairs"]
DOM = ["pix", "sys"]


def mk(width, mode, depth=16):
    from litevideo.input.analysis import FrameExtraction
    return FrameExtraction(width, depth, mode)


def latency(width, mode):
    m = mk(width, mode)
    b = Bench(m, domains=DOM)
    b.set(m.valid_i, 1)
    b.set(m.frame.ready, 1)
    b.set(m.de, 1)
    for t in range(40):
        b.tick(DOM)
        if b.get(m.frame.valid) == 1:
            return t + 1
    return None


def prelude(b, m, width, mode, kind, n):
    """n frames, n lines of one word, or one line of n words, of one colour, every word checked; then continue from after
    any frame or line"""
    pf = width // (32 if mode == "rgb" else 16)
    v = {"r": 0x12, "g": 0xa5, "b": 0x7e}
    if mode == "rgb":
        want = int("0012a57e" * pf, 16)
    else:
        (v, y, cb, cr), = colours(1)
        want = int(("%02x%02x%02x%02x" % (cb, y, cr, y)) * (pf // 2), 16)
    b.set(m.frame.ready, 1)
    b.set(m.valid_i, 1)
    for c in "rgb":
        b.set(getattr(m, c), v[c])
    got = [0]
    sof = [0]

    def cyc(de, vs=0):
        b.set(m.de, de)
        b.set(m.vsync, vs)
        b.tick(DOM)
        if b.get(m.frame.valid):
            got[0] += 1
            b.check("word content", eq(b.get(m.frame.pixels), want))
            b.check("start of frame flag", eq(b.get(m.frame.sof), sof[0]))
            sof[0] = 0

    gap = 10 if mode == "rgb" else 24
    snaps = []
    units = 1 if kind == "line" else n
    for i in range(units):
        if kind == "frames" or i == 0:
            cyc(0, 1)
            cyc(0)
            sof[0] = 1
        for k in range(pf * (n if kind == "line" else 1)):
            cyc(1)
        for k in range(gap):
            cyc(0)
        snaps.append(b.snap())
        b.check("every complete word comes out", got[0] == (n if kind == "line" else i + 1))
    if len(snaps) > 1:
        b.jump(snaps, kind)


class Words:
    """reference list of expected words, symbolic length"""

    def __init__(self, b, width, n):
        self.b, self.n, self.width = b, n, width
        self.words = [(bvv(0, width), False)] * n
        self.cnt = bvv(0, 6)
        self.out = bvv(0, 6)
        self.k = 0

    def name(self, x):
        self.k += 1
        if z3.is_bool(x):
            f = z3.Bool("refb%d" % self.k)
        elif isinstance(x, (bool, int)):
            return x
        else:
            f = z3.BitVec("refv%d" % self.k, x.size())
        self.b.constraints.append(f == x)
        return f

    def push(self, c, w, sof):
        self.words = [(self.name(ite(And(c, self.cnt == i), w, x, self.width)),
                       self.name(Or(And(c, self.cnt == i, sof), And(Not(And(c, self.cnt == i)), y))))
                      for i, (x, y) in enumerate(self.words)]
        self.cnt = self.name(z3.simplify(self.cnt + bv(c, 6)))

    def pop(self, valid, word, sof):
        v = bo(valid)
        self.b.check("no word out of nothing", Implies(v, z3.ULT(self.out, self.cnt)))
        for i, (w, s) in enumerate(self.words):
            here = And(v, self.out == i)
            self.b.check("word content", Implies(here, eq(word, w)))
            self.b.check("start of frame flag", Implies(here, Iff(sof, s)))
        self.out = self.name(z3.simplify(self.out + bv(v, 6)))


def rgb(width, K, pre=None):
    pf = width // 32
    m = mk(width, "rgb")
    b = Bench(m, domains=DOM)
    L = latency(width, "rgb")
    if L is None:
        b.check("words come out", False)
        return b.solve(validate=0)
    if pre:
        prelude(b, m, width, "rgb", *pre)
        r = b.solve(timeout=100, validate=0)
        if r.status != "held":
            return r
    ref = Words(b, width, K // pf + 1)
    acc = [bvv(0, 32)] * pf
    pos = bvv(0, 3)
    sof = z3.BoolVal(False)
    pvs = z3.BoolVal(False)
    b.set(m.frame.ready, 1)
    for t in range(K + L + 2):
        if t < K:
            v, de, vs = b.inp(m.valid_i, "valid"), b.inp(m.de, "de"), b.inp(m.vsync, "vsync")
            r, g, bl = b.inp(m.r, "r"), b.inp(m.g, "g"), b.inp(m.b, "b")
            new = And(vs, Not(pvs))
            b.assume(Not(And(new, de)))
            pix = z3.Concat(bvv(0, 8), r, g, bl)
            take = And(v, de)
            slots = [ite(And(take, pos == i), pix, acc[i], 32) for i in range(pf)]
            acc = [ref.name(x) for x in slots]
            full = And(take, pos == pf - 1)
            ref.push(full, z3.Concat(*acc) if pf > 1 else acc[0], sof)
            sof = ref.name(Or(new, And(sof, Not(full))))
            pos = ref.name(ite(new, bvv(0, 3), ite(take, ite(full, bvv(0, 3), pos + 1, 3), pos, 3), 3))
            pvs = bo(vs)
        else:
            b.set(m.de, 0)
        b.tick(DOM)
        ref.pop(b.get(m.frame.valid), b.get(m.frame.pixels), b.get(m.frame.sof))
    b.check("every complete word comes out", ref.out == ref.cnt)
    b.cover("two words", ref.cnt == 2)
    return b.solve(timeout=500, validate=2)


def colours(n):
    """fixed colours and what the converters make of them"""
    from litevideo.csc.rgb2ycbcr import RGB2YCbCr
    from fv.stream import isolated
    rnd = random.Random(3)
    d = RGB2YCbCr()
    out = []
    for i in range(n):
        v = {c: rnd.getrandbits(8) for c in "rgb"}
        b = Bench(d)
        isolated(b, d.sink, d.source, v)
        out.append((v, b.peek(d.source.y), b.peek(d.source.cb), b.peek(d.source.cr)))
    return out


def ycbcr(width, K, before, pre=None):
    """before: cycles of a first frame, then 12 blanking cycles, vsync, then the rest"""
    pf = width // 16
    m = mk(width, "ycbcr422")
    b = Bench(m, domains=DOM)
    L = latency(width, "ycbcr422")
    if L is None:
        b.check("words come out", False)
        return b.solve(validate=0)
    cols = colours(K)
    if pre:
        prelude(b, m, width, "ycbcr422", *pre)
        r = b.solve(timeout=100, validate=0)
        if r.status != "held":
            return r
    ref = Words(b, width, K // pf + 1)
    acc = [bvv(0, 16)] * pf
    pos = bvv(0, 4)
    sof = z3.BoolVal(False)
    b.set(m.frame.ready, 1)
    b.set(m.valid_i, 1)
    odd = z3.BoolVal(False)
    n = 0
    sched = [("a", i) for i in range(before)] + [("b", 0)] * 12 + [("v", 0)] + [("b", 0)] * 2 + \
            [("a", before + i) for i in range(K - before)] + [("b", 0)] * (L + 4)
    prev = None
    for j, (kind, i) in enumerate(sched):
        b.set(m.vsync, 1 if kind == "v" else 0)
        lastof = kind == "a" and (j + 1 >= len(sched) or sched[j + 1][0] != "a")
        if kind == "a":
            (v, y, cb, cr) = cols[i]
            de = b.inp(m.de, "de")
            for c in "rgb":
                b.set(getattr(m, c), v[c])
            b.assume(Implies(odd, de))                  # lines are pixel pairs
            if lastof:
                b.assume(Implies(Not(odd), Not(de)))
            nb = cols[min(i + 1, K - 1)]
            even_c = bvv((cb + nb[2]) >> 1, 8)
            odd_c = bvv(((cols[i - 1][3] if i else 0) + cr) >> 1, 8)
            pix = z3.Concat(z3.If(odd, odd_c, even_c), bvv(y, 8))
            acc = [ref.name(ite(And(de, pos == k), pix, acc[k], 16)) for k in range(pf)]
            full = And(de, pos == pf - 1)
            ref.push(full, z3.Concat(*acc) if pf > 1 else acc[0], sof)
            sof = ref.name(And(sof, Not(full)))
            pos = ref.name(ite(de, ite(full, bvv(0, 4), pos + 1, 4), pos, 4))
            odd = ref.name(And(de, Not(odd)))
        else:
            b.set(m.de, 0)
            if kind == "v":
                sof = z3.BoolVal(True)
                pos = bvv(0, 4)
        b.tick(DOM)
        ref.pop(b.get(m.frame.valid), b.get(m.frame.pixels), b.get(m.frame.sof))
    b.check("every complete word comes out", ref.out == ref.cnt)
    b.cover("two words", ref.cnt == 2)
    return b.solve(timeout=500, validate=1)


def jobs(tier):
    th = tier == "thorough"
    js = [{"name": "rgb-%d" % w, "func": rgb, "kw": {"width": w, "K": 18 if th else 12}} for w in (64, 128)]
    js += [{"name": "ycbcr422-%d" % w, "func": ycbcr, "kw": {"width": w, "K": 24 if th else 16, "before": 8}}
           for w in (32, 64, 128)]
    n = 1100 if th else 300
    js += [{"name": "%s-64 after %s" % (mode, {"frames": "%d frames" % n, "lines": "%d lines" % (4 * n),
                                               "line": "a line of %d words" % (8 * n)}[kind]),
            "func": rgb if mode == "rgb" else ycbcr,
            "kw": dict(width=64, pre=(kind, {"frames": n, "lines": 4 * n, "line": 8 * n}[kind]),
                       **({"K": 8} if mode == "rgb" else {"K": 12, "before": 4}))}
           for mode in ("rgb", "ycbcr422") for kind in ("frames", "lines", "line")]
    return js
