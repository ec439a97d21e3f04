"""Word error counter.  A legal TMDS stream (encoder output, any history, any control codes) never counts; for
arbitrary received words the value read is the number of illegal words of the last completed window.  Which received
words belong to a window is learned by probing the design with single errors, then required to be windows of 2^N
consecutive words of which at most the one sampled at the window change is not counted."""
import z3
from migen import *
from fv.bench import *
from fv.pipe import havoc, registers

FUNCTIONS = ["litevideo.input.wer.WER", "litevideo.output.hdmi.encoder.Encoder"]
BOUNDS = ("window size 2^4 words, 3 windows, all words symbolic; system clock ticking with or slower than the pixel clock; "
          "windows of 2^13 and 2^17 words without a legal word")
ASSUMPTIONS = ["Migen simulator semantics of the design", "window parameter scaled from 2^24 to 2^4"]
N = 4
CTL = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]
D = ["pix", "sys"]


class Top(Module):
    def __init__(self, enc, n=N):
        from litevideo.input.wer import WER
        from litevideo.output.hdmi.encoder import Encoder
        self.submodules.wer = WER(period_bits=n)
        if enc:
            self.submodules.enc = ClockDomainsRenamer("pix")(Encoder())
            self.comb += self.wer.data.eq(self.enc.out)


def illegal(w):
    tr = [z3.Extract(i, i, w) ^ z3.Extract(i + 1, i + 1, w) for i in range(8)]
    n = sum((z3.ZeroExt(3, t) for t in tr), bvv(0, 4))
    # the tenth bit does not take part
    return z3.And(z3.UGT(n, 4), *[z3.Extract(8, 0, w) != (c & 0x1ff) for c in CTL])


def read(b, m, domains):
    b.set(m.wer._update.re, 1)
    b.tick(domains)
    b.set(m.wer._update.re, 0)
    return b.get(m.wer._value.status)


def legal():
    m = Top(True)
    b = Bench(m, domains=D)
    # any disparity history of the transmitter
    cls = [r for r in registers(b)]
    b.set(m.wer._update.re, 1)
    started = False
    for t in range(5 + 3 * (1 << N)):
        b.inp(m.enc.de, "de")
        b.inp(m.enc.d, "d")
        b.inp(m.enc.c, "c")
        b.tick(D)
        v = b.get(m.wer._value.status)
        b.check("a legal stream has no errors", eq(v, 0))
    return b.solve(timeout=400, validate=1)


def legal_word():
    """one word, any disparity history (arbitrary encoder state)"""
    m = Top(True)
    b = Bench(m, domains=D)
    from litevideo.output.hdmi.encoder import Encoder
    e = Encoder()
    b2 = Bench(e)
    havoc(b2)
    for t in range(5):
        b2.inp(e.de)
        b2.inp(e.d)
        b2.inp(e.c)
        b2.tick("sys")
    b2.check("encoder words are legal", Not(illegal(bv(b2.get(e.out), 10))))
    return b2.solve(timeout=100, validate=1)


BAD = 0b0010010101 ^ 0b0000000000
for _w in range(1024):
    _n = bin((_w ^ (_w >> 1)) & 0xff).count("1")
    if _n > 4 and all((_w & 0x1ff) != (c & 0x1ff) for c in CTL):
        BAD = _w
        break
GOOD = 0b0100000000

T = 3 * (1 << N)
DRAIN = 8


def windows(slow):
    """probe: which single bad word is visible in the value read at the end of the run (time T+DRAIN)"""
    m = Top(False)
    seen = {}
    for t in range(T):
        b = Bench(m, domains=D)
        b.set(m.wer._update.re, 1)
        vals = []
        for k in range(T + DRAIN + (1 << N)):
            b.set(m.wer.data, BAD if k == t else GOOD)
            b.tick(D if (not slow or k % 2) else ["pix"])
            vals.append(b.get(m.wer._value.status))
        seen[t] = vals
    return seen


def count(slow):
    seen = windows(slow)
    m = Top(False)
    b = Bench(m, domains=D)
    W = 1 << N
    # windows learned from the probe: time of reading -> set of word times counted
    reads = {}
    n = T + DRAIN + W
    for k in range(n):
        reads[k] = frozenset(t for t in seen if seen[t][k] == 1)
    wins = sorted({s for s in reads.values() if s}, key=min)
    if len(wins) < 3:
        b.check("windows complete", False)
        return b.solve(validate=0)
    # the first window starts at reset, the last may be cut by the end of the probe
    for i in range(1, len(wins) - 1):
        s = wins[i]
        b.check("a window counts at least 2^N-1 consecutive words", len(s) >= W - 1 and max(s) - min(s) == len(s) - 1)
        b.check("windows follow each other", min(s) - max(wins[i - 1]) <= 2 and min(s) > max(wins[i - 1]))
    b.check("words are counted by at most one window", all(not (wins[i] & wins[j]) for i in range(len(wins)) for j in range(i)))
    b.set(m.wer._update.re, 1)
    err = []
    for k in range(n):
        if k < T:
            w = b.inp(m.wer.data, "word")
            e = z3.Bool("err%d" % k)
            b.constraints.append(e == illegal(w))
            err.append(e)
        else:
            b.set(m.wer.data, GOOD)
        b.tick(D if (not slow or k % 2) else ["pix"])
        s = reads[k]
        if k == n - 1 or reads[k] != reads[k + 1] or (k and reads[k] != reads[k - 1]):
            v = b.get(m.wer._value.status)
            ref = sum((z3.If(err[t], bvv(1, 8), bvv(0, 8)) for t in s), bvv(0, 8))
            if len(s) < W:
                b.check("value is the number of illegal words of the window", eq(bv(v, 8), ref))
            else:
                b.check("value is the number of illegal words of the window", eq(bv(v, N), z3.Extract(N - 1, 0, ref)))
    b.cover("several errors", z3.And(err[20], err[22], err[25]))
    return b.solve(timeout=600, validate=1)


def long_(n):
    """a line so bad that every word of a long window is illegal, then one without an illegal word"""
    m = Top(False, n)
    b = Bench(m, domains=D)
    W = 1 << n
    b.set(m.wer._update.re, 1)
    b.set(m.wer.data, BAD)
    for t in range(5 * W + 16):
        if t == 3 * W:
            b.set(m.wer.data, GOOD)
        b.tick(D)
        if t == 3 * W - 8:
            v = b.get(m.wer._value.status)      # one word may be left out; a full count does not fit the register
            b.check("a window without a legal word", v in (W - 1, 0))
    b.check("a window without an illegal word", eq(b.get(m.wer._value.status), 0))
    return b.solve(timeout=100, validate=0)


def jobs(tier):
    return [{"name": "legal-words", "func": legal_word}, {"name": "legal-stream", "func": legal},
            {"name": "count", "func": count, "kw": {"slow": False}},
            {"name": "count-slow-sys", "func": count, "kw": {"slow": True}},
            {"name": "bad windows of %d words" % (1 << 13), "func": long_, "kw": {"n": 13}},
            {"name": "bad windows of %d words" % (1 << 17), "func": long_, "kw": {"n": 17}}]
