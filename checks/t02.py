"""TMDS round trip: encoder -> decoder, arbitrary disparity history (arbitrary register state), symbolic symbols."""
import z3
from migen import *
from fv.bench import *
from fv.pipe import havoc

FUNCTIONS = ["litevideo.output.hdmi.encoder.Encoder", "litevideo.input.decoding.Decoding"]
BOUNDS = "every symbol after every history (arbitrary register state); 6 (quick) / 10 (thorough) consecutive symbols"
ASSUMPTIONS = ["Migen simulator semantics of the design"]
D = ["sys", "pix"]


class Top(Module):
    def __init__(self):
        from litevideo.output.hdmi.encoder import Encoder
        from litevideo.input.decoding import Decoding
        self.submodules.enc = Encoder()
        self.submodules.dec = Decoding()
        self.comb += self.dec.input.eq(self.enc.out)


def latency():
    m = Top()
    b = Bench(m, domains=D)
    b.set(m.enc.de, 0)
    for i in range(16):
        b.tick(D)
    b.set(m.enc.de, 1)
    for i in range(16):
        b.tick(D)
        if b.get(m.dec.output.de) == 1:
            return i + 1
    return None


def chain(N):
    L = latency()
    m = Top()
    b = Bench(m, domains=D)
    if L is None:
        b.check("data is recognised", False)
        return b.solve(validate=0)
    havoc(b)
    hist = []
    for t in range(N + L):
        if t >= L:
            de, d, c = hist[t - L]
            o = m.dec.output
            b.check("de survives", Iff(b.get(o.de), de))
            b.check("data survives", Implies(de, eq(b.get(o.d), d)))
            b.check("control survives", Implies(Not(de), eq(b.get(o.c), c)))
        hist.append((bo(b.inp(m.enc.de, "de")), b.inp(m.enc.d, "d"), b.inp(m.enc.c, "c")))
        b.tick(D)
    b.cover("data after control", And(Not(hist[0][0]), hist[1][0]))
    return b.solve(timeout=300, validate=2)


def decoder():
    """decoder alone: any 10-bit word"""
    from litevideo.input.decoding import Decoding
    m = Decoding()
    b = Bench(m, domains=["pix"])
    havoc(b)
    x = b.inp(m.input, "word")
    v = b.inp(m.valid_i, "valid")
    b.tick("pix")
    for k in range(8):
        if eq(b.peek(m.output.raw), x) is True or same_as(b, m.output.raw, x):
            break
        b.set(m.input, x)
        b.set(m.valid_i, v)
        b.tick("pix")
    o = m.output
    ctl = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]
    isctl = Or(*[x == k for k in ctl])
    b.check("raw word", eq(b.get(o.raw), x))
    b.check("valid travels with the word", Iff(b.get(m.valid_o), v))
    b.check("data enable is off exactly for the four control words", Iff(b.get(o.de), Not(isctl)))
    for i, k in enumerate(ctl):
        b.check("control code %d" % i, Implies(x == k, eq(b.get(o.c), i)))
    q = z3.If(bit(x, 9), ~bits(x, 7, 0), bits(x, 7, 0))
    ref = [bits(q, 0, 0)]
    for i in range(1, 8):
        y = bits(q, i, i) ^ bits(q, i - 1, i - 1)
        ref.append(z3.If(bit(x, 8), y, ~y))
    b.check("DVI data decode", eq(b.get(o.d), z3.Concat(*reversed(ref))))
    return b.solve(timeout=100, validate=2)


def same_as(b, sig, x):
    e = eq(b.peek(sig), x)
    return e is not False and b.query([z3.Not(e)], 30)[0] == z3.unsat


def jobs(tier):
    N = 10 if tier == "thorough" else 6
    return [{"name": "round-trip", "func": chain, "kw": {"N": N}}, {"name": "decoder", "func": decoder}]
