"""8-bit pixel <-> half-float pixel: exact value of every conversion and exact round trip (all inputs symbolic)."""
import z3
from migen import *
from fv.bench import *
from fv.stream import isolated

FUNCTIONS = ["litevideo.csc.rgb2rgb16f.RGB2RGB16f (PIX2PIXFDatapath), PIX2PIXFLUT",
             "litevideo.csc.rgb16f2rgb.RGB16f2RGB (PIXF2PIXDatapath)", "float_arithmetic.common.LeadOne"]
BOUNDS = "all 8-bit pixels; all half-floats in [0, 1]; default widths"
ASSUMPTIONS = ["Migen simulator semantics of the design"]


def half_of_pixel(p):
    """half-float encoding of p/256"""
    r = bvv(0, 16)
    for k in range(8):     # leading one at bit k
        frac = z3.Extract(9, 0, z3.ZeroExt(8, p) << (10 - k))
        enc = z3.Concat(bvv(0, 1), bvv(15 - 8 + k, 5), frac)
        r = z3.If(z3.Extract(k, k, p) == 1, enc, r)
    return r


def pixel_of_half(f):
    """floor(256*f) saturated to 255, f in [0, 1]"""
    e, m = z3.Extract(14, 10, f), z3.Extract(9, 0, f)
    full = z3.ZeroExt(9, z3.Concat(z3.If(e == 0, bvv(0, 1), bvv(1, 1)), m))     # 20 bits, value full*2^(e-25)
    # 256*value = full * 2^(e-17)
    v = z3.LShR(full, z3.ZeroExt(15, 17 - z3.If(e == 0, bvv(1, 5), e)))
    return z3.If(z3.UGT(v, 255), bvv(255, 8), z3.Extract(7, 0, v))


def to_float(which):
    if which == "datapath":
        from litevideo.csc.rgb2rgb16f import RGB2RGB16f
        d = RGB2RGB16f()
        b = Bench(d)
        v = {n: b.var(n, 8) for n in "rgb"}
        lat = isolated(b, d.sink, d.source, v)
        b.check("a pixel comes out", lat is not None)
        if lat is not None:
            for n in "rgb":
                b.check("%sf == %s/256" % (n, n), eq(b.get(getattr(d.source, n + "f")), half_of_pixel(v[n])))
            b.cover("one", eq(b.get(d.source.rf), 0x1c00))
        return b.solve(timeout=200, split=True, validate=5)
    from litevideo.csc.rgb2rgb16f import PIX2PIXFLUT
    d = PIX2PIXFLUT(8, 16)
    b = Bench(d)
    b.set(d.ce, 1)
    p = b.inp(d.sink.pix, "pix")
    for i in range(d.latency):
        b.tick("sys")
    b.check("table[pix] == pix/256", eq(b.get(d.source.pixf), half_of_pixel(p)))
    return b.solve(timeout=200, validate=3)


def to_pixel():
    from litevideo.csc.rgb16f2rgb import RGB16f2RGB
    d = RGB16f2RGB()
    b = Bench(d)
    v = {n: b.var(n, 16) for n in ("rf", "gf", "bf")}
    for x in v.values():
        b.assume(z3.ULE(x, 0x3c00))
    lat = isolated(b, d.sink, d.source, v)
    b.check("a pixel comes out", lat is not None)
    if lat is not None:
        for n in "rgb":
            b.check("%s == floor(256*%sf)" % (n, n), eq(b.get(getattr(d.source, n)), pixel_of_half(v[n + "f"])))
        b.cover("white", eq(b.get(d.source.r), 255))
    return b.solve(timeout=200, split=True, validate=5)


class Chain(Module):
    def __init__(self):
        from litevideo.csc.rgb2rgb16f import RGB2RGB16f
        from litevideo.csc.rgb16f2rgb import RGB16f2RGB
        self.submodules.a = RGB2RGB16f()
        self.submodules.b = RGB16f2RGB()
        self.comb += self.a.source.connect(self.b.sink)
        self.sink, self.source = self.a.sink, self.b.source


def roundtrip():
    d = Chain()
    b = Bench(d)
    v = {n: b.var(n, 8) for n in "rgb"}
    lat = isolated(b, d.sink, d.source, v)
    b.check("a pixel comes out", lat is not None)
    if lat is not None:
        for n in "rgb":
            b.check("%s survives the round trip" % n, eq(b.get(getattr(d.source, n)), v[n]))
        b.cover("value", eq(b.get(d.source.g), 77))
    return b.solve(timeout=200, validate=5)


def jobs(tier):
    return [{"name": "pixel-to-float", "func": to_float, "kw": {"which": "datapath"}},
            {"name": "lookup-table", "func": to_float, "kw": {"which": "lut"}},
            {"name": "float-to-pixel", "func": to_pixel},
            {"name": "round-trip", "func": roundtrip}]
