"""VideoOut end to end in each mode: symbolic memory words through the core, the colour conversion and the driver; pixels
must leave together with their data enable and syncs, on the documented lanes."""
import z3
from migen import *
from fv.bench import *
from checks.vout import D, PAR, DW, SH

FUNCTIONS = ["litevideo.output.VideoOut (TimingDelay, YCbCr422to444, YCbCr2RGB inside)",
             "litevideo.output.driver.Driver, VGAPHY", "litevideo.output.core.VideoOutCore"]
BOUNDS = ("two frames of 7x4 beats with 4x2 active pixels of any value, from reset; VGA pads of 8, 6 and 4 bits; memory not "
          "stalling once started")
ASSUMPTIONS = ["Migen simulator semantics of the design", "vendor PHY and clocking replaced by a plain pixel sink",
               "4:2:2 mode: even line length"]


class _Clk(Module):
    def __init__(self, *a, **k):
        pass


class _Phy(Module):
    def __init__(self, pads, mode):
        from litex.soc.interconnect import stream
        from litevideo.output.common import phy_layout
        self.sink = stream.Endpoint(phy_layout(mode))
        self.comb += self.sink.ready.eq(1)


def video_out(*a, **k):
    """VideoOut, its source and the driver's executed again with the vendor classes replaced"""
    import importlib
    import litevideo.output as lo
    import litevideo.output.driver as drv
    import litevideo.output.hdmi.s7 as s7
    s7.S7HDMIOutClocking = _Clk
    s7.S7HDMIOutPHY = _Phy
    importlib.reload(drv)
    return importlib.reload(lo).VideoOut("xc7a35t", *a, **k)


class _Pads:
    pass


def vga_pads(n):
    p = _Pads()
    p.hsync_n, p.vsync_n, p.psave_n = Signal(), Signal(), Signal()
    p.r, p.g, p.b = Signal(n), Signal(n), Signal(n)
    return p


def convert(px):
    """the isolated converter applied to (y, cb, cr)"""
    from litevideo.csc.ycbcr2rgb import YCbCr2RGB
    m = YCbCr2RGB()
    b = Bench(m, cut=False)
    for n, v in zip(("y", "cb", "cr"), px):
        b.set(getattr(m.sink, n), v)
    b.set(m.sink.valid, 1)
    b.set(m.source.ready, 1)
    for i in range(m.datapath.latency):
        b.tick("sys")
    return [b.get(getattr(m.source, n)) for n in "rgb"]


def job(mode, vga=0):
    from litedram.common import LiteDRAMNativePort
    port = LiteDRAMNativePort("read", 8, DW[mode], clock_domain="pix")
    pads = vga_pads(vga) if vga else _Pads()
    m = video_out(pads, port, mode=mode, fifo_depth=16)
    b = Bench(m, domains=D)
    ini, s = m.core.initiator, m.core.source
    g = {"hres": 4, "hsync_start": 5, "hsync_end": 6, "hscan": 6, "vres": 2, "vsync_start": 2, "vsync_end": 3, "vscan": 3}
    words = 28 if mode == "raw" else 8
    for n in PAR:
        b.set(getattr(ini, n).storage, g[n])
    b.set(ini.base.storage, 0)
    b.set(ini.length.storage, words << SH[mode])
    b.set(ini.enable.storage, 1)
    w = [b.var("word", DW[mode]) for i in range(words)]
    q = [None, None]
    hist = []
    n = 0
    outs = []
    k = m.driver.sink
    b.set(port.cmd.ready, 1)
    for t in range(75):
        b.set(port.rdata.valid, int(q[-1] is not None))
        b.set(port.rdata.data, 0 if q[-1] is None else w[q[-1]])
        if vga:
            b.check("the converter is not in power save", eq(b.get(pads.psave_n), 1))
            o = {"de": None, "hsync": Not(b.get(pads.hsync_n)), "vsync": Not(b.get(pads.vsync_n))}
            for c in "rgb":
                o[c] = b.get(getattr(pads, c))
        else:
            o = {c: b.get(getattr(k, c)) for c in ["de", "hsync", "vsync"] + (
                ["c0", "c1", "c2"] if mode == "raw" else ["r", "g", "b"])}
        outs.append(o)
        r = {c: b.get(getattr(s, c)) for c in ("valid", "ready", "de", "hsync", "vsync")}
        r["data"] = b.get(s.data)
        hist.append(r)
        c = b.get(port.cmd.valid)
        q = [b.get(port.cmd.addr) if c else None] + q[:-1]
        b.tick(D)
    # latency of the timing signals
    ts = ["hsync", "vsync"] + ([] if vga else ["de"])
    L = None
    for l in range(0, 16):
        if all(bo(eq(outs[t + l][x], hist[t][x])) is True for t in range(75 - l) for x in ts):
            L = l
            break
    b.check("data enable and syncs leave together, delayed by a constant", L is not None)
    if L is None:
        return b.solve(validate=0)
    if mode == "rgb":
        b.check("no added latency", L == 0)
    shown = 0
    if mode == "raw":
        first = min(t for t in range(75) if hist[t]["valid"] == 1 and hist[t]["de"] == 1)
        for i in range(28):
            x = w[i]
            for j, c in enumerate(("c0", "c1", "c2")):
                v = bv(outs[first + i + L][c], 11)
                b.check("lane %s" % c, v == z3.ZeroExt(1, bits(x, 10 * j + 9, 10 * j)))
        b.check("raw words are passed at the beat rate", all(hist[first + i]["valid"] == 1 for i in range(28)))
        return b.solve(timeout=300, validate=2)
    refs = {}
    for t in range(75 - L):
        h = hist[t]
        if vga and bo(h["de"]) is not True:
            for c in "rgb":
                b.check("black in blanking", eq(outs[t + L][c], 0))
        if not (h["valid"] == 1 and h["ready"] == 1 and h["de"] == 1):
            continue
        i = shown % 8
        shown += 1
        if mode == "rgb":
            ref = [bits(w[i], 8 * j + 7, 8 * j) for j in range(3)]
        else:
            if i not in refs:
                e, o = w[i & ~1], w[i | 1]
                refs[i] = convert((bits(w[i], 7, 0), bits(e, 15, 8), bits(o, 15, 8)))
            ref = refs[i]
        for j, c in enumerate("rgb"):
            x = bv(ref[j], 8)
            got = outs[t + L][c]
            if vga:
                b.check("pad %s" % c, eq(got, bits(x, 7, 8 - vga)))
            else:
                b.check("component %s" % c, eq(got, x))
    b.check("two frames shown", shown >= 16)
    return b.solve(timeout=700, validate=2)


def jobs(tier):
    return [{"name": m + ("-vga%d" % v if v else ""), "func": job, "kw": {"mode": m, "vga": v}}
            for m, v in (("rgb", 0), ("rgb", 8), ("rgb", 6), ("raw", 0), ("ycbcr422", 0), ("ycbcr422", 4))]
