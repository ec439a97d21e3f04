"""Capture overflow flag: symbolic pixel bursts and memory stalls in two phases with an optional acknowledge between
them; the flag software reads must say exactly whether words were lost since the last acknowledge."""
import z3
from migen import *
from fv.bench import *

FUNCTIONS = ["litevideo.input.analysis.FrameExtraction (FIFO, overflow detection and acknowledge)",
             "stream.AsyncFIFO, PulseSynchronizer, MultiReg inside it"]
BOUNDS = ("two phases of 20 (quick) / 28 (24 at 1:2) (thorough) pixel clocks with every data-enable and memory-ready pattern, "
          "optional acknowledge, FIFO depth 4 (the same with 12 clocks a phase after up to 520 losses and acknowledges); clock ratios pix:sys 1:1, 2:1, 1:2")
ASSUMPTIONS = ["Migen simulator semantics of the design", "FIFO depth scaled to 4, two pixels per word",
               "12 clocks of calm around the acknowledge (clock-domain crossings settle)"]


def job(ratio, K, burst, before=0):
    from litevideo.input.analysis import FrameExtraction
    m = FrameExtraction(64, 4, "rgb")
    b = Bench(m, domains=["pix", "sys"])
    W = 6
    b.set(m.valid_i, 1)
    pushed = bvv(0, W)
    popped = bvv(0, W)
    half = False
    step = [0]
    uid = [0]

    def clock():
        """one pixel clock"""
        if ratio == "1:1":
            edges = [["pix", "sys"]]
        elif ratio == "2:1":
            edges = [["pix"], ["pix", "sys"]][step[0] % 2:step[0] % 2 + 1]
        else:
            edges = [["pix", "sys"], ["sys"]]
        step[0] += 1
        return edges

    def cycle(de, ready):
        nonlocal pushed, popped, half
        b.set(m.de, de)
        full = And(half, de)
        pushed = bv(pushed, W) + bv(full, W)
        half = And(Or(half, de), Not(full))
        for e in clock():
            if "sys" in e:
                b.set(m.frame.ready, ready() if callable(ready) else ready)
                popped = bv(popped, W) + bv(And(b.get(m.frame.valid), m_ready(b, m)), W)
            b.tick(e)
        p = []
        uid[0] += 1
        for i, x in enumerate((pushed, popped)):
            f = z3.BitVec("cnt%d_%d" % (i, uid[0]), W)
            b.constraints.append(f == x)
            p.append(f)
        pushed, popped = p
        h = z3.Bool("half_%d" % uid[0])
        b.constraints.append(h == half)
        half = h

    def calm(n=16):
        for i in range(n):
            cycle(0, 1)

    def phase():
        for t in range(K):
            cycle(b.var("de", 1) if t % burst == 0 else last[0], lambda: b.var("ready", 1))
        calm()

    last = [1]
    if before:
        # this many losses and acknowledges, then any of the states in between
        snaps = []
        for i in range(before):
            for t in range(12):
                cycle(1, 0)
            calm(20)
            b.check("flag after a loss", eq(b.get(m._overflow.w), 1))
            if ratio != "1:1" and step[0] % 2:
                cycle(0, 1)
            b.set(m._overflow.re, 1)
            for e in ([["pix", "sys"]] if ratio == "1:1" else [["pix"], ["pix", "sys"]] if ratio == "2:1" else [["pix", "sys"], ["sys"]]):
                b.set(m.de, 0)
                b.tick(e)
                if "sys" in e:
                    b.set(m._overflow.re, 0)
            calm(20)
            b.check("acknowledged", eq(b.get(m._overflow.w), 0))
            step[0] = 0
            snaps.append(b.snap())
        r = b.solve(timeout=200, validate=0)
        if r.status != "held":
            return r
        b.jump(snaps, "losses")
        pushed = popped = bvv(0, W)
        half = False
    phase()
    lost = z3.Bool("lost1")
    b.constraints.append(lost == (pushed != popped))
    b.check("flag after the first phase", Iff(b.get(m._overflow.w), lost))
    ack = b.var("acknowledge", 1)
    # software strobe, one system clock
    while True:
        b.set(m._overflow.re, ack)
        e = clock()
        b.set(m.de, 0)
        hit = False
        for d in e:
            b.tick(d)
            if "sys" in d and not hit:
                b.set(m._overflow.re, 0)
                hit = True
        if hit:
            break
    b.check("acknowledged at once", Implies(ack == 1, eq(b.get(m._overflow.w), 0)))
    for i in range(16):
        cycle(0, 1)
        b.check("stays acknowledged", Implies(ack == 1, eq(b.get(m._overflow.w), 0)))
    cur = And(lost, ack == 0)
    b.check("flag is sticky until acknowledged", Iff(b.get(m._overflow.w), cur))
    p0, q0 = pushed, popped
    phase()
    lost2 = (pushed - p0) != (popped - q0)
    b.check("flag after the second phase", Iff(b.get(m._overflow.w), Or(cur, lost2)))
    b.cover("lost, acknowledged, not lost again", z3.And(lost, ack == 1, z3.Not(lost2)))
    b.cover("lost again", z3.And(lost, ack == 1, lost2))
    return b.solve(timeout=700, validate=1)


def m_ready(b, m):
    return b.peek(m.frame.ready)


def jobs(tier):
    th = tier == "thorough"
    return [{"name": "ratio %s" % r, "func": job, "kw": {"ratio": r, "K": (24 if r == "1:2" else 28) if th else 20, "burst": 4}} for r in ("1:1", "2:1", "1:2")] + [
        {"name": "after many losses", "func": job, "kw": {"ratio": "1:1", "K": 12, "burst": 4, "before": 520}}]
