"""Terminal memory seen from the Wishbone bus: symbolic transfers on an arbitrary memory, compared with a byte array."""
import z3
from migen import *
from fv.bench import *

FUNCTIONS = ["litevideo.terminal.core.Terminal (bus interface and memory)"]
BOUNDS = ("every bus behaviour (any transfer in any cycle, master holding its request until acknowledged) of 16 (quick) / 28 "
          "(thorough) cycles on arbitrary memory contents; then a transfer is acknowledged within 4 cycles; "
          "8 such cycles after any number up to 1024 of reads")
ASSUMPTIONS = ["Migen simulator semantics of the design", "addresses below 8896; the master holds a request until its "
               "acknowledge (Wishbone classic)"]


def bus(K, before=0):
    from litevideo.terminal.core import Terminal
    d = Terminal()
    b = Bench(d, domains=("sys", "vga"), bigmem=1024)
    w = d.bus
    if before:
        snaps = []
        for i in range(before):
            b.set(w.cyc, 1)
            b.set(w.stb, 1)
            b.set(w.we, 0)
            b.set(w.adr, i * 37 % 8896)
            b.set(w.dat_w, i & 255)
            for t in range(8):
                ack = b.get(w.ack)
                b.tick()
                if ack:
                    break
            b.check("a transfer is acknowledged", t < 7)
            snaps.append(b.snap())
        r = b.solve(timeout=60, validate=0)
        if r.status != "held":
            return r
        b.jump(snaps, "transfers")
    m = b.set_mem(b.design.bigs[0])
    aw = b.design.bigs[0].aw
    held, p = False, None
    # a byte somewhere, followed through the run
    spot = b.var("spot", aw)
    b.assume(z3.ULT(spot, 8896))
    val = z3.Select(m, spot)
    wait = bvv(0, 4)
    for t in range(K):
        n = {"cyc": b.var("cyc", 1), "stb": b.var("stb", 1), "we": b.var("we", 1), "adr": b.var("adr", aw),
             "dat": b.var("dat", 8)}
        if p is not None:
            n = {k: ite(held, p[k], n[k]) for k in n}
        b.assume(z3.ULT(n["adr"], 8896))
        b.set(w.cyc, n["cyc"])
        b.set(w.stb, n["stb"])
        b.set(w.we, n["we"])
        b.set(w.adr, bv(n["adr"], w.adr.nbits))
        b.set(w.dat_w, n["dat"])
        req = And(n["cyc"], n["stb"])
        ack = bo(b.get(w.ack))
        b.check("no acknowledge without a request", Implies(ack, Or(held, req)))
        done = And(ack, req)
        b.check("a read returns the byte last written there",
                Implies(And(done, Not(n["we"]), eq(n["adr"], spot)), eq(b.get(w.dat_r), val)))
        val = ite(And(done, n["we"], eq(n["adr"], spot)), n["dat"], val)
        wait = ite(And(req, Not(ack)), wait + 1, bvv(0, 4))
        b.check("a transfer is acknowledged", z3.ULE(wait, 3))
        held = And(req, Not(ack))
        p = n
        b.cover("write and read back", And(done, Not(n["we"]), eq(n["adr"], spot), Not(eq(val, z3.Select(m, spot))))) \
            if t == K - 1 else None
        b.tick()
    return b.solve(timeout=400, by_frame=True)


def jobs(tier):
    return [dict(name="transfers-%d" % K, func=bus, kw=dict(K=K)) for K in ([16] if tier == "quick" else [16, 28])] + \
        [dict(name="after many transfers", func=bus, kw=dict(K=8, before=1024))]
