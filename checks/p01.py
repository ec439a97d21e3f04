"""Clock generator reprogramming: symbolic register accesses by software and symbolic answers of the vendor primitives;
what reaches the primitives' programming ports and what software reads back."""
import z3
from migen import *
from fv.bench import *
from fv.inst import instances, port, param, same_net
from fv.induct import houdini

FUNCTIONS = ["litevideo.output.hdmi.s6.S6HDMIOutClocking", "litevideo.output.hdmi.s7.S7HDMIOutClocking",
             "litevideo.input.clocking.S6Clocking", "litevideo.input.clocking.S7Clocking"]
BOUNDS = ("dynamic reconfiguration: unbounded by induction; DCM command: every command word and start moment within 34 "
          "(quick) / 60 (thorough) cycles; both again after any number up to 1024 of accesses or commands")
ASSUMPTIONS = ["Migen simulator semantics of the design", "vendor primitives answer arbitrarily",
               "software sends a command or the go pulse only while not busy"]


class _Pads:
    pass


def pads():
    p = _Pads()
    p.clk_p, p.clk_n = Signal(), Signal()
    return p


class Top(Module):
    def __init__(self, what, split=False):
        self.clock_domains.cd_base50 = ClockDomain(reset_less=True)
        self.clock_domains.cd_clk100 = ClockDomain(reset_less=True)
        from litevideo.output.hdmi.s6 import S6HDMIOutClocking
        from litevideo.output.hdmi.s7 import S7HDMIOutClocking
        from litevideo.input.clocking import S6Clocking, S7Clocking
        if what == "s6out":
            self.submodules.dut = S6HDMIOutClocking(pads(), None)
        elif what == "s7out":
            self.submodules.dut = S7HDMIOutClocking(pads(), None)
        elif what == "s6in":
            self.submodules.dut = S6Clocking(pads())
        else:
            self.submodules.dut = S7Clocking(pads(), split_clocking=split)
        self.done = [Signal() for i in range(2)]
        self.acc = [Signal() for i in range(2)]
        self.rdy = [Signal() for i in range(2)]
        for i in range(2):
            self.sync += If(self.acc[i], self.done[i].eq(0)).Elif(self.rdy[i], self.done[i].eq(1))


def csrs(d, out):
    p = "_pll" if hasattr(d, "_pll_reset") else "_mmcm"
    g = lambda n: getattr(d, p + n)
    r = [dict(read=g("_read"), write=g("_write"), drdy=g("_drdy"), adr=g("_adr"), dat_w=g("_dat_w"), dat_r=g("_dat_r"),
              reset=g("_reset"))]
    if hasattr(d, "_mmcm_write_o"):
        r.append(dict(read=g("_read_o"), write=g("_write_o"), drdy=g("_drdy_o"), adr=g("_adr"), dat_w=g("_dat_w"),
                      dat_r=g("_dat_o_r"), reset=g("_reset")))
    return r


def drp(what, split=False):
    m = Top(what, split)
    prim = {"s6out": ["PLL_ADV"], "s6in": ["PLL_ADV"], "s7out": ["MMCME2_ADV"]}.get(what, ["MMCME2_ADV", "PLLE2_ADV"][:2 if split else 1])

    def setup(b):
        r = []
        for i, n in enumerate(prim):
            x = instances(b, n)
            assert len(x) == 1
            r.append((x[0], csrs(m.dut, what.endswith("out"))[i]))
        return r

    def drive(b, d, prev):
        for i, (x, c) in enumerate(setup(b)):
            if i == 0:
                b.inp(c["adr"].storage)
                b.inp(c["dat_w"].storage)
                b.inp(c["reset"].storage)
            b.inp(port(x, "DO"), "DO")
            rdy = b.inp(port(x, "DRDY"), "DRDY")
            acc = []
            for n in ("read", "write"):
                acc.append(b.inp(c[n].re, n))
            b.set(d.acc[i], Or(*acc))
            b.set(d.rdy[i], rdy)
        for i in range(len(prim), 2):
            b.set(d.acc[i], 0)
            b.set(d.rdy[i], 0)
        return {}

    def prop(b, d):
        o = []
        for i, (x, c) in enumerate(setup(b)):
            rd, wr = bo(b.peek(c["read"].re)), bo(b.peek(c["write"].re))
            P = lambda n: b.get(port(x, n))
            # a register narrower than the port cannot carry what software asks for
            wide = all(len(s) >= n for s, n in ((c["adr"].storage, 5 if x.of == "PLL_ADV" else 7), (c["dat_w"].storage, 16),
                                                (c["dat_r"].status, 16)))
            o += [("registers as wide as the port", wide), ("enable strobe", Iff(P("DEN"), Or(rd, wr))),
                  ("write strobe", Iff(P("DWE"), wr)),
                  ("address", eq(bits(bv(P("DADDR"), 8), 4 if x.of == "PLL_ADV" else 6, 0), bits(bv(b.peek(c["adr"].storage), 8), 4 if x.of == "PLL_ADV" else 6, 0))),
                  ("data", Implies(wr, eq(P("DI"), b.peek(c["dat_w"].storage)))),
                  ("read back", eq(b.get(c["dat_r"].status), b.peek(port(x, "DO")))),
                  ("ready flag", Iff(b.get(c["drdy"].status), b.get(d.done[i]))),
                  ("software reset", Implies(b.peek(c["reset"].storage), P("RST")))]
        return o

    def many():
        """a thousand accesses, then any from the state after any of them"""
        b = Bench(m)
        snaps = []
        for t in range(2048):
            for i, (x, c) in enumerate(setup(b)):
                rdy, re, we = int(t % 2 == 1), int(t % 4 == 0), int(t % 4 == 2)
                b.set(port(x, "DRDY"), rdy)
                b.set(c["read"].re, re)
                b.set(c["write"].re, we)
                b.set(m.acc[i], re | we)
                b.set(m.rdy[i], rdy)
            if t % 2 == 0:
                snaps.append(b.snap())
            for n, c in prop(b, m):
                b.check(n, c)
            b.tick()
        r = b.solve(timeout=60, validate=0)
        if r.status == "held":
            b.jump(snaps, "accesses")
            for t in range(4):
                drive(b, m, None)
                for n, c in prop(b, m):
                    b.check(n, c)
                b.tick()
            r = b.solve(timeout=100, validate=1)
        return r

    r = houdini(m, drive, [m.done[0], m.done[1]], prop, exclude=m.done)
    if r.status != "open":
        r.merge(many())
        b = Bench(m)
        for t in range(4):
            drive(b, m, None)
            for n, c in prop(b, m):
                b.check(n, c)
            b.tick()
        r.merge(b.solve(timeout=60, validate=2))
        return r
    b = Bench(m)
    for t in range(12):
        drive(b, m, None)
        for n, c in prop(b, m):
            b.check(n, c)
        b.tick()
    r = b.solve(timeout=300, validate=2)
    if r.status == "held":
        r.merge(many())
    return r


def dcm(K, before=0):
    m = Top("s6out")
    d = m.dut
    b = Bench(m)
    x, = instances(b, "DCM_CLKGEN")
    if before:
        snaps = []
        for i in range(before):
            b.set(d._cmd_data.storage, i * 5 & 1023)
            b.set(d._send_cmd_data.re, 1)
            got = []
            for t in range(32):
                got.append((b.get(port(x, "PROGEN")), b.get(port(x, "PROGDATA"))))
                b.tick()
                b.set(d._send_cmd_data.re, 0)
                if not b.get(d._status.status) & 1 and t > 2:
                    break
            b.check("command bits, first bit first", [y[1] for y in got if y[0]] == [(i * 5 & 1023) >> k & 1 for k in range(10)])
            b.set(d._send_go.re, i % 2)
            b.check("program enable", eq(b.get(port(x, "PROGEN")), i % 2))
            b.tick()
            b.set(d._send_go.re, 0)
            snaps.append(b.snap())
        r = b.solve(timeout=60, validate=0)
        if r.status != "held":
            return r
        b.jump(snaps, "commands")
    dat, en = port(x, "PROGDATA"), port(x, "PROGEN")
    left = bvv(0, 4)
    word = bvv(0, 10)
    gap = bvv(15, 4)          # cycles since the last command ended, saturating
    ncmd = bvv(0, 3)
    for t in range(K):
        w = b.inp(d._cmd_data.storage, "cmd")
        go_cmd = b.inp(d._send_cmd_data.re, "send")
        go = b.inp(d._send_go.re, "go")
        b.inp(port(x, "PROGDONE"), "progdone")
        b.inp(port(x, "LOCKED"), "locked")
        busy = bit(b.get(d._status.status), 0)
        b.assume(Implies(Or(go_cmd, go), Not(busy)))
        b.assume(Not(And(go_cmd, go)))
        act = left != 0
        b.check("program enable", Iff(b.get(en), Or(act, go)))
        b.check("command bits, first bit first", Implies(act, eq(b.get(dat), bits(word, 0, 0))))
        b.check("busy while sending", Implies(act, busy))
        b.check("gap between commands", Implies(And(Not(busy), ncmd != 0), z3.UGE(gap, 2)))
        b.check("status bits", And(Iff(bit(b.peek(d._status.status), 1), b.peek(port(x, "PROGDONE"))),
                                   Iff(bit(b.peek(d._status.status), 2), b.peek(port(x, "LOCKED")))))
        n = []
        for i, v in enumerate((ite(go_cmd, bvv(10, 4), ite(act, left - 1, left, 4), 4),
                               ite(go_cmd, w, z3.LShR(word, 1), 10),
                               ite(act, bvv(0, 4), ite(gap == 15, gap, gap + 1, 4), 4),
                               ite(go_cmd, bvv(1, 3), ncmd, 3))):
            f = z3.BitVec("ref%d_%d" % (i, t), v.size())
            b.constraints.append(f == v)
            n.append(f)
        left, word, gap, ncmd = n
        if t == K - 1:
            b.check("not busy for ever", True)
        b.tick()
    # idle: becomes free
    for t in range(16):
        b.set(d._send_cmd_data.re, 0)
        b.set(d._send_go.re, 0)
        b.tick()
    b.check("free again", Not(bit(b.get(d._status.status), 0)))
    return b.solve(timeout=700, validate=2, by_frame=True)


def clock_lane(fam):
    """the clock lane shows one rising edge per pixel, at the first bit"""
    m = Top(fam + "out")
    b = Bench(m)
    if fam == "s7":
        buf, = instances(b, "OBUFDS")
        ser = instances(b, "OSERDESE2")
        ma, = [x for x in ser if port(x, "OQ") is not None and same_net(port(x, "OQ"), port(buf, "I"))]
        sl, = [x for x in ser if x is not ma]
        w = [port(ma, "D%d" % i) for i in range(1, 9)] + [port(sl, "D3"), port(sl, "D4")]
        for i, e in enumerate(w):
            b.check("clock word bit %d" % i, eq(b.get(e), int(i < 5)))
    else:
        o, = instances(b, "ODDR2")
        b.check("high first", eq(b.get(port(o, "D0")), 1) if not isinstance(port(o, "D0"), (bool, int)) else port(o, "D0") == 1)
        b.check("low second", eq(b.get(port(o, "D1")), 0) if not isinstance(port(o, "D1"), (bool, int)) else port(o, "D1") == 0)
    return b.solve(validate=0)


def jobs(tier):
    K = 60 if tier == "thorough" else 34
    return [{"name": "reconfiguration port %s%s" % (w, " split" if s else ""), "func": drp, "kw": {"what": w, "split": s}}
            for w, s in (("s6out", False), ("s7out", False), ("s6in", False), ("s7in", False), ("s7in", True))] + \
        [{"name": "DCM command", "func": dcm, "kw": {"K": K}},
         {"name": "DCM after many commands", "func": dcm, "kw": {"K": 16, "before": 1024}}] + \
        [{"name": "clock lane " + f, "func": clock_lane, "kw": {"fam": f}} for f in ("s6", "s7")]
