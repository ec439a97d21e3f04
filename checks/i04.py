"""Frame capture DMA: symbolic software (through the real CSR bank), incoming words, and memory-port stalls; a monitor
written from the slot protocol watches the memory port, the slot registers and what happens to every word."""
import z3
from migen import *
from fv.bench import *

FUNCTIONS = ["litevideo.input.dma.DMA (_SlotArray, _Slot)", "LiteDRAMDMAWriter, CSRBank as used by it"]
BOUNDS = ("2 slots, frames of 1..3 words, 15 (quick) / 17 (thorough) cycles of any software/frame/port behaviour from reset; "
          "any subset of 3 or 4 slots armed before as many frames; the first 9 words of a frame of any size at any address on 16..128 bit memories; one frame of 70000 (thorough 140000) words at any address with nothing stalling")
ASSUMPTIONS = ["Migen simulator semantics of the design", "address and data width scaled to 6 and 32 bits (24 and 32 bits for the long frame)",
               "software only writes a slot that is not armed, arms with distinct addresses, and sets the frame size "
               "(at least one word) before"]


class Top(Module):
    def __init__(self, nslots, dw=32, aw=6):
        from litevideo.input.dma import DMA
        from litedram.common import LiteDRAMNativePort
        from litex.soc.interconnect.csr_bus import CSRBank, Interface
        self.port = LiteDRAMNativePort("write", aw, dw)
        self.submodules.dma = DMA(self.port, nslots)
        self.bus = Interface(data_width=32)
        # names as a SoC would give them
        self.csrs = csrs = self.dma.get_csrs()
        self.submodules.bank = CSRBank(csrs, bus=self.bus)

    def adr(self, csr):
        for i, c in enumerate(self.bank.simple_csrs):
            if c in csr.simple_csrs:
                return i


def job(K, part, live=False):
    m = Top(2)
    slots = [m.dma._slot_array.slot0, m.dma._slot_array.slot1]
    b = Bench(m)
    SH = 2
    # frame size
    size = b.var("size", 2)
    b.assume(size != 0)
    b.set(m.bus.adr, m.adr(m.dma._frame_size))
    b.set(m.bus.dat_w, z3.ZeroExt(28, z3.Concat(size, bvv(0, SH))))
    b.set(m.bus.we, 1)
    b.tick("sys")
    b.set(m.bus.we, 0)
    p, f = m.port, m.dma.frame
    adrs = [(m.adr(s._address), m.adr(s._status)) for s in slots]
    busy = z3.BoolVal(False)          # inside a frame
    base = bvv(0, 6)
    idx = bvv(0, 2)
    which = bvv(0, 1)
    ncmd = bvv(0, 5)
    ndat = bvv(0, 5)
    tr = b.var("tracked", 5)
    tdata = bvv(0, 32)
    armed = [z3.BoolVal(False)] * 2
    armed_age = [bvv(0, 2)] * 2
    sadr = [bvv(0, 6)] * 2
    finish = z3.BoolVal(False)        # all words stored, completion due
    k = 0

    def name(x):
        nonlocal k
        k += 1
        if isinstance(x, (bool, int)):
            return x
        v = z3.Const("ref%d" % k, x.sort())
        b.constraints.append(v == x)
        return v

    held = None
    for t in range(K):
        st = [b.get(s._status.storage) for s in slots]
        ad = [b.get(s._address.storage) for s in slots]
        irq = [b.get(s.ev_source.pending) for s in slots]
        # slot registers against the monitor
        for i in range(2):
            done_now = And(armed[i], eq(st[i], 2))
            b.check("slot %d completes only when its whole frame is in memory" % i,
                    Implies(done_now, And(finish, eq(which, i), ndat == ncmd)))
            b.check("completed slot %d reports the end of its frame" % i,
                    Implies(done_now, eq(bv(ad[i], 8), z3.Concat(sadr[i] + z3.ZeroExt(4, size), bvv(0, 2)))))
            b.check("armed slot %d stays armed otherwise" % i, Implies(And(armed[i], Not(done_now)), eq(st[i], 1)))
            b.check("event %d" % i, Iff(irq[i], bit(st[i], 1)))
            finish = And(finish, Not(done_now))
            sadr[i] = name(ite(done_now, sadr[i] + z3.ZeroExt(4, size), sadr[i], 6))
            armed[i] = And(armed[i], Not(done_now))
        # software
        w = b.var("sw_write", 1)
        s = b.var("sw_slot", 1)
        reg = b.var("sw_reg", 1)
        val = b.var("sw_val", 6)
        arm = b.var("sw_arm", 1)
        b.set(m.bus.we, w)
        a = z3.If(reg == 0, z3.If(s == 0, bvv(adrs[0][0], 14), bvv(adrs[1][0], 14)),
                  z3.If(s == 0, bvv(adrs[0][1], 14), bvv(adrs[1][1], 14)))
        b.set(m.bus.adr, a)
        b.set(m.bus.dat_w, z3.If(reg == 0, z3.ZeroExt(24, z3.Concat(val, bvv(0, 2))), z3.ZeroExt(31, arm)))
        sel_armed = ite(s == 0, armed[0], armed[1])
        b.assume(Implies(w, Not(sel_armed)))
        oth = z3.If(s == 0, sadr[1], sadr[0])
        mine = z3.If(s == 0, sadr[0], sadr[1])
        oth_armed = ite(s == 0, armed[1], armed[0])
        dist = mine - oth
        b.assume(Implies(And(w == 1, reg == 1, arm == 1, oth_armed), z3.And(z3.UGE(dist, 3), z3.ULE(dist, 61))))
        # frame words and port
        fv, sof = b.inp(f.valid, "word"), b.inp(f.sof, "sof")
        px = b.inp(f.pixels, "pixels")
        if held is not None:      # stream protocol: a word offered and not taken stays
            hv, hs, hp = held
            b.assume(Implies(hv, And(fv, eq(sof, hs), eq(px, hp))))
        cr = b.inp(p.cmd.ready, "cmd_ready")
        dr = b.inp(p.wdata.ready, "wdata_ready")
        cmd = And(b.get(p.cmd.valid), cr)
        we = b.get(p.cmd.we)
        addr = b.get(p.cmd.addr)
        take = And(fv, b.get(f.ready))
        held = (And(fv, Not(take)), sof, px)
        dat = And(b.get(p.wdata.valid), dr)
        b.check("commands are writes", Implies(cmd, eq(we, 1)))
        b.check("every command consumes one word", Implies(cmd, take))
        start = And(cmd, Not(busy))
        hit = [And(armed[i], eq(addr, sadr[i])) for i in range(2)]
        b.check("a frame starts at an armed slot", Implies(start, Or(*hit)))
        b.check("a frame starts with its first word", Implies(start, eq(sof, 1)))
        b.check("no frame before the previous slot is completed", Implies(start, Not(finish)))
        b.check("words of a frame go to consecutive addresses",
                Implies(And(cmd, busy), eq(addr, base + z3.ZeroExt(4, idx))))
        b.check("no word of a frame is lost", Implies(And(take, busy), cmd))
        ready_slot = Or(*[And(armed[i], armed_age[i] == 3) for i in range(2)])
        b.check("no frame is skipped while a slot is armed",
                Implies(And(take, sof, Not(busy), Not(finish), ready_slot), cmd))
        b.check("data after its command", Implies(dat, z3.ULT(ndat, ncmd)))
        b.check("data in order", Implies(And(dat, ndat == tr), eq(b.get(p.wdata.data), tdata)))
        b.check("all bytes written", Implies(dat, eq(b.get(p.wdata.we), 15)))
        # monitor update
        tdata = name(z3.If(bo(And(cmd, ncmd == tr)), bv(px, 32), tdata))
        base = name(ite(start, addr, base, 6))
        which = name(ite(start, ite(hit[0], bvv(0, 1), bvv(1, 1)), which, 1))
        idx2 = ite(cmd, ite(busy, idx + 1, bvv(1, 2)), idx, 2)
        end = And(cmd, eq(idx2, size))
        finish = name(Or(finish, end))
        busy = name(And(Or(busy, start), Not(end)))
        idx = name(idx2)
        ncmd = name(ncmd + bv(cmd, 5))
        ndat = name(ndat + bv(dat, 5))
        for i in range(2):
            mineb = And(w == 1, s == i)
            sadr[i] = name(z3.If(bo(And(mineb, reg == 0)), val, sadr[i]))
            now = And(mineb, reg == 1, arm == 1)
            armed_age[i] = name(z3.If(bo(armed[i]), z3.If(armed_age[i] == 3, bvv(3, 2), armed_age[i] + 1), bvv(0, 2)))
            armed[i] = name(Or(armed[i], now))
        b.tick("sys")
    if not live:
        b.cover("two frames stored", And(z3.UGE(ncmd, 4), size == 2))
        return b.solve(timeout=800, validate=1, by_frame=True, part=part)
    b.checks.clear()
    # everything ready: a started frame completes
    b.set(m.bus.we, 0)
    b.set(p.cmd.ready, 1)
    b.set(p.wdata.ready, 1)
    b.set(f.valid, 1)
    b.set(f.sof, 0)
    for t in range(12):
        b.tick("sys")
    pend = [eq(b.get(s._status.storage), 2) for s in slots]
    b.check("a started frame completes", Implies(Or(busy, finish), Or(And(which == 0, pend[0]), And(which == 1, pend[1]))))
    b.cover("one frame stored", And(busy, z3.UGE(ncmd, 2)))
    return b.solve(timeout=750, validate=1)


def long_(n, size):
    """one slot, full address width, a frame of n words at any address, nothing stalls"""
    m = Top(2, aw=24)
    slot = m.dma._slot_array.slot1
    b = Bench(m)
    b.set(m.bus.we, 1)
    for csr, v in ((m.dma._frame_size, 4 * n), (slot._address, None), (slot._status, 1)):
        b.set(m.bus.adr, m.adr(csr))
        if v is None:
            base = b.var("base", 24)
            v = z3.ZeroExt(6, z3.Concat(base, bvv(0, 2)))
        b.set(m.bus.dat_w, v)
        b.tick()
    b.set(m.bus.we, 0)
    p, f = m.port, m.dma.frame
    b.set(p.cmd.ready, 1)
    b.set(p.wdata.ready, 1)
    b.set(f.valid, 1)
    b.set(f.sof, 1)
    cnt = 0
    st = 1
    for t in range(n + 60):
        b.set(f.pixels, cnt & 0xffff)
        st = b.get(slot._status.storage)
        if st == 2:
            break
        v = b.get(p.cmd.valid)
        if not isinstance(v, int):
            raise EncodeError("command depends on the slot address")
        if v:
            if cnt % size < 2 or cnt > n - 3 or cnt & (cnt - 1) == 0:
                b.check("words go to consecutive addresses", eq(b.get(p.cmd.addr), base + cnt))
            cnt += 1
            b.set(f.sof, 0)
        b.tick()
    b.check("a frame of %d words is written whole and reported done" % n, cnt == n and st == 2)
    b.check("its end is reported", eq(b.get(slot._address.storage), z3.Concat(base + n, bvv(0, 2))))
    return b.solve(timeout=600, validate=0)


def wide(dw, n=9):
    """a frame of any size of more than n words, at any address, on a memory of any width: not done after n words, each stored
    in its place"""
    m = Top(2, dw=dw, aw=24)
    slot = m.dma._slot_array.slot0
    b = Bench(m)
    b.concretise = 4
    SH = log2_int(dw//8)
    size, base = b.var("size", 24), b.var("base", 24)
    b.assume(z3.UGT(size, n))
    b.set(m.bus.we, 1)
    for csr, v in ((m.dma._frame_size, size), (slot._address, base), (slot._status, 1)):
        b.set(m.bus.adr, m.adr(csr))
        b.set(m.bus.dat_w, v if isinstance(v, int) else z3.ZeroExt(8 - SH, z3.Concat(v, bvv(0, SH))))
        b.tick()
    b.set(m.bus.we, 0)
    p, f = m.port, m.dma.frame
    b.set(p.cmd.ready, 1)
    b.set(p.wdata.ready, 1)
    b.set(f.sof, 1)
    words = [b.var("word", dw) for i in range(n)]

    def nth(i):
        r = words[n - 1]
        for k in range(n - 1):
            r = z3.If(i == k, words[k], r)
        return r

    def name(x):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x
        v = b.var("cnt", 5)
        b.constraints.append(v == x)
        return v

    cmds = dats = bvv(0, 5)
    for t in range(n + 24):
        b.set(f.valid, z3.simplify(z3.If(z3.ULT(cmds, n), bvv(1, 1), bvv(0, 1))))
        b.set(f.pixels, z3.simplify(nth(cmds)))
        b.set(f.sof, z3.simplify(z3.If(cmds == 0, bvv(1, 1), bvv(0, 1))))
        b.check("not reported done before its end", eq(b.get(slot._status.storage), 1))
        c, d = b.get(p.cmd.valid), b.get(p.wdata.valid)
        b.check("words go to consecutive addresses", Implies(c, And(eq(b.get(p.cmd.addr), base + z3.ZeroExt(19, cmds)),
                                                                   z3.ULT(cmds, n))))
        b.check("the word is stored", Implies(d, And(z3.ULT(dats, n), eq(b.get(p.wdata.data), nth(dats)),
                                                     eq(b.get(p.wdata.we), (1 << dw//8) - 1))))
        cmds, dats = name(cmds + bv(c, 5)), name(dats + bv(d, 5))
        b.tick()
    b.check("every word of the frame is stored", And(cmds == n, dats == n))
    b.cover("a very long frame", bit(size, 23))
    return b.solve(timeout=300, validate=1)


def many(n, size, frames):
    """any subset of n slots armed, frames without stalls: every armed slot gets one whole frame, no other slot any word"""
    m = Top(n, aw=8)
    slots = [getattr(m.dma._slot_array, "slot%d" % i) for i in range(n)]
    b = Bench(m)
    arm = [b.var("armed", 1) for i in range(n)]
    b.set(m.bus.we, 1)
    w = [(m.dma._frame_size, 4 * size)] + [(s._address, 4 * (16 * i + 5)) for i, s in enumerate(slots)]
    for csr, v in w + [(s._status, z3.ZeroExt(31, arm[i])) for i, s in enumerate(slots)]:
        b.set(m.bus.adr, m.adr(csr))
        b.set(m.bus.dat_w, v)
        b.tick()
    b.set(m.bus.we, 0)
    for k in range(4):
        b.tick()
    p, f = m.port, m.dma.frame
    b.set(p.cmd.ready, 1)
    b.set(p.wdata.ready, 1)
    # the first word of a frame is offered twice: the waiting state machine starts on it and stores it in the next cycle
    hits = [bvv(0, 3)] * n
    for k in range(frames):
        for t in range(size + 14):
            b.set(f.valid, int(t < 2 or 4 <= t < 2 + size + 2))
            b.set(f.sof, int(t < 2))
            b.set(f.pixels, 0)
            a, v = b.get(p.cmd.addr), b.get(p.cmd.valid)
            for i in range(n):
                mine = And(v, eq(bits(bv(a, 8), 7, 4), i))
                b.check("slot %d written only when armed" % i, Implies(mine, arm[i] == 1))
                c = z3.Const("hits%d_%d_%d" % (k, t, i), hits[i].sort())
                b.constraints.append(c == hits[i] + bv(mine, 3))
                hits[i] = c
                b.check("one frame per arming, at its address", Implies(mine, And(z3.ULE(c, size), eq(bits(bv(a, 8), 3, 0), bv(c, 4) + 4))))
            b.tick()
    for i, s in enumerate(slots):
        b.check("slot %d holds a frame exactly if it was armed" % i, eq(hits[i], z3.If(arm[i] == 1, bvv(size, 3), bvv(0, 3))))
        b.check("slot %d reported done" % i, eq(b.get(s._status.storage), z3.If(arm[i] == 1, bvv(2, 2), bvv(0, 2))))
        b.check("event %d" % i, Iff(b.get(s.ev_source.pending), arm[i] == 1))
    b.cover("all armed", And(*[x == 1 for x in arm]))
    return b.solve(timeout=600, validate=1)


def jobs(tier):
    K, L = (17, 12) if tier == "thorough" else (15, 11)
    N = 7
    n = 140000 if tier == "thorough" else 70000
    return [{"name": "any frame size and address, %d bit memory" % w, "func": wide, "kw": {"dw": w}} for w in (16, 32, 64, 128)] + \
        [{"name": "any subset of %d slots armed" % k, "func": many, "kw": {"n": k, "size": 2, "frames": k + 1}} for k in (3, 4)] + \
        [{"name": "frame of %d words" % n, "func": long_, "kw": {"n": n, "size": 97}}] + \
        [{"name": "a started frame completes, after %d" % L, "func": job, "kw": {"K": L, "part": None, "live": True}}] + \
        [{"name": "slots-%d part %d/%d" % (K, i + 1, N), "func": job, "kw": {"K": K, "part": (i, N)}}
         for i in reversed(range(N))]
