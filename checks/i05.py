"""EDID / DDC slave: symbolic I2C transactions of the source, bit by bit on the wires and through the real 64-cycle input
sampling; acknowledges, data bits and releases of the data line compared with the I2C and DDC definition."""
import z3
from migen import *
from fv.bench import *

FUNCTIONS = ["litevideo.input.edid.EDID"]
BOUNDS = ("one or two transactions of up to 5 bytes from reset, every address byte, offset, written data and acknowledge, "
          "restart / abort / disable at any bit of them; quarter bit of 70 system clocks at several phases of the input "
          "sampling; a read after any number up to 128 (quick) / 384 (thorough) of starts, stops and addresses; 128 and 256 byte contents, distinct at every address")
ASSUMPTIONS = ["Migen simulator semantics of the design", "the source keeps to I2C timing: lines are stable for at least 70 "
               "system clocks (the input filter samples every 64)"]

Q = 70


class _Pads:
    pass


class Top(Module):
    """the pads as plain signals; `drv` = the slave pulls SDA low"""

    def __init__(self, n=256, hpd=False, variant="tristate"):
        p = self.pads = _Pads()
        p.scl, p.sda = Signal(reset=1), Signal(reset=1)
        if variant == "inverted":
            p.scl.inverted = True
            p.sda.inverted = True
        if variant in ("pupd", "inverted"):
            p.sda_pu, p.sda_pd = Signal(), Signal()
        if hpd:
            p.hpd_en = Signal()
            p.hpd_notif = Signal()
            if variant == "inverted":
                p.hpd_notif.inverted = True
        from litevideo.input.edid import EDID
        self.data = [(i * 73 + 41 + (i >> 7)) & 0xff for i in range(n)] if n != 256 else None
        if self.data is None:
            # a permutation of the bytes: every address has its own content
            self.data = [(i * 73 + 41) & 0xff for i in range(n)]
        self.submodules.dut = EDID(p, self.data)


class I2C:
    def __init__(self, b, top, phase=0, variant="tristate"):
        self.b, self.top, self.variant = b, top, variant
        self.sda = True
        self.scl = True
        self.prev = None
        self.idle(6 * Q + phase)

    def pulls(self):
        """the slave pulls SDA low (condition)"""
        b = self.b
        if self.variant == "tristate":
            # with the source releasing the line, the pad reads low exactly when the slave pulls
            return bo(b.get(self.top.dut.sda_oe))
        b.check("SDA is never pulled up", eq(b.get(self.top.pads.sda_pu), 0))
        return bo(b.get(self.top.pads.sda_pd))

    def tick(self, n, stable=False):
        b, p = self.b, self.top.pads
        inv = self.variant == "inverted"
        for k in range(n):
            b.set(p.scl, int(self.scl) ^ int(inv))
            if self.variant == "tristate":
                b.set(p.sda, self.sda)
            else:
                pd = bo(b.peek(p.sda_pd))
                line = And(self.sda, Not(pd))
                b.set(p.sda, Not(line) if inv else line)
            b.tick()
            if k % 16 == 15 or k == n - 1:
                d = self.pulls()
                if stable and self.prev is not None:
                    b.check("SDA is stable while SCL is high", Iff(d, self.prev))
                self.prev = d

    def idle(self, n):
        self.scl, self.sda = True, True
        self.tick(n)

    def start(self):
        """from idle or (repeated) from SCL low"""
        if not self.scl:
            self.tick(Q)
            self.sda = True
            self.tick(Q)
            self.scl = True
            self.tick(Q)
        self.sda = False
        self.tick(Q)
        self.scl = False
        self.prev = None

    def stop(self):
        self.tick(Q)
        self.sda = False
        self.tick(Q)
        self.scl = True
        self.tick(Q)
        self.sda = True
        self.tick(Q)

    def bit(self, first, second=None):
        """one SCL period with SDA = first (and second in the last quarter, a start or stop); returns whether the slave
        pulled SDA during the high phase"""
        self.b.early()
        second = first if second is None else second
        self.scl = False
        self.tick(Q)
        self.sda = first
        self.tick(Q)
        self.scl = True
        self.prev = None
        self.tick(Q, True)
        d = self.prev
        self.sda = second
        self.tick(Q, True)
        self.scl = False
        return d

    def send(self, byte, n=8):
        """n bits, most significant first; the slave must leave the line alone"""
        for i in range(n):
            d = self.bit(bit(byte, n - 1 - i))
            self.b.check("the slave leaves SDA alone while the source sends", Not(d))

    def ack(self):
        """acknowledge bit of a byte sent: True if the slave acknowledged"""
        return self.bit(True)

    def recv(self):
        """8 bits from the slave as list of conditions, most significant first"""
        return [Not(self.bit(True)) for _ in range(8)]


def rom(data, a, n=8):
    """data[a mod len] as 8-bit term"""
    if isinstance(a, int):
        return data[a % len(data)]
    w = (len(data) - 1).bit_length()
    a = bits(a, w - 1, 0)
    e = bvv(0, 8)
    # one bit plane at a time
    def tree(lo, n, k):
        if n == 1:
            return bvv(data[lo], 8)
        h = n // 2
        return z3.If(bit(a, k - 1), tree(lo + h, h, k - 1), tree(lo, h, k - 1))
    return tree(0, len(data), w)


def byte_is(bl, v):
    return And(*[Iff(x, bit(v, 7 - i)) for i, x in enumerate(bl)])


def setup(n=256, hpd=False, variant="tristate", phase=0):
    top = Top(n, hpd, variant)
    b = Bench(top)
    b.budget = 30
    if hpd:
        b.set(top.dut._hpd_en.storage, 1)
    return top, b, I2C(b, top, phase, variant)


def job_read(n, phase, variant, acks):
    """offset write, repeated start, `acks` bytes read and acknowledged, one not acknowledged, then nothing"""
    top, b, m = setup(n, False, variant, phase)
    off = b.var("offset", 8)
    m.start()
    m.send(0xa0)
    b.check("the write address is acknowledged", m.ack())
    m.send(off)
    b.check("the offset is acknowledged", m.ack())
    m.start()
    m.send(0xa1)
    b.check("the read address is acknowledged", m.ack())
    for k in range(acks + 1):
        b.check("byte %d read" % k, byte_is(m.recv(), rom(top.data, off + bvv(k, 8))))
        b.check("the slave releases SDA for the acknowledge", Not(m.bit(k == acks)))
    for k in range(10):
        b.check("no more bytes after a NACK", Not(m.bit(True)))
    return b.solve(timeout=250)


def job_address(phase, own):
    """every address byte after a start; an unaddressed slave stays off the bus until the next start"""
    top, b, m = setup(phase=phase)
    b.concretise = 4
    a = b.var("address", 8)
    if not own:
        b.assume(Not(eq(bits(a, 7, 1), 0x50)))
        m.start()
        m.send(a)
        b.check("another address is not acknowledged", Not(m.ack()))
        for k in range(2):
            m.send(b.var("other", 9), 9)
    rw = b.var("rw", 1)
    for r in (0, 1):
        m.start()
        m.send(0xa0 | r)
        b.check("the own address is acknowledged", m.ack())
        if r:
            b.check("a read returns the byte at the offset", byte_is(m.recv(), rom(top.data, a) if own else top.data[0]))
        else:
            # the offset, or (address seen before, not the own) a start right after the address
            if own:
                m.send(a)
                b.check("the offset is acknowledged", m.ack())
                m.stop()
    return b.solve(timeout=250)


def job_current(phase, tier):
    """the address counter goes on after a read: write offset, stop, read, stop, read"""
    top, b, m = setup(phase=phase)
    off = b.var("offset", 8)
    m.start()
    m.send(0xa0)
    b.check("acknowledge", m.ack())
    m.send(off)
    b.check("acknowledge", m.ack())
    m.stop()
    m.idle(3 * Q)
    for k in range(2):
        m.start()
        m.send(0xa1)
        b.check("acknowledge", m.ack())
        b.check("current address read %d" % k, byte_is(m.recv(), rom(top.data, off + bvv(k, 8))))
        b.check("the slave releases SDA for the acknowledge", Not(m.bit(True)))
        m.stop()
        m.idle(3 * Q)
    return b.solve(timeout=250)


def job_many(n):
    """this many bus events before; then, from the state after any of them, a read at any offset"""
    top, b, m = setup()
    ticks = [0]
    tick = m.tick

    def count(k, stable=False):
        ticks[0] += k
        tick(k, stable)
    m.tick = count
    snaps = []
    for i in range(n):
        if i % 2:
            m.start()
            if i % 4 == 1:
                m.send(0x5e)
                b.check("another address is not acknowledged", Not(m.ack()))
            m.stop()
            m.idle(2 * Q)
        m.start()
        m.send(0xa0)
        b.check("acknowledge", m.ack())
        m.stop()
        m.idle(2 * Q)
        m.idle(-ticks[0] % 64)
        snaps.append(b.snap())
    r = b.solve(timeout=60, validate=0)
    if r.status != "held":
        return r
    b.jump(snaps, "events")
    m.sda = m.scl = True
    m.idle(Q)
    off = b.var("offset", 8)
    m.start()
    m.send(0xa0)
    b.check("the write address is acknowledged", m.ack())
    m.send(off)
    b.check("the offset is acknowledged", m.ack())
    m.start()
    m.send(0xa1)
    b.check("the read address is acknowledged", m.ack())
    b.check("the byte is read", byte_is(m.recv(), rom(top.data, off)))
    b.check("the slave releases SDA for the acknowledge", Not(m.bit(True)))
    m.stop()
    return b.solve(timeout=250, validate=1)


def job_restart(phase, what, positions):
    """a start at any bit (what = write: while bytes are written, read: while a released bit is read) begins a fresh
    transaction"""
    total = None
    for pos in positions:
        top, b, m = setup(phase=phase)
        b.concretise = 4
        m.start()
        off = b.var("offset", 8)
        if what == "write":
            # any byte but the own address, then another byte; or the own address and the offset
            b.assume(Not(eq(bits(off, 7, 1), 0x50)) if pos < 8 else True)
            old = off if pos < 8 else 0xa0
            m.send(old if isinstance(old, int) else z3.Extract(7, 8 - pos, old) if pos else 0, min(pos, 8))
            if pos >= 8:
                b.check("acknowledge", m.ack())
                if pos > 8:
                    m.send(z3.Extract(7, 16 - pos, off), pos - 8)
            want = 0
        else:
            m.send(0xa0)
            b.check("acknowledge", m.ack())
            m.send(off)
            b.check("acknowledge", m.ack())
            m.start()
            m.send(0xa1)
            b.check("acknowledge", m.ack())
            v = rom(top.data, off)
            for i in range(pos):
                b.check("bit read", Iff(Not(m.bit(True)), bit(v, 7 - i)))
            # a source can only issue a start where the slave releases the line
            if pos < 8:
                b.assume(bit(v, 7 - pos))
            else:
                b.check("released", True)
            want = off
        d = m.bit(True, False)
        b.check("SDA free for the start", Not(d))
        m.send(0xa1)
        b.check("the address after a start at any bit is acknowledged", m.ack())
        got = m.recv()
        if what == "write" and pos == 15:
            # the offset's last bit was on the bus when the start came: either offset
            b.check("some byte is read after the restart", Or(byte_is(got, top.data[0]), byte_is(got, rom(
                top.data, z3.Concat(z3.Extract(7, 1, off), bvv(1, 1))))))
        elif what == "write":
            b.check("the byte at the offset is read after the restart", byte_is(got, rom(top.data, want)))
        else:
            b.check("the current byte is read after the restart", Or(byte_is(got, rom(top.data, want)),
                                                                     byte_is(got, rom(top.data, want + bvv(1, 8)))))
        b.check("released for the acknowledge", Not(m.bit(True)))
        r = b.solve(timeout=120)
        if total is None:
            total = r
        else:
            total.merge(r)
        if total.status != "held":
            break
    return total


def job_disable(variant, moments):
    """hot plug disabled at any moment of a read: the line is released and stays so; later accesses work"""
    total = None
    for pos, sub in moments:
        top, b, m = setup(hpd=True, variant=variant)
        b.check("hot plug enable reaches the pad", eq(b.get(top.pads.hpd_en), 1))
        m.start()
        m.send(0xa0)
        b.check("acknowledge", m.ack())
        o1 = b.var("offset", 8)
        m.send(o1)
        b.check("acknowledge", m.ack())
        m.start()
        m.send(0xa1)
        off = False
        for j in range(10):
            for k in range(4):
                now = j == pos and k == sub
                m.scl = k >= 2
                m.sda = True
                m.prev = None
                m.tick(11)
                if now:
                    off = True
                    b.set(top.dut._hpd_en.storage, 0)
                m.tick(8)
                b.check("hot plug enable reaches the pad", eq(b.get(top.pads.hpd_en), int(not off)))
                m.tick(Q - 19)
                if off:
                    b.check("disabled: SDA is released", Not(m.prev))
            if off and j > pos + 1:
                break
        r = b.solve(timeout=60, validate=0)
        if r.status != "held":
            return r
        # idle, enabled again
        m.idle(2 * Q)
        b.set(top.dut._hpd_en.storage, 1)
        m.idle(3 * Q)
        m.start()
        m.send(0xa0)
        b.check("acknowledge once enabled again", m.ack())
        o = b.var("offset", 8)
        m.send(o)
        b.check("acknowledge once enabled again", m.ack())
        m.start()
        m.send(0xa1)
        b.check("acknowledge once enabled again", m.ack())
        b.check("read once enabled again", byte_is(m.recv(), rom(top.data, o)))
        r = b.solve(timeout=120, validate=1)
        if total is None:
            total = r
        else:
            total.merge(r)
        if total.status != "held":
            break
    return total


def job_notif(variant):
    top, b, m = setup(hpd=True, variant=variant)
    last = []
    for i in range(8):
        v = b.inp(top.pads.hpd_notif)
        last.append(v)
        b.tick()
        if i >= 3:
            g = bo(b.get(top.dut._hpd_notif.status))
            if variant == "inverted":
                g = Not(g)
            b.check("hot plug status follows the pad", Or(*[Iff(g, bo(x)) for x in last[-3:]]))
    for i in range(4):
        b.set(top.pads.hpd_notif, last[-1])
        b.tick()
    g = bo(b.get(top.dut._hpd_notif.status))
    b.check("hot plug status settles", Iff(g, Not(bo(last[-1])) if variant == "inverted" else bo(last[-1])))
    return b.solve(timeout=60)


def job_default():
    """the default contents are valid EDID blocks: header and checksums (constant, through the design's memory)"""
    top = Top.__new__(Top)
    Module.__init__(top)
    p = _Pads()
    p.scl, p.sda = Signal(reset=1), Signal(reset=1)
    from litevideo.input.edid import EDID
    top.pads = p
    top.submodules.dut = EDID(p)
    b = Bench(top)
    init = top.dut.mem.init
    b.check("header", list(init[:8]) == [0] + [255] * 6 + [0])
    b.check("number of extensions", init[126] == len(init) // 128 - 1)
    for i in range(0, len(init), 128):
        b.check("checksum of block %d" % (i // 128), sum(init[i:i + 128]) % 256 == 0)
    b.check("size", len(init) == top.dut.mem.depth)
    b.tick()
    return b.solve(timeout=60, validate=0)


def jobs(tier):
    q = tier == "quick"
    ph = (0, 37) if q else (0, 5, 23, 37, 50, 61)
    r = [dict(name="read %d bytes of %d phase %d %s" % (k + 1, n, p, v), func=job_read,
              kw=dict(n=n, phase=p, variant=v, acks=k))
         for n, p, v, k in [(256, ph[0], "tristate", 2), (256, ph[1], "tristate", 0), (128, ph[1], "pupd", 1),
                            (256, 11, "inverted", 1)] +
         ([] if q else [(256, x, "tristate", 5) for x in ph] + [(128, x, "tristate", 1) for x in ph])]
    r += [dict(name="%s address phase %d" % (["another", "own"][o], p), func=job_address, kw=dict(phase=p, own=o))
          for p in ph for o in (0, 1)]
    r += [dict(name="current address", func=job_current, kw=dict(phase=19, tier=tier))]
    r.insert(0, dict(name="after many transactions", func=job_many, kw=dict(n=128 if q else 384)))
    for p in ph[:2] if q else ph:
        r += [dict(name="restart during write at %d.. phase %d" % (s, p), func=job_restart,
                   kw=dict(phase=p, what="write", positions=list(range(s, s + 4)))) for s in (0, 4, 8, 12)]
        r += [dict(name="restart during read at %d.. phase %d" % (s, p), func=job_restart,
                   kw=dict(phase=p, what="read", positions=list(range(s, min(s + 4, 8))))) for s in (0, 4)]
    mom = [(j, k) for j in range(10) for k in range(4)]
    n = 10
    for v in ("tristate",) if q else ("tristate", "inverted", "pupd"):
        r += [dict(name="disabled %s part %d/%d" % (v, i + 1, n), func=job_disable, kw=dict(variant=v, moments=mom[i::n]))
              for i in range(n)]
    r += [dict(name="hot plug status %s" % v, func=job_notif, kw=dict(variant=v)) for v in ("pupd", "inverted")]
    r += [dict(name="default contents", func=job_default)]
    for j in r:
        j["func"] = stops_early(j["func"])
    return r
