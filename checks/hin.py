"""HDMIIn with the vendor primitives (capture, clocking) replaced by plain word inputs."""
from migen import *
from fv.bench import *


class _Cap(Module):
    def __init__(self, *a, **k):
        self.d = Signal(10)


class _Clk(Module):
    def __init__(self, *a, **k):
        pass


class _Pads:
    data0_p = data0_n = data1_p = data1_n = data2_p = data2_n = None


DOM = ["pix", "pix_o", "sys"]


def hdmi_in(port=None, **kw):
    # the receiver's own source is executed again with the vendor classes replaced
    import importlib
    import litevideo.input as li
    import litevideo.input.clocking as clocking
    import litevideo.input.datacapture as datacapture
    clocking.S7Clocking = _Clk
    datacapture.S7DataCapture = _Cap
    li = importlib.reload(li)
    return li.HDMIIn(_Pads(), port, device="xc7", **kw)


CTL = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]
VGB = [0b1011001100, 0b0100110011, 0b1011001100]


def ctl_word(c):
    if isinstance(c, int):
        return CTL[c]
    e = bvv(CTL[0], 10)
    for i in range(1, 4):
        e = z3.If(c == i, bvv(CTL[i], 10), e)
    return e


def dvi_decode(x):
    """8-bit value of a data word (int or symbolic)"""
    if isinstance(x, int):
        q = x & 0xff
        if x >> 9 & 1:
            q ^= 0xff
        r = q & 1
        for i in range(1, 8):
            y = (q >> i ^ q >> (i - 1)) & 1
            r |= (y if x >> 8 & 1 else 1 - y) << i
        return r
    q = z3.If(bit(x, 9), ~bits(x, 7, 0), bits(x, 7, 0))
    ref = [bits(q, 0, 0)]
    for i in range(1, 8):
        y = bits(q, i, i) ^ bits(q, i - 1, i - 1)
        ref.append(z3.If(bit(x, 8), y, ~y))
    return z3.Concat(*reversed(ref))


import z3  # noqa: E402


def is_ctl(w):
    return z3.Or(*[w == c for c in CTL])
