"""Exact reference arithmetic on half-float encodings (round toward zero)."""
import z3
from fv.bench import bvv


def exp_of(x):
    e = z3.Extract(14, 10, x)
    return z3.If(e == 0, bvv(1, 5), e)


def mant_of(x):
    e = z3.Extract(14, 10, x)
    return z3.Concat(z3.If(e == 0, bvv(0, 1), bvv(1, 1)), z3.Extract(9, 0, x))


def finite_nonneg(b, x):
    b.assume(z3.And(z3.Extract(15, 15, x) == 0, z3.Extract(14, 10, x) != 31))


def encode_rz(v, n, scale):
    """v: n-bit natural number, value v * 2^-scale.  -> (half encoding rounded toward zero, overflow)
    scale: half ulp exponent: smallest subnormal is 2^-24."""
    r = bvv(0, 16)
    ovf = z3.BoolVal(False)
    # leading one at bit k: value in [2^(k-scale), 2^(k-scale+1)); exponent field E = k - scale + 15
    sub = z3.LShR(v, scale - 24) if scale >= 24 else v << (24 - scale)
    r = z3.Concat(bvv(0, 6), z3.Extract(9, 0, sub))
    for k in range(n):
        E = k - scale + 15
        if E < 1:
            continue
        top = z3.Extract(k, k, v) == 1
        if E > 30:
            ovf = z3.Or(ovf, top)
            continue
        f = z3.LShR(v, k - 10) if k >= 10 else v << (10 - k)
        r = z3.If(top, z3.Concat(bvv(E, 6), z3.Extract(9, 0, f)), r)
    return r, ovf


def mul_rz(x, y):
    """exact product: m1*m2 * 2^(e1+e2-50)"""
    p = z3.ZeroExt(11, mant_of(x)) * z3.ZeroExt(11, mant_of(y))       # 22 bits
    s = z3.ZeroExt(2, exp_of(x)) + z3.ZeroExt(2, exp_of(y))           # 2..60
    # v = p << (s-2), value v * 2^-48
    r, ovf = bvv(0, 16), z3.BoolVal(False)
    for sv in range(2, 61):
        # leading one of p at bit k: exponent field E = k + sv - 50 + 15
        sel = s == sv
        sh = sv - 50 + 24          # subnormal fraction = p * 2^sh
        sub = (z3.ZeroExt(12, p) << sh) if sh >= 0 else z3.LShR(z3.ZeroExt(12, p), -sh)
        rr, oo = z3.Concat(bvv(0, 6), z3.Extract(9, 0, sub)), z3.BoolVal(False)
        for k in range(22):
            E = k + sv - 35
            if E < 1:
                continue
            top = z3.Extract(k, k, p) == 1
            if E > 30:
                oo = z3.Or(oo, top)
                continue
            f = z3.LShR(p, k - 10) if k >= 10 else p << (10 - k)
            rr = z3.If(top, z3.Concat(bvv(E, 6), z3.Extract(9, 0, f)), rr)
        r = z3.If(sel, rr, r)
        ovf = z3.Or(ovf, z3.And(sel, oo))
    return r, ovf


def add_rz(x, y):
    """exact sum as a natural number of 2^-24"""
    def nat(v):
        return z3.ZeroExt(31, mant_of(v)) << z3.ZeroExt(37, exp_of(v) - 1)
    v = nat(x) + nat(y)                     # 42 bits
    return encode_rz(v, 42, 24)
