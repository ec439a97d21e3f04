"""FloatMult: for all non-negative finite half-floats whose product is below 65536, the result is the exact product
rounded toward zero (subnormal operands and results included); operands fully symbolic, bit-vector encoding."""
import z3
from fv.bench import *
from fv.stream import isolated
from checks.fp16 import *

FUNCTIONS = ["litevideo.float_arithmetic.floatmult.FloatMult (FloatMultDatapath)", "float_arithmetic.common.LeadOne"]
BOUNDS = "all pairs of non-negative finite half-floats with exact product < 65536"
ASSUMPTIONS = ["Migen simulator semantics of the design", "negative operands, Inf and NaN are outside the claim "
               "(the core documents itself as work in progress and does not implement them)"]


def job(region):
    from litevideo.float_arithmetic.floatmult import FloatMult
    d = FloatMult()
    b = Bench(d)
    x, y = b.var("in1", 16), b.var("in2", 16)
    finite_nonneg(b, x)
    finite_nonneg(b, y)
    ex, ey = exp_of(x), exp_of(y)
    s = z3.ZeroExt(3, ex) + z3.ZeroExt(3, ey)
    lo, hi = region
    b.assume(z3.And(z3.UGE(s, lo), z3.ULE(s, hi)))
    lat = isolated(b, d.sink, d.source, {"in1": x, "in2": y})
    b.check("a result comes out", lat is not None)
    if lat is not None:
        o = b.get(d.source.out)
        ref, ovf = mul_rz(x, y)
        b.assume(z3.Not(ovf))
        b.check("exact product rounded toward zero", eq(o, ref))
        b.cover("nonzero operands", z3.And(x != 0, y != 0))
    return b.solve(timeout=600, validate=4)


def jobs(tier):
    rs = [(0, 8), (9, 14), (15, 16), (17, 24), (25, 26), (27, 36), (37, 45)]
    return [{"name": "exponents %d..%d" % r, "func": job, "kw": {"region": r}} for r in rs]
