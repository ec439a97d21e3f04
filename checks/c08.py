"""FloatAdd: for all non-negative finite half-floats whose sum is below 65536, the result is the exact sum rounded
toward zero (zero and subnormal operands and results included); operands fully symbolic, bit-vector encoding."""
import z3
from fv.bench import *
from fv.stream import isolated
from checks.fp16 import *

FUNCTIONS = ["litevideo.float_arithmetic.floatadd.FloatAdd (FloatAddDatapath)", "float_arithmetic.common.LeadOne"]
BOUNDS = "all pairs of non-negative finite half-floats with exact sum < 65536"
ASSUMPTIONS = ["Migen simulator semantics of the design", "negative operands, Inf and NaN are outside the claim "
               "(the core documents itself as work in progress and does not implement them)"]


def job(order):
    from litevideo.float_arithmetic.floatadd import FloatAdd
    d = FloatAdd()
    b = Bench(d)
    x, y = b.var("in1", 16), b.var("in2", 16)
    finite_nonneg(b, x)
    finite_nonneg(b, y)
    b.assume(z3.UGE(x, y) if order == "ge" else z3.ULT(x, y))
    lat = isolated(b, d.sink, d.source, {"in1": x, "in2": y})
    b.check("a result comes out", lat is not None)
    if lat is not None:
        o = b.get(d.source.out)
        ref, ovf = add_rz(x, y)
        b.assume(z3.Not(ovf))
        b.check("exact sum rounded toward zero", eq(o, ref))
        b.cover("two normal operands", z3.And(exp_of(x) == 15, exp_of(y) == 15))
    return b.solve(timeout=600, validate=4)


def jobs(tier):
    return [{"name": "in1>=in2", "func": job, "kw": {"order": "ge"}},
            {"name": "in1<in2", "func": job, "kw": {"order": "lt"}}]
