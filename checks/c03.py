"""Stream integrity of every pipelined pixel/float actor under all valid/ready schedules: solver lemmas hold / free /
flow from arbitrary register states (see fv/pipe.py); bounded symbolic-schedule scoreboard as fallback."""
from fv.pipe import pipeline

FUNCTIONS = ["RGB2YCbCr", "YCbCr2RGB", "RGB2RGB16f", "RGB16f2RGB", "FloatAdd", "FloatMult (elaborated netlists)"]
BOUNDS = ("schedules of any length (inductive lemmas from arbitrary register states); payloads: all values; "
          "default widths")
ASSUMPTIONS = ["Migen simulator semantics of the design",
               "lemmas hold/free/flow imply the stream property (argument in DESIGN.md)"]


def mk(name):
    def f():
        if name == "RGB2YCbCr":
            from litevideo.csc.rgb2ycbcr import RGB2YCbCr as C
        elif name == "YCbCr2RGB":
            from litevideo.csc.ycbcr2rgb import YCbCr2RGB as C
        elif name == "RGB2RGB16f":
            from litevideo.csc.rgb2rgb16f import RGB2RGB16f as C
        elif name == "RGB16f2RGB":
            from litevideo.csc.rgb16f2rgb import RGB16f2RGB as C
        elif name == "FloatAdd":
            from litevideo.float_arithmetic.floatadd import FloatAdd as C
        else:
            from litevideo.float_arithmetic.floatmult import FloatMult as C
        return C()
    return f


def job(name):
    return pipeline(mk(name))


def jobs(tier):
    return [{"name": n, "func": job, "kw": {"name": n}}
            for n in ("RGB2YCbCr", "YCbCr2RGB", "RGB2RGB16f", "RGB16f2RGB", "FloatAdd", "FloatMult")]
