"""Integer (LIA) execution of arithmetic datapaths: same statements as SymSim, but symbolic values are
mathematical integers with a known interval; truncation, slicing and shifting introduce bounded quotients,
so fixed-point kernels become small linear problems instead of bit-blasted multipliers."""
import z3

from migen.fhdl.structure import (Constant, Signal, Cat, Replicate, ClockSignal, ResetSignal,
                                  _Operator, _Slice, _Part, _ArrayProxy)
from migen.fhdl.bitcontainer import value_bits_sign
from .sym import SymSim, ntype, EncodeError, b_and, b_or, b_not, b_xor, same as _same
from . import sym


class IV:
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def eq(self, o):
        return isinstance(o, IV) and self.e.eq(o.e)


def rng(v):
    return (v.lo, v.hi) if isinstance(v, IV) else (v, v)


def ex(v):
    return v.e if isinstance(v, IV) else z3.IntVal(v)


def mkiv(e, lo, hi):
    return lo if lo == hi else IV(e, lo, hi)


class IntSim(SymSim):
    def __init__(self, design, constraints):
        self.cons = constraints
        self.n = 0
        super().__init__(design)

    def fresh(self, lo, hi, hint="q"):
        if lo == hi:
            return lo
        self.n += 1
        x = z3.Int("%s!%d" % (hint, self.n))
        self.cons.append(z3.And(x >= lo, x <= hi))
        return IV(x, lo, hi)

    def fdiv(self, v, k):
        """floor(v / k)"""
        if isinstance(v, int):
            return v // k
        if k == 1:
            return v
        q = self.fresh(v.lo // k, v.hi // k)
        self.cons.append(z3.And(v.e >= ex(q) * k, v.e <= ex(q) * k + (k - 1)))
        return q

    def wrapto(self, v, n, signed):
        if isinstance(v, int):
            v &= (1 << n) - 1
            if signed and v >> (n - 1):
                v -= 1 << n
            return v
        mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if v.lo >= mn and v.hi <= mx:
            return v
        m = 1 << n
        k = self.fresh((v.lo - mn) // m, (v.hi - mn) // m, "w")
        r = mkiv(v.e - ex(k) * m, mn, mx)
        # name the wrapped value to keep terms small
        x = self.fresh(mn, mx, "t")
        self.cons.append(ex(x) == r.e)
        return x

    # overridden hooks -----------------------------------------------------
    def put(self, duid, v):
        o = self.val.get(duid)
        eqv = (o == v) if isinstance(o, int) and isinstance(v, int) else (
            isinstance(o, IV) and isinstance(v, IV) and o.e.eq(v.e))
        if not eqv:
            self.val[duid] = v
            self.touch(duid)
            return True
        return False

    def store(self, sig, v):
        return self.wrapto(v, sig.nbits, sig.signed)

    def unsigned(self, s, v):
        return v

    def tosig(self, s, v):
        return self.wrapto(v, s.nbits, s.signed)

    def get(self, node):
        self.settle()
        return self.ev(node)

    def cond(self, c):
        return c

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        la, ha = rng(a)
        lb, hb = rng(b)
        return mkiv(z3.If(c, ex(a), ex(b)), min(la, lb), max(ha, hb))

    def run(self, sl, sig, cur):
        for s in sl:
            k = s[0]
            if k == "a":
                if ntype(s[1]) is not Signal:
                    raise EncodeError("integer mode: partial assignment")
                cur = self.wrapto(self.ev(s[2]), sig.nbits, sig.signed)
            elif k == "i":
                c = self.evb(s[1])
                if c is True:
                    cur = self.run(s[2], sig, cur)
                elif c is False:
                    cur = self.run(s[3], sig, cur)
                else:
                    cur = self.ite(c, self.run(s[2], sig, cur), self.run(s[3], sig, cur))
            else:
                t = self.ev(s[1])
                if not isinstance(t, int):
                    raise EncodeError("integer mode: symbolic case")
                for key, body in s[2]:
                    if key == t:
                        cur = self.run(body, sig, cur)
                        break
                else:
                    if s[3] is not None:
                        cur = self.run(s[3], sig, cur)
        return cur

    def cmp(self, op, a, b):
        la, ha = rng(a)
        lb, hb = rng(b)
        if op == "<":
            if ha < lb:
                return True
            if la >= hb:
                return False
            return ex(a) < ex(b)
        if op == ">":
            return self.cmp("<", b, a)
        if op == "<=":
            return b_not(self.cmp("<", b, a))
        if op == ">=":
            return b_not(self.cmp("<", a, b))
        if op == "==":
            if ha < lb or hb < la:
                return False
            if la == ha == lb == hb:
                return True
            return ex(a) == ex(b)
        return b_not(self.cmp("==", a, b))

    def evb(self, node):
        t = ntype(node)
        if t is _Operator:
            op, ops = node.op, node.operands
            if op in ("<", "<=", "==", "!=", ">", ">="):
                return self.cmp(op, self.ev(ops[0]), self.ev(ops[1]))
            if len(node) == 1:
                if op == "&":
                    return b_and(self.evb(ops[0]), self.evb(ops[1]))
                if op == "|":
                    return b_or(self.evb(ops[0]), self.evb(ops[1]))
                if op == "~":
                    return b_not(self.evb(ops[0]))
        v = self.wrapto(self.ev(node), len(node), False)
        if isinstance(v, int):
            return v != 0
        return self.cmp("!=", v, 0)

    def ev(self, node):
        t = ntype(node)
        if t is Constant:
            return node.value
        if t is Signal:
            v = self.val.get(node.duid)
            return node.reset.value if v is None else v
        if t is _Operator:
            op, ops = node.op, node.operands
            if op == "m":
                c = self.cmp("!=", self.ev(ops[0]), 0)
                if c is True:
                    return self.ev(ops[1])
                if c is False:
                    return self.ev(ops[2])
                return self.ite(c, self.ev(ops[1]), self.ev(ops[2]))
            if op in ("<", "<=", "==", "!=", ">", ">=") :
                c = self.evb(node)
                return self.ite(c, 1, 0)
            a = self.ev(ops[0])
            if len(ops) == 1:
                if op == "~":
                    return ~a if isinstance(a, int) else mkiv(-a.e - 1, -a.hi - 1, -a.lo - 1)
                return -a if isinstance(a, int) else mkiv(-a.e, -a.hi, -a.lo)
            b = self.ev(ops[1])
            if isinstance(a, int) and isinstance(b, int):
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b,
                        "|": lambda: a | b, "^": lambda: a ^ b, ">>>": lambda: a >> b,
                        "<<<": lambda: a << b}[op]()
            la, ha = rng(a)
            lb, hb = rng(b)
            if op == "+":
                return mkiv(ex(a) + ex(b), la + lb, ha + hb)
            if op == "-":
                return mkiv(ex(a) - ex(b), la - hb, ha - lb)
            if op == "*":
                if isinstance(a, int) or isinstance(b, int):
                    ps = [la * lb, la * hb, ha * lb, ha * hb]
                    return mkiv(ex(a) * ex(b), min(ps), max(ps))
                raise EncodeError("integer mode: nonlinear")
            if op == ">>>" and isinstance(b, int):
                return self.fdiv(a, 1 << b)
            if op == "<<<" and isinstance(b, int):
                return mkiv(ex(a) * (1 << b), la << b, ha << b)
            if op in ("&", "|", "^") and len(node) == 1:
                return self.ite(self.evb(node), 1, 0)
            raise EncodeError("integer mode: operator %s" % op)
        if t is _Slice:
            v = self.ev(node.value)
            if node.start:
                v = self.fdiv(v, 1 << node.start)
            return self.wrapto(v, node.stop - node.start, False)
        if t is Cat:
            r = 0
            sh = 0
            for e in node.l:
                w = len(e)
                v = self.wrapto(self.ev(e), w, False)
                if isinstance(r, int) and isinstance(v, int):
                    r |= v << sh
                else:
                    l1, h1 = rng(r)
                    l2, h2 = rng(v)
                    r = mkiv(ex(r) + ex(v) * (1 << sh), l1 + (l2 << sh), h1 + (h2 << sh))
                sh += w
            return r
        if t is Replicate:
            w = len(node.v)
            v = self.wrapto(self.ev(node.v), w, False)
            if isinstance(v, int):
                return sum(v << i * w for i in range(node.n))
            k = sum(1 << i * w for i in range(node.n))
            return mkiv(v.e * k, v.lo * k, v.hi * k)
        if t is _ArrayProxy:
            key = self.ev(node.key)
            if isinstance(key, int):
                return self.ev(node.choices[min(len(node.choices) - 1, key)])
        if t is ClockSignal:
            return self.val.get(self.d.cds[node.cd].clk.duid, 0)
        if t is ResetSignal:
            s = self.d.cds[node.cd].rst
            return 0 if s is None else self.val.get(s.duid, 0)
        raise EncodeError("integer mode: %s" % t)


def abstract(sim, sig_value, hint="z"):
    """name a value: fresh integer equal to it"""
    return sig_value
