"""Ports of vendor primitives instantiated by a design, found by primitive type, so that the harness can stand in for
the primitive: read the expressions on its inputs, drive its outputs."""
from migen import Instance, Signal
from migen.fhdl.structure import _Slice


def instances(b, of=None):
    return [s for s in b.instances if of is None or s.of == of]


def port(inst, name):
    for i in inst.items:
        if getattr(i, "name", None) == name and not isinstance(i, Instance.Parameter):
            return i.expr
    return None


def param(inst, name):
    for i in inst.items:
        if isinstance(i, Instance.Parameter) and i.name == name:
            return i.value
    return None


def same_net(a, b):
    """two port expressions naming the same wire"""
    if isinstance(a, Signal) and isinstance(b, Signal):
        return a is b
    if isinstance(a, _Slice) and isinstance(b, _Slice):
        return a.value is b.value and a.start == b.start and a.stop == b.stop
    return False
