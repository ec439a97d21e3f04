"""Helpers for LiteX stream endpoints (valid/ready/first/last/payload)."""
import z3

from .bench import *
from .sym import EncodeError


def payload(ep):
    """[(name, signal)] of an endpoint's payload (and param) fields"""
    r = []
    for part in (ep.payload, ep.param):
        for f in part.layout:
            r.append((f[0], getattr(part, f[0])))
    return r


def isolated(bench, sink, source, values, domain="sys", maxlat=64, first=None, last=None):
    """push one token with a concrete handshake through a freshly reset design; returns cycles waited"""
    sim = bench
    if hasattr(source, "ready"):
        sim.set(source.ready, 1)
    for n, s in payload(sink):
        sim.set(s, values[n])
    sim.set(sink.valid, 1)
    if first is not None:
        sim.set(sink.first, first)
    if last is not None:
        sim.set(sink.last, last)
    sim.check("sink accepts a token when idle", eq(sim.get(sink.ready), 1))
    for k in range(maxlat):
        sim.tick(domain)
        if k == 0:
            sim.set(sink.valid, 0)
        v = sim.get(source.valid)
        if not isinstance(v, int):
            raise EncodeError("valid is not concrete")
        if v:
            return k + 1
    return None
