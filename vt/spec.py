"""Helpers for writing specifications as terms."""
from . import term as T
from .core import H, Obl, Rel   # noqa: F401

C = T.const
MIN = 1 << 255
M256 = (1 << 256) - 1


def b2n(b):
    return T.zext(b, 128)


def u(x, w):
    return T.zext(x, w)


def s(x, w):
    return T.sext(x, w)


def tr(x, w=256):
    return T.trunc(x, w)


def fits_u(wide, w=256):
    """wide: two's complement wide value; fits into unsigned w?"""
    return T.eq(wide, T.zext(T.trunc(wide, w), wide.w))


def fits_s(wide, w=256):
    return T.eq(wide, T.sext(T.trunc(wide, w), wide.w))


def sat_u(wide, w=256):
    t = T.trunc(wide, w)
    return T.ite(fits_u(wide, w), t, T.ite(T.bit(wide, wide.w - 1), C(0, w), C(-1, w)))


def sat_s(wide, w=256):
    t = T.trunc(wide, w)
    return T.ite(fits_s(wide, w), t, T.ite(T.bit(wide, wide.w - 1), C(1 << (w - 1), w), C((1 << (w - 1)) - 1, w)))


def opt(ok, val, f="w0"):
    return {"n0": b2n(ok), f: T.ite(ok, val, C(0, val.w))}


ALL = ("nd", "nr", "ld", "lr")
