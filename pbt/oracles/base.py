"""shared helpers of the oracles (execution side)"""
import math
from decimal import Decimal, getcontext
from fractions import Fraction


class Violation(Exception):
    def __init__(self, sig, msg=""):
        self.sig = sig
        super().__init__(f"[{sig}] {msg}")


class Skip(Exception):
    pass


def need(cond, sig, msg=""):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg)


def isclose(a, b, rel=1e-9, abs_=0.0):
    """closeness with an explicit scale; NaN is never close"""
    if a is None or b is None:
        return a is b
    try:
        a = float(a); b = float(b)
    except OverflowError:
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def need_close(a, b, sig, rel=1e-9, abs_=0.0, msg=""):
    if not isclose(a, b, rel, abs_):
        raise Violation(sig, f"{a!r} != {b!r} (rel={rel}, abs={abs_}) {msg() if callable(msg) else msg}")


def expect_exc(fn, sig, exc=Exception, msg=""):
    """fn() must raise"""
    try:
        r = fn()
    except exc as e:
        return e
    raise Violation(sig, f"expected an error, got {r!r} {msg}")
