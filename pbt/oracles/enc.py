"""encoded rates and orders (SDK layer, CarbonFloatInt)"""
import math
from fractions import Fraction as F
from .base import need, need_close, isclose, expect_exc

ONE = 2 ** 48


def _isqrt_floor(fr):
    """floor(sqrt(fr) * ONE)"""
    return math.isqrt(fr.numerator * ONE * ONE // fr.denominator)


def p16_order(case):
    from carbon.sdk import CarbonSDK
    E = CarbonSDK.EncodedOrder
    labels = set()
    # --- floats: 48 significant bits, rounded down, monotone, idempotent
    last = None
    for v in case["ints"]:
        e = E.encodeFloat(v)
        d = E.decodeFloat(e)
        need(0 <= d <= v, "P16.float.above", lambda: f"{v} {e} {d}")
        need(v - d < max(1, v * F(1, 2 ** 47)), "P16.float.precision", lambda: f"{v} {e} {d}")
        if v < ONE:
            need(d == v, "P16.float.exact", lambda: f"{v} {e} {d}")
        need(E.encodeFloat(d) == e and E.decodeFloat(E.encodeFloat(d)) == d, "P16.float.stable", lambda: f"{v} {e} {d}")
        need(e % ONE < ONE and (v >> 48).bit_length() == e // ONE, "P16.float.format", lambda: f"{v} {e}")
        if last is not None:
            need(last[0] <= e, "P16.float.monotone", lambda: f"{last} {v} {e}")
        last = (e, v)
        need_close(E.decode(e), F(d, ONE), "P16.decode", 1e-15)
        need(E.bitLength(v) == v.bit_length(), "P16.bitlength", lambda: v)
    # --- rates
    last = None
    for r in sorted(case["rates"]):
        n = E.encodeRate(r)
        ex = _isqrt_floor(F(r))
        drop = (ex // ONE).bit_length()
        tol = ex * F(1, 2 ** 51) + F(1, 2)
        need(isinstance(n, int) and n >= 0, "P16.rate.type", lambda: f"{r} {n}")
        need(n * n <= F(r) * ONE * ONE * (1 + F(1, 2 ** 50)), "P16.rate.above", lambda: f"{r} {n} {ex}")
        need(ex - n <= 2 ** drop + tol, "P16.rate.precision", lambda: f"{r} {n} {ex}")
        if n > 0:
            need(n >> ((n & -n).bit_length() - 1) < ONE, "P16.rate.format", lambda: f"{r} {n}")
        # 48 significant bits: storing it loses nothing
        need(E.decodeFloat(E.encodeFloat(n)) == n, "P16.rate.lossless", lambda: f"{r} {n}")
        dec = E.decode(E.encodeFloat(n)) ** 2
        need(E.encodeRate(dec) == n, "P16.rate.stable", lambda: f"{r} {n} {dec}")
        if last is not None:
            need(last <= n, "P16.rate.monotone", lambda: f"{case['rates']} {last} {n}")
        last = n
    # --- orders
    lo, hi, y = case["lo"], case["hi"], case["y"]
    L, H = E.encodeRate(lo), E.encodeRate(hi)
    tok = case["tok"]

    def prices(o, sig):
        eps = 2.0 ** -45 + 2.0 ** -46 / math.sqrt(lo)
        need_close(o.p_end, lo, sig, 2 * eps, 0, lambda: f"{o} {case}"); need_close(o.p_start, hi, sig, 4 * eps, 0, lambda: f"{o} {case}")
        need(o.p_end <= lo * (1 + 1e-15) and o.p_start <= hi * (1 + 1e-15), sig + ".above", lambda: f"{o} {case}")
        need_close(o.B_ ** 2, o.p_end, sig, 1e-15); need_close((o.A_ + o.B_) ** 2, o.p_start, sig, 1e-15)
        need(o.token == (tok or "TKN"), sig + ".token", lambda: f"{o}")
        d = o.decoded
        need((d.y, d.z, d.A, d.B) == (o.y, o.z, o.A_, o.B_), sig + ".decoded", lambda: f"{o} {d}")
        need(all(o[k] == getattr(o, k) for k in ("y", "z", "A", "B", "token", "p_start")), sig + ".getitem", lambda: f"{o}")
        # through the records of the API and back
        o2 = E.from_sdk(o.token, {k: o[k] for k in "yzAB"})
        need(o2 == o, sig + ".from_sdk", lambda: f"{o} {o2}")

    o = E.encode(y, hi, lo, token=tok)
    need(o.y == o.z == y, "P16.order.full", lambda: f"{o}")
    prices(o, "P16.order")
    need_close(o.p_marg, o.p_start, "P16.order.p_marg", 1e-15)
    z = y + case["zf"] * (y // 3 + 1)
    o = E.encode(y, hi, lo, z=z, token=tok)
    need(o.y == y and o.z == z, "P16.order.z", lambda: f"{o}")
    prices(o, "P16.order.z")
    try:
        pm = o.p_marg
        need_close(pm, (o.B_ + o.A_ * (y / z if z else 1)) ** 2, "P16.order.p_marg", 1e-12, 0, lambda: f"{o}")
    except NotImplementedError:
        need(y not in (0, z), "P16.order.p_marg", lambda: f"{o}")
    o = E.encode(y, hi, lo, p_marg=hi * 1.5, token=tok)
    need(o.y == o.z == y, "P16.order.pmarg_above", lambda: f"{o}")
    if hi / lo > 1.0005 and case["m"] > 1e-3:
        sm = math.sqrt(lo) + (math.sqrt(hi) - math.sqrt(lo)) * case["m"]
        o = E.encode(y, hi, lo, p_marg=sm * sm, token=tok)
        prices(o, "P16.order.pmarg")
        need(o.y == y and o.z >= y, "P16.order.pmarg", lambda: f"{o} {case}")
        eps = (2.0 ** -44 + 2.0 ** -45 / math.sqrt(lo)) * math.sqrt(hi) / (sm - math.sqrt(lo))
        if eps < 0.1:
            need_close(o.z, y / case["m"], "P16.order.pmarg.z", 8 * eps + 1e-9, 2, lambda: f"{o} {case}")
            labels.add("marginal")
    expect_exc(lambda: E.encode(y, hi, lo, p_marg=hi, z=z), "P16.order.both", ValueError)
    if hi > lo:
        # an order that holds something cannot be at or below its end
        expect_exc(lambda: E.encode(y, hi, lo, p_marg=lo), "P16.order.pmarg_below", ValueError)
    expect_exc(lambda: E.encode(y, hi, lo, p_marg=lo * (1 - case["m"]) if case["m"] < 1 else lo / 2), "P16.order.pmarg_below", ValueError) if case["m"] > 1e-9 else None
    # by A, B
    o = E.encode_yzAB(y, z, case["A"], case["B"], token="T")
    need(o.y == y and o.z == z and o.token == "T", "P16.yzAB", lambda: f"{o}")
    for got, ex in ((o.A_, case["A"]), (o.B_, case["B"])):
        need(0 <= ex - got <= 2.0 ** -47 * ex + 2.0 ** -48, "P16.yzAB.AB", lambda: f"{o} {case}")
    return {"nontrivial": y > 0 and hi > lo, "labels": sorted(labels)}


def p16_cfi(case):
    from carbon.helpers import floatint as fi
    from carbon.helpers.soltest import SolTestBase
    C = getattr(fi, f"CarbonFloatInt{case['one']}")
    one = 2 ** case["one"]
    labels = set()
    need(C._one() == one and C.ONE_EXPONENT == case["one"], "P16.cfi.one")
    last = None
    for v in sorted(case["ints"]):
        fits = v.bit_length() - 40 < 256
        if not fits:
            expect_exc(lambda: C.from_int(v), "P16.cfi.toolarge", Exception, v)
            labels.add("toolarge")
            continue
        c = C.from_int(v)
        need(0 <= c.significant < 2 ** 40 and 0 <= c.exponent < 256, "P16.cfi.format", lambda: f"{v} {c}")
        d = c.asint
        need(d == c.significant << c.exponent == int(c), "P16.cfi.int", lambda: f"{v} {c}")
        need(0 <= v - d and (v - d) * 2 ** 39 < max(v, 1), "P16.cfi.precision", lambda: f"{v} {c} {d}")
        if v < 2 ** 40:
            need(d == v, "P16.cfi.exact", lambda: f"{v} {c}")
        need(C.from_int(d) == c, "P16.cfi.stable", lambda: f"{v} {c}")
        need(c.asint1 == (d, one) and c.one == one and c.astuple == (c.significant, c.exponent) and c.astuple1 == (c.significant, c.exponent, case["one"])
             and c.asdict == {"significant": c.significant, "exponent": c.exponent} and int(c.ashex, 16) == d, "P16.cfi.alias", lambda: f"{v} {c}")
        need_close(c.asfloat, F(d, one), "P16.cfi.float", 1e-15, 0, lambda: f"{c}")
        need(float(c) == c.asfloat, "P16.cfi.float", lambda: f"{c}")
        if last is not None:
            need(last <= d, "P16.cfi.monotone", lambda: f"{case}")
        last = d
        if v.bit_length() > 40:
            labels.add("rounded")
    for x in case["floats"]:
        c = C.from_float(x)
        need(0 <= c.significant < 2 ** 40 and 0 <= c.exponent < 256, "P16.cfi.format", lambda: f"{x} {c}")
        need(0 <= F(x) - F(c.asint, one) <= F(x) / 2 ** 39 + F(1, one), "P16.cfi.from_float", lambda: f"{x} {c} {c.asfloat}")
        need(C.from_float(c.asfloat) == c, "P16.cfi.float.stable", lambda: f"{x} {c}")
    expect_exc(lambda: C.from_int(-1 - case["ints"][0]), "P16.cfi.negative")
    expect_exc(lambda: C.from_int(1.5), "P16.cfi.type")
    expect_exc(lambda: C(1, -1), "P16.cfi.exponent")
    mx = C.max()
    need(mx.asint == (2 ** 40 - 1) << 255 and C.from_int(mx.asint) == mx and C.max(3).asint == (2 ** 40 - 4) << 255, "P16.cfi.max", lambda: f"{mx}")
    need(C.min().asint == 1 and C.min(2).asint == 3, "P16.cfi.min")
    # range checks of the solidity test helper
    n = -case["u256"] - 1 if case["neg"] else case["u256"]
    log = []
    s = SolTestBase(print_lvl=9, raise_lvl=case["lvl"])
    r = s.check_uint256(n, "x", log_f=lambda **kw: log.append(kw))
    exp = (2, True) if n < 0 or n >= 2 ** 256 else (2, False) if n < 100 else (1, False) if n < 10000 else (1, True) if n >= 2 ** 256 / 10000 else (0, False)
    need(len(log) == 1 and (log[0]["level"], log[0]["isoverflow"]) == exp, "P16.u256.level", lambda: f"{n} {log}")
    need(r == max(n, 0), "P16.u256.value", lambda: f"{n} {r}")
    S = SolTestBase
    cls = {(2, True): S.OverflowError, (2, False): S.UnderflowError, (1, True): S.OverflowWarning, (1, False): S.UnderflowWarning}.get(exp)
    if exp[0] >= case["lvl"]:
        e = expect_exc(lambda: s(n, "x"), "P16.u256.raise", cls, n)
        need(type(e) is cls, "P16.u256.raise", lambda: f"{n} {e!r}")
    else:
        need(s(n, "x") == max(n, 0), "P16.u256.quiet", lambda: n)
    return {"nontrivial": any(v.bit_length() > 40 for v in case["ints"]), "labels": sorted(labels)}
