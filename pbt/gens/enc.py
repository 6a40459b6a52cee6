"""encoded rates, orders and amounts"""
from hypothesis import strategies as st
from .common import pos, weighted, unit

bits = lambda n: st.integers(0, n).flatmap(lambda k: st.integers(2 ** max(k - 1, 0) if k else 0, 2 ** k - 1 if k else 0))


@st.composite
def intval(draw, n):
    """integers up to n bits, with corners around powers of two"""
    k = draw(st.integers(0, n))
    c = draw(weighted((4, "any"), (2, "corner"), (1, "sparse")))
    if c == "corner":
        return max(0, min(2 ** n - 1, 2 ** k + draw(st.integers(-2, 2))))
    if c == "sparse":
        return min(2 ** n - 1, 2 ** k + 2 ** draw(st.integers(0, max(k, 1))))
    return draw(st.integers(0, max(2 ** k - 1, 0)))


@st.composite
def enc_case(draw):
    """rates as decimal strings, floats, ints"""
    lo = draw(pos(-12, 12))
    hi = lo * (1 + draw(st.one_of(st.sampled_from([0.0, 1e-9, 1e-4, 0.01, 0.5, 3.0, 1000.0]), st.floats(1e-6, 5))))
    # several wei of the tokens
    y = draw(st.one_of(intval(100), st.builds(lambda m, e: m * 10 ** e, st.integers(1, 9999), st.integers(0, 24))))
    return {"lo": lo, "hi": hi, "m": draw(st.one_of(st.sampled_from([1.0, 1.0, 0.5]), unit())), "y": y, "zf": draw(st.integers(0, 3)),
            "rates": [draw(st.one_of(pos(-20, 20), st.integers(0, 300).map(float), st.integers(-60, 60).map(lambda k: 2.0 ** k))) for _ in range(2)],
            "ints": sorted([draw(intval(200)), draw(intval(200)), draw(intval(60))]),
            "A": draw(st.one_of(st.just(0.0), pos(-9, 6))), "B": draw(pos(-9, 6)), "tok": draw(st.sampled_from([None, "0xabc", "ETH"]))}


@st.composite
def cfi_case(draw):
    return {"one": draw(st.sampled_from([32, 40, 48, 60, 64, 128])), "ints": [draw(intval(310)) for _ in range(4)],
            "floats": sorted([draw(st.one_of(st.just(0.0), pos(-15, 20), st.integers(-30, 60).map(lambda k: 2.0 ** k))) for _ in range(3)]),
            "u256": draw(intval(262)), "neg": draw(st.booleans()), "lvl": draw(st.sampled_from([1, 2, 9]))}


@st.composite
def trade_case(draw):
    """an encoded order (integers of the contract) and amounts"""
    kind = draw(weighted((5, "market"), (3, "any"), (2, "extreme")))
    if kind == "market":
        # sqrt rates around a market, 48 bit fixed point
        B = int(2 ** 48 * draw(pos(-6, 6)))
        A = int(B * draw(st.sampled_from([0.0, 1e-12, 1e-6, 1e-3, 0.05, 0.4, 3.0, 30.0])))
        z = draw(st.builds(lambda m, e: m * 10 ** e, st.integers(1, 9999), st.integers(0, 24)))
        f = draw(st.one_of(st.just(1.0), unit()))
        y = min(z, int(z * f))
        amts = [int(z * g * draw(st.sampled_from([1.0, 1e-3, 1e-9]))) for g in (draw(unit()), draw(unit()))]
        side = [draw(pos(-12, 12)) for _ in range(2)]
        ins = [int(z * s) for s in side]
    else:
        n = 112 if kind == "any" else 128
        z = draw(intval(n))
        y = draw(st.one_of(st.just(z), st.integers(0, z)))
        A = draw(st.one_of(st.just(0), intval(64 if kind == "any" else 110)))
        B = draw(st.one_of(intval(64), st.just(0), intval(110 if kind == "extreme" else 80)))
        amts = [draw(st.one_of(st.integers(0, max(y, 1)), intval(n), st.just(y))) for _ in range(2)]
        ins = [draw(intval(n)) for _ in range(2)]
    return {"y": y, "z": z, "A": A, "B": B, "out": sorted(a % 2 ** 128 for a in amts), "in": sorted(a % 2 ** 128 for a in ins)}


@st.composite
def rates(draw, mid=None, wmin=0.0):
    """an order by its rates (decimal strings), as in the benchmark files"""
    m = mid if mid is not None else draw(pos(-9, 9))
    lo = m * (1 - draw(st.sampled_from([0.0, 1e-4, 0.01, 0.1, 0.3]))) if mid is not None else m
    w = draw(st.one_of(st.sampled_from([x for x in [0.0, 1e-10, 1e-6, 1e-3, 0.02, 0.5, 4.0] if x >= wmin]), st.floats(max(wmin, 1e-4), 2)))
    hi = lo * (1 + w)
    f = draw(st.sampled_from([1.0, 1.0, 0.7, 0.3, 0.01]))
    mg = hi if f == 1.0 else lo + (hi - lo) * f
    if w * f < 1e-5:                                 # the encoding has no finer resolution
        mg = hi
    liq = draw(st.builds(lambda k, e: k * 10 ** e, st.integers(1, 9999), st.integers(2, 24)))
    return {"liquidity": str(liq), "lowestRate": f"{lo:.17g}", "highestRate": f"{hi:.17g}", "marginalRate": f"{mg:.17g}"}


@st.composite
def spec_case(draw):
    return {"order": draw(rates()), "f": draw(st.one_of(st.sampled_from([1.0, 0.5, 1e-6]), unit())), "x": draw(pos(-3, 24)), "back": draw(st.sampled_from([1.0, 0.999, 0.5]))}


@st.composite
def match_case(draw):
    m = draw(pos(-9, 9))
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6]))
    O = [draw(rates(mid=m)) for _ in range(n)]
    if draw(weighted((3, True), (1, False))):        # comparable sizes
        e = draw(st.integers(4, 24))
        for o in O:
            o["liquidity"] = str(draw(st.integers(1, 9999)) * 10 ** (e + draw(st.integers(-2, 1))))
    if n > 1 and draw(weighted((4, False), (1, True))):
        O[-1] = dict(O[0])                            # identical orders
    return {"orders": O, "f": draw(st.one_of(st.sampled_from([1.0, 1.5, 0.5, 0.1, 1e-3]), unit(0.0, 1.2)))}
