"""order views: curves, trades on linked orders, descriptions"""
from hypothesis import strategies as st
from .common import pos, weighted, nice, rough, unit

PAIRS = ["ETH/USDC", "USDC/ETH", "WBTC/SHIB", "A/B"]
WIDTH = [0.0, 1e-9, 1e-6, 1e-4, 0.001, 0.01, 0.05, 0.1, 0.5, 1.0, 3.0, 20.0, 1e3, 3e4, 1e7]


@st.composite
def curve(draw, wmin=0.0, fills=True, pair=None, side=None):
    p = pair or draw(st.sampled_from(PAIRS))
    t = p.split("/")[side if side is not None else draw(st.integers(0, 1))]
    w = draw(st.one_of(st.sampled_from([x for x in WIDTH if x >= wmin]), st.floats(max(wmin, 1e-5), 3)))
    p1 = draw(pos(-8, 8))
    p2 = p1 * (1 + w)
    if draw(st.booleans()):
        p2 = float(f"{p2:.6g}")
        if p2 < p1 * (1 + wmin):
            p2 = p1 * (1 + w)
    # start, end: an order selling the base token starts low
    lo, hi = min(p1, p2), max(p1, p2)
    pa, pb = (lo, hi) if t == p.split("/")[0] else (hi, lo)
    yint = draw(pos(-4, 9))
    f = draw(st.one_of(st.sampled_from([1.0, 1.0, 0.5, 0.0, 1e-6, 0.999]), unit())) if fills else draw(st.floats(0.01, 1))
    return {"pair": p, "tkn": t, "pa": pa, "pb": pb, "yint": yint, "y": yint * f, "swap": draw(weighted((4, False), (1, True)))}


frac = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 1e-6, 1 - 1e-9]), unit().map(lambda x: x if x > 1e-9 else 0.0))


@st.composite
def curve_case(draw):
    c = draw(curve())
    return {"curve": c, "f": [draw(frac) for _ in range(3)], "g": [draw(frac) for _ in range(3)], "out": draw(st.sampled_from([1e-6, 0.01, 1.0, 100.0])),
            "tkn": draw(st.integers(0, 1))}


@st.composite
def linked_case(draw):
    """a pair of linked orders and what is done with them"""
    p = draw(st.sampled_from(PAIRS))
    m = draw(pos(-5, 5))
    b, q = p.split("/")
    g = draw(st.sampled_from([0.0, 0.001, 0.05, 0.2, -0.1]))

    def rng(up):
        w = draw(st.one_of(st.sampled_from([0.0, 1e-3, 0.01, 0.1, 0.5, 1.0, 5.0]), st.floats(1e-3, 3)))
        s = m * (1 + g / 2) if up else m / (1 + g / 2)
        return (s, s * (1 + w)) if up else (s, s / (1 + w))
    sa, sb = rng(True)
    ba, bb = rng(False)
    yb = draw(pos(-2, 6))
    yq = max(1e-2, float(f"{draw(pos(-2, 6)) * m:.6g}"))
    fb, fq = (draw(st.one_of(st.sampled_from([1.0, 1.0, 0.5, 0.0]), unit())) for _ in range(2))
    if draw(weighted((7, False), (1, True))):
        # an order without capacity (it grows with what its linked order receives)
        if draw(st.booleans()):
            yb = 0.0
        else:
            yq = 0.0
    c = {"pair": p, "sell": [sa, sb, yb, yb * fb], "buy": [ba, bb, yq, yq * fq], "ops": [],
         "linked": draw(weighted((5, True), (1, False))), "mid": m}
    for _ in range(draw(st.sampled_from([1, 2, 3, 5, 8]))):
        k = draw(weighted((6, "price"), (2, "selly"), (2, "buyx"), (1, "add"), (1, "over"), (1 if c["linked"] else 6, "neg")))
        o = {"op": k, "side": draw(st.sampled_from(["sell", "buy", "both"] if k == "price" else ["sell", "buy"]))}
        if k == "price":
            o["p"] = m * draw(st.one_of(st.sampled_from([0.2, 0.5, 0.9, 0.99, 1.0, 1.01, 1.1, 2.0, 5.0]), st.floats(0.3, 3)))
        elif k == "neg":
            o["fn"] = draw(st.sampled_from(["selly", "buyx"]))
            o["f"] = draw(st.sampled_from([0.1, 0.5, 0.9, 0.999, 1.001, 1.5, 3.0]))
            o["neg"] = draw(weighted((3, True), (1, False)))
            o["expand"] = draw(st.booleans())
            o["raise"] = draw(st.booleans())
        elif k == "over":
            o["op"] = draw(st.sampled_from(["selly", "buyx"]))
            o["f"] = draw(st.sampled_from([1.0001, 1.5, 10.0]))
        else:
            o["f"] = draw(st.one_of(st.sampled_from([0.0, 0.1, 0.5, 1.0]), unit()))
        if draw(weighted((3, False), (1, True))) and k != "add":
            o["dry"] = True
        c["ops"].append(o)
    return c


@st.composite
def sim_case(draw):
    """strategies and a price path for run_sim"""
    spot = draw(pos(-2, 4))
    n = draw(st.sampled_from([1, 1, 2, 3]))
    S = []
    for _ in range(n):
        k = draw(st.sampled_from(["mgw", "mgw", "sb", "u3"]))
        m = draw(st.sampled_from([100.0, 100.0, 80.0, 130.0]))
        if k == "mgw":
            s = {"k": "mgw", "m": m, "g": draw(st.sampled_from([0.0, 0.02, 0.1, 0.5])), "w": draw(st.sampled_from([0.0, 0.01, 0.1, 0.5, 0.9])),
                 "u": draw(st.sampled_from([0.0, 0.0, 0.3, 0.9]))}
        elif k == "sb":
            x = draw(st.floats(1, 1.5)); y = draw(st.floats(1, 2))
            s = {"k": "sb", "sell": [m * x, m * x * y], "buy": [m / x, m / x / draw(st.floats(1, 2))], "fixed": draw(weighted((1, True), (2, False)))}
            if s["fixed"]:
                s["sell"] = [a * spot / 100 for a in s["sell"]]
                s["buy"] = [a * spot / 100 for a in s["buy"]]
        else:
            lo = spot * draw(st.floats(0.4, 0.9)); hi = spot * draw(st.floats(1.1, 2.5))
            s = {"k": "u3", "lo": lo, "hi": hi, "below": draw(st.booleans()), "fee": draw(st.sampled_from([None, 0.01, 0.05]))}
        s["rsk"] = draw(st.one_of(st.just(0.0), pos(-1, 3)))
        s["csh"] = draw(st.one_of(st.just(0.0), pos(-1, 5)))
        S.append(s)
    path = [spot]
    for _ in range(draw(st.sampled_from([1, 3, 6, 10]))):
        k = draw(st.sampled_from(["step", "step", "jump", "same", "back"]))
        path.append(path[-1] if k == "same" else spot if k == "back" else path[-1] * draw(st.floats(0.9, 1.11)) if k == "step" else spot * draw(st.floats(0.3, 3)))
    c = {"strats": S, "path": path, "single": n == 1 and draw(st.booleans())}
    if draw(weighted((4, False), (1, True))):
        c["shift"] = draw(st.sampled_from([0.05, -0.1, 0.5]))
    if draw(weighted((6, False), (1, True))):
        c["zeros"] = draw(st.integers(1, 2))
    return c


@st.composite
def descr_case(draw):
    c = draw(curve(wmin=0.0))
    return {"curve": c, "dec": [draw(st.integers(0, 18)), draw(st.integers(0, 18))], "sx": draw(st.sampled_from([0, 32, 40, 48])),
            "other": draw(curve(pair=c["pair"], side=1 - c["pair"].split("/").index(c["tkn"]))), "sid": draw(st.integers(0, 2 ** 70)),
            "nsd": draw(st.sampled_from([None, 6, 10, 15])), "tokens": draw(st.sampled_from([["ETH", "USDC"], ["WBTC", "DAI"], ["BNT", "LINK"], ["USDC", "ETH"]])),
            "flip": draw(st.booleans()), "root": draw(st.floats(0.01, 0.99)), "br": [draw(pos(-3, 3)), draw(st.sampled_from([1.1, 2.0, 100.0]))],
            "num": draw(pos(-6, 9)), "bad": draw(st.sampled_from(["yint<0", "y>yint", "y<0", "token", "Qy", "Qx"]))}
