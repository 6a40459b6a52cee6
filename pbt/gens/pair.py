"""token pairs, prices, limits"""
from hypothesis import strategies as st
from .common import pos, weighted

NAMES = ["ETH", "USDC", "WBTC", "STETH", "ETHX", "A", "AB", "ABA", "BAB", "bnt", "Link", "T0", "weETH", "DAI", "LNK", "USDT", "XETHX"]


def name():
    return st.one_of(st.sampled_from(NAMES), st.text("ABCDETHabcx0123", min_size=1, max_size=7))


@st.composite
def pair_case(draw):
    b = draw(name())
    q = draw(name().filter(lambda x: x.upper() != b.upper()))
    f = draw(name().filter(lambda x: x.upper() not in (b.upper(), q.upper())))
    c = {"b": b, "q": q, "foreign": f.upper(), "amt": draw(weighted((1, 0), (9, 1)).flatmap(lambda k: pos(-8, 9) if k else st.just(0.0))), "price": draw(pos(-9, 9)),
         "neg": draw(st.booleans()),
         "dec": [draw(st.integers(0, 24)), draw(st.integers(0, 24))], "spaces": [draw(st.sampled_from(["", " ", "  "])) for _ in range(4)],
         "disp": draw(st.booleans())}
    k = draw(weighted((3, "mult"), (2, "near"), (1, "eq"), (2, "free")))
    if k == "mult":
        c["cur"] = c["price"] * draw(st.sampled_from([0.1, 0.5, 0.99, 1.01, 2, 10, 100]))
    elif k == "near":
        c["cur"] = c["price"] * (1 + draw(st.sampled_from([-1, 1])) * draw(st.sampled_from([1e-15, 4e-16, 1e-12, 1e-9, 1e-6])))
    elif k == "eq":
        c["cur"] = c["price"]
    else:
        c["cur"] = draw(pos(-9, 9))
    return c
