"""Uniswap v3 positions"""
from hypothesis import strategies as st
from .common import weighted, pos, rough

FEES = [100, 500, 3000, 10000]
TICK = {100: 1, 500: 10, 3000: 60, 10000: 200}


@st.composite
def uni_case(draw):
    fee = draw(st.sampled_from(FEES))
    ts = TICK[fee]
    lim = draw(weighted((4, 250000), (1, 800000), (2, 3 * ts)))
    n = lim // ts
    ka = draw(st.integers(-n, n))
    names = draw(st.sampled_from([["USDC", "WETH"], ["USDC", "WETH"], ["WETH", "USDC"], ["AAA", "BBB"], ["AAA", "WETH"], ["USDC", "BBB"]]))
    dec = st.one_of(st.sampled_from([6, 8, 18, 18, 6]), st.integers(0, 27))
    return {"fee": fee, "ta": ka * ts, "ts": ts, "fracs": sorted(draw(st.lists(st.floats(0.001, 0.999), min_size=1, max_size=4, unique=True))),
            "names": names, "dec": [draw(dec), draw(dec)], "addr": draw(st.booleans()), "strs": draw(st.booleans()),
            "liq": draw(st.one_of(st.integers(10 ** 6, 10 ** 12), st.integers(10 ** 15, 10 ** 22), st.integers(1, 10 ** 32))), "price": draw(pos(-20, 20))}
