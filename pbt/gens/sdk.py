"""the SDK layer: function calls, server answers, markets, strategies, tokens"""
from hypothesis import strategies as st
from .common import weighted, pos

TICKERS = ["ETH", "USDC", "BNT", "DAI", "WBTC", "FOO", "BARX", "ZEN", "VBNT"]
REALADDR = {"ETH": "0xEeeeeEeeeEeEeeEeEeEeeEEEeeeeEeeeeeeeEEeE", "USDC": "0xA0b86991c6218b36c1d19D4a2e9Eb0cE3606eB48",
            "BNT": "0x1F573D6Fb3F13d689FF844B4cE37794d79a7FF1C", "DAI": "0x6B175474E89094C44Da98b954EedeAC495271d0F"}
hexa = st.text("0123456789abcdefABCDEF", min_size=40, max_size=40).map(lambda s: "0x" + s)
text = st.text("abcdefghijklmnopqrstuvwxyz0123456789-_./", min_size=1, max_size=12)


@st.composite
def tokens(draw, lo=2, hi=5):
    """[ticker, address, decimals]; the address of a known ticker is not always the real one"""
    names = draw(st.lists(st.sampled_from(TICKERS), min_size=lo, max_size=hi, unique=True))
    out, seen = [], set()
    for i, n in enumerate(names):
        a = REALADDR[n] if n in REALADDR and draw(st.booleans()) else draw(hexa)
        if a.lower() in seen:
            a = "0x%040x" % (i + 7)
        seen.add(a.lower())
        out.append([n, a, draw(st.sampled_from([18, 18, 6, 8, 2, 0, 24]))])
    return out


amount = st.one_of(st.integers(0, 10 ** 30), pos(-9, 12), st.sampled_from(["1", "0.000001", "123456789.123456789"]))
wei = st.one_of(st.integers(0, 2 ** 128 - 1), st.integers(0, 10 ** 6))
opt = lambda s: st.one_of(st.none(), s)
action = st.fixed_dictionaries({"id": wei, "amount": wei}) | st.fixed_dictionaries({"id": wei.map(str), "amount": wei.map(str)}) | st.fixed_dictionaries({"id": wei, "note": text, "rate": pos(-3, 3)})
overrides = opt(st.dictionaries(st.sampled_from(["gasLimit", "gasPrice", "nonce"]), st.integers(0, 10 ** 9), max_size=3))
json_ = st.recursive(st.one_of(st.none(), st.booleans(), st.integers(-10 ** 6, 10 ** 20), pos(-9, 9), text), lambda c: st.lists(c, max_size=3) | st.dictionaries(text, c, max_size=3), max_leaves=5)
sync = st.sampled_from([None, True, False])

FNS = ["mul", "plus", "qmul", "qplus", "getERC20Balance", "getERC20Decimals", "getERC20Symbol", "getMatchActions", "addr", "pairs",
       "hasLiquidityByPair", "hasLiquidityByPair", "getLiquidityByPair", "getMinRateByPair", "getMaxRateByPair", "getRateLiquidityDepthByPair", "getUserStrategies",
       "getTradeData", "composeTradeByTargetTransaction", "composeTradeBySourceTransaction", "getMatchParams", "getTradeDataFromActions",
       "createBuySellStrategy", "updateStrategy", "deleteStrategy", "version", "result", "signsubmittx", "mCreateStrategy"]


@st.composite
def ctor(draw):
    return {"url": draw(opt(st.sampled_from(["http://localhost:1234", "http://server/", "https://a.b.c:9/x", "http://10.0.0.1:3118/y/"]))),
            "token": draw(opt(text)), "apibase": draw(opt(st.sampled_from(["api", "/api2/", "v1/api"]))),
            "syncdefault": draw(sync), "raiseonerror": draw(sync)}


@st.composite
def call_case(draw):
    toks = draw(tokens())
    fn = draw(st.sampled_from(FNS))
    n = len(toks)
    idx = st.integers(0, n - 1)
    i = draw(idx); j = (i + draw(st.integers(1, n - 1))) % n
    other = draw(hexa)
    A = {"i": i, "j": j, "other": other, "useother": draw(weighted((4, False), (1, True))), "sync": draw(sync),
         "amount": draw(amount), "wei": draw(wei), "flag": draw(st.sampled_from([True, False, 1, 0])), "overrides": draw(overrides),
         "actions": draw(opt(st.lists(action, max_size=4))), "deadline": draw(opt(st.integers(0, 2 ** 32))), "limit": draw(opt(amount)),
         "toks": draw(st.lists(idx, max_size=4, unique=True)), "user": draw(hexa), "filter": draw(opt(st.lists(text, max_size=2))),
         "rate": draw(st.one_of(pos(-9, 9), st.lists(pos(-9, 9), min_size=1, max_size=4))), "orders": draw(json_), "sid": draw(st.one_of(wei, wei.map(str))),
         "prices": sorted(draw(st.lists(pos(-6, 6), min_size=4, max_size=4, unique=True))), "budgets": [draw(amount), draw(amount)],
         "swap": [draw(weighted((3, False), (1, True))), draw(weighted((3, False), (1, True)))],
         "upd": draw(st.dictionaries(st.sampled_from(["buyPriceLow", "buyPriceHigh", "buyBudget", "sellPriceLow", "sellPriceHigh", "sellBudget", "buyMarginalPrice", "sellMarginalPrice"]), pos(-6, 6), max_size=5)),
         "marg": [draw(opt(pos(-6, 6))), draw(opt(pos(-6, 6)))], "pairlist": draw(opt(st.lists(st.tuples(idx, idx), min_size=1, max_size=3))), "both": draw(weighted((6, False), (1, True))),
         "numbers": [draw(st.integers(-100, 100)), draw(pos(-3, 3))], "tx": draw(json_), "inclstr": draw(st.booleans()), "addrs": draw(st.booleans()),
         "bals": draw(st.lists(wei, min_size=4, max_size=4)), "data": draw(json_), "floats": draw(st.lists(pos(-12, 12), min_size=4, max_size=4)), "reqid": draw(st.integers(0, 2 ** 41)),
         "notokens": draw(weighted((4, False), (1, True)))}
    if fn == "hasLiquidityByPair":
        A["both"] = draw(st.booleans())
    ans = draw(weighted((10, "ok"), (2, "fail"), (1, "status"), (1, "down"), (1, "notjson"), (1, "nodata"), (1, "awaiting")))
    return {"tokens": toks, "ctor": draw(ctor()), "fn": fn, "a": A, "answer": ans, "status": draw(st.sampled_from([401, 404, 500, 502, 201]))}


@st.composite
def market_case(draw):
    toks = draw(tokens(2, 4))
    n = len(toks)
    i = draw(st.integers(0, n - 1)); j = (i + draw(st.integers(1, n - 1))) % n
    dirs = {}
    for s in range(n):
        for t in range(n):
            if s != t and draw(weighted((4, True), (1, False))):
                lo = draw(pos(-8, 8))
                dirs[f"{s}>{t}"] = {"lo": lo, "hi": lo * (1 + draw(pos(-6, 2))), "liq": draw(pos(-3, 9)), "shape": draw(st.floats(0.2, 3))}
    n_pairs = draw(st.integers(1, 3))
    plist = [[draw(st.integers(0, n - 1)), draw(st.integers(1, n - 1))] for _ in range(n_pairs)]
    return {"tokens": toks, "pair": [i, j], "dirs": dirs, "sells": draw(st.integers(0, 1)), "plist": [[a, (a + d) % n] for a, d in plist],
            "aspair": draw(st.booleans()), "x": draw(st.lists(st.floats(-0.2, 1.2), min_size=1, max_size=4)), "scalar": draw(st.booleans()),
            "trade": {"buy": draw(st.booleans()), "which": draw(st.integers(0, 1)), "amount": draw(pos(-6, 6)),
                      "actions": [{"id": draw(wei), "amount": draw(wei)} for _ in range(draw(st.integers(0, 3)))],
                      "total": [draw(pos(-6, 9)), draw(pos(-6, 9))], "dev": draw(opt(st.floats(0, 0.5))), "deadline": draw(opt(st.integers(1, 2 ** 32))), "overrides": draw(overrides)},
            "missing": draw(weighted((8, False), (1, True)))}


@st.composite
def strat_case(draw):
    toks = draw(tokens(2, 4))
    # tokens unknown to the library at their real addresses must not be confused with the known ones
    n = len(toks)
    out = []
    for k in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, n - 1)); j = (i + draw(st.integers(1, n - 1))) % n
        m = draw(pos(-4, 5))
        w = [draw(st.floats(1e-4, 1.0)) for _ in range(3)]
        out.append({"i": i, "j": j, "sid": draw(st.one_of(st.integers(1, 500), st.integers(2 ** 128, 2 ** 129))), "buyLow": m / (1 + w[0]), "buyHigh": m, "sellLow": m * (1 + w[1]), "sellHigh": m * (1 + w[1]) * (1 + w[2]),
                    "z": [draw(pos(-3, 6)), draw(pos(-3, 6))], "f": [draw(weighted((3, 1.0), (1, 0.0), (3, 0.5), (1, 0.123))), draw(weighted((3, 1.0), (1, 0.0), (3, 0.5), (1, 0.9)))],
                    "nocap": draw(weighted((5, None), (1, 0), (1, 1)))})
    return {"tokens": toks, "strats": out, "nsd": draw(st.sampled_from([True, None, None, 6, 10])), "user": draw(hexa), "update": draw(st.booleans())}


@st.composite
def token_case(draw):
    toks = draw(tokens(1, 6))
    q = []
    for _ in range(draw(st.integers(1, 6))):
        q.append([draw(st.sampled_from(["byticker", "byaddr", "byaddr1", "restore", "getitem", "getattr", "call", "containsall"])),
                  draw(st.one_of(st.sampled_from(TICKERS), st.sampled_from([t[1] for t in toks]), hexa)), draw(sync), draw(st.booleans())])
    return {"tokens": toks, "queries": q, "raiseonerror": draw(sync), "lower": draw(st.booleans()), "csv": draw(st.booleans()), "amounts": [draw(pos(-9, 9)) for _ in range(3)] + [draw(st.integers(0, 10 ** 6)) / 100, draw(st.integers(0, 10 ** 9)) / 1000],
            "wei": [draw(st.integers(0, 10 ** 15)) for _ in range(3)], "nodec": draw(weighted((3, False), (1, True))), "dup": draw(weighted((2, "none"), (1, "ticker"), (1, "addr"), (1, "both"), (1, "same"))),
            "nsd": [draw(pos(-8, 12)) * draw(st.sampled_from([1, -1])), draw(st.integers(1, 9))],
            "camel": draw(st.lists(st.text("abcdefgh", min_size=1, max_size=5), min_size=1, max_size=4))}
