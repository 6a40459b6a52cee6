"""P30: the client of the data provider"""
from hypothesis import strategies as st


def weighted(*pairs):
    """one of the strategies, with integer weights"""
    return st.one_of(*[v for w, v in pairs for _ in range(w)])


COIN = st.sampled_from(["ETH", "BTC", "USD", "USDC", "eth", "X", "1INCH", "BNT", "gbp"])
FREQ = st.sampled_from(["day", "hour", "minute"])
ITEM = st.sampled_from(["coinlist", "coinlist", "coinlist", "allexchanges", "indexlist"])
JS = st.recursive(st.none() | st.booleans() | st.integers(-10**6, 10**6) | st.text(max_size=5), lambda c: st.lists(c, max_size=3) | st.dictionaries(st.text(max_size=4), c, max_size=3), max_leaves=6)
DATA = st.dictionaries(st.text(min_size=1, max_size=5), JS, min_size=1, max_size=4)
TS = weighted((3, st.none()), (2, st.integers(10**9, 2 * 10**9)), (1, st.integers(10**9, 2 * 10**9).map(str)),
              (2, st.builds("{:04d}-{:02d}-{:02d}".format, st.integers(1990, 2035), st.integers(1, 12), st.integers(1, 28))),
              (1, st.builds("{:04d}-{:02d}-{:02d} {:02d}:{:02d}:{:02d}".format, st.integers(1990, 2035), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59))))
FAULT = st.sampled_from([None] * 12 + [400, 429, 500, "error", "down"])
PAIRARGS = st.fixed_dictionaries({"e": weighted((2, st.none()), (1, st.sampled_from(["Kraken", "Coinbase"]))), "limit": weighted((2, st.none()), (1, st.integers(1, 12)), (1, st.just(False))), "toTs": TS})

PARAMS = st.none() | st.dictionaries(st.sampled_from(["a", "limit", "toTs", "x y", "e"]), st.sampled_from([None, 0, 1, -1, "", "0", "a b&c=d", False, True, 0.0, 1.5, "é"]), max_size=5)


def op():
    return st.one_of(
        st.tuples(st.just("query"), st.sampled_from(["allexchanges", "coinlist", "indexlist", "ratelimit"]), FAULT),
        st.tuples(st.just("cached"), ITEM, st.sampled_from([(), (True,), (False,), (True, True), (False, True), (True, True), (False, True), (True, False), (False, False)]), FAULT),
        st.tuples(st.just("cached"), ITEM, st.sampled_from([(), (True,), (False,), (True, True), (False, True), (True, True), (False, True), (True, False), (False, False)]), FAULT),
        st.tuples(st.just("write"), st.sampled_from(["query_coinlist", "query_indexlist", "mine", "other"]), JS),
        st.tuples(st.just("badwrite"), st.sampled_from(["query_coinlist", "mine"]), JS, st.sampled_from(["obj", "deep", "deep", "path"])),
        st.tuples(st.just("read"), st.sampled_from(["query_coinlist", "query_allexchanges", "mine", "other"])),
        st.tuples(st.just("drop"), st.sampled_from(["query_coinlist", "query_allexchanges", "mine"])),
        st.tuples(st.just("spoil"), st.sampled_from(["query_coinlist", "query_indexlist", "other"])),
        st.tuples(st.just("server"), ITEM, DATA),
        st.tuples(st.just("raw"), st.sampled_from(["allexchanges", "coinlist", "indexlist", "ratelimit"]), PARAMS, st.sampled_from([None, None, "GET", "POST", "PUT"]), FAULT),
        st.tuples(st.just("pair"), FREQ, COIN, st.none() | COIN, PAIRARGS, st.booleans(), st.booleans(), FAULT))


def hist_case():
    return st.fixed_dictionaries({
        "key": weighted((3, st.just(True)), (2, st.text("abcdef0123", min_size=1, max_size=8)), (1, st.just("env"))),
        "roe": st.sampled_from([True, True, False, None]), "path": st.sampled_from(["ctor", "class"]),
        "data": st.fixed_dictionaries({k: DATA for k in ("allexchanges", "coinlist", "indexlist", "ratelimit")}),
        "ops": st.integers(1, 20).flatmap(lambda n: st.lists(op(), min_size=n, max_size=n))})


def aggr_case():
    return st.fixed_dictionaries({
        "pairs": st.lists(st.tuples(COIN, COIN), min_size=1, max_size=5), "form": st.sampled_from(["str", "tuple", "list", "created"]),
        "quotes": st.none() | st.lists(COIN, min_size=1, max_size=3, unique=True),
        "fields": weighted((1, st.none()), (4, st.lists(st.sampled_from(["open", "close", "high", "low", "volumefrom", "volumeto"]), min_size=1, max_size=4, unique=True))),
        "fform": st.sampled_from(["str", "tuple", "list"]), "inc": st.tuples(st.booleans(), st.booleans(), st.booleans()),
        "freq": st.none() | FREQ, "kw": PAIRARGS, "n": st.integers(1, 6), "gaps": st.booleans(), "fault": weighted((6, st.none()), (1, st.integers(0, 4))),
        "roe": st.booleans()})


def text_case():
    return st.fixed_dictionaries({
        "items": st.lists(st.text("abc XY1_", min_size=1, max_size=5).filter(lambda s: s == s.strip()), min_size=1, max_size=6), "sep": st.sampled_from([None, ",", ";", "|"]),
        "nums": st.lists(st.integers(-100, 100), min_size=1, max_size=5), "pad": st.lists(st.integers(0, 2), min_size=6, max_size=6),
        "pairs": st.lists(st.tuples(COIN, COIN), min_size=1, max_size=5), "coins": st.lists(COIN, min_size=1, max_size=5, unique=True), "quotes": st.none() | st.lists(COIN, min_size=1, max_size=4, unique=True),
        "form": st.sampled_from(["str", "tuple"]), "ts": st.integers(0, 4 * 10**9), "key": st.text(min_size=1, max_size=10)})
