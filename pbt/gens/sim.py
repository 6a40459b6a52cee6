"""books, trades and histories for the market simulator"""
from hypothesis import strategies as st
from .common import nice, rough, pos, weighted

PAIRS = ["ETH/USDC", "BNT/ETH", "WBTC/USDC"]
# markets whose names contain each other
NEAR = ["ETH/USD", "ETH/USDC", "WETH/USDC"]
RUNON = ["ETH/XETH", "ETHX/ETH", "BNT/ETH"]        # two pairs that look alike when their tokens are written together

WIDTHS = [0.0, 0.0, 1e-6, 0.001, 0.01, 0.05, 0.1, 0.2, 0.5, 1.0, 3.0, 20.0]


def mid():
    return weighted((4, "n"), (1, "r")).flatmap(lambda k: nice(-3, 5) if k == "n" else rough(-4, 5))


@st.composite
def strategy_kw(draw, tkn, pair_tokens, mid, amt_exp=(-2, 6), prev=None, crossing=True, both=None, plain=False):
    """
    keyword arguments of add_strategy for a maker that sells `tkn` and buys it back
    prices are in the convention of the pair (quote per base)
    """
    b, q = pair_tokens
    lo, hi = amt_exp
    kw = {"tkn": tkn}
    up = tkn == b                      # selling the base token: ranges above mid
    amt_b = pos(lo, hi)
    # amounts are drawn in base token units, the quote amount is scaled with the price, so both sides matter
    def amount(token):
        k = draw(weighted((10, "pos"), (1, "zero")))
        if k == "zero":
            return 0.0 if draw(st.booleans()) else None
        a = draw(amt_b)
        if token == q:
            a = float(f"{a * mid:.6g}")
        return a

    def rng(sell_base):
        """(start, end) in pair convention for an order that sells the base token, or the quote token"""
        u = draw(st.one_of(st.sampled_from([0.0, 0.0, 0.01, 0.05, 0.1, 0.3]), st.floats(0, 1)))
        if crossing and draw(weighted((5, False), (1, True))):
            u = -u / 2
        w = draw(st.one_of(st.sampled_from(WIDTHS), st.floats(0, 2)))
        if sell_base:
            s = mid * (1 + u)
            e = s * (1 + w)
        else:
            s = mid / (1 + u)
            e = s / (1 + w)
        if draw(st.booleans()):
            s, e = float(f"{s:.5g}"), float(f"{e:.5g}")
            if (sell_base and e < s) or (not sell_base and e > s):
                e = s
        if w > 0.001 and draw(weighted((8, False), (1, True))):
            s, e = e, s                # documented: interchangeable
        return s, e

    have = both if both is not None else draw(weighted((6, "both"), (2, "sell"), (1, "buy")))
    if have in ("both", "sell"):
        kw["amt_sell"] = amount(tkn)
        kw["psell_start"], kw["psell_end"] = rng(up)
    if have in ("both", "buy"):
        kw["amt_buy"] = amount(q if up else b)
        kw["pbuy_start"], kw["pbuy_end"] = rng(not up)
    if prev and draw(weighted((3, False), (1, True))):
        # a tie: same start price, or the same range, as an earlier maker
        p = draw(st.sampled_from(prev))
        for side in ("sell", "buy"):
            if f"p{side}_start" in p and f"p{side}_start" in kw and p["tkn"] == tkn:
                kw[f"p{side}_start"] = p[f"p{side}_start"]
                kw[f"p{side}_end"] = p[f"p{side}_end"]
                if draw(st.booleans()) and p.get(f"amt_{side}"):
                    kw[f"amt_{side}"] = p[f"amt_{side}"]
    if not plain:
        for side in ("sell", "buy"):
            a = kw.get(f"amt_{side}")
            s, e = kw.get(f"p{side}_start"), kw.get(f"p{side}_end")
            if s is None:
                continue
            k = draw(weighted((6, "none"), (2, "yint"), (2, "marg")))
            if k == "yint":
                if a:
                    kw[f"y_int_{side}"] = a * draw(st.sampled_from([1.0, 1.5, 2.0, 10.0])) if draw(st.booleans()) else a * (1 + draw(st.floats(0, 20)))
                else:
                    kw[f"y_int_{side}"] = draw(amt_b)
            elif k == "marg" and a and abs(s / e - 1) > 1e-3:
                # somewhere inside the range, never at its empty end
                f = draw(st.one_of(st.just(0.0), st.floats(0, 0.9)))
                sells_base = (side == "sell") == up
                lo_, hi_ = min(s, e), max(s, e)
                st_, en_ = (lo_, hi_) if sells_base else (hi_, lo_)
                kw[f"p{side}_marginal"] = st_ + f * (en_ - st_)
    return {k: v for k, v in kw.items() if v is not None}


@st.composite
def trade_op(draw, pair_tokens, crash=False, limit=None, use=None, partial=True, nostrat=4, threshold=True, extreme=True,
             execute=None, pair=None):
    op = {"op": "trade", "fn": draw(st.sampled_from(["amm_sells", "amm_buys", "trader_sells", "trader_buys"])),
          "tkn": draw(st.sampled_from(list(pair_tokens)))}
    fr = [0.0001, 0.01, 0.1, 0.25, 0.5, 0.9, 0.99, 0.9999, 1.0, "o0", "o1", 1.00001, 1.0005, 1.01, 2.0, "t1", "t2", "t3", "t4", 1e-6, 1e-8]
    if not extreme:
        fr = fr[:7]
    # one request in three combines the options freely
    fancy = draw(weighted((2, False), (1, True)))
    opt = lambda w: weighted((1, False), (1, True)) if fancy else weighted((w, False), (1, True))
    if draw(weighted((7, True), (1, False))):
        op["seek"] = True
    op["frac"] = draw(st.one_of(st.sampled_from(fr), st.sampled_from(fr), st.floats(0.001, 0.999)))
    hard = isinstance(op["frac"], str) or op["frac"] >= 1
    if not isinstance(op["frac"], str) and op["frac"] < 0.999 and draw(st.booleans()):
        op["round"] = draw(st.integers(1, 4))
    if draw(opt(9)):
        op["neg"] = True
    if execute is not None:
        if not execute:
            op["execute"] = False
    elif draw(opt(6)):
        op["execute"] = False
    if partial and draw(opt(2 if hard else 6)):
        op["partial"] = True
    if use or (use is None and draw(opt(5))):
        if draw(weighted((7, False), (1, True))):
            op["use"] = []
        else:
            op["use"] = draw(st.lists(st.integers(0, 2 * nostrat - 1), min_size=1, max_size=2 * nostrat, unique=True))
        if draw(weighted((5, False), (1, True))):
            op["use_alien"] = True
    if threshold and draw(weighted((1, False), (2, True)) if threshold == "alpha" else weighted((2, False), (1, True))):
        op["threshold"] = draw(st.one_of(st.integers(1, 3), st.integers(1, 2 * nostrat + 2)))
    if limit or (limit is None and draw(opt(6))):
        op["limit"] = {"kind": draw(st.sampled_from(["price", "amt"])),
                       "mult": draw(st.sampled_from(["exact", 0.5, 0.9, 0.999, 1.001, 1.1, 2.0, 1 - 1e-7, 1 + 1e-7]))}
    if pair:
        op["pair"] = pair
    return op


METHODS = [(3, "exact"), (3, "fast"), (2, "alpha")]


@st.composite
def history(draw, max_strats=4, max_trades=5, methods=METHODS, limit=None, use=None, partial=True, multi=None, dels=True,
            bads=False, crossing=True, decimals=True, execute=None, extreme=True, prelude_min=1, booky=False):
    method = draw(weighted(*methods))
    multi = draw(weighted((3, False), (1, True))) if multi is None else multi
    pairs = draw(weighted((2, PAIRS), (1, NEAR), (1, RUNON)).flatmap(st.permutations)) if multi else [draw(st.sampled_from(PAIRS))]
    mids = {p: draw(mid()) for p in pairs}
    case = {"pair": pairs[0], "method": method, "ops": []}
    if draw(weighted((9, False), (1, True))):
        case["raise"] = True
    if decimals and draw(weighted((12, False), (1, True))):
        case["decimals"] = draw(st.sampled_from([8, 10, 12]))
    if multi and draw(weighted((2, False), (1, True))):
        case["pair"] = None
    used = {p: [] for p in pairs}

    def add():
        p = draw(st.sampled_from(pairs))
        toks = tuple(p.split("/"))
        conv, m = p, mids[p]
        if draw(weighted((4, False), (1, True))):
            # the same market quoted the other way round
            conv, toks, m = f"{toks[1]}/{toks[0]}", toks[::-1], 1 / m
        tkn = draw(st.sampled_from(toks))
        prev = [k for c, k in used[p] if c == conv]
        kw = draw(strategy_kw(tkn, toks, m, prev=prev, crossing=crossing))
        used[p].append((conv, kw))
        if conv != case["pair"] or draw(st.booleans()):
            kw = dict(kw, pair=conv if draw(weighted((4, True), (1, False))) else conv.lower())
        if draw(weighted((5, False), (1, True))):
            kw = dict(kw, carbon_id=f"c{len(case['ops'])}")
        op = {"op": "add", "kw": kw}
        if booky and kw.get("psell_start") is not None and kw.get("psell_end") is not None and kw.get("amt_sell") is not None and kw.get("pbuy_start") is None and draw(st.booleans()):
            # the same strategy through the other entry point, which takes one side only
            ren = {"amt_sell": "amt", "psell_start": "p_start", "psell_end": "p_end", "psell_marginal": "p_marginal", "y_int_sell": "y_int"}
            op = {"op": "add", "fn": "add_order", "kw": {ren.get(a, a): b for a, b in kw.items() if a in ren or a in ("tkn", "pair")}}
        case["ops"].append(op)

    for _ in range(draw(st.sampled_from([k for k in range(prelude_min, max_strats + 1) for _ in range(k)]))):
        add()
    n = draw(st.sampled_from(range(1, max_trades + 1)))
    kinds = ((10, "trade"), (1, "add"), (1 if dels else 0, "del"), (1 if bads else 0, "bad"))
    if booky:
        kinds = ((2, "trade"), (3, "add"), (2, "del"), (3, "bad"))
    for _ in range(n):
        k = draw(weighted(*kinds))
        if k == "add":
            add()
        elif k == "del":
            case["ops"].append({"op": "del", "ix": draw(st.integers(0, 9)), "fn": draw(st.sampled_from(["delete_order", "delete_strategy"])),
                                **({"alien": True} if draw(weighted((6, False), (1, True))) else {})})
        elif k == "bad":
            case["ops"].append(draw(bad_op(pairs, mids)))
        else:
            p = draw(st.sampled_from(pairs))
            toks = tuple(p.split("/"))
            conv = p
            if draw(weighted((5, False), (1, True))):
                conv = f"{toks[1]}/{toks[0]}"
            give = conv if (conv != case["pair"] or draw(weighted((3, False), (1, True)))) else None
            case["ops"].append(draw(trade_op(toks, limit=limit, use=use, partial=partial, pair=give, execute=execute, extreme=extreme,
                                             nostrat=max_strats, threshold="alpha" if method == "alpha" else draw(weighted((5, False), (1, True))))))
    return case


@st.composite
def big_history(draw, limit=None, use=None, extreme=True, partial=True, methods=METHODS):
    """few trades against a book of up to nine makers, often all on one side"""
    case = draw(book(nmin=2, nmax=9, methods=methods, warmup=False, onetkn=draw(st.booleans()), both=draw(weighted((2, "both"), (1, "sell"), (1, None)))))
    bk = case.pop("book")
    case["ops"] = [{"op": "add", "kw": kw} for kw in bk]
    toks = case["pair"].split("/")
    for _ in range(draw(st.sampled_from([1, 2, 3]))):
        case["ops"].append(draw(trade_op(toks, limit=limit, use=use, partial=partial, extreme=extreme, nostrat=len(bk),
                                         threshold="alpha" if case["method"] == "alpha" else False)))
    return case


@st.composite
def bad_op(draw, pairs, mids):
    p = draw(st.sampled_from(pairs))
    b, q = p.split("/")
    m = mids[p]
    fn = draw(st.sampled_from(["amm_sells", "amm_buys", "trader_sells", "trader_buys"]))
    k = draw(st.sampled_from(["token", "pair", "both-limits", "yint", "both-marg", "half-range", "half-range2", "order-token"]))
    if k == "token":
        return {"op": "bad", "fn": fn, "kw": {"tkn": "XYZ", "amt": 1, "pair": p}}
    if k == "pair":
        return {"op": "bad", "fn": fn, "kw": {"tkn": b, "amt": 1, "pair": f"{b}/XYZ"}}
    if k == "both-limits":
        return {"op": "bad", "fn": fn, "kw": {"tkn": b, "amt": 1e-3, "pair": p, "limit_price": m, "limit_amt": 1}}
    kw = {"tkn": b, "amt_sell": 5.0, "psell_start": m, "psell_end": 2 * m, "amt_buy": 5 * m, "pbuy_start": m * 0.9, "pbuy_end": m * 0.5, "pair": p}
    if k == "yint":
        kw["y_int_" + draw(st.sampled_from(["sell", "buy"]))] = 4.0 if draw(st.booleans()) else 1e-9
        if kw.get("y_int_buy"):
            kw["y_int_buy"] = 4.9 * m
        if kw.get("y_int_sell"):
            kw["y_int_sell"] = draw(st.sampled_from([4.9, 0]))
    elif k == "both-marg":
        s = draw(st.sampled_from(["sell", "buy"]))
        kw[f"y_int_{s}"] = draw(st.sampled_from([100.0 * max(1, m), 0, 0.0, 1e-9]))
        kw[f"p{s}_marginal"] = 1.5 * m if s == "sell" else 0.8 * m
    elif k == "half-range":
        kw["psell_end"] = None
    elif k == "half-range2":
        kw["pbuy_end"] = None
    else:
        kw["tkn"] = "XYZ"
    return {"op": "add", "kw": kw, "bad": True}


@st.composite
def book(draw, nmin=1, nmax=5, methods=METHODS, crossing=True, plain=False, warmup=True, amt_exp=(-2, 6), pairs=PAIRS, both=None, onetkn=False,
         flip=True):
    p = draw(st.sampled_from(pairs))
    toks = tuple(p.split("/"))
    m = draw(mid())
    n = draw(st.one_of(st.sampled_from(range(nmin, nmax + 1)), st.sampled_from(range((nmin + nmax + 1) // 2, nmax + 1))))
    bk = []
    for _ in range(n):
        tkn = toks[0] if onetkn else draw(st.sampled_from(toks))
        if flip and draw(weighted((4, False), (1, True))):
            # the same market quoted the other way round
            kw = draw(strategy_kw(tkn, toks[::-1], 1 / m, prev=[k for k in bk if "pair" in k], crossing=crossing, plain=plain, amt_exp=amt_exp, both=both))
            bk.append(dict(kw, pair=f"{toks[1]}/{toks[0]}"))
            continue
        bk.append(draw(strategy_kw(tkn, toks, m, prev=[k for k in bk if "pair" not in k], crossing=crossing, plain=plain, amt_exp=amt_exp, both=both)))
    case = {"pair": p, "method": draw(weighted(*methods)), "book": bk}
    if warmup and draw(weighted((3, False), (1, True))):
        case["warmup"] = [draw(trade_op(toks, limit=False, use=False, partial=False, nostrat=n, threshold=False, extreme=False, execute=True))
                          for _ in range(draw(st.integers(1, 2)))]
    return case


def plain_trade(draw, toks, n, **kw):
    op = draw(trade_op(toks, limit=False, partial=False, nostrat=n, threshold=False, execute=True, **kw))
    op["seek"] = True
    return op


@st.composite
def optimal(draw):
    case = draw(book(nmin=2, nmax=9, onetkn=draw(weighted((2, False), (1, True)))))
    case["trade"] = plain_trade(draw, case["pair"].split("/"), len(case["book"]), use=draw(weighted((6, False), (1, True))), extreme=False)
    return case


@st.composite
def compare(draw):
    case = draw(book(nmin=2, nmax=9, both=draw(weighted((3, "both"), (1, "sell"))), warmup=False, onetkn=draw(st.booleans())))
    case["trade"] = plain_trade(draw, case["pair"].split("/"), len(case["book"]), use=False, extreme=False)
    n = len(case["book"])
    case["thr"] = draw(st.one_of(st.integers(1, n + 1), st.sampled_from([max(1, n - 2), max(1, n - 1), n, 10])))
    k = draw(weighted((3, "plain"), (1, "top"), (1, "small")))
    if k == "top":
        # near what the `thr` largest orders hold
        case["top"] = draw(st.sampled_from([0.5, 0.9, 0.99, 0.999, 1.001, 1.01]))
    elif k == "small":
        case["trade"]["frac"] = draw(st.sampled_from([0.0001, 0.001, 0.005]))
    return case


@st.composite
def noise(draw):
    case = draw(book(nmin=1, nmax=3, warmup=False, pairs=["ETH/USDC"]))
    case["trade"] = plain_trade(draw, ["ETH", "USDC"], len(case["book"]), use=draw(weighted((3, False), (1, True))))
    n = draw(st.sampled_from([1, 2, 2, 3]))
    restrict = draw(st.booleans())
    ns = []
    others = draw(weighted((2, ["BNT/ETH", "WBTC/USDC", "ETH/BNT", "USDC/WBTC"]), (1, ["WETH/USDC", "ETH/USD", "USDC/WETH", "ETH/USDCE", "USD/ETH"])))
    near = draw(st.booleans())         # other markets at similar prices, or anywhere
    mids = {}
    for _ in range(n):
        k = draw(st.sampled_from(["pair", "pair", "disabled", "empty"] + (["excluded"] if restrict else [])))
        pos_ = draw(st.integers(0, len(case["book"])))
        if k == "pair":
            p = draw(st.sampled_from(others))
            toks = tuple(p.split("/"))
            if p not in mids:
                seen = [v for k in case["book"] for a, v in k.items() if a[0] == "p" and a.endswith("start")]
                mids[p] = draw(st.sampled_from(seen)) if near and seen else draw(mid())
            kw = dict(draw(strategy_kw(draw(st.sampled_from(toks)), toks, mids[p])), pair=p)
        elif k == "disabled":
            kw = {"tkn": draw(st.sampled_from(["ETH", "USDC"])), "amt_sell": draw(pos(-1, 5)), "amt_buy": draw(pos(-1, 5))}
        else:
            kw = draw(strategy_kw(draw(st.sampled_from(["ETH", "USDC"])), ("ETH", "USDC"), draw(mid()), plain=k == "empty"))
            if k == "empty":
                for a in ("amt_sell", "amt_buy"):
                    if a in kw:
                        kw[a] = 0
                if draw(st.booleans()) and "psell_start" in kw:
                    kw["y_int_sell"] = draw(pos(-1, 5))
        ns.append([pos_, kw])
    case["noise"] = ns
    if restrict:
        case["restrict"] = True
    if restrict is False:
        ns[:] = [x for x in ns]
    return case


@st.composite
def pieces(draw):
    case = draw(book(nmin=1, nmax=4, methods=[(4, "exact"), (1, "alpha"), (1, "fast")], both="both"))
    if case["method"] == "fast":
        case["book"] = case["book"][:1]
    case["trade"] = plain_trade(draw, case["pair"].split("/"), len(case["book"]), use=False, extreme=False)
    case["pieces"] = draw(st.lists(st.floats(0.05, 0.9), min_size=1, max_size=3))
    return case


@st.composite
def walk(draw):
    case = draw(book(nmin=1, nmax=3, crossing=False, warmup=False, both=draw(weighted((3, "both"), (1, None)))))
    toks = case["pair"].split("/")
    ops = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4]))):
        if ops and draw(weighted((1, True), (1, False))):
            ops.append({"op": "back"})
        else:
            ops.append(draw(trade_op(toks, limit=False, use=False, partial=False, nostrat=3, threshold=False, execute=True)))
    ops.append({"op": "back"})
    case["walk"] = ops
    return case


@st.composite
def symmetry(draw):
    case = draw(book(nmin=1, nmax=4, warmup=False, flip=False))
    case["trade"] = plain_trade(draw, case["pair"].split("/"), len(case["book"]), use=draw(weighted((6, False), (1, True))))
    case["sym"] = draw(st.sampled_from(["reverse", "rename", "swapside", "permute", "scale-base", "scale-quote", "scale-size"]))
    if case["sym"].startswith("scale"):
        case["scale"] = draw(st.sampled_from([1e-6, 1e-5, 1e-4, 0.001, 0.5, 3.7, 1000.0, 1e5]))
    if case["sym"] == "permute":
        case["perm"] = draw(st.permutations(range(len(case["book"]))))
        if case["method"] != "exact":
            case["method"] = "exact"
    return case
