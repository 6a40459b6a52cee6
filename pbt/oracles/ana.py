"""P28: order book analytics against the book itself"""
import io, contextlib, copy, math
import numpy as np
import pandas as pd

from carbon import CarbonPair, CarbonSimulatorUI
from carbon.simulators import sim_analytics as al
from carbon.simulators.sim_analytics import Analytics, OrderBook
from .base import Skip, need, need_close, expect_exc, isclose
from .simmodel import call, capacity_in, eligible, orders_of, same, snap, split, waterfill
from .simbook import build


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def alien(case):
    b, q = split(case["pair"])
    s = CarbonSimulatorUI(pair=case["pair"], raiseonerror=True)
    s.add_strategy(b, 7.0, 1e-9, 2e-9, 7.0, 1e-10, 1e-11)
    return s


def book(case):
    b, q = pr = split(case["pair"])
    sim = build(case)
    labels = set()
    if case["other"]:
        sim.add_strategy(b, 3.0, 1.0, 2.0, 4.0, 0.9, 0.5, pair=f"{b}/DAI")
        sim.add_strategy(q, 3.0, 1.0, 2.0, 4.0, 0.9, 0.5, pair=f"{q}/DAI")
        if q == "XETH":              # written together, the names of these two pairs are the same
            m = case["book"][0]["psell_start"] if case["book"][0].get("psell_start") else 1.0
            sim.add_strategy("ETH", 3.0, 0.8 / m, 0.7 / m, 4.0, 1.2 / m, 1.5 / m, pair="ETHX/ETH")
    if case["nodefault"]:
        sim._carbon_pair, case["give"] = None, "pair"
    sn = snap(sim)
    orders = orders_of(sn)
    ask = case["side"] == "ASK"
    sold = b if ask else q
    elig = eligible(orders, pr, sold)
    if not elig:
        raise Skip()
    liq = sum(float(o.y) for o in elig)
    cap = liq if ask else capacity_in(elig)          # in base tokens
    pr_lo, pr_hi = min(o.pl for o in elig), max(o.ph for o in elig)   # sold per bought
    p_lo, p_hi = (1 / pr_hi, 1 / pr_lo) if ask else (pr_lo, pr_hi)    # quote per base
    if cap < 1e-6 or liq < 1e-6 or cap * p_lo < 1e-6:
        raise Skip()
    P = CarbonPair(case["pair"])
    # the simulator of the call counts, whatever the constructor was given
    A = Analytics(sim) if case["own"] else Analytics(alien(case) if case["decoy"] else None)
    kw = {} if case["own"] else {"sim": sim}
    if case["give"] == "pair":
        kw["carbon_pair"] = P
    buysell = A.ASK if ask else A.BID
    need({A.ASK, A.BID} == {A.AMM_SELLS_BASETOKEN, A.AMM_BUYS_BASETOKEN} and A.ASK == A.AMM_SELLS_BASETOKEN, "P28.constants")

    top = cap * case["over"]
    sizes = Analytics.linspace0(top, case["nint"], eps=case["eps"] if case["eps"] is None else case["eps"] * top)
    trg, exact = [], case["method"] == "exact"
    for s in sizes:
        s = float(s)
        got = quiet(A.simulate_trades, s, buysell, **kw)
        same(sn, snap(sim), "P28.touched", f"simulate_trades({s})")
        trg.append(got)
        # what the same trade does when it is executed on a copy of the book
        twin = copy.deepcopy(sim)
        twin.raiseonerror = False
        r = quiet(twin.amm_sells if ask else twin.amm_buys, b, s, pair=case["pair"])
        if not r.get("success"):
            need(got is None, "P28.trade.refused", lambda: f"{got} although the trade of {s} is refused: {r}")
        else:
            # the amounts that really change hands
            d0, d1 = orders_of(sn), orders_of(snap(twin))
            out = sum(float(o.y) - float(d1[k].y) for k, o in d0.items() if o.tkn == sold and {o.b, o.q} == {b, q})
            agg = r["trades"].iloc[-1]
            tot = float(agg["amt2"] if ask else agg["amt1"])
            need(got is not None, "P28.trade.missing", lambda: f"{s}: {r['trades']}")
            need_close(got, tot, "P28.trade", 1e-12, 1e-12, lambda: f"{s} {case['side']}")
            need_close(out, s if ask else got, "P28.trade.moved", 1e-9, 1e-10 * (1 + liq), lambda: f"{s} {case['side']} {got}")
        if exact and 1e-6 * cap < s < cap * (1 - 1e-6) and s > 1e-7 and s * p_lo > 1e-7:
            o_, i_ = waterfill(elig, s, ask)
            if got is None:
                need(False, "P28.trade.exact", lambda: f"{s} of {cap} refused")
            need_close(got, i_ if ask else o_, "P28.trade.exact", 1e-7, 4e-12 * (len(elig) + 2) * (1 + p_hi), lambda: f"{s} {case['side']}")
            labels.add("exact")
        if s > cap * (1 + 1e-6):
            need(got is None, "P28.trade.beyond", lambda: f"{s} > {cap}: {got}"); labels.add("beyond")
    # --- effective prices
    et = case["etkn"]
    es = float(sizes.iloc[len(sizes) // 2]) * (1 if et == b else (p_lo + p_hi) / 2)
    eask = case["snap"]
    ekw = {} if case["own"] else {"sim": sim}
    if case["explicit_tkn"] or et != b or case["nodefault"]:
        ekw["tkn"] = et
    if case["nodefault"] or case["give"] == "pair":
        ekw["pair"] = case["pair"]
    side = (A.ASK_BOOK if case["purge"] else A.ASK) if eask else (A.BID_BOOK if case["purge"] else A.BID)
    e = quiet(A.effective_price, es, side, **ekw)
    same(sn, snap(sim), "P28.touched", f"effective_price({es})")
    twin = copy.deepcopy(sim); twin.raiseonerror = False
    r = quiet(twin.amm_sells if eask else twin.amm_buys, et, es, pair=case["pair"])
    if not r.get("success"):
        need(e == (0 if eask else A.MAXPRICE), "P28.effective.fail", lambda: f"{e} {r}")
    else:
        a = r["trades"].iloc[-1]
        x1, x2 = float(a["amt1"]), float(a["amt2"])
        if min(x1, x2) > 1e-6:
            # amt1 of tkn1 against amt2 of tkn2, as quote per base
            w = x2 / x1 if a["tkn1"] == b else x1 / x2
            need_close(e, w, "P28.effective", 1e-9, 0, lambda: f"{es} {et} {eask} {a}")
            labels.add("effective")
    expect_exc(lambda: quiet(A.effective_price, es, "nosuch", **ekw), "P28.effective.bad", ValueError)
    expect_exc(lambda: quiet(A.simulate_trades, 1, "nosuch", **kw), "P28.trade.bad", ValueError)
    if not case["own"] and not case["decoy"]:
        expect_exc(lambda: quiet(A.simulate_trades, 1, buysell), "P28.trade.nosim", ValueError)
        expect_exc(lambda: quiet(A.effective_price, 1, A.ASK_BOOK), "P28.effective.nosim", ValueError)
    # --- the order book made of them
    ob = OrderBook(sizes, Analytics.vec(trg), b, q, OrderBook.ASK if ask else OrderBook.BID)
    last = max([k for k, t in enumerate(trg) if t is not None], default=-1)
    need(len(ob.src_amounts) == len(ob.trg_amounts) == last + 1, "P28.book.length", lambda: f"{ob.src_amounts} {trg}")
    for k in range(last + 1):
        need(ob.src_amounts.iloc[k] == sizes.iloc[k] and isclose(ob.trg_amounts.iloc[k], trg[k] if trg[k] is not None else float("nan")) or trg[k] is None, "P28.book.pairs", lambda: f"{list(ob.src_amounts)} {list(ob.trg_amounts)} {trg}")
    if exact and last >= 2 and all(t is not None for t in trg[:last + 1]):
        s, t = list(map(float, ob.src_amounts)), list(map(float, ob.trg_amounts))
        pm = list(map(float, ob.marg_prices)); pe = list(map(float, ob.prices))
        err = 4e-12 * (len(elig) + 2) * (1 + p_hi)
        up = 1 if ask else -1
        for k in range(len(pm)):
            step = s[k + 1] - s[k]
            if step <= 1e-6 * top:
                continue
            tol = err / step + 1e-7 * abs(pm[k])
            need(p_lo - tol <= pm[k] <= p_hi + tol, "P28.marg.range", lambda: f"{pm[k]} not in [{p_lo}, {p_hi}] {s} {t}")
            if k and s[k] - s[k - 1] > 1e-6 * top:
                need(up * (pm[k] - pm[k - 1]) >= -tol - err / (s[k] - s[k - 1]) - 1e-7 * abs(pm[k - 1]), "P28.marg.monotone", lambda: f"{case['side']} {pm}")
            e_ = float(pe[k + 1])
            lo, hi = min([pe[0]] + pm[:k + 1]), max([pe[0]] + pm[:k + 1])
            if s[0] > 1e-6 * top:
                need(lo - tol - err / s[0] <= e_ <= hi + tol + err / s[0], "P28.avg", lambda: f"average {e_} not in {lo} .. {hi}: {s} {t}")
        labels.add("book")
    # --- approximate liquidity
    lo = min(min(o.pl if o.tkn == q else 1 / o.ph for o in orders.values() if not o.dis and {o.b, o.q} == {b, q}), p_lo)
    hi = max(max(o.ph if o.tkn == q else 1 / o.pl for o in orders.values() if not o.dis and {o.b, o.q} == {b, q}), p_hi)
    cuts = sorted({lo * 0.8 * (hi / lo * 1.5) ** c for c in case["cuts"]} | ({lo, hi} if case["snap"] else set()))
    if len(cuts) > 1 and all(y / x > 1 + 1e-9 for x, y in zip(cuts, cuts[1:])):
        args = {} if case["reverse"] and case["purge"] else {"reverse": case["reverse"], "purgezero": case["purge"]}
        L = quiet(al.calc_liquidity_approx, sim.state()["orderuis"], cuts if case["decoy"] else np.array(cuts), P, **args)
        same(sn, snap(sim), "P28.touched", "calc_liquidity_approx")
        need(L["pair"] == P and L["price_u"] == f"{q} per {b}" and L["liqtkn_u"] == (q if case["reverse"] else b) and L["reverse"] == case["reverse"], "P28.approx.meta", lambda: f"{L}")
        need(len(L["prices"]) == len(L["ask"]) == len(L["bid"]) == len(cuts) - 1, "P28.approx.len")
        for k, (x, y) in enumerate(zip(cuts, cuts[1:])):
            need_close(L["prices"][k], (x + y) / 2, "P28.approx.prices", 1e-12)
            for key, t in (("ask", b), ("bid", q)):
                w, amb, tot, rnd = 0.0, 0.0, 0.0, 0.0
                for o in orders.values():
                    if o.tkn != t or o.dis or {o.b, o.q} != {b, q}:
                        continue
                    if o.b != b:
                        continue
                    a, z = (o.pl, o.ph) if t == q else (1 / o.ph, 1 / o.pl)
                    yy = float(o.y)
                    tot += yy if (t == q) == case["reverse"] else (yy / a if t == q else yy * z)
                    if z / a < 1 + 1e-9:
                        conv = yy if (t == q) == case["reverse"] else (yy / a if t == q else yy * a)
                        if min(abs(x / a - 1), abs(y / a - 1)) < 1e-9:
                            amb += conv
                        elif x < a < y:
                            w += conv
                        continue
                    # the ends of a narrow range are only known to the precision of a float
                    rnd += (yy if (t == q) == case["reverse"] else (yy / a if t == q else yy * z)) * 4e-15 * z / (z - a)
                    l, h = max(a, x), min(z, y)
                    if l >= h:
                        continue
                    v = yy * (h - l) / (z - a)
                    g = math.sqrt(l * h)
                    w += v if (t == q) == case["reverse"] else (v / g if t == q else v * g)
                got = L[key][k]
                if got is None:
                    need(case["purge"], "P28.approx.none"); got = 0.0
                elif case["purge"]:
                    need(got != 0, "P28.approx.purge")
                got = float(got) * (y - x)
                need(w - 1e-7 * w - 1e-9 * tot - rnd <= got <= (w + amb) * (1 + 1e-7) + 1e-9 * tot + rnd, "P28.approx", lambda: f"{key} {x}..{y}: {got} expected {w} (+{amb})")
                if w: labels.add("approx")
        if case["plot"]:
            _plots(ob, L, labels)
    return {"nontrivial": last >= 2, "labels": sorted(labels | {case["side"], case["method"]}), "n": len(trg)}


def _plots(ob, L, labels):
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    try:
        quiet(al.plot_approx_orderbook_chart, L)
        ax = plt.gca()
        lines = {l.get_label(): l for l in ax.get_lines()}
        need(set(lines) == {"bid", "ask"}, "P28.plot.approx")
        for k in lines:
            need(list(lines[k].get_xdata()) == list(L["prices"]), "P28.plot.approx.x")
            d = [None if v is None else float(v) for v in L[k]]
            need(all((v is None and (w is None or math.isnan(w))) or v == w for v, w in zip(d, lines[k].get_ydata())), "P28.plot.approx.y", lambda: f"{d} {lines[k].get_ydata()}")
        plt.close("all")
        if len(ob.src_amounts) < 3 or any(math.isnan(x) for x in ob.trg_amounts.astype(float)):
            return
        r = ob.plot_tokenamount_chart()
        need(r == f"plotted tokens received against trade size ({int(max(ob.trg_amounts)):,})", "P28.plot.token", lambda: r)
        l = plt.gca().get_lines()[0]
        need(list(l.get_xdata()) == list(ob.src_amounts) and list(l.get_ydata()) == list(ob.trg_amounts), "P28.plot.token.data")
        plt.close("all")
        ob.plot_price_chart()
        l1, l2 = plt.gca().get_lines()
        need(list(l1.get_xdata()) == list(ob.src_amounts), "P28.plot.price.x")
        need(np.allclose(list(l1.get_ydata()), list(ob.prices), equal_nan=True) and np.allclose(list(l2.get_ydata()), list(ob.marg_prices), equal_nan=True), "P28.plot.price.y")
        plt.close("all")
        labels.add("plots")
    finally:
        plt.close("all")


def eqv(a, b, sig, msg=""):
    a, b = [None if x is None else float(x) for x in a], [None if x is None else float(x) for x in b]
    need(len(a) == len(b), sig, lambda: f"{a} {b} {msg}")
    for x, y in zip(a, b):
        need((x is None or math.isnan(x)) and (y is None or math.isnan(y)) or isclose(x, y, 1e-9, 1e-12), sig, lambda: f"{a} != {b} {msg}")


def vectors(case):
    nan = float("nan")
    f = lambda l: [nan if x == "nan" else x for x in l]
    v, w = f(case["v"]), f(case["w"])
    V, W = Analytics.vec(v), Analytics.vec(w)
    if v:
        eqv(V, v, "P28.vec"); eqv(V * W, [a * b for a, b in zip(v, w)], "P28.vec.mul"); eqv(V + W, [a + b for a, b in zip(v, w)], "P28.vec.add")
        h = [k for k in case["holes"] if k < len(v)]
        vh = [nan if k in h else float(x) for k, x in enumerate(v)]
        need_close(Analytics.vecdot(Analytics.vec(vh), W), sum(a * b for k, (a, b) in enumerate(zip(v, w)) if k not in h), "P28.vecdot", 1e-9, 1e-9 * sum(abs(a * b) for a, b in zip(v, w)))
        for arg in (v, np.array(v, dtype=float)):
            eqv(Analytics.diff(arg), [b - a for a, b in zip(v, v[1:])], "P28.diff", arg)
            eqv(Analytics.midpoints(arg), [(a + b) / 2 for a, b in zip(v, v[1:])], "P28.midpoints", arg)
        eqv(Analytics.midpoints(V), [(a + b) / 2 for a, b in zip(v, v[1:])], "P28.midpoints")
    m, n, e, e2 = case["max"], case["nint"], case["eps"], case["eps2"]
    kw = {}
    if e is not None: kw["eps"] = e
    if e2 is not None: kw["eps2"] = e2
    L = list(Analytics.linspace0(m, n, **kw))
    eqv(L, [0.0001 if e is None else e] + [m * k / n for k in range(1, n)] + [(1 - (0.00001 if e2 is None else e2)) * m], "P28.linspace0")
    eqv(Analytics.linspace(m, 2 * m, n + 1), [m + m * k / n for k in range(n + 1)], "P28.linspace")
    for x, y in ((None, True), (nan, True), (0, False), ("", False), ("nan", False), (1.5, False), (np.nan, True), (float("inf"), False), ([], False)):
        need(Analytics.isnonenan(x) is y or Analytics.isnonenan(x) == y, "P28.isnonenan", lambda: repr(x))
    # --- truncation
    s2 = f(case["s2"])
    s1 = list(range(case["s1n"]))
    k = len(s2)
    while k and (s2[k - 1] is None or s2[k - 1] != s2[k - 1]):
        k -= 1
    k = min(k, len(s1))
    a, b = (s1, s2) if case["aslist"] else (Analytics.vec(s1), Analytics.vec(s2))
    r1, r2 = Analytics.truncate(a, b)
    eqv(list(r1), s1[:k], "P28.truncate.first", lambda: f"{s1} {s2}")
    eqv(list(r2), s2[:k], "P28.truncate.second", lambda: f"{s1} {s2}")
    need(list(a) == s1 if case["aslist"] else len(a) == len(s1), "P28.truncate.mutated")
    # --- the order book of given amounts
    src, trg = list(case["src"]), list(case["trg"])
    for g in case["gaps"]:
        if g < len(trg) - 1:
            trg[g] = nan
    full = trg + f(case["tail"])
    more = src + [src[-1] + k + 1 for k in range(len(case["tail"]))]
    ask = case["side"] == "ASK"
    args = case["tkns"] or []
    T = args or ["SRC", "TRG"]
    ob = OrderBook(Analytics.vec(more), Analytics.vec(full), *args, bidask=OrderBook.ASK if ask else OrderBook.BID)
    pr = [t / s for s, t in zip(src, trg)]
    ds, dt = [b - a for a, b in zip(src, src[1:])], [b - a for a, b in zip(trg, trg[1:])]
    pm = [b / a for a, b in zip(ds, dt)]
    sg = 1 if ask else -1
    dp = [sg * (b - a) for a, b in zip(pm, pm[1:])]
    mid = lambda x: [(a + b) / 2 for a, b in zip(x, x[1:])]
    liq = [a / b if b else (math.copysign(math.inf, a) if a else nan) for a, b in zip(mid(dt), dp)]
    close = lambda a, b: not (abs(b - a) <= 1e-6 * max(abs(a), abs(b)))
    for name, want in (("src_amounts", src), ("trg_amounts", trg), ("prices", pr), ("marg_src_amounts", ds), ("marg_trg_amounts", dt), ("marg_prices", pm), ("ob_prices", mid(pm))):
        eqv(getattr(ob, name), want, f"P28.{name}", lambda: f"{src} {full}")
    eqv(ob.pricesr(), [1 / p for p in pr], "P28.pricesr"); eqv(ob.pricesr(False), pr, "P28.pricesr"); eqv(ob.marg_pricesr(), [1 / p for p in pm], "P28.marg_pricesr"); eqv(ob.marg_pricesr(False), pm, "P28.marg_pricesr")
    ok = all(close(a, b) for a, b in zip(pm, pm[1:]) if a == a and b == b)
    if ok:
        g = [None if math.isnan(x) else x for x in dp]
        for x, y in zip(ob.dmarg_prices, dp):
            need(math.isnan(x) and math.isnan(y) or isclose(x, y, 1e-6), "P28.dmarg_prices", lambda: f"{pm}")
        for x, y in zip(ob.ob_liquidity, liq):
            need(math.isnan(x) and math.isnan(y) or isclose(x, y, 1e-6), "P28.ob_liquidity", lambda: f"{list(ob.ob_liquidity)} {liq}")
        need_close(Analytics.vecdot(ob.dmarg_prices, ob.ob_liquidity), sum(x * y for x, y in zip(dp, liq) if x == x), "P28.area", 1e-6)
        d = ob.data_orderbook_chart()
        for k_, want in (("liquidity", ob.ob_liquidity), ("x", ob.ob_liquidity), ("prices", ob.ob_prices), ("y", ob.ob_prices)):
            eqv(d[k_], want, "P28.chart.book")
        need(d["liquidity_unit"] == T[1] and d["prices_unit"] == f"{T[1]} per {T[0]}", "P28.chart.book.unit")
        df = ob.data_orderbook_chart(aspandas=True)
        need(list(df.columns) == [f"Price [{T[1]} per {T[0]}]", f"Liquidity [{T[1]}]"], "P28.chart.book.columns", lambda: f"{df.columns}")
        eqv(df[df.columns[0]], ob.ob_prices, "P28.chart.book.frame"); eqv(df[df.columns[1]], ob.ob_liquidity, "P28.chart.book.frame")
    d = ob.data_tokenamount_chart()
    for k_, want in (("x", src), ("src", src), ("y", trg), ("trg", trg)):
        eqv(d[k_], want, "P28.chart.token")
    need((d["src_unit"], d["trg_unit"]) == tuple(T), "P28.chart.token.unit")
    df = ob.data_tokenamount_chart(aspandas=True)
    need(list(df.columns) == [f"src_amt [{T[0]}]", f"trg_amt [{T[1]}]"], "P28.chart.token.columns")
    eqv(df[df.columns[0]], src, "P28.chart.token.frame"); eqv(df[df.columns[1]], trg, "P28.chart.token.frame")
    for rev in (False, True):
        d = ob.data_price_chart(reverse=rev)
        i = (lambda x: [1 / y for y in x]) if rev else list
        for k_, want in (("x1", src), ("size1", src), ("y1", i(pr)), ("price1_eff", i(pr)), ("x2", mid(src)), ("size2", mid(src)), ("y2", i(pm)), ("price2_marg", i(pm))):
            eqv(d[k_], want, "P28.chart.price", k_)
        u = f"{T[0]} per {T[1]}" if rev else f"{T[1]} per {T[0]}"
        need(d["prices_unit"] == u == ob.pricesr_u(rev) == ob.marg_pricesr_u(rev) and d["size_unit"] == T[0] and d["ammm_buysell_src"] == ("sells" if ask else "buys"), "P28.chart.price.unit")
        df = ob.data_price_chart(reverse=rev, aspandas=True)
        need(list(df.columns) == [f"size1 [{T[0]}]", f"price1_eff [{u}]", f"size2 [{T[0]}]", f"price2_marg [{u}]"], "P28.chart.price.columns", lambda: f"{df.columns}")
        for c, want in zip(df.columns, (src, i(pr), mid(src) + [nan], i(pm) + [nan])):
            eqv(df[c], want, "P28.chart.price.frame", c)
    need(ob.prices_u == ob.marg_prices_u == ob.ob_prices_u == f"{T[1]} per {T[0]}" and ob.ob_liquidity_u == T[1], "P28.units")
    need((ob.base_tkn, ob.quote_tkn, ob.src_tkn, ob.trg_tkn) == (T[0], T[1], T[0], T[1]), "P28.tokens")
    need((ob.src_token_outin, ob.trg_token_outin, ob.amm_buysell_src, ob.amm_buysell_trg, ob.amm_bidask) == (("out", "in", "sells", "buys", "ask") if ask else ("in", "out", "buys", "sells", "bid")), "P28.sides")
    need(ob.explain() == "\n".join([f"This is the {'ASK' if ask else 'BID'} book.", f"Source token = {T[0]}, target token = {T[1]}.", f"AMM {'sells' if ask else 'buys'} {T[0]} for {T[1]}.",
         f"Base token = {T[0]}, quote token = {T[1]}.", f"Prices are quoted in {T[1]} per {T[0]}.", f"Order book amounts are quoted in {T[1]}."]), "P28.explain", lambda: ob.explain())
    eqv(OrderBook.reverse(Analytics.vec(src)), [1 / x for x in src], "P28.reverse"); eqv(OrderBook.inverse(Analytics.vec(src)), [1 / x for x in src], "P28.reverse")
    if case["bad"]:
        expect_exc(lambda: OrderBook(Analytics.vec(src), Analytics.vec(trg), bidask="nosuch"), "P28.bad", ValueError)
    return {"nontrivial": len(v) > 1, "labels": (["gap"] if case["gaps"] else []) + (["tail"] if case["tail"] else [])}
