"""single trades against a book: optimality, router comparison, independence and symmetry relations"""
import math
from decimal import Decimal

from .base import Violation, Skip, need, need_close, isclose
from .simmodel import (SELLS, Trade, call, capacity_in, eligible, is_dust, make_sim, orders_of, qprice, rows_of, same, snap,
                       split, waterfill)


def build(case, **kw):
    sim = make_sim(case, **kw)
    for k in case["book"]:
        r, e = call(sim, "add_strategy", **k)
        if r is None:
            raise Skip()
    for op in case.get("warmup", ()):
        t = Trade(orders_of(snap(sim)), op, case)
        call(sim, t.fn, **t.kw)
    return sim


def quote(sim, case, op=None, **over):
    """(trade, routes, aggregate) of the case's trade, not executed; routes is None when refused"""
    t = Trade(orders_of(snap(sim)), op or case["trade"], case)
    if not t.elig:
        raise Skip()
    kw = dict(t.kw)
    kw["execute"] = False
    kw.update(over)
    r, e = call(sim, t.fn, **kw)
    if r is None:
        return t, None, e
    routes, agg = rows_of(r)
    return t, routes, agg


def tol_out(elig, routes, amt):
    return 2e-12 * (len(routes) + 1)


def totals(agg):
    return float(agg["amt1"]), float(agg["amt2"])


def price_tol(elig, n):
    """rounding of n reported amounts to 12 decimals, expressed in each of the two tokens"""
    pmin, pmax = min(o.pl for o in elig), max(o.ph for o in elig)
    u = 2e-12 * (n + 1)
    return u * (1 + pmax), u * (1 + 1 / pmin)       # in sold tokens, in bought tokens


def p04(case):
    """exact routing is optimal: total, common marginal price, and no order left out or used too much"""
    sim = build(case, matching_method="exact")
    t, routes, agg = quote(sim, case)
    if routes is None:
        if t.share < 0.999 and not is_dust(t) and (t.liq_out if t.by_target else t.liq_in) > 1e-6:
            raise Violation("P04.refused", f"share {t.share} refused: {agg!r}")
        raise Skip()
    out, inn = totals(agg)
    asked = abs(float(t.amt))
    if min(out, inn) < 1e-7:
        return {"nontrivial": False, "labels": ["tiny"]}
    best_out, best_in = waterfill(t.elig, asked, t.by_target)
    to, ti = price_tol(t.elig, len(routes))
    if t.by_target:
        need(isclose(inn, best_in, 1e-8, ti), "P04.total", lambda: f"{asked} of {t.sold} cost {inn}, optimum {best_in}; routes {brief(routes)}")
    else:
        need(isclose(out, best_out, 1e-8, to), "P04.total", lambda: f"{asked} of {t.bought} yield {out}, optimum {best_out}; routes {brief(routes)}")
    # marginal prices after the trade
    used = {}
    for r in routes:
        used[int(r["routeix"])] = used.get(int(r["routeix"]), 0.0) + float(r["amt1"])
    floor, ceil = [], []         # level is >= every end price of an order not exhausted... see below
    lvl_hi, lvl_lo = [], []
    for o in t.elig:
        y = float(o.y)
        if y <= 1e-10:
            continue                 # less than what rounding to 12 decimals leaves behind
        a = used.get(o.id, 0.0)
        d = 1e-11 * (1 + a)
        if a <= d:
            lvl_hi.append((o.sqrtp() ** 2, o.id))             # unused: starts at or below the common level
        else:
            after = o.sqrtp(max(0.0, y - a)) ** 2
            slack = (o.sqrtp(min(y, max(0.0, y - a) + d)) ** 2) / after - 1
            if a >= y * (1 - 1e-9) - d:
                lvl_lo.append((after * (1 + 1e-7 + slack), o.id))      # exhausted: ends at or above the level
            else:
                lvl_hi.append((after * (1 - 1e-7 - slack), o.id))
                lvl_lo.append((after * (1 + 1e-7 + slack), o.id))
    if lvl_hi and lvl_lo:
        a, b = max(lvl_hi), min(lvl_lo)
        need(a[0] <= b[0] * (1 + 1e-7), "P04.marginal",
             lambda: f"after the trade order {a[1]} offers {a[0]} but order {b[1]} was taken down to {b[0]}; routes {brief(routes)}")
    n = len([1 for v in used.values() if v > 1e-11])
    return {"nontrivial": len(t.elig) > 1, "labels": [f"orders{min(len(t.elig), 6)}", f"used{min(n, 6)}", "target" if t.by_target else "source"]}


def brief(routes):
    return [(r["routeix"], r["amt1"], r["amt2"]) for r in routes]


def preferred(t, asked, thr):
    """the `thr` orders that quote best for the whole amount; None if that is not clear cut, or cannot fill it"""
    n = len(t.elig)
    if thr >= n:
        return None
    if t.by_target:
        if min(float(o.y) for o in t.elig) <= asked * 1.001:
            return None
        # price of the amount along the curve, and along its continuation the other way: both must agree
        keys = [lambda o: o.cost(asked), lambda o: -o.cost(-asked)]
    else:
        keys = [lambda o: -o.out(asked)]
    sets = []
    for k in keys:
        r = sorted(t.elig, key=k)
        if isclose(k(r[thr - 1]), k(r[thr]), 1e-9):
            return None
        sets.append(r[:thr])
    if any({o.id for o in s} != {o.id for o in sets[0]} for s in sets):
        return None
    if not t.by_target and sum(min(asked, o.cost(float(o.y))) for o in sets[0]) < asked * (1 + 1e-6):
        return None
    return sets[0]


def p06(case):
    """no routing method beats exact; alpha respects its limit and is exact on what it selects"""
    op = case["trade"]
    qs = {}
    t = None
    if "top" in case:
        sim = build(case, matching_method="exact")
        t = Trade(orders_of(snap(sim)), op, case)
        caps = sorted((float(o.y) if t.by_target else o.cost(float(o.y)) for o in t.elig), reverse=True)
        op = {k: v for k, v in op.items() if k not in ("frac", "round")}
        op["amt"] = case["top"] * sum(caps[:case["thr"]])
    for m in ("exact", "fast", "alpha"):
        sim = build(case, matching_method=m)
        over = {"threshold_orders": case["thr"]} if m == "alpha" else {}
        t, routes, agg = quote(sim, case, op, **over)
        qs[m] = (routes, agg)
    n = len(t.elig)
    asked = abs(float(t.kw["amt"]))
    liq = t.liq_out if t.by_target else t.liq_in
    if asked > liq * 0.9999 or liq < 1e-6 or asked < 1e-6:
        raise Skip()
    need(qs["exact"][0] is not None, "P06.exact.refused", lambda: f"share {t.share}: {qs['exact'][1]!r}")
    need(qs["fast"][0] is not None, "P06.fast.refused", lambda: f"share {t.share}: {qs['fast'][1]!r}")
    o0, i0 = totals(qs["exact"][1])
    to, ti = price_tol(t.elig, n)
    labels = [f"orders{min(n, 6)}", f"thr{'<' if case['thr'] < n else '>='}n"]
    ti += 1e-10 * i0
    to += 1e-10 * o0

    def worse(m):
        o, i = totals(qs[m][1])
        if t.by_target:
            need(i >= i0 - ti, f"P06.{m}.better", lambda: f"{m} needs {i} for {asked}, exact needs {i0}; {brief(qs[m][0])} vs {brief(qs['exact'][0])}")
        else:
            need(o <= o0 + to, f"P06.{m}.better", lambda: f"{m} yields {o} for {asked}, exact yields {o0}; {brief(qs[m][0])} vs {brief(qs['exact'][0])}")
    worse("fast")
    ra, aa = qs["alpha"]
    if case["thr"] >= n:
        need(ra is not None, "P06.alpha.refused", lambda: f"threshold {case['thr']} of {n} orders: {aa!r}")
        o, i = totals(aa)
        need(isclose(o, o0, 1e-9, to) and isclose(i, i0, 1e-9, ti), "P06.alpha.all", lambda: f"alpha with all orders {o, i}, exact {o0, i0}")
    if ra is not None:
        worse("alpha")
        ids = [int(r["routeix"]) for r in ra]
        need(len(set(ids)) <= case["thr"], "P06.alpha.threshold", lambda: f"{case['thr']} orders allowed, routed through {ids}")
        labels.append(f"alpha-used{min(len(set(ids)), 6)}")
        # the orders that offer most for the whole amount are preferred, if they can fill it
        best = preferred(t, asked, case["thr"])
        if best:
            labels.append("alpha-ranked")
            bo, bi = waterfill(best, asked, t.by_target)
            o, i = totals(aa)
            need(isclose(i, bi, 1e-8, ti) if t.by_target else isclose(o, bo, 1e-8, to), "P06.alpha.choice",
                 lambda: f"{asked} with {case['thr']} orders: {o} for {i} through {ids}; {[o.id for o in best]} offer most for the whole amount and give {bo} for {bi}")
        # optimal for the orders it uses
        sel = [o for o in t.elig if o.id in ids]
        bo, bi = waterfill(sel, asked, t.by_target)
        o, i = totals(aa)
        if t.by_target:
            need(isclose(i, bi, 1e-8, ti), "P06.alpha.subset", lambda: f"alpha pays {i}, optimum over {ids} is {bi}")
        else:
            need(isclose(o, bo, 1e-8, to), "P06.alpha.subset", lambda: f"alpha yields {o}, optimum over {ids} is {bo}")
    elif case["thr"] < n:
        labels.append("alpha-refused")
        # refused although the most liquid `thr` orders could fill it?  by target the request is refused
        # only if no selection of that many orders could fill it
        if t.by_target:
            top = sum(sorted((float(o.y) for o in t.elig), reverse=True)[:case["thr"]])
        else:
            # an order that can take all of it counts for no more than that
            top = sum(sorted((min(asked, o.cost(float(o.y))) for o in t.elig), reverse=True)[:case["thr"]])
        need(asked >= top * (1 - 1e-9), "P06.alpha.gave-up", lambda: f"asked {asked}, the {case['thr']} largest orders take {top}: {aa!r}")
    # fast: an order is used up completely before the next one, except the last one
    used = [(int(r["routeix"]), float(r["amt1"])) for r in qs["fast"][0] if float(r["amt1"]) > 1e-11]
    byid = {o.id: o for o in t.elig}
    part = [i for i, a in used if a < float(byid[i].y) * (1 - 1e-8) - 1e-11]
    need(len(part) <= 1, "P06.fast.greedy", lambda: f"orders {part} are all used in part: {brief(qs['fast'][0])}")
    return {"nontrivial": n > 1, "labels": labels}


def p08_noise(case):
    """orders that cannot take part in a trade have no influence on it"""
    sim = build(case)
    sn = snap(sim)
    t, routes, agg = quote(sim, case)
    # the same book without the noise, and with it
    sim2 = make_sim(case)
    noise = {k: v for k, v in case["noise"]}
    pos = sorted(int(p) for p in noise)
    keep = []
    for ix, k in enumerate(case["book"]):
        for kk in case["noise"]:
            if kk[0] == ix:
                r, e = call(sim2, "add_strategy", **kk[1])
                if r is None:
                    raise Skip()
        r, e = call(sim2, "add_strategy", **k)
        need(r is not None, "P08.noise.add", lambda: f"{k}: {e!r}")
        keep += sorted(r["orderuis"])
    for kk in case["noise"]:
        if kk[0] >= len(case["book"]):
            r, e = call(sim2, "add_strategy", **kk[1])
            if r is None:
                raise Skip()
    ids1 = sorted(sn)
    mp = dict(zip(ids1, keep))
    kw = dict(t.kw, execute=False)
    if t.use is not None:
        kw["use_positions"] = [mp[u] for u in t.use if u in mp]
    elif case.get("restrict"):
        kw["use_positions"] = keep
    r2, e2 = call(sim2, t.fn, **kw)
    if routes is None:
        need(r2 is None, "P08.noise.success", lambda: f"refused without, accepted with unrelated orders: {r2}")
        return {"nontrivial": False}
    need(r2 is not None, "P08.noise.refused", lambda: f"accepted without, refused with unrelated orders: {e2!r}")
    rt2, ag2 = rows_of(r2)
    need(sorted(int(r["routeix"]) for r in rt2) == sorted(mp[int(r["routeix"])] for r in routes), "P08.noise.routes",
         lambda: f"{brief(routes)} -> {brief(rt2)}, ids {mp}")
    for k in ("amt1", "amt2", "price"):
        need(isclose(agg[k], ag2[k], 1e-12, 1e-15), "P08.noise.amounts", lambda: f"{k}: {agg[k]} without, {ag2[k]} with unrelated orders; {brief(routes)} {brief(rt2)}")
    return {"nontrivial": len(case["noise"]) > 0, "labels": [f"noise{len(case['noise'])}", case["method"]]}


def p09_split(case):
    """trading in pieces equals trading at once (exact routing, one direction)"""
    method = case["method"]
    sim1, sim2 = build(case), build(case)
    t, routes, agg = quote(sim1, case)
    if routes is None or not t.share < 0.98 or min(totals(agg)) < 1e-5:
        raise Skip()
    if method == "fast" and len(t.elig) > 1:
        raise Skip()
    r, e = call(sim1, t.fn, **dict(t.kw))
    need(r is not None, "P09.split.refused", lambda: f"{e!r}")
    _, a1 = rows_of(r)
    parts, rest = [], Decimal(repr(float(t.amt)))
    for f in case["pieces"]:
        p = float(f"{float(rest) * f:.6g}")
        parts.append(p)
        rest -= Decimal(repr(p))
    parts.append(float(rest))
    o = i = 0.0
    for p in parts:
        if p <= 1e-9:
            raise Skip()
        kw = dict(t.kw)
        kw["amt"] = p if kw["amt"] > 0 else -p
        r, e = call(sim2, t.fn, **kw)
        need(r is not None, "P09.split.refused", lambda: f"piece {p} of {parts}: {e!r}")
        _, a = rows_of(r)
        o += float(a["amt1"])
        i += float(a["amt2"])
    to, ti = price_tol(t.elig, len(t.elig) * len(parts) * 3)
    o1, i1 = totals(a1)
    need(isclose(o, o1, 1e-8, to) and isclose(i, i1, 1e-8, ti), "P09.split", lambda: f"at once {o1, i1}, in pieces {parts}: {o, i}")
    # and the book ends up in the same state
    s1, s2 = snap(sim1), snap(sim2)
    for k in s1:
        need(isclose(s1[k][2], s2[k][2], 1e-7, (to + ti) * 20 + 1e-7 * (o1 if s1[k][0] == t.sold else i1)), "P09.split.state",
             lambda: f"order {k}: at once y={s1[k][2]}, in pieces y={s2[k][2]}")
    return {"nontrivial": True, "labels": [f"pieces{len(parts)}", f"orders{min(4, len(t.elig))}", method]}


def crossed(orders):
    """True if some order buys above what another one sells for"""
    by = {}
    for o in orders.values():
        if o.dis:
            continue
        # price of the alphabetically first token in units of the other
        a, b = sorted((o.b, o.q))
        sells_a = o.tkn == a
        # ph, pl: tkn per other
        best = 1 / o.ph if sells_a else o.ph      # price of a at which the order starts to trade
        k = by.setdefault((a, b), {"ask": [], "bid": []})
        k["ask" if sells_a else "bid"].append(best)
    return any(v["ask"] and v["bid"] and max(v["bid"]) > min(v["ask"]) * (1 + 1e-12) for v in by.values())


def p09_round(case):
    """no sequence of trades extracts value from a book whose bids are below its asks"""
    sim = build(case)
    sn0 = snap(sim)
    orders0 = orders_of(sn0)
    if crossed(orders0):
        raise Skip()
    pair = split(case["pair"])
    base, quote_ = pair
    hold = {base: 0.0, quote_: 0.0}
    gross = {base: 0.0, quote_: 0.0}
    n = 0
    nr = 0
    for op in case["walk"]:
        sn = snap(sim)
        if op["op"] == "back":
            # trade exactly what was obtained so far back
            tk = base if hold[base] > 1e-9 else quote_ if hold[quote_] > 1e-9 else None
            if tk is None:
                continue
            r, e = call(sim, "trader_sells", tkn=tk, amt=float(f"{hold[tk]:.12f}"))
        else:
            t = Trade(orders_of(sn), op, case)
            r, e = call(sim, t.fn, **t.kw)
        if r is None:
            continue
        routes, agg = rows_of(r)
        if not agg["exec"]:
            continue
        n += 1
        nr += len(routes)
        hold[agg["tkn1"]] += float(agg["amt1"])
        hold[agg["tkn2"]] -= float(agg["amt2"])
        gross[agg["tkn1"]] += float(agg["amt1"])
        gross[agg["tkn2"]] += float(agg["amt2"])
        en = [o for o in orders0.values() if not o.dis]
        pmax = max(max(o.ph, 1 / o.pl) for o in en)
        for a, b in ((base, quote_), (quote_, base)):
            ta, tb = 1e-9 * gross[a] + 4e-12 * (nr + 1) * (1 + pmax), 1e-9 * gross[b] + 4e-12 * (nr + 1) * (1 + pmax)
            low = min(1 / o.ph if o.tkn == a else o.pl for o in en)         # the least price of a in b: the gain must be worth more than the rounding of the payment
            need(not (hold[a] > ta and hold[b] > -tb and hold[a] * low > tb), "P09.free-lunch", lambda: f"after {n} trades the trader is up {hold} (gross {gross}); {op}")
    # value: at the price between bids and asks the makers never lose
    if n == 0:
        return {"nontrivial": False}
    sn1 = snap(sim)
    a_bid, a_ask = None, None
    for o in orders0.values():
        if o.dis:
            continue
        if o.tkn == base:
            p = 1 / o.ph
            a_ask = p if a_ask is None else min(a_ask, p)
        else:
            p = o.ph
            a_bid = p if a_bid is None else max(a_bid, p)
    mid = a_ask if a_bid is None else a_bid if a_ask is None else math.sqrt(a_bid * a_ask)
    for i in sorted(sn0):
        l = sn0[i][7]
        if l < i:
            continue
        val0 = sum(float(sn0[k][2]) * (mid if sn0[k][0] == base else 1) for k in (i, l))
        val1 = sum(float(sn1[k][2]) * (mid if sn1[k][0] == base else 1) for k in (i, l))
        tol = 1e-9 * (val0 + val1 + gross[base] * mid + gross[quote_]) + 4e-12 * (nr + 1) * (1 + mid) * (1 + pmax)
        need(val1 >= val0 - tol, "P09.maker-loss", lambda: f"strategy {i, l}: worth {val0} before, {val1} after, at price {mid}")
    return {"nontrivial": n > 1, "labels": [f"trades{min(n, 6)}", case["method"]]}


# ---------------------------------------------------------------------------------------------- symmetries


def _map_book(book, f):
    return [f(dict(k)) for k in book]


PR = ("psell_start", "psell_end", "pbuy_start", "pbuy_end", "psell_marginal", "pbuy_marginal")


def p11(case):
    """quotes do not depend on how the market is written down"""
    sim = build(case)
    t, routes, agg = quote(sim, case)
    pair = split(case["pair"])
    kind = case["sym"]
    c2 = dict(case)
    fa1 = fa2 = 1.0                 # expected factor on amounts sold / bought
    ren = {x: x for x in pair}
    order_map = None
    if kind == "reverse":
        c2["pair"] = f"{pair[1]}/{pair[0]}"
        c2["book"] = _map_book(case["book"], lambda k: {a: (1 / v if a in PR else v) for a, v in k.items()})
        price = lambda p: 1 / p
    elif kind == "rename":
        ren = {pair[0]: "ZZTOP", pair[1]: "AAB"}
        c2["pair"] = "ZZTOP/AAB"
        c2["book"] = _map_book(case["book"], lambda k: dict(k, tkn=ren[k["tkn"]]))
        price = lambda p: p
    elif kind == "swapside":
        # the same makers, entered from the other token
        def sw(k):
            o = {"tkn": pair[1] if k["tkn"] == pair[0] else pair[0]}
            for a, v in k.items():
                if a != "tkn":
                    o[a.replace("sell", "X").replace("buy", "sell").replace("X", "buy")] = v
            return o
        c2["book"] = _map_book(case["book"], sw)
        price = lambda p: p
    elif kind == "permute":
        perm = case["perm"]
        c2["book"] = [b for _, b in sorted(zip(perm, case["book"]), key=lambda x: x[0])]
        price = lambda p: p
    elif kind in ("scale-base", "scale-quote"):
        s = case["scale"]
        tok = pair[0] if kind == "scale-base" else pair[1]

        def sc(k):
            o = dict(k)
            other = pair[1] if k["tkn"] == pair[0] else pair[0]
            for a in list(o):
                if a in ("amt_sell", "y_int_sell") and k["tkn"] == tok:
                    o[a] = o[a] * s
                if a in ("amt_buy", "y_int_buy") and other == tok:
                    o[a] = o[a] * s
                if a in PR:
                    o[a] = o[a] / s if tok == pair[0] else o[a] * s
            return o
        c2["book"] = _map_book(case["book"], sc)
        price = (lambda p: p / s) if tok == pair[0] else (lambda p: p * s)
        if t.sold == tok:
            fa1 = s
        else:
            fa2 = s
    elif kind == "scale-size":
        s = case["scale"]
        c2["book"] = _map_book(case["book"], lambda k: {a: (v * s if a in ("amt_sell", "amt_buy", "y_int_sell", "y_int_buy") else v) for a, v in k.items()})
        fa1 = fa2 = s
        price = lambda p: p
    else:
        raise Skip()
    sim2 = build(dict(c2, warmup=()))
    if case.get("warmup"):
        raise Skip()
    amt = float(t.amt) * (fa1 if t.by_target else fa2)
    kw = dict(t.kw)
    kw.update(tkn=ren[t.tkn], amt=amt if kw["amt"] > 0 else -amt, execute=False)
    if kw.get("use_positions") is not None and kind in ("swapside", "permute"):
        raise Skip()
    if kind == "permute" and case["method"] == "alpha":
        raise Skip()
    r2, e2 = call(sim2, t.fn, **kw)
    edge = abs(t.share - 1) < 1e-6
    # amounts that vanish in the twelve decimals of a trade are not the same amounts any more
    known = totals(agg) if routes is not None else (rows_of(r2)[1] and totals(rows_of(r2)[1])) if r2 is not None else None
    back = (1, 1) if routes is not None else (fa1, fa2)
    if known and min(min(k / b, k / b * f) for k, b, f in zip(known, back, (fa1, fa2))) < 1e-9:
        raise Skip()
    if routes is None or r2 is None:
        need(edge or (routes is None) == (r2 is None), "P11.success", lambda: f"{kind}: {agg!r} vs {r2 if r2 else repr(e2)}")
        return {"nontrivial": False}
    rt2, ag2 = rows_of(r2)
    a1, a2 = totals(agg)
    b1, b2 = totals(ag2)
    to, ti = price_tol(t.elig, max(len(routes), len(rt2)))
    rel = 1e-9
    if case["method"] != "exact":
        # ties are broken by the order in which the makers came in
        pass
    need(isclose(b1 / fa1, a1, rel, to * (1 + 1 / fa1)) and isclose(b2 / fa2, a2, rel, ti * (1 + 1 / fa2)), f"P11.{kind}",
         lambda: f"amounts {a1, a2} became {b1 / fa1, b2 / fa2}; {brief(routes)} {brief(rt2)}")
    m = min(a1, a2, b1, b2)
    if m > 1e-6:
        need(isclose(price(float(agg["price"])), ag2["price"], 1e-9 + 4e-12 * 4 / m), f"P11.{kind}.price", lambda: f"{agg['price']} -> {ag2['price']}")
    return {"nontrivial": True, "labels": [kind, case["method"], f"orders{min(4, len(t.elig))}"]}
