"""token pairs (carbon/pair.py)"""
import itertools
from .base import need, need_close, expect_exc, Skip


def p12(case):
    from carbon import CarbonPair as P
    b0, q0 = case["b"], case["q"]
    b, q, f = b0.upper(), q0.upper(), case["foreign"]
    db, dq = case["dec"]
    s = case["spaces"]
    labels = set()

    def check(p, how, dec=None, disp=False):
        need(p.tknb == b and p.tknq == q, "P12.tokens", lambda: f"{how}: {p.tknb!r} {p.tknq!r} expected {b!r} {q!r}")
        need(p.basetoken == b and p.quotetoken == q, "P12.tokens", how)
        need(p.slashpair == f"{b}/{q}" == p.pair_slash, "P12.slashpair", lambda: f"{how}: {p.slashpair}")
        need(p.pair_iso == b + q, "P12.iso", lambda: f"{how}: {p.pair_iso}")
        need(p.price_convention == f"{q} per {b}", "P12.convention", lambda: f"{how}: {p.price_convention}")
        if dec is not None:
            eb, eq = dec
            d = p.decimals
            need((d[b], d[q], d["_TKNB"], d["_TKNQ"]) == (eb, eq, eb, eq), "P12.decimals", lambda: f"{how}: {d} expected {dec}")
            both = eb is not None and eq is not None
            need(p.has_decimals == both, "P12.decimals", lambda: f"{how}: has_decimals {p.has_decimals}")
            need(p.decdiffqb == (eq - eb if both else None), "P12.decimals", lambda: f"{how}: {p.decdiffqb}")
    p = P(f"{b0}/{q0}")
    none = (None, None)
    check(p, "slash", none)
    check(P(tknb=b0, tknq=q0), "tknb, tknq", none)
    check(P.create(f"{b0}/{q0}"), "create(slash)", none)
    check(P.create(b0, q0), "create(b,q)", none)
    check(P.from_slashpair(f"{s[0]}{b0}{s[1]}/{s[2]}{q0}{s[3]}"), "from_slashpair", none)
    check(P.from_slashpair(f"{b0}/{q0}", decimals=(db, dq)), "from_slashpair(decimals)", (db, dq))
    need(P.create(p) is p, "P12.create", "create(pair) is another object")
    need(P.create() is None, "P12.create", "create()")
    expect_exc(lambda: P.create(p, "ETH"), "P12.create.two")
    iso = f"{b0}{q0}"
    if not (b.endswith(q) or q.endswith(b) or b.startswith(q) or q.startswith(b) or (b + q).startswith(q) or (b + q).endswith(b)):
        check(P.from_isopair_and_tkn(iso, b), "iso, base", none)
        check(P.from_isopair_and_tkn(iso, q), "iso, quote", none)
        labels.add("iso")
    else:
        labels.add("iso.nested")
        if not q.startswith(b) and (b + q).startswith(b) and not (b + q).endswith(b):
            check(P.from_isopair_and_tkn(iso, b), "iso, base", none)
    if f not in b + q:
        expect_exc(lambda: P.from_isopair_and_tkn(iso, f), "P12.iso.foreign", ValueError)
    if len(b) == len(q) and len(b) in (3, 4):
        check(P.from_isopair_and_tkn(iso), "iso alone", none)
    if len(b + q) not in (6, 8):
        expect_exc(lambda: P.from_isopair_and_tkn(iso), "P12.iso.length", ValueError)
    expect_exc(lambda: P(f"{b}{q}"), "P12.illegal", ValueError)
    expect_exc(lambda: P(f"{b}/{q}/{b}"), "P12.illegal", ValueError)
    expect_exc(lambda: P(f"{b}/{q}", tknq=q), "P12.both", ValueError)
    expect_exc(lambda: P(f"{b}/{q}", q), "P12.both", ValueError)
    expect_exc(lambda: P(tknb=b), "P12.missing", ValueError)
    # decimals
    pd = P(f"{b0}/{q0}").set_decimals(db, dq)
    check(pd, "set_decimals", (db, dq))
    check(P(f"{b0}/{q0}").sd(db, dct={q: dq, b: 99}), "sd(dct)", (db, dq))
    check(P(f"{b0}/{q0}").sd(dct={q: dq}), "sd(dct)", (None, dq))
    check(P(pd), "copy", (db, dq))
    need(P(pd) == pd and P(p) == p, "P12.copy", "copy differs")
    # reverse
    r = pd.reverse
    need((r.tknb, r.tknq) == (q, b), "P12.reverse", lambda: f"{r}")
    check(r.reverse, "reverse twice", (db, dq))
    need(r.reverse == pd, "P12.reverse.twice", lambda: f"{r.reverse} {pd}")
    need(r.decimals[b] == db and r.decimals[q] == dq, "P12.reverse.decimals", lambda: f"{r.decimals}")
    for d in ((db, None), (None, dq), none):
        # decimals known for one token only
        ph = P(f"{b0}/{q0}").set_decimals(*d)
        check(ph, "partial decimals", d)
        rh = ph.reverse
        need((rh.tknb, rh.tknq) == (q, b) and rh.decimals[b] == d[0] and rh.decimals[q] == d[1], "P12.reverse.decimals", lambda: f"{d} reversed {rh.decimals}")
        check(rh.reverse, "reverse twice, partial decimals", d)
    # membership
    for t in (b, q, f):
        need(p.has_basetoken(t) == (t == b) and p.has_quotetoken(t) == (t == q) and p.has_token(t) == (t in (b, q)), "P12.has", t)
        need(p.other(t) == {b: q, q: b}.get(t), "P12.other", t)
    # display names
    pdsp = P(tknb=b0, tknq=q0, display_orig=case["disp"])
    need((pdsp.tknb_o, pdsp.tknq_o, pdsp.slashpair_o) == (b0, q0, f"{b0}/{q0}"), "P12.orig", lambda: f"{pdsp.slashpair_o}")
    eb, eq = (b0, q0) if case["disp"] else (b, q)
    need((pdsp.tknb_d, pdsp.tknq_d, pdsp.slashpair_d) == (eb, eq, f"{eb}/{eq}"), "P12.display", lambda: f"{pdsp.slashpair_d}")
    rdsp = pdsp.reverse
    need((rdsp.tknb_o, rdsp.tknq_o) == (q0, b0) or (rdsp.tknb_o, rdsp.tknq_o) == (q, b), "P12.orig.reverse", lambda: f"{rdsp.slashpair_o}")
    # amounts
    amt, pr, cur = case["amt"], case["price"], case["cur"]
    amt = -amt if case["neg"] else amt
    rv = p.reverse
    need_close(p.convert(amt, b, q, pr), amt * pr, "P12.convert", 1e-15)
    need_close(p.convert(amt, q, b, pr), amt / pr, "P12.convert", 1e-15)
    for x, y in ((b, q), (q, b)):
        need(p.convert(amt, x, x, pr) == amt, "P12.convert.same", x)
        need_close(p.convert(p.convert(amt, x, y, pr), y, x, pr), amt, "P12.convert.back", 1e-14)
        need_close(rv.convert(amt, x, y, 1 / pr), p.convert(amt, x, y, pr), "P12.convert.reverse", 1e-14)
        need(p.convert(amt, x, f, pr) is None and p.convert(amt, f, x, pr) is None and p.convert(amt, f, f, pr) is None, "P12.convert.foreign", x)
    # prices
    need(p.price(pr, b, q) == pr, "P12.price", "same convention")
    need_close(p.price(pr, q, b), 1 / pr, "P12.price", 1e-15)
    need_close(p.price(p.price(pr, q, b), q, b), pr, "P12.price.twice", 1e-15)
    for x in (b, q):
        need(p.price(pr, x, x) is None and p.price(pr, x, f) is None and p.price(pr, f, x) is None, "P12.price.foreign", x)
    need(p.convert_price(pr, q) == pr, "P12.convert_price", "same")
    need_close(p.convert_price(pr, b), 1 / pr, "P12.convert_price", 1e-15)
    need_close(rv.convert_price(pr, q), 1 / pr, "P12.convert_price.reverse", 1e-15)
    need(rv.convert_price(pr, b) == pr, "P12.convert_price.reverse", "same")
    need(p.convert_price(pr, f) is None and p.convert_price(None, b) is None and p.convert_price(None, q) is None, "P12.convert_price.none", "")
    # limits: cur is the market price, pr the limit, both quote per base
    for tkn, side, taker in itertools.product((b, q), ("buy", "sell"), (False, True)):
        const = p.BUY if side == "buy" else p.SELL
        placer_buys = (side == "buy") != taker
        buys_base = placer_buys == (tkn == b)
        exp = cur <= pr if buys_base else cur >= pr
        got = p.limit_is_met(tkn, pr, const, cur, reverse=taker)
        need(got is exp or got == exp, "P12.limit", lambda: f"{side} {tkn} limit {pr} at {cur}, reverse={taker}: {got}, expected {exp}")
        ph = p.limit_is_met(tkn, pr, const, cur, reverse=taker, asphrase=True)
        need(isinstance(ph, str) and (("does not" not in ph) == exp), "P12.limit.phrase", lambda: f"{ph} expected {exp}")
        # the same order in the reversed pair
        if cur == pr or abs(cur / pr - 1) > 1e-14:
            g2 = rv.limit_is_met(tkn, 1 / pr, const, 1 / cur, reverse=taker)
            need(bool(g2) == exp, "P12.limit.reversed", lambda: f"{side} {tkn} limit {pr} at {cur}, reverse={taker}: {g2} in the reversed pair")
    need(p.MAKERBUY == p.BUY and p.TAKERBUY == p.SELL and p.MAKERSELL == p.SELL and p.TAKERSELL == p.BUY, "P12.constants", "")
    need(p.limit_is_met(f, pr, p.BUY, cur) is None, "P12.limit.foreign", f)
    labels.add("eq" if cur == pr else "near" if abs(cur / pr - 1) < 1e-5 else "apart")
    return {"nontrivial": amt != 0, "labels": sorted(labels)}
