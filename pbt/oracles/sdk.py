"""the SDK layer against a stand-in for the HTTP connection: what is sent, what is made of the answers"""
import copy
import json
import math
from fractions import Fraction

import requests
from carbon import CarbonOrderUI, CarbonPair, CarbonSimulatorUI
from carbon.sdk import CarbonSDK, SDKToken, TokenContainer, Tokens as GLOBAL

from .base import Skip, expect_exc, need, need_close

DEFAULT = {"url": "http://localhost:3118", "token": "carbontoken", "apibase": "api", "syncdefault": False, "raiseonerror": True}


class Wire:
    """replaces the transport of the requests library: records the requests, answers with answer(request)"""
    def __init__(self, answer):
        self.answer, self.sent = answer, []

    def __enter__(self):
        self.old = requests.Session.send
        wire = self

        def send(session, prep, **kw):
            body = prep.body
            if isinstance(body, bytes):
                body = body.decode()
            rec = {"method": prep.method.upper(), "url": prep.url, "token": prep.headers.get("token"), "json": json.loads(body) if body else None}
            wire.sent.append(rec)
            status, text = wire.answer(rec)
            if status is None:
                raise requests.exceptions.ConnectionError(text)
            r = requests.Response()
            r.status_code = status
            r._content = text.encode()
            r.encoding = "utf-8"
            r.url = prep.url
            r.request = prep
            return r
        requests.Session.send = send
        return self

    def __exit__(self, *a):
        requests.Session.send = self.old


def container(toks, raiseonerror=None):
    return TokenContainer.fromlist([(t, a, d) for t, a, d in toks], raiseonerror)


def big(v):
    return {"type": "BigNumber", "hex": hex(int(v))}


def slash(u, *p):
    out = u.rstrip("/")
    for x in p:
        out += "/" + x.strip("/")
    return out


def gas(o):
    o = dict(o or {})
    if not o.get("gasLimit"):
        o["gasLimit"] = 999999999
    return o


def strs(actions):
    return [{k: str(v) if isinstance(v, int) else v for k, v in d.items()} for d in (actions or [])]


class Call:
    """what a call is expected to send and to return"""
    def __init__(self, run, ep, params, data=None, conv=lambda d: d, kind="sync", refuse=None, method="POST"):
        self.run, self.ep, self.params, self.data, self.conv, self.kind, self.refuse, self.method = run, ep, params, data, conv, kind, refuse, method


def _plan(S, T, case):
    fn, a = case["fn"], case["a"]
    toks = case["tokens"]
    addr = lambda k: toks[k][1].lower()
    src, trg = addr(a["i"]), (a["other"] if a["useother"] else addr(a["j"]))
    sync = a["sync"]
    f = getattr(S, fn)
    kind = "either"
    if fn in ("mul", "plus", "qmul", "qplus"):
        x, y = a["numbers"]
        return Call(lambda: f(x, y, sync=sync), fn, {"a": x, "b": y}, kind=kind, data=a["data"])
    if fn.startswith("getERC20"):
        tl = [T[toks[k][0]] for k in a["toks"]]
        al = [addr(k) for k in a["toks"]]
        ep = {"getERC20Balance": "erc20/balance_of", "getERC20Decimals": "erc20/decimals", "getERC20Symbol": "erc20/symbol"}[fn]
        if fn == "getERC20Balance":
            bals = a["bals"][:len(tl)]
            want = {toks[k][0]: Fraction(b, 10 ** toks[k][2]) for k, b in zip(a["toks"], bals)}

            def conv(d):
                return want
            return Call(lambda: f(tl, a["user"]), ep, {"tokens": al, "address": a["user"]}, [big(b) for b in bals], conv, kind="req")
        if fn == "getERC20Decimals":
            ds = [toks[k][2] for k in a["toks"]]
            return Call(lambda: f(tl), ep, {"tokens": al}, ds, lambda d: {toks[k][0]: v for k, v in zip(a["toks"], ds)}, kind="req")
        syms = ["S" + toks[k][0] for k in a["toks"]]
        if a["addrs"]:
            return Call(lambda: f(al), ep, {"tokens": al}, syms, lambda d: dict(zip(al, syms)), kind="req")
        return Call(lambda: f(tl), ep, {"tokens": al}, syms, lambda d: {toks[k][0]: v for k, v in zip(a["toks"], syms)}, kind="req")
    if fn == "getMatchActions":
        return Call(lambda: f(a["wei"], a["flag"], a["orders"], sync=sync), "get_match_actions", {"amountWei": str(a["wei"]), "tradeByTargetAmount": bool(a["flag"]), "orders": a["orders"]}, a["data"], kind=kind)
    if fn == "addr":
        return Call(f, "addr", None, a["user"], kind="addr", method="GET")
    if fn == "version":
        return Call(f, "", None, kind="version", method="GET")
    if fn == "result":
        return Call(lambda: f(a["reqid"]), "result/%d" % a["reqid"], None, {"reqid": a["reqid"], "result": a["data"]}, lambda d: d["result"], kind="result", method="GET")
    if fn == "pairs":
        raw = [[toks[x][1], toks[y][1]] for x, y in (a["pairlist"] or [])] + [[a["other"], toks[a["i"]][1]]] * int(a["useother"])

        def conv(d):
            return ("pairs", raw)
        return Call(lambda: f(inclstr=a["inclstr"]), "pairs", {}, raw, conv)
    if fn == "hasLiquidityByPair":
        if a["pairlist"] is not None:
            pl = [{"sourceToken": addr(x), "targetToken": addr(y)} for x, y in a["pairlist"]]
            if a["both"]:
                return Call(lambda: f(src, trg, pairs=pl), None, None, refuse=ValueError)
            return Call(lambda: f(pairs=pl), "has_liquidity_by_pair", {"pairList": pl}, [bool(x % 2) for x, _ in a["pairlist"]])
        if a["both"]:
            return Call(lambda: f(src) if a["flag"] else f(targetTokenAddr=trg) if a["inclstr"] else f(), None, None, refuse=ValueError)
        return Call(lambda: f(src, trg), "has_liquidity_by_pair", {"sourceToken": src, "targetToken": trg}, bool(a["flag"]))
    st = {"sourceToken": src, "targetToken": trg}
    if fn in ("getLiquidityByPair", "getMinRateByPair", "getMaxRateByPair"):
        ep = {"getLiquidityByPair": "get_liquidity_by_pair", "getMinRateByPair": "get_min_rate_by_pair", "getMaxRateByPair": "get_max_rate_by_pair"}[fn]
        v = a["floats"][0]
        return Call(lambda: f(src, trg), ep, st, repr(v), lambda d: v)
    if fn == "getRateLiquidityDepthByPair":
        r = a["rate"]
        if isinstance(r, list):
            vals = a["floats"][:len(r)]
            dat = [repr(v) for v in vals]
            if a["flag"] and a["both"]:
                dat[0], vals = {"error": "no such rate"}, [None] + vals[1:]
            return Call(lambda: f(src, trg, tuple(r) if a["inclstr"] else list(r)), "get_rate_liquidity_depth_by_pair", dict(st, rate=[str(x) for x in r]), dat, lambda d: vals)
        return Call(lambda: f(src, trg, r), "get_rate_liquidity_depth_by_pair", dict(st, rate=str(r)), repr(a["floats"][0]), lambda d: a["floats"][0])
    if fn == "getUserStrategies":
        return Call(lambda: f(a["user"]), "get_user_strategies", {"user": a["user"]}, a["data"])
    if fn == "getTradeData":
        flt = a["filter"]
        return Call(lambda: f(src, trg, a["amount"], a["flag"], **({} if flt is None else {"filter": flt})), "get_trade_data", dict(st, amount=str(a["amount"]), tradeByTargetAmount=bool(a["flag"]), filter=flt or []), a["data"])
    if fn.startswith("composeTradeBy"):
        trgt = fn == "composeTradeByTargetTransaction"
        lim = a["limit"]
        params = dict(st, tradeActions=strs(a["actions"]), deadline=str(2 ** 32 - 1 if a["deadline"] is None else a["deadline"]), overrides=gas(a["overrides"]))
        if trgt:
            params["maxInput"] = str(2 ** 128 - 1) if lim is None else str(lim)
        else:
            params["minReturn"] = "1" if lim is None else str(lim)
        kw = {"deadline": a["deadline"], "overrides": a["overrides"], ("maxInput" if trgt else "minReturn"): lim}
        return Call(lambda: f(src, trg, a["actions"], **kw), "compose_trade_by_target_transaction" if trgt else "compose_trade_by_source_transaction", params, a["data"])
    if fn == "getMatchParams":
        return Call(lambda: f(src, trg, a["amount"], a["flag"], sync=sync), "get_match_params", dict(st, amount=str(a["amount"]), tradeByTargetAmount=bool(a["flag"])), a["data"], kind=kind)
    if fn == "getTradeDataFromActions":
        return Call(lambda: f(src, trg, a["flag"], a["actions"], sync=sync), "get_trade_data_from_actions", dict(st, tradeByTargetAmount=bool(a["flag"]), actionsWei=strs(a["actions"])), a["data"], kind=kind)
    p = a["prices"]
    if fn in ("createBuySellStrategy", "mCreateStrategy"):
        bl, bh, sl, sh = p
        par = lambda b, q: {"baseToken": b, "quoteToken": q, "buyPriceLow": str(bl), "buyPriceHigh": str(bh), "buyBudget": str(a["budgets"][0]),
                            "sellPriceLow": str(sl), "sellPriceHigh": str(sh), "sellBudget": str(a["budgets"][1]), "overrides": gas(a["overrides"])}
        if fn == "createBuySellStrategy":
            return Call(lambda: f(src, trg, bl, bh, a["budgets"][0], sl, sh, a["budgets"][1], overrides=a["overrides"]), "create_buy_sell_strategy", par(src, trg), a["data"])
        pair = CarbonPair(f"{toks[a['i']][0]}/{toks[a['j']][0]}")
        arg = pair if a["inclstr"] else pair.slashpair
        if a["both"]:         # the ranges overlap in the wrong way
            bh, sl = sl, bh
        ss, se = (sh, sl) if a["swap"][0] else (sl, sh)
        bs, be = (bl, bh) if a["swap"][1] else (bh, bl)
        kw = {} if a["overrides"] is None else {"overrides": a["overrides"]}
        return Call(lambda: f(arg, ss, se, a["budgets"][1], bs, be, a["budgets"][0], **kw), "create_buy_sell_strategy", par(addr(a["i"]), addr(a["j"])), a["data"],
                    refuse=S.CarbonSDKValueError if T is None or case["a"]["notokens"] else ValueError if a["both"] else None)
    if fn == "updateStrategy":
        u = S.StrategyUpdate(**a["upd"])
        bm, sm = a["marg"]
        need(u.asdict(False) == {k: str(v) for k, v in a["upd"].items() if v is not None}, "P26.update.asdict", lambda: f"{u}")
        need({k: v for k, v in u.asdict(False, False).items() if v is not None} == u.asdict(False) and len(u.asdict(False, False)) == 8, "P26.update.asdict", lambda: f"{u}")
        pick = lambda x, k: str(x) if x is not None else str(a["upd"][k]) if k in a["upd"] else None
        par = {"strategyId": str(a["sid"]), "encoded": a["orders"], "baseToken": src, "quoteToken": trg, "update": {k: str(v) for k, v in a["upd"].items() if "Marginal" not in k},
               "buyMarginalPrice": pick(bm, "buyMarginalPrice"), "sellMarginalPrice": pick(sm, "sellMarginalPrice"), "overrides": gas(a["overrides"])}
        return Call(lambda: f(a["sid"], a["orders"], src, trg, u, bm, sm, overrides=a["overrides"], sync=sync), "update_strategy", par, a["data"], kind=kind)
    if fn == "deleteStrategy":
        return Call(lambda: f(a["sid"], overrides=a["overrides"]), "delete_strategy", {"strategyId": str(a["sid"]), "overrides": gas(a["overrides"])}, a["data"])
    if fn == "signsubmittx":
        kw = {} if a["both"] else {"sign": a["flag"]}
        return Call(lambda: f(a["tx"], **kw), "signsubmittx", {"tx": a["tx"], "sign": True if a["both"] else bool(a["flag"])}, a["data"], kind="req")
    raise Skip()


def _make(case, T):
    kw = {k: v for k, v in case["ctor"].items() if v is not None}
    S = CarbonSDK(disclaimer=False, verbose=False, Tokens=None if case["a"]["notokens"] else T, **kw)
    return S, {**DEFAULT, **kw}


def calls(case):
    """one function, one answer of the server"""
    T = container(case["tokens"])
    S, cfg = _make(case, T)
    a = case["a"]
    before = copy.deepcopy(a)
    plan = _plan(S, T, case)
    ansk = case["answer"]
    kind = plan.kind
    if kind == "either":
        kind = "raw" if (a["sync"] if a["sync"] is not None else cfg["syncdefault"]) else "async"
    if kind in ("raw", "async", "sync"):
        path = ("ascall/" if kind == "async" else "scall/") + (plan.ep or "")
    else:
        path = plan.ep
    if ansk == "ok":
        body = {"success": True, "reqid": a["reqid"]} if kind == "async" else {"success": True, "data": plan.data}
        if kind == "version":
            body = {"msg": "Carbon SDK", "version": "0.9"}
        ans = (200, json.dumps(body))
    else:
        body = {"success": False, "error": "something failed", "awaiting": ansk == "awaiting"}
        if ansk == "nodata":
            body = {}
        ans = {"fail": (200, json.dumps(body)), "awaiting": (200, json.dumps(body)), "nodata": (200, "{}"), "status": (case["status"], "Unauthorized"), "down": (None, "no route to host"), "notjson": (200, "<html>oops</html>")}[ansk]
    if ansk == "status" and kind == "sync" and a["flag"]:      # whatever the body says
        ans = (case["status"], json.dumps({"success": True, "data": plan.data}))
    err = res = None
    with Wire(lambda rec: ans) as w:
        try:
            res = plan.run()
        except Exception as e:
            err = e
    ctx = lambda: f"{case['fn']} kind={kind} answer={ansk} sent={w.sent} result={res!r} error={err!r}"
    need(before == a, "P26.args", lambda: f"the arguments of the caller were changed {ctx()}")
    if plan.refuse:
        need(isinstance(err, plan.refuse), "P26.refuse", ctx)
        need(not w.sent, "P26.refuse.sent", ctx)
        return {"nontrivial": True, "labels": ["refused", case["fn"]]}
    # --- the request
    need(len(w.sent) == 1, "P26.requests", ctx)
    r = w.sent[0]
    need(r["method"] == plan.method, "P26.method", ctx)
    want = slash(cfg["url"], "") if kind == "version" else slash(cfg["url"], cfg["apibase"], path)
    need(r["url"].rstrip("/") == want.rstrip("/"), "P26.url", lambda: f"{want} {ctx()}")
    need(r["token"] == cfg["token"], "P26.token", ctx)
    if plan.method == "POST":
        need(r["json"] == plan.params and json.dumps(r["json"], sort_keys=True) == json.dumps(plan.params, sort_keys=True), "P26.params", lambda: f"expected {plan.params} {ctx()}")
    else:
        need(not r["json"], "P26.params", ctx)
    # --- the answer
    if kind == "raw":
        need(err is None, "P26.raw", ctx)
        if ansk == "down":
            need(res.status_code != 200 and "no route" in str(res.json()), "P26.raw.down", ctx)
        else:
            need(res.status_code == ans[0], "P26.raw.status", ctx)
            if ansk in ("ok", "fail"):
                need(res.json() == body, "P26.raw.json", ctx)
    elif kind == "async":
        if ansk == "ok":
            need(err is None and res == a["reqid"], "P26.async", ctx)
        elif ansk in ("fail", "awaiting", "nodata", "down"):
            if cfg["raiseonerror"]:
                need(isinstance(err, S.AsyncAPICallError), "P26.async.error", ctx)
            else:
                need(err is None and res is False, "P26.async.false", ctx)
        else:
            need(err is not None, "P26.async.error", ctx)
    elif kind == "version":
        if ansk == "ok":
            need(err is None and res == body, "P26.version", ctx)
        elif ansk in ("status", "notjson"):
            need(err is not None, "P26.version.error", ctx)
    elif kind == "addr":
        if ansk == "ok":
            need(err is None and res == plan.data, "P26.addr", ctx)
        else:
            need(err is not None or res is None, "P26.addr.error", ctx)
    elif kind == "result":
        if ansk == "ok":
            need(err is None and res == a["data"], "P26.result", ctx)
        elif ansk == "awaiting":
            need(err is None and res is True, "P26.result.awaiting", ctx)
        elif ansk == "fail":
            if cfg["raiseonerror"]:
                need(isinstance(err, S.UnknownReqIdError), "P26.result.unknown", ctx)
            else:
                need(err is None and res is False, "P26.result.unknown", ctx)
        else:
            need(err is not None, "P26.result.error", ctx)
    else:                       # sync functions convert the data, and fail if there is none
        if ansk != "ok":
            need(isinstance(err, RuntimeError), "P26.error", ctx)
        else:
            need(err is None, "P26.ok", ctx)
            want = plan.conv(plan.data)
            if isinstance(want, tuple) and want and want[0] == "pairs":
                _pairs(res, want[1], None if a["notokens"] else T, a["inclstr"], ctx)
            elif case["fn"] == "getERC20Balance":
                need(set(res) == set(want), "P26.balance", ctx)
                for k in want:
                    need_close(res[k], float(want[k]), "P26.balance", 1e-14, 0, ctx)
            else:
                need(res == want and type(res) is type(want) or isinstance(res, (list, tuple)) and list(res) == list(want), "P26.data", lambda: f"expected {want!r} {ctx()}")
    return {"nontrivial": True, "labels": [case["fn"], ansk, kind]}


def _pairs(res, raw, T, inclstr, ctx):
    if T is None:
        need([list(p) for p in res] == raw, "P26.pairs.raw", ctx)
        return
    if inclstr:
        res, s = res
        names = {t.a: t.T for t in T}
        need(s == ", ".join("/".join(names.get(x.lower(), x.lower()) for x in p) for p in raw), "P26.pairs.str", ctx)
    need(len(res) == len(raw), "P26.pairs", ctx)
    known = {t.a for t in T}
    for p, q in zip(res, raw):
        need(len(p) == 2, "P26.pairs", ctx)
        for x, y in zip(p, q):
            if y.lower() in known:
                need(isinstance(x, SDKToken) and x.a == y.lower() and x is T.byaddr(y), "P26.pairs.token", ctx)
            else:
                need(isinstance(x, str) and x.lower() == y.lower(), "P26.pairs.unknown", ctx)


# ------------------------------------------------------------------------------------------ markets
def market(case):
    toks = case["tokens"]
    n = len(toks)
    T = container(toks)
    S = CarbonSDK(disclaimer=False, verbose=False, Tokens=T)
    ix = {t[1].lower(): k for k, t in enumerate(toks)}
    answers = []

    def ask(rec):
        p, ep = rec["json"], rec["url"].rsplit("/", 1)[1]
        fail = (200, json.dumps({"success": False, "error": "no such pair"}))
        ok = lambda d: (answers.append(d), (200, json.dumps({"success": True, "data": d})))[1]
        if ep == "has_liquidity_by_pair" and "pairList" in p:
            return ok([f"{ix[q['sourceToken']]}>{ix[q['targetToken']]}" in case["dirs"] for q in p["pairList"]])
        d = case["dirs"].get(f"{ix[p['sourceToken']]}>{ix[p['targetToken']]}")
        if ep == "has_liquidity_by_pair":
            return ok(d is not None)
        if d is None:
            return fail
        if ep == "get_min_rate_by_pair":
            return ok(repr(d["lo"]))
        if ep == "get_max_rate_by_pair":
            return ok(repr(d["hi"]))
        if ep == "get_liquidity_by_pair":
            return ok(repr(d["liq"]))
        if ep == "get_rate_liquidity_depth_by_pair":
            def depth(r):
                u = (d["hi"] - float(r)) / (d["hi"] - d["lo"])
                return repr(d["liq"] * min(1.0, max(0.0, u)) ** d["shape"])
            return ok([depth(r) for r in p["rate"]] if isinstance(p["rate"], list) else depth(p["rate"]))
        return fail
    i, j = case["pair"]
    tb, tq = toks[i][0], toks[j][0]
    mk = lambda x, y: CarbonPair(tknb=toks[x][0], tknq=toks[y][0])
    arg = mk(i, j) if case["aspair"] else f"{tb}/{tq}"
    labels = set()
    done = 0

    def go(fn, *a):
        nonlocal done
        answers.clear()
        with Wire(ask) as w:
            try:
                r, e = fn(*a), None
            except Exception as ex:
                r, e = None, ex
        done += 1
        return r, e, w.sent
    if case["missing"]:
        bad = f"{tb}/NOSUCH"
        for fn, a in ((S.mHasLiquidityByPair, (bad, tb)), (S.mGetLiquidityByPair, (bad, tb)), (S.mGetRangeByPair, (bad, tb)), (S.mGetMarketByPair, (bad,)), (S.mPrepareTrade, (bad, S.BUY, tb, 1)), (S.mHasLiquidityByPairs, (bad,)),
                      (S.mGetRateLiquidityDepthByPair, (1.0, bad, "NOSUCH"))):
            r, e, sent = go(fn, *a)
            need(e is not None and not sent, "P26.m.missing", lambda: f"{fn} {r} {e!r} {sent}")
    # --- one direction: the AMM sells `t` and buys `s`
    t, s = (i, j) if case["sells"] == 0 else (j, i)
    name = toks[t][0]
    d = case["dirs"].get(f"{s}>{t}")
    side = "ask" if t == i else "bid"
    inv = t == i                              # raw rates are t per s; prices are tq per tb
    pr = lambda raw: 1.0 / raw if inv else raw
    st = {"sourceToken": toks[s][1].lower(), "targetToken": toks[t][1].lower()}
    r, e, sent = go(S.mHasLiquidityByPair, arg, name)
    need(e is None and r is (d is not None) and len(sent) == 1 and sent[0]["json"] == st, "P26.m.has", lambda: f"{r} {e!r} {sent} {case}")
    meta = lambda r: r.AMMsells == name and r.bidAsk == side and r.pair.tknb == tb and r.pair.tknq == tq
    r, e, sent = go(S.mGetLiquidityByPair, arg, name)
    need(len(sent) == 1 and sent[0]["json"] == st, "P26.m.request", lambda: f"{sent} {case}")
    if d is None:
        need(e is not None, "P26.m.error", lambda: f"{r}")
    else:
        need(e is None and r.amount == d["liq"] and r.unit == name and meta(r), "P26.m.liq", lambda: f"{r} {e!r} {case}")
    r, e, sent = go(S.mGetRangeByPair, arg, name)
    need(all(x["json"] == st for x in sent) and len(sent) <= 2, "P26.m.request", lambda: f"{sent} {case}")
    if d is None:
        need(e is not None, "P26.m.error", lambda: f"{r}")
    else:
        need(e is None and meta(r) and r.AMMbuys == toks[s][0] and r.inverted is inv, "P26.m.range", lambda: f"{r} {e!r} {case}")
        need_close(r.startRate, pr(d["hi"]), "P26.m.range.start", 1e-12, 0, lambda: f"{r} {case}")
        need_close(r.endRate, pr(d["lo"]), "P26.m.range.end", 1e-12, 0, lambda: f"{r} {case}")
        # depth at rates inside and outside of the range
        rates = [pr(d["hi"]) + x * (pr(d["lo"]) - pr(d["hi"])) for x in case["x"]]
        rates = [x for x in rates if x > 0] or [pr(d["hi"])]
        q = rates[0] if case["scalar"] else rates
        r, e, sent = go(S.mGetRateLiquidityDepthByPair, q, arg, name)
        need(e is None and len(sent) == 1 and meta(r) and r.unit == name and r.inverted is inv and r.islist is (not case["scalar"]) and r.rate == q, "P26.m.depth", lambda: f"{r} {e!r} {sent} {case}")
        p = dict(sent[0]["json"])
        got = p.pop("rate")
        need(p == st and isinstance(got, list) is (not case["scalar"]), "P26.m.depth.request", lambda: f"{sent}")
        for g, x in zip(got if isinstance(got, list) else [got], rates):
            need_close(g, pr(x), "P26.m.depth.rate", 1e-12, 0, lambda: f"{sent} {case}")
        ans = answers[0]
        need(r.amount == float(ans) if case["scalar"] else list(r.amount) == [float(z) for z in ans], "P26.m.depth.amount", lambda: f"{r} {ans}")
        labels.add("direction")
    # --- the whole market
    r, e, sent = go(S.mGetMarketByPair, arg)
    db, da = case["dirs"].get(f"{i}>{j}"), case["dirs"].get(f"{j}>{i}")
    if db is None or da is None:
        need(e is not None, "P26.m.market.error", lambda: f"{r} {case}")
    else:
        need(e is None and r.pair == f"{tb}/{tq}", "P26.m.market", lambda: f"{r} {e!r}")
        for v, x in ((r.bestBid, db["hi"]), (r.lastBid, db["lo"]), (r.bestAsk, 1 / da["hi"]), (r.lastAsk, 1 / da["lo"])):
            need_close(v, x, "P26.m.market.price", 1e-12, 0, lambda: f"{r} {case}")
        need(r.liqBid == db["liq"] and r.liqAsk == da["liq"], "P26.m.market.liq", lambda: f"{r} {case}")
        need(r.inverted is bool(r.bestBid > r.bestAsk) and (r.liqBidUnit, r.liqAskUnit, r.bidAMMSells, r.askAMMSells, r.bidTraderSells, r.askTraderSells) == (tq, tb, tq, tb, tb, tq), "P26.m.market.units", lambda: f"{r}")
        need_close(r.mid, (r.bestBid + r.bestAsk) / 2, "P26.m.market.mid", 1e-12)
        need_close(r.spread, r.bestAsk - r.bestBid, "P26.m.market.spread", 1e-12)
        need_close(r.spreadpc, r.spread / r.mid, "P26.m.market.spreadpc", 1e-12)
        for f, z, o in ((r.ibid, r.bestBid, r.lastBid), (r.iask, r.bestAsk, r.lastAsk), (r.iall, r.lastBid, r.lastAsk)):
            need(f(0) == z, "P26.m.market.interp")
            sc = max(abs(z), abs(o))
            need_close(f(1), o, "P26.m.market.interp", 1e-12, 1e-12 * sc, lambda: f"{r}")
            need_close(f(0.25), 0.75 * z + 0.25 * o, "P26.m.market.interp", 1e-12, 1e-12 * sc, lambda: f"{r}")
        labels.add("market")
    # --- many pairs at once
    pl = case["plist"]
    ps = [mk(x, y) if case["aspair"] else f"{toks[x][0]}/{toks[y][0]}" for x, y in pl]
    r, e, sent = go(S.mHasLiquidityByPairs, ps if case["aspair"] or case["scalar"] else ", ".join(ps))
    need(e is None and len(sent) == 1 and len(r) == 2 * len(pl), "P26.m.many", lambda: f"{r} {e!r} {sent}")
    for k, (x, y) in enumerate(pl):
        for g, (s_, t_) in zip(r[2 * k:2 * k + 2], ((x, y), (y, x))):
            need(g["AMMsells"] == toks[t_][0] and (g["pair"].tknb, g["pair"].tknq) == (toks[x][0], toks[y][0]) and g["hasLiquidity"] is (f"{s_}>{t_}" in case["dirs"]), "P26.m.many.entry", lambda: f"{r} {case}")
    _trade(case, S, T, arg, tb, tq, labels)
    return {"nontrivial": "direction" in labels, "labels": sorted(labels), "n": done}


def _trade(case, S, T, arg, tb, tq, labels):
    tr = case["trade"]
    tkn = (tb, tq)[tr["which"]]
    oth = (tq, tb)[tr["which"]]
    src, trg = (oth, tkn) if tr["buy"] else (tkn, oth)
    by_target = tr["buy"]
    data = {"tradeActions": [{"id": big(x["id"]), "amount": big(x["amount"])} for x in tr["actions"]],
            "actionsWei": [{"id": big(x["id"]), "sourceAmount": big(x["amount"]), "targetAmount": big(x["amount"] + 1)} for x in tr["actions"]],
            "actionsTokenRes": [{"id": big(x["id"]), "sourceAmount": repr(x["amount"] / 1e6), "targetAmount": "0.5"} for x in tr["actions"]],
            "totalSourceAmount": repr(tr["total"][0]), "totalTargetAmount": repr(tr["total"][1]), "effectiveRate": "1.25"}
    with Wire(lambda rec: (200, json.dumps({"success": True, "data": data}))) as w:
        td = S.mPrepareTrade(arg, S.BUY if tr["buy"] else S.SELL, tkn, tr["amount"])
    ctx = lambda: f"{td} {w.sent} {tr}"
    A = {t.T: t.a for t in T}
    need(len(w.sent) == 1 and w.sent[0]["url"].endswith("/scall/get_trade_data") and
         w.sent[0]["json"] == {"sourceToken": A[src], "targetToken": A[trg], "amount": str(tr["amount"]), "tradeByTargetAmount": by_target, "filter": []}, "P26.t.request", ctx)
    need((td.pair, td.tkn, td.amount, td.tradeByTargetAmount) == (f"{tb}/{tq}", tkn, tr["amount"], by_target) and td.traderBuySell == (S.BUY if tr["buy"] else S.SELL), "P26.t.meta", ctx)
    need(td.sourceToken.T == src and td.sourceToken.a == A[src] and td.targetToken.T == trg and td.targetToken.a == A[trg], "P26.t.tokens", ctx)
    need(td.tradeActions == [{"id": x["id"], "amount": x["amount"]} for x in tr["actions"]], "P26.t.actions", ctx)
    need(td.actionsWei == [{"id": x["id"], "sourceAmount": x["amount"], "targetAmount": x["amount"] + 1} for x in tr["actions"]], "P26.t.wei", ctx)
    need(td.actionsTokenRes == [{"id": x["id"], "sourceAmount": x["amount"] / 1e6, "targetAmount": 0.5} for x in tr["actions"]], "P26.t.res", ctx)
    need(td.tradeData == {"totalSourceAmount": tr["total"][0], "totalTargetAmount": tr["total"][1], "effectiveRate": 1.25}, "P26.t.data", ctx)
    dev = 0.1 if tr["dev"] is None else tr["dev"]
    before = copy.deepcopy((td, tr))
    answer = {"tx": 1}
    kw = {"maxDeviationPc": tr["dev"], "deadline": tr["deadline"], "overrides": tr["overrides"]}
    if case["aspair"]:
        call = lambda: S.mComposeTradeTransaction(*td.cttargs, **kw)
    else:
        call = lambda: S.mComposeTradeTransaction(**td.cttkwargs, **kw)
    with Wire(lambda rec: (200, json.dumps({"success": True, "data": answer}))) as w:
        r = call()
    need(r == answer and len(w.sent) == 1, "P26.c.answer", lambda: f"{r} {w.sent}")
    p = dict(w.sent[0]["json"])
    lim = p.pop("maxInput" if by_target else "minReturn", None)
    need(w.sent[0]["url"].endswith("compose_trade_by_target_transaction" if by_target else "compose_trade_by_source_transaction"), "P26.c.url", lambda: f"{w.sent}")
    need(lim is not None, "P26.c.limit", lambda: f"{w.sent}")
    need_close(lim, tr["total"][0] * (1 + dev) if by_target else tr["total"][1] * (1 - dev), "P26.c.limit", 1e-12, 0, lambda: f"{w.sent} {tr}")
    need(p == {"sourceToken": A[src], "targetToken": A[trg], "tradeActions": [{"id": str(x["id"]), "amount": str(x["amount"])} for x in tr["actions"]],
               "deadline": str(2 ** 32 - 1 if tr["deadline"] is None else tr["deadline"]), "overrides": gas(tr["overrides"])}, "P26.c.params", lambda: f"{p} {tr}")
    need(before == (td, tr), "P26.c.args", lambda: f"{td} {tr}")
    for bad in ((arg, "HOLD", tkn, 1), (arg, S.BUY, "NOSUCH", 1), (arg, S.BUY, tkn, 0), (arg, S.SELL, tkn, -1)):
        with Wire(lambda rec: (200, json.dumps({"success": True, "data": copy.deepcopy(data)}))) as w:
            expect_exc(lambda: S.mPrepareTrade(*bad), "P26.t.refuse", ValueError, str(bad))
        need(not w.sent, "P26.t.refuse.sent", lambda: f"{w.sent}")
    labels.add("trade")


# ------------------------------------------------------------------------------------------ strategies
ONE = 2 ** 48


def _enc(v):
    """integer sqrt price scaled by 2^48 -> the 48 bit mantissa and the exponent"""
    e = max(0, v.bit_length() - 48)
    return (v >> e) | (e << 48)


def _dec(v):
    return (v % ONE) << (v // ONE)


def strategies(case):
    toks = case["tokens"]
    T = container(toks)
    S = CarbonSDK(disclaimer=False, verbose=False, Tokens=T)
    recs, meta = [], []
    for s in case["strats"]:
        b, q = toks[s["i"]], toks[s["j"]]
        db, dq = b[2], q[2]
        z = [int(s["z"][0] * 10 ** db), int(s["z"][1] * 10 ** dq)]
        y = [int(z[0] * s["f"][0]), int(z[1] * s["f"][1])]
        if s["nocap"] is not None:
            z[s["nocap"]] = y[s["nocap"]] = 0
        if any(v == 0 for k, v in enumerate(z) if k != s["nocap"]):
            raise Skip()
        wei = Fraction(10 ** dq, 10 ** db)
        rt = lambda p: int(math.isqrt(int(Fraction(p) * 2 ** 192))) >> 48
        pq = [rt(Fraction(s["buyHigh"]) * wei), rt(Fraction(s["buyLow"]) * wei)]
        pb = [rt(1 / (Fraction(s["sellLow"]) * wei)), rt(1 / (Fraction(s["sellHigh"]) * wei))]
        o = []
        for k, (h, l) in enumerate((pb, pq)):
            o.append({"y": y[k], "z": z[k], "A": _enc(h - l), "B": _enc(l)})
        bud = [Fraction(z[0], 10 ** db), Fraction(z[1], 10 ** dq)]
        rec = {"id": big(s["sid"]), "baseToken": b[1], "quoteToken": q[1], "buyPriceLow": repr(s["buyLow"]), "buyPriceHigh": repr(s["buyHigh"]), "buyBudget": repr(float(bud[1])),
               "sellPriceLow": repr(s["sellLow"]), "sellPriceHigh": repr(s["sellHigh"]), "sellBudget": repr(float(bud[0])),
               "encoded": {"id": big(s["sid"]), "token0": b[1], "token1": q[1], "order0": {k: big(v) for k, v in o[0].items()}, "order1": {k: big(v) for k, v in o[1].items()}}}
        recs.append(rec); meta.append((s, b, q, o, [float(x) for x in bud]))
    with Wire(lambda rec: (200, json.dumps({"success": True, "data": recs}))) as w:
        out = S.mGetUserStrategies(case["user"], **({} if case["nsd"] is True else {"nsd": case["nsd"]}))
    need(len(w.sent) == 1 and w.sent[0]["json"] == {"user": case["user"]} and w.sent[0]["url"].endswith("/scall/get_user_strategies"), "P26.s.request", lambda: f"{w.sent}")
    need(len(out) == len(recs), "P26.s.count", lambda: f"{out}")
    nsd = 8 if case["nsd"] is True else case["nsd"]
    tol = 1e-15 if nsd is None else 0.51 * 10.0 ** (1 - nsd) + 1e-14
    labels = set()
    sim = CarbonSimulatorUI(raiseonerror=True, verbose=False)
    for st, rec, (s, b, q, o, bud) in zip(out, recs, meta):
        ctx = lambda: f"{st} {rec}"
        need(st.sid == s["sid"] and st["id"] == s["sid"] and st.encoded.sid == s["sid"], "P26.s.id", ctx)
        need((st.baseToken, st.quoteToken, st.baseTokenName, st.quoteTokenName) == (b[1].lower(), q[1].lower(), b[0], q[0]), "P26.s.tokens", ctx)
        for k, v in (("buyPriceLow", s["buyLow"]), ("buyPriceHigh", s["buyHigh"]), ("sellPriceLow", s["sellLow"]), ("sellPriceHigh", s["sellHigh"]), ("buyBudget", bud[1]), ("sellBudget", bud[0])):
            need_close(getattr(st, k), v, "P26.s.values", tol, 0, ctx)
            need(st[k] == getattr(st, k), "P26.s.item", ctx)
        e = st.encoded
        need((e.order0.token.lower(), e.order1.token.lower()) == (b[1].lower(), q[1].lower()) and e.token0 == e.order0.token and e.token1 == e.order1.token, "P26.s.enctokens", ctx)
        for eo, oo in ((e.order0, o[0]), (e.order1, o[1])):
            need({k: getattr(eo, k) for k in "yzAB"} == oo, "P26.s.encoded", ctx)
            A, B = _dec(oo["A"]) / ONE, _dec(oo["B"]) / ONE
            need_close(eo.A_, A, "P26.s.decoded", 1e-14); need_close(eo.B_, B, "P26.s.decoded", 1e-14)
            need_close(eo.p_start, (A + B) ** 2, "P26.s.p", 1e-13); need_close(eo.p_end, B ** 2, "P26.s.p", 1e-13)
            d = eo.decoded
            need((d.y, d.z) == (eo.y, eo.z) and d.A == eo.A_ and d.B == eo.B_, "P26.s.decoded", ctx)
            if eo.y == eo.z:
                need(eo.p_marg == eo.p_start, "P26.s.pmarg", ctx)
            elif eo.y == 0:
                need(eo.p_marg == eo.p_end, "P26.s.pmarg", ctx)
        # the encoded part goes back to the server as it came
        before = copy.deepcopy(st)
        js = e.raw_json
        need(st == before, "P26.s.rawjson.changed", ctx)
        dj = json.loads(js)
        need(dj == {"id": str(s["sid"]), "token0": rec["encoded"]["token0"], "token1": rec["encoded"]["token1"], "order0": {k: str(v) for k, v in o[0].items()}, "order1": {k: str(v) for k, v in o[1].items()}}, "P26.s.rawjson", lambda: f"{js} {ctx()}")
        if case["update"]:
            with Wire(lambda rec: (200, json.dumps({"success": True, "reqid": 7}))) as w:
                r = S.updateStrategy(st.sid, js, st.baseToken, st.quoteToken, S.StrategyUpdate(buyBudget=1.5))
            p = w.sent[0]["json"]
            need(r == 7 and p["strategyId"] == str(s["sid"]) and p["encoded"] == js and p["baseToken"] == b[1].lower() and p["quoteToken"] == q[1].lower() and p["update"] == {"buyBudget": "1.5"} and p["buyMarginalPrice"] is None and p["sellMarginalPrice"] is None, "P26.s.update", lambda: f"{w.sent}")
        # conversion into orders
        known = {t.a: t.T for t in GLOBAL}
        nb, nq = known.get(b[1].lower(), "TKNB"), known.get(q[1].lower(), "TKNQ")
        for src, tl in ((st, tol), (rec, 1e-14)):
            ob, os_ = CarbonOrderUI.from_SDK(src)
            need(os_.tkn == nb and ob.tkn == nq and os_.pair.tknb == nb and os_.pair.tknq == nq and ob.pair.tknb == nb, "P26.s.order.tokens", lambda: f"{ob} {os_} {ctx()}")
            need(ob.linked is os_ and os_.linked is ob, "P26.s.order.linked", ctx)
            for v, a_, z_, k in ((os_, s["sellLow"], s["sellHigh"], 0), (ob, s["buyHigh"], s["buyLow"], 1)):
                need_close(v.pa, a_, "P26.s.order.pa", 2 * tl + 1e-11, 0, lambda: f"{v} {ctx()}")
                need_close(v.pb, z_, "P26.s.order.pb", 2 * tl + 1e-11, 0, lambda: f"{v} {ctx()}")
                need_close(v.yint, bud[k], "P26.s.order.yint", tl, 0, lambda: f"{v} {ctx()}")
                need_close(v.y, bud[k] * (o[k]["y"] / o[k]["z"] if o[k]["z"] else 0), "P26.s.order.y", 2 * tl, 0, lambda: f"{v} {ctx()}")
        n = len(sim.orders)
        r = sim.add_fromsdk(st)
        need(r["success"] is True and len(sim.orders) == n + 2, "P26.s.sim", lambda: f"{r}")
        news = list(sim.orders.values())[-2:]
        need({x.tkn for x in news} == {nb, nq}, "P26.s.sim.tokens", lambda: f"{news}")
        labels.add("nocap" if s["nocap"] is not None else "full")
        labels.add("known" if nb in known.values() else "unknown")
        bad = copy.deepcopy(rec)
        bad["encoded"]["token1"] = "0x" + "12" * 20
        expect_exc(lambda: CarbonOrderUI.from_SDK(bad), "P26.s.mismatch", ValueError)
    return {"nontrivial": True, "labels": sorted(labels), "n": len(recs)}


# ------------------------------------------------------------------------------------------ tokens
def tokens(case):
    toks = case["tokens"]
    roe = case["raiseonerror"]
    dup = case["dup"]
    t0 = toks[0]
    extra = {"none": [], "ticker": [[t0[0], "0x" + "9a" * 20, 18]], "addr": [["QQQ", t0[1].upper().replace("0X", "0x"), 18]], "same": [list(t0)],
             "both": [[t0[0], "0x" + "9a" * 20, 18], ["QQQ", "0x" + "9a" * 20, 18]]}[dup]
    rows = [[t.lower() if case["lower"] else t, " " + a, d] for t, a, d in toks + extra]
    if case["nodec"]:
        rows = [r[:2] for r in rows]
    if case["csv"]:
        make = lambda: TokenContainer.fromcsv("\n" + "\n".join(", ".join(str(x) for x in r) for r in rows) + "\n", roe)
    else:
        make = lambda: TokenContainer.fromlist(rows, roe)
    if dup in ("ticker", "addr", "both"):
        expect_exc(make, "P26.k.duplicates", ValueError, str(rows))
        return {"nontrivial": True, "labels": ["duplicate"]}
    T = make()
    need(len(T) == len(toks) and {t.T for t in T} == {t[0] for t in toks} and [t.T for t in T] == [t.T for t in T._all], "P26.k.all", lambda: f"{T!r}")
    known = {t[0]: (t[1].lower(), None if case["nodec"] else t[2]) for t in toks}
    byad = {v[0]: k for k, v in known.items()}
    raises = True if roe is None else roe
    for op, x, flag, up in case["queries"]:
        y = x.upper() if up and not x.startswith("0x") else x
        at = known.get(y.upper())
        aa = byad.get(y.lower())
        def chk(t, k):
            need(isinstance(t, SDKToken) and t.T == k and t.a == known[k][0] and t.d == known[k][1] and t.name == k and t.isnul is False, "P26.k.token", lambda: f"{op} {y} {t}")
        def miss(fn, r):
            if r:
                expect_exc(fn, "P26.k.miss", (KeyError, ValueError), f"{op} {y}")
            else:
                v = fn()
                need(v is None or v.isnul, "P26.k.miss", lambda: f"{op} {y} {v}")
        r = raises if flag is None else flag
        if op == "byticker":
            fn = lambda: T.byticker(y.lower() if up else y, raiseonerror=flag)
            chk(fn(), y.upper()) if at else miss(fn, r)
            if not at and not r:
                need(T.byticker(y, raiseonerror=flag, returnnultkn=False) is None, "P26.k.none")
        elif op == "byaddr":
            fn = lambda: T.byaddr(y.upper() if up else y, raiseonerror=flag)
            chk(fn(), aa) if aa else miss(fn, r)
        elif op in ("byaddr1", "call"):
            v = T.byaddr1(y, tknonly=up) if op == "byaddr1" else T(y)
            if aa:
                need(v == aa, "P26.k.byaddr1") if op == "byaddr1" and up else chk(v, aa)
            else:
                need(v == y.lower(), "P26.k.byaddr1.unknown", lambda: f"{y} {v}")
        elif op == "restore":
            k = aa or (y.upper() if at else None)
            fn = lambda: T.restore(y, raiseonerror=flag)
            if k:
                chk(fn(), k)
                t = T.byticker(k)
                need(T.restore(t) is t, "P26.k.restore")
            elif flag:
                expect_exc(fn, "P26.k.restore", (KeyError, ValueError))
            else:
                need(fn() is None, "P26.k.restore", lambda: f"{y} {fn()}")
        elif op in ("getitem", "getattr"):
            fn = (lambda: T[y]) if op == "getitem" else (lambda: getattr(T, y))
            chk(fn(), y.upper()) if at else miss(fn, raises)
        else:
            ks = list(known)[:2] + ([y] if up else [])
            for c in (list, set, tuple):
                need(T.containsall(c(ks)) is (not up or y in known), "P26.k.containsall", lambda: f"{ks}")
    # conversions
    for k, (a, d) in known.items():
        t = T.byticker(k)
        d = 18 if d is None else d
        for x in case["amounts"]:
            want = Fraction(repr(x)) * 10 ** d
            got = t.t2w(x)
            # exact, but for the rounding of the number to the precision of a float
            need(isinstance(got, int) and abs(got - want) <= max(1, abs(want) * Fraction(1, 2 ** 50)), "P26.k.t2w", lambda: f"{t} {x} {got} {want}")
            if want.denominator == 1 and want < 2 ** 50:
                need(got == want, "P26.k.t2w.exact", lambda: f"{t} {x} {got} {want}")
        for w in case["wei"]:
            v = t.w2t(w)
            need_close(v, float(Fraction(w, 10 ** d)), "P26.k.w2t", 1e-14, 0)
            need(t.t2w(v) == w, "P26.k.roundtrip", lambda: f"{t} {w} {v} {t.t2w(v)}")
        need(list(t)[:3] == [t.token, t.address, t.decimals] and SDKToken(*t) == t and str(t) == f"{k} ({a})", "P26.k.iter")
        need(hash(t) == hash(SDKToken(*t)) and len({t, SDKToken(*t)}) == 1, "P26.k.hash")
    expect_exc(lambda: SDKToken("XX", "0xnothex"), "P26.k.nothex", ValueError)
    # number helpers
    x, nsd = case["nsd"]
    r = CarbonSDK.roundsd(x, nsd)
    need(abs(r - x) <= 0.51 * 10.0 ** (math.floor(math.log10(abs(x))) - nsd + 1), "P26.k.roundsd", lambda: f"{x} {nsd} {r}")
    if math.log10(abs(x)) < nsd:
        need(float(f"%.{nsd - 1}e" % r) == float(r), "P26.k.roundsd.digits", lambda: f"{x} {nsd} {r}")
    for w in [s * w for w in case["wei"] for s in (1, -1)]:
        b = CarbonSDK.int2bn(w)
        need(CarbonSDK.bn2int(b) == w and CarbonSDK.bn2int(big(w)) == w and CarbonSDK.bn2int(w) == w, "P26.k.bn")
        need(CarbonSDK.bn2intd({"a": b, "b": "x", "c": 1.5}) == {"a": w, "b": "x", "c": 1.5} and CarbonSDK.int2strd({"a": w, "b": "x", "c": 1.5}) == {"a": str(w), "b": "x", "c": 1.5}, "P26.k.bnd")
    words = case["camel"]
    camel = words[0] + "".join(z.title() for z in words[1:])
    need(CarbonSDK.c2s(camel) == "_".join(words) and CarbonSDK.s2c("_".join(words)) == camel, "P26.k.camel", lambda: f"{words}")
    return {"nontrivial": True, "labels": ["nodec" if case["nodec"] else "dec"]}
