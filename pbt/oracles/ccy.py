"""P30: the client of the data provider against a stand-in for the connection and a model of the cache"""
import hashlib, json, os, pickle
from datetime import datetime, timezone
from urllib.parse import urlsplit, parse_qsl

import pandas as pd
import requests
from carbon.helpers.cryptocompare import CryptoCompare as CC, pair_t
from .base import need, expect_exc
from .helpers import quiet, scratch
from .sdk import Wire

PATHS = {"allexchanges": "/data/v4/all/exchanges", "coinlist": "/data/all/coinlist", "indexlist": "/data/index/list", "ratelimit": "/stats/rate/limit"}
FIELDS = ["open", "close", "high", "low", "volumefrom", "volumeto"]
HISTO = {"day": "/data/v2/histoday", "hour": "/data/v2/histohour", "minute": "/data/v2/histominute"}
STEP = {"day": 86400, "hour": 3600, "minute": 60}


def stamp(ts):
    if isinstance(ts, int) or ts is None:
        return ts
    if ts.isdigit():
        return int(ts)
    f = "%Y-%m-%d %H:%M:%S" if ":" in ts else "%Y-%m-%d"
    return int(datetime.strptime(ts, f).replace(tzinfo=timezone.utc).timestamp())


def value(q, freq, field, t):
    """a candle of the stand-in: a number that depends on everything that was asked for"""
    return int(hashlib.md5(repr((q.get("fsym"), q.get("tsym"), q.get("e"), freq, field, t)).encode()).hexdigest()[:8], 16) / 1000


class Server:
    def __init__(self, data, n=4, gaps=False):
        self.data, self.fault, self.n, self.gaps = data, None, n, gaps
        self.failpair = None

    def times(self, q, freq):
        k = min(int(q["limit"]), self.n)
        step = STEP[freq]
        last = int(q.get("toTs", 1600000000)) // step * step
        ts = [last - step * j for j in range(k)][::-1]
        if self.gaps:
            ts = [t for t in ts if (hash(q["fsym"]) if False else len(q["fsym"])) + t // step & 3] or ts[:1]
        return ts

    def candles(self, q, freq):
        return [{"time": t, **{f: value(q, freq, f, t) for f in FIELDS}, "conversionType": "direct", "conversionSymbol": ""} for t in self.times(q, freq)]

    def __call__(self, rec):
        if self.fault == "down":
            return None, "no connection"
        if isinstance(self.fault, int):
            return self.fault, "no"
        u = urlsplit(rec["url"])
        q = dict(parse_qsl(u.query, keep_blank_values=True))
        rec["path"], rec["host"], rec["q"] = u.path, u.scheme + "://" + u.netloc, q
        for f, p in HISTO.items():
            if u.path == p:
                if self.fault == "error" or self.failpair == (q["fsym"], q["tsym"]):
                    return 200, json.dumps({"Response": "Error", "Message": "m"})
                return 200, json.dumps({"Response": "Success", "Data": {"Aggregated": False, "Data": self.candles(q, f)}})
        for k, p in PATHS.items():
            if u.path == p:
                if self.fault == "error":
                    return 200, json.dumps({"Response": "Error", "Message": "m", "HasWarning": False, "Data": {}})
                return 200, json.dumps({"Response": "Success", "Data": self.data[k]})
        return 404, "no such endpoint"


def expected_q(kw, fsym, tsym, key):
    q = {"fsym": fsym, "tsym": "usd" if tsym is None else tsym, "limit": "2000"}
    if kw.get("limit"):
        q["limit"] = str(kw["limit"])
    if kw.get("e"):
        q["e"] = kw["e"]
    if kw.get("toTs") is not None:
        q["toTs"] = str(stamp(kw["toTs"]))
    if key is not True:
        q["api_key"] = key
    return q


def call_kw(kw):
    return {k: v for k, v in kw.items() if v is not None}


def check_df(df, q, freq, srv, sig, ctx):
    ts = srv.times(q, freq)
    need(list(df.index) == [pd.Timestamp(t, unit="s") for t in ts], sig + ".index", ctx)
    need(list(df.columns) == FIELDS, sig + ".cols", ctx)
    for f in FIELDS:
        need(list(df[f]) == [value(q, freq, f, t) for t in ts], sig + ".values", ctx)


def hist(case):
    key = case["key"]
    srv = Server(json.loads(json.dumps(case["data"])))
    real = "fromenv" if key == "env" else key
    nt = set()
    with scratch() as d, Wire(srv) as wire:
        old = os.environ.get("CCAPIKEY")
        keep = CC.DATAPATH
        try:
            os.environ["CCAPIKEY"] = "fromenv"
            kw = dict(apikey=None if key == "env" else key, raiseonerror=case["roe"])
            if case["path"] == "ctor":
                c = CC(datapath=d, **kw)
                need(CC.DATAPATH == keep, "P30.datapath.class", lambda: "the data path of one client changes that of all")
            else:
                CC.DATAPATH = d
                c = CC(**kw)
            roe = case["roe"] is not False
            need(c.keydigest == ("0" * 40 if real is True else hashlib.sha1(real.encode()).hexdigest()), "P30.digest", lambda: c.keydigest)
            disk = {}
            BAD = object()
            for op in case["ops"]:
                k, name = op[0], op[1]
                n0 = len(wire.sent)
                ctx = lambda: f"{op}: sent {wire.sent[n0:]}, cache {disk}"
                sent = lambda: wire.sent[n0:]
                if k == "server":
                    srv.data[name] = json.loads(json.dumps(op[2]))
                    continue
                if k == "write":
                    r, _ = quiet(c.write_cache, name, op[2])
                    need(r == name, "P30.write", ctx)
                    disk[name] = op[2]
                elif k == "badwrite":
                    # data that cannot be written, or nowhere to write it: an error, and what was there is still there
                    bad = {"obj": (name, lambda: 0), "deep": (name, [op[2], {"x": (lambda: 0)}]), "path": ("no/such/" + name, 1)}[op[3]]
                    if roe:
                        expect_exc(lambda: quiet(c.write_cache, *bad), "P30.badwrite", Exception, ctx)
                    else:
                        need(quiet(c.write_cache, *bad)[0] is None, "P30.badwrite", ctx)
                    if disk.get(name, BAD) is not BAD:
                        nt.add("badwrite")
                        need(c.cache(name) == disk[name], "P30.badwrite.lost", lambda: f"a write that failed destroyed what was in the cache: {ctx()}")
                elif k == "read":
                    if disk.get(name, BAD) is BAD:
                        if roe:
                            expect_exc(lambda: c.cache(name), "P30.read.missing", Exception, ctx)
                        else:
                            need(c.cache(name) is None, "P30.read.none", ctx)
                    else:
                        need(c.cache(name) == disk[name], "P30.read", ctx)
                elif k == "drop":
                    if os.path.exists(os.path.join(d, name + ".pickle")):
                        os.remove(os.path.join(d, name + ".pickle"))
                    disk.pop(name, None)
                elif k == "spoil":
                    with open(os.path.join(d, name + ".pickle"), "wb") as f:
                        f.write(b"\x80\x04nonsense")
                    disk[name] = BAD
                elif k == "raw":
                    _, _, params, method, fault = op
                    srv.fault = fault
                    given = None if params is None else dict(params)
                    run = lambda: quiet(lambda: c.query(PATHS[name], *([] if given is None and method is None else [given, method])))[0]
                    if method not in (None, "GET"):
                        expect_exc(run, "P30.raw.method", ValueError, ctx)
                        need(not sent(), "P30.raw.method.sent", ctx)
                    else:
                        nt.add("raw")
                        q = {a: str(v) for a, v in (params or {}).items() if v is not None}
                        if real is not True:
                            q["api_key"] = real
                        if fault == "down":
                            expect_exc(run, "P30.raw.down", requests.exceptions.ConnectionError, ctx)
                        elif isinstance(fault, int):
                            if roe:
                                expect_exc(run, "P30.raw.failed", RuntimeError, ctx)
                            else:
                                need(run() is None, "P30.raw.failed", ctx)
                        else:
                            r = run()
                            answer = r.json()
                            if fault == "error":
                                need(answer["Response"] == "Error" and answer["Message"] == "m", "P30.raw.answer", ctx)
                            else:
                                need(answer == {"Response": "Success", "Data": srv.data[name]}, "P30.raw.answer", ctx)
                            need(sent()[0]["q"] == q and sent()[0]["path"] == PATHS[name], "P30.raw.args", lambda: f"{op}: sent {sent()[0]}, expected {q}")
                        need(len(sent()) == 1 and sent()[0]["method"] == "GET", "P30.raw.once", ctx)
                        need(given == params, "P30.raw.mutates", ctx)
                    srv.fault = None
                elif k in ("query", "cached"):
                    srv.fault = op[-1]
                    item = "query_" + name
                    if k == "query":
                        run, asks, upd = (lambda: quiet(getattr(c, item))[0]), True, False
                    else:
                        a = op[2]
                        upd = len(a) > 1 and a[1]
                        hit = disk.get(item, BAD) is not BAD
                        asks = not hit and ((a[0] if a else True) or upd)
                        run = lambda: quiet(getattr(c, "cache_" + name), *a)[0]
                        nt.add("hit" if hit else "miss" if asks else "noread")
                        if hit:
                            need(run() == disk[item], "P30.cached.hit", ctx)
                        elif not asks:
                            if roe:
                                expect_exc(run, "P30.cached.noread", Exception, ctx)
                            else:
                                need(run() is None, "P30.cached.noread", ctx)
                    if asks:
                        if srv.fault == "down":
                            expect_exc(run, "P30.down", requests.exceptions.ConnectionError, ctx)
                        elif isinstance(srv.fault, int) or srv.fault == "error":
                            nt.add("apierror" if srv.fault == "error" else "fault")
                            if roe:
                                expect_exc(run, "P30.failed", RuntimeError, ctx)
                            else:
                                need(run() is None, "P30.failed", ctx)
                        else:
                            r = run()
                            need(r == srv.data[name], "P30.answer", lambda: f"{ctx()}: {r}")
                            if upd:
                                disk[item] = r
                            s = sent()
                            need(s[0]["host"] == "https://min-api.cryptocompare.com" and s[0]["path"] == PATHS[name], "P30.endpoint", ctx)
                            need(s[0]["q"] == ({} if real is True else {"api_key": real}), "P30.args", ctx)
                        need(len(sent()) == 1 and sent()[0]["method"] == "GET", "P30.once", ctx)
                    else:
                        need(not sent(), "P30.silent", ctx)
                    srv.fault = None
                else:
                    _, freq, fsym, tsym, kw, aspd, alias, fault = op
                    srv.fault = fault
                    a = call_kw(kw)
                    if tsym is not None:
                        a["tsym"] = tsym
                    if not aspd:
                        a["aspandas"] = False
                    if alias:
                        f = {"day": c.query_dailypair, "hour": c.query_hourlypair, "minute": c.query_minutelypair}[freq]
                        run = lambda: quiet(f, fsym, **a)[0]
                    else:
                        run = lambda: quiet(c.query_freqlypair, freq, fsym, **a)[0]
                    if fault == "down":
                        expect_exc(run, "P30.pair.down", requests.exceptions.ConnectionError, ctx)
                    elif fault is not None:
                        if roe:
                            expect_exc(run, "P30.pair.failed", RuntimeError, ctx)
                        else:
                            need(run() is None, "P30.pair.failed", ctx)
                    else:
                        nt.add("pair")
                        r = run()
                        s = sent()
                        need(len(s) == 1 and s[0]["path"] == HISTO[freq] and s[0]["method"] == "GET", "P30.pair.endpoint", ctx)
                        q = expected_q(kw, fsym, tsym, real)
                        need(s[0]["q"] == q, "P30.pair.args", lambda: f"{op}: sent {s[0]['q']}, expected {q}")
                        if aspd:
                            check_df(r, q, freq, srv, "P30.pair", lambda: f"{op}: {r}")
                        else:
                            need(r == {"Aggregated": False, "Data": srv.candles(q, freq)}, "P30.pair.raw", lambda: f"{op}: {r}")
                    srv.fault = None
                for item in {o[1] if o[0] in ("read", "write", "drop", "spoil") else "query_" + o[1] for o in case["ops"] if o[0] not in ("pair", "server", "raw")}:
                    fn = os.path.join(d, item + ".pickle")
                    need(os.path.exists(fn) == (item in disk), "P30.files", lambda: f"{op}: {item} is{'' if os.path.exists(fn) else ' not'} in the cache")
                    if disk.get(item, BAD) is not BAD:
                        with open(fn, "rb") as f:
                            need(pickle.load(f) == disk[item], "P30.contents", ctx)
        finally:
            CC.DATAPATH = keep
            if old is None:
                os.environ.pop("CCAPIKEY", None)
            else:
                os.environ["CCAPIKEY"] = old
    return {"nontrivial": len(nt) > 1, "labels": sorted(nt), "n": len(case["ops"])}


def aggr(case):
    pairs = [tuple(p) for p in case["pairs"]]
    form = case["form"]
    c = CC(apikey=True, raiseonerror=case["roe"])
    if form == "created":
        coins = list(dict.fromkeys(p[0] for p in pairs))
        arg = CC.create_pairs(coins, case["quotes"])
        pairs = [tuple(p) for p in arg]
        if not pairs:
            return {"nontrivial": False, "labels": ["nopairs"]}
    elif form == "str":
        arg = ", ".join("/".join(p) for p in pairs)
    else:
        arg = tuple(pairs) if form == "tuple" else list(pairs)
    uniq = list(dict.fromkeys(pairs))
    srv = Server({}, case["n"], case["gaps"])
    fields = case["fields"] or ["close"]
    a = call_kw(case["kw"])
    if case["fields"]:
        a["fields"] = ",".join(fields) if case["fform"] == "str" else tuple(fields) if case["fform"] == "tuple" else list(fields)
    freq = case["freq"] or "day"
    if case["freq"]:
        a["freq"] = freq
    raw, rawaggr, grand = case["inc"]
    inc = dict(incl_raw=raw, incl_raw_aggr=rawaggr, incl_grand_aggr=grand)
    if case["fform"] == "str":      # everything is included unless told otherwise
        inc = {k: v for k, v in inc.items() if not v}
    run = lambda: quiet(c.aggr_query, arg, **inc, **a)[0]
    with Wire(srv) as wire:
        if case["fault"] is not None and case["roe"]:
            srv.failpair = uniq[case["fault"] % len(uniq)]
            expect_exc(run, "P30.aggr.failed", RuntimeError, lambda: str(arg))
            return {"nontrivial": False, "labels": ["failed"]}
        r = run()
        q = {p: expected_q(case["kw"], p[0], p[1], True) for p in uniq}
        got = [(s["path"], s["q"]) for s in wire.sent]
        need(all(g[0] == HISTO[freq] and g[1] in q.values() for g in got) and all(any(g[1] == x for g in got) for x in q.values()), "P30.aggr.sent", lambda: f"{got}, expected {q}")
    ctx = lambda: f"{arg} {a} {case['inc']}: {r}"
    name = lambda p: "/".join(p)
    need(set(r) == {"gaggr", "aggr", "rawaggr", "raw"}, "P30.aggr.keys", ctx)
    need((r["raw"] is not None) == raw and (r["rawaggr"] is not None) == rawaggr and (r["gaggr"] is not None) == grand, "P30.aggr.included", ctx)
    times = sorted(set(t for p in uniq for t in srv.times(q[p], freq)))
    index = [pd.Timestamp(t, unit="s") for t in times]

    def column(s, p, f, sig):
        have = set(srv.times(q[p], freq))
        need(list(s.index) == index or set(s.index) == set(index), sig + ".index", ctx)
        for t, ts in zip(times, index):
            v = s.loc[ts]
            need((v != v) if t not in have else v == value(q[p], freq, f, t), sig + ".value", lambda: f"{p} {f} at {ts}: {v}; {ctx()}")
    if raw:
        need(set(r["raw"]) == {name(p) for p in uniq}, "P30.aggr.raw", ctx)
        for p in uniq:
            check_df(r["raw"][name(p)], q[p], freq, srv, "P30.aggr.raw", ctx)
    if rawaggr:
        df = r["rawaggr"]
        need(sorted(df.columns) == sorted((name(p), f) for p in uniq for f in FIELDS), "P30.aggr.rawaggr", ctx)
        for p in uniq:
            for f in FIELDS:
                column(df[(name(p), f)], p, f, "P30.aggr.rawaggr")
    need(set(r["aggr"]) == set(fields), "P30.aggr.fields", ctx)
    for f in fields:
        df = r["aggr"][f]
        key = (lambda p: (f, name(p))) if grand else name
        need(sorted(df.columns) == sorted(key(p) for p in uniq), "P30.aggr.cols", ctx)
        for p in uniq:
            column(df[key(p)], p, f, "P30.aggr.col")
    if grand:
        df = r["gaggr"]
        need(sorted(df.columns) == sorted((f, name(p)) for f in fields for p in uniq), "P30.aggr.grand", ctx)
        for p in uniq:
            for f in fields:
                column(df[(f, name(p))], p, f, "P30.aggr.grand")
    return {"nontrivial": len(uniq) > 1 and len(times) > 1, "labels": [form] + (["gaps"] if case["gaps"] else []), "n": len(uniq)}


def text(case):
    items, sep = case["items"], case["sep"]
    j = CC.join(items, sep)
    need(j == (sep or ", ").join(items), "P30.join", lambda: f"{items} {sep!r}: {j!r}")
    if sep is not None or True:
        u = CC.unjoin(j, sep=sep)
        need(u == tuple(items), "P30.unjoin", lambda: f"{j!r}: {u}, expected {items}")
    s = (sep or ",").join(" " * p + str(n) + "\t" * p for n, p in zip(case["nums"], case["pad"]))
    need(CC.unjoin(s, filter=int, sep=sep) == tuple(case["nums"]), "P30.unjoin.filter", lambda: s)
    for p in case["pairs"]:
        pt = CC.pt_from_pair("/".join(p))
        need(tuple(pt) == tuple(p) and pt.tknb == p[0] and pt.tknq == p[1], "P30.pt", lambda: f"{p}: {pt}")
        need(CC.pair_from_pt(pt) == "/".join(p) and CC.pair_from_pt(tuple(p)) == "/".join(p), "P30.pair_from_pt", lambda: str(p))
    sp = ["/".join(p) for p in case["pairs"]]
    need(CC.coinlist(" , ".join(sp), aspt=True) == tuple(pair_t(*p) for p in case["pairs"]), "P30.coinlist.pt", lambda: str(sp))
    coins = case["coins"]
    need(CC.coinlist("; ".join(coins), sep=";") == tuple(coins) and CC.coinlist(coins) == coins, "P30.coinlist", lambda: str(coins))
    qs = case["quotes"]
    f = (lambda x: x and ", ".join(x)) if case["form"] == "str" else (lambda x: x and tuple(x))
    got = CC.create_pairs(f(coins), f(qs))
    want = [(a, b) for a in coins for b in (qs or coins) if a != b]
    need(sorted(tuple(g) for g in got) == sorted(want), "P30.pairs", lambda: f"{coins} {qs}: {got}")
    need(all(g.tknb == g[0] and g.tknq == g[1] for g in got), "P30.pairs.names", lambda: str(got))
    t = case["ts"]
    need(CC.ts_tocc(CC.ts_fromcc(t)) == t and CC.ts_tocc(str(CC.ts_fromcc(t))) == t, "P30.ts", lambda: str(t))
    need(CC.ts_fromcc(t) == pd.Timestamp(datetime.fromtimestamp(t, timezone.utc).replace(tzinfo=None)), "P30.ts.value", lambda: str(t))
    need(CC(apikey=case["key"]).keydigest == hashlib.sha1(case["key"].encode()).hexdigest(), "P30.digest", lambda: case["key"])
    return {"nontrivial": len(items) > 1 and bool(got), "labels": [str(sep)]}
