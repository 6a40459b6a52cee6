"""integer trade functions and matching of the contracts (benchmark/core)"""
from fractions import Fraction as F
from decimal import Decimal as D, getcontext
from .base import Skip, Violation, need, need_close, isclose, expect_exc
from . import matchref

ONE = 2 ** 48
M128, M256 = 2 ** 128 - 1, 2 ** 256 - 1


def impl():
    import core.trade.impl as m
    return m


def spec():
    import core.trade.spec as m
    return m


def fsqrt(fr):
    getcontext().prec = 100
    return F((D(fr.numerator) / D(fr.denominator)).sqrt())


def dec_float(v):
    return (v % ONE) << (v // ONE)


# ------------------------------------------------------------------ encoding
def p16_bench(case):
    import math
    T = impl()
    getcontext().prec = 100
    last = None
    for v in case["ints"]:
        e = T.encodeFloat(v); d = T.decodeFloat(e)
        need(0 <= v - d and (v - d) * 2 ** 47 < max(v, 1), "P16.b.float", lambda: f"{v} {e} {d}")
        need(d == v or v >= ONE, "P16.b.float.exact", lambda: f"{v} {d}")
        need(T.encodeFloat(d) == e and e // ONE == (v >> 48).bit_length(), "P16.b.float.stable", lambda: f"{v} {e} {d}")
        need(T.bitLength(v) == v.bit_length(), "P16.b.bitlength", lambda: v)
        if last is not None:
            need(last <= e, "P16.b.float.monotone", lambda: f"{case}")
        last = e
    last = None
    for r in sorted(case["rates"]):
        n = T.encodeRate(D(r))
        ex = math.isqrt(F(r).numerator * ONE * ONE // F(r).denominator)
        drop = (ex // ONE).bit_length()
        need(n == ex >> drop << drop, "P16.b.rate", lambda: f"{r} {n} {ex}")
        dr = T.decodeRate(D(n))
        need(dr <= D(r) and T.encodeRate(dr) == n, "P16.b.rate.stable", lambda: f"{r} {n} {dr}")
        if last is not None:
            need(last <= n, "P16.b.rate.monotone", lambda: f"{case}")
        last = n
    lo, hi, y = case["lo"], case["hi"], case["y"]
    sl, sh = fsqrt(F(lo)), fsqrt(F(hi))
    full = case["m"] > 0.999 or hi / lo < 1.0005 or case["m"] < 1e-3
    sm = sh if full else sl + (sh - sl) * F(case["m"])
    mg = D(hi) if full else D((sm * sm).numerator) / D((sm * sm).denominator)
    o = T.encodeOrder({"liquidity": str(y), "lowestRate": str(D(lo)), "highestRate": str(D(hi)), "marginalRate": str(mg)})
    need(set(o) == set("yzAB") and o["y"] == y, "P16.b.order", lambda: f"{o}")
    if full:
        need(o["z"] == y, "P16.b.order.full", lambda: f"{o}")
    else:
        eps = F(2.0 ** -46 + 2.0 ** -47 / math.sqrt(lo)) * sh / (sm - sl)
        if eps < 0.1:
            ez = y / F(case["m"])
            need(abs(o["z"] - ez) <= 8 * eps * ez + 2, "P16.b.order.z", lambda: f"{o} {case} {float(ez)}")
    d = T.decodeOrder(o)
    e = D(2.0 ** -45 + 2.0 ** -46 / math.sqrt(lo))
    need(d["liquidity"] == y, "P16.b.decode.y", lambda: f"{o} {d}")
    for k, v in (("lowestRate", D(lo)), ("highestRate", D(hi))):
        need(v * (1 - 4 * e) <= d[k] <= v, "P16.b.decode." + k, lambda: f"{o} {d} {case}")
    need(d["lowestRate"] <= d["marginalRate"] <= d["highestRate"], "P16.b.decode.order", lambda: f"{d}")
    if y > 0:
        slack = 4 * e * D(sh.numerator) / D(sh.denominator) / (D(sm.numerator) / D(sm.denominator)) + 4 / D(y) * (D(hi) / mg)
        need(abs(d["marginalRate"] - mg) <= mg * slack, "P16.b.decode.marginal", lambda: f"{o} {d} {case}")
    # an order decoded and encoded again
    if full and hi > lo:
        o2 = T.encodeOrder({k: str(v) for k, v in d.items()})
        need(o2["y"] == o["y"] and o2["B"] == o["B"], "P16.b.order.stable", lambda: f"{o} {o2}")
        a, b = dec_float(o["A"]), dec_float(o2["A"])
        need(0 <= a - b <= (a + dec_float(o["B"])) * F(1, 2 ** 45) + 1, "P16.b.order.stable", lambda: f"{o} {o2}")
    # the exact specification keeps what it is given
    s = spec()
    so = s.encodeOrder({"liquidity": str(y), "lowestRate": str(D(lo)), "highestRate": str(D(hi)), "marginalRate": str(mg)})
    sd = s.decodeOrder(so)
    for k, v in (("liquidity", D(y)), ("lowestRate", D(lo)), ("highestRate", D(hi)), ("marginalRate", mg)):
        need(abs(sd[k] - v) <= v * D("1e-95"), "P16.b.spec." + k, lambda: f"{so} {sd}")
    return {"nontrivial": y > 0 and hi > lo}


# ------------------------------------------------------------------ trade functions
def exact_out(x, y, z, A, B):
    if A == 0:
        return F(x * B * B, ONE * ONE)
    t = A * y + B * z
    if t == 0 or x == 0:
        return F(0)
    return F(x * t * t, A * x * t + z * z * ONE * ONE)


def exact_in(x, y, z, A, B):
    """None: cannot be delivered"""
    if A == 0:
        return F(x * ONE * ONE, B * B) if B else None
    t = A * y + B * z
    u = t - A * x
    if u <= 0:
        return None
    return F(x * z * z * ONE * ONE, t * u)


def cdiv(a, b):
    return -(-a // b)


def err_out(x, y, z, A, B):
    """how far below the exact value the rounded integers may be; None: a number does not fit"""
    if A == 0:
        return F(1) if x * B * B // (ONE * ONE) <= M256 and B * B <= M256 else None
    t1, t2 = z * ONE, y * A + z * B
    t3 = t2 * x
    if max(t1, t2, t3) > M256 or max(y * A, z * B) > M256:
        return None
    if t1 == 0:
        return None
    f = max(cdiv(t1 * t1, M256), cdiv(t3 * A, M256))
    ex = exact_out(x, y, z, A, B)
    t4, t5 = cdiv(t1 * t1, f), cdiv(t3 * A, f)
    if t4 + t5 <= M256:
        return 1 + ex * (F(f, t3) if t3 else 0) + ex * F(2, t4 + t5)
    if t3 == 0:
        return None
    return 1 + ex * F(2, A + t1 * t1 // t3 + 1)


def err_in(x, y, z, A, B):
    if A == 0:
        return F(1) if B and cdiv(x * ONE * ONE, B * B) <= M256 and B * B <= M256 else None
    t1, t2 = z * ONE, y * A + z * B
    t3 = t2 - x * A
    if max(t1, t2, y * A, z * B, x * A) > M256 or t3 <= 0:
        return None
    f = max(cdiv(t1 * t1, M256), cdiv(t2 * t3, M256))
    t4, t5 = cdiv(t1 * t1, f), t2 * t3 // f
    if t5 == 0:
        return None
    ex = F(x * t1 * t1, t2 * t3)
    if x * t4 // t5 + 1 > M256:
        return None
    # ceil/floor of the two factors
    return 1 + ex * (F(1, max(t4 - 1, 1)) + F(2, t5)) + 1


def p17_int(case):
    T = impl()
    y, z, A, B = (case[k] for k in "yzAB")
    enc = {"y": y, "z": z, "A": T.encodeFloat(A), "B": T.encodeFloat(B)}
    A, B = dec_float(enc["A"]), dec_float(enc["B"])
    labels = set()
    nt = 0
    last = None
    for x in case["in"]:
        got = T.tradeBySourceAmount(x, enc)
        info = lambda: f"x={x} y={y} z={z} A={A} B={B}: {got}"
        need(isinstance(got, int) and 0 <= got <= M128, "P17.src.range", info)
        err = err_out(x, y, z, A, B)
        ex = exact_out(x, y, z, A, B) if z or not A else F(0)
        need(got <= ex, "P17.src.favours", lambda: f"{info()} exact {float(ex)}")
        if ex - (err or 0) > M128 and err is not None:
            need(got == 0, "P17.src.overflow", info)
            labels.add("overflow")
            last = None
            continue
        if err is None or ex > M128:
            big = (B * B > M256 or x * B * B // (ONE * ONE) > M256) if A == 0 else max(z * ONE, y * A, z * B, y * A + z * B, (y * A + z * B) * x) > M256
            if big:
                need(got == 0, "P17.src.overflow", info)
            labels.add("overflow")
            last = None
            continue
        need(got > ex - err, "P17.src.error", lambda: f"{info()} exact {float(ex)} bound {float(err)}")
        if last is not None:
            need(got >= last[0] - max(err, last[1]) + 1, "P17.src.monotone", lambda: f"{info()} before {last}")
        last = (got, err)
        if got > 0:
            nt += 1
        if x == 0:
            need(got == 0, "P17.src.zero", info)
        # what is received could not have been bought for less than was paid
        if got > 0 and (y >= got or A == 0):
            c = exact_in(got, y, z, A, B)
            need(c is not None and c <= x, "P17.src.inverse", lambda: f"{info()} exact cost {c}")
    last = None
    for x in case["out"]:
        got = T.tradeByTargetAmount(x, enc)
        info = lambda: f"out={x} y={y} z={z} A={A} B={B}: {got}"
        need(isinstance(got, int) and 0 <= got <= M128, "P17.tgt.range", info)
        ex = exact_in(x, y, z, A, B)
        if ex is None:
            need(got == M128, "P17.tgt.impossible", info)
            labels.add("impossible")
            continue
        need(got >= ex or (got == M128 and ex > M128), "P17.tgt.favours", lambda: f"{info()} exact {float(ex) if ex < 1e300 else ex}")
        err = err_in(x, y, z, A, B)
        if err is None or ex + err > M128:
            big = (B * B > M256) if A == 0 else max(z * ONE, y * A, z * B, y * A + z * B, x * A) > M256
            if ex > M128 or big:
                need(got == M128, "P17.tgt.overflow", info)
            labels.add("overflow")
            continue
        need(got < ex + err, "P17.tgt.error", lambda: f"{info()} exact {float(ex)} bound {float(err)}")
        if last is not None:
            need(got >= last[0] - max(err, last[1]) + 1, "P17.tgt.monotone", lambda: f"{info()} before {last}")
        last = (got, err)
        if got > 0:
            nt += 1
        # paying that much is really worth x
        if got < M128 and z:
            need(exact_out(got, y, z, A, B) >= x, "P17.tgt.inverse", info)
    if max(case["in"] + case["out"]) and not labels:
        labels.add("regular")
    return {"nontrivial": nt > 0, "labels": sorted(labels)}


def p17_spec(case):
    """by rates: specification against exact fractions, integers against the specification, and back again"""
    T, S = impl(), spec()
    getcontext().prec = 100
    o = case["order"]
    y = int(o["liquidity"])
    lo, hi, mg = (D(o[k]) for k in ("lowestRate", "highestRate", "marginalRate"))
    L, H, M = lo.sqrt(), hi.sqrt(), mg.sqrt()
    labels = set()
    nt = False
    if mg != hi and mg < lo * (1 + D(10) ** -9 * (1 + 1 / L)):
        raise Skip()                          # below the resolution of the format
    e = T.encodeOrder(o)
    z = e["z"]
    from math import sqrt
    eps = D(2) ** -46 + D(2) ** -47 / L
    eps = (eps * M / L + 4 / D(max(z, 1)) * M / L + eps * (H - L) / (M - L) if M != H else eps * M / L) * 16
    x = int(case["x"])
    if x > y / (M * L):                       # beyond what the order can sell
        x = int(y / (M * L) * D(case["f"]))
    sx = S.execute("tradeBySourceAmount", str(x), o)
    # M^2 x y / (M (M-L) x + y)
    ref = M * M * x * y / (M * (M - L) * x + y)
    need(abs(sx - ref) <= D("1e-90") * (1 + ref), "P17.spec.src", lambda: f"{case} {sx} {ref}")
    ix = T.execute("tradeBySourceAmount", str(x), o)
    full = M == H
    if eps < D("0.01"):
        need(abs(ix - sx) <= 2 + eps * sx, "P17.exec.src", lambda: f"{case} {ix} {sx} {eps}")
        if full:
            need(ix <= sx, "P17.exec.src.favours", lambda: f"{case} {ix} {sx}")
        nt = nt or ix > 0
        # there and back again through an order that buys back at no better price
        bm = 1 / hi * D(case["back"])
        back = {"liquidity": str(10 ** 30), "lowestRate": str(bm / 2), "highestRate": str(bm), "marginalRate": str(bm)}
        if full and ix > 0:
            r = T.execute("tradeBySourceAmount", str(ix), back)
            need(r <= x, "P17.roundtrip", lambda: f"{case}: {x} -> {ix} -> {r}")
            labels.add("roundtrip")
    t = int(y * D(case["f"]))
    st = S.execute("tradeByTargetAmount", str(t), o)
    ref = D(t) * y / (M * M * y - M * (M - L) * t)
    need(abs(st - ref) <= D("1e-90") * (1 + ref), "P17.spec.tgt", lambda: f"{case} {st} {ref}")
    it = T.execute("tradeByTargetAmount", str(t), o)
    if eps < D("0.01") and st < M128:
        need(abs(it - st) <= 2 + eps * st, "P17.exec.tgt", lambda: f"{case} {it} {st} {eps}")
        if full:
            need(it >= st, "P17.exec.tgt.favours", lambda: f"{case} {it} {st}")
            if it > 0:
                bm = 1 / hi * D(case["back"])
                back = {"liquidity": str(10 ** 30), "lowestRate": str(bm / 2), "highestRate": str(bm), "marginalRate": str(bm)}
                r = T.execute("tradeBySourceAmount", str(t), back)
                need(r <= it, "P17.roundtrip", lambda: f"{case}: pays {it} for {t} -> {r}")
        nt = nt or it > 0
    # the specification's two functions are inverse to each other
    if st > 0 and t < y:
        need(abs(S.execute("tradeBySourceAmount", str(st), o) - t) <= D("1e-80") * t * (M / L) ** 2, "P17.spec.inverse", lambda: f"{case}")
    return {"nontrivial": nt, "labels": sorted(labels)}


# ------------------------------------------------------------------ matching
def _cap_in(o, T):
    """largest input an order can use (by source), from the exact curve"""
    A, B = dec_float(o["A"]), dec_float(o["B"])
    c = exact_in(o["y"], o["y"], o["z"], A, B)
    return c


def _optimum(enc, amount, src):
    """best total over all splits, by bisection on the common marginal rate (exact curves)"""
    P = [(e["y"], e["z"], dec_float(e["A"]), dec_float(e["B"])) for e in enc if e["y"] > 0]
    if not P:
        return None

    def split(lim):
        o = []
        for y, z, A, B in P:
            if A:
                d = min(max((F(y) * A + F(z) * (B - lim)) / A, F(0)), F(y))
            else:
                d = F(y) if lim < B else F(0)
            o.append(d)
        return o

    def used(o):
        return sum(o) if not src else sum(exact_in(d, *p) for d, p in zip(o, P))
    lo, hi = F(0), max(F(y * A, z) + B for y, z, A, B in P) + 1
    if used(split(lo)) <= amount:
        o = split(lo)
    else:
        for _ in range(90):
            m = F((lo + hi) / 2).limit_denominator(2 ** 60)
            if used(split(m)) > amount:
                lo = m
            else:
                hi = m
        a, b = split(hi), split(lo)
        rest = amount - used(a)
        o = []
        for u, v, p in zip(a, b, P):
            if src:
                cu, cv = exact_in(u, *p), exact_in(v, *p)
                t = min(rest, cv - cu)
                o.append(exact_out(cu + t, *p) if t < cv - cu else v)
            else:
                t = min(rest, v - u)
                o.append(u + t)
            rest -= t
    return sum(o) if src else sum(exact_in(d, *p) for d, p in zip(o, P))


# what the matchers are known to get wrong (known_findings.json), by kind of deviation; only where the result is exactly
# the one the present algorithm gives (matchref)
KNOWN18 = {"P18.incomplete.Best", "P18.too_much.Best", "P18.worse", "P18.optimal"}


def p18(case):
    import core.match.impl as Mt
    T = impl()
    O = case["orders"]
    enc = [T.encodeOrder(o) for o in O]
    labels = set()
    nt = False
    caps = [_cap_in(e, T) for e in enc]
    if any(c is None for c in caps):
        raise Skip()
    for method in ("matchBySourceAmount", "matchByTargetAmount"):
        src = method == "matchBySourceAmount"
        total = sum(caps) if src else sum(e["y"] for e in enc)
        amount = int(total * F(case["f"]))
        if amount > M128 or any((e["y"] * dec_float(e["A"]) + e["z"] * dec_float(e["B"])) * (amount + int(max(caps))) > 2 ** 250 for e in enc):
            raise Skip()                      # beyond the contract's number types
        before = [dict(o) for o in O]
        try:
            ref = matchref.actions(method, amount, enc, T)
        except Exception as e:
            ref = e
        try:
            res = Mt.execute(method, str(amount), O)
        except Exception as e:
            known(case, "P18.raises", f"{e!r} {method} {amount} {enc}", type(e) is type(ref), labels)
            continue
        need(O == before, "P18.input")
        need(set(res) == {"Fast", "Best"}, "P18.types", lambda: f"{res}")
        same = {k: isinstance(ref, dict) and [(a.id, a.input, a.output) for a in acts] == ref[k] for k, acts in res.items()}
        for k, acts in res.items():
            try:
                p18_valid(method, amount, k, acts, enc, caps, T)
            except Violation as v:
                known(case, v.sig, str(v), same[k], labels)
                continue
            nt = nt or len(acts) > 0
            if len(acts) > 1:
                labels.add("multi")
        try:
            p18_best(method, amount, res, enc, labels)
        except Violation as v:
            known(case, v.sig, str(v), all(same.values()), labels)
    return {"nontrivial": nt, "labels": sorted(labels)}


def known(case, sig, msg, same, labels):
    if same and sig in KNOWN18 and case.get("known") != sig:
        labels.add("known finding " + sig)
        return
    raise Violation(sig, msg)


def p18_valid(method, amount, k, acts, enc, caps, T):
    src = method == "matchBySourceAmount"
    info = lambda: f"{method} {amount} {k} {[(a.id, a.input, a.output) for a in acts]} of {enc}"
    ids = [a.id for a in acts]
    need(len(set(ids)) == len(ids) and all(i in range(len(enc)) for i in ids), f"P18.once.{k}", info)
    for a in acts:
        e = enc[a.id]
        need(a.input > 0 and a.output > 0, f"P18.positive.{k}", info)
        ref = T.tradeBySourceAmount(a.input, e) if src else T.tradeByTargetAmount(a.input, e)
        need(a.output == ref, f"P18.output.{k}", lambda: f"{info()}: {ref}")
        need((a.output if src else a.input) <= e["y"], f"P18.liquidity.{k}", info)
    ti = sum(a.input for a in acts)
    need(ti <= amount, f"P18.too_much.{k}", info)
    # what is missing could not be traded (orders are used up, or it buys nothing)
    missing = amount - ti
    if missing:
        used = {a.id: a for a in acts}
        for i, e in enumerate(enc):
            u = used[i].input if i in used else 0
            room = (e["y"] - u) if not src else int(caps[i]) - u
            extra = min(room, missing)
            if extra <= max(4, F(caps[i]) / e["y"] * 4 if src and e["y"] else 0, (e["y"] if not src else caps[i]) * F(1, 10 ** 9)):
                continue
            gain = (T.tradeBySourceAmount(u + extra, e) - (used[i].output if i in used else 0)) if src else 1
            need(gain <= 1 + (used[i].output if i in used else 0) * F(1, 10 ** 9), "P18.incomplete." + k, lambda: f"{info()}: missing {missing}, order {i} could take {extra}, gain {gain}")


def p18_best(method, amount, res, enc, labels):
    """the optimising matcher is no worse, beyond one unit of the integer formats per order"""
    src = method == "matchBySourceAmount"
    f, b = ((sum(a.input for a in res[k]), sum(a.output for a in res[k])) for k in ("Fast", "Best"))
    low = min(dec_float(e["B"]) for e in enc)
    tol = F(8, max(low, 1))
    info = lambda: f"{method} {amount} Fast {[(a.id, a.input, a.output) for a in res['Fast']]} Best {[(a.id, a.input, a.output) for a in res['Best']]} of {enc}"
    n = len(enc)
    # value of one unit of the amount: best price for a unit sold, worst price for a unit bought
    unit = n * (max(F(dec_float(e["A"]) * e["y"] + dec_float(e["B"]) * e["z"], ONE * max(e["z"], 1)) ** 2 for e in enc) if src
                else F(ONE * ONE, max(low, 1) ** 2))
    if b[0] >= f[0]:
        if src:
            need(b[1] >= f[1] - 2 * n - f[1] * tol - unit, "P18.worse", info)
        else:
            need(b[1] <= f[1] + 2 * n + f[1] * tol + unit, "P18.worse", info)
    # and no split does better: bisection on the exact curves
    opt = _optimum(enc, amount, src)
    if opt is not None and b[0] == amount:
        if src:
            need(b[1] >= opt - 3 * n - opt * tol - unit, "P18.optimal", lambda: f"{info()} optimum {float(opt)}")
        else:
            need(b[1] <= opt + 3 * n + opt * tol + unit, "P18.optimal", lambda: f"{info()} optimum {float(opt)}")
        labels.add("optimum")
