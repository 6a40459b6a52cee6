"""
What benchmark/core/match/impl.py does today, as a reference: the known findings of P18 are those inputs on which exactly
this behaviour breaks the property. Any other result that breaks it is reported. trade amounts are taken from the code.
"""
from functools import cmp_to_key

ONE = 1 << 48


def dec(v):
    return (v % ONE) << (v // ONE)


def actions(method, amount, enc, T):
    src = method == "matchBySourceAmount"

    def trade(n, o):
        if not src:
            n = min(n, o["y"])
            return n, T.tradeByTargetAmount(n, o)
        out = T.tradeBySourceAmount(n, o)
        if out > o["y"]:
            n = T.tradeByTargetAmount(o["y"], o)
            out = T.tradeBySourceAmount(n, o)
            while out > o["y"]:
                n -= 1
                out = T.tradeBySourceAmount(n, o)
        return n, out

    def cmp(a, b):
        l, r = a[1][1] * b[1][0], b[1][1] * a[1][0]
        lt, gt = l < r, l > r
        lt = lt or (l == r and a[1][1] < b[1][1])
        gt = gt or (l == r and a[1][1] > b[1][1])
        return lt - gt if src else -(lt - gt)

    quotes = sorted([(i, trade(amount, enc[i])) for i in range(len(enc))], key=cmp_to_key(cmp))
    fast, left = [], amount
    for i, r in quotes:
        if left < r[0]:
            r = (left, trade(left, enc[i])[1])
        if r[0] > 0 and r[1] > 0:
            fast.append((i, *r))
        if left <= r[0]:
            break
        if r[0] > 0 and r[1] > 0:
            left -= r[0]

    def limit(o):
        return (o["y"] * dec(o["A"]) + o["z"] * dec(o["B"])) // o["z"] if o["z"] > 0 else 0

    def equal(o, lim):
        y, z, A, B = o["y"], o["z"], dec(o["A"]), dec(o["B"])
        t = (y * A + z * (B - lim)) // A if A > 0 else y
        return T.tradeByTargetAmount(t, o) if src else t

    O = [enc[q[0]] for q in quotes] + [dict(y=0, z=0, A=0, B=0)]
    delta, rates = 0, []
    for n in range(1, len(O)):
        lim = limit(O[n])
        rates = [trade(equal(o, lim), o) for o in O[:n]]
        delta = sum(r[0] for r in rates) - amount
        if delta >= 0:
            break
    if delta > 0:
        lo, hi = lim, limit(O[n - 1])
        while lo + 1 < hi:
            lim = (lo + hi) // 2
            rates = [trade(equal(o, lim), o) for o in O[:n]]
            delta = sum(r[0] for r in rates) - amount
            if delta > 0:
                lo = lim
            elif delta < 0:
                hi = lim
            else:
                break
    if delta > 0:
        for i in reversed(range(len(rates))):
            r = trade(rates[i][0] - delta, O[i])
            delta += r[0] - rates[i][0]
            rates[i] = r
            if delta <= 0:
                break
    elif delta < 0:
        for i in range(len(rates)):
            r = trade(rates[i][0] - delta, O[i])
            delta += r[0] - rates[i][0]
            if delta > 0:
                break
            rates[i] = r
    best = [(quotes[i][0], *r) for i, r in enumerate(rates) if r[0] > 0 and r[1] > 0]
    return {"Fast": fast, "Best": best}
