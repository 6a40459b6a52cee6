"""P29: the helpers keep their word"""
import contextlib, copy, gzip, io, json, math, operator, os, shutil, tempfile

import pandas as pd
from carbon.tools.params import Params
from carbon.tools.simplepair import SimplePair
from carbon.tools.tokenscale import TokenScale, TokenScale1, TokenScaleData, TokenScale1Data
from carbon.helpers.sharedvar import SharedVar
from carbon.helpers.version import require_version, split_version_str, VersionRequirementNotMetError
from carbon.helpers import fls
from carbon.helpers.fls import fload, fsave
from carbon.helpers.helpers import listdir
from carbon.helpers.pdread import pdread, pdcols, pathtime, pathtime_days, pathtime_yrs, tknpair
from carbon.helpers.soltest import SolTestBase
from .base import Violation, need, need_close, expect_exc


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as s:
        r = f(*a, **k)
    return r, s.getvalue()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vp-h-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------ parameters
def params(case):
    init, dfl = dict(case["init"]), dict(case["defaults"])
    how = case["how"]
    if how in ("empty", "none"):
        init, dfl = {}, {}
        p = Params.construct() if how == "empty" else Params.construct(None)
    elif how == "kw":
        p, dfl = Params(**init), {}
    elif how == "construct":
        p, dfl = Params.construct(init), {}
    else:
        p = Params.construct(init, defaults=dfl)
    given_i, given_d = copy.deepcopy(init), copy.deepcopy(dfl)
    src_i, src_d = init, dfl
    m, d = dict(init), dict(dfl)          # the model
    n = 0
    for k, key, v, kw in case["ops"]:
        ctx = lambda: f"{k} {key!r} {v!r} {kw}: {p!r}, expected {m} defaults {d}"
        if k == "get":
            need(p[key] == m.get(key, d.get(key)), "P29.params.get", ctx)
        elif k == "attr":
            if key in m or key in d:
                need(getattr(p, key) == m.get(key, d.get(key)), "P29.params.attr", ctx)
            else:
                expect_exc(lambda: getattr(p, key), "P29.params.attr.missing", (KeyError, AttributeError), ctx)
        elif k in ("assign", "setno"):
            def do():
                if k == "assign":
                    p[key] = v
                else:
                    need(p.set(key, v, allowupdate=False) is p, "P29.params.chain")
            if key in m:
                expect_exc(do, "P29.params.reassigned", ValueError, ctx)
            else:
                do(); m[key] = v
        elif k == "set":
            need(p.set(key, v) is p, "P29.params.chain"); m[key] = v
        elif k == "add":
            if any(x in m for x in kw):
                expect_exc(lambda: p.add(**kw), "P29.params.add.existing", ValueError, ctx)
                for x, y in kw.items():          # what came before the refused one is kept or not; nothing that existed changes
                    if x not in m and p.params.get(x, p) is not p:
                        need(p[x] == y, "P29.params.add.partial", ctx); m[x] = y
            else:
                need(p.add(**kw) is p, "P29.params.chain"); m.update(kw)
        elif k == "default":
            need(p.set_default(**kw) is p, "P29.params.chain"); d.update(kw)
        elif k == "getdef":
            need(p.get_default(key) == d.get(key), "P29.params.default", ctx)
        elif k == "getdefr":
            if key in d:
                need(p.get_default(key, raiseonerror=True) == d[key], "P29.params.default", ctx)
            else:
                expect_exc(lambda: p.get_default(key, raiseonerror=True), "P29.params.default.missing", KeyError, ctx)
        elif k == "defaults":
            need(p.defaults == d, "P29.params.defaults", ctx)
        elif k == "params":
            need(p.params == m, "P29.params.params", ctx)
        elif k in ("copy", "copy2"):
            if d and k == "copy2":
                expect_exc(lambda: Params.construct(p, defaults={"zz": 1}), "P29.params.two-defaults", ValueError, ctx)
            else:
                kd = {"zz": 1} if k == "copy2" else None
                o = Params.construct(p, defaults=kd)
                need(o is not p and o.params == m and o.params is not p.params, "P29.params.replica", lambda: f"{o!r} {ctx()}")
                need(o.defaults == (kd or d), "P29.params.replica.defaults", lambda: f"{o!r} {ctx()}")
                o.set("only", 1); o.set_default(only2=2)
                need(p["only"] is None and p["only2"] is None, "P29.params.replica.shared", ctx)
        elif k == "dup":
            for o in (copy.copy(p), copy.deepcopy(p)):
                need(o.params == m and o.defaults == d, "P29.params.copy", lambda: f"{o!r} {ctx()}")
        elif k == "repr":
            o = eval(repr(p), {"Params": Params, "nan": float("nan"), "inf": float("inf")})
            need(o.params == m and o.defaults == d, "P29.params.repr", ctx)
        n += 1
        need(p.params == m, "P29.params.values", ctx)
        need((p._defaults if hasattr(p, "_defaults") else p.defaults) in (d, None) and (not d or p.defaults == d), "P29.params.defaults", ctx)
    need(src_i == given_i and src_d == given_d, "P29.params.source", lambda: f"{src_i} {src_d}")
    return {"nontrivial": n > 2, "labels": sorted({o[0] for o in case["ops"]}), "n": n}


# ------------------------------------------------------------------------------------------ shared variables
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv, "%": operator.mod, "**": operator.pow,
       "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_, "|": operator.or_, "^": operator.xor, "divmod": divmod,
       "==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv, "%": operator.imod, "**": operator.ipow,
        "<<": operator.ilshift, ">>": operator.irshift, "&": operator.iand, "|": operator.ior, "^": operator.ixor}
UNS = {"pos": operator.pos, "neg": operator.neg, "abs": abs, "round": round, "round2": lambda x: round(x, 2), "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc,
       "int": int, "float": float, "complex": complex, "str": str, "bool": bool, "sum": lambda x: sum([x, x]), "index": lambda x: list(range(50))[x]}


def plain(x):
    return x.value if isinstance(x, SharedVar) else x


def same(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    a = plain(a)
    if isinstance(a, SharedVar):
        return False
    return type(a) is type(b) and (a == b or (a != a and b != b))


def huge(op, a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        return True
    if op == "**":
        return abs(b) > 40 or abs(a) > 1e4 and abs(b) > 6
    if op == "<<":
        return not isinstance(b, int) or abs(b) > 200
    return False


def shared(case):
    xs = [SharedVar(v) for v in case["vals"]]
    ms = [[v] for v in case["vals"]]          # boxes: aliases share a box
    xs.append(xs[0]); ms.append(ms[0])
    n = 0
    for k, op, i, j, v in case["ops"]:
        x, y, mx, my = xs[i], xs[j], ms[i], ms[j]
        a, b = mx[0], my[0]
        if any(isinstance(z, complex) for z in (a, b)):
            break
        before = [m[0] for m in ms]
        ctx = lambda: f"{k} {op} x{i}={before[i]!r} x{j}={before[j]!r} v={v!r}: {[plain(z) for z in xs]}"

        def both(fs, fm):
            """the same result, or the same refusal"""
            try:
                w = fm()
            except Exception as e:
                try:
                    g = fs()
                except Exception as f:
                    need(type(e) is type(f) or isinstance(e, TypeError) and isinstance(f, TypeError), "P29.shared.error", lambda: f"{ctx()} {e!r} {f!r}")
                    return None
                if isinstance(e, TypeError) and op == "index":
                    return None
                raise Violation("P29.shared.accepted", f"{ctx()}: {g!r}, but numbers give {e!r}")
            g = fs()
            need(same(g, w), "P29.shared." + k, lambda: f"{ctx()}: {g!r}, numbers give {w!r}")
            return (g,)
        if k in ("bin", "cmp") and not huge(op, a, v):
            r = both(lambda: OPS[op](x, v), lambda: OPS[op](a, v))
            if r and k == "bin":
                need(r[0] is not x, "P29.shared.fresh", ctx)
        elif k in ("rbin", "rcmp") and not huge(op, v, a):
            both(lambda: OPS[op](v, x), lambda: OPS[op](v, a))
        elif k in ("bin2", "cmp2") and not huge(op, a, b):
            r = both(lambda: OPS[op](x, y), lambda: OPS[op](a, b))
            if r and k == "bin2":
                need(r[0] is not x and r[0] is not y, "P29.shared.fresh", ctx)
        elif k in ("ip", "ip2"):
            other, o = (y, b) if k == "ip2" else (v, v)
            if not huge(op, a, o):
                try:
                    w = OPS[op](a, o)
                except Exception as e:
                    expect_exc(lambda: IOPS[op](x, other), "P29.shared.inplace.error", Exception, ctx)
                else:
                    if isinstance(w, complex):
                        continue
                    g = IOPS[op](x, other)
                    need(g is x, "P29.shared.inplace.identity", ctx)
                    mx[0] = w
                    need(same(x, w), "P29.shared.inplace", lambda: f"{ctx()}: {x!r}, numbers give {w!r}")
        elif k == "un" and not (op == "index" and not isinstance(a, int)):
            both(lambda: UNS[op](x), lambda: UNS[op](a))
        elif k == "set":
            need(x.setval(v) is x, "P29.shared.setval.chain"); mx[0] = v
        elif k == "alias":
            xs[j], ms[j] = x, mx
        elif k == "break":
            xs[j], ms[j] = SharedVar(a), [a]
        elif k == "wrap":
            z = SharedVar(v)
            need(same(z, v) and z.id == id(z) and repr(z).startswith(f"SharedVar({v}, oid="), "P29.shared.new", ctx)
        n += 1
        for z, m in zip(xs, ms):
            need(same(z, m[0]), "P29.shared.state", lambda: f"{ctx()} expected {[q[0] for q in ms]}")
    return {"nontrivial": n > 2, "labels": sorted({o[0] for o in case["ops"]}), "n": n}


# ------------------------------------------------------------------------------------------ versions
def version(case):
    r, a = case["req"], case["act"]
    f = lambda l: ".".join(map(str, l))
    rs, as_ = case["rp"] + f(r) + case["rs"], case["ap"] + f(a) + case["as"]
    L = max(len(r), len(a))
    want = r + [0] * (L - len(r)) <= a + [0] * (L - len(a))
    got = require_version(rs, as_, raiseonfail=False)
    need(got is want, "P29.version", lambda: f"required {rs!r} actual {as_!r}: {got}")
    if want:
        need(require_version(rs, as_) in (True,), "P29.version.met", lambda: f"{rs!r} {as_!r}")
    else:
        expect_exc(lambda: require_version(rs, as_), "P29.version.unmet", VersionRequirementNotMetError, lambda: f"{rs!r} {as_!r}")
        need(issubclass(VersionRequirementNotMetError, RuntimeError), "P29.version.class")
    need(list(split_version_str(rs)) == r and list(split_version_str(as_)) == a, "P29.version.split", lambda: f"{rs!r} {split_version_str(rs)}")
    # transitive with the version of the package
    import carbon
    me = list(split_version_str(carbon.__version__))
    L = max(len(r), len(me))
    need(require_version(rs, raiseonfail=False) is (r + [0] * (L - len(r)) <= me + [0] * (L - len(me))), "P29.version.own", lambda: f"{rs!r} {carbon.__version__}")
    expect_exc(lambda: split_version_str(case["bad"]), "P29.version.bad", ValueError)
    return {"nontrivial": r != a, "labels": ["met" if want else "unmet"]}


# ------------------------------------------------------------------------------------------ files
def files(case):
    labels = set()
    with scratch() as root:
        d = root
        if case["sub"]:
            d = os.path.join(root, case["sub"]); os.makedirs(d)
        need(fls.join(root, *(case["sub"] or "").split("/")) == os.path.join(root, *(case["sub"] or "").split("/")), "P29.files.join")
        fn, path = ("f.dat", d) if case["usepath"] else (os.path.join(d, "f.dat"), None)
        full = os.path.join(d, "f.dat")
        kw = {} if case["quiet"] else {"quiet": False}
        if case["overwrite"]:
            with open(full, "wb") as f:
                f.write(b"z" * 10000)

        def save(data, **k):
            _, out = quiet(fsave, data, fn, path, **k, **kw)
            need(bool(out) is not case["quiet"], "P29.files.quiet", out)

        def load(**k):
            r, out = quiet(fload, fn, path, **k, **kw)
            need(bool(out) is not case["quiet"], "P29.files.quiet", out)
            return r

        def raw():
            with open(full, "rb") as f:
                return f.read()
        t, b, j = case["text"], bytes.fromhex(case["bytes"]), case["json"]
        save(t)
        need(raw() == t.encode() and load() == t, "P29.files.text", lambda: f"{t!r} {raw()!r}")
        need(load(binary=True) == t.encode(), "P29.files.text.binary")
        save(b, binary=True)
        need(raw() == b and load(binary=True) == b, "P29.files.binary", lambda: f"{b!r}")
        save(t, compressed=True)
        need(gzip.decompress(raw()) == t.encode() and load(compressed=True) == t.encode(), "P29.files.compressed", lambda: f"{t!r}")
        for k in ({}, {"binary": True}):
            save(b, compressed=True, **k)
            need(gzip.decompress(raw()) == b and load(compressed=True, **k) == b, "P29.files.compressed.binary", lambda: f"{b!r}")
        keep = copy.deepcopy(j)
        for k in ({}, {"compressed": True}):
            save(j, json=True, **k)
            need(j == keep, "P29.files.json.mutated")
            need(load(json=True, **k) == j, "P29.files.json", lambda: f"{j!r} {k}")
            r = raw()
            need(json.loads(gzip.decompress(r) if k else r) == j, "P29.files.json.raw", lambda: f"{j!r}")
        w = case["wrap"]
        if w is not None:
            pre, post = w.split("{}")
            save(t, wrapper=w)
            need(raw() == (pre + t + post).encode() and load() == pre + t + post, "P29.files.wrapped", lambda: f"{t!r} {raw()!r}")
            save(t)
            need(load(wrapper=w) == pre + t + post, "P29.files.wrapper", lambda: f"{t!r}")
            save(t, wrapper=w, compressed=True)
            need(load(compressed=True) == (pre + t + post).encode(), "P29.files.wrapped.compressed")
            labels.add("wrapper")
        expect_exc(lambda: quiet(fload, "nosuch", d), "P29.files.missing", OSError)
        os.remove(full)
        # --- listings
        l = os.path.join(root, "list"); os.makedirs(l)
        for f in case["files"]:
            open(os.path.join(l, f), "w").close()
        e = case["ext"]
        want = sorted(case["files"]) if e is None else sorted(f[:-len(e)] for f in case["files"] if f.lower().endswith(e.lower()))
        need(listdir(l, e) == want, "P29.listdir", lambda: f"{listdir(l, e)} {want} {e}")
        need(sorted(os.listdir(l)) == sorted(case["files"]), "P29.listdir.touched")
        if want: labels.add("listed")
    return {"nontrivial": bool(t) and bool(b), "labels": sorted(labels)}


# ------------------------------------------------------------------------------------------ windows of series
def window(case):
    ts = [pd.Timestamp(case["start"])]
    for g in case["gaps"]:
        ts.append(ts[-1] + pd.Timedelta(hours=6 * g))
    cols = case["cols"]
    rows = [[v * (k + 1) for k in range(len(cols))] for v in case["vals"]]
    df = pd.DataFrame(rows, index=pd.DatetimeIndex(ts, name="datetime"), columns=cols)
    one = pd.Timedelta(days=1)
    kw = {}
    keep = list(range(len(ts)))
    if case["min"] is not None:
        mt = ts[0] + pd.Timedelta(hours=6 * case["min"])
        kw["min_dt"] = mt
        keep = [k for k in keep if ts[k] >= mt]
        if not keep:
            return {"nontrivial": False}
    t0, t1 = ts[keep[0]], ts[keep[-1]]
    frm = None
    if case["from"] is not None:
        frm = t0 - 5 * one if case["from"] == "neg" else t1 + one if case["from"] == "beyond" else t0 + pd.Timedelta(hours=6 * case["from"])
        kw["from_ts"] = str(frm) if case["from_str"] else frm
    bad = None
    if case["from_pc"] is not None:
        kw["from_pc"] = case["from_pc"]
        if frm is not None: bad = "from"
        frm = t0 + case["from_pc"] * (t1 - t0)
    days = None
    if case["days"] is not None:
        kw["period_days"] = days = case["days"]
    if case["pc"] is not None:
        kw["period_pc"] = case["pc"]
        if days is not None: bad = "period"
        days = case["pc"] * ((t1 - t0) / one)
    c = case["col"]
    if isinstance(c, str):
        c = cols[int(c[1:])]
    if c is not None:
        kw["datacol"] = c
    if case["invert"]: kw["invert"] = True
    if case["tkns"]: kw["tkns"] = True
    with scratch() as d:
        fn = os.path.join(d, "x.pickle")
        df.to_pickle(fn)
        need(list(pdcols(fn)) == cols, "P29.window.cols")
        if bad:
            expect_exc(lambda: pdread(fn, **kw), "P29.window.both", ValueError, bad)
            return {"nontrivial": False, "labels": ["bad"]}
        if c is None and case["invert"]:
            expect_exc(lambda: pdread(fn, **kw), "P29.window.invert", ValueError)
            return {"nontrivial": False, "labels": ["bad"]}
        r = pdread(fn, **kw)
        need(pd.read_pickle(fn).equals(df), "P29.window.file")
    lo = t0 if frm is None or frm < t0 else frm
    hi = t1 if days is None else lo + days * one
    eps = pd.Timedelta(microseconds=1)
    idx = [k for k in keep if lo <= ts[k] <= hi]
    opt = [k for k in keep if (lo - eps <= ts[k] <= hi + eps) and (k not in idx or abs(ts[k] - lo) <= eps or abs(ts[k] - hi) <= eps)]
    ctx = lambda: f"{kw} index {ts}"
    if c is None:
        got = r
    else:
        if case["tkns"]:
            need(isinstance(r, tuple) and len(r) == 2, "P29.window.tkns", ctx)
            r, tk = r
            parts = [x.strip() for x in c.split("/")] if isinstance(c, str) else ["RSK", "CSH"]
            if len(parts) != 2: parts = ["RSK", "CSH"]
            need(tk == (tuple(parts[::-1]) if case["invert"] else tuple(parts)), "P29.window.tkns", lambda: f"{tk} {ctx()}")
        got = r
    gi = [ts.index(t) for t in got.index]
    need(set(idx) - set(opt) <= set(gi) <= set(idx) | set(opt) and gi == sorted(gi), "P29.window.rows", lambda: f"{gi}, expected {idx} {ctx()}")
    for k, t in zip(gi, got.index):
        if c is None:
            need(list(got.loc[t]) == rows[k] and list(got.columns) == cols, "P29.window.values", ctx)
        else:
            v = rows[k][cols.index(c) if isinstance(c, str) else c]
            need_close(got.loc[t], 1 / v if case["invert"] else v, "P29.window.values", 1e-12, 0, ctx)
    s = df[cols[0]]
    days_ = (ts[-1] - ts[0]).total_seconds() / 86400
    need_close(pathtime_days(s), days_, "P29.window.days", 1e-12); need_close(pathtime_yrs(s), days_ / 365.25, "P29.window.yrs", 1e-12); need_close(pathtime(s), days_ / 365.25, "P29.window.yrs", 1e-12)
    need(tknpair("A/B") == ("A", "B") and tknpair(" A / B", True) == ("B", "A") and tknpair("AB") == ("RSK", "CSH"), "P29.tknpair")
    return {"nontrivial": 0 < len(gi) < len(ts), "labels": ["window"] if len(gi) < len(ts) else []}


# ------------------------------------------------------------------------------------------ controls of the notebooks
def controls(case):
    from carbon.helpers.widgets import CheckboxManager, DropdownManager, PcSliderManager
    ids, n = case["ids"], len(case["ids"])
    I = tuple(map(str, ids))
    ch = dict(zip(ids, case["descr"])) if case["dict"] else (tuple(ids) if case["labels"] else list(ids))
    D = tuple(map(str, case["descr"])) if case["dict"] else I
    labels = set()
    # --- check boxes
    v, dis = case["vals"], case["dis"]
    objs = None if case["objs"] is None else [object() for _ in range(n if case["objs"] == "ok" else n + 1)]
    bad = isinstance(v, list) and len(v) != n or dis is not None and len(dis) != n or objs is not None and len(objs) != n
    mk = lambda: CheckboxManager(ch, v, objs, dis)
    if bad:
        expect_exc(mk, "P29.check.bad", ValueError)
    else:
        c = mk()
        st = [bool(v)] * n if v is None or isinstance(v, bool) else list(map(bool, v))
        need(c.choice_ids == I and c.choice_descr == D and c.disabled == tuple(dis or [False] * n) and c.initial_values == tuple(st), "P29.check.new", lambda: f"{vars(c)}")
        need([x.description for x in c.checkboxes] == list(D) and [x.disabled for x in c.checkboxes] == list(dis or [False] * n), "P29.check.boxes")
        need(c.vbox.children == c.checkboxes == c.hbox.children, "P29.check.box")
        O = objs if objs is not None else D
        for k, on, _ in [[0, st[0], 0]] + case["acts"]:
            c.checkboxes[k].value = on
            st[k] = on
            need(c.values == tuple(st) and c.values_dct == dict(zip(I, st)), "P29.check.values", lambda: f"{c.values} {st}")
            need(c.checked == tuple(i for i, s in zip(I, st) if s) and c.unchecked == tuple(i for i, s in zip(I, st) if not s), "P29.check.checked")
            need(c.objects() == tuple(o for o, s in zip(O, st) if s) and c.objects(checked=False) == tuple(o for o, s in zip(O, st) if not s), "P29.check.objects")
        need(c.initial_values == (tuple([bool(v)] * n) if v is None or isinstance(v, bool) else tuple(map(bool, v))), "P29.check.initial")
        f = CheckboxManager.from_idvdct(dict(zip(ids, st)), disabled=dis)
        need(f.values_dct == dict(zip(I, st)) and f.choice_descr == I and f.disabled == tuple(dis or [False] * n), "P29.check.idv")
        labels.add("boxes")
    # --- sliders
    sv, pm, rg = case["sv"], case["pm"], case["range"]
    if rg == "each":
        rg = [(-k - 1, k + 1) for k in range(n)]
    pml = [False] * n if pm is None or pm is False else [True] * n if pm is True else pm
    kw = {"disabled": dis}
    if sv is not None: kw["values"] = sv
    if pm is not None: kw["pm"] = pm
    if rg is not None: kw["range"] = tuple(rg)
    mk = lambda: PcSliderManager(ch, **kw)
    both = pm is not None and rg is not None
    if both or dis is not None and len(dis) != n or isinstance(sv, float) and (sv > 1 or sv < -1 or sv < 0 and not any(pml) and rg is None):
        expect_exc(mk, "P29.slider.bad", ValueError)
    elif not (isinstance(sv, float) and sv < 0 and pm is not True):
        s = mk()
        R = list(rg if case["range"] == "each" else [rg] * n) if rg is not None else [(-1, 1) if p else (0, 1) for p in pml]
        clamp = lambda x, r: min(max(x, r[0]), r[1])
        want = [clamp(x, r) for x, r in zip([0.0] * n if sv is None else [sv] * n if isinstance(sv, float) else sv, R)]
        for k, _, x in [[0, 0, want[0]]] + case["acts"]:
            s.sliders[k].value = x * 100
            want[k] = clamp(x, R[k])
            for g, w in zip(s.values, want):
                need_close(g, w, "P29.slider.values", 1e-9, 1e-12, lambda: f"{s.values} {want} {R}")
            need(tuple(s.values_dct) == I and tuple(s.values_dct.values()) == s.values, "P29.slider.dct")
        need([x.description for x in s.sliders] == list(D) and s.vbox.children == s.sliders == s.hbox.children and s.disabled == tuple(dis or [False] * n), "P29.slider.new")
        need([(x.min, x.max) for x in s.sliders] == [(a * 100, b * 100) for a, b in R], "P29.slider.range", lambda: f"{[(x.min, x.max) for x in s.sliders]} {R}")
        labels.add("sliders")
    # --- dropdown
    kw = {}
    lab = None
    if case["labels"] and not case["dict"]:
        kw["labels"] = lab = [f"l{k}" for k in range(n)]
    LB = tuple(lab) if lab else D
    if case["labels"] and case["dict"]:
        expect_exc(lambda: DropdownManager(ch, labels=["x"] * n), "P29.drop.labels", ValueError)
    ix = 0
    d = case["default"]
    if d in ("ix", "both"):
        kw["defaultix"] = ix = case["dix"]
    if d in ("val", "both"):
        kw["defaultval"] = I[case["pick"]]
        ix = case["pick"]
    mk = lambda: DropdownManager(ch, **kw)
    if d == "both":
        expect_exc(mk, "P29.drop.both", ValueError)
    elif d == "ix" and not 0 <= ix < n:
        expect_exc(mk, "P29.drop.ix", Exception)
    else:
        w = mk()
        need(w.options == I and w.labels == LB, "P29.drop.new", lambda: f"{w.options} {w.labels}")
        need((w.value, w.label) == w.result == (I[ix], LB[ix]) or len(set(LB)) < n, "P29.drop.default", lambda: f"{w.result} {I} {LB} {ix}")
        w.dropdown.index = case["pick"]
        need((w.value, w.label) == w.result == (I[case["pick"]], LB[case["pick"]]), "P29.drop.picked", lambda: f"{w.result}")
        labels.add("dropdown")
    # --- comparison of numbers
    with contextlib.redirect_stdout(io.StringIO()):
        from carbon.helpers.stdimports import iseq, raises
    a, *rest = case["eq"]
    if isinstance(a, str) == all(isinstance(x, str) for x in rest) and (isinstance(a, str) or not any(isinstance(x, str) for x in rest)):
        e = case["eps"] or 1e-6
        kw = {} if case["eps"] is None else {"eps": e}
        if isinstance(a, str):
            want = all(x == a for x in rest)
        else:
            dev = [abs(x) if a == 0 else abs(x / a - 1) for x in rest]
            want = all(x <= e for x in dev) if not any(abs(x / e - 1) < 1e-6 for x in dev) else None
        got = iseq(a, *rest, **kw)
        need(want is None or got is want, "P29.iseq", lambda: f"iseq({case['eq']}, {kw}) = {got}")
        labels.add("iseq")
    expect_exc(lambda: iseq(1), "P29.iseq.alone", ValueError)
    need(raises(lambda x: x, 1) is False and "msg1" in raises(lambda: (_ for _ in ()).throw(ValueError("msg1"))), "P29.raises")
    return {"nontrivial": n > 1, "labels": sorted(labels)}


# ------------------------------------------------------------------------------------------ pairs, scales, bounds
ORDER = ["USDC", "USDT", "DAI", "TUSD", "BUSD", "PAX", "GUSD", "USDS", "sUSD", "mUSD", "HUSD", "USDN", "USDP", "USDQ", "ETH", "WETH", "WBTC", "BTC"]


def pairs(case):
    b, q, p = case["b"], case["q"], case["p"]
    h = case["how"]
    P = SimplePair(f"{b}/{q}") if h == "str" else SimplePair((b, q)) if h == "tuple" else SimplePair([b, q]) if h == "list" else SimplePair(SimplePair(f"{b}/{q}")) if h == "pair" else SimplePair.from_tokens(tknb=b, tknq=q)
    R = SimplePair(P.pairr)
    need((P.tknb, P.tknq, P.tknx, P.tkny) == (b, q, b, q) and str(P) == P.pair == f"{b}/{q}" and P.pairt == (b, q) and P.pairr == f"{q}/{b}" and P.pairrt == (q, b), "P29.pair", lambda: f"{P!r}")
    n = lambda t: t.split("-")[0].split("(")[0]
    need((P.tknb_n, P.tknq_n, P.tknx_n, P.tkny_n) == (n(b), n(q), n(b), n(q)), "P29.pair.normal")
    rk = lambda t: ORDER.index(n(t)) if n(t) in ORDER else 99
    prim = b < q if rk(b) == rk(q) else rk(q) < rk(b)
    need(P.isprimary is prim and R.isprimary is not prim, "P29.pair.primary", lambda: f"{P!r} {P.isprimary} {R.isprimary}")
    need(P.primary == R.primary == (P.pair if prim else P.pairr) and P.secondary == R.secondary == (P.pairr if prim else P.pair), "P29.pair.primary.name")
    if p == 0:
        need(P.primary_price(0) != P.primary_price(0), "P29.pair.price.zero")
    else:
        need_close(P.primary_price(p), p if prim else 1 / p, "P29.pair.price", 1e-12); need(P.pp(p) == P.primary_price(p), "P29.pair.price")
        need_close(P.primary_price(p), R.primary_price(1 / p), "P29.pair.price.reversed", 1e-12)
    need(SimplePair.unwrap(SimplePair.wrap([P.pair, (q, b)])) == (P.pair, P.pairr), "P29.pair.wrap")
    need(P == SimplePair((b, q)) and P != R, "P29.pair.eq")
    expect_exc(lambda: SimplePair(case["bad"]), "P29.pair.bad", ValueError)
    # --- scales
    s = TokenScale.from_tokenscales(**case["scale"])
    m = dict(case["scale"])
    for t, v in case["add"]:
        s.add_scale(t, v); m[t] = v
    a = case["ask"]
    need(s.scale(a) == s(a) == m.get(a, 1e-2), "P29.scale", lambda: f"{s} {a}")
    need(TokenScale1Data(a) == TokenScale1()(a) == 1, "P29.scale.one")
    need(TokenScale()("nosuch") == 1e-2 and TokenScale() == TokenScale({}) and TokenScale().scale_dct == {}, "P29.scale.fresh")
    need((TokenScaleData("ETH"), TokenScaleData("USDC"), TokenScaleData("WBTC"), TokenScaleData("LINK"), TokenScaleData("nosuch")) == (1000, 1, 10000, 10, 0.01), "P29.scale.data")
    # --- bounds of 256-bit integers
    M = 1 << 256
    k = case["num"]
    x = {"edge-": M - 1, "edge": M, "edge+": M + 1, "warn-": M // 10000 - 2 ** 220, "warn+": M // 10000 + 2 ** 220, "max": M * 16}.get(k)
    if x is None:
        x = (1 << int(k[1:])) if k[0] == "p" else int(k)
    lvl = 2 if x < 100 or x >= M else 1 if x < 10000 or x >= M / 10000 else 0
    over = x < 0 or x >= M / 10000
    pl, rl = case["lvls"]
    S = SolTestBase(print_lvl=pl, raise_lvl=rl, print_context=case["ctx"], who="me")
    def run():
        return S(x, "lab", context="there")
    if lvl >= rl and lvl > 0:
        E = {(1, True): S.OverflowWarning, (1, False): S.UnderflowWarning, (2, True): S.OverflowError, (2, False): S.UnderflowError}[(lvl, over)]
        try:
            with contextlib.redirect_stdout(io.StringIO()) as out:
                run()
        except Exception as e:
            need(type(e) is E, "P29.bounds.raise", lambda: f"{x} {e!r}")
            need(isinstance(e, S.OutOfBoundsWarning if lvl == 1 else S.OutOfBoundsError), "P29.bounds.class")
        else:
            raise Violation("P29.bounds.quiet", f"{x} was not refused at {rl}")
    elif lvl >= rl:
        return {"nontrivial": prim is False, "labels": ["log-raise"]}      # nothing to raise for a number in bounds
    else:
        r, o = quiet(run)
        out = io.StringIO(o); out.seek(0)
        need(r == max(0, x) and isinstance(r, int), "P29.bounds.value", lambda: f"{x} {r}")
        need(bool(o) is (lvl >= pl), "P29.bounds.print", lambda: f"{x} level {lvl} print from {pl}: {o!r}")
        if o:
            need({0: "LOG:OK", 1: "WARNING:OVERFLOW" if over else "WARNING:UNDERFLOW", 2: "ERROR:OVERFLOW" if over else "ERROR:UNDERFLOW"}[lvl] + ":LAB]" in o, "P29.bounds.message", o)
            need(("there" in o and "'who': 'me'" in o) is case["ctx"], "P29.bounds.context", o)
    got = []
    r, _ = quiet(S.check_uint256, x, "l", None, lambda **kw: got.append((kw["level"], kw["isoverflow"])))
    need(r == max(0, x) and got == [(lvl, over if lvl else False)], "P29.bounds.level", lambda: f"{x} {got} {lvl} {over}")
    return {"nontrivial": True, "labels": ["primary" if prim else "secondary", f"lvl{lvl}"]}
