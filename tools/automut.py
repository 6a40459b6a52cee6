"""
mechanical mutants: automut.py FILE N SEED PROP[,PROP..] [OUT]
takes N random mutation points of FILE (path within /repo), applies each alone to a scratch copy, runs the quick checks of
the properties until one reports a violation; survivors are listed (with MUT_TESTS=1 those that fail the stable tests are listed as TESTS).
"""
import ast, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"]), ast.Pow: ("**", ["*"])}
SKIPFN = re.compile(r"^(__repr__|__str__|plot|print|p_?|_?help|.*plot.*|.*latex.*|.*__version.*)$")
SKIPLINE = re.compile(r"print\(|verbose|raise |warn|plt\.|assert|@|^\s*def |^\s*class |^\s*import|^\s*from |logger|__VERSION__|__DATE__")


def points(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()
    off = lambda ln, c: starts[ln - 1] + c
    out = []

    def add(a, z, new, node):
        ln = node.lineno
        if not SKIPLINE.search(lines[ln - 1]):
            out.append((a, z, new, ln))

    def between(l, r, sym, news, node):
        a, z = off(l.end_lineno, l.end_col_offset), off(r.lineno, r.col_offset)
        seg = b[a:z].decode()
        m = re.search(r"(?<![*<>=!/])" + re.escape(sym) + r"(?![*=>/])" if not sym[0].isalpha() else r"\b" + sym.replace(" ", r"\s+") + r"\b", seg)
        if m:
            s = a + len(seg[:m.start()].encode())
            for n in news:
                add(s, s + len(m.group().encode()), n, node)

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef,)):
            if SKIPFN.match(n.name):
                return
            infn = True
            for d in n.args.defaults + n.args.kw_defaults:
                if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                    out.append((off(d.lineno, d.col_offset), off(d.end_lineno, d.end_col_offset), str(not d.value), d.lineno))
            for c in n.body:
                visit(c, True)
            return
        if isinstance(n, (ast.JoinedStr, ast.Raise, ast.Assert)):
            return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                between(n.left, n.comparators[0], SYM[type(n.ops[0])], CMP[type(n.ops[0])], n)
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                between(n.left, n.right, BIN[type(n.op)][0], BIN[type(n.op)][1], n)
            elif isinstance(n, ast.BoolOp):
                for l, r in zip(n.values, n.values[1:]):
                    between(l, r, "and" if isinstance(n.op, ast.And) else "or", ["or" if isinstance(n.op, ast.And) else "and"], n)
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
                a, z = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
                v = n.value
                add(a, z, str(not v) if type(v) is bool else str(v + 1) if type(v) is int else repr(v * 1.01 if v else 1.0), n)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                a, z = off(n.lineno, n.col_offset), off(n.operand.lineno, n.operand.col_offset)
                add(a, z, " " * (z - a), n)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                a = off(n.lineno, n.col_offset)
                add(a, a + 1, "+", n)
            elif isinstance(n, ast.If):
                a, z = off(n.test.lineno, n.test.col_offset), off(n.test.end_lineno, n.test.end_col_offset)
                add(a, z, "False", n)
                add(a, z, "True", n)
            elif isinstance(n, ast.IfExp):
                a, z = off(n.test.lineno, n.test.col_offset), off(n.test.end_lineno, n.test.end_col_offset)
                add(a, z, "False", n)
                add(a, z, "True", n)
            elif isinstance(n, (ast.AugAssign, ast.Expr)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                a, z = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
                add(a, z, "pass", n)
            elif isinstance(n, ast.Continue):
                add(off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset), "pass", n)
            elif isinstance(n, ast.Break):
                add(off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset), "pass", n)
            elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, (ast.Starred, ast.Constant)) for x in n.args):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                if nm in ("min", "max"):
                    z = off(n.func.end_lineno, n.func.end_col_offset)
                    add(z - len(nm), z, "max" if nm == "min" else "min", n)
                elif nm not in ("isinstance",):
                    a0, z0 = off(n.args[0].lineno, n.args[0].col_offset), off(n.args[0].end_lineno, n.args[0].end_col_offset)
                    a1, z1 = off(n.args[1].lineno, n.args[1].col_offset), off(n.args[1].end_lineno, n.args[1].end_col_offset)
                    add(a0, z1, (b[a1:z1] + b[z0:a1] + b[a0:z0]).decode(), n)
        for c in ast.iter_child_nodes(n):
            visit(c, infn)
    visit(tree, False)
    return sorted(set(out))


def one(f, src, pt, props, root, log):
    a, z, new, ln = pt
    b = src.encode()
    text = (b[:a] + new.encode() + b[z:]).decode()
    try:
        compile(text, f, "exec")
    except SyntaxError:
        return None
    old = src.split("\n")[ln - 1].strip()
    now = text.split("\n")[ln - 1].strip()
    d, repo = plant.copy()
    try:
        open(os.path.join(repo, f), "w").write(text)
        how = ""
        for prop in props:
            try:
                r = subprocess.run(["bash", "-c", f"ulimit -v 24000000; timeout -k 5 240 ./check {prop} quick --shards {os.environ.get('MUT_SHARDS', '3')}"], cwd=root,
                                   env=dict(plant.ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
                rc, so = r.returncode, r.stdout
            except Exception as e:
                rc, so = 99, repr(e)
            if rc == 1 and "VIOLATION" in so:
                how = prop
                break
            if rc != 0:
                how = f"{prop} rc={rc}"
                break
        if how:
            print(f"CAUGHT {f}:{ln} [{how}] {old}  ->  {now}", file=log, flush=True)
            return True
        t = plant.tests(repo, d) if os.environ.get('MUT_TESTS') else []
        print(f"{'MISSED' if not t else 'TESTS '} {f}:{ln} {old}  ->  {now}", file=log, flush=True)
        return bool(t)
    finally:
        shutil.rmtree(d)


def main():
    f, n, seed, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
    log = open(sys.argv[5], "a") if len(sys.argv) > 5 else sys.stdout
    src = open(os.path.join("/repo", f)).read()
    if os.environ.get("MUT_LINES"):
        lo, hi = map(int, os.environ["MUT_LINES"].split("-"))
    else:
        lo, hi = 0, 10 ** 9
    P = [p for p in points(src) if lo <= p[3] <= hi]
    random.Random(seed).shuffle(P)
    seen, Q = {}, []
    for p in P:                              # at most two per line
        if seen.setdefault(p[3], 0) < 2:
            seen[p[3]] += 1
            Q.append(p)
    Q = Q[:n]
    root = tempfile.mkdtemp(prefix="vmut")
    try:
        subprocess.run(["cp", "-a"] + [os.path.join(plant.ROOT, x) for x in ("check", "setup.sh", "MANIFEST.json", "properties.jsonl", "known_findings.json", "pbt", "corpus", "tools")] + [root], check=True)
        with ThreadPoolExecutor(int(os.environ.get("SCREEN_JOBS", "3"))) as ex:
            out = list(ex.map(lambda p: one(f, src, p, props, root, log), Q))
    finally:
        shutil.rmtree(root)
    print(f"== {f}: {sum(x is True for x in out)} detected, {sum(x is False for x in out)} missed, of {len(P)} points", file=log, flush=True)


main()
