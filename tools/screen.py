"""
screens mutants: screen.py SPEC.py [ID ...]    SPEC.py defines M = {id: (property or (properties), file, old, new)}
applies each to a scratch copy of /repo, runs the quick check of the property (from a copy of /verif, so that work can
go on meanwhile); if it is missed, runs the stable tests too.
"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant


def one(i, m, root):
    prop, f, old, new = m
    props = prop if isinstance(prop, tuple) else (prop,)
    d, repo = plant.copy()
    try:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) < 1:
            print(i, "NO SUCH TEXT", flush=True)
            return None
        open(p, "w").write(s.replace(old, new, 1))
        text, hit = "", False
        for prop in props:
            r = subprocess.run(["./check", prop, "quick"], cwd=root, env=dict(plant.ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
            h = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
            first = next((l for l in r.stdout.split("\n") if l.startswith("---")), "")[:160]
            text += f"{'CAUGHT' if h else 'MISSED'} {i} {prop} rc={r.returncode} {first}\n"
            if r.returncode not in (0, 1):
                text += r.stdout[-300:] + "\n"
            hit = hit or h
        if not hit:
            text += f"   stable tests that fail: {plant.tests(repo, d)[:3]}\n"
        print(text, end="", flush=True)
        return hit
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    M = ns["M"]
    ids = sys.argv[2:] or list(M)
    root = tempfile.mkdtemp(prefix="vscreen")
    try:
        subprocess.run(["cp", "-a"] + [os.path.join(plant.ROOT, x) for x in ("check", "setup.sh", "MANIFEST.json", "properties.jsonl", "known_findings.json", "pbt", "corpus", "tools")] + [root], check=True)
        with ThreadPoolExecutor(int(os.environ.get("SCREEN_JOBS", "2"))) as ex:
            out = dict(zip(ids, ex.map(lambda i: one(i, M[i], root), ids)))
    finally:
        shutil.rmtree(root)
    print("caught", sum(bool(v) for v in out.values()), "of", len(out), "missed", [k for k in out if not out[k]])


main()
