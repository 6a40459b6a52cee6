"""
confirms a planted bug in a scratch copy and files it under /verif/seeded/<id>/
usage: plant.py SPEC.py ID [...]     SPEC.py defines BUGS = {id: dict(property=, edits=[(file, old, new)], demo=, needs=, breaks=)}
       plant.py --trial ID ...       runs the property's quick check against a copy with the committed patch
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")


def copy():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d, os.path.join(d, "repo")


def tests(repo, d):
    s = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {repo}").replace("cp -r /repo/", f"cp -r {repo}/")
    t = os.path.join(d, "test.sh")
    open(t, "w").write(s)
    subprocess.run(["bash", t, os.path.join(d, "out.json")], env=ENV, capture_output=True, text=True)
    r = json.load(open(os.path.join(d, "out.json")))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(r.get("passed", []))
    return [x for x in base if x not in passed]


def demo(folder, repo):
    r = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def trial(i, repo=None, folder=None):
    folder = folder or os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    d = None
    if repo is None:
        d, repo = copy()
        subprocess.run(["git", "-C", repo, "apply", os.path.join(folder, "patch.diff")], check=True)
    r = subprocess.run(["./check", meta["property"], "quick"], cwd=ROOT, env=dict(ENV, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
    hit = r.returncode == 1 and f"VIOLATION property={meta['property']}" in r.stdout
    print(f"  {i}: {meta['property']} {'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode}: {r.stdout[:300]!r}", flush=True)
    if d:
        shutil.rmtree(d)
    return hit


def main():
    if sys.argv[1] == "--trial":
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
        res = {i: trial(i) for i in ids}
        print("caught", sum(res.values()), "of", len(res), "missed", [i for i in res if not res[i]])
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for i in (sys.argv[2:] or list(ns["BUGS"])):
        b = ns["BUGS"][i]
        d, repo = copy()
        try:
            folder = os.path.join(d, i)
            os.makedirs(folder)
            open(os.path.join(folder, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            sub = b.get("cwd", "")
            open(os.path.join(folder, "demo.sh"), "w").write(
                '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
                f'export PYTHONPATH="$PWD/{sub}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(folder, "meta.json"), "w"), indent=1)
            rc0, o0 = demo(folder, repo)
            if rc0 != 0:
                print(i, "BAD: demo fails on the clean tree", o0); continue
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(i, "BAD: edit matches", s.count(old), f, old[:80]); break
                open(p, "w").write(s.replace(old, new))
            else:
                diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
                open(os.path.join(folder, "patch.diff"), "w").write(diff)
                # the removed lines have to be lines of the original repository
                base = subprocess.run(["git", "-C", repo, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
                for f, _, _ in b["edits"]:
                    orig = set(subprocess.run(["git", "-C", repo, "show", f"{base}:{f}"], capture_output=True, text=True).stdout.splitlines())
                    for l in diff.splitlines():
                        if l.startswith("-") and not l.startswith("---") and l[1:] not in orig and l[1:].strip():
                            print(i, "WARNING: not an original line:", l)
                rc1, o1 = demo(folder, repo)
                if rc1 == 0:
                    print(i, "BAD: demo passes with the patch"); continue
                bad = tests(repo, d)
                if bad:
                    print(i, "BAD: tests fail", bad[:4]); continue
                dst = os.path.join(ROOT, "seeded", i)
                if os.path.isdir(dst):
                    shutil.rmtree(dst)
                shutil.copytree(folder, dst)
                print(i, "confirmed;", o1.strip().splitlines()[-1:] )
                trial(i, repo, dst)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    main()
