"""
every repaired defect has to be reported again if it returns: refix.py [--jobs N] [COMMIT ...]
reverts each fix: commit in a scratch copy, runs the property's quick check against it; the failing inputs go to corpus/
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant

args = sys.argv[1:]
jobs = 3
if args[:1] == ["--jobs"]:
    jobs, args = int(args[1]), args[2:]
fixes = [x for x in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if x["status"] == "fixed" and (not args or x["commit"] in args)]


def keep(replay):
    """a failing input becomes part of the corpus, if it is quiet on the unchanged tree"""
    r = subprocess.run(["./check", "--replay", replay], cwd=ROOT, env=dict(plant.ENV, VERIF_REPO="/repo"), capture_output=True, text=True)
    if r.returncode:
        return "ALARM on the unchanged tree: " + replay
    d = json.load(open(os.path.join(ROOT, replay)))
    os.makedirs(os.path.join(ROOT, "corpus", d["property"]), exist_ok=True)
    with open(os.path.join(ROOT, "corpus", d["property"], os.path.basename(replay).split("-", 1)[1]), "w") as f:
        json.dump({"sub": d["sub"], "case": d["case"]}, f)
    return "kept"


def one(x):
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        r = subprocess.run(["git", "-C", repo, "revert", "-n", x["commit"]], capture_output=True, text=True)
        if r.returncode:
            return x, "CONFLICT"
        r = subprocess.run(["./check", x["property"], "quick", "--shards", str(8 // jobs), "--scale", str(jobs)], cwd=ROOT, env=dict(plant.ENV, VERIF_REPO=repo), capture_output=True, text=True)
        m = re.search(r"VIOLATION property=(\S+) replay=(\S+)", r.stdout)
        if r.returncode == 1 and m:
            return x, "CAUGHT " + keep(os.path.relpath(os.path.join(ROOT, m.group(2)), ROOT))
        return x, f"MISSED rc={r.returncode}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    with ThreadPoolExecutor(jobs) as ex:
        for x, res in ex.map(one, fixes):
            print(x["property"], x["commit"], res, "|", x["what"].split(" ", 3)[-1][:110], flush=True)
