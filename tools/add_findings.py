"""adds the repairs (fix: commits) to known_findings.json: usage add_findings.py PXX hash [hash ...]"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(ROOT, "known_findings.json")
d = json.load(open(f))
have = {x.get("commit") for x in d["findings"]}
pid = sys.argv[1]
for h in sys.argv[2:]:
    if h in have:
        continue
    msg = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", h], capture_output=True, text=True).stdout.strip()
    assert msg.startswith("fix: "), msg
    d["findings"].append({"property": pid, "status": "fixed", "commit": h, "what": f"fixed: property={pid} {h} {msg[5:]}"})
with open(f, "w") as o:
    o.write('{"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in d["findings"]) + "\n]}\n")
