"""
Generation side of the framework: Hypothesis generates and shrinks JSON cases, workers running the
repository's own interpreter execute them against the oracles.

usage: driver.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--shards N] [--only SUBCHECK]
exit:  0 held on everything explored, 1 violation (VIOLATION line printed), 2 harness error
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import queue
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PYPY = os.environ.get("VERIF_PYPY", "/opt/venv/bin/python")
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK", "40"))


def canon(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class WorkerError(Exception):
    pass


class Worker:
    """one PyPy process; restarted when it dies"""

    def __init__(self, mode):
        self.mode = mode
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", VERIF_WORKER_MODE=self.mode or "")
        env.pop("PYTHONPATH", None)
        self.p = subprocess.Popen([PYPY, "-W", "ignore", os.path.join(HERE, "worker.py")],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  text=True, bufsize=1, cwd="/")
        line = self.p.stdout.readline()
        r = json.loads(line) if line else {"status": "error", "msg": "worker did not start"}
        if r["status"] != "ready":
            raise WorkerError(r.get("msg"))

    def call(self, fn, case, warm=False):
        req = json.dumps({"fn": fn, "case": case, "warm": warm}) + "\n"
        for attempt in (1, 2):
            if self.p is None:
                self.start()
            try:
                self.p.stdin.write(req)
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = ""
            if line:
                return json.loads(line)
            self.stop()
        raise WorkerError(f"worker died twice on {fn} {canon(case)[:2000]}")

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None


class Failed(AssertionError):
    pass


def subseed(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


def shard_main(prop, tier, seed, shard, nshards, budget_s, only, scale, outq):
    try:
        _shard(prop, tier, seed, shard, nshards, budget_s, only, scale, outq)
    except BaseException:
        outq.put(("error", shard, traceback.format_exc()[-4000:]))


def _shard(prop, tier, seed, shard, nshards, budget_s, only, scale, outq):
    import registry
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    import warnings
    warnings.simplefilter("ignore")
    workers = {}
    t_start = time.time()
    subs = [s for s in registry.PROPS[prop] if only is None or s.name == only]
    stats = {}

    def worker(mode):
        if mode not in workers:
            workers[mode] = Worker(mode)
        return workers[mode]

    def report_failure(sub, case, res):
        outq.put(("fail", shard, {"property": prop, "sub": sub.name, "fn": sub.fn, "mode": sub.mode,
                                  "case": case, "msg": res.get("msg"), "sig": res.get("sig"),
                                  "seed": seed}))

    def leave():
        outq.close()
        outq.join_thread()
        for w in workers.values():
            w.stop()
        os._exit(0)

    state = {"best": None, "t_fail": None}
    total_w = sum(s.weight for s in subs)

    for isub, sub in enumerate(subs):
        st = stats.setdefault(sub.name, {"evals": 0, "skips": 0, "nontrivial": 0, "n": 0,
                                         "hashes": set(), "labels": {}, "samples": []})
        n_total = int((sub.thorough if tier == "thorough" else sub.quick) * scale)
        n_mine = n_total // nshards + (1 if shard < n_total % nshards else 0)
        # start the process and import the code before the clock runs: under load this takes longer than a share
        t0 = time.time()
        w = worker(sub.mode)
        w.call(sub.fn, None, warm=True)
        t_start += time.time() - t0
        t0 = time.time()
        # time share of this sub-check out of what is left
        rest_w = sum(s.weight for s in subs[isub:])
        t_end = t0 + max(1.0, (t_start + budget_s - t0) * sub.weight / rest_w)

        def one(case, sub=sub, st=st, w=w):
            if state["t_fail"] is not None and time.time() - state["t_fail"] > SHRINK_SECONDS:
                report_failure(sub, *state["best"])
                leave()
            res = w.call(sub.fn, case)
            s = res["status"]
            if s == "error":
                raise WorkerError(f"{sub.fn}: {res.get('msg')}\ncase={canon(case)[:3000]}")
            if s == "fail":
                if res.get("hang"):
                    report_failure(sub, case, res)
                    w.stop()
                    leave()
                if state["t_fail"] is None:
                    state["t_fail"] = time.time()
                if state["best"] is None or len(canon(case)) <= len(canon(state["best"][0])):
                    state["best"] = (case, res)
                raise Failed(res.get("sig"))
            if s == "skip":
                st["skips"] += 1
                return
            st["evals"] += 1
            st["n"] += res.get("n", 1)
            for l in res.get("labels", ()):
                st["labels"][l] = st["labels"].get(l, 0) + 1
            if res.get("nontrivial"):
                h = hashlib.sha256(canon(case).encode()).digest()[:12]
                if h not in st["hashes"]:
                    st["hashes"].add(h)
                    st["nontrivial"] += 1
                    if len(st["samples"]) < 2 and len(canon(case)) < 2500 and st["nontrivial"] % 5 == 2:
                        st["samples"].append(case)

        # committed regression cases first
        if shard == isub % nshards:
            cdir = os.path.join(ROOT, "corpus", prop)
            if os.path.isdir(cdir):
                for f in sorted(os.listdir(cdir)):
                    c = json.load(open(os.path.join(cdir, f)))
                    if c.get("sub") != sub.name:
                        continue
                    try:
                        one(c["case"])
                    except Failed:
                        report_failure(sub, c["case"], state["best"][1])
                        return

        done, chunk_ix = 0, 0
        strat = sub.strategy()
        while done < n_mine and time.time() < t_end:
            k = min(sub.chunk, n_mine - done)
            s_chunk = subseed(seed, prop, sub.name, shard, chunk_ix)
            random.seed(s_chunk)
            cnt = {"c": 0}

            def test(case):
                cnt["c"] += 1
                if state["t_fail"] is None and time.time() > t_end:
                    return
                one(case)

            t = given(strat)(test)
            t = hseed(s_chunk)(t)
            t = settings(max_examples=k, database=None, deadline=None, print_blob=False,
                         suppress_health_check=list(HealthCheck),
                         phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)(t)
            try:
                t()
            except WorkerError:
                raise
            except BaseException:
                if state["best"] is None:
                    raise
                report_failure(sub, *state["best"])
                return
            done += k
            chunk_ix += 1
    for w in workers.values():
        w.stop()
    for st in stats.values():
        st["hashes"] = list(st["hashes"])
    outq.put(("done", shard, stats))


def load_known(prop):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", [])
            if k["property"] == prop and k.get("status") == "known"]


def write_replay(prop, info):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canon([info["fn"], info["case"]]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{info['sub']}-{h}.json")
    with open(path, "w") as f:
        json.dump(info, f, indent=1)
    return path


def do_replay(path):
    info = json.load(open(path))
    w = Worker(info.get("mode") or "")
    res = w.call(info["fn"], info["case"])
    w.stop()
    print(json.dumps(res, indent=1))
    if res["status"] == "fail":
        print(res.get("msg"))
        print(f"VIOLATION property={info['property']} replay={path}")
        return 1
    return 0 if res["status"] in ("ok", "skip") else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    prop = a.prop
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = a.budget or (60.0 if tier == "quick" else 600.0)
    import registry
    t0 = time.time()

    # known findings: re-run each recorded input; they are reported, never extended at run time
    violations = []
    for k in load_known(prop):
        w = Worker(k.get("mode") or "")
        res = w.call(k["fn"], k["case"])
        w.stop()
        if res["status"] == "fail" and res.get("sig") == k["sig"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        elif res["status"] == "fail":
            violations.append({"property": prop, "sub": "known", "fn": k["fn"], "mode": k.get("mode"),
                               "case": k["case"], "msg": res.get("msg"), "sig": res.get("sig"), "seed": seed})
        elif res["status"] == "error":
            print("HARNESS ERROR", res.get("msg"))
            return 2

    ctx = mp.get_context("fork")
    outq = ctx.Queue()
    procs = [ctx.Process(target=shard_main, args=(prop, tier, seed, i, a.shards, budget, a.only, a.scale, outq))
             for i in range(a.shards)]
    for p in procs:
        p.start()
    merged, errors, pending = {}, [], set(range(a.shards))
    hard = time.time() + budget * 3 + 400
    while pending:
        try:
            kind, shard, payload = outq.get(timeout=2)
        except queue.Empty:
            for i in list(pending):
                if not procs[i].is_alive():
                    try:
                        kind, shard, payload = outq.get(timeout=2)
                        break
                    except queue.Empty:
                        pending.discard(i)
                        errors.append(f"shard {i} died without a result")
            else:
                if time.time() > hard:
                    errors.append("time limit of the check itself exceeded")
                    break
                continue
            if not pending:
                break
        pending.discard(shard)
        if kind == "error":
            errors.append(payload)
        elif kind == "fail":
            violations.append(payload)
            break
        else:
            for name, st in payload.items():
                m = merged.setdefault(name, {"evals": 0, "skips": 0, "n": 0, "hashes": set(), "labels": {}, "samples": []})
                m["evals"] += st["evals"]
                m["skips"] += st["skips"]
                m["n"] += st["n"]
                m["hashes"].update(st["hashes"])
                for l, c in st["labels"].items():
                    m["labels"][l] = m["labels"].get(l, 0) + c
                m["samples"] += st["samples"]
    for p in procs:
        if p.is_alive() and (violations or errors):
            _kill_tree(p.pid)
        p.join(timeout=20)
        if p.is_alive():
            _kill_tree(p.pid)

    wall = time.time() - t0
    subs = {s.name: s for s in registry.PROPS[prop]}
    samples = []
    for name, m in merged.items():
        for c in m["samples"][:2]:
            samples.append({"sub_check": name, "case": c})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(m["evals"] for m in merged.values()),
            "distinct_nontrivial": sum(len(m["hashes"]) for m in merged.values()),
            "rule": registry.RULES[prop],
            "samples": samples[:8],
            "skipped_out_of_domain": sum(m["skips"] for m in merged.values()),
            "sub_checks": {name: {"evaluations": m["evals"], "steps_or_assertions": m["n"],
                                  "distinct_nontrivial": len(m["hashes"]), "skipped": m["skips"],
                                  "labels": dict(sorted(m["labels"].items()))}
                           for name, m in merged.items()},
        },
        "assumptions": registry.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        for v in violations:
            path = write_replay(prop, v)
            print(f"--- {prop}/{v['sub']}: {v['msg']}")
            print(f"case: {canon(v['case'])[:3000]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR", e)
        return 2
    c = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: held on {c['evaluations']} cases "
          f"({c['distinct_nontrivial']} distinct non-trivial, {c['skipped_out_of_domain']} out of domain) in {wall:.1f}s")
    for name, d in c["sub_checks"].items():
        print(f"   {name}: {d['evaluations']} cases, {d['distinct_nontrivial']} nontrivial, n={d['steps_or_assertions']}, skipped {d['skipped']}, labels {d['labels']}")
    if c["distinct_nontrivial"] == 0:
        print("HARNESS ERROR nothing non-trivial was explored")
        return 2
    return 0


def _kill_tree(pid):
    """kill one of our own shards and its worker"""
    try:
        kids = open(f"/proc/{pid}/task/{pid}/children").read().split()
    except Exception:
        kids = []
    import signal
    for k in list(kids) + [pid]:
        try:
            os.kill(int(k), signal.SIGKILL)
        except Exception:
            pass


if __name__ == "__main__":
    sys.exit(main())
