#!/usr/bin/env python3
"""Which of the mutants listed in ALL.jsonl compile and pass the repository's tests: survivors.py ALL.jsonl OUT.jsonl JOBS."""
import json, os, subprocess, sys, random, tempfile
from concurrent.futures import ThreadPoolExecutor
ms = [json.loads(l) for l in open(sys.argv[1])]
random.seed(1)
ms = [m for m in ms if "uintX" not in m["File"] or random.random() < 0.25]
random.shuffle(ms)
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOMAXPROCS="2")
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else [])
def run(m):
    d = tempfile.mkdtemp()
    ov = os.path.join(d, "o.json")
    json.dump({"Replace": {m["File"]: m["Out"]}}, open(ov, "w"))
    def t(p):
        try:
            return subprocess.run(["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "25s", p], cwd="/repo", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (12 << 30, 12 << 30))).returncode == 0
        except subprocess.TimeoutExpired:
            return False
    ok = t("./" + os.path.relpath(os.path.dirname(m["File"]), "/repo")) and t("./...")
    subprocess.run(["rm", "-rf", d])
    return ok
with open(sys.argv[2], "a") as out, ThreadPoolExecutor(int(sys.argv[3])) as ex:
    done = 0
    for m, ok in zip(ms, ex.map(run, ms)):
        done += 1
        if ok:
            out.write(json.dumps(m) + "\n"); out.flush()
        if done % 100 == 0:
            print(done, len(ms), flush=True)
