#!/usr/bin/env python3
"""Which of the surviving mutants the quick checks catch: sweep.py SURV.jsonl OUT.jsonl PARALLEL WORKERS [FILTER].
Each mutant is mounted over /repo in a private mount namespace together with a private copy of /verif."""
import json, os, re, subprocess, sys, random, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
ms = [json.loads(l) for l in open(sys.argv[1])]
out, par, work = sys.argv[2], int(sys.argv[3]), sys.argv[4]
flt = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
done = {json.loads(l)["ID"] for l in open(out)} if os.path.exists(out) else set()
def plan(f):
    m = re.search(r"uintX/(\w+?)(\d+)/(\w+)", f)
    ty = m.group(2) if m else "0"
    o = "ty=" + ty
    if "/numtree/" in f:
        return "w=" + f[-5:-3], ["N03", "N01", "N02", "N04", "N05", "N06"]
    if "/iptree" in f and (not m or m.group(3) in ("iptree",)) or m and m.group(1) == "iptree":
        return o, ["I02", "I01", "I03", "I04", "I07", "I05"] + (["I06"] if ty == "0" else ["X01"])
    if "strtree" in f:
        return o, ["S01", "S02", "S03", "S04"]
    if "dltree/" in f:
        return "", ["L01", "L02", "L03", "L04"]
    if "/domain/" in f:
        return "", ["D03", "D01", "D05", "D06", "D04", "D02"]
    if "domaintree" in f:
        return o, ["T02", "T03", "T01", "T04", "T05", "T06"] + (["L04"] if m and m.group(3) != "domaintree" else [])
    return "", ["E01", "E02"]
def run(m):
    only, props = plan(m["File"])
    w = tempfile.mkdtemp(prefix="sweep.")
    subprocess.run("cp -a /repo %s/repo; mkdir %s/verif; cp -a /verif/checks.json /verif/known-findings.txt /verif/harness %s/verif/; mkdir %s/verif/evidence" % (w, w, w, w), shell=True)
    subprocess.run(["cp", m["Out"], w + m["File"]])
    sc = "mount --bind %s/repo /repo && mount --bind %s/verif /verif || exit 9; for p in %s; do timeout 600 /tmp/gosym.sweep check -prop $p -tier quick -j %s -only '%s' > /tmp/%s.out 2>&1; rc=$?; if [ $rc != 0 ]; then echo CAUGHT $p $rc; grep -A1 VIOL /tmp/%s.out | head -2; exit; fi; done" % (w, w, " ".join(props), work, only, os.path.basename(w), os.path.basename(w))
    r = subprocess.run(["unshare", "-Ur", "-m", "bash", "-c", sc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    subprocess.run(["rm", "-rf", w, "/tmp/%s.out" % os.path.basename(w)])
    m["res"] = r.stdout.strip().replace("\n", " | ")[:300]
    return m
ms = [m for m in ms if m["ID"] not in done and flt.search(m["ID"] + " " + m["What"] + " " + m["Func"])]
with open(out, "a") as o, ThreadPoolExecutor(par) as ex:
    for f in as_completed([ex.submit(run, m) for m in ms]):
        m = f.result()
        o.write(json.dumps(m) + "\n"); o.flush()
