#!/usr/bin/env python3
"""Runs, for each planted change in seeded/, the check of its property on a scratch copy of /repo with the change.

  seeded.py [--jobs J] [--tier quick|thorough] [ID...]
"""
import argparse, json, os, queue, re, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*"); ap.add_argument("--jobs", type=int, default=2); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", default="1")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(VERIF + "/seeded"))
    q = queue.Queue()
    for i in ids: q.put(i)
    lock = threading.Lock()
    count = {}

    def worker(w):
        root = "/tmp/seedrun.%d.%d" % (os.getpid(), w)
        while True:
            try: i = q.get_nowait()
            except queue.Empty: break
            os.makedirs(root + "/verif")
            subprocess.run(["cp", "-a", "/repo", root + "/repo"], check=True)
            for n in ("engine", "harness", "shim", "check.py", "config.py", "known-findings.txt"):
                subprocess.run(["cp", "-a", os.path.join(VERIF, n), root + "/verif"], check=True)
            prop = json.load(open(VERIF + "/seeded/" + i + "/meta.json"))["property"]
            subprocess.run(["git", "-C", root + "/repo", "apply", VERIF + "/seeded/" + i + "/patch.diff"], check=True)
            t = time.time()
            p = subprocess.run([sys.executable, root + "/verif/check.py", prop], cwd=root + "/verif", text=True, errors="replace",
                               env=dict(os.environ, VERIF_REPO=root + "/repo", VERIF_SEED=a.seed, VERIF_TIER=a.tier), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            hit = p.returncode == 1 and ("VIOLATION property=" + prop) in p.stdout
            what = (re.search(r"what failed: (.*)", p.stdout) or [None, p.stdout[-150:].strip()])[1]
            with lock:
                v = "caught" if hit else "MISSED" if p.returncode == 0 else "BROKEN %d" % p.returncode
                count[v] = count.get(v, 0) + 1
                print("%-24s %s %-7s %5.1f s  %s" % (i, prop, v, time.time() - t, what[:150]), flush=True)
            shutil.rmtree(root)

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(a.jobs)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(count)


main()
