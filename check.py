#!/usr/bin/env python3
"""Driver of the property checks.

  check.py CID            run the check of one property (tier: VERIF_TIER, seed: VERIF_SEED)
  check.py --replay FILE  rebuild from /repo and run one replay file again
  check.py --setup        build what does not depend on /repo, check the toolchain
  check.py --list         list the configured checks

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was
printed.  Exit 2: the check itself could not do its work.
"""
import array
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")

sys.path.insert(0, VERIF)
from config import CHECKS  # noqa: E402

WRAP = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup", "posix_memalign", "aligned_alloc"]
WRAPFLAGS = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]
MEMWRAP = ["memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "strnlen", "strcmp", "strncmp", "strchr", "strcpy", "strncpy"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,shift,object-size",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
COMMON = ["-g", "-D_GNU_SOURCE", "-w"]
FUZZSAN = ["-fsanitize=address"]
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=78:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=24:"
                    "detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:abort_on_error=0:symbolize=0:"
                    "max_malloc_fill_size=0:malloc_context_size=4:allow_user_segv_handler=1",
    "UBSAN_OPTIONS": "exitcode=78:halt_on_error=1:print_stacktrace=0:symbolize=0",
    "TSAN_OPTIONS": "exitcode=78:halt_on_error=1:symbolize=0:report_signal_unsafe=0:die_after_fork=0:allocator_may_return_null=1",
    "MSAN_OPTIONS": "exitcode=78:halt_on_error=1:symbolize=0:allocator_may_return_null=1:poison_in_dtor=0",
    "LC_ALL": "C",
}
BUILDS = {
    "san": {"cc": "gcc", "flags": ["-O1", "-DVF_SAN=1", "-DCRE_TEST"] + SAN, "eng": ["-O2", "-DVF_SAN=1"], "link": SAN},
    "fast": {"cc": "gcc", "flags": ["-O2", "-DVF_SAN=0"], "eng": ["-O2", "-DVF_SAN=0"], "link": []},
    "fuzz": {"cc": "clang", "flags": ["-O1", "-DVF_SAN=1", "-DVF_LIBFUZZER=1", "-DCRE_TEST", "-fsanitize=fuzzer-no-link"] + FUZZSAN,
             "eng": ["-O2", "-DVF_SAN=1", "-DVF_LIBFUZZER=1"], "link": ["-fsanitize=fuzzer"] + FUZZSAN},
    "count": {"cc": "gcc", "flags": ["-O1", "-DVF_SAN=0", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fsanitize-coverage=trace-pc"],
              "eng": ["-O2", "-DVF_SAN=0", "-U_FORTIFY_SOURCE", "-Dmemcpy=vf_raw_memcpy", "-Dmemmove=vf_raw_memmove", "-Dmemset=vf_raw_memset"],
              "link": ["-Wl," + ",".join("--wrap=" + w for w in MEMWRAP)]},
    "msan": {"cc": "clang", "flags": ["-O1", "-DVF_SAN=1", "-DVF_MSAN=1", "-fsanitize=memory", "-fno-omit-frame-pointer"], "eng": ["-O1", "-DVF_SAN=1", "-DVF_MSAN=1", "-fsanitize=memory"],
             "link": ["-fsanitize=memory"]},
    "tsan": {"cc": "gcc", "flags": ["-O1", "-DVF_SAN=1", "-DVF_TSAN=1", "-fsanitize=thread"], "eng": ["-O2", "-DVF_SAN=1"], "link": ["-fsanitize=thread"]},
}


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def file_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str) and os.path.isfile(p):
            with open(p, "rb") as f:
                h.update(f.read())
        h.update(str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def engine_object(build, name):
    """Objects of the engine do not depend on /repo: cached by content."""
    src = os.path.join(VERIF, "engine", name + ".c")
    b = BUILDS[build]
    hdr = os.path.join(VERIF, "engine", "pbt.h")
    key = file_hash(src, hdr, b["cc"], " ".join(b["eng"] + COMMON))
    d = os.path.join(BUILD, "engine")
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, "%s.%s.%s.o" % (name, build, key))
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh([b["cc"]] + COMMON + b["eng"] + ["-I" + os.path.join(VERIF, "engine"), "-c", src, "-o", tmp])
        if r.returncode != 0:
            raise Broken("engine does not compile:\n" + r.stdout)
        os.rename(tmp, obj)
    return obj


def literals(paths):
    """Integer literals of the code under test: values worth trying, and their neighbours."""
    vals = set()
    for p in paths:
        try:
            with open(p, errors="replace") as f:
                text = f.read()
        except OSError:
            continue
        text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
        text = re.sub(r"//[^\n]*", " ", text)
        for m in re.finditer(r"\b(0[xX][0-9a-fA-F]+|[0-9]+)(?:[uU]|[lL])*\b", text):
            s = m.group(1)
            try:
                v = int(s, 16) if s.lower().startswith("0x") else int(s.lstrip("0") or "0")
            except ValueError:
                continue
            if 2 < v < 2 ** 64:
                vals.add(v)
    # big tables of constants would drown everything else
    small = sorted(v for v in vals if v <= 1 << 20)[:400]
    big = sorted(v for v in vals if v > 1 << 20)[:40]
    return (small + big) or [16]


class Run:
    def __init__(self, cid):
        self.cid = cid
        self.cfg = CHECKS[cid]
        self.work = os.path.join(BUILD, "run.%s.%d" % (cid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.sources = [os.path.join(REPO, s) for s in self.cfg["sources"]]
        self.dict_sources = [os.path.join(REPO, s) for s in self.cfg.get("literals", self.cfg["sources"])]
        self.write_dict()

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def write_dict(self):
        vals = literals(self.dict_sources)
        with open(os.path.join(self.work, "vf_dict_data.h"), "w") as f:
            f.write("static const u64 vf_dict_data[] = { %s };\n" % ", ".join("%dull" % v for v in vals))

    def compile_start(self, build):
        """Start the compilers of one build; returns a list of (process, object, source)."""
        b = BUILDS[build]
        incs = ["-I" + os.path.join(VERIF, "engine"), "-I" + self.work]
        if self.cfg.get("shim"):
            incs.append("-I" + os.path.join(VERIF, "shim", self.cfg["shim"]))
        incs += ["-I" + os.path.join(REPO, d) for d in ("data", "encode", "hash", "mem", "misc", "win32")]
        incs.append("-I" + os.path.join(VERIF, "harness"))
        flags = COMMON + b["flags"] + self.cfg.get("cflags", []) + incs
        procs = []
        harness = os.path.join(VERIF, "harness", self.cfg["harness"])
        units = [(s, ["-DVF_REPO_SOURCE=1"]) for s in self.sources]
        units += [(harness, ['-DVF_PROPERTY="%s"' % self.cid, "-DVF_%s=1" % self.cid])]
        units += [(os.path.join(VERIF, "engine", "vf_dict.c"), [])]
        for i, (s, extra) in enumerate(units):
            obj = os.path.join(self.work, "%s.%d.o" % (build, i))
            p = subprocess.Popen([b["cc"]] + flags + extra + ["-c", s, "-o", obj], stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, text=True, errors="replace")
            procs.append((p, obj, s))
        return procs

    def compile_finish(self, build, procs):
        b = BUILDS[build]
        objs = []
        err = None
        for p, obj, s in procs:
            out, _ = p.communicate()
            if p.returncode != 0 and err is None:
                err = "%s does not compile (%s build):\n%s" % (s, build, out[-4000:])
            objs.append(obj)
        if err:
            raise Broken(err)
        objs += [engine_object(build, "pbt"), engine_object(build, "vf_alloc")]
        exe = os.path.join(self.work, build + ".bin")
        r = sh([b["cc"]] + b["link"] + ["-o", exe] + objs + WRAPFLAGS + ["-Wl,--wrap=" + w for w in self.cfg.get("wrap", [])] + ["-lm", "-lpthread"])
        if r.returncode != 0:
            raise Broken("link failed (%s build):\n%s" % (build, r.stdout[-4000:]))
        return exe

    def env(self):
        e = dict(os.environ)
        e.update(SAN_ENV)
        return e

    def stage(self, exe, st, seed, mult, seconds):
        name = st["name"]
        out = os.path.join(self.work, name + ".json")
        rep = os.path.join(self.work, name + ".replay")
        cases = max(1, int(st["cases"] * (mult if not st.get("fixed") else 1)))
        cmd = [exe, "--seed", str(seed), "--stage", name, "--cases", str(cases), "--workers", str(st.get("workers", 8)),
               "--profile", str(st.get("profile", 0)), "--cpu", str(st.get("cpu", 30)), "--out", out,
               "--hashes", os.path.join(self.work, name + ".hash"), "--replay-out", rep, "--work", self.work,
               "--build", st["build"], "--samples", str(st.get("samples", 3)), "--seconds", "%d" % max(5, seconds)]
        for attempt in (0, 1):
            r = sh(cmd, env=self.env())
            if r.returncode in (0, 1):
                break
            # 3: a worker died without a reproducible cause (killed for memory, starved of CPU)
            sys.stderr.write("stage %s ended with %d: %s\n" % (name, r.returncode, r.stdout[-1500:]))
            if r.returncode != 3:
                raise Broken("stage %s of %s ended with %d" % (name, self.cid, r.returncode))
        if r.returncode not in (0, 1):
            raise Broken("stage %s of %s keeps dying without a reproducible cause" % (name, self.cid))
        with open(out) as f:
            res = json.load(f)
        return res, (rep if r.returncode == 1 else None)

    def hashes(self):
        s = set()
        for fn in os.listdir(self.work):
            if ".hash." in fn:
                a = array.array("Q")
                p = os.path.join(self.work, fn)
                with open(p, "rb") as f:
                    a.frombytes(f.read())
                s.update(a)
        return s

    def fuzz(self, exe, san_exe, st, seed, mult, seconds):
        """Coverage-guided search over the same cases; whatever it finds must be confirmed by the san build."""
        nproc = st.get("procs", 8)
        runs = int(st["runs"] * mult)
        tmax = int(min(st.get("max_time", 40) * (1 if mult <= 1 else min(mult, 10)), max(5, seconds)))
        procs = []
        import random
        rnd = random.Random(seed * 7919 + 13)
        for k in range(nproc):
            d = os.path.join(self.work, "fuzz.%d" % k)
            c = os.path.join(d, "corpus")
            os.makedirs(c, exist_ok=True)
            if k % 2 == 0:          # half of the processes start from nothing
                for j in range(24):
                    with open(os.path.join(c, "s%d" % j), "wb") as f:
                        f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([16, 64, 256, 900]))))
            cmd = [exe, "-runs=%d" % runs, "-seed=%d" % (seed * 100 + k + 1), "-max_len=%d" % st.get("max_len", 1200),
                   "-artifact_prefix=" + d + "/", "-rss_limit_mb=0", "-malloc_limit_mb=0", "-timeout=60", "-detect_leaks=0",
                   "-max_total_time=%d" % tmax, "-print_final_stats=1", "-len_control=0", "-use_value_profile=%d" % (k % 2), c]
            logf = open(os.path.join(d, "log"), "w")
            procs.append((subprocess.Popen(cmd, stdout=logf, stderr=subprocess.STDOUT, env=self.env()), d, logf))
        execs = 0
        cov = 0
        new = 0
        found = None
        unconfirmed = 0
        for p, d, logf in procs:
            p.wait()
            logf.close()
            with open(os.path.join(d, "log"), errors="replace") as f:
                log = f.read()
            m = re.findall(r"stat::number_of_executed_units:\s+(\d+)", log)
            if m:
                execs += int(m[-1])
            else:
                m = re.findall(r"^#(\d+)\s", log, flags=re.M)
                execs += int(m[-1]) if m else 0
            m = re.findall(r"stat::new_units_added:\s+(\d+)", log)
            new += int(m[-1]) if m else 0
            m = re.findall(r"cov: (\d+)", log)
            cov = max(cov, int(m[-1]) if m else 0)
            arts = [a for a in os.listdir(d) if a.startswith(("crash-", "timeout-", "oom-", "leak-"))]
            for a in sorted(arts):
                if found is not None:
                    break
                rep = os.path.join(self.work, "fuzz.replay")
                r = sh([san_exe, "--bytes", os.path.join(d, a), "--replay-out", rep, "--work", self.work,
                        "--cpu", "60", "--build", "san"], env=self.env())
                if r.returncode == 1:
                    found = (rep, r.stdout.strip())
                else:
                    unconfirmed += 1
        return {"stage": "fuzz", "executions": execs, "edges_covered_max": cov, "new_units": new, "processes": nproc,
                "unconfirmed_artifacts": unconfirmed}, found


def load_findings(cid):
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line)
                if m and m.group(1) == cid:
                    out.append((m.group(2), m.group(3)))
    return out


def save_replay(cid, src, seed, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    dst = os.path.join(REPLAYS, "%s-%s-%d.replay" % (cid, tier, seed))
    shutil.copyfile(src, dst)
    return os.path.relpath(dst, VERIF)


def write_evidence(cid, ev):
    os.makedirs(EVIDENCE, exist_ok=True)
    p = os.path.join(EVIDENCE, cid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(p + ".tmp", p)


def run_check(cid, seed, tier):
    t0 = time.time()
    cfg = CHECKS[cid]
    run = Run(cid)
    mult = 1.0 if tier == "quick" else float(cfg.get("thorough", 12))
    only = os.environ.get("VF_STAGES")
    stages = [s for s in cfg["stages"] if not only or s["name"] in only.split(",")]
    viol = None
    results = []
    fuzzres = None
    hashes = set()
    try:
        builds = []
        for s in stages:
            if s["build"] not in builds:
                builds.append(s["build"])
        if "fuzz" in builds and "san" not in builds:
            builds.append("san")
        started = {b: run.compile_start(b) for b in builds}
        exes = {}
        for b in builds:
            try:
                exes[b] = run.compile_finish(b, started[b])
            except Broken as e:
                if b == "fuzz":       # clang is only needed for the extra, coverage-guided stage
                    sys.stderr.write("coverage-guided stage skipped: %s\n" % e)
                    continue
                if b == "msan":
                    sys.stderr.write("stage under the memory sanitizer skipped: %s\n" % e)
                    continue
                raise
            if b == "tsan" and "ThreadSanitizer" in sh([exes[b], "--probe"], env=run.env()).stdout:
                sys.stderr.write("stage under the thread sanitizer skipped: it does not start here\n")
                del exes[b]
            if b == "msan":
                r = sh([exes[b], "--probe"], env=run.env())
                if "MemorySanitizer" in r.stdout and "can not mmap" in r.stdout or "ASLR" in r.stdout:
                    sys.stderr.write("stage under the memory sanitizer skipped: it does not start here\n")
                    del exes[b]
        # a check has 900 s: on a slow machine, stages end before their cases are through
        limit = t0 + (540 if tier == "quick" else 760)
        left = [s for s in stages if s["build"] in exes]
        for k, s in enumerate(left):
            seconds = (limit - time.time()) * (1.0 if k + 1 == len(left) else 0.65)
            if s["build"] == "fuzz":
                fuzzres, found = run.fuzz(exes["fuzz"], exes["san"], s, seed, mult, seconds)
                if found:
                    viol = found
            else:
                res, rep = run.stage(exes[s["build"]], s, seed, mult, seconds)
                res["build"] = s["build"]
                results.append(res)
                if rep:
                    viol = (rep, res["failure"]["kind"] + ": " + res["failure"]["message"])
            if viol:
                break
        hashes = run.hashes()
        labels = {}
        samples = []
        rule = ""
        for r in results:
            rule = r["rule"]
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for smp in r["samples"]:
                smp["stage"] = r["stage"]
                samples.append(smp)
        evaluations = sum(r["evaluations"] for r in results)
        if viol:
            with open(viol[0], errors="replace") as f:
                txt = f.read()
            samples.append({"failing_case": txt[-3000:]})
        cov = {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": "Cases are choice sequences drawn from VERIF_SEED; distinct means distinct choice sequences. Non-trivial: " + rule,
            "samples": samples[:8] or [{"note": "stopped before a sample was taken"}],
            "labels": labels,
            "stages": [{"stage": r["stage"], "build": r["build"], "evaluations": r["evaluations"],
                        "nontrivial_evaluations": r["nontrivial"], "unreproducible": r["unreproducible"],
                        "wall_s": r["wall_s"]} for r in results],
        }
        if fuzzres:
            cov["coverage_guided"] = fuzzres
        ev = {"property": cid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
        if viol:
            for pat, what in load_findings(cid):
                if re.search(pat, viol[1]):
                    print("KNOWN-FINDING: property=%s %s" % (cid, what))
                    ev["violations"] = 0
                    write_evidence(cid, ev)
                    return 0
            path = save_replay(cid, viol[0], seed, tier)
            write_evidence(cid, ev)
            print("what failed: " + viol[1])
            print("VIOLATION property=%s replay=%s" % (cid, path))
            return 1
        write_evidence(cid, ev)
        print("%s: held on %d cases (%d distinct non-trivial)%s, %.1f s" % (
            cid, evaluations, len(hashes),
            ", %d coverage-guided executions" % fuzzres["executions"] if fuzzres else "", time.time() - t0))
        return 0
    finally:
        run.close()


def case_module(name):
    sys.path.insert(0, os.path.join(VERIF, "harness"))
    return importlib.import_module(name)


def run_modules(cid, seed, tier):
    """The checks whose cases are programs (harness/modules.py) or scripts for two systems (harness/narrow.py)."""
    t0 = time.time()
    cfg = CHECKS[cid]
    modules = case_module(cfg["modules"])
    work = os.path.join(BUILD, "run.%s.%d" % (cid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        n = cfg["cases"] * (1 if tier == "quick" else cfg.get("thorough", 12))
        done, distinct, labels, samples, case, fail, suspect = modules.search(REPO, work, seed, n, 300 if tier == "quick" else 700)
        if done == suspect:
            raise Broken("the compilers do not work here")
        cov = {"evaluations": done, "distinct_nontrivial": distinct,
               "rule": cfg.get("what", "Cases are programs drawn from VERIF_SEED; distinct means distinct programs and settings.") + " Non-trivial: " + modules.RULE,
               "samples": samples or [{"note": "stopped before a sample was taken"}], "labels": labels, "compiler_trouble": suspect}
        ev = {"property": cid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if fail else 0}
        if fail:
            text = "%s: %s" % (fail.kind, fail.text)
            cov["samples"] = cov["samples"] + [{"failing_case": case}]
            for pat, what in load_findings(cid):
                if re.search(pat, text):
                    print("KNOWN-FINDING: property=%s %s" % (cid, what))
                    ev["violations"] = 0
                    write_evidence(cid, ev)
                    return 0
            src = os.path.join(work, "failing")
            with open(src, "w") as f:
                f.write("property %s\nbuild %s\ncase %s\n" % (cid, cfg["modules"], json.dumps(case)))
                f.write("".join("# %s\n" % x for x in text.splitlines()))
            path = save_replay(cid, src, seed, tier)
            write_evidence(cid, ev)
            print("what failed: " + text)
            print("VIOLATION property=%s replay=%s" % (cid, path))
            return 1
        write_evidence(cid, ev)
        print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (cid, done, distinct, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay_modules(cid, path):
    modules = case_module(CHECKS[cid]["modules"])
    with open(path, errors="replace") as f:
        case = json.loads(re.search(r"^case (.*)$", f.read(), re.M).group(1))
    work = os.path.join(BUILD, "run.%s.%d" % (cid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        fail = modules.replay(REPO, work, case)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if fail is None:
        print("replay: the property holds on this case")
        return 0
    print("%s: %s" % (fail.kind, fail.text))
    print("VIOLATION property=%s replay=%s" % (cid, path))
    return 1


def replay(path):
    with open(path, errors="replace") as f:
        head = f.read(4000)
    cid = re.search(r"^property (\S+)", head, re.M).group(1)
    build = re.search(r"^build (\S+)", head, re.M).group(1)
    if CHECKS[cid].get("modules"):
        return replay_modules(cid, path)
    run = Run(cid)
    try:
        exe = run.compile_finish(build, run.compile_start(build))
        r = subprocess.run([exe, "--replay", os.path.abspath(path), "--work", run.work], env=run.env())
        return r.returncode
    finally:
        run.close()


def setup():
    for b in BUILDS:
        try:
            engine_object(b, "pbt")
            engine_object(b, "vf_alloc")
        except Broken as e:
            if b != "fuzz":
                raise
            sys.stderr.write(str(e))
    for cid in CHECKS:
        if not os.path.exists(os.path.join(VERIF, "harness", CHECKS[cid]["harness"])):
            raise Broken("missing harness of " + cid)
    print("setup done: %d checks configured" % len(CHECKS))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a == ["--setup"]:
            return setup()
        if a == ["--list"]:
            print("\n".join(CHECKS))
            return 0
        if len(a) == 2 and a[0] == "--replay":
            return replay(a[1])
        if len(a) >= 1 and a[0] in CHECKS:
            tier = os.environ.get("VERIF_TIER", "quick")
            if tier not in ("quick", "thorough"):
                tier = "quick"
            seed = int(os.environ.get("VERIF_SEED", "1") or "1")
            return (run_modules if CHECKS[a[0]].get("modules") else run_check)(a[0], seed, tier)
    except (Broken, RuntimeError) as e:
        sys.stderr.write("BROKEN: %s\n" % e)
        return 2
    sys.stderr.write(__doc__)
    return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
