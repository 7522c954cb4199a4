"""C52: the modules on a 32-bit system.

A case is a script (module, seed, number of steps).  The same program is built for the 64-bit system
and, three times, for a 32-bit one, where it brings its own C library (narrow/mini.c); both have
to give the same answers.  Without a compiler, linker or system that can do it, the check falls back
to another 64-bit build and says so in its evidence.
"""
import collections
import concurrent.futures
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))
NARROW = os.path.join(HERE, "narrow")
SHIM = os.path.join(os.path.dirname(HERE), "shim", "win32")
DIRS = ["data", "encode", "hash", "mem", "misc", "win32"]
SOURCES = ["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c",
           "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"]
MODULES = ["buffer", "htable", "rbtree", "list", "value", "base64", "hex", "crc32", "fnv1a", "memchunk", "malloca", "cmdline", "defs",
           "sizes", "announced", "numbers", "paths", "memstream"]
WEIGHT = {"value": 3, "buffer": 2, "sizes": 3, "paths": 3, "numbers": 2, "memstream": 2, "defs": 1}
RENAME = ["-D%s=nw_%s" % (x, x) for x in ("malloc", "calloc", "realloc", "free", "strdup", "strndup", "reallocarray")]
BASE = ["-w", "-std=gnu11", "-D_GNU_SOURCE", "-fwrapv"]
M32 = ["-m32", "-DNW_32", "-msse2", "-mfpmath=sse", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-D__NO_CTYPE", "-fno-asynchronous-unwind-tables"]
UB = ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error", "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,shift,object-size"]
BUILDS = [("wide", "gcc", ["-O2"]), ("narrow gcc", "gcc", ["-O2"] + M32), ("narrow trapping", "gcc", ["-O1"] + M32 + UB), ("narrow clang", "clang", ["-O2"] + M32)]
RULE = "three steps or more, with an answer of the module after each"


class Failure(Exception):
    def __init__(self, kind, text):
        super().__init__(kind, text)
        self.kind = kind
        self.text = text


class Suspect(Exception):
    pass


class Lab:
    def __init__(self, repo, work):
        self.repo = repo
        self.work = work
        self.notes = []
        self.inc = [x for d in DIRS for x in ("-I", os.path.join(repo, d))] + ["-I", SHIM, "-I", NARROW]
        os.makedirs(os.path.join(work, "inc", "gnu"), exist_ok=True)
        open(os.path.join(work, "inc", "gnu", "stubs-32.h"), "w").close()
        multi = subprocess.run(["gcc", "-print-multiarch"], capture_output=True, text=True).stdout.strip() or "x86_64-linux-gnu"
        self.sys32 = ["-isystem", "/usr/include/" + multi, "-I", os.path.join(work, "inc")]
        self.programs = []

    def run_cc(self, cmd):
        r = subprocess.run(cmd, cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0 and (r.returncode < 0 or "internal compiler error" in r.stdout or "due to signal" in r.stdout or "No space left" in r.stdout or "Killed" in r.stdout):
            raise Suspect(r.stdout[-500:])
        return r

    def build(self, name, cc, flags):
        """The program, or None with a note.  Failure if the sources cannot be meant for such a system."""
        narrow = "-m32" in flags
        if narrow:
            flags = flags + self.sys32
        d = os.path.join(self.work, name.replace(" ", "_"))
        os.makedirs(d, exist_ok=True)
        jobs = []
        for s in SOURCES:
            jobs.append((s, [cc] + BASE + RENAME + flags + self.inc + ["-c", os.path.join(self.repo, s), "-o", os.path.join(d, os.path.basename(s) + ".o")]))
        jobs.append((None, [cc] + BASE + RENAME + flags + self.inc + ["-c", os.path.join(NARROW, "main.c"), "-o", os.path.join(d, "main.o")]))
        own = [f for f in flags if f not in UB]
        jobs.append((None, [cc] + BASE + own + self.inc + ["-c", os.path.join(NARROW, "alloc.c"), "-o", os.path.join(d, "alloc.o")]))
        if narrow:
            own = ["-w", "-O2"] + M32 + self.sys32
            jobs.append((None, ["gcc", "-ffreestanding"] + own + ["-c", os.path.join(NARROW, "mini.c"), "-o", os.path.join(d, "mini.o")]))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            done = list(ex.map(lambda j: self.run_cc(j[1]), jobs))
        for (s, cmd), r in zip(jobs, done):
            if r.returncode != 0:
                first = re.search(r"^(\S+?):\d+:(?:\d+:)? (?:fatal )?error: (.*)$", r.stdout, re.M)
                if narrow and s and first and os.path.abspath(first.group(1)).startswith(os.path.abspath(self.repo) + os.sep) and "No such file" not in first.group(2):
                    raise Failure("compile", "%s does not compile for a 32-bit system (%s):\n%s" % (s, cc, r.stdout[-1500:]))
                self.notes.append("%s: %s: %s" % (name, s or "the program", r.stdout.strip()[:300]))
                return None
        exe = os.path.join(d, "prog")
        objs = [j[1][-1] for j in jobs]
        r = self.run_cc(["gcc"] + (["-m32", "-static", "-nostdlib"] if narrow else []) + objs + ["-o", exe])
        if r.returncode != 0:
            self.notes.append("%s: %s" % (name, r.stdout.strip()[-300:]))
            return None
        out, why = self.feed(exe, [])
        if why is not None:
            self.notes.append("%s does not run here: %s" % (name, why))
            return None
        return exe

    def build_all(self):
        for name, cc, flags in BUILDS:
            exe = self.build(name, cc, flags)
            if exe is not None:
                self.programs.append((name, exe))
            elif name == "wide":
                raise Failure("compile", "the program: " + self.notes[-1])
        if len(self.programs) == 1:
            exe = self.build("wide, not optimized", "gcc", ["-O0"])
            if exe is not None:
                self.programs.append(("wide, not optimized", exe))

    @staticmethod
    def feed(exe, cases, timeout=60):
        """The answers, and why there are not as many as questions."""
        text = "".join("%s %d %d\n" % (c["module"], c["seed"], c["steps"]) for c in cases)
        try:
            r = subprocess.run([exe], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            lines = r.stdout.decode(errors="replace").splitlines()
            rc = r.returncode
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b"").decode(errors="replace").splitlines()
            rc = "timeout"
        why = None
        answers = [x for x in lines if re.fullmatch("[0-9a-f]{16}", x)]
        bad = [x for x in lines if x.startswith("fail: ")]
        if rc == -9:
            raise Suspect("killed")
        if rc != 0 or len(answers) < len(cases):
            why = bad[0][6:] if bad else "it does not end within %d s" % timeout if rc == "timeout" else "it dies of signal %d" % -rc if rc < 0 else "it ends with %d" % rc
        return answers, why

    def outcome(self, exe, case):
        a, why = self.feed(exe, [case], 60)
        return a[0] if a else why

    def check(self, case):
        """None or a Failure; looked at more than once."""
        for attempt in range(3):
            try:
                want = self.outcome(self.programs[0][1], case)
                if not re.fullmatch("[0-9a-f]{16}", want):
                    return None             # fails everywhere: not a matter of the system
                for name, exe in self.programs[1:]:
                    got = [self.outcome(exe, case) for _ in range(2)]
                    if all(g != want for g in got):
                        return Failure("answer", "%s, seed %d, %d steps: %s on the 64-bit system, %s with %s" % (case["module"], case["seed"], case["steps"], want, got[0], name))
                return None
            except Suspect:
                time.sleep(1)
        return None

    def batch(self, cases):
        """The first case the programs disagree about, or None; and the number looked at."""
        todo = list(cases)
        while todo:
            want, why = self.feed(self.programs[0][1], todo, 120)
            n = len(want)
            for name, exe in self.programs[1:]:
                got, why32 = self.feed(exe, todo[:n], 120)
                for k in range(n):
                    if k >= len(got) or got[k] != want[k]:
                        return todo[k]
            todo = todo[n + 1:]
        return None

    def shrink(self, case, fail, budget=40):
        t0 = time.time()
        again = True
        while again and time.time() - t0 < budget:
            again = False
            tries = [dict(case, steps=s) for s in (0, 1, 2, case["steps"] // 2, case["steps"] - 1) if 0 <= s < case["steps"]]
            tries += [dict(case, seed=s) for s in (0, 1, 2, 3, 4, 5, 6, 7) if s < case["seed"]]
            for n in tries:
                f = self.check(n)
                if f is not None:
                    case, fail, again = n, f, True
                    break
        return case, fail


def search(repo, work, seed, cases, max_time, procs=8):
    t0 = time.time()
    lab = Lab(repo, work)
    try:
        lab.build_all()
    except Failure as f:
        if f.text.startswith("the program"):
            raise RuntimeError(f.text)
        return 1, 0, {}, [], {"module": "compile", "seed": 0, "steps": 0}, f, 0
    rnd = random.Random(seed)
    names = [m for m in MODULES for _ in range(WEIGHT.get(m, 1))]
    labels = collections.Counter()
    for n in lab.notes:
        labels["not built: " + n] += 1
    for name, exe in lab.programs:
        labels["program: " + name] += 1
    hashes, samples, bad, done, suspect = set(), [], None, 0, 0

    def draw(k):
        out = []
        for _ in range(k):
            out.append({"module": rnd.choice(names), "seed": rnd.randrange(1 << rnd.choice([8, 30, 40])), "steps": rnd.choice([1, 3, 10, 10, 40, 40, 100, 300])})
        return out

    def account(cs):
        nonlocal done
        for c in cs:
            done += 1
            labels["module " + c["module"]] += 1
            if c["steps"] >= 3:
                hashes.add("%s %d %d" % (c["module"], c["seed"], c["steps"]))
                if len(samples) < 3:
                    samples.append(c)

    def attempt(cs):
        try:
            return lab.batch(cs), False
        except Suspect:
            return None, True

    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        while done < cases and bad is None and time.time() - t0 < max_time:
            work_list = [draw(min(200, max(1, cases // procs))) for _ in range(procs)]
            for cs, (b, sus) in zip(work_list, ex.map(attempt, work_list)):
                if sus:
                    suspect += len(cs)
                account(cs)
                if b is not None and bad is None:
                    f = lab.check(b)
                    if f is not None:
                        bad = (b, f)
    if bad is None:                     # gigabytes: one after the other
        big = [{"module": "giants", "seed": rnd.randrange(1 << 30), "steps": rnd.choice([3, 8, 12])} for _ in range(max(4, cases // 1200))]
        for k in range(0, len(big), 8):
            if time.time() - t0 > max_time:
                break
            b, sus = attempt(big[k:k + 8])
            account(big[k:k + 8])
            if b is not None:
                f = lab.check(b)
                if f is not None:
                    bad = (b, f)
                    break
    if bad is not None:
        case, fail = lab.shrink(*bad)
        return done, len(hashes), dict(labels), samples, case, fail, suspect
    return done, len(hashes), dict(labels), samples, None, None, suspect


def replay(repo, work, case):
    lab = Lab(repo, work)
    try:
        lab.build_all()
    except Failure as f:
        return f
    return None if case["module"] == "compile" else lab.check(case)
