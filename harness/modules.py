"""C45: every module stands for itself.

A case is a program: some of the modules, their files alone in a folder (next to the script of the
program, scen.h), one to three sources in C or C++ which include the headers in some order, and for
every source and every library file a compiler, a language version and some options.  The
program has to compile, link and run, and what each module answered has to be what it answered
in the reference program (the module alone, one C source, gcc -O1).
"""
import concurrent.futures
import hashlib
import json
import os
import random
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.abspath(__file__))

MODULES = {
    "buffer": ("data", ["buffer.h", "buffer.c"]), "htable": ("data", ["htable.h", "htable.c"]), "rbtree": ("data", ["rbtree.h", "rbtree.c"]),
    "list": ("data", ["list.h"]), "value": ("data", ["value.h", "value.c"]), "base64": ("encode", ["base64.h", "base64.c"]),
    "hex": ("encode", ["hex.h", "hex.c"]), "crc32": ("hash", ["crc32.h", "crc32.c"]), "fnv1a": ("hash", ["fnv1a.h", "fnv1a.c"]),
    "memchunk": ("mem", ["memchunk.h", "memchunk.c"]), "malloca": ("mem", ["malloca.h"]), "cmdline": ("misc", ["cmdline.h", "cmdline.c"]),
    "defs": ("misc", ["defs.h"]),
}
NAMES = list(MODULES)
CSTD = ["gnu99", "c99", "gnu11", "c11", "gnu17", "c17", "c2x", "gnu2x"]
XSTD = ["c++98", "gnu++98", "c++03", "c++11", "gnu++14", "c++17", "gnu++17", "c++20", "c++23"]
OPT = ["-O0", "-O1", "-O2", "-O3", "-Os"]
EXTRA = ["-funsigned-char", "-fsigned-char", "-D_FORTIFY_SOURCE=2", "-DNDEBUG", "-fPIC", "-fno-builtin", "-fno-strict-aliasing", "-fno-inline",
         "-fstack-protector-all", "-D_GNU_SOURCE", "-D_POSIX_C_SOURCE=200809L", "-DCRE_TEST", "-fno-common", "-fwrapv", "-funroll-loops", "-U__OPTIMIZE__",
         "-ftrivial-auto-var-init=pattern", "-fvisibility=hidden", "-ffunction-sections", "-fexceptions", "-fno-delete-null-pointer-checks",
         "-D_FILE_OFFSET_BITS=64", "-D_XOPEN_SOURCE=700", "-D_DEFAULT_SOURCE", "-pthread"]
SYSTEM = ["stdio.h", "string.h", "stddef.h", "limits.h", "math.h", "ctype.h", "stdint.h", "stdlib.h", "errno.h", "sys/types.h", "unistd.h", "assert.h"]
DEFAULT = {"cc": "gcc", "std": "gnu11", "opt": "-O1", "extra": []}
DEFAULTX = {"cc": "gcc", "std": "gnu++17", "opt": "-O1", "extra": []}
RULE = ("two modules or more or two sources or more, at least ten steps, and at least one compiler, language version or option "
        "that differs from the reference build")


def tool(cc, lang):
    return {"gcc": {"c": "gcc", "c++": "g++"}, "clang": {"c": "clang", "c++": "clang++"}}[cc][lang]


class Suspect(Exception):
    """The compiler did not fail because of the source."""


class Failure(Exception):
    def __init__(self, kind, text):
        super().__init__(kind, text)
        self.kind = kind
        self.text = text


class Lab:
    def __init__(self, repo, work):
        self.repo = repo
        self.work = work
        self.cache = os.path.join(work, "lib")
        os.makedirs(self.cache, exist_ok=True)
        self.settings = {}
        for lang, stds in (("c", CSTD), ("c++", XSTD)):
            src = os.path.join(work, "probe." + ("c" if lang == "c" else "cpp"))
            with open(src, "w") as f:
                f.write("#include <stdlib.h>\nint main(void) { return 0; }\n")
            ok = []
            for cc in ("gcc", "clang"):
                for std in stds:
                    try:
                        r = subprocess.run([tool(cc, lang), "-w", "-std=" + std, "-c", src, "-o", src + ".o"], capture_output=True)
                    except OSError:
                        break
                    if r.returncode == 0:
                        ok.append((cc, std))
            self.settings[lang] = ok
        self.extra = []
        for e in EXTRA:
            src = os.path.join(work, "probe.c")
            if all(subprocess.run([tool(cc, "c"), "-w", "-O2", e, "-c", src, "-o", src + ".o"], capture_output=True).returncode == 0
                   for cc in {cc for cc, _ in self.settings["c"]}):
                self.extra.append(e)
        self.ref = {}

    # ---- generation -----------------------------------------------------------------------
    def setting(self, rnd, lang):
        d = dict(DEFAULT if lang == "c" else DEFAULTX)
        for what in ("cc", "opt", "extra"):
            if rnd.random() < 0.6:
                if what == "cc":
                    d["cc"], d["std"] = rnd.choice(self.settings[lang])
                elif what == "opt":
                    d["opt"] = rnd.choice(OPT)
                else:
                    d["extra"] = rnd.sample(self.extra, min(len(self.extra), rnd.choice([1, 1, 2, 4])))
        if rnd.random() < 0.35 and "-funsigned-char" in self.extra:
            d["extra"] = [e for e in d["extra"] if "signed-char" not in e] + ["-funsigned-char"]
        return d

    def generate(self, rnd):
        k = rnd.choice([1, 1, 2, 2, 3, 4, 6, 13])
        mods = rnd.sample(NAMES, k)
        tus = []
        for _ in range(rnd.choice([1, 1, 2, 2, 3])):
            use = rnd.sample(mods, rnd.randint(1, len(mods))) if rnd.random() < 0.5 else list(mods)
            heads = use + [m for m in mods if m not in use and rnd.random() < 0.5]
            rnd.shuffle(heads)
            if rnd.random() < 0.3:
                heads += [rnd.choice(heads)]
            lang = rnd.choice(["c", "c++"])
            tus.append({"lang": lang, "use": use, "headers": heads, "set": self.setting(rnd, lang),
                        "system": rnd.sample(SYSTEM, rnd.choice([0, 0, 0, 1, 3]))})
        return {"modules": mods, "tus": tus, "libs": {m: self.setting(rnd, "c") for m in mods if len(MODULES[m][1]) > 1},
                "seed": rnd.randrange(1 << 40), "steps": rnd.choice([5, 40, 40, 200, 400])}

    @staticmethod
    def nontrivial(case):
        odd = any(t["lang"] == "c++" or t["set"] != DEFAULT for t in case["tus"]) or any(s != DEFAULT for s in case["libs"].values())
        return (len(case["modules"]) > 1 or len(case["tus"]) > 1) and case["steps"] >= 10 and odd

    # ---- one case -------------------------------------------------------------------------
    def compile(self, cmd, cwd):
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0 and (r.returncode < 0 or "internal compiler error" in r.stdout or "Killed signal" in r.stdout or "signal terminated" in r.stdout or "due to signal" in r.stdout
                                  or "No space left" in r.stdout or "Cannot allocate" in r.stdout):
            raise Suspect(r.stdout[-500:])
        return r

    def copy(self, m, d):
        sub, files = MODULES[m]
        for fn in files:
            shutil.copyfile(os.path.join(self.repo, sub, fn), os.path.join(d, fn))

    @staticmethod
    def flags(s):
        return ["-w", "-std=" + s["std"], s["opt"]] + s["extra"]

    def library(self, m, s):
        key = hashlib.sha256(json.dumps([m, s], sort_keys=True).encode()).hexdigest()[:24]
        d = os.path.join(self.cache, key)
        obj = os.path.join(d, "obj.o")
        if os.path.exists(obj):
            return obj
        t = d + ".%d" % os.getpid()
        os.makedirs(t, exist_ok=True)
        self.copy(m, t)
        r = self.compile([tool(s["cc"], "c")] + self.flags(s) + ["-c", m + ".c", "-o", "obj.o"], t)
        if r.returncode != 0:
            shutil.rmtree(t, ignore_errors=True)
            raise Failure("compile", "%s.c alone, %s %s:\n%s" % (m, tool(s["cc"], "c"), " ".join(self.flags(s)), r.stdout[-1500:]))
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
        return obj

    def run(self, case):
        d = os.path.join(self.work, "case.%d" % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            for m in case["modules"]:
                self.copy(m, d)
            shutil.copyfile(os.path.join(HERE, "scen.h"), os.path.join(d, "scen.h"))
            objs = []
            for k, t in enumerate(case["tus"]):
                src = "tu%d.%s" % (k, "c" if t["lang"] == "c" else "cpp")
                with open(os.path.join(d, src), "w") as f:
                    for h in t["system"]:
                        f.write("#include <%s>\n" % h)
                    for h in t["headers"]:
                        f.write('#include "%s.h"\n' % h)
                    f.write("#define SC_TU %d\n" % k)
                    for m in t["use"]:
                        f.write("#define SC_%s\n" % m)
                    f.write('#include "scen.h"\n')
                    if k == 0:
                        for j, u in enumerate(case["tus"]):
                            for m in u["use"]:
                                f.write("SC_C uint64_t sc_%s_%d(uint64_t, unsigned);\n" % (m, j))
                        f.write("int main(void)\n{\n")
                        for j, u in enumerate(case["tus"]):
                            for m in u["use"]:
                                f.write('    printf("%s %d %%lx\\n", (unsigned long) sc_%s_%d(%du, %d)); fflush(stdout);\n' % (m, j, m, j, case["seed"], case["steps"]))
                        f.write("    return 0;\n}\n")
                s = t["set"]
                cmd = [tool(s["cc"], t["lang"])] + self.flags(s) + ["-c", src, "-o", "tu%d.o" % k]
                r = self.compile(cmd, d)
                if r.returncode != 0:
                    raise Failure("compile", "%s\n%s" % (" ".join(cmd), r.stdout[-1500:]))
                objs.append("tu%d.o" % k)
            libs = [self.library(m, s) for m, s in sorted(case["libs"].items()) if m in case["modules"]]
            ld = "g++" if any(t["lang"] == "c++" for t in case["tus"]) else "gcc"
            r = self.compile([ld] + objs + libs + ["-o", "prog"], d)
            if r.returncode != 0:
                raise Failure("link", r.stdout[-1500:])
            try:
                r = subprocess.run([os.path.join(d, "prog")], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
            except subprocess.TimeoutExpired:
                raise Failure("run", "the program does not end within 60 s")
            if r.returncode == -9:
                raise Suspect("the program was killed")
            if r.returncode != 0:
                raise Failure("run", "the program ended with %d:\n%s" % (r.returncode, r.stdout[-800:]))
            return [tuple(x.split()) for x in r.stdout.splitlines()]
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def reference(self, m, seed, steps):
        key = (m, seed, steps)
        if key not in self.ref:
            exe = os.path.join(self.work, "ref." + m)
            case = {"modules": [m], "tus": [{"lang": "c", "use": [m], "headers": [m], "set": DEFAULT, "system": []}],
                    "libs": {m: DEFAULT} if len(MODULES[m][1]) > 1 else {}, "seed": seed, "steps": steps}
            if not os.path.exists(exe):
                d = exe + ".d.%d" % os.getpid()
                os.makedirs(d, exist_ok=True)
                self.copy(m, d)
                shutil.copyfile(os.path.join(HERE, "scen.h"), os.path.join(d, "scen.h"))
                with open(os.path.join(d, "ref_main.c"), "w") as f:
                    f.write('#include "%s.h"\n#define SC_TU 0\n#define SC_%s\n#include "scen.h"\nint main(int argc, char** argv)\n{\n'
                            '    printf("%%lx\\n", (unsigned long) sc_%s_0(strtoul(argv[1], NULL, 10), (unsigned) atoi(argv[2])));\n    return 0;\n}\n' % (m, m, m))
                cmd = ["gcc"] + self.flags(DEFAULT) + ["ref_main.c"] + ([m + ".c"] if len(MODULES[m][1]) > 1 else []) + ["-o", "ref"]
                r = self.compile(cmd, d)
                if r.returncode != 0:
                    shutil.rmtree(d, ignore_errors=True)
                    raise Failure("compile", "the module alone: %s\n%s" % (" ".join(cmd), r.stdout[-1500:]))
                os.rename(os.path.join(d, "ref"), exe)
                shutil.rmtree(d, ignore_errors=True)
            r = subprocess.run([exe, str(seed), str(steps)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
            if r.returncode == -9:
                raise Suspect("the program was killed")
            if r.returncode != 0:
                raise Failure("run", "the reference program of %s ended with %d:\n%s" % (m, r.returncode, r.stdout[-800:]))
            self.ref[key] = r.stdout.strip()
        return self.ref[key]

    def check(self, case):
        """None or a Failure."""
        for attempt in (0, 1, 2):
            try:
                want = {m: self.reference(m, case["seed"], case["steps"]) for t in case["tus"] for m in t["use"]}
                got = self.run(case)
                for m, k, dig in got:
                    if dig != want[m]:
                        raise Failure("answer", "source %s: the module %s answers %s here and %s in the reference program" % (k, m, dig, want[m]))
                if len(got) != sum(len(t["use"]) for t in case["tus"]):
                    raise Failure("run", "the program ended early")
                return None
            except Failure as f:
                return f
            except Suspect as e:
                err = e
                time.sleep(0.5)
        raise err

    # ---- shrinking ------------------------------------------------------------------------
    def candidates(self, c):
        def clone():
            return json.loads(json.dumps(c))
        for k in range(len(c["tus"])):
            if len(c["tus"]) > 1:
                n = clone(); del n["tus"][k]; yield n
        for m in c["modules"]:
            if len(c["modules"]) > 1:
                n = clone()
                n["modules"].remove(m)
                n["libs"].pop(m, None)
                for t in n["tus"]:
                    t["use"] = [x for x in t["use"] if x != m]
                    t["headers"] = [x for x in t["headers"] if x != m]
                n["tus"] = [t for t in n["tus"] if t["use"]]
                if n["tus"]:
                    yield n
        for k, t in enumerate(c["tus"]):
            if t["system"]:
                n = clone(); n["tus"][k]["system"] = []; yield n
            if t["headers"] != t["use"]:
                n = clone(); n["tus"][k]["headers"] = list(t["use"]); yield n
            if len(t["use"]) > 1:
                for m in t["use"]:
                    n = clone(); n["tus"][k]["use"] = [x for x in t["use"] if x != m]; yield n
            if t["lang"] == "c++":
                n = clone(); n["tus"][k]["lang"] = "c"; n["tus"][k]["set"] = dict(DEFAULT); yield n
        for path in [("tus", k, "set") for k in range(len(c["tus"]))] + [("libs", m) for m in c["libs"]]:
            s = c
            for p in path:
                s = s[p]
            base = DEFAULTX if path[0] == "tus" and c["tus"][path[1]]["lang"] == "c++" else DEFAULT
            for what in ("extra", "opt", "cc", "std"):
                if s[what] != base[what]:
                    n = clone()
                    q = n
                    for p in path:
                        q = q[p]
                    q[what] = base[what]
                    yield n
        for st in (1, c["steps"] // 2, c["steps"] - 1):
            if 0 < st < c["steps"]:
                n = clone(); n["steps"] = st; yield n
        if c["seed"] > 9:
            n = clone(); n["seed"] = c["seed"] % 10; yield n

    def shrink(self, case, fail, budget=60):
        t0 = time.time()
        again = True
        while again and time.time() - t0 < budget:
            again = False
            for n in self.candidates(case):
                if time.time() - t0 > budget:
                    break
                f = self.check(n)
                if f is not None and f.kind == fail.kind:
                    case, fail, again = n, f, True
                    break
        return case, fail


LAB = None


def work_one(args):
    seed, k = args
    rnd = random.Random(seed * 1000003 + k)
    case = LAB.generate(rnd)
    try:
        return k, case, LAB.check(case), None
    except Suspect as e:
        return k, case, None, str(e)


def search(repo, work, seed, cases, max_time, procs=8):
    """Returns (number of cases, distinct nontrivial, labels, samples, failing case or None, failure)."""
    global LAB
    t0 = time.time()
    LAB = Lab(repo, work)
    for m in NAMES:                     # the reference programs, before the workers are forked
        case = {"modules": [m], "tus": [{"lang": "c", "use": [m], "headers": [m], "set": dict(DEFAULT), "system": []}],
                "libs": {m: dict(DEFAULT)} if len(MODULES[m][1]) > 1 else {}, "seed": 1, "steps": 5}
        f = LAB.check(case)
        if f is not None:
            return 1, 0, {}, [], case, f, 0
    done = 0
    suspect = 0
    hashes = set()
    labels = {}
    samples = []
    bad = None
    with concurrent.futures.ProcessPoolExecutor(procs) as ex:
        batch = 0
        while done < cases and bad is None and time.time() - t0 < max_time:
            n = min(procs * 12, cases - done)
            for k, case, fail, sus in ex.map(work_one, [(seed, batch + j) for j in range(n)], chunksize=2):
                done += 1
                if sus is not None:
                    suspect += 1
                    continue
                if LAB.nontrivial(case):
                    hashes.add(hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest())
                for lab in set(["module " + m for m in case["modules"]] + ["language " + t["lang"] for t in case["tus"]]
                               + ["std " + t["set"]["std"] for t in case["tus"]] + ["sources %d" % len(case["tus"])]
                               + ["library " + s["cc"] + " " + s["opt"] for s in case["libs"].values()]):
                    labels[lab] = labels.get(lab, 0) + 1
                if len(samples) < 3 and LAB.nontrivial(case) and len(json.dumps(case)) < 2500:
                    samples.append(case)
                if fail is not None and bad is None:
                    bad = (case, fail)
            batch += n
    if bad is not None:
        case, fail = LAB.shrink(*bad)
        return done, len(hashes), labels, samples, case, fail, suspect
    return done, len(hashes), labels, samples, None, None, suspect


def replay(repo, work, case):
    lab = Lab(repo, work)
    return lab.check(case)
