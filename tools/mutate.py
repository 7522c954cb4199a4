#!/usr/bin/env python3
"""Mutation run: small changes of one source file of /repo, kept when the existing tests still pass,
and the checks which notice them.  Works on scratch copies under /tmp only.

  mutate.py FILE [--checks C01,C02] [--sample N] [--seed S] [--jobs J] [--lines A-B] [--out LOG]
"""
import argparse, os, random, re, shutil, subprocess, sys, threading, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "data/buffer.c": ("C01 C02 C03 C04 C05", "test-buffer.c", "data/buffer.c"),
    "data/buffer.h": ("C01 C02 C03 C04 C05", "test-buffer.c", "data/buffer.c"),
    "data/htable.c": ("C06 C07 C08 C09", "test-htable.c", "data/htable.c"),
    "data/htable.h": ("C06 C07 C08 C09", "test-htable.c", "data/htable.c"),
    "data/rbtree.c": ("C10 C11 C12 C13", "test-rbtree.c", "data/rbtree.c"),
    "data/rbtree.h": ("C10 C11 C12 C13", "test-rbtree.c", "data/rbtree.c"),
    "data/list.h": ("C14 C15 C16 C49", "test-list.c", ""),
    "data/value.c": ("C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C46 C48 C50", "test-value.c", "data/value.c"),
    "data/value.h": ("C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C46 C48 C50", "test-value.c", "data/value.c"),
    "encode/base64.c": ("C29 C30", "test-base64.c", "encode/base64.c"),
    "encode/hex.c": ("C31 C32", "test-hex.c", "encode/hex.c"),
    "hash/crc32.c": ("C33", "test-crc32.c", "hash/crc32.c"),
    "hash/fnv1a.c": ("C34", "test-fnv1a.c", "hash/fnv1a.c"),
    "hash/fnv1a.h": ("C34", "test-fnv1a.c", "hash/fnv1a.c"),
    "mem/malloca.h": ("C35", "test-malloca.c", ""),
    "mem/memchunk.c": ("C36 C37", "test-memchunk.c", "mem/memchunk.c"),
    "mem/memchunk.h": ("C36 C37", "test-memchunk.c", "mem/memchunk.c"),
    "misc/cmdline.c": ("C38 C39 C40", "test-cmdline.c", "misc/cmdline.c"),
    "misc/defs.h": ("C41", "test-defs.c", ""),
    "win32/memstream.c": ("C42 C43", "", "win32/memstream.c"),
}
SWAPS = [(r"<=", ["<", "=="]), (r">=", [">", "=="]), (r"(?<![<\-])<(?![<=])", ["<=", ">"]), (r"(?<![>\-])>(?![>=])", [">=", "<"]),
         (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
         (r"(?<![+\w])\+(?![+=])", ["-"]), (r"(?<![-\w(,=<>])\s-(?![-=>])", [" +"]), (r"\+\+", ["--"]), (r"--", ["++"]),
         (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"<<", [">>"]), (r">>", ["<<"]), (r"(?<!&)&(?![&=\w*(])", ["|"]), (r"(?<!\|)\|(?![|=])", ["&"]),
         (r"\* (?=\w)", ["/ "]), (r" / ", [" * "]), (r" % ", [" / "]),
         (r"\bNULL\b", ["(void*) 1"]), (r"\(size_t\)", ["(unsigned)"]), (r"\bsize_t (?=\w+ ?[=;,)])", ["unsigned ", "int "]), (r"\buint32_t (?=\w+ ?[=;])", ["uint16_t "]),
         (r"\bmemmove\b", ["memcpy"]), (r"\bRED\b", ["BLACK"]), (r"\bBLACK\b", ["RED"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
         (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]), (r"\bprev\b", ["next"]), (r"\bnext\b", ["prev"])]


def mutants(path):
    text = open(path).read()
    # blank out comments, strings and preprocessor includes, keeping positions
    def blank(m): return re.sub(r"[^\n]", " ", m.group(0))
    code = re.sub(r"/\*.*?\*/", blank, text, flags=re.S)
    code = re.sub(r'"(?:\\.|[^"\\\n])*"', blank, code)
    code = re.sub(r"^\s*#\s*(include|if|ifdef|ifndef|elif|else|endif|error).*$", blank, code, flags=re.M)
    out = []
    for pat, reps in SWAPS:
        for m in re.finditer(pat, code):
            for r in reps:
                out.append((m.start(), m.end(), r))
    for m in re.finditer(r"\b(0x[0-9a-fA-F]+|[0-9]+)(?=[uUlL]*\b)", code):
        v = int(m.group(1), 16) if m.group(1).startswith("0x") else int(m.group(1))
        for d in (1, -1):
            if v + d >= 0:
                out.append((m.start(), m.end(), str(v + d)))
    for m in re.finditer(r"\bif\(|\bwhile\(", code):
        depth, i = 1, m.end()
        while i < len(code) and depth:
            depth += {"(": 1, ")": -1}.get(code[i], 0)
            i += 1
        cond = text[m.end():i - 1]
        out.append((m.end(), i - 1, "!(" + cond + ")"))
        if m.group(0).startswith("if"):
            out.append((m.end(), i - 1, "0 && (" + cond + ")"))
            out.append((m.end(), i - 1, "1 || (" + cond + ")"))
    for m in re.finditer(r"^[ \t]+[^\n{}#]*;[ \t]*$", code, flags=re.M):
        s = m.group(0).strip()
        if not re.match(r"^(const |static |struct |unsigned |int |size_t |char |void |return;|VALUE |u?int\d+_t |BUFFER |\w+\*+ \w+ ?[;=])", s):
            out.append((m.start(), m.end(), "    ;"))
    for m in re.finditer(r"\breturn ([^;]+);", code):
        e = text[m.start(1):m.end(1)]
        if e != "0": out.append((m.start(1), m.end(1), "0"))
        if e not in ("-1",): out.append((m.start(1), m.end(1), "-1"))
    return text, sorted(set(out))


def sh(cmd, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("--checks"); ap.add_argument("--sample", type=int); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=3); ap.add_argument("--lines"); ap.add_argument("--out"); ap.add_argument("--full", action="store_true"); ap.add_argument("--san", action="store_true", help="only the first stage of each check")
    a = ap.parse_args()
    checks, test, src = MAP[a.file]
    checks = a.checks.split(",") if a.checks else checks.split()
    text, ms = mutants(os.path.join("/repo", a.file))
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ms = [m for m in ms if lo <= text.count("\n", 0, m[0]) + 1 <= hi]
    random.Random(a.seed).shuffle(ms)
    if a.sample: ms = ms[:a.sample]
    q = queue.Queue()
    for i, m in enumerate(ms): q.put((i, m))
    log = open(a.out or "/tmp/mut." + a.file.replace("/", ".") + ".log", "a")
    lock = threading.Lock()
    stat = {}

    def worker(w):
        root = "/tmp/mutate.%d.%d" % (os.getpid(), w)
        repo, verif = root + "/repo", root + "/verif"
        os.makedirs(root)
        sh(["cp", "-a", "/repo", repo]); shutil.rmtree(repo + "/_build", ignore_errors=True); shutil.rmtree(repo + "/.git", ignore_errors=True)
        os.makedirs(verif)
        for n in ("engine", "harness", "shim", "check.py", "config.py", "known-findings.txt"):
            sh(["cp", "-a", os.path.join(VERIF, n), verif])
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
        while True:
            try: i, (s, e, r) = q.get_nowait()
            except queue.Empty: break
            mut = text[:s] + r + text[e:]
            line = text.count("\n", 0, s) + 1
            open(os.path.join(repo, a.file), "w").write(mut)
            verdict = None
            if test:
                cmd = ["gcc", "-g", "-w", "-o", root + "/t", repo + "/tests/" + test]
                if src: cmd.append(os.path.join(repo, src))
                cmd += ["-I" + repo + "/" + d for d in ("data", "encode", "hash", "mem", "misc", "tests")] + ["-DCRE_TEST", "-lm"]
                c = sh(cmd)
                if c.returncode: verdict = "nobuild"
                else:
                    t = sh(["timeout", "-k", "1", "10", root + "/t", "--no-summary"], cwd=root)
                    if t is None or t.returncode: verdict = "tests"
            if verdict is None:
                for stages in (["san"],) if a.san else (["san"], None) if not a.full else (None,):
                    for c in checks:
                        ev = dict(env)
                        if stages: ev["VF_STAGES"] = ",".join(stages)
                        p = sh([sys.executable, verif + "/check.py", c], env=ev, cwd=verif, timeout=1200)
                        if p is None: verdict = "TIMEOUT " + c; break
                        if p.returncode == 1: verdict = "caught " + c; break
                        if p.returncode != 0: verdict = "BROKEN " + c + " " + p.stdout[-300:]; break
                    if verdict: break
                if verdict is None: verdict = "SURVIVED"
            k = verdict.split()[0]
            with lock:
                stat[k] = stat.get(k, 0) + 1
                if k not in ("nobuild", "tests"):
                    ln = text.split("\n")[line - 1].strip()
                    log.write("%s %s:%d [%s] -> [%s] in: %s\n" % (verdict, a.file, line, text[s:e].replace("\n", " ")[:80], r.replace("\n", " ")[:90], ln[:110]))
                    log.flush()
        shutil.rmtree(root, ignore_errors=True)

    th = [threading.Thread(target=worker, args=(w,)) for w in range(a.jobs)]
    for t in th: t.start()
    for t in th: t.join()
    log.write("TOTAL %s %s\n" % (a.file, stat)); log.close()
    print(a.file, stat)


main()
