"""What every check consists of: harness, sources of /repo it is linked with, stages and case counts."""

HT = dict(sources=["data/htable.c"], harness="htable.c")
RB = dict(sources=["data/rbtree.c"], harness="rbtree.c")
LI = dict(sources=[], literals=["data/list.h"], harness="lists.c")
BUF = dict(sources=["data/buffer.c"], literals=["data/buffer.c"])

VA = dict(sources=["data/value.c"])

B64 = dict(sources=["encode/base64.c"], literals=["encode/base64.c"], harness="encode.c")
MC = dict(sources=["mem/memchunk.c"], literals=["mem/memchunk.c", "mem/memchunk.h"], harness="memchunk.c")
CL = dict(sources=["misc/cmdline.c"], literals=["misc/cmdline.c"], harness="cmdline.c")
MS = dict(sources=["win32/memstream.c"], literals=["win32/memstream.c"], harness="memstream.c", shim="win32", cflags=["-fwrapv"])
HEX = dict(sources=["encode/hex.c"], literals=["encode/hex.c"], harness="encode.c")


def pbt(san, fast, fuzz=0, giant=0, **kw):
    """The usual stages: small cases under the sanitizers, bigger ones without, coverage-guided search."""
    st = [dict(name="san", build="san", profile=0, cases=san, workers=8),
          dict(name="fast", build="fast", profile=1, cases=fast, workers=8)]
    if giant:
        st.append(dict(name="giant", build="fast", profile=2, cases=giant, workers=kw.get("giant_workers", 4), cpu=200, fixed=kw.get("giant_workers", 4) < 8,
                       samples=kw.get("giant_samples", 1)))
    if fuzz:
        st.append(dict(name="fuzz", build="fuzz", runs=fuzz, procs=8, max_time=kw.get("fuzz_time", 8), max_len=kw.get("max_len", 1200)))
    return st


CHECKS = {
    "C01": dict(BUF, harness="c01_buffer.c", stages=pbt(300000, 200000, 60000, giant=12, giant_workers=3, giant_samples=0)),
    "C02": dict(BUF, harness="c02_capacity.c", stages=pbt(120000, 80000, 30000)),
    "C03": dict(BUF, harness="c03_stack.c", stages=pbt(400000, 400000, 60000, giant=24, giant_workers=2, giant_samples=0)),
    "C04": dict(BUF, harness="c04_arrays.c", stages=pbt(100000, 400000, 40000, giant=18, giant_workers=2, giant_samples=0)),
    "C05": dict(BUF, harness="c05_faults.c", stages=pbt(300000, 300000, 40000)),
    "C06": dict(HT, stages=pbt(50000, 40000, 8000, giant=48, giant_workers=8)),
    "C07": dict(HT, stages=pbt(20000, 25000, 5000, giant=48, giant_workers=8)),
    "C08": dict(HT, stages=pbt(8000, 6000, 1000, giant=48, giant_workers=8)),
    "C09": dict(HT, stages=pbt(8000, 15000, 3000)),
    "C10": dict(RB, stages=pbt(120000, 100000, 15000, giant=48, giant_workers=8)),
    "C11": dict(RB, stages=pbt(80000, 100000, 15000, giant=48, giant_workers=8)),
    "C12": dict(RB, stages=pbt(80000, 80000, 15000, giant=48, giant_workers=8)),
    "C13": dict(RB, stages=pbt(80000, 80000, 15000, giant=48, giant_workers=8)),
    "C14": dict(LI, stages=pbt(300000, 300000, 50000)),
    "C15": dict(LI, stages=pbt(300000, 300000, 50000)),
    "C16": dict(LI, stages=pbt(300000, 300000, 50000)),
    "C17": dict(VA, harness="value_basic.c", stages=pbt(600000, 1500000, 60000)),
    "C18": dict(VA, harness="value_basic.c", stages=pbt(500000, 1000000, 30000)),
    "C19": dict(VA, harness="value_basic.c", stages=pbt(80000, 40000, 15000, giant=16)),
    "C20": dict(VA, harness="value_basic.c", stages=pbt(500000, 500000, 40000)),
    "C21": dict(VA, harness="value_tree.c", stages=pbt(30000, 30000, 6000, giant=16, giant_workers=8)),
    "C22": dict(VA, harness="value_dict.c", stages=pbt(20000, 30000, 4000, giant=16)),
    "C23": dict(VA, harness="value_dict.c", stages=pbt(50000, 80000, 4000, giant=16)),
    "C24": dict(VA, harness="value_dict.c", stages=pbt(20000, 30000, 4000, giant=24, giant_workers=8)),
    "C25": dict(VA, harness="value_tree.c", stages=pbt(200000, 200000, 12000, giant=48, giant_workers=8)),
    "C26": dict(VA, harness="value_tree.c", stages=pbt(30000, 60000, 8000, giant=64, giant_workers=8)),
    "C27": dict(VA, harness="value_tree.c", stages=pbt(100000, 100000, 12000)),
    "C28": dict(VA, harness="value_tree.c", stages=pbt(40000, 60000, 8000)),
    "C29": dict(B64, stages=pbt(200000, 200000, 30000, giant=2, giant_workers=2, giant_samples=0)),
    "C30": dict(B64, stages=pbt(200000, 200000, 30000, giant=2, giant_workers=2, giant_samples=0)),
    "C31": dict(HEX, stages=pbt(200000, 200000, 30000, giant=2, giant_workers=2, giant_samples=0)),
    "C32": dict(HEX, stages=pbt(200000, 200000, 30000, giant=2, giant_workers=2, giant_samples=0)),
    "C33": dict(sources=["hash/crc32.c"], literals=[], harness="hash.c", stages=pbt(200000, 100000, 30000, giant=2, giant_workers=2, giant_samples=0)),
    "C35": dict(sources=[], literals=["mem/malloca.h"], harness="malloca.c", cflags=["-fno-builtin-malloc", "-fno-builtin-free"], stages=pbt(60000, 80000, 10000)),
    "C36": dict(MC, stages=pbt(20000, 20000, 6000, giant=200)),
    "C37": dict(MC, stages=pbt(20000, 30000, 6000)),
    "C38": dict(CL, stages=pbt(500000, 1000000, 40000)),
    "C39": dict(CL, stages=pbt(500000, 1000000, 40000)),
    "C40": dict(CL, stages=pbt(500000, 1000000, 40000)),
    "C42": dict(MS, stages=pbt(80000, 80000, 20000, giant=1, giant_workers=1, giant_samples=0)),
    "C43": dict(MS, stages=pbt(80000, 80000, 20000, giant=300, giant_workers=2)),
    "C44": dict(sources=["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c",
                         "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"], literals=[], harness="indep.c", shim="win32", cflags=["-fwrapv"],
                stages=[dict(name="tsan", build="tsan", profile=0, cases=16000, workers=8)] + pbt(60000, 60000, 8000)),
    "C41": dict(sources=[], literals=["misc/defs.h"], harness="defs.c", stages=pbt(1500000, 3000000, 30000)),
    "C34": dict(sources=["hash/fnv1a.c"], literals=[], harness="hash.c", stages=pbt(200000, 100000, 30000, giant=2, giant_workers=2, giant_samples=0)),
    "C47": dict(sources=["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c",
                         "misc/cmdline.c", "win32/memstream.c"], literals=[], harness="readonly.c", shim="win32", cflags=["-fwrapv"],
                stages=[dict(name="tsan", build="tsan", profile=0, cases=16000, workers=8)] + pbt(60000, 60000, 8000)),
    "C48": dict(sources=["data/value.c", "data/htable.c", "data/rbtree.c", "misc/cmdline.c"], literals=[], harness="callbacks.c", stages=pbt(60000, 20000, 12000)),
    "C50": dict(sources=["data/value.c", "data/htable.c", "data/rbtree.c", "data/buffer.c", "encode/hex.c", "encode/base64.c", "hash/crc32.c", "hash/fnv1a.c"], literals=[], harness="ownparts.c",
                stages=pbt(80000, 80000, 12000)),
    "C49": dict(sources=["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c",
                         "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"], literals=[], harness="costs.c", shim="win32", cflags=["-fwrapv"],
                stages=[dict(name="count", build="count", profile=0, cases=5000, workers=8)]),
    "C53": dict(sources=["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c",
                         "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"], literals=[], harness="costs.c", shim="win32", cflags=["-fwrapv"],
                stages=[dict(name="count", build="count", profile=0, cases=5000, workers=8)]),
    "C51": dict(sources=["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c",
                         "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"], literals=[], harness="around.c", shim="win32", cflags=["-fwrapv"],
                wrap=["puts", "putchar", "fputs", "fputc", "putc", "fwrite", "perror", "printf", "fprintf", "__printf_chk", "__fprintf_chk", "write", "getenv", "secure_getenv",
                      "time", "clock", "clock_gettime", "rand", "srand", "random", "setlocale", "localeconv", "fopen", "system", "signal", "strtok", "exit",
                      "__ctype_b_loc", "__ctype_tolower_loc", "__ctype_toupper_loc"],
                stages=[dict(name="msan", build="msan", profile=0, cases=30000, workers=8)] + pbt(80000, 80000, 8000)),
    "C54": dict(sources=["data/buffer.c", "data/htable.c", "data/rbtree.c", "data/value.c", "encode/base64.c", "encode/hex.c", "hash/crc32.c", "hash/fnv1a.c",
                         "mem/memchunk.c", "misc/cmdline.c", "win32/memstream.c"], literals=[], harness="again.c", shim="win32", cflags=["-fwrapv"],
                stages=pbt(150000, 200000, 12000)),
    "C46": dict(VA, harness="value_mem.c", stages=pbt(60000, 60000, 8000, giant=48, giant_workers=8)),
    "C52": dict(modules="narrow", harness="narrow.py", cases=30000, what="Cases are scripts (module, seed, steps) drawn from VERIF_SEED, each run by a 64-bit and three 32-bit programs.",
                technique="property-based testing over generated scripts with shrinking, differential between a 64-bit and a 32-bit build"),
    "C45": dict(modules="modules", harness="modules.py", cases=400,
                technique="property-based testing over generated programs (modules, sources, languages, settings) with shrinking, differential against a reference build"),
}
