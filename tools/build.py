#!/usr/bin/env python3
"""Builds simulator binaries from /repo's current tree.  Used by ./check; can be run by hand:
   tools/build.py BINARY...        (see VARIANTS and BINARIES below)"""
import os, sys, subprocess, hashlib, threading, shlex
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
GXX, CLANG = "g++", "clang++-18"
SUTF = "-O2 -S -mno-red-zone -fno-pic -fno-pie -fcf-protection=none -fno-asynchronous-unwind-tables -fno-stack-protector -fno-common -U_FORTIFY_SOURCE -w"
HARF = "-std=c++17 -O2 -g1 -fno-pie -fno-pic -U_FORTIFY_SOURCE -fno-stack-protector -Wall -Wno-unused-function -Wno-class-memaccess"

# compilation variants of the code under test: (compiler, flags for everything, extra flags for the library sources,
# extra flags for the code using the library's headers, library sources)
SB = "-march=sandybridge"
LIB = ["lock_pool.cpp", "find_address_sse2.cpp", "find_address_sse41.cpp"]
SSE = "-DBOOST_ATOMIC_USE_SSE2 -DBOOST_ATOMIC_USE_SSE41"
CW = " -DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT"
FB = "-DBOOST_ATOMIC_FORCE_FALLBACK"
NOLINUX = " -U__linux__ -U__linux -Ulinux -U__gnu_linux__"
VARIANTS = {
 "base":    (GXX, "-std=c++11", SSE, "", LIB),
 "sb":      (GXX, "-std=c++20 -DNDEBUG " + SB, SSE + CW, "", LIB),
 "clang":   (CLANG, "-std=c++17 -fno-addrsig " + SB, SSE, "", LIB),
 "cx16":    (GXX, "-std=c++17 -mcx16", SSE, "", LIB),
 # the inline assembly implementation of operations of up to 8 bytes (compilers without usable intrinsics)
 "arch":    (GXX, "-std=c++14 " + SB + " " + " ".join("-U__GCC_ATOMIC_%s_LOCK_FREE -D__GCC_ATOMIC_%s_LOCK_FREE=1" % (t, t) for t in "BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER".split()), SSE, "", LIB),
 # every type emulated (futex lock pool)
 "fallback":  (GXX, "-std=c++17", SSE, FB, LIB),
 # no futex: the POSIX lock pool and generic waiting operations
 "pthread":   (GXX, "-std=c++17 " + SB + NOLINUX, "", "", ["lock_pool.cpp"]),
 "pthreadcw": (GXX, "-std=c++17 " + NOLINUX, CW, FB, ["lock_pool.cpp"]),
 "pool1":   (GXX, "-std=c++17", SSE + " -DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0", "", LIB),
 "pool4":   (GXX, "-std=c++17", SSE + " -DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=2", "", LIB),
 # processors without SSE4.1
 "sse2":    (GXX, "-std=c++17", "-DBOOST_ATOMIC_USE_SSE2 -DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0", "", ["lock_pool.cpp", "find_address_sse2.cpp"]),
 "nosse":   (GXX, "-std=c++17", "", "", ["lock_pool.cpp"]),
 # happens-before (race detection) builds
 "r":       (GXX, "-std=c++17 -O1 -fsanitize=thread " + SB, SSE, "", LIB),
 "rfb":     (GXX, "-std=c++17 -O1 -fsanitize=thread", SSE, FB, LIB),
 "rpt":     (GXX, "-std=c++17 -O1 -fsanitize=thread" + NOLINUX, "", FB, ["lock_pool.cpp"]),
}
# as if for another operating system (its kernel interface simulated), on this processor
OSV = {"freebsd": "FREEBSD=1400000", "freebsd8": "FREEBSD=800000", "freebsd7": "FREEBSD=700000", "dragonfly": "DRAGONFLY", "darwin16": "DARWIN=101200", "darwin19": "DARWIN=101500", "darwin20": "DARWIN=110000",
    "openbsd": "OPENBSD=202310", "openbsd6": "OPENBSD=201711", "netbsd": "NETBSD", "windows": "WINDOWS"}
for _v, _d in OSV.items():
    VARIANTS[_v] = (GXX, "-std=c++17 -DNDEBUG -DSIM_OS_%s -include %s/sut/os.h -I%s/sut/osinc" % (_d, VERIF, VERIF), SSE, "", LIB)
# nothing but the __sync intrinsics
VARIANTS["sync"] = (GXX, "-std=c++17 -mcx16 -DSIM_CC_SYNC -include %s/sut/os.h -I%s/sut/osinc " % (VERIF, VERIF) + " ".join("-U__GCC_ATOMIC_%s_LOCK_FREE -D__GCC_ATOMIC_%s_LOCK_FREE=1" % (t, t) for t in "BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER".split()), "", "", ["lock_pool.cpp"])
# AArch64: cross-compiled, translated and run by an interpreter that simulates the processor's memory ordering
ARM = "--target=aarch64-linux-gnu -std=c++17 -fno-exceptions -fno-jump-tables -fno-vectorize -fno-slp-vectorize -fno-addrsig -fno-common -I%s/sut/arminc -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/include/x86_64-linux-gnu" % VERIF
NOINT = " ".join("-U__GCC_ATOMIC_%s_LOCK_FREE -D__GCC_ATOMIC_%s_LOCK_FREE=1" % (t, t) for t in "BOOL CHAR CHAR16_T CHAR32_T WCHAR_T SHORT INT LONG LLONG POINTER".split())
for _v, _f, _u in [("arm64", "", ""), ("arm64lse", "-march=armv8.1-a", ""), ("arm64v84", "-march=armv8.4-a", ""), ("arm64arch", NOINT, ""), ("arm64archlse", NOINT + " -march=armv8.1-a", ""), ("arm64archv84", NOINT + " -march=armv8.4-a", ""),
        ("arm64fb", "", FB), ("arm64pt", NOLINUX, FB), ("arm64pool1", "-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0", "")]:
    VARIANTS[_v] = (CLANG, ARM + " " + _f, "", _u, ["lock_pool.cpp"])
# 64-bit PowerPC, little-endian; intrinsics, and the inline assembly with and without 8- and 16-bit reservations
PPC = ARM.replace("aarch64", "powerpc64le") + " -mno-vsx -mno-altivec -ffp-contract=off"
for _v, _f, _u in [("ppc64", "-mcpu=pwr8", ""), ("ppc64arch", "-mcpu=pwr8 " + NOINT, ""), ("ppc64archp7", "-mcpu=pwr7 " + NOINT, ""), ("ppc64fb", "-mcpu=pwr8 " + NOINT, FB), ("ppc64pt", "-mcpu=pwr7 " + NOLINUX, FB), ("ppc64pool1", "-mcpu=pwr8 -DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0 " + NOINT, "")]:
    VARIANTS[_v] = (CLANG, PPC + " " + _f, "", _u, ["lock_pool.cpp"])
CROSS = ("arm64", "ppc64")
_lock = threading.Lock()
_done = {}
log_lines = []
def sh(cmd, cwd=None):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode: raise RuntimeError("command failed: %s\n%s" % (cmd, p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout

def _hash_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()
_tree = {}
def tree_hash():
    """hash of everything of the repository a compilation can read"""
    if "t" not in _tree:
        fs = []
        for d in ("include", "src"):
            for r, _, n in os.walk(os.path.join(REPO, d)): fs += [os.path.join(r, x) for x in n]
        _tree["t"] = _hash_files(sorted(fs))
        eng = [os.path.join(VERIF, "engine", x) for x in sorted(os.listdir(os.path.join(VERIF, "engine"))) if os.path.isfile(os.path.join(VERIF, "engine", x))]
        _tree["e"] = _hash_files(eng)
        _tree["s"] = _hash_files([os.path.join(VERIF, "sut", x) for x in sorted(os.listdir(os.path.join(VERIF, "sut"))) if x.endswith((".h", ".inc", ".cpp", ".txt"))] + sorted(os.path.join(r, x) for d in ("osinc", "arminc") for r, _, n in os.walk(os.path.join(VERIF, "sut", d)) for x in n))
        _tree["h"] = _hash_files([os.path.join(VERIF, "harness", x) for x in sorted(os.listdir(os.path.join(VERIF, "harness"))) if x.endswith((".h", ".hpp"))])
    return _tree["t"]

def cached(key, ext, fn):
    """fn(path) creates the file; content-addressed by key, so a changed tree never reuses an old object"""
    h = hashlib.sha256(key.encode()).hexdigest()[:24]
    p = os.path.join(OUT, h + ext)
    with _lock:
        l = _done.setdefault(p, threading.Lock())
    with l:
        if not os.path.exists(p):
            tmp = p + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
            fn(tmp); os.rename(tmp, p)
    return p

def sut_object(variant, src, defs=""):
    cc, flags, libflags, useflags, _ = VARIANTS[variant]
    tree_hash()
    islib = not src.startswith(VERIF)
    f = flags + " " + (libflags if islib else useflags) + " " + defs
    if "-fsanitize=thread" in f: f = f + " " + ("" if cc != GXX else "--param tsan-instrument-func-entry-exit=0")
    if src.endswith("sse41.cpp"): f += " -msse4.1"
    if src.endswith("sse2.cpp"): f += " -msse2"
    opt = SUTF.replace("-O2", "") if "-O1" in f else SUTF
    arm = variant.startswith(CROSS)
    if arm: opt = "-O2 -S -fno-pic -fno-asynchronous-unwind-tables -fno-stack-protector -U_FORTIFY_SOURCE -w"
    if cc == GXX: opt += " -mstringop-strategy=libcall" if "-fsanitize" not in f else ""
    key = "|".join([_tree["t"], _tree["e"], _tree["s"], cc, f, opt, src])
    def make(p):
        s = p + ".s"; s2 = p + ".r.s"
        sh("%s %s %s -I%s/include -I%s/src -I%s/sut %s -o %s" % (cc, f, opt, REPO, REPO, VERIF, src, s))
        if arm: sh([sys.executable, os.path.join(VERIF, "engine/%s.py" % ("arm64" if variant.startswith("arm64") else "ppc")), s, s2])
        elif "-fsanitize=thread" in f: sh([sys.executable, os.path.join(VERIF, "engine/rewrite.py"), "--sections", s, s2])
        else: sh([sys.executable, os.path.join(VERIF, "engine/rewrite.py"), s, s2])
        sh("as --64 %s -o %s.o" % (s2, p))
        sh("objcopy --redefine-syms=%s/engine/syms.txt %s.o %s" % (VERIF, p, p))
        for x in (s, s2, p + ".o"): os.unlink(x)
    return cached(key, ".o", make)

def harness_object(src):
    tree_hash()
    extra = ""
    b = os.path.basename(src)
    if b == "hook.cpp": extra = " -mgeneral-regs-only -fno-tree-loop-distribute-patterns -O3 -g0"
    key = "|".join([_tree["e"], _tree["s"], _tree["h"], HARF, extra, src, _hash_files([src])])
    return cached(key, ".o", lambda p: sh("g++ %s%s -I%s/engine -I%s/sut -I%s/harness -c %s -o %s" % (HARF if src.endswith(".cpp") else "", extra, VERIF, VERIF, VERIF, src, p)))

ENGINE = ["engine/hook.cpp", "engine/hook.S", "engine/sim.cpp", "engine/tsan.cpp"]
def build(pool, variant, scen, groups, extra_sut=()):
    """groups: list of (group, flavor). scen: list of harness sources. extra_sut: other sources in sut/. Returns a future."""
    tree_hash()
    futs = [pool.submit(harness_object, os.path.join(VERIF, x)) for x in ENGINE + ["harness/" + s for s in scen]]
    futs += [pool.submit(sut_object, variant, os.path.join(VERIF, "sut/wrap.cpp"), "-DGROUP=%d -DFLAVOR=%d" % g) for g in groups]
    futs += [pool.submit(sut_object, variant, os.path.join(VERIF, "sut", e.split()[0]), " ".join(e.split()[1:])) for e in extra_sut]
    futs += [pool.submit(sut_object, variant, os.path.join(REPO, "src", s)) for s in VARIANTS[variant][4]]
    if variant in ("r", "rfb", "rpt"): futs.append(pool.submit(harness_object, os.path.join(VERIF, "engine/tsanmode.cpp")))
    if variant.startswith(CROSS): futs.append(pool.submit(harness_object, os.path.join(VERIF, "engine/a64mode.cpp")))
    return variant, futs
def finish(b, name):
    variant, futs = b
    objs = [f.result() for f in futs]
    out = os.path.join(OUT, "sim_" + hashlib.sha256((name + "|".join(objs)).encode()).hexdigest()[:20])
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        sh("g++ -static -no-pie -o %s %s -lpthread" % (tmp, " ".join(objs))); os.rename(tmp, out)
    return out
os.makedirs(OUT, exist_ok=True)
if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("variant"); ap.add_argument("--scn", default="lin.cpp"); ap.add_argument("--groups", default="2:0"); ap.add_argument("--extra", default="")
    a = ap.parse_args()
    with ThreadPoolExecutor(8) as pool:
        b = build(pool, a.variant, a.scn.split(","), [tuple(map(int, g.split(":"))) for g in a.groups.split(",") if g], [e for e in a.extra.split(",") if e])
        print(finish(b, a.variant))
