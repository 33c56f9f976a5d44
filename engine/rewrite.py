#!/usr/bin/env python3
"""Inserts simulator hooks into compiler-generated x86-64 AT&T assembly.

  rewrite.py IN.s OUT.s

Before every instruction that reads or writes memory through an operand not based on %rsp, and before every
lock-prefixed instruction, xchg, mfence and pause, a call to __sim_hook is inserted with the effective
address and the kind of access.  Writable data goes to sections the simulator can snapshot.
Anything the rewriter does not recognise as a plain store of known size is reported as a serialising access
(which can only hide behaviours, never invent one)."""
import re, sys

READ, WRITE, RMW, LOCKED, FENCE, PAUSE, UNKNOWN = 1, 2, 3, 4, 5, 6, 7

PREFIXES = {"lock", "rep", "repe", "repz", "repne", "repnz", "data16", "notrack", "xacquire", "xrelease", "rex64", "rex.W", "bnd"}
NOHOOK = {"lea", "leaq", "leal", "leaw", "nop", "nopw", "nopl", "nopq", "prefetcht0", "prefetcht1", "prefetcht2", "prefetchnta", "prefetchw"}
# instructions whose last operand may be memory without being written
RO = re.compile(r"^(cmp[bwlq]?|test[bwlq]?|bt[wlq]?|push[wlq]?|call[q]?|jmp[q]?|i?mul[bwlq]?|i?div[bwlq]?|fld(cw|env|[slt])?|fild[slq]*|f(add|sub|subr|mul|div|divr|com|comp|iadd|isub)[sl]?|fi(add|sub|subr|mul|div|divr|com|comp)[sl]?|v?u?comis[sd]|v?ldmxcsr|v?ptest|vtestp[sd]|frstor|fxrstor\w*|xrstor\w*|clflush\w*|verr|verw|lgdt|lidt|invlpg)$")
SUF = {"b": 1, "w": 2, "l": 4, "q": 8}
REG8 = set("al bl cl dl sil dil bpl spl ah bh ch dh".split()) | {"r%db" % i for i in range(8, 16)}
REG16 = set("ax bx cx dx si di bp sp".split()) | {"r%dw" % i for i in range(8, 16)}
REG32 = set("eax ebx ecx edx esi edi ebp esp".split()) | {"r%dd" % i for i in range(8, 16)}
REG64 = set("rax rbx rcx rdx rsi rdi rbp rsp".split()) | {"r%d" % i for i in range(8, 16)}

def regsize(op):
    op = op.strip()
    if not op.startswith("%"): return 0
    r = op[1:]
    if r in REG8: return 1
    if r in REG16: return 2
    if r in REG32: return 4
    if r in REG64: return 8
    return 0

GENERIC = set("mov add sub and or xor not neg inc dec shl shr sal sar rol ror adc sbb xadd cmpxchg bts btr btc xchg movabs movnti".split())

def size_of(mn, ops):
    """size in bytes of the memory operand when written, or 0 if unknown"""
    m = mn
    if m.startswith("set") : return 1
    if m in ("cmpxchg8b",): return 8
    if m in ("cmpxchg16b",): return 16
    base = None
    if m in GENERIC: base = m; suf = 0
    elif m[:-1] in GENERIC and m[-1] in SUF: base = m[:-1]; suf = SUF[m[-1]]
    if base is not None:
        if suf: return suf
        for o in ops:
            s = regsize(o)
            if s: return s
        return 0
    if m in ("shldq", "shrdq"): return 8
    if m in ("shldl", "shrdl"): return 4
    if m in ("shldw", "shrdw"): return 2
    v = m[1:] if m.startswith("v") else m
    ymm = any("%ymm" in o for o in ops)
    if v in ("movaps", "movups", "movdqa", "movdqu", "movapd", "movupd", "movntps", "movntdq", "movntpd"):
        if any("%zmm" in o for o in ops): return 0
        return 32 if ymm else 16
    if v in ("extractf128", "extracti128"): return 16
    if v in ("movsd", "movq", "movlps", "movhps", "movlpd", "movhpd", "pextrq"): return 8
    if v in ("movss", "movd", "pextrd", "extractps", "stmxcsr"): return 4
    if v == "pextrw": return 2
    if v == "pextrb": return 1
    if m in ("fsts", "fstps", "fistl", "fistpl", "fisttpl"): return 4
    if m in ("fstl", "fstpl", "fistpq", "fistpll", "fisttpq", "fisttpll"): return 8
    if m in ("fstpt",): return 10
    if m in ("fnstcw", "fstcw", "fnstsw", "fstsw", "fists", "fistps", "fisttps"): return 2
    return 0

def split_ops(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c == "(": depth += 1
        elif c == ")": depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

SYM = re.compile(r"^[A-Za-z_.][\w.$@]*([+-]\d+)?$")

def is_mem(op, mn):
    if op.startswith("*"): op = op[1:]
    if "(" in op: return True
    if op.startswith("%") and ":" in op: return True      # segment override
    if op.startswith("$") or op.startswith("%"): return False
    if mn.startswith("j") or mn.startswith("call") or mn.startswith("loop") or mn.startswith("xbegin"): return False
    return bool(SYM.match(op)) or op.isdigit()

stats = {}

def hook_for(prefixes, mn, ops):
    """returns list of lines to insert before the instruction, or []"""
    locked = "lock" in prefixes
    if mn == "pause" or (mn == "nop" and ("rep" in prefixes or "repz" in prefixes or "repe" in prefixes)):
        return emit(None, PAUSE, 0)
    if mn in ("mfence",): return emit(None, FENCE, 0)
    if mn in NOHOOK or mn.startswith("prefetch"): return []
    if not ops:
        if re.match(r"^(movs|stos)[bwlqd]?$", mn): return emit(None, FENCE, 0)
        return [] if not locked else emit(None, FENCE, 0)
    base = re.sub(r"[bwlq]$", "", mn)
    if base in ("movs", "stos", "cmps", "scas", "lods") and all(("%rdi" in o or "%rsi" in o or o.startswith("%")) for o in ops) and any(re.search(r"\(%[re]?[ds]i\)", o) for o in ops) and not (mn.startswith("movs") and len(ops) == 2 and ops[1].startswith("%xmm")) and not (mn == "movsd" and any("%xmm" in o for o in ops)) and not re.match(r"^movs[bwl][wlq]$", mn) and not (len(ops)==2 and ops[1].startswith("%") and ":" not in ops[1] and mn.startswith("movs")):
        return emit(None, FENCE, 0)
    mems = [i for i, o in enumerate(ops) if is_mem(o, mn)]
    if not mems:
        return [] if not locked else emit(None, FENCE, 0)
    i = mems[-1]
    op = ops[i]
    if op.startswith("*"): op = op[1:]
    seg = op.startswith("%")
    rsp = "%rsp" in op or "%esp" in op
    isx = base in ("xchg",) or mn in ("xchg",)
    if locked or isx:
        sz = size_of(mn, ops)
        return emit(None if (seg or rsp) else op, LOCKED, sz)
    if seg or rsp: return []
    if i == len(ops) - 1:
        if RO.match(mn): return emit(op, READ, 0)
        sz = size_of(mn, ops)
        if sz == 0: return emit(op, UNKNOWN, 0)
        pure = mn.startswith("mov") or mn.startswith("vmov") or mn.startswith("set") or mn.startswith("f") or mn.startswith("pextr") or mn.startswith("vpextr") or mn.startswith("vextract") or mn.startswith("extract") or "mxcsr" in mn
        return emit(op, WRITE if pure else RMW, sz)
    return emit(op, READ, 0)

def emit(op, kind, size):
    stats[kind] = stats.get(kind, 0) + 1
    k = kind | (size << 8)
    if op is None:
        # no address: keep the same frame layout
        return ["\tpushq\t%rax", "\tpushq\t$0", "\tpushq\t$%d" % k, "\tcall\t__sim_hook", "\tleaq\t16(%rsp), %rsp", "\tpopq\t%rax"]
    return ["\tpushq\t%rax", "\tleaq\t%s, %%rax" % op, "\tpushq\t%rax", "\tpushq\t$%d" % k, "\tcall\t__sim_hook", "\tleaq\t16(%rsp), %rsp", "\tpopq\t%rax"]

def split_statements(line):
    """splits at ';' outside quotes and cuts '#' comments"""
    out, cur, q = [], "", False
    i = 0
    while i < len(line):
        c = line[i]
        if c == '"' and (i == 0 or line[i-1] != "\\"): q = not q
        if not q and c == "#": break
        if not q and c == ";":
            out.append(cur); cur = ""
        else: cur += c
        i += 1
    out.append(cur)
    return [s.strip() for s in out if s.strip()]

LABEL = re.compile(r'^((?:[\w.$@]+|"[^"]*")\s*:)\s*')

def data_section(st):
    """maps writable data sections to the snapshot sections; returns replacement or None"""
    if st == ".data" or st.startswith(".data ") : return '.section sutdata,"aw",@progbits'
    if st == ".bss" or st.startswith(".bss "): return '.section sutbss,"aw",@nobits'
    m = re.match(r'^\.section\s+([^,\s]+)\s*(,.*)?$', st)
    if m:
        n, rest = m.group(1).strip('"'), m.group(2)
        if n.startswith(".data.rel.ro"): return None
        if n == ".data" or n.startswith(".data."):
            if rest is None: rest = ',"aw",@progbits'
            return ".section sutdata" + re.sub(r"@progbits,\d+", "@progbits", rest)
        if n == ".bss" or n.startswith(".bss."):
            if rest is None: rest = ',"aw",@nobits'
            return ".section sutbss" + rest
    return None

def comm(d, local):
    nm, sz, *al = [x.strip() for x in d.split(None, 1)[1].split(",")]
    r = ['\t.pushsection sutbss,"aw",@nobits', "\t.balign %s" % (al[0] if al else "16")]
    if nm not in local: r.append("\t.globl %s" % nm)
    return r + ["%s:" % nm, "\t.zero %s" % sz, "\t.popsection"]

def rewrite(text):
    out = []
    pend = []          # pending prefixes
    local = set()
    in_text = True
    textre = re.compile(r'^\.(text|section\s+\.text)')
    cursec = ".text"
    for raw in text.split("\n"):
        s = raw.strip()
        if s.startswith("#") or not s:
            continue
        if s.startswith(".") and not LABEL.match(s):
            # directive: never split inside strings
            if re.match(r"^\.(ascii|asciz|string)\b", s):
                out.append(raw); continue
            st = split_statements(raw)
            for d in st:
                if d.startswith(".local"):
                    local.add(d.split(None, 1)[1].strip()); out.append("\t" + d); continue
                if d.startswith(".comm"):
                    out.extend(comm(d, local)); continue
                if d.startswith(".cfi_") or d.startswith(".loc ") or d.startswith(".file"): continue
                r = data_section(d)
                out.append("\t" + (r or d))
            continue
        for st in split_statements(raw):
            while True:
                m = LABEL.match(st)
                if not m or st.startswith("%"): break
                out.append(m.group(1)); st = st[m.end():]
            if not st: continue
            if st.startswith("."):
                if st.startswith(".cfi_"): continue
                out.append("\t" + (data_section(st) or st)); continue
            parts = st.split(None, 1)
            while parts and parts[0] in PREFIXES:
                pend.append(parts[0])
                parts = parts[1].split(None, 1) if len(parts) > 1 else []
            if not parts: continue
            mn = parts[0]; ops = split_ops(parts[1]) if len(parts) > 1 else []
            if mn.startswith("{"):    # encoding hints such as {evex}
                rest = parts[1].split(None, 1); hint = mn; mn = rest[0]; ops = split_ops(rest[1]) if len(rest) > 1 else []
            if mn == "cpuid": out.append("\tcall\t__sim_cpuid"); pend = []; continue
            h = hook_for(pend, mn, ops)
            out.extend(h)
            out.append("\t" + " ".join(pend + [parts[0]]) + ("\t" + parts[1] if len(parts) > 1 else ""))
            pend = []
    return "\n".join(out) + "\n"

def sections_only(text):
    """for code instrumented by the compiler itself: only moves writable data"""
    out = []; local = set()
    for raw in text.split("\n"):
        d = raw.strip()
        if d.startswith(".cfi_"): continue
        if d.startswith(".local"): local.add(d.split(None, 1)[1].strip())
        if d.startswith(".comm"): out.extend(comm(d, local)); continue
        r = data_section(d) if d.startswith(".") else None
        out.append("\t" + r if r else raw)
    return "\n".join(out) + "\n"

if __name__ == "__main__":
    args = sys.argv[1:]
    only = args[0] == "--sections"
    if only: args = args[1:]
    t = open(args[0]).read()
    open(args[1], "w").write(sections_only(t) if only else rewrite(t))
