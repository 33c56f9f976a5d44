#!/usr/bin/env python3
"""Translates compiler-generated AArch64 assembly to x86-64 assembly: data stays data, every function becomes a native
entry point followed by instructions for the interpreter in arm64.inc.

  arm64.py IN.s OUT.s
"""
import re, sys, os, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rewrite
INC = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "arm64.inc")).read()
OPS = {n.strip(): i for i, n in enumerate(re.search(r"enum A64Op : uint16_t \{(.*?)\};", INC, re.S).group(1).replace("\n", " ").split(","))}
CONDS = {c: i for i, c in enumerate("eq ne cs cc mi pl vs vc hi ls ge lt gt le al nv".split())}
CONDS.update({"hs": 2, "lo": 3})
SHIFTS = {"lsl": 0, "lsr": 1, "asr": 2, "ror": 3}
EXTS = {e: i for i, e in enumerate("uxtb uxth uxtw uxtx sxtb sxth sxtw sxtx".split())}

class Unknown(Exception): pass
def ops_of(s):
    out, depth, cur = [], 0, ""
    for c in s:
        if c in "[{": depth += 1
        elif c in "]}": depth -= 1
        if c == "," and depth == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def gpr(o):
    """(number, is 64 bit)"""
    m = re.fullmatch(r"([wx])(\d+)", o)
    if m and int(m.group(2)) <= 30: return int(m.group(2)), m.group(1) == "x"
    if o in ("xzr", "wzr"): return 31, o[0] == "x"
    if o == "sp": return 32, True
    if o == "wsp": return 32, False
    if o == "lr": return 30, True
    if o == "fp": return 29, True
    return None
VSZ = {"b": 1, "h": 2, "s": 4, "d": 8, "q": 16}
def fpr(o):
    m = re.fullmatch(r"([bhsdq])(\d+)", o)
    return (int(m.group(2)), VSZ[m.group(1)]) if m else None
def vec(o):
    m = re.fullmatch(r"v(\d+)\.(16b|8b|8h|4h|4s|2s|2d|1d)", o)
    return (int(m.group(1)), 16 if m.group(2) in ("16b", "8h", "4s", "2d") else 8, {"b": 1, "h": 2, "s": 4, "d": 8}[m.group(2)[-1]]) if m else None
def lane(o):
    m = re.fullmatch(r"v(\d+)\.([bhsd])\[(\d+)\]", o)
    return (int(m.group(1)), VSZ[m.group(2)], int(m.group(3))) if m else None
def imm(o):
    if not re.match(r"^#?-?(0x[0-9a-fA-F]+|\d+)$", o): raise Unknown(o)
    return int(o.lstrip("#"), 0)
def R(o):
    g = gpr(o)
    if g is None: raise Unknown("register " + o)
    return g
def VR(o):
    g = fpr(o)
    if g is None: raise Unknown("register " + o)
    return g
SYMRE = r"[A-Za-z_.$][\w.$]*"
def symoff(o):
    m = re.fullmatch(r"(%s)\s*([+-]\s*\d+)?" % SYMRE, o)
    if not m: raise Unknown("symbol " + o)
    return m.group(1), int((m.group(2) or "0").replace(" ", ""))

class I:
    """one instruction for the interpreter"""
    def __init__(s, op, **k):
        s.op = op; s.f = dict(rd=31, rn=31, rm=31, ra=31, size=0, fl=0, cond=0, sh=0, amt=0, kind=0, x=0, imm=0, sym="0"); s.f.update(k)
    def emit(s):
        f = s.f
        b = struct.pack("<H10BI", OPS[s.op], f["rd"], f["rn"], f["rm"], f["ra"], f["size"], f["fl"], f["cond"], f["sh"], f["amt"], f["kind"], f["x"] & 0xffffffff)
        q = struct.unpack("<QQ", b)
        return "\t.quad\t0x%x,0x%x,0x%x,%s" % (q[0], q[1], f["imm"] & 0xffffffffffffffff, f["sym"])

def operand2(ops, w):
    """the flexible second operand"""
    o = ops[0]
    if o.startswith(":lo12:"):
        s, k = symoff(o[6:]); return dict(kind=3, sym=s, imm=k)
    if gpr(o) is not None:
        r = gpr(o)[0]
        if len(ops) == 1: return dict(kind=0, rm=r)
        m = re.fullmatch(r"(\w+)(?:\s+#?(\d+))?", ops[1]); n = int(m.group(2) or 0)
        if m.group(1) in SHIFTS: return dict(kind=0, rm=r, sh=SHIFTS[m.group(1)], amt=n)
        if m.group(1) in EXTS: return dict(kind=2, rm=r, sh=EXTS[m.group(1)], amt=n)
        raise Unknown(ops[1])
    v = imm(o)
    if len(ops) > 1:
        m = re.fullmatch(r"lsl\s+#?(\d+)", ops[1])
        if not m: raise Unknown(ops[1])
        v <<= int(m.group(1))
    return dict(kind=1, imm=v if w else v & 0xffffffff)
def memop(ops):
    """addressing of a load or store: ops = ['[...]', optional post-index]"""
    o = ops[0]; fl = 0
    if o.endswith("!"): fl = 16; o = o[:-1].strip()
    if not (o.startswith("[") and o.endswith("]")): raise Unknown(o)
    p = ops_of(o[1:-1]); k = dict(rn=R(p[0])[0], kind=0, imm=0)
    if len(p) >= 2:
        if p[1].startswith(":lo12:"): s, off = symoff(p[1][6:]); k.update(kind=3, sym=s, imm=off)
        elif gpr(p[1]) is not None:
            k.update(kind=1, rm=gpr(p[1])[0], sh=3, amt=0)
            if len(p) > 2:
                m = re.fullmatch(r"(\w+)(?:\s+#?(\d+))?", p[2]); n = int(m.group(2) or 0)
                if m.group(1) == "lsl": k.update(sh=3, amt=n)
                elif m.group(1) in EXTS: k.update(sh=EXTS[m.group(1)], amt=n)
                else: raise Unknown(p[2])
        else: k["imm"] = imm(p[1])
    if len(ops) > 1: k["imm"] = imm(ops[1]); fl |= 32
    return k, fl

THREE = {"add": ("I_ADD", 0, 0), "adds": ("I_ADD", 2, 0), "sub": ("I_SUB", 0, 0), "subs": ("I_SUB", 2, 0), "and": ("I_AND", 0, 0), "ands": ("I_AND", 2, 0), "orr": ("I_ORR", 0, 0), "eor": ("I_EOR", 0, 0),
         "bic": ("I_AND", 0, 1), "bics": ("I_AND", 2, 1), "orn": ("I_ORR", 0, 1), "eon": ("I_EOR", 0, 1)}
LSE = {"swp": "I_SWP", "ldadd": "I_LDADD", "ldclr": "I_LDCLR", "ldeor": "I_LDEOR", "ldset": "I_LDSET", "ldsmax": "I_LDSMAX", "ldsmin": "I_LDSMIN", "ldumax": "I_LDUMAX", "ldumin": "I_LDUMIN"}
ST = {"st" + k[2:]: v for k, v in LSE.items() if k != "swp"}

def decode(mn, o):
    mn = mn.lower()
    w = lambda r: 1 if r[1] else 0
    if mn in ("nop", "hint", "bti", "paciasp", "autiasp", "prfm", "csdb", "sb") : return I("I_NOP")
    if mn in THREE:
        op, fl, inv = THREE[mn]; d, n = R(o[0]), R(o[1]); return I(op, rd=d[0], rn=n[0], fl=fl | w(d), x=inv, **operand2(o[2:], d[1]))
    if mn in ("cmp", "cmn"): n = R(o[0]); return I("I_SUB" if mn == "cmp" else "I_ADD", rn=n[0], fl=2 | w(n), **operand2(o[1:], n[1]))
    if mn == "tst": n = R(o[0]); return I("I_AND", rn=n[0], fl=2 | w(n), **operand2(o[1:], n[1]))
    if mn in ("neg", "negs"): d = R(o[0]); return I("I_SUB", rd=d[0], fl=w(d) | (2 if mn == "negs" else 0), **operand2(o[1:], d[1]))
    if mn == "mvn" and gpr(o[0]): d = R(o[0]); return I("I_ORR", rd=d[0], fl=w(d), x=1, **operand2(o[1:], d[1]))
    if mn in ("adc", "adcs", "sbc", "sbcs"): d = R(o[0]); return I("I_ADC" if mn[0] == "a" else "I_SBC", rd=d[0], rn=R(o[1])[0], rm=R(o[2])[0], fl=w(d) | (2 if mn.endswith("s") else 0))
    if mn in ("ngc", "ngcs"): d = R(o[0]); return I("I_SBC", rd=d[0], rm=R(o[1])[0], fl=w(d) | (2 if mn == "ngcs" else 0))
    if mn == "mov":
        if lane(o[0]) and gpr(o[1]) is not None: l = lane(o[0]); return I("I_INSV", rd=l[0], rn=gpr(o[1])[0], size=l[1], amt=l[1] * l[2])
        if vec(o[0]): return I("I_VMOV", rd=vec(o[0])[0], rn=vec(o[1])[0])
        d = R(o[0])
        if lane(o[1]): l = lane(o[1]); return I("I_UMOV", rd=d[0], rn=l[0], size=l[1], amt=l[1] * l[2])
        if gpr(o[1]) is not None: return I("I_ADD", rd=d[0], rn=gpr(o[1])[0], kind=1, fl=w(d))
        return I("I_MOVI", rd=d[0], imm=imm(o[1]), fl=w(d))
    if mn in ("movz", "movk", "movn"):
        d = R(o[0]); n = 0
        if len(o) > 2: n = int(re.fullmatch(r"lsl\s+#?(\d+)", o[2]).group(1))
        if mn == "movk": return I("I_MOVK", rd=d[0], imm=imm(o[1]), amt=n, fl=w(d))
        v = imm(o[1]) << n
        return I("I_MOVI", rd=d[0], imm=v if mn == "movz" else ~v, fl=w(d))
    if mn in ("lsl", "lsr", "asr", "ror", "lslv", "lsrv", "asrv", "rorv"):
        d, n = R(o[0]), R(o[1]); b = mn[:3]; k = SHIFTS[b]
        if gpr(o[2]) is not None: return I(["I_LSLV", "I_LSRV", "I_ASRV", "I_RORV"][k], rd=d[0], rn=n[0], rm=gpr(o[2])[0], fl=w(d))
        return I("I_ORR", rd=d[0], rn=31, kind=0, rm=n[0], sh=k, amt=imm(o[2]), fl=w(d))
    if mn in ("ubfx", "sbfx", "bfxil", "ubfiz", "sbfiz", "bfi", "bfc"):
        d = R(o[0])
        if mn == "bfc": return I("I_BFM", rd=d[0], rn=31, sh=imm(o[1]), amt=0, x=imm(o[2]), fl=w(d))
        n = R(o[1]); lsb, wd = imm(o[2]), imm(o[3]); op = {"u": "I_UBFM", "s": "I_SBFM", "b": "I_BFM"}[mn[0]]
        return I(op, rd=d[0], rn=n[0], sh=lsb if mn in ("ubfiz", "sbfiz", "bfi") else 0, amt=0 if mn in ("ubfiz", "sbfiz", "bfi") else lsb, x=wd, fl=w(d))
    if mn in ("uxtb", "uxth", "uxtw", "sxtb", "sxth", "sxtw"): d = R(o[0]); return I("I_UBFM" if mn[0] == "u" else "I_SBFM", rd=d[0], rn=R(o[1])[0], x={"b": 8, "h": 16, "w": 32}[mn[3]], fl=w(d))
    if mn == "extr": d = R(o[0]); return I("I_EXTR", rd=d[0], rn=R(o[1])[0], rm=R(o[2])[0], amt=imm(o[3]), fl=w(d))
    if mn in ("madd", "msub"): d = R(o[0]); return I("I_" + mn.upper(), rd=d[0], rn=R(o[1])[0], rm=R(o[2])[0], ra=R(o[3])[0], fl=w(d))
    if mn in ("mul", "mneg"): d = R(o[0]); return I("I_MADD" if mn == "mul" else "I_MSUB", rd=d[0], rn=R(o[1])[0], rm=R(o[2])[0], fl=w(d))
    if mn in ("smaddl", "umaddl", "smsubl", "umsubl"): return I("I_" + mn.upper(), rd=R(o[0])[0], rn=R(o[1])[0], rm=R(o[2])[0], ra=R(o[3])[0], fl=1)
    if mn in ("smull", "umull") and gpr(o[0]): return I("I_SMADDL" if mn[0] == "s" else "I_UMADDL", rd=R(o[0])[0], rn=R(o[1])[0], rm=R(o[2])[0], fl=1)
    if mn in ("smulh", "umulh"): return I("I_" + mn.upper(), rd=R(o[0])[0], rn=R(o[1])[0], rm=R(o[2])[0], fl=1)
    if mn in ("udiv", "sdiv"): d = R(o[0]); return I("I_" + mn.upper(), rd=d[0], rn=R(o[1])[0], rm=R(o[2])[0], fl=w(d))
    if mn in ("clz", "rbit", "rev", "rev16", "rev32") and gpr(o[0]): d = R(o[0]); return I("I_" + mn.upper(), rd=d[0], rn=R(o[1])[0], fl=w(d))
    if mn in ("csel", "csinc", "csinv", "csneg"): d = R(o[0]); return I("I_" + mn.upper(), rd=d[0], rn=R(o[1])[0], rm=R(o[2])[0], cond=CONDS[o[3]], fl=w(d))
    if mn in ("cset", "csetm"): d = R(o[0]); return I("I_CSINC" if mn == "cset" else "I_CSINV", rd=d[0], cond=CONDS[o[1]] ^ 1, fl=w(d))
    if mn in ("cinc", "cinv", "cneg"): d = R(o[0]); n = R(o[1])[0]; return I({"cinc": "I_CSINC", "cinv": "I_CSINV", "cneg": "I_CSNEG"}[mn], rd=d[0], rn=n, rm=n, cond=CONDS[o[2]] ^ 1, fl=w(d))
    if mn in ("ccmp", "ccmn"):
        n = R(o[0]); k = dict(kind=0, rm=gpr(o[1])[0]) if gpr(o[1]) is not None else dict(kind=1, imm=imm(o[1]))
        return I("I_" + mn.upper(), rn=n[0], amt=imm(o[2]), cond=CONDS[o[3]], fl=w(n), **k)
    if mn == "b": s, k = symoff(o[0]); return I("I_B", sym=s) if s.startswith(".L") else I("I_BL", sym=s, x=1)
    m = re.fullmatch(r"b\.?(\w\w)", mn)
    if m and m.group(1) in CONDS and mn not in ("bl", "br"): return I("I_BCOND", cond=CONDS[m.group(1)], sym=o[0])
    if mn == "bl": return I("I_BL", sym=symoff(o[0])[0])
    if mn == "blr": return I("I_BLR", rn=R(o[0])[0])
    if mn == "br": return I("I_BR", rn=R(o[0])[0])
    if mn == "ret": return I("I_RET", rn=R(o[0])[0] if o else 30)
    if mn in ("cbz", "cbnz"): n = R(o[0]); return I("I_" + mn.upper(), rn=n[0], fl=w(n), sym=o[1])
    if mn in ("tbz", "tbnz"): return I("I_" + mn.upper(), rn=R(o[0])[0], amt=imm(o[1]), sym=o[2])
    if mn in ("adrp", "adr"): s, k = symoff(o[1]); return I("I_" + mn.upper(), rd=R(o[0])[0], sym=s, imm=k, fl=1)
    m = re.fullmatch(r"(ldu?r|ldtr|stu?r|sttr)(b|h|sb|sh|sw)?", mn)
    if m:
        ld = mn[0] == "l"; k, fl = memop(o[1:]); sx = m.group(2) or ""
        v = fpr(o[0])
        if v: return I("I_LDRV" if ld else "I_STRV", rd=v[0], size=v[1], fl=fl, **k)
        d = R(o[0]); size = {"b": 1, "h": 2, "w": 4}[sx[-1]] if sx else 8 if d[1] else 4
        if sx.startswith("s"): fl |= 4 if d[1] else 8
        return I("I_LDR" if ld else "I_STR", rd=d[0], size=size, fl=fl | w(d), **k)
    if mn in ("ldp", "stp", "ldnp", "stnp", "ldpsw"):
        ld = mn[0] == "l"; k, fl = memop(o[2:]); v = fpr(o[0])
        if v: return I("I_LDPV" if ld else "I_STPV", rd=v[0], ra=VR(o[1])[0], size=v[1], fl=fl, **k)
        d = R(o[0]); return I("I_LDP" if ld else "I_STP", rd=d[0], ra=R(o[1])[0], size=4 if mn == "ldpsw" else 8 if d[1] else 4, fl=fl | (4 if mn == "ldpsw" else 0), **k)
    def base(x):
        k, fl = memop([x])
        if fl or k["kind"] or k["imm"]: raise Unknown(x)
        return k["rn"]
    m = re.fullmatch(r"(ldar|ldapr|ldlar|stlr|stllr|ldxr|ldaxr)(b|h)?", mn)
    if m:
        d = R(o[0]); size = {"b": 1, "h": 2}.get(m.group(2)) or (8 if d[1] else 4); b = {"ldlar": "ldar", "stllr": "stlr"}.get(m.group(1), m.group(1))
        return I("I_" + b.upper(), rd=d[0], rn=base(o[1]), size=size)
    m = re.fullmatch(r"(ldapur|stlur)(b|h|sb|sh|sw)?", mn)
    if m and not (m.group(2) or "").startswith("s"):
        d = R(o[0]); size = {"b": 1, "h": 2}.get(m.group(2)) or (8 if d[1] else 4); k, fl = memop(o[1:])
        if k["imm"] or k["kind"]: raise Unknown(o[1])
        return I("I_LDAPR" if mn[0] == "l" else "I_STLR", rd=d[0], rn=k["rn"], size=size)
    m = re.fullmatch(r"(stxr|stlxr)(b|h)?", mn)
    if m: d = R(o[1]); return I("I_" + m.group(1).upper(), rd=R(o[0])[0], rm=d[0], rn=base(o[2]), size={"b": 1, "h": 2}.get(m.group(2)) or (8 if d[1] else 4))
    if mn in ("ldxp", "ldaxp"): d = R(o[0]); return I("I_" + mn.upper(), rd=d[0], ra=R(o[1])[0], rn=base(o[2]), size=8 if d[1] else 4)
    if mn in ("stxp", "stlxp"): d = R(o[1]); return I("I_" + mn.upper(), rd=R(o[0])[0], rm=d[0], ra=R(o[2])[0], rn=base(o[3]), size=8 if d[1] else 4)
    m = re.fullmatch(r"(casp?|swp|ldadd|ldclr|ldeor|ldset|ldsmax|ldsmin|ldumax|ldumin)(al|a|l)?(b|h)?", mn)
    if m:
        ar = m.group(2) or ""; fl = (64 if "a" in ar else 0) | (128 if "l" in ar else 0)
        if m.group(1) == "casp": s, t = R(o[0]), R(o[2]); return I("I_CASP", rd=s[0], rm=t[0], rn=base(o[4]), size=8 if s[1] else 4, fl=fl)
        s, t = R(o[0]), R(o[1]); size = {"b": 1, "h": 2}.get(m.group(3)) or (8 if s[1] else 4)
        if m.group(1) == "cas": return I("I_CAS", rd=s[0], rm=t[0], rn=base(o[2]), size=size, fl=fl)
        return I(LSE[m.group(1)], rd=t[0], rm=s[0], rn=base(o[2]), size=size, fl=fl)
    m = re.fullmatch(r"(stadd|stclr|steor|stset|stsmax|stsmin|stumax|stumin)(l)?(b|h)?", mn)
    if m: s = R(o[0]); return I(ST[m.group(1)], rd=31, rm=s[0], rn=base(o[1]), size={"b": 1, "h": 2}.get(m.group(3)) or (8 if s[1] else 4), fl=128 if m.group(2) else 0)
    if mn == "clrex": return I("I_CLREX")
    if mn in ("dmb", "dsb"): k = o[0].lower().lstrip("#"); return I("I_DMB", kind=1 if k.endswith("ld") else 2 if k.endswith("st") and k != "ish" else 0)
    if mn == "isb": return I("I_ISB")
    if mn in ("yield", "wfe", "sev", "sevl", "wfi"): return I("I_YIELD")
    if mn in ("brk", "udf", "hlt"): return I("I_BRK")
    if mn == "fmov":
        if fpr(o[0]) and gpr(o[1]) is not None: return I("I_FMOVVG", rd=fpr(o[0])[0], rn=gpr(o[1])[0], size=fpr(o[0])[1])
        if gpr(o[0]) is not None and fpr(o[1]): return I("I_FMOVGV", rd=gpr(o[0])[0], rn=fpr(o[1])[0], size=fpr(o[1])[1])
        if fpr(o[0]) and fpr(o[1]): return I("I_FMOVVV", rd=fpr(o[0])[0], rn=fpr(o[1])[0], size=fpr(o[0])[1])
        if lane(o[0]): l = lane(o[0]); return I("I_INSV", rd=l[0], rn=R(o[1])[0], size=8, amt=8)
        if lane(o[1]): l = lane(o[1]); return I("I_UMOV", rd=R(o[0])[0], rn=l[0], size=8, amt=8)
        v = VR(o[0]); x = float(o[1].lstrip("#")); return I("I_FMOVI", rd=v[0], size=v[1], imm=struct.unpack("<Q", struct.pack("<d", x))[0] if v[1] == 8 else struct.unpack("<I", struct.pack("<f", x))[0])
    if mn == "movi":
        if fpr(o[0]): return I("I_VZERO", rd=fpr(o[0])[0], size=8, imm=imm(o[1]))
        v = vec(o[0])
        if v and len(o) == 2:
            x = imm(o[1])
            if v[2] != 8: x = int.from_bytes((x & ((1 << 8 * v[2]) - 1)).to_bytes(v[2], "little") * (8 // v[2]), "little")
            return I("I_VZERO", rd=v[0], size=v[1], imm=x)
    if mn in ("eor", "orr", "and") and vec(o[0]): pass
    if mn in ("mvn", "not") and vec(o[0]): return I("I_VNOT", rd=vec(o[0])[0], rn=vec(o[1])[0], rm=vec(o[1])[0], size=vec(o[0])[1])
    if mn in ("umov",): l = lane(o[1]); return I("I_UMOV", rd=R(o[0])[0], rn=l[0], size=l[1], amt=l[1] * l[2])
    if mn in ("ins",) and gpr(o[1]) is not None: l = lane(o[0]); return I("I_INSV", rd=l[0], rn=gpr(o[1])[0], size=l[1], amt=l[1] * l[2])
    if mn == "dup" and vec(o[0]) and gpr(o[1]) is not None: v = vec(o[0]); return I("I_DUP", rd=v[0], rn=gpr(o[1])[0], size=v[2])
    if mn in ("fadd", "fsub", "fmul", "fdiv"): v = VR(o[0]); return I("I_" + mn.upper(), rd=v[0], rn=VR(o[1])[0], rm=VR(o[2])[0], size=v[1])
    if mn in ("fneg", "fabs"): v = VR(o[0]); return I("I_" + mn.upper(), rd=v[0], rn=VR(o[1])[0], rm=VR(o[1])[0], size=v[1])
    if mn in ("fcmp", "fcmpe"): v = VR(o[0]); return I("I_FCMP", rn=v[0], size=v[1], **(dict(kind=0, rm=VR(o[1])[0]) if fpr(o[1]) else dict(kind=1, rm=0)))
    if mn == "fcvt": d, s = VR(o[0]), VR(o[1]); return I("I_FCVT", rd=d[0], rn=s[0], size=s[1])
    if mn in ("scvtf", "ucvtf") and gpr(o[1]) is not None: d = VR(o[0]); s = gpr(o[1]); return I("I_" + mn.upper(), rd=d[0], rn=s[0], size=d[1], fl=w(s))
    if mn in ("fcvtzs", "fcvtzu") and gpr(o[0]) is not None: d = gpr(o[0]); s = VR(o[1]); return I("I_" + mn.upper(), rd=d[0], rn=s[0], size=s[1], fl=w(d))
    raise Unknown(mn)

def vecop(mn, o):
    if mn in ("eor", "orr", "and") and vec(o[0]): v = vec(o[0]); return I({"eor": "I_VEOR", "orr": "I_VORR", "and": "I_VAND"}[mn], rd=v[0], rn=vec(o[1])[0], rm=vec(o[2])[0], size=v[1])
    if o and mn in VAR and (vec(o[0]) or fpr(o[0])):
        d = vec(o[0]) or (fpr(o[0])[0], 8, 8); n = vec(o[1]) or fpr(o[1])
        if not vec(o[0]) and fpr(o[0])[1] != 8: raise Unknown(mn)
        if mn == "neg": return I("I_VARITH", rd=d[0], rn=n[0], rm=n[0], size=d[1], amt=d[2], x=VAR[mn])
        m = vec(o[2]) or fpr(o[2])
        if m: return I("I_VARITH", rd=d[0], rn=n[0], rm=m[0], size=d[1], amt=d[2], x=VAR[mn])
        return I("I_VARITH", rd=d[0], rn=n[0], rm=n[0], size=d[1], amt=d[2], x=VAR[mn], kind=1, imm=imm(o[2]))
    return None
VAR = {n: i for i, n in enumerate("add sub mul shl ushr sshr cmeq cmgt cmge cmhi cmhs neg bic orn smax smin umax umin".split())}

LABEL = re.compile(r"^([\w.$]+)\s*:\s*")
DATA = {".xword": ".quad", ".dword": ".quad", ".word": ".long", ".hword": ".short", ".half": ".short", ".byte": ".byte"}
unknown = {}

def translate(text):
    out = []; local = set(); funcs = set(); sec_text = True; infn = False; nbc = 0; strings = {}
    stack = []
    for raw in text.split("\n"):
        line = re.sub(r"//.*", "", raw) if '"' not in raw else raw
        # statements
        if '"' in line and re.match(r"^\s*\.(ascii|asciz|string|section|file|ident)", line): sts = [line.strip()]
        else: sts = [s.strip() for s in line.split(";")]
        for st in sts:
            if not st or st.startswith("#"): continue
            while True:
                m = LABEL.match(st)
                if not m: break
                name = m.group(1)
                if name in funcs and sec_text:
                    nbc += 1; infn = True
                    out += ["\t.balign\t32", "\t.quad\t.La64bc%d" % nbc, "\t.quad\t0x6134366d61676963", "%s:" % name, "\tmovabsq\t$.La64bc%d, %%r10" % nbc, "\tjmp\t__a64_enter", "\t.balign\t8", ".La64bc%d:" % nbc]
                else: out.append("%s:" % name)
                st = st[m.end():]
            if not st: continue
            if st.startswith("."):
                d = st.split(None, 1); dn = d[0]
                if dn.startswith(".cfi_") or dn in (".file", ".ident", ".loc", ".addrsig", ".addrsig_sym", ".arch", ".cpu", ".variant_pcs", ".inst", ".arch_extension"): continue
                if dn == ".type":
                    m = re.match(r"\s*([\w.$]+)\s*,\s*[@%](\w+)", d[1])
                    if m and m.group(2) == "function": funcs.add(m.group(1))
                    out.append("\t.type\t%s, @%s" % (m.group(1), m.group(2))); continue
                if dn in (".text",) or (dn == ".section" and d[1].startswith((".text", '".text'))): sec_text = True; infn = False; out.append("\t" + st); continue
                if dn in (".data", ".bss", ".section", ".rodata"): sec_text = False; infn = False; out.append("\t" + (rewrite.data_section(st) or st)); continue
                if dn == ".local": local.add(d[1].strip()); out.append("\t" + st); continue
                if dn == ".comm": out.extend(rewrite.comm(st, local)); continue
                if dn in (".p2align", ".align", ".balign"):
                    if sec_text: continue
                    if dn == ".align": st = ".p2align " + d[1]
                    out.append("\t" + st); continue
                if dn in DATA: out.append("\t%s\t%s" % (DATA[dn], d[1])); continue
                out.append("\t" + st); continue
            if not sec_text: raise SystemExit("instruction outside a text section: " + st)
            p = st.split(None, 1); ops = ops_of(p[1]) if len(p) > 1 else []
            try:
                i = vecop(p[0], ops) or decode(p[0], ops)
                out.append(i.emit())
            except (Unknown, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                unknown[p[0]] = unknown.get(p[0], 0) + 1
                s = strings.setdefault(st, ".La64s%d" % len(strings))
                out.append(I("I_UNDEF", sym=s).emit())
    if strings:
        out.append('\t.section .rodata,"a",@progbits')
        for t, l in strings.items(): out += [l + ":", '\t.asciz\t"%s"' % t.replace("\\", "\\\\").replace('"', '\\"').replace("\t", " ")]
    return "\n".join(out) + "\n"

if __name__ == "__main__":
    t = open(sys.argv[1]).read()
    open(sys.argv[2], "w").write(translate(t))
    for k, v in unknown.items(): print("untranslated: %s (%d)" % (k, v))
