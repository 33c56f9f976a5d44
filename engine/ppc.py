#!/usr/bin/env python3
"""Translates compiler-generated 64-bit little-endian PowerPC assembly (ELFv2) like arm64.py does for AArch64.

  ppc.py IN.s OUT.s

Registers of the interpreter: r3..r10 = 0..7, r0 = 8, r11 = 9, r12 = 10, lr = 30, zero = 31, r1 = 32, scratch = 33,
r14..r31 = 34..51, r13 = 52, r2 = 53, ctr = 54, carry = 55, cr0..cr7 = 56..63;  f1..f8 = v0..v7, f0 = v8, scratch = v33."""
import re, sys, os, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rewrite
from arm64 import I, Unknown
M64 = (1 << 64) - 1
CTR, CA, CR0, TMP, LR = 54, 55, 56, 33, 30
def gnum(o):
    m = re.fullmatch(r"(?:%?r)?(\d+)", o)
    if not m or int(m.group(1)) > 31: raise Unknown("register " + o)
    return int(m.group(1))
def mapg(n): return 8 if n == 0 else 32 if n == 1 else 53 if n == 2 else n - 3 if n <= 10 else 9 if n == 11 else 10 if n == 12 else 52 if n == 13 else n + 20
def R(o): return mapg(gnum(o))
def R0(o): return 31 if gnum(o) == 0 else R(o)          # the number 0 rather than register 0
def F(o):
    m = re.fullmatch(r"(?:%?f)?(\d+)", o)
    if not m: raise Unknown("register " + o)
    n = int(m.group(1)); return 8 if n == 0 else n - 1 if n <= 8 else n
def imm(o):
    if not re.fullmatch(r"-?(0x[0-9a-fA-F]+|\d+)", o): raise Unknown(o)
    return int(o, 0)
def s16(v): v &= 0xffff; return v - 0x10000 if v & 0x8000 else v
def crf(o):
    m = re.fullmatch(r"(?:%?cr)?(\d)", o)
    if not m: raise Unknown("cr field " + o)
    return int(m.group(1))
BIT = {"lt": 0, "gt": 1, "eq": 2, "so": 3, "un": 3}
def crb(o):
    if o in BIT: return BIT[o]
    m = re.fullmatch(r"4\s*\*\s*(?:%?cr)?(\d)\s*\+\s*(\w+)", o)
    if m: return 4 * int(m.group(1)) + BIT[m.group(2)]
    return imm(o)
SYM = r"[A-Za-z_.$][\w.$]*"
def tocl(o):
    m = re.fullmatch(r"(%s)([+-]\d+)?@toc@l([+-]\d+)?" % SYM, o)
    return (m.group(1), int(m.group(2) or 0) + int(m.group(3) or 0)) if m else None
def mask64(mb, me): return sum(1 << (63 - i) for i in range(64) if (mb <= i <= me if mb <= me else i >= mb or i <= me))
def ror64(d, s, amt, mask, ins=0): return [I("P_ROT", rd=d, rn=s, kind=1, amt=amt & 63, fl=1, imm=mask, x=ins)]
def rot32(d, s, amt, mb, me, ins=0): return [I("P_ROT", rd=d, rn=s, kind=1, amt=amt & 31, fl=0, imm=mask64(mb + 32, me + 32), x=ins)]
def cmp0(d): return [I("P_CMP", rd=CR0, rn=d, kind=1, imm=0, fl=1)]

def dform(o):
    """D(rA) operand: base, offset"""
    m = re.fullmatch(r"(.*)\(([^()]+)\)", o)
    if not m: raise Unknown(o)
    t = tocl(m.group(1).strip())
    if t: return dict(rn=R0(m.group(2).strip()), kind=4, sym=t[0], imm=t[1])
    return dict(rn=R0(m.group(2).strip()), kind=0, imm=imm(m.group(1).strip()))
LOADS = {"lbz": ("I_LDR", 1, 0), "lhz": ("I_LDR", 2, 0), "lha": ("I_LDR", 2, 4), "lwz": ("I_LDR", 4, 0), "lwa": ("I_LDR", 4, 4), "ld": ("I_LDR", 8, 0),
         "stb": ("I_STR", 1, 0), "sth": ("I_STR", 2, 0), "stw": ("I_STR", 4, 0), "std": ("I_STR", 8, 0)}
FLOADS = {"lfs": ("I_LDRV", 4), "lfd": ("I_LDRV", 8), "stfs": ("I_STRV", 4), "stfd": ("I_STRV", 8)}
COND = {"lt": (0, 1), "gt": (1, 1), "eq": (2, 1), "so": (3, 1), "un": (3, 1), "ge": (0, 0), "nl": (0, 0), "le": (1, 0), "ng": (1, 0), "ne": (2, 0), "ns": (3, 0), "nu": (3, 0)}
CROPS = {"crand": 8, "crandc": 4, "cror": 14, "crorc": 13, "crxor": 6, "crnand": 7, "crnor": 1, "creqv": 9}     # truth table: bit (a * 2 + b)

def decode(mn, o):
    rec = mn.endswith(".") and mn not in ("stwcx.", "stdcx.", "stbcx.", "sthcx.", "andi.", "andis.", "addic.")
    if rec: mn = mn[:-1]
    r = decode1(mn, o)
    return r + (cmp0(r[-1].f["rd"]) if rec else [])
def decode1(mn, o):
    if mn in ("nop", "dcbt", "dcbtst", "dcbz", "dcbf", "dcbst"):
        if mn == "dcbz": raise Unknown(mn)
        return [I("I_NOP")]
    # arithmetic
    if mn in ("li", "lis"):
        if "@" in o[1]: raise Unknown(o[1])
        v = imm(o[1]); return [I("I_MOVI", rd=R(o[0]), imm=s16(v) if mn == "li" else s16(v) << 16, fl=1)]
    if mn in ("addi", "la"):
        if ".TOC.-" in o[2]: return [I("I_NOP")]
        t = tocl(o[2])
        if t: return [I("I_ADD", rd=R(o[0]), rn=R0(o[1]), kind=4, sym=t[0], imm=t[1], fl=1)]
        return [I("I_ADD", rd=R(o[0]), rn=R0(o[1]), kind=1, imm=imm(o[2]), fl=1)]
    if mn == "subi": return [I("I_ADD", rd=R(o[0]), rn=R0(o[1]), kind=1, imm=-imm(o[2]), fl=1)]
    if mn == "addis":
        if ".TOC.-" in o[2]: return [I("I_NOP")]
        if re.search(r"@toc@ha([+-]\d+)?$", o[2]):
            if gnum(o[1]) != 2: raise Unknown(o[2])
            return [I("I_MOVI", rd=R(o[0]), imm=0, fl=1)]
        return [I("I_ADD", rd=R(o[0]), rn=R0(o[1]), kind=1, imm=s16(imm(o[2])) << 16, fl=1)]
    if mn in ("add", "sub", "subf"):
        a, b = R(o[1]), R(o[2])
        if mn == "subf": a, b = b, a
        return [I("I_ADD" if mn == "add" else "I_SUB", rd=R(o[0]), rn=a, rm=b, fl=1)]
    if mn == "neg": return [I("I_SUB", rd=R(o[0]), rn=31, rm=R(o[1]), fl=1)]
    if mn in ("addic", "addic.", "subic", "subfic"):
        inv = mn == "subfic"; v = imm(o[2]) * (-1 if mn == "subic" else 1)
        return [I("P_ADDC", rd=R(o[0]), rn=R(o[1]), kind=1, imm=v, x=1 if inv else 0, cond=1 if inv else 0)] + (cmp0(R(o[0])) if mn == "addic." else [])
    if mn in ("addc", "subc", "subfc", "adde", "subfe", "sube"):
        a, b = R(o[1]), R(o[2]); inv = mn[0] == "s"
        if mn in ("subc", "sube"): a, b = b, a
        return [I("P_ADDC", rd=R(o[0]), rn=a, rm=b, kind=0, x=1 if inv else 0, cond=2 if mn.endswith("e") else 1 if inv else 0)]
    if mn in ("addze", "addme", "subfze", "subfme"): return [I("P_ADDC", rd=R(o[0]), rn=R(o[1]), kind=1, imm=0 if "z" in mn else -1, x=1 if mn[0] == "s" else 0, cond=2)]
    if mn == "mulli": return [I("P_MULI", rd=R(o[0]), rn=R(o[1]), imm=imm(o[2]))]
    if mn == "mulld": return [I("I_MADD", rd=R(o[0]), rn=R(o[1]), rm=R(o[2]), fl=1)]
    if mn == "mullw": return [I("I_SMADDL", rd=R(o[0]), rn=R(o[1]), rm=R(o[2]), fl=1)]
    if mn in ("mulhd", "mulhdu"): return [I("I_SMULH" if mn == "mulhd" else "I_UMULH", rd=R(o[0]), rn=R(o[1]), rm=R(o[2]), fl=1)]
    if mn in ("divd", "divdu", "divw", "divwu"): return [I("I_UDIV" if mn[-1] == "u" else "I_SDIV", rd=R(o[0]), rn=R(o[1]), rm=R(o[2]), fl=1 if mn[3] == "d" else 0)]
    # logic
    L = {"and": ("I_AND", 0), "andc": ("I_AND", 1), "or": ("I_ORR", 0), "orc": ("I_ORR", 1), "xor": ("I_EOR", 0), "eqv": ("I_EOR", 1)}
    if mn == "or" and o[0] == o[1] == o[2] and gnum(o[0]) in (27, 28, 29, 30, 31, 1, 2, 3, 5, 6, 7): return [I("P_YIELD")]
    if mn in L: return [I(L[mn][0], rd=R(o[0]), rn=R(o[1]), rm=R(o[2]), x=L[mn][1], fl=1)]
    if mn == "mr": return [I("I_ORR", rd=R(o[0]), rn=31, rm=R(o[1]), fl=1)]
    if mn == "not": return [I("I_ORR", rd=R(o[0]), rn=31, rm=R(o[1]), x=1, fl=1)]
    if mn in ("nand", "nor"): return [I("I_AND" if mn == "nand" else "I_ORR", rd=R(o[0]), rn=R(o[1]), rm=R(o[2]), fl=1), I("I_ORR", rd=R(o[0]), rn=31, rm=R(o[0]), x=1, fl=1)]
    if mn in ("andi.", "andis.", "ori", "oris", "xori", "xoris"):
        b = mn.rstrip("."); hi = b.endswith("is"); v = (imm(o[2]) & 0xffff) << (16 if hi else 0)
        if mn == "ori" and gnum(o[0]) == gnum(o[1]) == 0 and v == 0: return [I("I_NOP")]
        return [I({"an": "I_AND", "or": "I_ORR", "xo": "I_EOR"}[b[:2]], rd=R(o[0]), rn=R(o[1]), kind=1, imm=v, fl=1)] + (cmp0(R(o[0])) if mn[-1] == "." else [])
    if mn in ("extsb", "extsh", "extsw"): return [I("I_SBFM", rd=R(o[0]), rn=R(o[1]), x={"b": 8, "h": 16, "w": 32}[mn[-1]], fl=1)]
    if mn in ("cntlzw", "cntlzd"): return [I("I_CLZ", rd=R(o[0]), rn=R(o[1]), fl=1 if mn[-1] == "d" else 0)]
    # shifts and rotates
    if mn in ("sld", "srd", "srad", "slw", "srw", "sraw"): return [I("P_SHIFT", rd=R(o[0]), rn=R(o[1]), kind=0, rm=R(o[2]), x={"l": 0, "r": 1}[mn[1]] if "a" not in mn else 2, fl=1 if mn[-1] == "d" else 0)]
    if mn in ("sradi", "srawi"): return [I("P_SHIFT", rd=R(o[0]), rn=R(o[1]), kind=1, amt=imm(o[2]), x=2, fl=1 if mn[3] == "d" else 0)]
    if mn in ("sldi", "srdi", "clrldi", "clrrdi", "rotldi", "rotrdi", "rldicl", "rldicr", "rldic", "rldimi", "extldi", "extrdi", "insrdi", "clrlsldi"):
        d, s, n = R(o[0]), R(o[1]), imm(o[2]); b = imm(o[3]) if len(o) > 3 else 0
        if mn == "sldi": return ror64(d, s, n, mask64(0, 63 - n))
        if mn == "srdi": return ror64(d, s, 64 - n, mask64(n, 63))
        if mn == "clrldi": return ror64(d, s, 0, mask64(n, 63))
        if mn == "clrrdi": return ror64(d, s, 0, mask64(0, 63 - n))
        if mn == "rotldi": return ror64(d, s, n, M64)
        if mn == "rotrdi": return ror64(d, s, 64 - n, M64)
        if mn == "rldicl": return ror64(d, s, n, mask64(b, 63))
        if mn == "rldicr": return ror64(d, s, n, mask64(0, b))
        if mn == "rldic": return ror64(d, s, n, mask64(b, 63 - n))
        if mn == "rldimi": return ror64(d, s, n, mask64(b, 63 - n), 1)
        if mn == "extldi": return ror64(d, s, b, mask64(0, n - 1))
        if mn == "extrdi": return ror64(d, s, b + n, mask64(64 - n, 63))
        if mn == "insrdi": return ror64(d, s, 64 - (b + n), mask64(b, b + n - 1), 1)
        if mn == "clrlsldi": return ror64(d, s, b, mask64(n - b, 63 - b))
    if mn in ("rotld", "rldcl", "rldcr"): b = imm(o[3]) if len(o) > 3 else 0; return [I("P_ROT", rd=R(o[0]), rn=R(o[1]), rm=R(o[2]), kind=0, fl=1, imm=M64 if mn == "rotld" else mask64(b, 63) if mn == "rldcl" else mask64(0, b))]
    if mn in ("slwi", "srwi", "clrlwi", "clrrwi", "rotlwi", "rotrwi", "rlwinm", "rlwimi", "extlwi", "extrwi", "inslwi", "insrwi", "clrlslwi"):
        d, s, n = R(o[0]), R(o[1]), imm(o[2]); b = imm(o[3]) if len(o) > 3 else 0
        if mn == "slwi": return rot32(d, s, n, 0, 31 - n)
        if mn == "srwi": return rot32(d, s, 32 - n, n, 31)
        if mn == "clrlwi": return rot32(d, s, 0, n, 31)
        if mn == "clrrwi": return rot32(d, s, 0, 0, 31 - n)
        if mn == "rotlwi": return rot32(d, s, n, 0, 31)
        if mn == "rotrwi": return rot32(d, s, 32 - n, 0, 31)
        if mn in ("rlwinm", "rlwimi"):
            if len(o) != 5: raise Unknown(mn)
            return rot32(d, s, n, b, imm(o[4]), 1 if mn == "rlwimi" else 0)
        if mn == "extlwi": return rot32(d, s, b, 0, n - 1)
        if mn == "extrwi": return rot32(d, s, b + n, 32 - n, 31)
        if mn == "inslwi": return rot32(d, s, 32 - b, b, b + n - 1, 1)
        if mn == "insrwi": return rot32(d, s, 32 - (b + n), b, b + n - 1, 1)
        if mn == "clrlslwi": return rot32(d, s, b, n - b, 31 - b)
    if mn in ("rotlw", "rlwnm"): return [I("P_ROT", rd=R(o[0]), rn=R(o[1]), rm=R(o[2]), kind=0, fl=0, imm=mask64(32, 63) if mn == "rotlw" else mask64(imm(o[3]) + 32, imm(o[4]) + 32))]
    # comparisons and condition bits
    if mn in ("cmpw", "cmplw", "cmpd", "cmpld", "cmpwi", "cmplwi", "cmpdi", "cmpldi"):
        c = 0
        if len(o) == 3: c = crf(o[0]); o = o[1:]
        fl = (1 if "d" in mn else 0) | (2 if mn[3] == "l" else 0)
        if mn.endswith("i"): return [I("P_CMP", rd=CR0 + c, rn=R(o[0]), kind=1, imm=imm(o[1]), fl=fl)]
        return [I("P_CMP", rd=CR0 + c, rn=R(o[0]), kind=0, rm=R(o[1]), fl=fl)]
    if mn in CROPS: return [I("P_CROP", rd=crb(o[0]), rn=crb(o[1]), rm=crb(o[2]), x=CROPS[mn])]
    if mn in ("crnot", "crmove"): return [I("P_CROP", rd=crb(o[0]), rn=crb(o[1]), rm=crb(o[1]), x=1 if mn == "crnot" else 14)]
    if mn in ("crset", "crclr"): return [I("P_CROP", rd=crb(o[0]), rn=crb(o[0]), rm=crb(o[0]), x=15 if mn == "crset" else 0)]
    if mn == "mcrf": return [I("I_ADD", rd=CR0 + crf(o[0]), rn=CR0 + crf(o[1]), kind=1, fl=1)]
    if mn in ("mfcr", "mfocrf"): return [I("P_MFCR", rd=R(o[0]), x=imm(o[1]) if mn == "mfocrf" else 255)]
    if mn in ("mtcrf", "mtocrf"): return [I("P_MTCR", rn=R(o[1]), x=imm(o[0]))]
    if mn == "mtcr": return [I("P_MTCR", rn=R(o[0]), x=255)]
    m = re.fullmatch(r"isel(lt|gt|eq|so|un)?", mn)
    if m: return [I("P_ISEL", rd=R(o[0]), rn=R0(o[1]), rm=R(o[2]), amt=BIT[m.group(1)] if m.group(1) else crb(o[3]))]
    # branches
    if mn == "b": return [I("I_B", sym=o[0])] if o[0].startswith(".") else [I("I_BL", sym=o[0], x=1)]
    if mn == "bl": return [I("I_BL", sym=o[0])]
    if mn == "blr": return [I("I_RET", rn=LR)]
    if mn == "bctr": return [I("I_BR", rn=CTR)]
    if mn == "bctrl": return [I("I_BLR", rn=CTR)]
    m = re.fullmatch(r"b(lt|gt|eq|so|un|ge|nl|le|ng|ne|ns|nu)(lr)?[+-]?", mn)
    if m:
        b, s = COND[m.group(1)]; c = 0
        if len(o) == (1 if m.group(2) else 2): c = crf(o[0]); o = o[1:]
        return [I("P_BCLR" if m.group(2) else "P_BC", rn=CR0 + c, amt=8 >> b, x=s, **({} if m.group(2) else dict(sym=o[0])))]
    if mn in ("bc", "bc+", "bc-", "bclr"):
        bo, bi = imm(o[0]), crb(o[1]); k = dict(rn=CR0 + bi // 4, amt=8 >> (bi % 4), x=1 if bo & 8 else 0)
        if bo & 0x14 != 4: raise Unknown("bc")
        return [I("P_BCLR", **k)] if mn == "bclr" else [I("P_BC", sym=o[2], **k)]
    m = re.fullmatch(r"bd(n?)z[+-]?", mn)
    if m: return [I("P_BD", rn=CTR, x=1 if m.group(1) else 0, sym=o[0])]
    if mn == "mflr": return [I("I_ORR", rd=R(o[0]), rn=31, rm=LR, fl=1)]
    if mn == "mtlr": return [I("I_ORR", rd=LR, rn=31, rm=R(o[0]), fl=1)]
    if mn == "mfctr": return [I("I_ORR", rd=R(o[0]), rn=31, rm=CTR, fl=1)]
    if mn == "mtctr": return [I("I_ORR", rd=CTR, rn=31, rm=R(o[0]), fl=1)]
    if mn in ("trap", "tw", "td", "twi", "tdi"):
        if mn != "trap": raise Unknown(mn)
        return [I("I_BRK")]
    # memory
    m = re.fullmatch(r"([a-z]+?)(u?)(x?)", mn)
    for b, u, x in ([(mn, "", "")] + ([(mn[:-1], "", "x")] if mn.endswith("x") else []) + ([(mn[:-1], "u", "")] if mn.endswith("u") else []) + ([(mn[:-2], "u", "x")] if mn.endswith("ux") else [])):
        if b not in LOADS and b not in FLOADS: continue
        k = dict(rn=R0(o[1]), kind=1, rm=R(o[2]), sh=3, amt=0) if x else dform(o[1])
        fl = 16 if u else 0
        if str(k.get('sym', '')).startswith('.LC') and not b.startswith('st'): k['cond'] = 1   # a constant of the compiled code
        if u and k["rn"] == 31: raise Unknown(mn)
        if b in LOADS: op, n, f = LOADS[b]; return [I(op, rd=R(o[0]), size=n, fl=fl | f | 1, **k)]
        op, n = FLOADS[b]; d = F(o[0])
        if b == "lfs": return [I(op, rd=d, size=4, fl=fl, **k), I("P_S2D", rd=d, rn=d)]
        if b == "stfs": return [I("P_D2S", rd=33, rn=d), I(op, rd=33, size=4, fl=fl, **k)]
        return [I(op, rd=d, size=8, fl=fl, **k)]
    m = re.fullmatch(r"l([bhwd])arx", mn)
    if m: return [I("I_ADD", rd=TMP, rn=R0(o[1]), rm=R(o[2]), fl=1), I("I_LDXR", rd=R(o[0]), rn=TMP, size={"b": 1, "h": 2, "w": 4, "d": 8}[m.group(1)])]
    m = re.fullmatch(r"st([bhwd])cx\.", mn)
    if m: return [I("I_ADD", rd=TMP, rn=R0(o[1]), rm=R(o[2]), fl=1), I("P_STCX", rm=R(o[0]), rn=TMP, size={"b": 1, "h": 2, "w": 4, "d": 8}[m.group(1)])]
    if mn in ("sync", "hwsync", "msync", "ptesync"):
        if o and imm(o[0]) == 1: return [I("I_DMB", kind=1), I("I_DMB", kind=2)]
        return [I("I_DMB", kind=0)]
    if mn == "lwsync": return [I("I_DMB", kind=1), I("I_DMB", kind=2)]
    if mn == "eieio": return [I("I_DMB", kind=2)]
    if mn == "isync": return [I("P_ISYNC")]
    # floating point
    FA = {"fadd": "I_FADD", "fsub": "I_FSUB", "fmul": "I_FMUL", "fdiv": "I_FDIV"}
    if mn.rstrip("s") in FA or mn == "fsubs" or mn in [x + "s" for x in FA]:
        b = mn[:4]; d = F(o[0]); return [I(FA[b], rd=d, rn=F(o[1]), rm=F(o[2]), size=8)] + ([I("P_FRSP", rd=d, rn=d)] if mn.endswith("s") else [])
    if mn in ("fneg", "fabs"): return [I("I_" + mn.upper(), rd=F(o[0]), rn=F(o[1]), rm=F(o[1]), size=8)]
    if mn == "fmr": return [I("I_FMOVVV", rd=F(o[0]), rn=F(o[1]), size=8)]
    if mn == "frsp": return [I("P_FRSP", rd=F(o[0]), rn=F(o[1]))]
    if mn in ("fcmpu", "fcmpo"): return [I("P_FCMP", rd=CR0 + crf(o[0]), rn=F(o[1]), rm=F(o[2]))]
    raise Unknown(mn)

LABEL = re.compile(r"^([\w.$]+)\s*:\s*")
unknown = {}
SKIP = {".file", ".ident", ".loc", ".addrsig", ".addrsig_sym", ".abiversion", ".localentry", ".gnu_attribute", ".machine"}
def translate(text):
    out = []; local = set(); funcs = set(); sec_text = True; nbc = 0; strings = {}; nl = 0
    pend = {}; count = 0          # labels for branches to .+N
    for raw in text.split("\n"):
        line = raw if '"' in raw else re.sub(r"#.*", "", raw)
        st = line.strip()
        while st:
            m = LABEL.match(st)
            if not m: break
            name = m.group(1)
            if name in funcs and sec_text:
                nbc += 1
                out += ["\t.balign\t32", "\t.quad\t.La64bc%d" % nbc, "\t.quad\t0x6134366d61676963", "%s:" % name, "\tmovabsq\t$.La64bc%d, %%r10" % nbc, "\tjmp\t__a64_enter", "\t.balign\t8", ".La64bc%d:" % nbc]
            else: out.append("%s:" % name)
            st = st[m.end():]
        for st in ([st] if '"' in st else [x.strip() for x in st.split(";")]):
            if not st: continue
            if st.startswith(".") and not st.startswith(".+"):
                d = st.split(None, 1); dn = d[0]; arg = d[1] if len(d) > 1 else ""
                if dn.startswith(".cfi_") or dn in SKIP: continue
                if dn == ".type":
                    m = re.match(r"\s*([\w.$]+)\s*,\s*[@%](\w+)", arg)
                    if m.group(2) == "function": funcs.add(m.group(1))
                    out.append("\t.type\t%s, @%s" % (m.group(1), m.group(2))); continue
                if dn == ".text" or (dn == ".section" and arg.startswith((".text", '".text'))): sec_text = True; out.append("\t" + st); continue
                if dn in (".data", ".bss", ".section", ".rodata"): sec_text = False; out.append("\t" + (rewrite.data_section(st) or st)); continue
                if dn == ".local": local.add(arg.strip()); out.append("\t" + st); continue
                if dn == ".lcomm": local.add(arg.split(",")[0].strip()); out.extend(rewrite.comm(".comm " + arg, local)); continue
                if dn == ".comm": out.extend(rewrite.comm(st, local)); continue
                if sec_text and dn in (".p2align", ".align", ".balign", ".long", ".quad", ".byte", ".short", ".space", ".zero"): continue
                if dn == ".align": st = ".p2align " + arg
                if dn == ".tc": st = ".quad " + arg.split(",", 1)[1]
                if dn == ".space": st = ".zero " + arg
                out.append("\t" + st); continue
            if not sec_text: raise SystemExit("instruction outside a text section: " + st)
            if count in pend: out.append(pend.pop(count) + ":")
            count += 1
            p = st.split(None, 1); ops = [x.strip() for x in p[1].split(",")] if len(p) > 1 else []
            m = re.fullmatch(r"[$.]\+(\d+)", ops[-1]) if ops else None
            if m:
                t = count - 1 + int(m.group(1)) // 4
                if t not in pend: nl += 1; pend[t] = ".La64r%d" % nl
                ops[-1] = pend[t]
            try:
                for i in decode(p[0], ops): out.append(i.emit())
            except (Unknown, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                unknown[p[0]] = unknown.get(p[0], 0) + 1
                s = strings.setdefault(st, ".La64s%d" % len(strings))
                out.append(I("I_UNDEF", sym=s).emit())
    if strings:
        out.append('\t.section .rodata,"a",@progbits')
        for t, l in strings.items(): out += [l + ":", '\t.asciz\t"%s"' % t.replace("\\", "\\\\").replace('"', '\\"').replace("\t", " ")]
    return "\n".join(out) + "\n"

if __name__ == "__main__":
    t = open(sys.argv[1]).read()
    open(sys.argv[2], "w").write(translate(t))
    for k, v in unknown.items(): print("untranslated: %s (%d)" % (k, v))
