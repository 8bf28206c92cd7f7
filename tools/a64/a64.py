#!/usr/bin/env python3
"""Translates an AArch64 object file to C, instruction by instruction: a64.py in.o out.c
Every instruction becomes one C statement on local copies of the machine's registers; symbols keep their names, so that the
result links like the object it was made from. What is not translated stops the build (the variant is then left out)."""
import sys, re, subprocess, shutil
import os
obj, out = sys.argv[1:3]
BE = bool(os.environ.get("A64_BE"))     # object for a big-endian machine
OD = "llvm-objdump-18"
if not shutil.which(OD): OD = "llvm-objdump"
def run(*a): return subprocess.run(a, stdout=subprocess.PIPE, text=True, check=True).stdout

class Bad(Exception): pass
# ---- symbols and sections
syms = {}          # name -> (section, offset, global?, func?)
undef = set()
for l in run(OD, "-t", obj).splitlines():
    m = re.match(r"^([0-9a-f]{16}) (.)(.)(.)(.)(.)(.)(.) (\S+)\t([0-9a-f]{16})(?: \.hidden)? ?(\S*)$", l)
    if not m: continue
    off, sec, name = int(m[1], 16), m[9], m[11]
    if sec == "*UND*": undef.add(name)
    elif m[8] == "F" or m[8] == "O" or m[2] == "g":
        syms[name] = (sec, off, m[2] == "g", m[8] == "F")
secs = []
for l in run(OD, "-h", obj).splitlines():
    m = re.match(r"^\s*\d+ (\S*)\s+([0-9a-f]{8}) [0-9a-f]{16}\s*(\S*)", l)
    if m and m[1]: secs.append((m[1], int(m[2], 16), m[3]))
text = [s for s, n, t in secs if t == "TEXT" and n]
datas = [(s, n, t) for s, n, t in secs if t in ("DATA", "BSS") and n and not s.startswith((".eh_frame", ".comment", ".note", ".llvm", ".rela", ".debug"))]
tag = re.sub(r"\W", "_", obj.split("/")[-1])
def secname(s): return "a64d_%s_%s" % (tag, re.sub(r"\W", "_", s))
funcs = {}         # (sec, off) -> name
for n, (s, o, g, f) in syms.items():
    if f: funcs[(s, o)] = n
isglobal = {n: g for n, (s, o, g, f) in syms.items()}
cname = {n: (n if isglobal[n] else "a64l_%s_%s" % (tag, n.replace(".", "_"))) for n in syms if syms[n][3]}

# ---- disassembly with relocations
code = {}          # sec -> [(off, mnemonic, operands, reloc or None)]
cur = None
for l in run(OD, "-dr", "--no-show-raw-insn", *sum((["-j", t] for t in text), []), obj).splitlines() if text else []:
    m = re.match(r"^Disassembly of section (\S+):", l)
    if m: cur = code.setdefault(m[1], []); continue
    m = re.match(r"^\t\t([0-9a-f]{16}):\s+(\S+)\t(\S+)", l)
    if m:
        assert cur[-1][0] == int(m[1], 16); cur[-1] = cur[-1][:3] + ((m[2], m[3]),); continue
    m = re.match(r"^\s+([0-9a-f]+):\s+([a-z][\w.]*)\s*(.*)$", l)
    if m and cur is not None:
        ops = re.sub(r"<[^>]*>", "", m[3]).split("//")[0].strip()
        cur.append((int(m[1], 16), m[2], ops, None))

def split(s):
    r, d, c = [], 0, ""
    for ch in s:
        if ch in "[{": d += 1
        if ch in "]}": d -= 1
        if ch == "," and d == 0: r.append(c.strip()); c = ""
        else: c += ch
    if c.strip(): r.append(c.strip())
    return r
def imm(s):
    s = s.strip().lstrip("#")
    return int(s, 0)
def isreg(s): return re.match(r"^(x\d+|w\d+|xzr|wzr|sp|wsp)$", s) is not None
def isw(s): return s[0] == "w"
def G(s):
    if s in ("xzr", "wzr"): return "0ull"
    if s == "sp": return "SP"
    if s == "wsp": return "(uint64_t)(uint32_t)SP"
    if s[0] == "x" and s[1:].isdigit(): return "X" + s[1:]
    if s[0] == "w" and s[1:].isdigit(): return "(uint64_t)(uint32_t)X" + s[1:]
    raise Bad("register " + s)
def P(d, e):
    if d in ("xzr", "wzr"): return "(void)(%s);" % e
    if d == "sp": return "SP = %s;" % e
    if d == "wsp": return "SP = (uint32_t)(%s);" % e
    if isw(d): return "X%s = (uint32_t)(%s);" % (d[1:], e)
    return "X%s = %s;" % (d[1:], e)
def ext(v, e):
    """a shifted or extended operand"""
    m = re.match(r"^(lsl|lsr|asr|ror|uxtb|uxth|uxtw|uxtx|sxtb|sxth|sxtw|sxtx)(?: #(\S+))?$", e)
    if not m: raise Bad("modifier " + e)
    k, n = m[1], int(m[2], 0) if m[2] else 0
    w = isw(v); x = G(v)
    if k == "lsl": return "(%s(%s << %d))" % ("(uint32_t)" if w else "", x, n)
    if k == "lsr": return "(%s >> %d)" % (x, n)
    if k == "asr": return "((uint64_t)(uint32_t)((int32_t)(%s) >> %d))" % (x, n) if w else "((uint64_t)((int64_t)(%s) >> %d))" % (x, n)
    if k == "ror": return "ROR%d(%s, %d)" % (32 if w else 64, x, n)
    t = {"b": "8", "h": "16", "w": "32", "x": "64"}[k[3]]
    return "((uint64_t)(%sint%s_t)(%s) << %d)" % ("u" if k[0] == "u" else "", t, x, n) if k[0] == "u" else "((uint64_t)(int64_t)(int%s_t)(%s) << %d)" % (t, x, n)
def V2(ops, i):
    """the last source operand, with its modifier when there is one"""
    s = ops[i]
    if s.startswith("#"):
        v = imm(s)
        if len(ops) > i + 1: v <<= imm(ops[i + 1].split("#")[1])
        return "%dull" % (v & (2 ** 64 - 1))
    if len(ops) > i + 1: return ext(s, ops[i + 1])
    return G(s)
def mem(ops, i):
    """(address expression, statement afterwards)"""
    s = ops[i]
    wb = s.endswith("!"); s = s.rstrip("!")
    assert s[0] == "[" and s[-1] == "]", s
    p = split(s[1:-1]); b = p[0]
    B = G(b)
    if len(p) == 1:
        post = ops[i + 1] if len(ops) > i + 1 else None
        if post is None: return "(" + B + lo12[0] + ")", ""
        if post.startswith("#"): return B, P(b, "%s + %dull" % (B, imm(post) & (2 ** 64 - 1)))
        return B, P(b, "%s + %s" % (B, G(post)))
    if p[1].startswith("#"):
        a = "(%s + %dull%s)" % (B, imm(p[1]) & (2 ** 64 - 1), lo12[0])
        if wb: return a, None
        return a, ""
    if p[1].startswith(":lo12:"): raise Bad("lo12")
    return "(%s + %s)" % (B, ext(p[1], p[2]) if len(p) > 2 else G(p[1])), ""
def CC(c):
    return {"eq": "Z", "ne": "!Z", "hs": "C", "cs": "C", "lo": "!C", "cc": "!C", "mi": "N", "pl": "!N", "vs": "VF", "vc": "!VF", "hi": "(C && !Z)", "ls": "(!C || Z)",
            "ge": "(N == VF)", "lt": "(N != VF)", "gt": "(!Z && N == VF)", "le": "(Z || N != VF)", "al": "1"}[c]
def vr(s):
    m = re.match(r"^([vqdsbh])(\d+)(?:\.(\w+))?(?:\[(\d+)\])?$", s)
    if not m: raise Bad("vector register " + s)
    return m
def VN(s): return "V" + vr(s)[2]
SZ = {"b": 1, "h": 2, "s": 4, "d": 8, "q": 16}
LANE = {"16b": ("b", 16), "8b": ("b", 8), "8h": ("h", 8), "4h": ("h", 4), "4s": ("s", 4), "2s": ("s", 2), "2d": ("d", 2), "1d": ("d", 1)}
def vlist(s):
    s = s.strip("{} ")
    r = []
    for p in split(s):
        m = re.match(r"^v(\d+)\.(\w+)\s*-\s*v(\d+)\.\w+$", p)
        if m: r += ["v%d.%s" % (k, m[2]) for k in range(int(m[1]), int(m[3]) + 1)]
        else: r.append(p.strip())
    return r

def symref(r):
    """a relocation target as a C expression"""
    m = re.match(r"^(.*?)(?:([+-])0x([0-9a-f]+))?$", r)
    base, add = m[1], int(m[3], 16) * (1 if m[2] == "+" else -1) if m[3] else 0
    if base in syms and syms[base][3] and add == 0: return "((uint64_t)(uintptr_t)&%s)" % cname[base]
    if base in code and (base, add) in funcs: return "((uint64_t)(uintptr_t)&%s)" % cname[funcs[(base, add)]]
    if base in syms and not syms[base][3]:
        s, o, g, f = syms[base]
        return "((uint64_t)(uintptr_t)%s + %dull)" % (secname(s), (o + add) & (2 ** 64 - 1))
    for s, n, t in datas:
        if s == base: return "((uint64_t)(uintptr_t)%s + %dull)" % (secname(s), add & (2 ** 64 - 1))
    if base in undef:
        needed.add(base)
        return "((uint64_t)(uintptr_t)&a64x_%s + %dull)" % (base, add & (2 ** 64 - 1))
    raise Bad("relocation " + r)
needed = set()
lo12 = [""]

def target(sec, ops_last, fstart, fend):
    t = int(ops_last, 0)
    if fstart <= t < fend: return t
    return None

def insn(sec, off, mn, o, rel, fs, fe):
    ops = split(o)
    # --- control
    if mn == "nop" or mn in ("hint", "bti", "paciasp", "autiasp"): return ""
    if mn in ("brk", "udf"): return "abort();"
    if mn == "ret": return "goto out;"
    if mn == "b" or mn == "bl":
        if rel:
            if not rel[0].endswith(("JUMP26", "CALL26")): raise Bad(rel[0])
            m = re.match(r"^(.*?)(?:\+0x([0-9a-f]+))?$", rel[1]); base, add = m[1], int(m[2] or "0", 16)
            n = base if base in syms or base in undef else funcs.get((base, add))
            if n is None: raise Bad("call " + rel[1])
            if n in cname and not isglobal[n]: c = "CALLL(%s_t);" % cname[n]
            else:
                if n in undef: needed.add(n)
                c = "CALLH(&%s%s);" % ("a64x_" if n in undef else "", n)
        else:
            t = target(sec, ops[0], fs, fe)
            if t is not None and mn == "b": return "goto L%x;" % t
            n = funcs.get((sec, int(ops[0], 0)))
            if n is None: raise Bad("branch " + o)
            c = "CALLL(%s_t);" % cname[n] if not isglobal[n] else "CALLH(&%s);" % n
        return c + (" goto out;" if mn == "b" else "")
    if mn.startswith("b."): return "if (%s) goto L%x;" % (CC(mn[2:]), target(sec, ops[0], fs, fe))
    if mn in ("cbz", "cbnz"): return "if (%s(%s)) goto L%x;" % ("!" if mn == "cbz" else "", G(ops[0]), target(sec, ops[1], fs, fe))
    if mn in ("tbz", "tbnz"): return "if (%s((%s >> %d) & 1)) goto L%x;" % ("!" if mn == "tbz" else "", G(ops[0]), imm(ops[1]), target(sec, ops[2], fs, fe))
    if mn == "blr": return "CALLH(%s);" % G(ops[0])
    if mn == "br": return "CALLH(%s); goto out;" % G(ops[0])
    if mn == "mrs":
        if ops[1] != "ID_AA64ISAR0_EL1": raise Bad("mrs " + ops[1])
        return P(ops[0], "a64_isar0")
    if mn in ("adrp", "adr"):
        if not rel: raise Bad("adrp without relocation")
        if "GOT" in rel[0] or "TLS" in rel[0]: raise Bad(rel[0])
        return P(ops[0], symref(rel[1]) + (" & ~4095ull" if mn == "adrp" else ""))
    lo12[0] = ""
    if rel:
        if "LO12" not in rel[0] or "GOT" in rel[0] or "TLS" in rel[0]: raise Bad(rel[0])
        if not re.search(r"#0x0\b|#0\b|\[x\d+\]", o): raise Bad("lo12 " + o)
        lo12[0] = " + ((%s) & 4095)" % symref(rel[1])
        if not (mn == "add" or ("[" in o and ops[-1].endswith("]"))): raise Bad("lo12 " + o)
    # --- vector loads and stores of lists
    if mn in ("ld1", "st1"):
        m = re.match(r"^(\{[^}]*\})(?:\[(\d+)\])?$", ops[0])
        regs = vlist(m[1]); a, after = mem(ops, 1)
        if after is None: raise Bad(o)
        body = "{ uint64_t a_ = %s; " % a
        if m[2] is not None:
            for k, r in enumerate(regs):
                t = r.split(".")[1]; z = SZ[t[-1]]
                body += ("LD(&%s.%s[%s], a_ + %d, %d); " if mn == "ld1" else "ST(&%s.%s[%s], a_ + %d, %d); ") % (VN(r.split(".")[0]), t[-1], m[2], k * z, z)
        else:
            for k, r in enumerate(regs):
                l, n = LANE[r.split(".")[1]]; z = SZ[l] * n
                if mn == "ld1" and z == 8: body += "%s.d[1] = 0; " % VN(r.split(".")[0])
                for i in range(n) if BE else ():
                    body += ("LD(&%s.%s[%d], a_ + %d, %d); " if mn == "ld1" else "ST(&%s.%s[%d], a_ + %d, %d); ") % (VN(r.split(".")[0]), l, i, k * z + i * SZ[l], SZ[l])
                if not BE: body += ("LD(&%s, a_ + %d, %d); " if mn == "ld1" else "ST(&%s, a_ + %d, %d); ") % (VN(r.split(".")[0]), k * z, z)
        return body + after + " }"
    # --- loads and stores
    m = re.match(r"^(ldur|ldr|stur|str)(sw|sb|sh|b|h)?$", mn)
    if m:
        d = ops[0]; a, after = mem(ops, 1)
        if after is None: after = "X_WB"; 
        ld = m[1][0] == "l"
        wb = ""
        if after == "X_WB":
            b = split(ops[1].rstrip("!")[1:-1])[0]; wb = P(b, "a_"); after = ""
        if d[0] in "bhsdq" and isreg(d) is False:
            z = SZ[d[0]]; r = VN(d)
            st = ("MSET(&%s, 0, 16); LD(&%s, a_, %d); " if ld else "ST(&%.0s%s, a_, %d); ") % (r, r, z)
            return "{ uint64_t a_ = %s; %s%s%s }" % (a, wb, st, after)
        sfx = m[2]; z = {"b": 1, "h": 2, "sb": 1, "sh": 2, "sw": 4, None: 4 if isw(d) else 8}[sfx]
        if ld:
            t = "(uint64_t)v_"
            if sfx and sfx[0] == "s": t = "(uint64_t)(int64_t)(int%d_t)v_" % (z * 8)
            return "{ uint64_t a_ = %s; uint%d_t v_; LD(&v_, a_, %d); %s%s%s }" % (a, z * 8, z, wb, P(d, t), after)
        return "{ uint64_t a_ = %s; uint%d_t v_ = (uint%d_t)%s; %sST(&v_, a_, %d); %s }" % (a, z * 8, z * 8, G(d), wb, z, after)
    if mn in ("ldp", "stp", "ldpsw", "ldnp", "stnp"):
        ld = mn[0] == "l"; a, after = mem(ops, 2); wb = ""
        if after is None: wb = P(split(ops[2].rstrip("!")[1:-1])[0], "a_"); after = ""
        vec = not isreg(ops[0])
        z = SZ[ops[0][0]] if vec else 4 if isw(ops[0]) or mn == "ldpsw" else 8
        s = "{ uint64_t a_ = %s; " % a
        if vec:
            for k in (0, 1):
                r = VN(ops[k]); s += ("MSET(&%s, 0, 16); LD(&%s, a_ + %d, %d); " if ld else "ST(&%.0s%s, a_ + %d, %d); ") % (r, r, k * z, z)
            return s + wb + after + " }"
        if ld:
            s += "uint%d_t u_, v_; LD(&u_, a_, %d); LD(&v_, a_ + %d, %d); " % (z * 8, z, z, z)
            t = "(uint64_t)(int64_t)(int32_t)%s" if mn == "ldpsw" else "(uint64_t)%s"
            return s + wb + P(ops[0], t % "u_") + P(ops[1], t % "v_") + after + " }"
        return s + "uint%d_t u_ = (uint%d_t)%s, v_ = (uint%d_t)%s; ST(&u_, a_, %d); ST(&v_, a_ + %d, %d); " % (z * 8, z * 8, G(ops[0]), z * 8, G(ops[1]), z, z, z) + wb + after + " }"
    # --- floating point
    if ops and re.match(r"^[ds]\d+$", ops[0]) or mn in ("fcvtzu", "fcvtzs") or (mn == "fmov" and isreg(ops[0])):
        def F(s):
            k = vr(s); return ("%s.f64[0]" if k[1] == "d" else "%s.f32[0]") % ("V" + k[2])
        def PF(d, e):
            k = vr(d); return "{ %s f_ = %s; MSET(&V%s, 0, 16); V%s.%s[0] = f_; }" % ("double" if k[1] == "d" else "float", e, k[2], k[2], "f64" if k[1] == "d" else "f32")
        if mn == "fmov":
            if isreg(ops[0]): k = vr(ops[1]); return P(ops[0], "V%s.%s[0]" % (k[2], k[1]))
            if isreg(ops[1]): k = vr(ops[0]); return "MSET(&V%s, 0, 16); V%s.%s[0] = %s;" % (k[2], k[2], k[1], G(ops[1]))
            if ops[1].startswith("#"): return PF(ops[0], ops[1][1:])
            return PF(ops[0], F(ops[1]))
        if mn in ("ucvtf", "scvtf") and isreg(ops[1]):
            return PF(ops[0], "(%sint%d_t)%s" % ("u" if mn[0] == "u" else "", 32 if isw(ops[1]) else 64, G(ops[1])))
        if mn in ("fcvtzu", "fcvtzs") and isreg(ops[0]): return P(ops[0], "FCVT_%s%d(%s)" % (mn[-1].upper(), 32 if isw(ops[0]) else 64, F(ops[1])))
        if mn in ("fadd", "fsub", "fmul", "fdiv"): return PF(ops[0], "%s %s %s" % (F(ops[1]), {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[mn], F(ops[2])))
        if mn in ("fneg", "fabs"): return PF(ops[0], "-%s" % F(ops[1]) if mn == "fneg" else "__builtin_fabs(%s)" % F(ops[1]))
        if mn in ("fmadd", "fmsub"): return PF(ops[0], "__builtin_fma(%s%s, %s, %s)" % ("-" if mn == "fmsub" else "", F(ops[1]), F(ops[2]), F(ops[3])))
        if mn in ("fcmp", "fcmpe"):
            return "{ double p_ = %s, q_ = %s; Z = p_ == q_; N = p_ < q_; C = !(p_ < q_); VF = !(p_ == p_ && q_ == q_); if (VF) { Z = N = 0; C = 1; } }" % (F(ops[0]), "0.0" if ops[1].startswith("#") else F(ops[1]))
        if mn == "fcvt": return PF(ops[0], F(ops[1]))
        if mn == "movi": return "MSET(&%s, 0, 16); %s.d[0] = %dull;" % (VN(ops[0]), VN(ops[0]), imm(ops[1]) & (2 ** 64 - 1))
        if mn in ("sha1h",): return "{ uint32_t t_ = %s.s[0]; MSET(&%s, 0, 16); %s.s[0] = ROR32(t_, 2); }" % (VN(ops[1]), VN(ops[0]), VN(ops[0]))
        raise Bad(mn + " " + o)
    # --- cryptographic and other vector instructions
    if ops and re.match(r"^[vq]\d+", ops[0]):
        if mn in ("aese", "aesd", "aesmc", "aesimc"): return "%s(&%s, &%s);" % (mn, VN(ops[0]), VN(ops[1]))
        if mn in ("sha1c", "sha1p", "sha1m", "sha256h", "sha256h2", "sha1su0", "sha256su1"): return "%s(&%s, &%s, &%s);" % (mn, VN(ops[0]), VN(ops[1]), VN(ops[2]))
        if mn in ("sha1su1", "sha256su0"): return "%s(&%s, &%s);" % (mn, VN(ops[0]), VN(ops[1]))
        a = vr(ops[0])
        if mn == "mov" and a[3] in LANE and a[4] is None:
            l, n = LANE[a[3]]; s = VN(ops[1])
            return "V%s = %s;" % (a[2], s) if n * SZ[l] == 16 else "{ uint64_t t_ = %s.d[0]; V%s.d[0] = t_; V%s.d[1] = 0; }" % (s, a[2], a[2])
        if mn in ("mov", "ins") and a[4] is not None:
            l = a[3][-1]
            if isreg(ops[1]): return "V%s.%s[%s] = %s;" % (a[2], l, a[4], G(ops[1]))
            b = vr(ops[1]); return "V%s.%s[%s] = V%s.%s[%s];" % (a[2], l, a[4], b[2], l, b[4])
        l, n = LANE[a[3]] if a[3] in LANE else (None, 0)
        if l is None: raise Bad(mn + " " + o)
        full = n * SZ[l] == 16
        ct = {"b": "uint8_t", "h": "uint16_t", "s": "uint32_t", "d": "uint64_t"}[l]
        def lanes(e): return "{ VR r_; MSET(&r_, 0, 16); for (int i = 0; i < %d; i++) r_.%s[i] = (%s)(%s); V%s = r_; }" % (n, l, ct, e, a[2])
        if mn == "movi" or mn == "mvni":
            v = imm(ops[1]); 
            if len(ops) > 2:
                m = re.match(r"^(lsl|msl) #(\d+)$", ops[2]); v <<= int(m[2]); 
                if m[1] == "msl": v |= (1 << int(m[2])) - 1
            if mn == "mvni": v = ~v
            return lanes("%dull" % (v & (2 ** (8 * SZ[l]) - 1)))
        b = "V" + vr(ops[1])[2] if len(ops) > 1 and re.match(r"^v\d", ops[1]) else None
        c = "V" + vr(ops[2])[2] if len(ops) > 2 and re.match(r"^v\d", ops[2]) else None
        if mn in ("and", "orr", "eor", "bic", "orn", "add", "sub", "mul") and b and c:
            f = {"and": "{0} & {1}", "orr": "{0} | {1}", "eor": "{0} ^ {1}", "bic": "{0} & ~{1}", "orn": "{0} | ~{1}", "add": "{0} + {1}", "sub": "{0} - {1}", "mul": "{0} * {1}"}[mn]
            return lanes(f.format("%s.%s[i]" % (b, l), "%s.%s[i]" % (c, l)))
        if mn in ("shl", "ushr"): return lanes("%s.%s[i] %s %d" % (b, l, "<<" if mn == "shl" else ">>", imm(ops[2])))
        if mn == "dup" and isreg(ops[1]): return lanes(G(ops[1]))
        if mn == "dup": k = vr(ops[1]); return lanes("V%s.%s[%s]" % (k[2], l, k[4]))
        if mn in ("mvn", "not"): return lanes("~%s.%s[i]" % (b, l))
        if mn == "neg": return lanes("-%s.%s[i]" % (b, l))
        if mn in ("rev16", "rev32", "rev64"):
            w = int(mn[3:]) // 8 // SZ[l]
            return lanes("%s.%s[(i / %d) * %d + %d - 1 - i %% %d]" % (b, l, w, w, w, w))
        if mn in ("xtn", "xtn2"):
            sl = {"b": "h", "h": "s", "s": "d"}[l]
            if mn == "xtn": return lanes("%s.%s[i]" % (b, sl))
            return "{ VR r_ = V%s; for (int i = 0; i < %d; i++) r_.%s[%d + i] = (%s)%s.%s[i]; V%s = r_; }" % (a[2], n // 2, l, n // 2, ct, b, sl, a[2])
        if mn in ("ushll", "ushll2", "uxtl", "uxtl2"):
            sl = {"h": "b", "s": "h", "d": "s"}[l]
            sh = imm(ops[2]) if len(ops) > 2 else 0
            return lanes("(%s)%s.%s[i + %d] << %d" % (ct, b, sl, n if mn.endswith("2") else 0, sh))
        if mn == "ext": return "{ VR r_; for (int i = 0; i < 16; i++) r_.b[i] = i + %d < 16 ? %s.b[i + %d] : %s.b[i + %d - 16]; V%s = r_; }" % (imm(ops[3]), b, imm(ops[3]), c, imm(ops[3]), a[2])
        raise Bad(mn + " " + o)
    if mn in ("umov", "mov") and len(ops) == 2 and ops[1].startswith("v"):
        k = vr(ops[1]); return P(ops[0], "V%s.%s[%s]" % (k[2], k[3][-1], k[4]))
    # --- integer
    d = ops[0]; W = isw(d); B = 32 if W else 64; U = "uint%d_t" % B; S = "int%d_t" % B
    if mn in ("mov", "movz"):
        return P(d, V2(ops, 1) if not ops[1].startswith("#") or len(ops) == 2 else "%dull" % (imm(ops[1]) << imm(ops[2].split("#")[1])))
    if mn == "movn": return P(d, "~(%dull)" % (imm(ops[1]) << (imm(ops[2].split("#")[1]) if len(ops) > 2 else 0)))
    if mn == "movk":
        sh = imm(ops[2].split("#")[1]) if len(ops) > 2 else 0
        return P(d, "(%s & ~(0xffffull << %d)) | (%dull << %d)" % (G(d), sh, imm(ops[1]), sh))
    if mn in ("add", "sub"):
        if rel: return P(d, G(ops[1]) + lo12[0])
        return P(d, "%s %s %s" % (G(ops[1]), "+" if mn == "add" else "-", V2(ops, 2)))
    if mn in ("adds", "subs"): return "{ %s r_; %s%d(r_, %s, %s); %s }" % (U, mn.upper(), B, G(ops[1]), V2(ops, 2), P(d, "r_"))
    if mn in ("cmp", "cmn"): return "{ %s r_; %s%d(r_, %s, %s); (void)r_; }" % (U, "SUBS" if mn == "cmp" else "ADDS", B, G(ops[0]), V2(ops, 1))
    if mn == "neg": return P(d, "0 - %s" % V2(ops, 1))
    if mn == "negs": return "{ %s r_; SUBS%d(r_, 0, %s); %s }" % (U, B, V2(ops, 1), P(d, "r_"))
    if mn in ("adc", "sbc"): return P(d, "%s + %s + C" % (G(ops[1]), G(ops[2])) if mn == "adc" else "%s + (%s)~%s + C" % (G(ops[1]), U, G(ops[2])))
    if mn in ("adcs", "sbcs"): return "{ %s r_; ADCS%d(r_, %s, %s%s); %s }" % (U, B, G(ops[1]), "(%s)~" % U if mn == "sbcs" else "", G(ops[2]), P(d, "r_"))
    if mn == "ngc": return P(d, "(%s)~%s + C" % (U, G(ops[1])))
    if mn == "ngcs": return "{ %s r_; ADCS%d(r_, 0, (%s)~%s); %s }" % (U, B, U, G(ops[1]), P(d, "r_"))
    if mn in ("and", "orr", "eor", "bic", "orn", "eon"):
        f = {"and": "%s & %s", "orr": "%s | %s", "eor": "%s ^ %s", "bic": "%s & ~%s", "orn": "%s | ~%s", "eon": "%s ^ ~%s"}[mn]
        return P(d, f % (G(ops[1]), V2(ops, 2)))
    if mn in ("ands", "bics"): return "{ %s r_ = (%s)(%s & %s%s); N = (%s)r_ < 0; Z = r_ == 0; C = VF = 0; %s }" % (U, U, G(ops[1]), "~" if mn == "bics" else "", V2(ops, 2), S, P(d, "r_"))
    if mn == "tst": return "{ %s r_ = (%s)(%s & %s); N = (%s)r_ < 0; Z = r_ == 0; C = VF = 0; }" % (U, U, G(ops[0]), V2(ops, 1), S)
    if mn == "mvn": return P(d, "~%s" % V2(ops, 1))
    if mn in ("lsl", "lsr", "asr", "ror"):
        n = "%d" % imm(ops[2]) if ops[2].startswith("#") else "(%s & %d)" % (G(ops[2]), B - 1)
        if mn == "lsl": return P(d, "%s << %s" % (G(ops[1]), n))
        if mn == "lsr": return P(d, "%s >> %s" % (G(ops[1]), n))
        if mn == "asr": return P(d, "(%s)((%s)%s >> %s)" % (U, S, G(ops[1]), n))
        return P(d, "ROR%d(%s, %s)" % (B, G(ops[1]), n))
    if mn == "extr": 
        n = imm(ops[3]); return P(d, "EXTR%d(%s, %s, %d)" % (B, G(ops[1]), G(ops[2]), n))
    if mn in ("ubfx", "sbfx"):
        l, w = imm(ops[2]), imm(ops[3])
        if mn == "ubfx": return P(d, "(%s >> %d) & %dull" % (G(ops[1]), l, (1 << w) - 1))
        return P(d, "(uint64_t)((int64_t)(%s << %d) >> %d)" % (G(ops[1]), 64 - l - w, 64 - w))
    if mn in ("ubfiz", "sbfiz"):
        l, w = imm(ops[2]), imm(ops[3])
        if mn == "ubfiz": return P(d, "(%s & %dull) << %d" % (G(ops[1]), (1 << w) - 1, l))
        return P(d, "(uint64_t)((int64_t)(%s << %d) >> %d) << %d" % (G(ops[1]), 64 - w, 64 - w, l))
    if mn == "bfi":
        l, w = imm(ops[2]), imm(ops[3]); k = ((1 << w) - 1) << l
        return P(d, "(%s & ~%dull) | ((%s << %d) & %dull)" % (G(d), k, G(ops[1]), l, k))
    if mn == "bfxil":
        l, w = imm(ops[2]), imm(ops[3]); k = (1 << w) - 1
        return P(d, "(%s & ~%dull) | ((%s >> %d) & %dull)" % (G(d), k, G(ops[1]), l, k))
    m = re.match(r"^([us])xt([bhw])$", mn)
    if m:
        t = {"b": 8, "h": 16, "w": 32}[m[2]]
        return P(d, "(uint64_t)(uint%d_t)%s" % (t, G(ops[1])) if m[1] == "u" else "(uint64_t)(int64_t)(int%d_t)%s" % (t, G(ops[1])))
    if mn == "rev": return P(d, "__builtin_bswap%d(%s)" % (B, G(ops[1])))
    if mn == "rev16": return P(d, "(((%s) >> 8) & 0x00ff00ff00ff00ffull) | (((%s) << 8) & 0xff00ff00ff00ff00ull)" % (G(ops[1]), G(ops[1])))
    if mn == "rev32": return P(d, "((uint64_t)__builtin_bswap32((uint32_t)(%s >> 32)) << 32) | __builtin_bswap32((uint32_t)%s)" % (G(ops[1]), G(ops[1])))
    if mn == "clz": return P(d, "CLZ%d(%s)" % (B, G(ops[1])))
    if mn == "rbit": return P(d, "RBIT%d(%s)" % (B, G(ops[1])))
    if mn == "mul": return P(d, "%s * %s" % (G(ops[1]), G(ops[2])))
    if mn == "mneg": return P(d, "0 - %s * %s" % (G(ops[1]), G(ops[2])))
    if mn == "madd": return P(d, "%s + %s * %s" % (G(ops[3]), G(ops[1]), G(ops[2])))
    if mn == "msub": return P(d, "%s - %s * %s" % (G(ops[3]), G(ops[1]), G(ops[2])))
    m = re.match(r"^([us])m(ull|addl|subl|negl)$", mn)
    if m:
        t = "(uint64_t)(uint32_t)" if m[1] == "u" else "(uint64_t)(int64_t)(int32_t)"
        p = "%s%s * %s%s" % (t, G(ops[1]), t, G(ops[2]))
        return P(d, {"ull": p, "addl": "%s + %s" % (G(ops[3]) if len(ops) > 3 else "0", p), "subl": "%s - %s" % (G(ops[3]) if len(ops) > 3 else "0", p), "negl": "0 - " + p}[m[2]])
    if mn == "umulh": return P(d, "(uint64_t)(((unsigned __int128)%s * %s) >> 64)" % (G(ops[1]), G(ops[2])))
    if mn == "smulh": return P(d, "(uint64_t)(((__int128)(int64_t)%s * (int64_t)%s) >> 64)" % (G(ops[1]), G(ops[2])))
    if mn == "udiv": return P(d, "(%s)%s ? (%s)%s / (%s)%s : 0" % (U, G(ops[2]), U, G(ops[1]), U, G(ops[2])))
    if mn == "sdiv": return P(d, "SDIV%d(%s, %s)" % (B, G(ops[1]), G(ops[2])))
    if mn == "csel": return P(d, "%s ? %s : %s" % (CC(ops[3]), G(ops[1]), G(ops[2])))
    if mn == "csinc": return P(d, "%s ? %s : %s + 1" % (CC(ops[3]), G(ops[1]), G(ops[2])))
    if mn == "csinv": return P(d, "%s ? %s : ~%s" % (CC(ops[3]), G(ops[1]), G(ops[2])))
    if mn == "csneg": return P(d, "%s ? %s : 0 - %s" % (CC(ops[3]), G(ops[1]), G(ops[2])))
    if mn == "cset": return P(d, "%s ? 1ull : 0ull" % CC(ops[1]))
    if mn == "csetm": return P(d, "%s ? ~0ull : 0ull" % CC(ops[1]))
    if mn == "cinc": return P(d, "%s ? %s + 1 : %s" % (CC(ops[2]), G(ops[1]), G(ops[1])))
    if mn == "cinv": return P(d, "%s ? ~%s : %s" % (CC(ops[2]), G(ops[1]), G(ops[1])))
    if mn == "cneg": return P(d, "%s ? 0 - %s : %s" % (CC(ops[2]), G(ops[1]), G(ops[1])))
    if mn in ("ccmp", "ccmn"):
        nz = imm(ops[2]); v = "%dull" % imm(ops[1]) if ops[1].startswith("#") else G(ops[1])
        return "if (%s) { %s r_; %s%d(r_, %s, %s); (void)r_; } else { N = %d; Z = %d; C = %d; VF = %d; }" % (CC(ops[3]), U, "SUBS" if mn == "ccmp" else "ADDS", B, G(ops[0]), v, nz >> 3, nz >> 2 & 1, nz >> 1 & 1, nz & 1)
    raise Bad(mn + " " + o)

o = []
body = []
for sec, ins in code.items():
    starts = sorted(off for (s, off) in funcs if s == sec)
    end = ins[-1][0] + 4
    for i, fs in enumerate(starts):
        fe = starts[i + 1] if i + 1 < len(starts) else end
        name = funcs[(sec, fs)]
        body.append("A64_BEGIN(%s)" % cname[name])
        used = set()
        lines = []
        for off, mn, ops, rel in ins:
            if not fs <= off < fe: continue
            try: st = insn(sec, off, mn, ops, rel, fs, fe)
            except (Bad, KeyError, AssertionError, IndexError, AttributeError, TypeError, ValueError) as ex:
                sys.exit("%s: %s+%x: not translated: %s %s (%s)" % (obj, name, off - fs, mn, ops, ex))
            for t in re.findall(r"goto L([0-9a-f]+);", st): used.add(t)
            lines.append((off, st))
        for off, st in lines:
            body.append("%s%s" % ("L%x: " % off if "%x" % off in used else "", st + ("" if st else ";")))
        body.append("A64_END(%s, %s)" % (cname[name], "" if isglobal[name] else "static"))

o.append('#include "a64.h"')
for s, n, t in datas: o.append("extern char %s[];" % secname(s))
for n in sorted(needed): o.append('extern A64_R a64x_%s() __asm__("%s");' % (n, n))
for n, c in cname.items(): o.append("%s;\nstatic void %s_t(A64_S *);" % (("%s A64_R %s(A64_ARGS)" % ("" if isglobal[n] else "static", c)).strip(), c))
# ---- data sections, as assembler
asm = []; slots = []
for s, n, t in datas:
    asm.append('.section %s,\\"%s\\",@%s' % (".a64" + s.split(".rel.ro")[0] if t != "BSS" else ".bss.a64", "a" if s.startswith(".rodata") and False else "aw", "nobits" if t == "BSS" else "progbits"))
    asm.append(".balign 64"); asm.append(".globl %s" % secname(s)); asm.append(".hidden %s" % secname(s)); 
    for nm, (ss, oo, g, f) in syms.items():
        if ss == s and g and not f: asm.append(".globl %s" % nm); asm.append(".set %s, %s+%d" % (nm, secname(s), oo))
    asm.append("%s:" % secname(s))
    if t == "BSS": asm.append(".zero %d" % n); continue
    raw = {}
    for l in run(OD, "-s", "-j", s, obj).splitlines():
        m = re.match(r"^ ([0-9a-f]+) ((?:[0-9a-f]+ ?){1,4}) ", l)
        if m:
            h = l[len(m[1]) + 2:len(m[1]) + 2 + 35].replace(" ", "")
            for k in range(0, len(h), 2): raw[int(m[1], 16) + k // 2] = int(h[k:k + 2], 16)
    rels = {}
    on = False
    for l in run(OD, "-r", "-j", s, obj).splitlines():
        m = re.match(r"^RELOCATION RECORDS FOR \[(\S+)\]:", l)
        if m: on = m[1] == s; continue
        m = re.match(r"^([0-9a-f]{16}) (\S+)\s+(\S+)$", l)
        if m and on:
            if m[2] != "R_AARCH64_ABS64": sys.exit("%s: relocation %s in %s" % (obj, m[2], s))
            rels[int(m[1], 16)] = m[3]
    k = 0
    while k < n:
        if k in rels:
            m = re.match(r"^(.*?)(?:\+0x([0-9a-f]+))?$", rels[k]); base, add = m[1], int(m[2] or "0", 16)
            if base in cname: e = cname[base]
            elif (base, add) in funcs: e = cname[funcs[(base, add)]]
            elif base in syms: e = "%s+%d" % (secname(syms[base][0]), syms[base][1] + add)
            else: e = "%s+%d" % (secname(base) if any(base == x[0] for x in datas) else base, add)
            if BE: slots.append("%s+%d" % (secname(s), k))
            asm.append(".quad %s" % e); k += 8
        else:
            run_ = []
            while k < n and k not in rels and len(run_) < 32: run_.append(str(raw.get(k, 0))); k += 1
            asm.append(".byte " + ",".join(run_))
if slots:        # addresses in data, turned round before the program starts
    asm += ['.section .a64slots_%s,\\"aw\\",@progbits' % tag, ".globl a64slots_" + tag, ".hidden a64slots_" + tag, "a64slots_%s:" % tag] + [".quad " + x for x in slots]
    body.append("extern uint64_t *a64slots_%s[]; static __attribute__((constructor)) void a64_turn(void) { for (int i = 0; i < %d; i++) *a64slots_%s[i] = __builtin_bswap64(*a64slots_%s[i]); }" % (tag, len(slots), tag, tag))
asm.append(".text")
with open(out, "w") as f:
    f.write("\n".join(o) + "\n")
    if len(asm) > 1: f.write("__asm__(\n" + "\n".join('"%s\\n"' % a for a in asm) + ");\n")
    f.write("\n".join(body) + "\n")
