#!/usr/bin/env python3
"""Mutation study: changes one token or statement of one library source at a time, and runs the checks' own harnesses
on the result until the first violation.  Survivors are either without effect or holes in the checks.
  mutate.py FILE... [-j N] [--ops re] [--lines a-b] [--limit N] [--stride K] [--props P15,P16] [--variants ship,...] [--out file]
Nothing in /repo is changed; everything happens in /tmp/mut.
"""
import sys, os, re, json, subprocess, shutil, hashlib, time, threading, queue, signal, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
import run
from checks import VARIANTS, HARNESS, CHECKS
REPO = run.REPO
PROPS = {
 "src/cipher/aes.c": "P01 P09 P37 P35", "src/cipher/aes_x86.c": "P01 P06 P09", "src/cipher/des.c": "P02 P09 P37 P35", "src/cipher/seed.c": "P03 P09 P37 P35",
 "src/cipher/aria.c": "P03 P09 P37 P35", "src/cipher/blowfish.c": "P04 P09 P37 P35", "src/cipher/rc4.c": "P05 P09 P37 P35", "src/cipher/block_cipher.c": "P08 P07 P06 P09",
 "src/digest/sha1.c": "P11 P13 P09 P37 P35", "src/digest/sha1_x86.c": "P11 P13", "src/digest/sha2.c": "P11 P13 P09 P37 P35", "src/digest/sha2_x86.c": "P11 P13",
 "src/digest/md2.c": "P12 P13 P09 P37 P35", "src/digest/md4.c": "P12 P13 P09 P37 P35", "src/digest/md5.c": "P12 P13 P09 P37 P35", "src/digest/has160.c": "P12 P13 P09 P37 P35",
 "src/com/bignumber.c": "P15 P16 P17 P18 P19 P20 P36 P37 P21 P35", "src/com/gcd.c": "P22 P21 P35", "src/com/montexpmod.c": "P23 P37 P35", "src/com/prime.c": "P24 P25 P35",
 "src/com/random.c": "P32 P33 P34 P36 P37 P35", "src/pk/rsa.c": "P26 P27 P28 P29 P31 P30 P37 P35", "src/pk/asn1.c": "P29 P31 P30"}
VARS = {"src/com/bignumber.c": "ship ndebug ndebugasan w32 noint128"}

def mask(s):
    """the same text with comments and strings blanked"""
    out = list(s)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', s, re.S):
        for i in range(m.start(), m.end()):
            if out[i] != "\n": out[i] = " "
    return "".join(out)

REL = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}
AR = {"+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "%": ["/"], "<<": [">>"], ">>": ["<<"], "&": ["|"], "|": ["&"], "^": ["|"],
      "+=": ["-="], "-=": ["+="], "++": ["--"], "--": ["++"], "|=": ["&="], "&=": ["|="], "^=": ["|="], "<<=": [">>="], ">>=": ["<<="]}
TOK = re.compile(r"<<=|>>=|->|\+\+|--|<=|>=|==|!=|&&|\|\||<<|>>|[-+*/%&|^]=|[-+*/%&|^<>]|\b0x[0-9a-fA-F]+\w*|\b\d+\w*|\bbreak\b|\bcontinue\b|\belse\b|\b[A-Za-z_]\w*")

def mutants(path):
    s = open(os.path.join(REPO, path), encoding="utf-8", newline="").read()
    m = mask(s)
    lines = m.split("\n"); off = 0; depth = 0
    for ln, l in enumerate(lines):
        st = l.strip()
        skip = not st or re.match(r"#\s*(if|else|elif|endif|include|undef|pragma|error)", st) or "assert" in st or st.startswith("extern") \
            or len(re.findall(r"0x[0-9a-fA-F]{2,}", st)) > 3 or len(re.findall(r"\b\d+\b\s*,", st)) > 6
        if not skip:
            toks = list(TOK.finditer(l))
            for i, t in enumerate(toks):
                x = t.group(); a, b = off + t.start(), off + t.end()
                if st.startswith("#define") and t.start() < l.find(st) + 8: continue
                prev = l[:t.start()].rstrip()[-1:] ; nxt = l[t.end():].lstrip()[:1]
                if x in REL: 
                    for r in REL[x]: yield ln, "rel", a, b, r
                elif x in AR:
                    unary = x in "+-*&" and (prev in "" or prev in "(,=<>!&|+-*/?:{[;" or re.search(r"\b(return|case|const|uint8_t|uint32_t|int|void|char|bn_uint_t|struct \w+)$", l[:t.start()].rstrip()))
                    typ = re.search(r"(struct\s+\w+|uint\w+_t|int|void|char|bn_\w+|FILE|sizeof)\s*\)?$", l[:t.start()].rstrip())
                    if unary or typ: continue
                    for r in AR[x]: yield ln, "arith", a, b, r
                elif re.match(r"\d", x):
                    mm = re.match(r"(0x[0-9a-fA-F]+|0|[1-9]\d*)(\w*)$", x)
                    if not mm: continue
                    v = int(mm.group(1), 0)
                    if v > 5000 and not x.startswith("0x"): continue
                    yield ln, "const", a, b, "%d%s" % (v + 1, mm.group(2))
                    if v > 0: yield ln, "const", a, b, "%d%s" % (v - 1, mm.group(2))
                elif x == "break": yield ln, "flow", a, b, "continue"
                elif x == "continue": yield ln, "flow", a, b, "break"
            mm = re.match(r"\s*(?:else\s+)?(if|while)\s*\((.*)\)\s*\{?\s*$", l)
            if mm and l.count("(") == l.count(")"):
                a = off + mm.start(2); b = off + mm.end(2)
                yield ln, "cond", a, b, "1"
                if mm.group(1) == "if": yield ln, "cond", a, b, "0"
            if st.endswith(";") and not re.match(r"(return|break|continue|goto|static|const|struct|enum|union|typedef|extern|uint\w+_t|int|bn_\w+|void|char|unsigned|double|size_t|FILE|for)\b", st) and not st.startswith("}") and "(" not in st[:0]:
                a = off + l.find(st); yield ln, "del", a, a + len(st), ";" if not st.startswith("case") else st
            if re.match(r"return\s+[^;]+;", st):
                pass
        off += len(l) + 1

def apply(path, mu):
    s = open(os.path.join(REPO, path), encoding="utf-8", newline="").read()
    return s[:mu[2]] + mu[4] + s[mu[3]:]

def main():
    a = sys.argv[1:]; files = []; o = dict(j="8", ops=".", lines="", limit="0", stride="1", props="", variants="", out="", timeout="240")
    while a:
        x = a.pop(0)
        if x.startswith("-"): o[x.lstrip("-")] = a.pop(0)
        else: files.append(x)
    for f in files: study(f, o)

def study(path, o):
    props = (o["props"] or PROPS[path].replace(" ", ",")).split(",")
    varis = (o["variants"] or VARS.get(path, "ship").replace(" ", ",")).split(",")
    jobs = []
    for p in props:
        for j in CHECKS[p]["jobs"]:
            if j["variant"] in varis and not j.get("thorough"): jobs.append((p, j["variant"], j["harness"], [str(x) for x in j.get("args", [])]))
    order = {p: i for i, p in enumerate(props)}
    jobs.sort(key=lambda j: (varis.index(j[1]) > 0, order[j[0]]))
    varis = [v for v in varis if any(j[1] == v for j in jobs)]
    run.harness_hash = getattr(run, "harness_hash", None) or "mut"
    rh = "mut" + hashlib.sha256(open(os.path.join(REPO, path), "rb").read()).hexdigest()[:8] + run.tree_hash(os.path.join(REPO, "src")) 
    run.BUILD = "/tmp/mut/build"; os.makedirs(run.BUILD, exist_ok=True)
    run.harness_hash = run.tree_hash(V + "/harness") if True else ""
    pairs = set((j[1], j[2]) for j in jobs)
    exes = run.build_all(pairs, rh)
    info = {}
    for v in varis:
        d, lib = run.build_lib(v, rh)
        cmds = subprocess.run(["ninja", "-C", d, "-t", "commands", "racrypt"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
        c = [x for x in cmds if x.rstrip().endswith("-c %s/%s" % (REPO, path))]
        if not c: continue
        c = c[0]
        objname = re.search(r" -o (\S+) ", c).group(1)
        c = re.sub(r" -MD -MT \S+ -MF \S+", "", c).replace(" -g ", " ").replace(" -o " + objname, " -o @OUT@")
        c = c.replace("-c %s/%s" % (REPO, path), "-w -I %s/%s -c @SRC@" % (REPO, os.path.dirname(path)))
        info[v] = (d, lib, objname, c)
    ms = [m for m in mutants(path) if re.search(o["ops"], m[1])]
    if o["lines"]:
        lo, hi = map(int, o["lines"].split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
    random.Random(1).shuffle(ms)
    ms = ms[::int(o["stride"])]
    if int(o["limit"]): ms = ms[:int(o["limit"])]
    text = open(os.path.join(REPO, path), encoding="utf-8", newline="").read().split("\n")
    q = queue.Queue(); [q.put(m) for m in ms]
    stat = dict(same=0, nocompile=0, killed=0, survived=0); lock = threading.Lock()
    out = open(o["out"] or "/tmp/mut/%s.txt" % os.path.basename(path), "a")
    ref = {}
    def compile(w, v, src, tag):
        d, lib, objname, c = info[v]
        ofile = os.path.join(w, tag + v + ".o")
        r = subprocess.run(c.replace("@OUT@", ofile).replace("@SRC@", src), shell=True, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return ofile if r.returncode == 0 else None
    def worker(k):
        w = "/tmp/mut/w%d-%s" % (k, os.path.basename(path)); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        src = os.path.basename(path)
        orig = open(os.path.join(REPO, path), encoding="utf-8", newline="").read()
        open(os.path.join(w, src), "w", newline="").write(orig)
        base = {v: hashlib.sha256(open(compile(w, v, src, "base"), "rb").read()).hexdigest() for v in info}
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            open(os.path.join(w, src), "w", encoding="utf-8", newline="").write(orig[:m[2]] + m[4] + orig[m[3]:])
            t0 = time.time(); res = "survived"; how = ""; built = {}
            changed = False
            for v in info:
                ob = compile(w, v, src, "base")
                if ob is None: built = None; break
                if hashlib.sha256(open(ob, "rb").read()).hexdigest() == base[v]: continue
                changed = True; built[v] = ob
            if built is None: res = "nocompile"
            elif not changed: res = "same"
            else:
                exec_ = {}
                for p, v, h, args in jobs:
                    if v not in built: continue
                    d, lib, objname, c = info[v]
                    if (v, h) not in exec_:
                        l2 = os.path.join(w, "lib%s.a" % v)
                        if not os.path.exists(l2 + ".ok") or open(l2 + ".ok").read() != str(m[:5]):
                            shutil.copy(lib, l2)
                            on = os.path.basename(objname); shutil.copy(built[v], os.path.join(w, on))
                            subprocess.run(["ar", "r", l2, os.path.join(w, on)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                            open(l2 + ".ok", "w").write(str(m[:5]))
                        objs, _ = run.build_objs(v, h, d)
                        exe = os.path.join(w, "x%s%s" % (v, h))
                        r = subprocess.run(["g++", "-g1"] + VARIANTS[v].get("link", "").split() + objs + [l2] + HARNESS[h].get("link", []) + ["-o", exe, "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                        if r.returncode: res = "nolink"; how = r.stdout[-300:]; break
                        exec_[(v, h)] = exe
                    st = os.path.join(w, "st")
                    pr = subprocess.Popen([exec_[(v, h)], "--prop", p, "--tier", "quick", "--shard", "0/1", "--status", st] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=run.ENV, cwd=w, start_new_session=True)
                    timer = threading.Timer(float(o["timeout"]) * (3 if p in ("P06", "P07") else 1), lambda: os.killpg(pr.pid, signal.SIGKILL)); timer.start()
                    hit = None; ended = False
                    for line in pr.stdout:
                        if '"viol"' in line and '"ev":"viol"' in line: hit = line.strip()[:200]; break
                        if '"ev":"end"' in line: ended = True
                    try: os.killpg(pr.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    if pr.returncode is None and ended: pass
                    pr.wait(); alive = timer.is_alive(); timer.cancel()
                    if hit: res = "killed"; how = p + " " + v + " " + hit; break
                    if not ended:
                        res = "killed"; how = "%s %s %s" % (p, v, "crash %d" % pr.returncode if alive else "timeout"); break
            with lock:
                stat[res] = stat.get(res, 0) + 1
                print("%s\t%s:%d\t%s\t%s => %s\t%.1fs\t%s\t%s" % (res, path, m[0] + 1, m[1], orig[m[2]:m[3]], m[4], time.time() - t0, text[m[0]].strip(), how), file=out, flush=True)
        shutil.rmtree(w, ignore_errors=True)
    ths = [threading.Thread(target=worker, args=(k,)) for k in range(int(o["j"]))]
    [t.start() for t in ths]; [t.join() for t in ths]
    print(path, len(ms), "mutants:", stat, flush=True)

if __name__ == "__main__":
    main()
