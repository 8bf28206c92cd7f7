#!/usr/bin/env python3
"""Writes seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json} from tools/plants/*.py and tries them.
  plant.py write [id...]   write the folders (checks that the patch applies to /repo's HEAD)
  plant.py try [-j N] [id...]  in a scratch copy each: build, stable tests, demo before/after, this property's check
A definition: BUGS = {id: dict(property, edits=[(file, old, new[, nth])], needs, breaks, demo, [cc])}
"""
import sys, os, json, subprocess, glob, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUGS = {}
# the commit the work started from: the parent of the first fix: commit
BASE = subprocess.run("git -C %s log --reverse --format=%%H --grep=^fix: | head -1" % REPO, shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
BASE = BASE and BASE + "^"
for f in sorted(glob.glob(V + "/tools/plants/*.py")):
    ns = {}
    exec(compile(open(f).read(), f, "exec"), ns)
    for k, b in ns["BUGS"].items():
        assert k not in BUGS, k
        BUGS[k] = b

PRE = r'''#include <racrypt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define FAIL(...) do { printf(__VA_ARGS__); puts(""); exit(1); } while (0)
#define EXPECT(c) do { if (!(c)) FAIL("line %d: %s", __LINE__, #c); } while (0)
__attribute__((unused)) static void unhex(const char *h, uint8_t *o) { unsigned v; while (sscanf(h, "%2x", &v) == 1) { *o++ = (uint8_t)v; h += 2; } }
__attribute__((unused)) static struct RaBigNumber *bnhex(const char *h, int words) {
	uint8_t b[4096]; int n = (int)strlen(h) / 2; struct RaBigNumber *x = BnNewW(words); unhex(h, b);
	if (BnSetUByteArray(x, b, n) != RA_ERR_SUCCESS) FAIL("bnhex"); return x; }
'''
SH = '''#!/bin/bash
# exit 0 when the property holds on this demonstration, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -f "$t/demo"; rmdir "$t"' EXIT
%s || exit 2
timeout 250 "$t/demo"
'''
CC_LIB = 'gcc -O1 -g -w -Isrc/include "$d/demo.c" _build/libracrypt.a -o "$t/demo" -lpthread -lm'
SRCS = "src/com/*.c src/pk/*.c src/digest/{md2,md4,md5,sha1,sha2,has160}.c src/cipher/{block_cipher,des,aes,rc4,seed,aria,blowfish}.c"
def cc_src(flags): return f'gcc -g -w {flags} -Isrc/include "$d/demo.c" {SRCS} -o "$t/demo" -lpthread -lm'

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def write(k):
    b = BUGS[k]
    d = f"{V}/seeded/{k}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        run(["git", "-C", REPO, "archive", "-o", w + "/a.tar", "HEAD"], check=True)
        run(["tar", "xf", "a.tar"], cwd=w, check=True); os.remove(w + "/a.tar")
        for c in (["init", "-q"], ["add", "-A"], ["-c", "user.name=x", "-c", "user.email=x@x", "commit", "-qm", "x"]):
            run(["git"] + c, cwd=w, check=True)
        for e in b["edits"]:
            f, old, new = e[:3]
            nth = e[3] if len(e) > 3 else None
            p = w + "/" + f
            s = open(p, encoding="utf-8", newline="").read()
            crlf = "\r\n" in s
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = s.count(old)
            if nth is None:
                assert n == 1, (k, f, old, n)
                s = s.replace(old, new)
            else:
                parts = s.split(old)
                assert n > nth, (k, f, old, n)
                s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
            open(p, "w", encoding="utf-8", newline="").write(s)
        diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, check=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(w)
    cc = b.get("cc")
    if cc and "gcc" not in cc: cc = cc_src(cc)
    open(d + "/demo.sh", "w").write(SH % (cc or CC_LIB))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.c", "w").write(PRE + b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = run(["git", "-C", REPO, "apply", "--check", d + "/patch.diff"])
    base = run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"]).stdout.split()[-1]
    base = BASE or base
    orig = False; added = 0
    for f in {e[0] for e in b["edits"]}:
        o = {re.sub(rb"\s+", b"", l) for l in subprocess.run(["git", "-C", REPO, "show", base + ":" + f], stdout=subprocess.PIPE).stdout.splitlines()} - {b"", b"{", b"}"}
        cur = None
        for l in diff.splitlines():
            if l.startswith(b"+++ "): cur = l[6:].decode().strip()
            elif cur == f and l.startswith(b"-") and not l.startswith(b"--- ") and re.sub(rb"\s+", b"", l[1:]) in o: orig = True
    if not orig: print(k, "REMOVES NO ORIGINAL LINE !!")
    print(k, "written", "applies" if r.returncode == 0 else "DOES NOT APPLY " + r.stdout, flush=True)

STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def build(w):
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    r = run(f"cmake -S {w} -B {w}/_build -G Ninja -DCMAKE_BUILD_TYPE= -DCMAKE_PROJECT_racrypt_INCLUDE=/opt/vp/harness/extra.cmake && ninja -C {w}/_build && ninja -C {w}/_build racrypt_case", shell=True, env=env)
    return r.returncode == 0, r.stdout

def attempt(k, tests=True, checks=None, tier="quick"):
    d = f"{V}/seeded/{k}"
    meta = json.load(open(d + "/meta.json"))
    w = f"/tmp/try-{k}"
    if os.path.exists(w): shutil.rmtree(w)
    out = []
    try:
        os.makedirs(w)
        run(f"git -C {REPO} archive HEAD | tar x -C {w}", shell=True, check=True)
        ok, o = build(w)
        if not ok: return k, "clean build failed " + o[-500:]
        r = run(["bash", d + "/demo.sh"], cwd=w)
        out.append("demo-clean %d%s" % (r.returncode, "" if r.returncode == 0 else " !! " + r.stdout[-300:]))
        r = run(["git", "apply", d + "/patch.diff"], cwd=w)
        if r.returncode: return k, "patch does not apply " + r.stdout
        ok, o = build(w)
        if not ok: return k, "patched build failed " + o[-800:]
        r = run(["bash", d + "/demo.sh"], cwd=w)
        out.append("demo-bug %d%s (%s)" % (r.returncode, "" if r.returncode not in (0, 2, 3) else " !!", r.stdout.strip()[-120:]))
        if tests:
            os.makedirs(w + "/_build/vp-logs", exist_ok=True)
            s = open("/opt/vp/harness/run_cases.py").read().replace("/repo", w)
            open(w + "/_build/rc.py", "w").write(s)
            r = run(f"python3 {w}/_build/rc.py {w}/_build/vp-logs && python3 /opt/vp/results.py {w}/_build/o.json lines:{w}/_build/vp-logs/results.txt", shell=True, cwd=w)
            try:
                res = json.load(open(w + "/_build/o.json"))
                bad = STABLE - set(res["passed"])
                out.append("tests ok" if not bad else "TESTS FAIL !! %s" % sorted(bad)[:5])
            except Exception as e:
                out.append("tests ?? %s %s" % (e, r.stdout[-300:]))
        for c in checks or [meta["property"]]:
            # a private copy of /verif, so that several can run at once
            pv = f"/tmp/tryv-{k}"
            if os.path.exists(pv): shutil.rmtree(pv)
            os.makedirs(pv)
            run(f"cp -a {V}/run.py {V}/harness {V}/tools {V}/known_findings.txt {V}/properties.jsonl {V}/MANIFEST.json {pv}/ && mkdir -p {pv}/evidence", shell=True, check=True)
            env = dict(os.environ, RACRYPT_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
            r = run(["timeout", "900", "python3", pv + "/run.py", c] + (["--tier", "thorough"] if tier != "quick" else []), env=env, cwd=pv)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + c)]
            out.append("%s %s: exit %d, %d violation lines%s" % (c, "CAUGHT" if r.returncode == 1 and v else "MISSED !!", r.returncode, len(v), "" if r.returncode in (0, 1) else r.stdout[-600:]))
            shutil.rmtree(pv)
    finally:
        if os.path.exists(w): shutil.rmtree(w)
    return k, "; ".join(out)

if __name__ == "__main__":
    a = sys.argv[1:]
    mode = a.pop(0)
    j = 2; tests = True; checks = None; tier = "quick"
    while a and a[0].startswith("-"):
        o = a.pop(0)
        if o == "-j": j = int(a.pop(0))
        if o == "--no-tests": tests = False
        if o == "--thorough": tier = "thorough"
        if o == "--check": checks = a.pop(0).split(",")
    ids = [k for k in (a or BUGS)]
    if a: ids = [k for k in BUGS if any(re.fullmatch(p, k) for p in a)]
    if mode == "write":
        for k in ids: write(k)
    else:
        with ThreadPoolExecutor(j) as ex:
            cj = V + "/tools/caught.json"
            for k, s in ex.map(lambda k: attempt(k, tests, checks, tier), ids):
                print(k, "::", s, flush=True)
                d = json.load(open(cj)) if os.path.exists(cj) else {}
                old = set(d.get(k, "").replace("none", "").split())
                for c, w in re.findall(r"(P\d\d) (CAUGHT|MISSED)", s):
                    (old.add if w == "CAUGHT" else old.discard)(c)
                d[k] = " ".join(sorted(old)) or "none"
                json.dump(d, open(cj, "w"), indent=1, sort_keys=True)
