"""Plants, confirms and re-checks seeded bugs in a scratch copy of /repo.
   from seed import seed;  seed(id, prop, needs, breaks, [(file, old, new), ...], demo_source)
   python3 tools/seed.py [--all] [id ...]     re-confirm stored bugs and run their check"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/seedrepo"; BASE = "5bed09f"
FLAGS = "-DCMAKE_BUILD_TYPE=Debug -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -DCatch2_DIR=/usr/lib/cmake/Catch2 -Dspirv-headers_DIR=/opt/vp/cmake -Dspirv-tools_DIR=/opt/vp/cmake -DSPVGENTWO_BUILD_TESTS=TRUE -DSPVGENTWO_BUILD_DISASSEMBLER=TRUE -DSPVGENTWO_BUILD_REFLECT=TRUE -DSPVGENTWO_BUILD_LINKER=TRUE"
DEMO = '''#!/bin/bash
# builds demo.cpp against the tree in the current directory; exit 0 when the property holds there
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2
g++ -std=c++17 -w -DSPVGENTWO_ENABLE_OPERANDVALIDATION=1 -DSPVGENTWO_ENABLE_WARNINGS=1 -DSPVGENTWO_LOGGING=1 -DSPVGENTWO_REPLACE_PLACEMENTNEW=1 -DSPVGENTWO_REPLACE_TRAITS=1 \\
	-Ilib/include -Icommon/include "$d/demo.cpp" _build/libSpvGenTwoCommon.a _build/libSpvGenTwoLib.a %s -o "$t/demo"
r=$?
if [ $r = 0 ]; then (cd "$t" && timeout 60 ./demo "$OLDPWD"); r=$?; else r=3; fi
rm -f "$t"/*; rmdir "$t" 2>/dev/null
exit $r
'''
def sh(cmd, cwd=W, timeout=900, **k): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, **k)
def prepare():
    if not os.path.exists(W): subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    sh("git checkout -q -- . && git fetch -q origin && git checkout -q --detach FETCH_HEAD")
def build():
    r = sh(f"CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S {W} -B {W}/_build -G Ninja {FLAGS} >/dev/null && ninja -C {W}/_build -j8")
    return r.returncode == 0, r.stdout[-3000:] + r.stderr[-1000:]
def tests():
    r = sh(f"ctest --test-dir {W}/_build -j8 --timeout 120", timeout=300); bad = [l for l in r.stdout.splitlines() if re.search(r"\*\*\*|Failed|Timeout", l) and "constants.spv" not in l]
    ok = r.returncode == 0; n = 0
    for f in sorted(os.listdir(W + "/dis/test")):
        if f.endswith(".spv"):
            q = sh(f"timeout 60 {W}/_build/SpvGenTwoDisassembler {W}/dis/test/{f} --assignids")
            if q.returncode and f != "constants.spv": ok = False; bad.append(f)
    return ok, "\n".join(bad)
def demo(i): 
    r = sh(f"bash {V}/seeded/{i}/demo.sh"); return r.returncode, (r.stdout + r.stderr)[-600:]
def check(prop, tier="quick"):
    e = dict(os.environ, MC_REPO=W, MC_BUILD="/tmp/seedbuild", MC_EVIDENCE="/tmp/seedevidence"); t = time.time()
    r = subprocess.run(["python3", "run.py", prop, "--tier", tier], cwd=V, env=e, capture_output=True, text=True)
    return r.returncode, [l for l in r.stdout.splitlines() if "sig=" in l or "VIOLATION" in l][:6] + (r.stderr[-500:].splitlines() if r.returncode == 2 else []), time.time() - t
def verify(i, run=True):
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); prepare(); probs = []
    ok, t = build()
    if not ok: print(i, "CLEAN BUILD FAILED", t); return False
    r, o = demo(i)
    if r: probs.append(f"demo fails on the unchanged tree ({r}): {o}")
    a = sh(f"git apply {d}/patch.diff")
    if a.returncode: print(i, "PATCH DOES NOT APPLY", a.stderr); return False
    for f in sh("git diff --name-only").stdout.split():
        old = set(sh(f"git show {BASE}:{f}").stdout.splitlines())
        for l in sh(f"git diff -U0 {f}").stdout.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in old: probs.append("changes a line that is not original: " + l[:100])
    ok, t = build()
    if not ok: probs.append("does not build: " + t)
    else:
        ok, t = tests()
        if not ok: probs.append("tests fail: " + t)
        r, o = demo(i)
        if r == 0: probs.append("demo passes with the change")
        elif r in (2, 3): probs.append("demo does not build with the change: " + o)
        else: print(f"  demo({r}): {o.strip()[-200:]}")
    res = None
    if run and not probs:
        res = check(meta["property"]); print(f"  check {meta['property']}: exit {res[0]} in {res[2]:.0f}s", *res[1], sep="\n    ")
    sh("git checkout -q -- .")
    if res:
        f = V + "/tools/caught.json"; c = json.load(open(f)) if os.path.exists(f) else {}
        m = re.search(r"sig=([^|]*)", " ".join(res[1])); c[i] = f"{meta['property']}: {m.group(1).strip()[:60] if m else 'violation'}" if res[0] == 1 else "missed"; json.dump(c, open(f, "w"), indent=1, sort_keys=True)
    print(i, "PROBLEMS: " + " | ".join(probs) if probs else ("CAUGHT" if res and res[0] == 1 else "confirmed, NOT CAUGHT" if res else "confirmed")); sys.stdout.flush()
    return not probs
def seed(i, prop, needs, breaks, subs, src, libs="", extra=None, script=None):
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True); prepare()
    for f, old, new in subs:
        p = f"{W}/{f}"; s = open(p, newline="").read(); crlf = "\r\n" in s
        if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (i, f, s.count(old)); open(p, "w", newline="").write(s.replace(old, new))
    p = subprocess.run("git diff", shell=True, cwd=W, capture_output=True).stdout; open(d + "/patch.diff", "wb").write(p); sh("git checkout -q -- .")
    open(d + "/demo.sh", "w").write(script or DEMO % libs); os.chmod(d + "/demo.sh", 0o755)
    if src: open(d + "/demo.cpp", "w").write(src)
    for k, v in (extra or {}).items(): open(f"{d}/{k}", "w").write(v)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    return verify(i)
if __name__ == "__main__":
    a = sys.argv[1:]; ids = sorted(os.listdir(V + "/seeded")) if "--all" in a else [x for x in a if not x.startswith("-")]
    for i in ids: verify(i, "--norun" not in a)
