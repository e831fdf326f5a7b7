#!/usr/bin/env python3
"""Runs one check:  run.py <property> [--tier quick|thorough]      exit 0 held / 1 violation / 2 machinery error
   Replays one path: run.py replay <file>"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
EVIDENCE = os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(EVIDENCE, "replays") if "MC_EVIDENCE" in os.environ else os.path.join(VERIF, "replays")
sys.path.insert(0, VERIF)

DEFS = ["-DSPVGENTWO_ENABLE_OPERANDVALIDATION=1", "-DSPVGENTWO_ENABLE_WARNINGS=1", "-DSPVGENTWO_LOGGING=1",
        "-DSPVGENTWO_REPLACE_PLACEMENTNEW=1", "-DSPVGENTWO_REPLACE_TRAITS=1"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,enum,bool,alignment,null"]
BASE = ["-std=c++17", "-fno-lifetime-dse", "-g1", "-fno-omit-frame-pointer", "-w"]
INC = ["-I", REPO + "/lib/include", "-I", REPO + "/common/include", "-I", VERIF + "/mc", "-I", VERIF + "/harness"]
CXX = "/usr/bin/g++"


class Broken(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def tree_hash(patterns):
    h = hashlib.sha256()
    for pat in patterns:
        for f in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(f):
                h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(src, flags, hdr):
    os.makedirs(BUILD + "/obj", exist_ok=True)
    key = sha(open(src, "rb").read(), " ".join(flags), hdr, src)
    out = f"{BUILD}/obj/{os.path.basename(src)}.{key}.o"
    if not os.path.exists(out):
        tmp = out + f".tmp{os.getpid()}"
        r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise Broken(f"compiling {src} failed:\n{r.stderr[-4000:]}")
        os.rename(tmp, out)
    return out


def lib_flags(src, san):
    """The generated table in Grammar.cpp is one huge constructor: minutes to compile with sanitizers, so it goes without."""
    return [*BASE, "-O0", *DEFS, *INC] if src.endswith("/Grammar.cpp") else [*BASE, "-O1", *san, *DEFS, *INC]


def build(check):
    """Builds the harness and the parts of /repo it needs from the current working tree."""
    lib = check.get("lib", "none")
    srcs = []
    if lib == "core":
        srcs = [REPO + "/lib/source/String.cpp", REPO + "/lib/source/Allocator.cpp", REPO + "/common/source/HeapAllocator.cpp",
                REPO + "/common/source/ExternalMemoryAllocator.cpp", REPO + "/common/source/BinaryFileReader.cpp", REPO + "/common/source/BinaryFileWriter.cpp"]
    elif lib == "full":
        srcs = sorted(glob.glob(REPO + "/lib/source/*.cpp")) + sorted(glob.glob(REPO + "/common/source/*.cpp"))
    hdr = tree_hash([REPO + "/lib/include/**/*", REPO + "/common/include/**/*"])
    mch = tree_hash([VERIF + "/mc/*.h", VERIF + "/harness/*.h", BUILD + "/gen/*"])
    san = check.get("san", SAN)
    jobs = []
    for s in srcs:
        jobs.append((s, lib_flags(s, san), hdr))
    jobs.sort(key=lambda j: j[0].endswith("Grammar.cpp"))  # last, so that sanitized template instances win at link time
    for h in check["harness"]:
        jobs.insert(0, (VERIF + "/harness/" + h, [*BASE, check.get("opt", "-O1"), *san, *DEFS, *INC, "-I", BUILD + "/gen", *check.get("cflags", [])], hdr + mch))
    # the same library under other build options, each in namespaces of its own so that all fit into one program
    for name, defs in check.get("variants", {}).items():
        own = [f"-D{n}={n}_{name}" for n in ("spvgentwo", "ir", "prog", "scale", "track")] + [f"-DC35_NAME={name}"]
        vsrcs = sorted(glob.glob(REPO + "/lib/source/*.cpp")) + sorted(glob.glob(REPO + "/common/source/*.cpp"))
        for s in [VERIF + "/harness/" + check["variant_src"], *vsrcs]:
            flags = [*[f for f in BASE if f != "-g1"], "-O0" if s.endswith("/Grammar.cpp") else "-O1", *defs, *INC, *own]
            jobs.append((s, flags, hdr + (mch if s.startswith(VERIF) else "")))
    jobs.append((VERIF + "/mc/mc.cpp", [*BASE, "-O2", *INC], mch))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    libs = check.get("libs", [])
    exe = f"{BUILD}/bin.{check['id']}.{sha(*objs, ' '.join(libs))}"
    if not os.path.exists(exe):
        r = subprocess.run([CXX, *san, "-o", exe + ".tmp", *objs, *libs, "-lpthread"], capture_output=True, text=True)
        if r.returncode and lib == "core":  # the sources listed above moved: take the whole library
            return build({**check, "lib": "full"})
        if r.returncode:
            raise Broken("link failed:\n" + r.stderr[-4000:])
        os.rename(exe + ".tmp", exe)
    return exe


def env_for(check, scratch):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=4194304:malloc_fill_byte=190:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:quarantine_size_mb=2:malloc_context_size=2:thread_local_quarantine_size_kb=64"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    e["TMPDIR"] = scratch
    e.update(check.get("env", {}))
    return e


def summarize_crash(text):
    m = re.search(r"SUMMARY: \w+: (\S+) (\S+?)(?::\d+)*(?: in (.*))?$", text, re.M)
    err = m.group(1) if m else None
    m2 = re.search(r"([\w./+-]+):(\d+):\d+: runtime error: (.*)", text)
    if m2 and not (m and "AddressSanitizer" in m.group(0)):
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(3))[:120]
    if err:
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)[^\n]*?/(?:lib|common)/(?:include|source)/", text)
        return f"{err}@{fr[0] if fr else '?'}"
    m = re.search(r"(terminate called.*|Assertion.*failed)", text)
    return m.group(1)[:160] if m else "signal"


def replay_path(exe, check, tier, v, scratch, timeout=90):
    cmd = [exe, "--tier", tier, "--scenario", v["scenario"], "--scratch", scratch, "--replay", ",".join(map(str, v["path"]))]
    try:
        r = subprocess.run(cmd, capture_output=True, env=env_for(check, scratch), timeout=timeout)
        text = r.stdout.decode(errors="replace") + r.stderr.decode(errors="replace")
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        text = (e.stdout or b"").decode(errors="replace")[-20000:] + (e.stderr or b"").decode(errors="replace")[-2000:]
        ops = re.findall(r"^  op (\w+)", text, re.M)
        return True, "hang:" + (ops[-1] if ops else "start"), text, "hang"
    if rc == 0:
        return False, "", text, "ok"
    if rc == 78:
        raise Broken("replay broken: " + text[-2000:])
    m = re.search(r"^FAIL sig=(.*)$", text, re.M)
    if rc == 77 and m:
        return True, m.group(1), text, "fail"
    ops = re.findall(r"^  op (\w+)", text, re.M)
    return True, f"crash:{ops[-1] if ops else 'start'}:{summarize_crash(text)}", text, "crash"


def load_known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def match_known(prop, sig, known):
    for k in known["findings"]:
        if k["property"] == prop and any(sig == s or re.fullmatch(s, sig) for s in k["signatures"]):
            return k
    return None


def run_check(prop, tier):
    from checks import CHECKS
    check = dict(CHECKS[prop]); check["id"] = prop
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    known = load_known()
    violations, seen_known = [], []
    try:
        if "gen" in check:
            os.makedirs(BUILD + "/gen", exist_ok=True)
            check["gen"](REPO, BUILD + "/gen")
        if "tools" in check:
            check["env"] = {**check.get("env", {}), **build_tools(check, scratch)}
        exe = build(check)
        tb = time.time()
        out = scratch + "/out.json"
        budget = check.get("budget", {}).get(tier, 420 if tier == "quick" else 780)
        kn = [s for k in known["findings"] if k["property"] == prop for s in k["signatures"]]
        cmd = [exe, "--out", out, "--tier", tier, "--budget", str(budget), "--scratch", scratch,
               "--hang", str(check.get("hang", 30)), "--max-violations", str(check.get("max_violations", 400 if kn else 24)), "--workers", str(check.get("workers", 8))]
        r = subprocess.run(cmd, capture_output=True, env=env_for(check, scratch), timeout=budget * 2 + 600)
        if r.returncode not in (0, 78) or not os.path.exists(out):
            raise Broken(f"explorer exit {r.returncode}: {r.stdout[-1500:]} {r.stderr[-1500:]}")
        res = json.load(open(out))
        if res["broken"]:
            raise Broken("harness: " + res["broken"])
        unreproduced = []
        samples = []
        for s in res["scenarios"]:
            for pth in s["samples"][:1]:
                if len(samples) < 6:
                    try:
                        _, _, text, _ = replay_path(exe, check, tier, {"scenario": s["name"], "path": pth}, scratch)
                        lines = [l.strip() for l in text.splitlines() if l.startswith("  ")]
                        samples.append({"scenario": s["name"], "decisions": pth[:64], "trace": lines[:24]})
                    except Broken:
                        pass
        for v in res["violations"]:
            bad, sig, text, kind = replay_path(exe, check, tier, v, scratch)
            if not bad:
                bad, sig, text, kind = replay_path(exe, check, tier, v, scratch)
            if not bad:
                unreproduced.append(v)
                continue
            k = match_known(prop, sig, known)
            if k:
                if k["id"] not in seen_known:
                    seen_known.append(k["id"])
                continue
            violations.append((sig, v, text))
        if unreproduced and not violations:
            raise Broken("violation did not reproduce on replay: " + json.dumps(unreproduced[:3])[:1500])
    finally:
        if os.environ.get("MC_KEEP") is None:
            shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    sc = res["scenarios"]
    cov = {
        "states": sum(s["states"] for s in sc), "transitions": sum(s["transitions"] for s in sc),
        "traces_validated_against_impl": sum(s["executions"] for s in sc),
        "oracle_comparisons": sum(s["checks"] for s in sc), "pruned_equivalent": sum(s["pruned"] for s in sc),
        "exhaustive": all(s["exhaustive"] for s in sc),
        "bounds": check.get("bounds", {}).get(tier, check.get("bounds", "")) if isinstance(check.get("bounds"), dict) else check.get("bounds", ""),
        "scenarios": [{k: s[k] for k in ("name", "executions", "transitions", "states", "checks", "pruned", "max_decisions", "exhaustive", "wall_s")} |
                      {"outcomes": dict(sorted(s["outcomes"].items(), key=lambda kv: -kv[1])[:16])} for s in sc],
        "samples": samples,
        "explanation": "every execution runs the real code built from /repo's working tree and is compared step by step with the reference model; each explored path is therefore also a model trace validated against the implementation",
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": check.get("assumptions", []) + ["distinct-state counts use 64-bit hashes"], "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump(ev, open(f"{EVIDENCE}/{prop}.json", "w"), indent=1)
    print(f"{prop} {tier}: executions={cov['traces_validated_against_impl']} states={cov['states']} transitions={cov['transitions']} "
          f"checks={cov['oracle_comparisons']} exhaustive={cov['exhaustive']} build={tb - t0:.0f}s wall={wall:.0f}s")
    for s in sc:
        print(f"  {s['name']}: exec={s['executions']} states={s['states']} trans={s['transitions']} pruned={s['pruned']} exh={s['exhaustive']} {s['wall_s']}s viol={s['violating_paths']} "
              + " ".join(f"{k}={v}" for k, v in sorted(s["outcomes"].items(), key=lambda kv: -kv[1])[:8]))
    for k in known["findings"]:
        if k["property"] == prop and k["id"] in seen_known:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        os.makedirs(REPLAYS, exist_ok=True)
        for i, (sig, v, text) in enumerate(violations):
            p = f"{REPLAYS}/{prop}-{i}.json"
            json.dump({"property": prop, "tier": tier, "scenario": v["scenario"], "path": v["path"], "sig": sig, "kind": v["kind"],
                       "message": v["msg"], "trace": text[-6000:]}, open(p, "w"), indent=1)
            if i < 12:
                print(f"  sig={sig} scenario={v['scenario']} msg={v['msg'][:400]}")
                print(f"VIOLATION property={prop} replay={p}")
        return 1
    return 0


def build_tools(check, scratch):
    """Builds the command line tools of /repo (sanitized) for checks that run them."""
    hdr = tree_hash([REPO + "/lib/include/**/*", REPO + "/common/include/**/*"])
    env = {}
    srcs = sorted(glob.glob(REPO + "/lib/source/*.cpp")) + sorted(glob.glob(REPO + "/common/source/*.cpp"))
    tools = {"dis": "MC_TOOL_DIS", "refl": "MC_TOOL_REFL", "link": "MC_TOOL_LINK"}
    tsrc = {t: sorted(glob.glob(f"{REPO}/{t}/source/*.cpp")) for t in tools}
    allsrc = srcs + [s for t in tools for s in tsrc[t]]
    allsrc.sort(key=lambda s: s.endswith("Grammar.cpp"))
    with ThreadPoolExecutor(8) as ex:
        objs = dict(zip(allsrc, ex.map(lambda s: compile_one(s, lib_flags(s, SAN) + (["-I", REPO + "/" + s.split("/")[-3] + "/include"] if "/source/" in s else []), hdr), allsrc)))
    for t, var in tools.items():
        o = [objs[s] for s in srcs] + [objs[s] for s in tsrc[t]]
        exe = f"{BUILD}/tool.{t}.{sha(*o)}"
        if not os.path.exists(exe):
            r = subprocess.run([CXX, *SAN, "-o", exe + ".tmp", *o], capture_output=True, text=True)
            if r.returncode:
                raise Broken("link of tool failed:\n" + r.stderr[-3000:])
            os.rename(exe + ".tmp", exe)
        env[var] = exe
    return env


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "setup":
        for t in (CXX, "python3"):
            if not shutil.which(t):
                print("missing tool", t); return 2
        os.makedirs(BUILD, exist_ok=True)
        print("ready"); return 0
    if sys.argv[1] == "replay":
        from checks import CHECKS
        rec = json.load(open(sys.argv[2]))
        check = dict(CHECKS[rec["property"]]); check["id"] = rec["property"]
        os.makedirs(BUILD, exist_ok=True)
        if "gen" in check:
            os.makedirs(BUILD + "/gen", exist_ok=True); check["gen"](REPO, BUILD + "/gen")
        scratch = tempfile.mkdtemp(prefix="mc-replay-")
        if "tools" in check:
            check["env"] = {**check.get("env", {}), **build_tools(check, scratch)}
        bad, sig, text, kind = replay_path(build(check), check, rec["tier"], rec, scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        print(text); print("reproduced" if bad else "did not reproduce", sig)
        return 1 if bad else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    try:
        return run_check(sys.argv[1], tier)
    except Broken as e:
        print(f"MACHINERY-ERROR property={sys.argv[1]} {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
