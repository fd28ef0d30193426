#!/usr/bin/env python3
"""check.py PROPERTY : decide one property on /repo's current tree.

1. every unit of the property (contracts/*.vs) is re-extracted from /repo's sources and given to Verus
2. the harness of the property (harness/PROPERTY.cpp) is built against /repo's sources; it looks for the failing
   input of a failed obligation, and stands in (bounded) for the functions that are not under contract
exit 0: held on everything explored.  exit 1: VIOLATION line."""
import sys, os, re, json, time, subprocess, hashlib, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import verify, cunit, plan
def run_unit(u, work, tier): return (cunit if os.path.exists(os.path.join(V, "contracts", u + ".con")) else verify).run_unit(u, REPO, work, tier)
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = ["clang++", "-std=c++17", "-fno-exceptions", "-DNDEBUG", "-w"]
LIBFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
HFLAGS = ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

# ------------------------------------------------------------------ library build (content addressed objects)
def sources():
    r = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        if os.path.basename(d) == "Distributed": continue
        r += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(r)
def headers_hash():
    h = hashlib.sha256()
    for root in ("src", "third_party"):
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc", ".cuh", ".cpp")) and not (f.endswith(".cpp")):
                    h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()
def obj(src, hh, odir, flags, inc=()):
    key = hashlib.sha256((hh + src + " ".join(flags) + hashlib.sha256(open(src, "rb").read()).hexdigest()).encode()).hexdigest()[:24]
    o = os.path.join(odir, key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(CXX + flags + ["-I", REPO + "/src", "-I", REPO + "/third_party", "-I", V + "/harness", "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode: return None, src + "\n" + r.stderr[-4000:]
        os.replace(tmp, o)
    else: os.utime(o)
    return o, ""
BIG = ("OpElemWiseCpu", "Tensor.cpp", "OpSamplingCpu", "Basic.cpp", "Loss.cpp", "OpTransformCpu", "Norm.cpp")
def build_harness(prop, work):
    h = os.path.join(V, "harness", prop + ".cpp")
    if not os.path.exists(h): return None, "no harness"
    odir = os.path.join(V, "build", "obj"); os.makedirs(odir, exist_ok=True)
    hh = headers_hash()
    hc = hh + hashlib.sha256(open(os.path.join(V, "harness", "common.h"), "rb").read()).hexdigest()
    for inc in re.findall(r'^#include "([^"]*\.cpp)"', open(h).read(), re.M):       # sources the harness compiles itself
        for root in (REPO + "/src/", V + "/harness/"):
            if os.path.exists(root + inc): hc += hashlib.sha256(open(root + inc, "rb").read()).hexdigest()
    srcs = sorted(sources(), key=lambda s: 0 if s.endswith(BIG) or any(b in s for b in BIG) else 1)
    todo = [(h, hc, HFLAGS)] + [(s, hh, LIBFLAGS) for s in srcs]
    objs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (o, e) in ex.map(lambda t: obj(t[0], t[1], odir, t[2]), todo):
            if o is None: return None, "build error: " + e
            objs.append(o)
    exe = os.path.join(work, prop + ".harness")
    m = re.search(r"^// LINK: (.*)$", open(h).read(), re.M)
    r = subprocess.run(["clang++", "-fsanitize=address"] + objs + ["-o", exe, "-lpthread", "-ldl"] + (m.group(1).split() if m else []), capture_output=True, text=True)
    if r.returncode: return None, "link error: " + r.stderr[-4000:]
    old = sorted((os.path.join(odir, f) for f in os.listdir(odir) if f.endswith(".o")), key=os.path.getmtime)
    for f in old[:-1200]:
        try: os.unlink(f)
        except OSError: pass
    return exe, ""

def run_harness(exe, prop, tier, seed, work, only=None, timeout=600):
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", HARNESS_WORK=work, VERIF_REPO=REPO)
    cmd = [exe] + (["--only", only] if only else [])
    try: r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=timeout, cwd=work, errors="replace")
    except subprocess.TimeoutExpired as e:
        return dict(groups=[], fails=[], error="harness timed out after %ds" % timeout, raw="")
    groups, fails = [], []
    for l in r.stdout.split("\n"):
        if l.startswith("@G "):
            p = l.split(" ", 4); groups.append(dict(group=p[1], cases=int(p[2]), checks=int(p[3]), ok=p[4].strip() == "ok"))
        elif l.startswith("@F\t"):
            p = l.split("\t"); fails.append(dict(group=p[1], key=p[2], input=p[3], what=p[4] if len(p) > 4 else ""))
        elif l.startswith("@S "):
            if groups is not None: groups.append(dict(sample=l[3:]))
    return dict(groups=[g for g in groups if "group" in g], samples=[g["sample"] for g in groups if "sample" in g], fails=fails, error=None if r.returncode in (0, 1) else "harness exit %s: %s" % (r.returncode, r.stderr[-500:]), raw=r.stdout[-4000:] + r.stderr[-4000:])

def known(prop):
    r = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
    rc = 0
    try: rc = decide(prop, tier, seed, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, seed, work, t0):
    P = plan.PROPS[prop]
    units = P.get("units", [])
    # ---- proofs and harness build, in parallel
    with cf.ThreadPoolExecutor(max(1, len(units) + 1)) as ex:
        hb = ex.submit(build_harness, prop, work)
        us = [ex.submit(run_unit, u, work, tier) for u in units]
        ures = [f.result() for f in us]
        exe, berr = hb.result()
    has_h = os.path.exists(os.path.join(V, "harness", prop + ".cpp"))
    hr = None
    cex = [c for u in ures for c in u.get("cex", [])]
    if cex: open(os.path.join(work, "cex.txt"), "w").write("".join("%s %x\n" % (n, int(b, 2)) for n, b in cex if b))
    if exe: hr = run_harness(exe, prop, tier, seed, work, timeout=P.get("timeout", {}).get(tier, 500 if tier == "quick" else 3000))
    elif has_h: print("harness not built: " + berr[:3000])
    if hr:
        for g in hr["groups"]:
            if not g["ok"] and not any(f["group"] == g["group"] for f in hr["fails"]): hr["fails"].append(dict(group=g["group"], key="failed", input="(not recorded)", what="the group did not finish"))
    failed = [o for u in ures for o in u["failed"]]
    unreach = [o for u in ures for o in u["unattached"]]
    ks = known(prop)
    fails, seenk = [], {}
    for f in (hr["fails"] if hr else []):
        k = [x for x in ks if x[0] == f["key"]]
        if k: seenk[f["key"]] = k[0][1]
        else: fails.append(f)
    for k, d in sorted(seenk.items()): print("KNOWN-FINDING: property=%s %s" % (prop, d))
    # ---- report
    for u in ures:
        print("unit %-14s %3d functions under contract, %3d obligations discharged of %3d, %.1fs solver, %.1fs wall%s" % (
            u["unit"], len(u["functions"]), u["discharged"], u["obligations"], u["smt_s"], u["wall_s"], (" ERROR " + u["error"][:300]) if u["error"] else ""))
        for o in u["unattached"]: print("   bounded stand-in only (not within the extractor's/annotations' reach): %s: %s" % (o["fn"], o["why"]))
        for o in u["failed"]: print("   FAILED obligation %s" % o["name"])
    if hr:
        print("harness: %d groups, %d cases, %d checks%s" % (len(hr["groups"]), sum(g["cases"] for g in hr["groups"]), sum(g["checks"] for g in hr["groups"]), (" ERROR " + hr["error"]) if hr["error"] else ""))
    viol = 0; rc = 0
    rdir = os.path.join(V, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    def replay(name, text):
        p = os.path.join(rdir, "%s-%s.txt" % (prop, re.sub(r"\W+", "_", name)[:60])); open(p, "w").write(text); return p
    if fails:
        f = fails[0]
        txt = "property %s\nviolated check: %s / %s\nfailing input: %s\nobserved: %s\nseed %d tier %s\nreproduce: VERIF_SEED=%d python3 tools/check.py %s (group %s)\n" % (prop, f["group"], f["key"], f["input"], f["what"], seed, tier, seed, prop, f["group"])
        txt += "".join("\nother failing check: %s / %s on %s : %s" % (g["group"], g["key"], g["input"], g["what"]) for g in fails[1:20])
        txt += "\n\nfailed proof obligations:\n" + ("\n".join(o["name"] + "\n" + o["detail"] for o in failed) or "(none)")
        print("VIOLATION property=%s replay=%s" % (prop, replay(f["group"] + "_" + f["key"], txt))); viol = len(fails); rc = 1
    elif failed:
        o = failed[0]
        txt = "property %s\nfailed obligation: %s\n\nverifier output:\n%s\n\nno failing input was found by the bounded search (%s)\n" % (prop, o["name"], "\n".join(x["name"] + "\n" + x["detail"] for x in failed), json.dumps(hr["groups"])[:2000] if hr else "no harness")
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay("proof_" + o["fn"], txt))); viol = len(failed); rc = 1
    if hr and hr["error"] and rc == 0: print("note: " + hr["error"])
    if not exe and has_h and rc == 0 and not units: print("note: nothing could be checked")
    cov = dict(obligations=sum(u["obligations"] for u in ures), discharged=sum(u["discharged"] for u in ures),
        checker_cmd="; ".join(sorted(set("goto-instrument --dfcc --enforce-contract F; cbmc (CBMC 6.11, SAT) on C text extracted from /repo by tools/cxx2c.py" if "backend" in u else "verus UNIT.rs --rlimit 30 (Verus 0.2026.09.13, Z3 back end) on text extracted from /repo by tools/cxx2verus.py" for u in ures))),
        trusted_base=(verify.TRUSTED if any("backend" not in u for u in ures) else []) + (cunit.TRUSTED if any("backend" in u for u in ures) else []) + sorted(set(t for u in ures for t in u["trusted"])),
        functions_under_contract=[dict(unit=u["unit"], function=f["qn"], rust=f["rust"], ok=f["ok"], smt_ms=f["ms"], extracted_lines=f["lines"]) for u in ures for f in u["functions"]],
        lemmas=sum(u["lemmas"] for u in ures), solver_s=round(sum(u["smt_s"] for u in ures), 2),
        vacuity=[dict(unit=u["unit"], **u["vacuity"]) for u in ures],
        not_proved_bounded_only=[dict(function=o["fn"], why=o["why"]) for o in unreach] + [dict(function=x, why="outside the verifier's reach; bounded check only") for x in P.get("bounded", [])],
        bounded_standin=dict(groups=hr["groups"], samples=hr["samples"][:6], bounds=P.get("bounds", "small extents enumerated by harness/%s.cpp" % prop)) if hr else None,
        explanation=P.get("explain", ""))
    cov["evaluations"] = sum(g["cases"] for g in hr["groups"]) if hr else 0
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"], coverage=cov, assumptions=plan.ASSUME + P.get("assume", []), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0: print("property %s: held (%.0fs)" % (prop, time.time() - t0))
    return rc
if __name__ == "__main__": main()
