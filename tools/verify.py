#!/usr/bin/env python3
"""Assemble and verify one unit: python3 verify.py UNIT [--fn NAME] [--keep]"""
import sys, os, re, json, subprocess, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import astutil
from cxx2verus import Translator, Unsupported
import unit as U

def load(unitname, repo="/repo", work=None, vspath=None):
    vs = U.parse_vs(vspath or os.path.join(V, "contracts", unitname + ".vs"))
    work = work or tempfile.mkdtemp(prefix="vu_")
    tu = os.path.join(work, unitname + "_tu.cpp")
    open(tu, "w").write("\n".join(vs["tu"]) + "\n")
    docs = astutil.dump(tu, repo)
    ix = astutil.Index(docs)
    u = U.Unit(vs)
    u.name = unitname
    missing = u.resolve(ix)
    return vs, u, ix, missing, work

TRUSTED = ["clang 18 front end (AST of /repo's sources)", "tools/cxx2verus.py translation of the C++ AST to Verus text", "Verus 0.2026.09.13 and Z3", "vstd axioms for sequences, maps, sets and arithmetic"]
HEAD = ["#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_assignments, dead_code, non_snake_case, unused_braces, unreachable_code, unused_labels)]", "use vstd::prelude::*;", "verus! {"]

def assemble(vs, u, ix, drop=(), base=None, canary=False):
    """drop: rust names not to be verified (contract kept as an assumption); returns text, results"""
    res = []
    parts = list(HEAD)
    for p in vs["prelude"]:
        parts.append("// ===== prelude %s" % p); parts.append(open(os.path.join(V, "prelude", p + ".rs")).read())
    for x in vs["raw"]:
        if not isinstance(x, U.FnSpec): parts.append(x); continue
        f = x
        f.text = None; f.used_loops = set()
        if f.decl is None:
            res.append((f, "unattached", "no definition of %s found" % f.qn)); continue
        tr = Translator(ix, u)
        tr.set_rename(f.decl, (base or {}).get(f.rust))
        f.decls = tr.decls
        why = drop.get(f.rust) if drop else None
        t = None
        if not why:
            try:
                t = tr.function(f, f.decl)
                if not f.external:
                    bad = [k for k in f.loops if k not in f.used_loops]
                    if bad: why = "annotated loop %s no longer exists" % bad
                    hk = [k for k in f.hooks if re.match(r"loop(\d+)\.", k) and int(re.match(r"loop(\d+)", k).group(1)) >= tr.loopno]
                    if hk: why = "annotated loop of %s no longer exists" % hk
            except Unsupported as e: why = "construct outside the extractor: %s" % e
            except RecursionError as e: why = "construct outside the extractor: recursion"
            except Exception as e: why = "construct outside the extractor: %s %s" % (type(e).__name__, e)
        if why or f.external:
            try:
                t = tr.signature(f, f.decl)
                parts.append("#[verifier::external_body]\n" + t + "{ unimplemented!() }")
            except Exception as e:
                if f.external and not why: why = "signature: %s" % e
            res.append((f, "unattached" if why else "external", why or ""))
            continue
        f.text = t
        f.inlined = sorted(getattr(tr, "inlined", set()))
        if canary:
            m = re.match(r"(.*?)(\n    ensures\n.*?)?(\n    decreases [^\n]*)?\n\{\n", t, re.S)
            hd = m.group(1)
            if canary == "exit":      # same body and requires, but it must not be provable that the end is never reached
                hd = re.sub(r"\bpub fn %s\b" % f.rust, r"pub fn canary_%s" % f.rust, hd, count=1)
                parts.append(hd + "\n    ensures false," + (m.group(3) or "") + "\n{\n" + t[m.end():])
                parts.append("#[verifier::external_body]\n" + tr.signature(f, f.decl) + "{ unimplemented!() }")
                res.append((f, "ok", "")); continue
            hd = re.sub(r"^(.*?)pub fn %s\b" % f.rust, r"pub fn canary_%s" % f.rust, hd, flags=re.S)
            parts.append(hd + "\n{ assert(false); vstd::pervasive::unreached() }")
            parts.append("#[verifier::external_body]\n" + tr.signature(f, f.decl) + "{ unimplemented!() }")
        else:
            parts.append("// @@fn %s" % f.rust); parts.append(t); parts.append("// @@end")
        res.append((f, "ok", ""))
    parts.append("fn main() {}\n} // verus!")
    return "\n".join(parts) + "\n", res

def run_verus(path, extra=(), timeout=600, rlimit=30):
    t = time.time()
    cmd = ["verus", path, "--output-json", "--time-expanded", "--multiple-errors", "6", "--rlimit", str(rlimit)] + list(extra)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, "timeout", time.time() - t, cmd
    try: j = json.loads(r.stdout)
    except Exception: j = None
    return j, r.stderr, time.time() - t, cmd

def fn_ranges(txt):
    r, cur = [], None
    for i, l in enumerate(txt.split("\n"), 1):
        m = re.match(r"// @@fn (\w+)", l)
        if m: cur = (m.group(1), i)
        elif l.startswith("// @@end") and cur: r.append((cur[0], cur[1], i)); cur = None
    return r

def errors(err, txt):
    """list of (fn or None, message, line, source line, block)"""
    rg = fn_ranges(txt); lines = txt.split("\n"); out = []
    for b in re.split(r"\n(?=error|note: function body check|warning)", "\n" + err):
        b = b.strip("\n")
        if not b.startswith("error"): continue
        msg = b.split("\n")[0]
        if msg.startswith("error: aborting"): continue
        locs = [int(x) for x in re.findall(r"--> [^\n]*?\.rs:(\d+):\d+", b)]
        # the primary location may be in a callee's contract: prefer the location inside an extracted function
        fn = ln = None
        nums = [int(x) for x in re.findall(r"^\s*(\d+) \|", b, re.M)]
        for k in locs + nums:
            for n, a, z in rg:
                if a <= k <= z: fn, ln = n, k; break
            if fn: break
        if ln is None and locs: ln = locs[0]
        out.append((fn, msg, ln, lines[ln - 1].strip() if ln and ln <= len(lines) else "", b))
    return out

def exit_canary(name, repo="/repo", work="/tmp/v"):
    """no function body may be proved never to reach its end: that would mean contradictory contracts of its callees"""
    vs, u, ix, missing, wk = load(name, repo, work)
    bp = os.path.join(V, "contracts", "baseline", name + ".json")
    txt, res = assemble(vs, u, ix, {}, json.load(open(bp)) if os.path.exists(bp) else {}, canary="exit")
    p = os.path.join(work, name + "_exit.rs"); open(p, "w").write(txt)
    j, err, dt, _ = run_verus(p, rlimit=10)
    out = []
    for m in j["times-ms"]["smt"]["smt-run-module-times"]:
        for x in m.get("function-breakdown", []):
            k = x["function"].split("::", 1)[1]
            if k.startswith("canary_"): out.append((k, x["success"]))
    return dict(exits=len(out), reachable=sum(1 for k, s in out if not s), dead=[k for k, s in out if s])

def run_unit(name, repo, work, tier="quick", keep=None):
    t0 = time.time()
    R = dict(unit=name, functions=[], failed=[], unattached=[], obligations=0, discharged=0, lemmas=0, smt_s=0.0, wall_s=0.0, error="", trusted=[], vacuity={})
    try: vs, u, ix, missing, wk = load(name, repo, work)
    except Exception as e:
        R["error"] = "extraction: %s: %s" % (type(e).__name__, str(e)[-600:]); R["wall_s"] = time.time() - t0
        R["unattached"].append(dict(fn=name, why="the translation unit could not be parsed: " + str(e)[-300:]))
        return R
    bp = os.path.join(V, "contracts", "baseline", name + ".json")
    base = json.load(open(bp)) if os.path.exists(bp) else {}
    drop = {}
    path = os.path.join(work, name + ".rs")
    for attempt in range(12):
        txt, res = assemble(vs, u, ix, drop, base)
        open(path, "w").write(txt)
        j, err, dt, cmd = run_verus(path)
        es = errors(err, txt)
        vr = (j or {}).get("verification-results", {})
        if j is None or vr.get("encountered-vir-error") or (not vr.get("success") and vr.get("verified", 0) == 0 and vr.get("errors", 0) == 0):
            new = {f: "annotations do not attach to the current text: %s" % m for f, m, l, sl, b in es if f and f not in drop}
            if not new:
                R["error"] = "unit not accepted by the verifier front end: " + (err[-800:] if err else "no output")
                for f, st, why in res: R["unattached"].append(dict(fn=f.rust, why=R["error"][:200]))
                R["wall_s"] = time.time() - t0; return R
            drop.update(new); continue
        rl = [f for f, m, l, sl, b in es if f and ("rlimit" in m or "Resource limit" in b)]
        rl = [f for f in rl if f not in drop]
        if rl:
            j2, err2, dt2, cmd = run_verus(path, rlimit=150)
            es2 = errors(err2, txt)
            rl2 = [f for f, m, l, sl, b in es2 if f and ("rlimit" in m or "Resource limit" in b) and f not in drop]
            j, err, es = j2, err2, es2
            if rl2:
                drop.update({f: "the verifier gave up (resource limit)" for f in rl2}); continue
        # an obligation the solver did not discharge is tried again with other solver seeds: a proof found under any seed is a proof
        for seed in (3, 7, 11):
            if not es or j is None: break
            j2, err2, dt2, _ = run_verus(path, extra=["--smt-option", "smt.random_seed=%d" % seed], rlimit=60)
            if j2 is None: break
            es2 = errors(err2, txt)
            key = lambda e: e[0] or (e[1], e[3])
            bad2 = set(key(e) for e in es2)
            healed = [e for e in es if key(e) not in bad2]
            if healed:
                R["retried"] = R.get("retried", 0) + len(healed)
                for m in j["times-ms"]["smt"]["smt-run-module-times"]:
                    for x in m.get("function-breakdown", []):
                        if x["function"].split("::", 1)[1] in set(e[0] for e in healed): x["success"] = True
                es = [e for e in es if key(e) in bad2]
        break
    br = {}
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for x in m.get("function-breakdown", []): br[x["function"].split("::", 1)[1]] = x
    except Exception: pass
    R["smt_s"] = round(j["times-ms"].get("smt", {}).get("smt-run", 0) / 1000.0, 2) if j else 0
    fns = [f for f, st, why in res if st == "ok"]
    names = set(f.rust for f in fns)
    badf = set(e[0] for e in es if e[0])
    for f, st, why in res:
        if st == "unattached": R["unattached"].append(dict(fn=f.qn + ("<%s>" % ",".join(f.targs) if f.targs else ""), why=why))
    for f in fns:
        b = br.get(f.rust, {})
        n = count_obl(f)
        ok = f.rust not in badf and b.get("success", True)
        R["obligations"] += n; R["discharged"] += n if ok else 0
        R["functions"].append(dict(qn=f.qn + ("<%s>" % ",".join(f.targs) if f.targs else ""), rust=f.rust, ok=ok, ms=round(b.get("time-micros", 0) / 1000.0, 1), lines=f.text.count("\n"), inlined=f.inlined))
    lem = [k for k, x in br.items() if k not in names and x.get("mode:") == "proof"]
    R["lemmas"] = len(lem)
    other = [e for e in es if not e[0]]
    for fn, m, ln, sl, b in es:
        if fn: R["failed"].append(dict(fn=fn, name="%s::%s: %s: `%s`" % (name, fn, m.replace("error: ", ""), sl[:160]), detail=b))
    miss = [f for f in badf if f not in names]
    if other and not R["failed"]:
        R["error"] = "a lemma of the machinery was not re-proved: " + other[0][1] + " " + other[0][3]
        for f in fns: R["unattached"].append(dict(fn=f.qn, why=R["error"][:200]))
        for x in R["functions"]: x["ok"] = False
        R["discharged"] = 0
    R["trusted"] = ["%s (unit %s)" % (x, name) for x in re.findall(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:broadcast )?(?:proof )?(?:fn|struct) (\w+)", txt)] + ["axiom %s (unit %s)" % (x, name) for x in re.findall(r"axiom fn (\w+)", txt)]
    for bad in ("assume(", "admit()"):
        if re.search(r"(?<![\w])" + re.escape(bad), txt): R["trusted"].append("%s used in unit %s" % (bad, name))
    # vacuity: every precondition must be satisfiable as far as the verifier can tell
    if not keep:
        ct, cres = assemble(vs, u, ix, drop, base, canary=True)
        cp = os.path.join(work, name + "_canary.rs"); open(cp, "w").write(ct)
        jc, ec, _, _ = run_verus(cp, extra=["--no-lifetime"] if False else [])
        suc = []
        try:
            for m in jc["times-ms"]["smt"]["smt-run-module-times"]:
                for x in m.get("function-breakdown", []):
                    k = x["function"].split("::", 1)[1]
                    if k.startswith("canary_"): suc.append((k, x["success"]))
        except Exception: pass
        R["vacuity"] = dict(canaries=len(suc), refuted_as_expected=sum(1 for k, s in suc if not s), vacuous=[k for k, s in suc if s])
        if tier == "thorough":
            try: R["vacuity"]["exit"] = exit_canary(name, repo, work)
            except Exception as e: R["vacuity"]["exit"] = dict(error=str(e)[:200])
        if R["vacuity"]["vacuous"]: R["error"] = "vacuous precondition: %s" % R["vacuity"]["vacuous"]
    R["wall_s"] = round(time.time() - t0, 1)
    R["res"] = [(f.rust, st, why) for f, st, why in res]
    R["decls"] = {f.rust: f.decls for f in fns}
    return R

def count_obl(f):
    """named obligations of a function: postconditions, invariants (entry and step), termination, explicit assertions,
    and the preconditions of calls and memory accesses in its text"""
    n = len([x for x in U.split_clauses(f.ens)]) if f.ens else 0
    t = f.text
    n += 2 * sum(len(U.split_clauses(m)) for m in re.findall(r"\n\s*invariant\n(.*?)(?=\n\s*(?:decreases|\{))", t, re.S))
    n += len(re.findall(r"\bdecreases\b", t)) + len(re.findall(r"\bassert\b", t))
    n += len(re.findall(r"\bw\.(?:rd|wr)[fib]\(", t)) + len(re.findall(r"\btrap\(\)", t))
    n += len(re.findall(r"[^+\-*=<>] [+\-*] [^=]", t)) if False else 0
    return max(n, 1)

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("unit"); ap.add_argument("--fn"); ap.add_argument("--show", action="store_true")
    ap.add_argument("--repo", default="/repo"); ap.add_argument("--baseline", action="store_true"); ap.add_argument("--canary", action="store_true")
    ap.add_argument("--asm", action="store_true")
    a = ap.parse_args()
    work = "/tmp/v"; os.makedirs(work, exist_ok=True)
    if a.show or a.asm:
        vs, u, ix, missing, _ = load(a.unit, a.repo, work)
        txt, res = assemble(vs, u, ix)
        open(os.path.join(work, a.unit + ".rs"), "w").write(txt)
        for f, st, msg in res:
            if st == "unattached": print("UNATTACHED %s: %s" % (f.rust, msg))
            if getattr(f, "text", None) and (not a.fn or a.fn == f.rust) and not a.asm: print(f.text)
        if a.asm: sys.exit(0)
    R = run_unit(a.unit, a.repo, work, keep=not a.canary)
    if a.canary: print("exit canary", exit_canary(a.unit, a.repo, work))
    for o in R["unattached"]: print("UNATTACHED", o["fn"], o["why"])
    for o in R["failed"]:
        if not a.fn or o["fn"] == a.fn: print(o["name"]); print("\n".join(o["detail"].split("\n")[1:14]))
    if R["error"]: print("ERROR", R["error"])
    print("fns %d ok %d, obligations %d/%d, lemmas %d, smt %.1fs wall %.1fs" % (len(R["functions"]), sum(f["ok"] for f in R["functions"]), R["discharged"], R["obligations"], R["lemmas"], R["smt_s"], R["wall_s"]), R["vacuity"])
    slow = sorted(R["functions"], key=lambda f: -f["ms"])[:3]
    print("slowest", [(f["rust"], f["ms"]) for f in slow])
    if a.baseline and not R["failed"] and not R["unattached"]:
        json.dump(R["decls"], open(os.path.join(V, "contracts", "baseline", a.unit + ".json"), "w"), indent=0); print("baseline written")
