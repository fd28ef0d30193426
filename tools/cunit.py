#!/usr/bin/env python3
"""CBMC units: scalar functions of /repo extracted to C (tools/cxx2c.py), each put under a code contract that
goto-instrument --dfcc enforces and CBMC discharges over the full domain.  Only loop-free functions are accepted, so
nothing is bounded.   python3 cunit.py UNIT"""
import sys, os, re, json, subprocess, tempfile, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import astutil, cxx2c
BITCOPY = '#define BITCOPY(d_, s_, n_) do { __CPROVER_assert((n_) == sizeof(d_) && (n_) == sizeof(s_), "whole object copied"); union { __typeof__(s_) a; __typeof__(d_) b; } u_; u_.a = (s_); (d_) = u_.b; } while (0)'
TRUSTED = ["clang 18 front end (AST of /repo's sources)", "tools/cxx2c.py translation of the C++ AST to C text (memcpy between two scalars of equal size becomes a bit copy; isnan/signbit/fabsf as defined by IEEE-754)", "goto-cc, goto-instrument --dfcc and CBMC 6.11 with its SAT back end; round-to-nearest mode"]
def parse(name):
    r = dict(tu=[], records={}, fns=[], lemmas=[])
    for l in open(os.path.join(V, "contracts", name + ".con")):
        l = l.rstrip("\n")
        if not l.strip() or l.startswith("#"): continue
        k, rest = l.split(" ", 1)
        if k == "tu": r["tu"].append(rest)
        elif k == "record": n, b = rest.split(" ", 1); r["records"][n] = b
        elif k == "fn": n, c = rest.split(None, 1); r["fns"].append((n, c.strip()))
        elif k == "lemma": r["lemmas"].append(rest.strip())
    return r
def sh(cmd, timeout=600): return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace")
def run_unit(name, repo, work, tier="quick"):
    t0 = time.time()
    R = dict(unit=name, functions=[], failed=[], unattached=[], obligations=0, discharged=0, lemmas=0, smt_s=0.0, wall_s=0.0, error="", trusted=[], vacuity={}, cex=[])
    c = parse(name)
    tu = os.path.join(work, name + "_tu.cpp"); open(tu, "w").write("\n".join(c["tu"]) + "\n")
    try: ix = astutil.Index(astutil.dump(tu, repo))
    except Exception as e:
        R["error"] = "extraction: %s" % str(e)[-500:]; R["unattached"].append(dict(fn=name, why=R["error"])); return R
    t = cxx2c.ToC(ix, set(c["records"])); why = {}
    for qn, fs in sorted(ix.funcs.items()):
        for f in fs:
            if not qn.startswith("tinytorch::") or qn.endswith("operator="): continue
            try: nm = t.mangle(f)
            except Exception: continue
            if nm not in [n for n, _ in c["fns"]]: continue
            try: t.func(f)
            except cxx2c.NoC as e: why[nm] = "construct outside the extractor: %s" % e
            except Exception as e: why[nm] = "construct outside the extractor: %s %s" % (type(e).__name__, e)
    good = [n for n in t.order if t.out.get(n)]
    head = ["#include <math.h>", BITCOPY] + ["struct %s { %s };" % (n, b) for n, b in c["records"].items()] + ['#include "%s/contracts/%s.c"' % (V, name)]
    con = {}
    for n, e in c["fns"]:
        if n not in good: R["unattached"].append(dict(fn=n, why=why.get(n, "no definition found"))); continue
        o = t.out[n]
        for i, p in enumerate([p for p in o["params"] if not p.endswith(" self")]): e = e.replace("@p%d" % i, p.split()[-1].lstrip("*"))
        con[n] = "__CPROVER_ensures(%s)" % e.replace("@ret", "__CPROVER_return_value")
    text = head + ["%s\n%s;" % (t.out[n]["proto"], con.get(n, "")) for n in good] + ["%s %s" % (t.out[n]["proto"], t.out[n]["body"]) for n in good]
    for n in con:
        ps = t.out[n]["params"]
        text.append("void harness_%s(void) { %s %s(%s); }" % (n, " ".join(p + ";" for p in ps), n, ", ".join(("&" if "*" in p else "") + p.split()[-1].lstrip("*") for p in ps)))
    src = "\n".join(text) + "\n"
    sp = open(os.path.join(V, "contracts", name + ".c")).read()
    for l in c["lemmas"]:
        m = re.search(r"void %s\(([^)]*)\)" % l, sp)
        ps = m.group(1).split(", ")
        src += "void harness_%s(void) { %s %s(%s); }\n" % (l, " ".join(p + ";" for p in ps), l, ", ".join(p.split()[-1] for p in ps))
    m = os.path.join(work, name + ".c"); open(m, "w").write(src)
    def one(n, lemma):
        t1 = time.time()
        gb, g2 = os.path.join(work, n + ".gb"), os.path.join(work, n + ".2.gb")
        r = sh(["goto-cc", "-o", gb, m, "--function", "harness_" + n])
        if r.returncode: return n, "error", [], "goto-cc: " + r.stderr[-600:], 0
        if not lemma:
            r = sh(["goto-instrument", "--dfcc", "harness_" + n, "--enforce-contract", n, gb, g2])
            if r.returncode: return n, "error", [], "goto-instrument: " + (r.stdout + r.stderr)[-600:], 0
        else: g2 = gb
        try: r = sh(["cbmc", g2, "--no-standard-checks", "--unwinding-assertions", "--unwind", "2", "--trace"], 400)
        except subprocess.TimeoutExpired: return n, "error", [], "solver timeout", time.time() - t1
        props = re.findall(r"^\[([^\]]+)\] line \d+ (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", r.stdout, re.M)
        if not props: return n, "error", [], (r.stdout + r.stderr)[-600:], time.time() - t1
        return n, "ok" if r.returncode == 0 else "fail", props, r.stdout, time.time() - t1
    with cf.ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda a: one(*a), [(n, False) for n in con] + [(l, True) for l in c["lemmas"]]))
    for n, st, props, out, dt in rs:
        lemma = n in c["lemmas"]
        R["smt_s"] += dt
        if st == "error":
            if lemma: R["error"] = "lemma %s: %s" % (n, out[:300])
            R["unattached"].append(dict(fn=n, why=out[:300])); continue
        mine = [p for p in props if p[0].startswith(n + ".") or "unwind" in p[0] or "whole object" in p[1]]
        uw = [p for p in mine if "unwind" in p[0] and p[2] != "SUCCESS"]
        if uw: R["unattached"].append(dict(fn=n, why="the function now has a loop; contracts here need loop-free code")); continue
        R["obligations"] += len(mine); R["discharged"] += sum(p[2] == "SUCCESS" for p in mine)
        if lemma:
            if st == "ok": R["lemmas"] += 1
            else: R["error"] = "lemma %s not proved" % n
            continue
        R["functions"].append(dict(qn=t.out[n]["qn"], rust=n, ok=st == "ok", ms=round(dt * 1000), lines=t.out[n]["body"].count("\n"), inlined=[x for x in good if x != n and x + "(" in t.out[n]["body"]]))
        if st != "ok":
            bad = [p for p in mine if p[2] != "SUCCESS"] or [("?", "?", "")]
            vals = re.findall(r"^  (%s)=([^\n]*)$" % "|".join(p.split()[-1] for p in t.out[n]["params"]), out, re.M)
            R["failed"].append(dict(fn=n, name="%s::%s: contract (%s)" % (name, n, dict(c["fns"])[n]), detail="\n".join("%s %s %s" % p for p in bad) + "\ncounterexample: " + "; ".join("%s=%s" % v for v in vals[:4])))
            mm = [v[1] for v in vals if "(" in v[1]]
            if mm: R["cex"].append((n, re.sub(r"[^01]", "", mm[-1 if not mm else 0].split("(")[-1])))
    R["vacuity"] = dict(canaries=0, refuted_as_expected=0, vacuous=[], note="no preconditions: every argument value is covered")
    R["wall_s"] = round(time.time() - t0, 1); R["smt_s"] = round(R["smt_s"], 1); R["backend"] = "CBMC contracts (dfcc), SAT"
    R["decls"] = {}
    return R
if __name__ == "__main__":
    work = tempfile.mkdtemp(prefix="cu_")
    R = run_unit(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo", work)
    print(json.dumps(R, indent=1)); print(work)
