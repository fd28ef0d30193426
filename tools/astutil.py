"""Load clang JSON ASTs and index function definitions by qualified name."""
import json, subprocess, re, sys, os

CLANG = "clang++"
def clang_args(repo):
    return ["-std=c++17", "-I" + repo + "/src", "-I" + repo + "/third_party", "-fno-exceptions", "-DNDEBUG",
            "-Wno-everything"]

def dump(tu, repo, filt="tinytorch", extra=()):
    cmd = [CLANG] + clang_args(repo) + list(extra) + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt,
           "-fsyntax-only", tu]
    r = subprocess.run(cmd, capture_output=True)
    if r.returncode != 0:
        raise RuntimeError("clang failed on %s: %s" % (tu, r.stderr.decode()[:3000]))
    txt = r.stdout.decode()
    dec = json.JSONDecoder()
    i = 0; out = []
    n = len(txt)
    while True:
        while i < n and txt[i] in " \t\r\n": i += 1
        if i >= n: break
        d, i = dec.raw_decode(txt, i)
        out.append(d)
    return out

FUNCS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")
SCOPES = ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl")

class Index:
    """funcs: qualified name -> list of decl dicts having a body (with _qn, _targs, _ctx)"""
    def __init__(self, docs):
        self.funcs = {}      # name -> [decl with body]
        self.decl = {}       # id -> decl (any)
        self.qn = {}         # id -> qualified name
        self.records = {}    # qn -> decl (complete)
        self.vars = {}       # qn -> VarDecl
        self.body_of = {}    # id of any redeclaration -> decl with body
        self.enums = {}
        for d in docs: self.walk(d, [])
    def targs(self, d):
        r = []
        for c in d.get("inner", []):
            if c.get("kind") == "TemplateArgument":
                if "type" in c: r.append(c["type"].get("desugaredQualType") or c["type"]["qualType"])
                elif "value" in c: r.append(str(c["value"]))
                elif c.get("isPack"): r += self.targs(c)
                else: r.append("?")
        return r
    def walk(self, d, ctx):
        k = d.get("kind")
        if k is None: return
        if "id" in d and k.endswith("Decl"):
            self.decl[d["id"]] = d
        if k in SCOPES:
            nm = d.get("name", "")
            if k.startswith("ClassTemplate"):
                nm += "<" + ",".join(self.targs(d)) + ">"
            q = ctx + ([nm] if nm else [])
            if k != "NamespaceDecl" and d.get("completeDefinition"):
                self.records["::".join(q)] = d
                d["_qn"] = "::".join(q)
            self.qn[d["id"]] = "::".join(q)
            for c in d.get("inner", []): self.walk(c, q)
            return
        if k in FUNCS:
            # out-of-line member: parentDeclContextId
            q = list(ctx)
            pc = d.get("parentDeclContextId")
            if pc and pc in self.qn: q = self.qn[pc].split("::") if self.qn[pc] else []
            if d.get("previousDecl") in self.qn and pc is None:
                qn = self.qn[d["previousDecl"]]
            else:
                qn = "::".join(q + [d.get("name", "")])
            self.qn[d["id"]] = qn
            d["_qn"] = qn
            d["_targs"] = self.targs(d)
            if not hasattr(self, "prev"): self.prev = {}
            if d.get("previousDecl"): self.prev[d["id"]] = d["previousDecl"]
            if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in d.get("inner", [])):
                self.funcs.setdefault(qn, []).append(d)
                i = d["id"]
                while i is not None:
                    self.body_of[i] = d
                    i = self.prev.get(i)
            for c in d.get("inner", []): self.walk(c, ctx + [d.get("name", "")])
            return
        if k == "VarDecl":
            self.qn[d["id"]] = "::".join(ctx + [d.get("name", "")])
            self.vars[self.qn[d["id"]]] = d
        if k == "EnumDecl":
            q = ctx + [d.get("name", "")]
            for c in d.get("inner", []): self.walk(c, q)
            return
        if k == "EnumConstantDecl":
            self.qn[d["id"]] = "::".join(ctx + [d.get("name", "")])
        for c in d.get("inner", []) or []:
            if isinstance(c, dict): self.walk(c, ctx)
    def find(self, qn, targs=None, nparams=None, pred=None):
        c = self.funcs.get(qn, [])
        c = [f for f in c if targs is None or f["_targs"] == targs]
        if nparams is not None:
            c = [f for f in c if len([p for p in f.get("inner", []) if p.get("kind") == "ParmVarDecl"]) == nparams]
        if pred: c = [f for f in c if pred(f)]
        return c

def brief(d, ind=0, out=sys.stdout):
    if not isinstance(d, dict) or "kind" not in d: return
    s = d["kind"]
    for k in ("name", "opcode", "castKind", "value", "isPostfix", "valueCategory", "isArrow"):
        if k in d and k != "valueCategory": s += " %s=%s" % (k, d[k])
    if "type" in d: s += " : " + d["type"]["qualType"] + ((" ~ " + d["type"]["desugaredQualType"]) if "desugaredQualType" in d["type"] else "")
    if "referencedDecl" in d: s += " -> %s %s" % (d["referencedDecl"]["kind"], d["referencedDecl"].get("name"))
    if "referencedMemberDecl" in d: s += " .-> %s" % d["referencedMemberDecl"]
    out.write("  " * ind + s + "\n")
    for c in d.get("inner", []) or []: brief(c, ind + 1, out)

if __name__ == "__main__":
    docs = dump(sys.argv[1], "/repo")
    ix = Index(docs)
    if len(sys.argv) > 2:
        for f in ix.funcs.get(sys.argv[2], []):
            print("====", f["_targs"]); brief(f)
    else:
        for k in sorted(ix.funcs): print(k, [f["_targs"] for f in ix.funcs[k]])
