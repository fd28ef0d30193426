"""Extract scalar C++ functions (clang AST of the current source) to C text for CBMC's contract checker.
Statement by statement; reference parameters become pointers (const references to records: values), a member
function gets its object as a first value parameter, a constructor becomes a function returning the object, an
overloaded operator gets a name built from its parameter types.  What the text drops: constexpr/const, noexcept,
namespaces, the identity of a returned reference (the referred value is returned instead)."""
import re
import astutil
class NoC(Exception): pass
BUILTIN = {"memcpy": "memcpy", "isnan": "isnanf_", "isinf": "isinff_", "fabsf": "fabsf", "fabs": "fabs", "abs": None, "__builtin_memcpy": "memcpy", "signbit": "signbitf_", "__builtin_clz": "__builtin_clz", "fabsl": None}
OPN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "+=": "iadd", "-=": "isub", "*=": "imul", "/=": "idiv", "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "|": "or", "&": "and", "^": "xor", "=": "assign"}
def san(s): return re.sub(r"\W+", "_", s).strip("_")
class ToC:
    def __init__(self, ix, records):
        self.ix = ix; self.records = records; self.out = {}; self.order = []; self.used = set()
    def ty(self, t):
        q = t.get("desugaredQualType") or t["qualType"]
        return self.tys(q)
    def tys(self, q):
        q = re.sub(r"\b(const|volatile|__restrict)\b", "", q).strip()
        q = re.sub(r"\btinytorch::", "", q).strip()
        q = re.sub(r"\s+", " ", q).strip()
        if q.endswith("&&"): q = q[:-2].strip()
        m = {"bool": "_Bool", "uint16_t": "unsigned short", "uint32_t": "unsigned int", "int64_t": "long", "int32_t": "int", "uint8_t": "unsigned char", "unsigned long": "unsigned long"}
        if q.endswith("&"): return self.tys(q[:-1]) + " *"
        if q.endswith("*"): return self.tys(q[:-1]) + " *"
        q = m.get(q, q)
        if q in self.records: return "struct " + q
        if q in ("float", "double", "int", "unsigned int", "unsigned short", "short", "long", "unsigned long", "long long", "unsigned long long", "_Bool", "unsigned char", "char", "void", "signed char"): return q
        raise NoC("type " + q)
    def params(self, d): return [p for p in d.get("inner", []) if p.get("kind") == "ParmVarDecl"]
    def mangle(self, d):
        qn = d["_qn"].replace("tinytorch::", "")
        m = re.search(r"operator\s*(.+)$", qn)
        base = qn
        if d["kind"] == "CXXConversionDecl": return san(qn[:m.start()] + "to_" + m.group(1))
        if d["kind"] == "CXXConstructorDecl": return san(qn.split("::")[0] + "_ctor_" + "_".join(self.pt(p) for p in self.params(d)))
        if m: return "op_" + OPN.get(m.group(1), san(m.group(1))) + "_" + "_".join(self.pt(p) for p in self.params(d))
        n = len(self.ix.funcs.get(d["_qn"], []))
        return san(qn) + ("" if n <= 1 else "_" + "_".join(self.pt(p) for p in self.params(d)))
    def pt(self, p):
        q = p["type"].get("desugaredQualType") or p["type"]["qualType"]
        r = san(re.sub(r"\b(const|tinytorch::)", "", q).replace("&", "").replace("*", "p").replace("tinytorch::", ""))
        return {"unsigned_int": "u32", "unsigned_short": "u16", "int64_t": "long", "from_bits_t": "bits", "Half_from_bits_t": "bits", "BFloat16_from_bits_t": "bits"}.get(r, r)
    def isref(self, p):
        q = p["type"].get("desugaredQualType") or p["type"]["qualType"]
        return q.strip().endswith("&") and "const" not in q
    def func(self, d):
        nm = self.mangle(d)
        if nm in self.out: return nm
        self.out[nm] = None
        ps, self_refs = [], set()
        saved = getattr(self, "refs", None); self.refs = set(); sdecl = getattr(self, "cur", None); self.cur = d
        k = d["kind"]
        ctor = k == "CXXConstructorDecl"
        rec = d["_qn"].replace("tinytorch::", "").split("::")[0] if k in ("CXXConstructorDecl", "CXXMethodDecl", "CXXConversionDecl") else None
        if rec and not ctor: ps.append("struct %s self" % rec)
        for i, p in enumerate(self.params(d)):
            if "from_bits" in (p["type"].get("desugaredQualType") or p["type"]["qualType"]): continue
            if self.isref(p): self.refs.add(p["id"]); ps.append(self.tys((p["type"].get("desugaredQualType") or p["type"]["qualType"]).rstrip(" &")) + " *" + p.get("name", "unnamed%d" % i))
            else: ps.append(self.tys((p["type"].get("desugaredQualType") or p["type"]["qualType"]).rstrip(" &")) + " " + p.get("name", "unnamed%d" % i))
        fq = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        ret = "struct " + rec if ctor else self.tys(fq[:fq.index("(")].strip().rstrip("&").strip())
        body = [c for c in d["inner"] if c.get("kind") == "CompoundStmt"][0]
        L = []
        if ctor:
            L.append("  struct %s self;" % rec)
            for c in d["inner"]:
                if c.get("kind") == "CXXCtorInitializer": L.append("  self.%s = %s;" % (c["anyInit"]["name"], self.e(c["inner"][0])))
        for s in body.get("inner", []): L += self.s(s, 1)
        if ctor: L.append("  return self;")
        self.out[nm] = dict(name=nm, qn=d["_qn"], proto="%s %s(%s)" % (ret, nm, ", ".join(ps) or "void"), body="{\n" + "\n".join(L) + "\n}\n", ret=ret, params=ps)
        self.order.append(nm); self.refs = saved; self.cur = sdecl
        return nm
    def target(self, rd):
        i = rd["id"]
        d = self.ix.body_of.get(i)
        return d
    def callname(self, rd, args_t=None):
        d = self.target(rd)
        if d is not None: return self.func(d), d
        n = rd["name"]
        if n in BUILTIN and BUILTIN[n]: return BUILTIN[n], None
        if n in ("abs", "fabs", "copysign"): return n + "_f", None
        raise NoC("call to " + n)
    def e(self, x):
        k = x["kind"]; I = x.get("inner", [])
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr"):
            ck = x.get("castKind")
            if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "UserDefinedConversion", "ConstructorConversion", "BitCast", "ArrayToPointerDecay"):
                return self.e(I[0])
            if ck in ("IntegralCast", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralToBoolean", "FloatingToBoolean"):
                return "((%s)%s)" % (self.ty(x["type"]), self.e(I[0]))
            raise NoC("cast " + str(ck))
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ConstantExpr", "CXXBindTemporaryExpr"): return "(" + self.e(I[0]) + ")" if k == "ParenExpr" else self.e(I[0])
        if k == "IntegerLiteral":
            t = self.ty(x["type"]); v = x["value"]
            return v + {"unsigned int": "u", "unsigned long": "ul", "long": "l"}.get(t, "")
        if k == "FloatingLiteral":
            t = self.ty(x["type"]); v = float(x["value"])
            return v.hex() + ("f" if t == "float" else "")
        if k == "CXXBoolLiteralExpr": return "1" if x["value"] else "0"
        if k == "DeclRefExpr":
            rd = x["referencedDecl"]
            if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"): raise NoC("function value")
            if rd["kind"] == "EnumConstantDecl": raise NoC("enum")
            if self.refs and rd["id"] in self.refs: return "(*%s)" % rd["name"]
            v = self.ix.decl.get(rd["id"])
            return rd["name"]
        if k == "CXXThisExpr": return "self"
        if k == "MemberExpr": return "%s.%s" % (self.e(I[0]), x["name"])
        if k == "UnaryOperator":
            op = x["opcode"]
            if op == "*" and I[0]["kind"] == "CXXThisExpr": return "self"
            return "(%s%s)" % (self.e(I[0]), op) if x.get("isPostfix") else "(%s%s)" % (op, self.e(I[0]))
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return "(%s %s %s)" % (self.e(I[0]), x["opcode"], self.e(I[1]))
        if k == "ConditionalOperator": return "(%s ? %s : %s)" % tuple(self.e(c) for c in I)
        if k == "UnaryExprOrTypeTraitExpr" and x.get("name") == "sizeof":
            t = x["argType"] if "argType" in x else I[0]["type"]
            return "sizeof(%s)" % self.ty(t)
        if k == "CXXConstructExpr":
            cands = [f for q, fs in self.ix.funcs.items() for f in fs if f["kind"] == "CXXConstructorDecl" and q.endswith("::%s::%s" % ((self.ty(x["type"]).replace("struct ", ""),) * 2))]
            args = [c for c in I if c.get("kind") != "CXXDefaultArgExpr"]
            if len(args) == 1 and self.tryty(args[0]["type"]) == self.ty(x["type"]): return self.e(args[0])
            ct = x.get("ctorType", {}).get("qualType")
            c = [f for f in cands if f["type"]["qualType"] == ct] if ct else [f for f in cands if len(self.params(f)) == len(args)]
            if len(c) != 1: raise NoC("constructor")
            fa = [a for a, p in zip(args, self.params(c[0])) if "from_bits" not in (p["type"].get("desugaredQualType") or p["type"]["qualType"])]
            return "%s(%s)" % (self.func(c[0]), ", ".join(self.e(a) for a in fa))
        if k == "CXXMemberCallExpr":
            m = I[0]
            d = self.ix.body_of.get(m["referencedMemberDecl"])
            if d is None: raise NoC("method " + m.get("name", "?"))
            return "%s(%s)" % (self.func(d), ", ".join([self.e(m["inner"][0])] + [self.e(a) for a in I[1:]]))
        if k in ("CallExpr", "CXXOperatorCallExpr"):
            c = I[0]
            while c["kind"] in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
            rd = c["referencedDecl"]
            if rd["name"] == "operator=" and k == "CXXOperatorCallExpr": return "(%s = %s)" % (self.e(I[1]), self.e(I[2]))
            nm, d = self.callname(rd)
            if nm == "fabs_f" or nm == "abs_f": nm = "fabsf" if self.ty(x["type"]) == "float" else "fabs"
            if nm == "memcpy":
                ab = [self.e(a) for a in I[1:]]
                m0, m1 = re.fullmatch(r"\(&(\w+)\)", ab[0]), re.fullmatch(r"\(&(\w+)\)", ab[1])
                if not m0 or not m1: raise NoC("memcpy between anything but two scalar variables")
                return "BITCOPY(%s, %s, %s)" % (m0.group(1), m1.group(1), ab[2])
            args = []
            ps = self.params(d) if d else [None] * (len(I) - 1)
            for a, p in zip(I[1:], ps):
                if p is not None and "from_bits" in (p["type"].get("desugaredQualType") or p["type"]["qualType"]): continue
                args.append(("&" if p is not None and self.isref(p) else "") + self.e(a))
            return "%s(%s)" % (nm, ", ".join(args))
        raise NoC("expression " + k)
    def tryty(self, t):
        try: return self.ty(t)
        except NoC: return None
    def s(self, x, ind):
        k = x["kind"]; I = x.get("inner", []); p = "  " * ind
        if k == "CompoundStmt":
            r = [p + "{"]
            for c in I: r += self.s(c, ind + 1)
            return r + [p + "}"]
        if k == "DeclStmt":
            r = []
            for v in I:
                if v["kind"] in ("StaticAssertDecl", "TypeAliasDecl", "TypedefDecl", "UsingDirectiveDecl", "UsingDecl"): continue
                if v["kind"] != "VarDecl": raise NoC("declaration " + v["kind"])
                q = (v["type"].get("desugaredQualType") or v["type"]["qualType"]).strip()
                if q.endswith("&"):
                    r.append("%s%s %s = %s;" % (p, self.tys(q.rstrip("& ")), v["name"], self.e(v["inner"][0])))
                    if "const" not in q: raise NoC("local reference")
                    continue
                init = [c for c in v.get("inner", []) if "Comment" not in c["kind"]]
                r.append("%s%s %s%s;" % (p, self.tys(q), v["name"], " = " + self.e(init[0]) if init else ""))
            return r
        if k == "ReturnStmt": return [p + ("return %s;" % self.e(I[0]) if I else "return;")]
        if k == "IfStmt":
            if x.get("hasInit") or x.get("hasVar"): raise NoC("if with declaration")
            r = [p + "if (%s)" % self.e(I[0])] + self.blk(I[1], ind)
            if len(I) > 2: r += [p + "else"] + self.blk(I[2], ind)
            return r
        if k == "WhileStmt": return [p + "while (%s)" % self.e(I[0])] + self.blk(I[1], ind)
        if k == "ForStmt":
            r = [p + "{"]
            if I[0].get("kind"): r += self.s(I[0], ind + 1)
            r.append("%s  for (; %s; %s)" % (p, self.e(I[2]) if I[2].get("kind") else "", self.e(I[3]) if I[3].get("kind") else ""))
            return r + self.blk(I[4], ind + 1) + [p + "}"]
        if k == "NullStmt": return [p + ";"]
        if k == "BreakStmt": return [p + "break;"]
        if k == "ContinueStmt": return [p + "continue;"]
        if k in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CallExpr", "CXXOperatorCallExpr", "ExprWithCleanups", "CXXMemberCallExpr", "ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
            return [p + self.e(x) + ";"]
        raise NoC("statement " + k)
    def blk(self, x, ind): return self.s(x, ind) if x["kind"] == "CompoundStmt" else ["  " * ind + "{"] + self.s(x, ind + 1) + ["  " * ind + "}"]
if __name__ == "__main__":
    import sys
    ix = astutil.Index(astutil.dump("/tmp/h.cpp", "/repo"))
    t = ToC(ix, {"Half", "BFloat16"})
    for qn, fs in sorted(ix.funcs.items()):
        for f in fs:
            if not qn.startswith("tinytorch::"): continue
            try: t.func(f)
            except NoC as ex: print("//", qn, f["type"]["qualType"], ex)
    for n in t.order: print(t.out[n]["proto"], t.out[n]["body"])
