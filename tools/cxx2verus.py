"""Mechanical translation of C++ function definitions (clang-18 JSON AST of /repo's current source)
into Verus exec functions.  Contracts and loop annotations come from a .vs sidecar (see spec.py).

The translation is syntax directed; every construct without a rule raises Unsupported, which
makes the function 'not extractable' (it is then not counted as proved)."""
import re, sys, copy

class Unsupported(Exception): pass

KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try int nat real spec proof exec ghost tracked requires ensures invariant decreases forall exists assert assume choose closed open via recommends is has matches w res".split())
def rn(n):
    n = n.replace("$", "_")
    return n + "_" if n in KW else n

INT = {"long": "i64", "int": "i32", "unsigned long": "usize", "unsigned int": "u32", "unsigned char": "u8",
       "signed char": "i8", "char": "i8", "short": "i16", "unsigned short": "u16", "long long": "i64",
       "unsigned long long": "usize"}
INTR = set(INT.values())

def qt(node):
    t = node.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType") or ""

def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile ", "class ", "struct ", "enum "):
            if t.startswith(p): t = t[len(p):].strip(); ch = True
        for s in ("&&", "&", " const", "const"):
            if t.endswith(s) and not t.endswith("_const"): t = t[:-len(s)].strip(); ch = True
    return t

def is_ref(t): return t.rstrip().endswith("&")
def is_const(t): return t.strip().startswith("const ") or " const" in t

ALIASES = {"int64_t": "long", "size_t": "unsigned long", "size_type": "unsigned long", "uint8_t": "unsigned char",
           "uint32_t": "unsigned int", "int32_t": "int", "uint16_t": "unsigned short", "uint64_t": "unsigned long",
           "tinytorch::SizeVector": "tinytorch::SmallVector<long>", "SizeVector": "tinytorch::SmallVector<long>",
           "tinytorch::IntArrayView": "tinytorch::ArrayView<long>", "IntArrayView": "tinytorch::ArrayView<long>",
           "SmallVector<int64_t>": "tinytorch::SmallVector<long>", "SmallVector<long>": "tinytorch::SmallVector<long>",
           "ArrayView<int64_t>": "tinytorch::ArrayView<long>", "ArrayView<long>": "tinytorch::ArrayView<long>",
           "Tensor": "tinytorch::Tensor", "tinytorch::TensorImpl": "tinytorch::TensorImpl", "ArrayView<Tensor>": "tinytorch::ArrayView<tinytorch::Tensor>",
           "std::size_t": "unsigned long", "ptrdiff_t": "long", "difference_type": "long"}

class LV:
    """lvalue: kind place|heap|vec"""
    def __init__(s, kind, a, b=None, ty=None): s.kind, s.a, s.b, s.ty = kind, a, b, ty

class Var:
    def __init__(s, name, rty, mode): s.name, s.rty, s.mode = name, rty, mode   # mode: val | refmut | ref

class Translator:
    def __init__(self, index, unit):
        self.ix = index
        self.u = unit           # Unit spec: .types, .calls, .methods, .fields, .fns (id/qn -> FnSpec)
        self.tmp = 0

    # ---------- types
    def rty(self, t):
        t0 = t
        t = strip(t)
        if t.startswith(("std::integer_sequence<", "std::index_sequence<", "std::make_index_sequence<")): return "skip"      # compile time only
        t = ALIASES.get(t, t)
        if t in self.u.types: return self.u.types[t]
        if t in INT: return INT[t]
        if t == "bool": return "bool"
        if t == "void": return "()"
        if t == "float": return "F"
        if t == "double": return "D"
        if t in ("tinytorch::SmallVector<long>", "std::vector<long>", "tinytorch::ArrayView<long>"): return "Vec<i64>"
        m = re.match(r"^(?:tinytorch::SmallVector|std::vector|tinytorch::ArrayView|SmallVector|ArrayView|vector)<(.*?)(?:, *(?:std::)?allocator<.*>)?(?:, *\d+)?>$", t)
        if m: return "Vec<%s>" % self.rty(m.group(1))
        if t.endswith("*"):
            e = strip(t[:-1])
            e = ALIASES.get(e, e)
            key = e + " *"
            if key in self.u.types: return self.u.types[key]
            if e == "float": return "Ptr"
            if e == "long": return "IPtr"
            if e == "unsigned char": return "BPtr"
            if e == "bool": return "BPtr"
        m = re.match(r"^(?:std::)?pair<(.*), (.*)>$", t)
        if m: return "(%s, %s)" % (self.rty(m.group(1)), self.rty(m.group(2)))
        if t in self.u.enums: return "i32"
        raise Unsupported("type '%s'" % t0)

    def compile_time(self, c):
        try: return self.rty(qt(c)) == "skip"
        except Unsupported: return False
    def is_view(self, t):
        t = ALIASES.get(strip(t), strip(t))
        return re.match(r"^(const )?(tinytorch::)?ArrayView<", t) is not None or t in self.u.viewtypes
    def is_scalar_r(self, r): return re.match(r"^\((F|i64), (F|i64)\)$", r) is not None or r in INTR or r in ("bool", "F", "D", "Ptr", "IPtr", "BPtr", "()") or r in self.u.copytypes

    # ---------- helpers
    def fresh(self, p="t"):
        self.tmp += 1
        return "%s_%d" % (p, self.tmp)

    def inner(self, n): return [c for c in n.get("inner", []) if isinstance(c, dict) and c.get("kind")]

    def skip(self, n):
        while n["kind"] in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXDefaultInitExpr", "CXXRewrittenBinaryOperator") or (n["kind"] == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "LValueToRValue", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "UncheckedDerivedToBase", "DerivedToBase", "ArrayToPointerDecay")):
            ch = self.inner(n)
            if n["kind"] == "SubstNonTypeTemplateParmExpr": ch = [c for c in ch if "Decl" not in c["kind"]]
            if not ch: raise Unsupported("empty " + n["kind"])
            n = ch[0]
        return n

    # ---------- function
    def function(self, fs, decl):
        """fs: FnSpec. returns rust text"""
        self.fs = fs
        self.env = {}
        self.packs = [decl]
        self.closno = 0
        self.loopno = 0
        self.pre = []
        self.names = []          # declared names in order, for rename healing
        self.inl = []
        self.retmode = None
        params = []
        nparam = 0
        if fs.w: params.append("w: &mut World" if fs.w == "mut" else "w: &World")
        body = None
        isstatic = self.is_static(decl)
        if decl["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and not isstatic and not fs.nothis:
            cls = decl["_qn"].rsplit("::", 1)[0]
            rt = self.u.types.get(cls, cls.split("::")[-1])
            const = " const" in decl["type"]["qualType"].rsplit(")", 1)[-1]
            if cls in self.u.handles: params.append("this: %s" % rt)
            else: params.append("this: &%s%s" % ("" if const else "mut ", rt))
        for c in self.inner(decl):
            if c["kind"] == "ParmVarDecl":
                if self.compile_time(c): continue
                params.append(self.param(c, fs))
            elif c["kind"] == "CompoundStmt": body = c
        rett = decl["type"]["qualType"]
        rettype = self.ret_of(decl)
        rr = fs.rettype or self.rty(rettype)
        self.rettype = rettype; self.rr = rr
        self.retref = False
        retdecl = ""
        if rr != "()":
            if fs.retref or not fs.rettype and self.is_view(rettype): rr = "&" + rr; self.retref = True
            retdecl = " -> (res: %s)" % rr
        if getattr(self, "sigonly", False):
            txt = ["pub fn %s%s(%s)%s" % (fs.rust, fs.generics, ", ".join(params), retdecl)]
            if fs.req: txt.append("    requires\n" + self.ann(fs.req, 8))
            if fs.ens: txt.append("    ensures\n" + self.ann(fs.ens, 8))
            return "\n".join(txt) + "\n"
        stm = []
        if decl["kind"] == "CXXConstructorDecl":
            for c in self.inner(decl):
                if c["kind"] == "CXXCtorInitializer": self.ctor_init(c, stm)
        ents = self.block_stmts(self.inner(body))
        txt = []
        txt.append("pub fn %s%s(%s)%s" % (fs.rust, fs.generics, ", ".join(params), retdecl))
        if fs.req: txt.append("    requires\n" + self.ann(fs.req, 8))
        if fs.ens: txt.append("    ensures\n" + self.ann(fs.ens, 8))
        if fs.dec: txt.append("    decreases " + self.ann(fs.dec, 0).strip())
        b = self.hook("entry") + stm + ents
        if rr == "()" : b = b + self.hook("exit")
        b = self.linehooks(fs, b)
        txt.append("{\n" + "\n".join("    " + l for l in b) + "\n}")
        attrs = "#[verifier::loop_isolation(false)]\n" + "".join(a + "\n" for a in fs.attrs)
        return attrs + "\n".join(txt)

    def linehooks(self, fs, b):
        """@at before /regex/ and @at after /regex/: annotations attached to every emitted statement that matches"""
        for k in fs.hooks:
            m = re.match(r"(before|after)\s+/(.*)/$", k)
            if not m: continue
            rx = re.compile(self.heal(m.group(2))); out = []; hit = 0
            h = self.hook(k)
            for l in b:
                ok = rx.search(l) is not None and not l.strip().startswith("proof")
                ind = re.match(r"\s*", l).group(0)
                if ok: hit += 1
                if ok and m.group(1) == "before": out += [ind + x for x in h]
                out.append(l)
                if ok and m.group(1) == "after": out += [ind + x for x in h]
            if not hit: raise Unsupported("annotated statement /%s/ no longer exists" % m.group(2))
            b = out
        return b
    def is_static(self, d):
        while d:
            if d.get("storageClass") == "static": return True
            d = self.ix.decl.get(d.get("previousDecl")) if d.get("previousDecl") else None
        return False
    def signature(self, fs, decl):
        """header and contract only"""
        t = Translator(self.ix, self.u); t.ren = getattr(self, "ren", {}); t.sigonly = True
        return t.function(fs, decl)
    def ann(self, s, ind):
        return "\n".join(" " * ind + l.strip() for l in self.heal(s).strip().split("\n"))
    def declnames(self, n, out):
        for c in self.inner(n):
            if c["kind"] in ("ParmVarDecl", "VarDecl", "BindingDecl") and c.get("name"): out.append((c["kind"], c.get("type", {}).get("qualType", ""), c["name"]))
            if c["kind"] not in ("CXXRecordDecl",): self.declnames(c, out)
        return out
    def set_rename(self, decl, base):
        """local variables renamed since the annotations were written (same declarations, same types, new names)"""
        self.ren = {}
        cur = self.declnames(decl, [])
        self.decls = [list(x) for x in cur]
        if not base or len(base) != len(cur): return
        if any(b[0] != c[0] or b[1] != c[1] for b, c in zip(base, cur)): return
        m = {}
        for b, c in zip(base, cur):
            if m.setdefault(b[2], c[2]) != c[2]: return
        self.ren = {rn(a): rn(b) for a, b in m.items() if a != b}
    def heal(self, s):
        if not s or not getattr(self, "ren", None): return s
        return re.sub(r"(?<![\w.])([A-Za-z_]\w*)", lambda m: self.ren.get(m.group(1), m.group(1)), s)
    def hook(self, where):
        s = self.fs.hooks.get(where)
        if not s: return []
        out, cur = [], []
        for l in self.heal(s).rstrip().split("\n"):
            if re.match(r"\s*(let ghost|let tracked|proof \{)", l):
                if cur: out += ["proof {"] + ["    " + x for x in cur] + ["}"]; cur = []
                out.append(l)
            else: cur.append(l)
        if any(x.strip() for x in cur): out += ["proof {"] + ["    " + x for x in cur] + ["}"]
        return out

    def ret_of(self, decl):
        q = decl["type"]["qualType"]
        tr = re.match(r"auto \(.*\)[^()]* -> (.*)$", q)
        if tr: return tr.group(1)
        # function type 'R (args) quals'
        d = 0
        i = len(q) - 1
        # find matching '(' of the last ')'
        j = q.rfind(")")
        k = j
        while k >= 0:
            if q[k] == ")": d += 1
            elif q[k] == "(":
                d -= 1
                if d == 0: break
            k -= 1
        r = q[:k].strip()
        if r == "auto" or r.startswith("auto"):
            m = re.search(r"->\s*(.*)$", q[j:])
            if m: r = m.group(1)
        r = self.fs_rettypes.get(r, r) if hasattr(self, "fs_rettypes") else r
        return r

    def param(self, c, fs):
        name = rn(c.get("name", self.fresh("anon")))
        if name in self.names:      # elements of a parameter pack share their name
            k = 1
            while "%s_p%d" % (name, k) in self.names: k += 1
            name = "%s_p%d" % (name, k)
        t = qt(c)
        r = fs.ptypes.get(c.get("name")) if c.get("name") in fs.ptypes else None
        if r is not None:
            bare = r.replace("&mut ", "").replace("&", "").strip()
            mode = "refmut" if r.startswith("&mut") else ("ref" if r.startswith("&") else "val")
            self.env[c["id"]] = Var(name, bare, mode)
            self.names.append(name)
            return "%s: %s" % (("mut " + name) if mode == "val" and self.assigned(c["id"]) else name, r)
        r = self.rty(t)
        self.names.append(name)
        if is_ref(t) and not (is_const(t)) and not t.strip().endswith("&&") and not self.byhandle(t, r):
            self.env[c["id"]] = Var(name, r, "refmut")
            return "%s: &mut %s" % (name, r)
        if self.is_scalar_r(r):
            self.env[c["id"]] = Var(name, r, "val")
            return "%s: %s" % (("mut " if not is_const(t) or True else "") + name, r)
        if self.is_view(t) or is_ref(t):
            if t.strip().endswith("&&"):
                self.env[c["id"]] = Var(name, r, "val"); return "mut %s: %s" % (name, r)
            self.env[c["id"]] = Var(name, r, "ref")
            return "%s: &%s" % (name, r)
        self.env[c["id"]] = Var(name, r, "val")
        return "mut %s: %s" % (name, r)
    def assigned(self, i): return True
    def byhandle(self, t, r):      # a reference to an object that is modelled by its handle
        return r in self.u.ptrs and r not in self.u.heaps and not strip(t).rstrip("& ").endswith("*")

    def base_init(self, e, out):
        """the constructor of the base class part: a call of its contract"""
        r = self.rty(qt(e)); ct = (e.get("ctorType") or {}).get("qualType")
        for f in self.u.fns:
            if f.decl is not None and f.decl["kind"] == "CXXConstructorDecl" and f.decl["type"]["qualType"] == ct and f.decl["_qn"].split("::")[-1] == strip(qt(e)).split("::")[-1]:
                self.pre = []
                cls = self.u.types.get("::".join(self.fs.qn.split("::")[:-1]))
                x = self.emit_call(f, f.decl, self.inner(e), ("this" if cls == r else "&mut this.base", "mut"), e)
                out += self.pre; self.pre = []
                if x and x != "()": out.append(x + ";")
                return
        raise Unsupported("base class initialiser")

    def basepath(self, n):
        """place of the base class part of an object whose class keeps its base class as the field `base`"""
        q = strip(qt(self.inner(n)[0])).rstrip("*& ").strip()
        r = self.u.types.get(q.replace("const ", ""))
        if r not in self.u.bases: return ""
        out = ""
        for st in n.get("path", []):
            t = [v for k, v in self.u.types.items() if k.endswith("::" + st["name"])]
            if not t or r not in self.u.bases: raise Unsupported("base class " + st["name"])
            if t[0] != r: out += ".base"; r = t[0]
        return out

    def ctor_init(self, c, out):
        """one member initialiser of a constructor: an assignment to the member"""
        ch = self.inner(c)
        if "anyInit" not in c:      # base class: only a default constructor without state is dropped
            if len(ch) == 1 and ch[0]["kind"] == "CXXConstructExpr" and not self.inner(ch[0]): return
            return self.base_init(ch[0], out)
        nm = c["anyInit"]["name"]; fd = self.ix.decl.get(c["anyInit"]["id"])
        e = ch[0]
        if e["kind"] == "CXXDefaultInitExpr" and not self.inner(e):
            iv = self.inner(fd) if fd else []
            if not iv: raise Unsupported("default member initialiser of " + nm)
            e = iv[-1]
        r = self.u.fieldtypes.get(nm) or self.rty(qt(fd) if fd else c["anyInit"]["type"]["qualType"])
        self.pre = []
        x = self.init_value(e, r, qt(fd) if fd else "")
        out += self.pre + ["this.%s = %s;" % (rn(nm), x)]; self.pre = []

    # ---------- statements
    def block_stmts(self, stmts):
        out = []
        for s in stmts: out += self.stmt(s)
        return out

    def flush(self, lines):
        p = self.pre
        self.pre = []
        return p + lines

    def stmt(self, n):
        save = self.pre
        self.pre = []
        r = self.stmt0(n)
        r = self.pre + r
        self.pre = save
        return r

    def is_log(self, n):
        n = self.skip(n)
        if n["kind"] == "CallExpr":
            cal = self.skip(self.inner(n)[0])
            if cal["kind"] == "DeclRefExpr" and cal["referencedDecl"].get("name") == "log" and len(self.inner(n)) > 3: return True
        return False

    # function pointers obtained from a dispatch function: resolved at translation time for the CPU device
    def is_fnptr(self, n):
        t = n.get("type", {}); return "(*)(" in (t.get("desugaredQualType") or t.get("qualType") or "")
    def fnptr(self, n):
        n = self.skip(n)
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr") or n["kind"] == "UnaryOperator" and n.get("opcode") == "&": n = self.skip(self.inner(n)[0])
        if n["kind"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr"): return None
        if n["kind"] == "DeclRefExpr":
            v = self.env.get(n["referencedDecl"]["id"])
            if isinstance(v, tuple) and v[0] == "fnptr": return v[1]
            if n["referencedDecl"]["kind"] in ("FunctionDecl", "CXXMethodDecl"): return n["referencedDecl"]
        if n["kind"] == "CallExpr":
            cal = self.skip(self.inner(n)[0])
            body = self.ix.body_of.get(cal["referencedDecl"]["id"]) if cal["kind"] == "DeclRefExpr" else None
            args = self.inner(n)[1:]
            if body is not None and len(args) == 1 and "DeviceType" in qt(args[0]):
                st = [c for c in self.inner(body) if c["kind"] == "CompoundStmt"]
                r = self.fnptr_ret(self.inner(st[0])) if st else None
                if r is not None: return self.fnptr(self.inner(r)[0])
        raise Unsupported("function pointer " + n["kind"])
    def fnptr_ret(self, stmts):
        for s in stmts:
            if s["kind"] == "ReturnStmt": return s
            if s["kind"] == "SwitchStmt":
                flat = []
                def fl(x):
                    if x["kind"] == "CaseStmt": flat.append(("case", self.inner(x)[0])); fl(self.inner(x)[-1])
                    elif x["kind"] == "DefaultStmt": flat.append(("default", None)); fl(self.inner(x)[-1])
                    else: flat.append(("stmt", x))
                for x in self.inner(self.inner(s)[-1]): fl(x)
                def cpu(x):
                    while x["kind"] in ("ConstantExpr", "ImplicitCastExpr"): x = self.inner(x)[0]
                    if x["kind"] != "DeclRefExpr": raise Unsupported("device switch")
                    return x["referencedDecl"]["name"] == "CPU"
                start = [k for k, (a, x) in enumerate(flat) if a == "case" and cpu(x)] or [k for k, (a, x) in enumerate(flat) if a == "default"]
                if start:
                    for a, x in flat[start[0]:]:
                        if a == "stmt" and x["kind"] == "ReturnStmt": return x
                        if a == "stmt": raise Unsupported("device switch")
                continue
            raise Unsupported("device dispatch " + s["kind"])
        return None
    def static_cond(self, n):
        n = self.skip(n)
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and n.get("castKind") != "PointerToBoolean": n = self.skip(self.inner(n)[0])
        if n["kind"] == "UnaryOperator" and n.get("opcode") == "!":
            v = self.static_cond(self.inner(n)[0]); return None if v is None else not v
        def val(x):
            x = self.skip(x)
            while x["kind"] in ("ImplicitCastExpr", "ParenExpr"): x = self.skip(self.inner(x)[0])
            if x["kind"] == "CXXNullPtrLiteralExpr": return (0,)
            if x["kind"] == "DeclRefExpr":
                v = self.env.get(x["referencedDecl"]["id"])
                if isinstance(v, tuple) and v[0] == "fnptr": return (0 if v[1] is None else 1,)
            return None
        if n["kind"] == "BinaryOperator" and n.get("opcode") in ("==", "!="):
            a, b = val(self.inner(n)[0]), val(self.inner(n)[1])
            if a is not None and b is not None: return (a == b) == (n["opcode"] == "==")
        if n["kind"] == "ImplicitCastExpr":
            a = val(self.inner(n)[0])
            if a is not None: return a == (1,)
        return None

    def has_asm(self, n):
        """executing n always reaches the trap of ASSERT (before any return, break or continue)"""
        k = n.get("kind")
        if k == "GCCAsmStmt": return True
        if k == "CompoundStmt":
            for c in self.inner(n):
                if self.has_asm(c): return True
                if self.jumps(c): return False
            return False
        if k == "DoStmt": return self.has_asm(self.inner(n)[0])
        if k == "IfStmt":
            init, var, then, els, cond = self.if_parts(n)
            v = self.const_cond(cond)
            if v is True: return self.has_asm(then)
            if v is False: return els is not None and self.has_asm(els)
            return els is not None and self.has_asm(then) and self.has_asm(els)
        return False

    def jumps(self, n):
        if n.get("kind") in ("ReturnStmt", "BreakStmt", "ContinueStmt", "GotoStmt"): return True
        if n.get("kind") == "LambdaExpr": return False
        return any(self.jumps(c) for c in self.inner(n))

    def const_cond(self, n):
        """value of a condition that does not depend on the state, or None"""
        n = self.skip(n)
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "ConstantExpr") and self.inner(n): n = self.skip(self.inner(n)[0])
        if n["kind"] == "StringLiteral": return True
        if n["kind"] == "CXXBoolLiteralExpr": return bool(n["value"])
        if n["kind"] == "UnaryOperator" and n.get("opcode") == "!":
            v = self.const_cond(self.inner(n)[0]); return None if v is None else not v
        if n["kind"] == "BinaryOperator" and n.get("opcode") in ("&&", "||"):
            a, b = [self.const_cond(c) for c in self.inner(n)]
            if n["opcode"] == "&&": return False if a is False or b is False else True if a and b else None
            return True if a is True or b is True else False if a is False and b is False else None
        return None

    def const_int(self, n):
        n = self.skip(n)
        while n["kind"] in ("ImplicitCastExpr", "CXXStaticCastExpr") and self.inner(n): n = self.skip(self.inner(n)[0])
        if n["kind"] == "IntegerLiteral": return int(n["value"])
        if n["kind"] == "CXXBoolLiteralExpr": return 1 if n["value"] else 0
        return None

    def stmt0(self, n):
        k = n["kind"]
        if k == "CompoundStmt":
            return ["{"] + ["    " + l for l in self.block_stmts(self.inner(n))] + ["}"]
        if k == "DeclStmt":
            out = []
            for d in self.inner(n): out += self.decl(d)
            return out
        if k == "NullStmt": return []
        if k == "GCCAsmStmt": return ["trap();"]
        if k == "ReturnStmt": return self.ret(n)
        if k == "BreakStmt": return ["break;"]
        if k == "ContinueStmt":
            inc = self.contstack[-1] if getattr(self, "contstack", None) else []
            return ["{"] + inc + ["continue;", "}"] if inc else ["continue;"]
        if k == "IfStmt": return self.ifstmt(n)
        if k == "ForStmt": return self.forstmt(n)
        if k == "WhileStmt": return self.whilestmt(n)
        if k == "DoStmt": return self.dostmt(n)
        if k == "CXXForRangeStmt": return self.rangefor(n)
        if k == "SwitchStmt": return self.switch(n)
        # expression statement
        if self.is_log(n): return []
        return self.exprstmt(n)

    def ret(self, n):
        ch = self.inner(n)
        if self.inl:
            fr = self.inl[-1]
            if ch:
                e = self.expr_as(ch[0], fr["rty"], fr["t"])
                return ["%s = %s;" % (fr["var"], e)]
            return []
        if not ch:
            return self.hook("exit") + ["return;"]
        if self.rr == "()":
            return self.exprstmt(ch[0]) + self.hook("exit") + ["return;"]
        e = self.expr_as(ch[0], self.rr, self.rettype, retref=self.retref, isret=True)
        h = self.hook("exit")
        if h:
            v = self.fresh("ret")
            return ["let res = %s;" % e] + h + ["return res;"]
        return ["return %s;" % e]

    def expr_as(self, n, r, t, retref=False, isret=False):
        """expression converted to a value of rust type r (C++ type t): owned copy if needed"""
        s = self.skip(n)
        if isret and not retref:
            z = s
            if z["kind"] == "CXXConstructExpr" and len(self.inner(z)) == 1: z = self.skip(self.inner(z)[0])
            if z["kind"] == "DeclRefExpr":
                v = self.env.get(z["referencedDecl"]["id"])
                if isinstance(v, Var) and v.mode == "val" and v.rty == r: return v.name      # moved out
        x = self.expr(n)
        if self.is_scalar_r(r): return x
        if retref: return self.asref(x, n)
        return self.owned(x, s, r)

    def owned(self, x, s, r):
        """make an owned value of a non scalar"""
        if self.is_temp(s):
            if r.startswith("Vec<") and (self.is_view(qt(s)) or x.endswith((".shapev()", ".stridev()"))): return self.clone(x, r)
            return x
        if s["kind"] in ("CXXConstructExpr", "CXXFunctionalCastExpr", "CXXTemporaryObjectExpr", "InitListExpr"): return x
        return self.clone(x, r)
    def clone(self, x, r):
        f = self.u.clones.get(r)
        if f: return "%s(%s)" % (f, x if x.startswith("&") else "&" + x)
        if r.startswith("Vec<"):
            if x.startswith("(if"): t = self.fresh("o"); self.pre.append("let %s = %s;" % (t, x)); x = t
            return "vclone(%s)" % (x if x.startswith("&") else "&" + x)
        return x
    def is_temp(self, s):
        return s["kind"] in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") and not is_ref(self.call_type(s))
    def call_type(self, n):
        return n["type"]["qualType"] + ("&" if n.get("valueCategory") == "lvalue" else "")

    def terminates(self, stmts):
        if not stmts: return False
        s = stmts[-1]
        if s["kind"] in ("ReturnStmt", "BreakStmt", "ContinueStmt"): return True
        if s["kind"] == "CompoundStmt": return self.terminates(self.inner(s))
        if s["kind"] == "IfStmt":
            c = self.if_parts(s)
            return c[3] is not None and self.terminates([c[2]]) and self.terminates([c[3]])
        return False

    def has_return(self, n):
        if n["kind"] == "ReturnStmt": return True
        if n["kind"] == "LambdaExpr": return False
        if n["kind"] == "IfStmt" and not n.get("isConstexpr"):
            init, var, then, els, cond = self.if_parts(n)
            if els is None and init is None and self.has_asm(then): return False   # proved unreachable: ifstmt
        return any(self.has_return(c) for c in self.inner(n))

    def if_parts(self, n):
        ch = self.inner(n)
        init = None
        if n.get("hasInit"): init, ch = ch[0], ch[1:]
        var = None
        if n.get("hasVar"): var, ch = ch[0], ch[1:]
        cond, then = ch[0], ch[1]
        els = ch[2] if n.get("hasElse") and len(ch) > 2 else None
        return (init, var, then, els, cond)

    def ifstmt(self, n):
        init, var, then, els, cond = self.if_parts(n)
        out = []
        if init is not None: out += self.stmt(init)
        if n.get("isConstexpr"):
            v = {"true": 1, "false": 0}.get(cond.get("value")) if cond.get("kind") == "ConstantExpr" else None
            if v is None: v = self.const_int(cond)
            if v is not None:
                if v: return out + self.stmt(then)
                return out + (self.stmt(els) if els is not None else [])
        sv = self.static_cond(cond) if init is None and var is None else None
        if sv is None and init is None and var is None and self.const_cond(cond) is False: sv = False
        if sv is not None: return self.stmt(then) if sv else (self.stmt(els) if els is not None else [])
        if var is not None: out += self.stmt(var)
        if self.has_asm(then) and els is None:
            # ASSERT: the process is trapped when the condition fails
            c = self.cond(cond)
            if self.fs.assume_asserts:
                return out + self.flush(["if %s { diverge(); }" % c])
            return out + self.flush(["if %s { trap(); }" % c])
        c = self.cond(cond)
        out += self.flush(["if %s {" % c])
        out += ["    " + l for l in self.stmt_inblock(then)]
        if els is not None:
            out += ["} else {"] + ["    " + l for l in self.stmt_inblock(els)]
        out += ["}"]
        if init is not None or var is not None: out = ["{"] + out + ["}"]
        return out
    def stmt_inblock(self, n):
        if n["kind"] == "CompoundStmt": return self.block_stmts(self.inner(n))
        return self.stmt(n)

    def cond(self, n):
        x = self.expr(n)
        r = self.rty(qt(self.skip(n))) if qt(self.skip(n)) else "bool"
        return x

    # ----- loops
    def loop_ann(self, k, auto_inv, auto_dec):
        la = self.fs.loops.get(k)
        lines = []
        inv = list(auto_inv)
        if la and la.inv: inv.append(self.heal(la.inv).strip())
        if la and la.noauto: inv = [self.heal(la.inv).strip()] if la.inv else []
        if self.fs.hooks.get("loop%d.unbroken" % k):
            lines.append("    invariant_except_break"); lines += ["        " + l.strip() for l in self.heal(self.fs.hooks["loop%d.unbroken" % k]).strip().split("\n")]
            if not lines[-1].rstrip().endswith(","): lines[-1] += ","
        if inv:
            lines.append("    invariant")
            for x in inv:
                for l in x.split("\n"):
                    lines.append("        " + l.strip())
                if not lines[-1].rstrip().endswith(","): lines[-1] += ","
        if self.fs.hooks.get("loop%d.ensures" % k):
            lines.append("    ensures"); lines += ["        " + l.strip() for l in self.heal(self.fs.hooks["loop%d.ensures" % k]).strip().split("\n")]
        dec = (self.heal(la.dec) if la and la.dec else None) or auto_dec
        if dec: lines.append("    decreases " + dec)
        if la: self.fs.used_loops.add(k)
        return lines

    def modified(self, n, acc):
        """ids of variables syntactically modified in n"""
        k = n.get("kind")
        def base(x):
            x = self.skip(x)
            while x["kind"] in ("MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr"):
                ch = self.inner(x)
                x = self.skip(ch[1] if x["kind"] == "CXXOperatorCallExpr" and len(ch) > 1 else ch[0])
            if x["kind"] == "DeclRefExpr": acc.add(x["referencedDecl"]["id"])
        if k in ("CompoundAssignOperator",) or (k == "BinaryOperator" and n.get("opcode") == "="):
            base(self.inner(n)[0])
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"): base(self.inner(n)[0])
        for c in self.inner(n): self.modified(c, acc)
        return acc

    def forstmt(self, n):
        ch = n.get("inner", [])
        # clang: init, condvar, cond, inc, body (empty dicts for missing)
        init, cvar, cond, inc, body = ch[0], ch[1], ch[2], ch[3], ch[4]
        if cvar.get("kind"): raise Unsupported("for condition variable")
        k = self.loopno; self.loopno += 1
        out = []
        if init.get("kind"): out += self.stmt(init)
        auto, dec = [], None
        mods = self.modified(body, set())
        if inc.get("kind"): self.modified(inc, mods)
        iv = None
        if init.get("kind") == "DeclStmt" and len(self.inner(init)) >= 1:
            v = self.inner(init)[0]
            if v["kind"] == "VarDecl" and self.env.get(v["id"]): iv = v
        if iv is None and init.get("kind") == "BinaryOperator" and init.get("opcode") == "=":
            l = self.skip(self.inner(init)[0])
            if l["kind"] == "DeclRefExpr": iv = self.ix.decl.get(l["referencedDecl"]["id"]) or l["referencedDecl"]
        if iv is not None and iv["id"] in self.env and self.env[iv["id"]].rty in INTR and cond.get("kind"):
            nm = self.env[iv["id"]].name
            up = self.inc_dir(inc, iv["id"])
            bodymods = self.modified(body, set())
            g = "%s_init%d" % (nm, k)
            bound = self.bound(cond, iv["id"], mods)
            if up and iv["id"] not in bodymods:
                out.append("let ghost %s: int = %s as int;" % (g, nm))
                if up > 0:
                    auto.append("%s <= %s," % (g, nm))
                    if bound:
                        op, b = bound
                        lim = {"<": b, "!=": b, "<=": "(%s) + 1" % b}.get(op)
                        if lim:
                            step = up
                            lim2 = lim if step == 1 else "(%s) + %d" % (lim, step - 1)
                            auto.append("%s == %s || %s <= %s," % (nm, g, nm, lim2))
                            dec = "(%s) - %s" % (lim2, nm)
                else:
                    auto.append("%s <= %s," % (nm, g))
                    if bound:
                        op, b = bound
                        lim = {">": b, "!=": b, ">=": "(%s) - 1" % b}.get(op)
                        if lim:
                            auto.append("%s == %s || %s >= %s - %d," % (nm, g, nm, lim, -up - 1))
                            dec = "%s - (%s) + %d" % (nm, lim, -up)
        c = self.cond(cond) if cond.get("kind") else "true"
        cpre = self.pre; self.pre = []
        if cpre: c = "{ " + " ".join(cpre) + " " + c + " }"
        incs = self.stmt(inc) if inc.get("kind") else []
        la = self.loop_ann(k, auto, dec)
        out += self.hook("loop%d.before" % k)
        out += self.iso(k) + ["while %s" % c] + la + ["{"]
        out += ["    " + l for l in self.hook("loop%d.begin" % k)]
        if not hasattr(self, "contstack"): self.contstack = []
        endh = self.hook("loop%d.end" % k)
        self.contstack.append(endh + incs)
        b = self.stmt_inblock(body)
        self.contstack.pop()
        out += ["    " + l for l in b]
        if not self.terminates([body]): out += ["    " + l for l in endh + incs + self.hook("loop%d.inc" % k)]
        out += ["}"]
        out += self.hook("loop%d.after" % k)
        return ["{"] + ["    " + l for l in out] + ["}"]

    def iso(self, k):
        la = self.fs.loops.get(k)
        return ["#[verifier::loop_isolation(true)]"] if la and getattr(la, 'iso', False) else []

    def inc_dir(self, inc, vid):
        if not inc.get("kind"): return 0
        inc = self.skip(inc)
        if inc["kind"] == "UnaryOperator" and inc["opcode"] in ("++", "--"):
            l = self.skip(self.inner(inc)[0])
            if l["kind"] == "DeclRefExpr" and l["referencedDecl"]["id"] == vid:
                return 1 if inc["opcode"] == "++" else -1
        if inc["kind"] == "CompoundAssignOperator" and inc["opcode"] in ("+=", "-="):
            l = self.skip(self.inner(inc)[0])
            c = self.const_int(self.inner(inc)[1])
            if l["kind"] == "DeclRefExpr" and l["referencedDecl"]["id"] == vid and c:
                return c if inc["opcode"] == "+=" else -c
        return 0

    def bound(self, cond, vid, mods):
        cond = self.skip(cond)
        if cond["kind"] == "BinaryOperator" and cond["opcode"] == "&&":
            return self.bound(self.inner(cond)[0], vid, mods) or self.bound(self.inner(cond)[1], vid, mods)
        if cond["kind"] != "BinaryOperator" or cond["opcode"] not in ("<", "<=", ">", ">=", "!="): return None
        a, b = self.inner(cond)
        def isv(x):
            x = self.skip(x)
            while x["kind"] in ("ImplicitCastExpr", "CXXStaticCastExpr"): x = self.skip(self.inner(x)[0])
            return x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] == vid
        op = cond["opcode"]
        if isv(b):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op]
        if not isv(a): return None
        try:
            s = self.spec(b, mods)
        except Unsupported:
            return None
        return (op, s)

    def spec(self, n, mods):
        """spec-level text of a side-effect free integer expression over unmodified things"""
        n = self.skip(n)
        k = n["kind"]
        if k == "IntegerLiteral": return n["value"]
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            if rd["id"] in mods: raise Unsupported("modified")
            v = self.env.get(rd["id"])
            if v is None:
                c = self.global_const(rd)
                return c
            return ("*" + v.name) if v.mode == "refmut" and self.is_scalar_r(v.rty) else v.name
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            return self.spec(self.inner(n)[0], mods)
        if k == "BinaryOperator" and n["opcode"] in ("+", "-", "*", "/", "%"):
            a, b = self.inner(n)
            return "(%s %s %s)" % (self.spec(a, mods), n["opcode"], self.spec(b, mods))
        if k == "CXXMemberCallExpr":
            me = self.inner(n)[0]
            r = self.u.specmethod(self, n, me, mods)
            if r: return r
            body = self.ix.body_of.get(me.get("referencedMemberDecl"))
            if body is not None and len(self.inner(n)) == 1 and self.skip(self.inner(me)[0])["kind"] == "CXXThisExpr":
                st = [c for c in self.inner(body) if c["kind"] == "CompoundStmt"]
                if st and len(self.inner(st[0])) == 1 and self.inner(st[0])[0]["kind"] == "ReturnStmt":
                    return self.spec(self.inner(self.inner(st[0])[0])[0], mods)
        if k == "MemberExpr" and self.skip(self.inner(n)[0])["kind"] == "CXXThisExpr":
            t = self.u.member_lval(self, n)
            if isinstance(t, LV) and re.match(r"^[\w.]+$", str(t.a if hasattr(t, "a") else "")): return t.a
        if k == "MemberExpr":
            b = self.skip(self.inner(n)[0])
            if b["kind"] == "DeclRefExpr" and b["referencedDecl"]["id"] not in mods:
                t = self.u.member_lval(self, n)
                if isinstance(t, LV) and re.match(r"^[\w.]+$", str(t.a if hasattr(t, "a") else "")): return t.a
        raise Unsupported("spec " + k)

    def whilestmt(self, n):
        ch = self.inner(n)
        if n.get("hasVar"): raise Unsupported("while var")
        cond, body = ch[0], ch[1]
        k = self.loopno; self.loopno += 1
        c = self.cond(cond)
        cpre = self.pre; self.pre = []
        if cpre: c = "{ " + " ".join(cpre) + " " + c + " }"
        out = self.hook("loop%d.before" % k)
        auto, dec = [], None
        out += ["while %s" % c] + self.loop_ann(k, auto, dec) + ["{"]
        out += ["    " + l for l in self.hook("loop%d.begin" % k)]
        if not hasattr(self, "contstack"): self.contstack = []
        endh = self.hook("loop%d.end" % k)
        self.contstack.append(endh)
        out += ["    " + l for l in self.stmt_inblock(body)]
        self.contstack.pop()
        if not self.terminates([body]): out += ["    " + l for l in endh]
        out += ["}"] + self.hook("loop%d.after" % k)
        return out

    def dostmt(self, n):
        body, cond = self.inner(n)[0], self.inner(n)[1]
        if self.const_int(cond) == 0:
            return self.stmt_inblock(body) if not any(c["kind"] == "DeclStmt" for c in self.inner(body)) else self.stmt(body)
        k = self.loopno; self.loopno += 1
        f = "first_%d" % k
        c = self.cond(cond)
        if self.pre: raise Unsupported("do-while condition with effects")
        out = ["let mut %s: bool = true;" % f] + self.hook("loop%d.before" % k)
        out += ["while %s || %s" % (f, c)] + self.loop_ann(k, [], None) + ["{", "    %s = false;" % f]
        out += ["    " + l for l in self.hook("loop%d.begin" % k)]
        out += ["    " + l for l in self.stmt_inblock(body)]
        out += ["    " + l for l in self.hook("loop%d.end" % k)]
        out += ["}"] + self.hook("loop%d.after" % k)
        return out

    def rangefor(self, n):
        ch = n.get("inner", [])
        # init, range decl, begin, end, cond, inc, loopvar, body
        rng = loopvar = body = None
        for c in ch:
            if c.get("kind") == "DeclStmt":
                v = self.inner(c)[0]
                if v.get("name", "").startswith("__range"): rng = self.inner(v)[0]
                elif v.get("name", "").startswith("__begin") or v.get("name", "").startswith("__end"): pass
                else: loopvar = v
        body = ch[-1]
        if rng is None or loopvar is None: raise Unsupported("range-for shape")
        k = self.loopno; self.loopno += 1
        x = self.expr(rng)
        s = self.skip(rng)
        out = []
        pre = self.pre; self.pre = []
        out += pre
        vec = x
        rng_t = qt(s)
        try: rr = self.rty_of(s)
        except Unsupported: rr = None
        if rr in self.u.ranges: x = vec = self.u.ranges[rr].replace("$this", x)
        if self.is_temp(s) or not re.match(r"^[\w.&*]+$", x):
            vec = "rng_%d" % k
            out.append("let %s = %s;" % (vec, x))
        ik = "k_%d" % k
        out.append("let mut %s: usize = 0;" % ik)
        name = rn(loopvar["name"]); t = qt(loopvar)
        r = self.rty(t)
        self.names.append(name)
        if is_ref(t) and not is_const(t) and not self.is_scalar_r(r) and r not in self.u.copytypes and loopvar["id"] in self.modified(body, set()):
            raise Unsupported("mutable range-for reference")
        mut_scalar = is_ref(t) and not is_const(t) and self.is_scalar_r(r) and loopvar["id"] in self.modified(body, set())
        if mut_scalar: raise Unsupported("mutable range-for reference")
        if self.is_scalar_r(r):
            self.env[loopvar["id"]] = Var(name, r, "val"); bind = "let mut %s: %s = %s[%s];" % (name, r, vec.lstrip("&"), ik)
        else:
            self.env[loopvar["id"]] = Var(name, r, "ref"); bind = "let %s = &%s[%s];" % (name, vec.lstrip("&"), ik)
        auto = ["%s <= %s.len()," % (ik, vec.lstrip("&"))]
        dec = "%s.len() - %s" % (vec.lstrip("&"), ik)
        out += self.hook("loop%d.before" % k)
        out += ["while %s < %s.len()" % (ik, vec.lstrip("&"))] + self.loop_ann(k, auto, dec) + ["{", "    " + bind]
        out += ["    " + l for l in self.hook("loop%d.begin" % k)]
        if not hasattr(self, "contstack"): self.contstack = []
        endh = self.hook("loop%d.end" % k)
        incs = ["%s = %s + 1;" % (ik, ik)]
        self.contstack.append(endh + incs)
        b = self.stmt_inblock(body)
        self.contstack.pop()
        out += ["    " + l for l in b]
        if not self.terminates([body]): out += ["    " + l for l in endh + incs]
        out += ["}"] + self.hook("loop%d.after" % k)
        return ["{"] + ["    " + l for l in out] + ["}"]

    def switch(self, n):
        ch = self.inner(n)
        cond, body = ch[0], ch[1]
        v = self.fresh("sw")
        x = self.expr(cond)
        out = self.flush(["let %s = %s;" % (v, x)])
        # collect groups
        groups = []   # (labels, stmts)
        cur = None
        def add_case(c, labels):
            if c["kind"] == "CaseStmt":
                cc = self.inner(c)
                labels.append(self.expr(cc[0]))
                return add_case(cc[-1], labels)
            if c["kind"] == "DefaultStmt":
                labels.append(None)
                return add_case(self.inner(c)[0], labels)
            return c
        for c in self.inner(body):
            if c["kind"] in ("CaseStmt", "DefaultStmt"):
                labels = []
                first = add_case(c, labels)
                groups.append((labels, [first]))
            else: groups[-1][1].append(c)
        # each group must end in break/return, or be last; fallthrough duplicates the following bodies
        bodies = []
        for gi, (labels, st) in enumerate(groups):
            seq = []
            for gj in range(gi, len(groups)):
                st2 = groups[gj][1]
                stop = False
                for s in st2:
                    if s["kind"] == "BreakStmt": stop = True; break
                    if s["kind"] == "CompoundStmt" and self.inner(s) and self.inner(s)[-1]["kind"] == "BreakStmt":
                        s = dict(s); s["inner"] = self.inner(s)[:-1]; seq.append(s); stop = True; break
                    seq.append(s)
                    if self.terminates([s]): stop = True; break
                if stop: break
            bodies.append((labels, seq))
        first = True
        deflt = None
        for labels, seq in bodies:
            if None in labels: deflt = seq; 
        for labels, seq in bodies:
            if None in labels: continue
            c = " || ".join("%s == %s" % (v, l) for l in labels)
            ln = self.loopno
            b = self.block_stmts(seq)
            out += [("if " if first else "} else if ") + c + " {"] + ["    " + l for l in b]
            first = False
        if deflt is not None:
            b = self.block_stmts(deflt)
            if first: out += ["{"] + b + ["}"]
            else: out += ["} else {"] + ["    " + l for l in b] + ["}"]
        elif not first: out += ["}"]
        return out

    # ----- declarations
    def decl(self, d):
        k = d["kind"]
        if k in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl"): return []
        if k == "DecompositionDecl": return self.decomp(d)
        if k != "VarDecl": raise Unsupported("decl " + k)
        name = rn(d["name"])
        t = qt(d)
        ch = self.inner(d)
        # lambda: remember for inlining
        init = ch[0] if ch else None
        if init is not None:
            s = self.skip(init)
            if s["kind"] == "LambdaExpr" or (s["kind"] == "CXXConstructExpr" and self.inner(s) and self.skip(self.inner(s)[0])["kind"] == "LambdaExpr"):
                if s["kind"] != "LambdaExpr": s = self.skip(self.inner(s)[0])
                self.env[d["id"]] = ("lambda", s)
                return []
        if init is not None and self.is_fnptr(d):
            self.env[d["id"]] = ("fnptr", self.fnptr(init)); return []
        if init is not None:
            tp = self.tuple_of(init)
            if tp is not None:
                self.env[d["id"]] = ("tuple", tp); return []
        key = self.fs.vtypes.get(d["name"])
        try: r = key or self.rty(t)
        except Unsupported:
            if init is None or not is_ref(t): raise
            r = self.rty_of(init)
        self.names.append(name)
        if r == "skip":
            self.env[d["id"]] = Var(name, r, "val"); return []
        if init is None or d.get("init") is None and not ch:
            self.env[d["id"]] = Var(name, r, "val")
            return ["let mut %s: %s = %s;" % (name, r, self.default(r))]
        if is_ref(t) and r in self.u.globalrefs:      # reference to process wide state: taken with arbitrary contents
            x = self.expr(init); self.env[d["id"]] = Var(name, r, "val")
            return self.flush(["let mut %s: %s = %s;" % (name, r, x)])
        if is_ref(t):
            s = self.skip(init)
            x = self.expr(init)
            if self.is_scalar_r(r):
                if is_const(t) or r in self.u.ptrs and r not in self.u.heaps:
                    self.env[d["id"]] = Var(name, r, "val"); return self.flush(["let %s: %s = %s;" % (name, r, x)])
                # mutable alias of a place: substitute textually
                lv = self.lval(init)
                self.env[d["id"]] = ("alias", lv, r)
                return self.flush([])
            if is_const(t) or t.strip().endswith("&&") or self.is_temp(s):
                if self.is_temp(s) and not x.startswith("&") and x.endswith((".shapev()", ".stridev()")):
                    self.env[d["id"]] = Var(name, r, "ref"); return self.flush(["let %s: &%s = %s;" % (name, r, x)])
                if self.is_temp(s) and not x.startswith("&"):
                    self.env[d["id"]] = Var(name, r, "val"); return self.flush(["let mut %s: %s = %s;" % (name, r, x)])
                self.env[d["id"]] = Var(name, r, "ref")
                return self.flush(["let %s = %s;" % (name, x if x.startswith("&") else "&" + x)])
            lv = self.lval(init)
            self.env[d["id"]] = ("alias", lv, r)
            return self.flush([])
        if self.is_view(t) and not key:
            x = self.asref(self.expr(init), init)
            self.env[d["id"]] = Var(name, r, "ref")
            return self.flush(["let %s: &%s = %s;" % (name, r, x)])
        x = self.init_value(init, r, t)
        self.env[d["id"]] = Var(name, r, "val")
        return self.flush(["let mut %s: %s = %s;" % (name, r, x)])

    def init_value(self, init, r, t):
        return self.expr_as(init, r, t)
    def tuple_of(self, n):
        """the argument expressions of std::forward_as_tuple(...), or of a variable holding one"""
        s = self.skip(n)
        if s["kind"] == "CXXConstructExpr" and len(self.inner(s)) == 1: s = self.skip(self.inner(s)[0])
        if s["kind"] == "DeclRefExpr":
            v = self.env.get(s["referencedDecl"]["id"])
            return v[1] if isinstance(v, tuple) and v[0] == "tuple" else None
        if s["kind"] == "CallExpr":
            cal = self.skip(self.inner(s)[0])
            if cal["kind"] == "DeclRefExpr" and cal["referencedDecl"].get("name") == "forward_as_tuple": return self.inner(s)[1:]
        return None
    def tuple_get(self, n):
        """std::get<I>(tuple): the unit's translation unit makes I visible in the type of the callee"""
        s = self.skip(n)
        if s["kind"] != "CallExpr": return None
        cal = self.skip(self.inner(s)[0])
        if cal["kind"] != "DeclRefExpr" or cal["referencedDecl"].get("name") != "vget": return None
        m = re.search(r"vidx<(\d+)", cal["referencedDecl"]["type"]["qualType"])
        tp = self.tuple_of(self.inner(s)[1])
        if not m or tp is None: raise Unsupported("std::get")
        return tp[int(m.group(1))]
    def closure(self, lam, ens=None):
        """a pure lambda as a Verus closure; its ensures is the annotation of this position, or its own expression"""
        rec = [c for c in self.inner(lam) if c["kind"] == "CXXRecordDecl"][0]
        ops = [c for c in self.inner(rec) if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()"]
        if len(ops) != 1: raise Unsupported("generic lambda as a value")
        m = ops[0]; k = self.closno; self.closno += 1
        if self.fs.hooks.get("closure%d" % k): ens = self.fs.hooks["closure%d" % k]
        ps = []
        for c in self.inner(m):
            if c["kind"] != "ParmVarDecl": continue
            r = self.rty(qt(c)); nm = self.fresh(rn(c.get("name", "p")))
            if not self.is_scalar_r(r): raise Unsupported("closure parameter " + r)
            self.env[c["id"]] = Var(nm, r, "val"); ps.append((nm, r))
        body = [c for c in self.inner(m) if c["kind"] == "CompoundStmt"][0]
        stmts = self.inner(body)
        rr = self.rty(self.ret_of(m))
        sp = self.pre; self.pre = []
        single = len(stmts) == 1 and stmts[0]["kind"] == "ReturnStmt"
        if single:
            x = self.expr_as(self.inner(stmts[0])[0], rr, "")
            lines = self.pre + [x]; simple = not self.pre
        else:
            var = self.fresh("inl"); self.inl.append({"var": var, "rty": rr, "t": self.ret_of(m)})
            b = self.nest_returns(stmts); self.inl.pop()
            lines = ["let %s: %s;" % (var, rr)] + ["{"] + ["    " + l for l in b] + ["}", var]; simple = False
        self.pre = sp
        if any(re.search(r"\bw\.|\(w\b|\bw,", l) for l in lines): raise Unsupported("closure that touches memory")
        if ens is not None:
            e = self.heal(ens).strip().rstrip(",")
            for i, (nm, r) in enumerate(ps): e = e.replace("$%d" % i, nm)
        elif simple:
            e = "r == (%s)" % re.sub(r"\b([fd])_(\w+)\(", r"s\1_\2(", re.sub(r"Ghost\(([^()]*)\)", r"\1", lines[-1]))
        else: raise Unsupported("closure without annotation")
        v = self.fresh("lam")
        self.pre += ["let %s = |%s| -> (r: %s)" % (v, ", ".join("%s: %s" % q for q in ps), rr), "    ensures %s" % e, "{"] + ["    " + l for l in lines] + ["};"]
        return v

    def mref(self, place):
        for v in self.env.values():
            if isinstance(v, Var) and v.mode == "refmut" and v.name == place: return place
        return "&mut " + place
    def asref(self, x, n):
        if x == "Vec::new()":
            t = self.fresh("ev"); self.pre.append("let %s: Vec<i64> = Vec::new();" % t); return "&" + t
        if x.startswith("&"): return x
        s = self.skip(n)
        if s["kind"] == "DeclRefExpr":
            v = self.env.get(s["referencedDecl"]["id"])
            if isinstance(v, Var) and v.mode == "ref": return x
        if s["kind"] in ("CXXMemberCallExpr", "CallExpr", "CXXConstructExpr", "ConditionalOperator") and self.u.returns_ref(self, s): return x
        return "&" + x

    def default(self, r):
        if r in INTR: return "arb_%s()" % r
        if r == "bool": return "arb_bool()"
        if r == "F": return "arb_f()"
        if r == "D": return "arb_d()"
        if r.startswith("Vec<"): return "Vec::new()"
        if r in self.u.defaults: return self.u.defaults[r]
        raise Unsupported("default of " + r)

    def decomp(self, d):
        ch = self.inner(d)
        binds = [c for c in ch if c["kind"] == "BindingDecl"]
        init = [c for c in ch if c["kind"] != "BindingDecl"][0]
        x = self.expr(init)
        names = []
        parts = re.match(r"^\((i64|F), (i64|F)\)$", self.rty(qt(d)) if len(binds) == 2 and not qt(binds[0]) else "")
        for j, b in enumerate(binds):
            nm = rn(b["name"])
            self.names.append(nm)
            r = self.rty(qt(b)) if qt(b) else parts.group(j + 1) if parts else None
            if r is None:
                raise Unsupported("binding type")
            self.env[b["id"]] = Var(nm, r, "val")
            # the tuple-like binding may reference holding vars
            for c in self.inner(b):
                if c["kind"] == "VarDecl": self.env[c["id"]] = Var(nm, r, "val")
            names.append("mut " + nm)
        return self.flush(["let (%s) = %s;" % (", ".join(names), x)])

    # ----- expressions
    def exprstmt(self, n):
        s = self.skip(n)
        k = s["kind"]
        if k == "BinaryOperator" and s["opcode"] == "=":
            return self.assign(s)
        if k == "BinaryOperator" and s["opcode"] == ",":
            a, b = self.inner(s)
            return self.stmt(a) + self.stmt(b)
        if k == "CompoundAssignOperator": return self.compound(s)
        if k == "UnaryOperator" and s["opcode"] in ("++", "--"):
            return self.incdec(s)
        if k in ("CStyleCastExpr", "CXXStaticCastExpr") and s.get("castKind") == "ToVoid": return []
        if k in ("CXXFunctionalCastExpr",) and s.get("castKind") == "ToVoid": return []
        if k == "ConditionalOperator":
            c, a, b = self.inner(s)
            cc = self.cond(c)
            return self.flush(["if %s {" % cc] + self.stmt(a) + ["} else {"] + self.stmt(b) + ["}"])
        if k == "DeclRefExpr": return []
        if k == "CXXOperatorCallExpr":
            r = self.opcall_stmt(s)
            if r is not None: return self.flush(r)
        x = self.expr(s)
        return self.flush([x + ";"] if x not in ("()", "") else [])

    def lval(self, n):
        n = self.skip(n)
        k = n["kind"]
        t = qt(n)
        if k == "DeclRefExpr":
            v = self.env.get(n["referencedDecl"]["id"])
            if isinstance(v, tuple) and v[0] == "alias": return v[1]
            if isinstance(v, Var):
                if v.mode == "refmut" and self.is_scalar_r(v.rty): return LV("place", "(*%s)" % v.name, ty=v.rty)
                return LV("place", v.name, ty=v.rty)
            return LV("place", self.global_var(n["referencedDecl"]), ty=None)
        if k == "MemberExpr":
            return self.u.member_lval(self, n)
        if k == "ArraySubscriptExpr":
            a, b = self.inner(n)
            return self.subscript(a, b)
        if k == "UnaryOperator" and n["opcode"] == "*":
            a = self.inner(n)[0]
            r = self.rty(qt(self.skip(a)))
            if r in ("Ptr", "IPtr", "BPtr"): return LV("heap", self.expr(a), "0", r)
            h = self.u.deref(self, a)
            if h is not None: return h
            raise Unsupported("deref of " + r)
        if k == "CXXOperatorCallExpr":
            ch = self.inner(n)
            op = self.skip(ch[0])["referencedDecl"]["name"]
            if op == "operator[]":
                return self.subscript(ch[1], ch[2])
            if op in ("operator*", "operator->"):
                h = self.u.deref(self, ch[1])
                if h is not None: return h
        if k == "CXXMemberCallExpr":
            h = self.u.method_lval(self, n)
            if h is not None: return h
        if k == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            self.pre += self.incdec(n)
            return self.lval(self.inner(n)[0])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            self.pre += self.exprstmt(n)
            return self.lval(self.inner(n)[0])
        if k == "ImplicitCastExpr" or k == "CXXStaticCastExpr":
            return self.lval(self.inner(n)[0])
        raise Unsupported("lvalue " + k)

    def subscript(self, a, b):
        sa = self.skip(a)
        g = self.tuple_get(sa)
        if g is not None: a = g; sa = self.skip(g)
        ra = None
        try: ra = self.rty_of(sa)
        except Unsupported: pass
        idx = self.expr(b)
        if ra in ("Ptr", "IPtr", "BPtr"):
            bt = self.rty(qt(self.skip(b)))
            if bt != "i64": idx = "(%s) as i64" % idx
            return LV("heap", self.expr(a), idx, ra)
        if ra in self.u.indexed:
            g, st = self.u.indexed[ra]; k = self.expr(b)
            if "$b" in g + st: bb = self.expr(a); g = g.replace("$b", bb); st = st.replace("$b", bb)
            def wr(x, k=k, st=st):
                i, v = self.fresh("ky"), self.fresh("v")
                return ["let %s = %s;" % (v, x), "let %s = %s;" % (i, k), st.replace("$k", i).replace("$x", v) + ";"]
            return LV("custom", g.replace("$k", k), wr)
        base = self.vecplace(a)
        ib = self.rty(qt(self.skip(b))) if qt(self.skip(b)) else "i64"
        # index operand of operator[] carries an IntegralCast to size_type in the AST
        if not re.search(r" as usize\)?$", idx) and self.rty(qt(b)) != "usize": idx = "(%s) as usize" % idx
        return LV("vec", base, idx, (ra[4:-1] if ra and ra.startswith("Vec<") else None))

    def rty_of(self, s):
        """rust type of expression, using declared var overrides"""
        s = self.skip(s)
        if s["kind"] == "DeclRefExpr":
            v = self.env.get(s["referencedDecl"]["id"])
            if isinstance(v, Var): return v.rty
            if isinstance(v, tuple) and v[0] == "alias": return v[2]
        if s["kind"] == "MemberExpr":
            r = self.u.member_type(self, s)
            if r: return r
        return self.rty(qt(s))

    def vecplace(self, a):
        s = self.skip(a)
        if s["kind"] in ("DeclRefExpr", "MemberExpr", "CXXOperatorCallExpr", "ArraySubscriptExpr", "UnaryOperator"):
            lv = self.lval(s)
            return self.lv_path(lv)
        x = self.expr(a)
        return "(%s)" % x if not re.match(r"^[\w.()]+$", x) else x
    def lv_path(self, lv):
        if lv.kind == "place": return lv.a
        if lv.kind == "vec": return "%s[%s]" % (lv.a, lv.b)
        raise Unsupported("path through heap")

    HEAPRD = {"Ptr": "rdf", "IPtr": "rdi", "BPtr": "rdb"}
    HEAPWR = {"Ptr": "wrf", "IPtr": "wri", "BPtr": "wrb"}

    def rdlv(self, lv):
        if lv.kind == "place": return lv.a
        if lv.kind == "vec": return "%s[%s]" % (lv.a, lv.b)
        if lv.kind == "heap": return "w.%s(%s, %s)" % (self.HEAPRD[lv.ty], lv.a, lv.b)
        if lv.kind == "custom": return lv.a
        raise Unsupported("read lv " + lv.kind)
    def wrlv(self, lv, x):
        if lv.kind == "place": return ["%s = %s;" % (lv.a, x)]
        if lv.kind == "vec":
            v = self.fresh("v")
            return ["let %s = %s;" % (v, x), "vset(%s, %s, %s);" % (self.mref(lv.a), lv.b, v)]
        if lv.kind == "heap":
            v = self.fresh("v"); i = self.fresh("ix")
            return ["let %s = %s;" % (v, x), "let %s: i64 = %s;" % (i, lv.b), "w.%s(%s, %s, %s);" % (self.HEAPWR[lv.ty], lv.a, i, v)]
        if lv.kind == "custom": return lv.b(x)
        raise Unsupported("write lv")

    def assign(self, s):
        a, b = self.inner(s)
        bs = self.skip(b)
        if bs["kind"] == "BinaryOperator" and bs["opcode"] == "=":   # chained
            self.pre += self.assign(bs)
            x = self.rdlv(self.lval(self.inner(bs)[0]))
        else:
            try: r = self.rty_of(a)
            except Unsupported: r = "?"
            x = self.expr(b)
            if r != "?" and not self.is_scalar_r(r): x = self.owned(x, bs, r)
        lv = self.lval(a)
        return self.flush(self.wrlv(lv, x))

    def compound(self, s):
        a, b = self.inner(s)
        op = s["opcode"][:-1]
        lv = self.lval(a)
        ra = self.rty_of(a)
        cur = self.rdlv(lv)
        x = self.expr(b)
        if ra in ("Ptr", "IPtr", "BPtr"):
            rb = self.rty(qt(b))
            if rb != "i64": x = "(%s) as i64" % x
            return self.flush(self.wrlv(lv, "%s.add(%s%s)" % (cur, "-" if op == "-" else "", self.par(x))))
        # computation type
        ct = s.get("computeLHSType", {})
        crt = self.rty(ct.get("desugaredQualType") or ct.get("qualType")) if ct else ra
        l = cur if crt == ra else self.cast(cur, ra, crt)
        res = self.binop(op, l, x, crt)
        if crt != ra: res = self.cast(res, crt, ra)
        return self.flush(self.wrlv(lv, res))

    def incdec(self, s):
        lv = self.lval(self.inner(s)[0])
        r = self.rty_of(self.inner(s)[0])
        cur = self.rdlv(lv)
        op = "+" if s["opcode"] == "++" else "-"
        if r in ("Ptr", "IPtr", "BPtr"): return self.flush(self.wrlv(lv, "%s.add(%s1)" % (cur, "-" if op == "-" else "")))
        if r in INTR: return self.flush(self.wrlv(lv, "%s %s 1" % (cur, op)))
        h = self.u.incdec(self, s, lv, r, op)
        if h is not None: return h
        raise Unsupported("++ on " + r)

    def par(self, x):
        if re.match(r"^[\w.]+$", x) or (x.startswith("(") and self.balanced(x)): return x
        return "(" + x + ")"
    def balanced(self, x):
        d = 0
        for i, c in enumerate(x):
            if c == "(": d += 1
            elif c == ")":
                d -= 1
                if d == 0: return i == len(x) - 1
        return False

    FOP = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
    FCMP = {"<": "lt", ">": "gt", "<=": "le", ">=": "ge", "==": "eq", "!=": "ne"}
    def binop(self, op, a, b, r):
        if r in ("F", "D"):
            p = r.lower()
            if op in self.FOP: return "%s_%s(%s, %s)" % (p, self.FOP[op], a, b)
            if op in self.FCMP: return "%s_%s(%s, %s)" % (p, self.FCMP[op], a, b)
            raise Unsupported("float op " + op)
        if op in ("/", "%") and r in ("i64", "i32"):
            return "%s_%s(%s, %s)" % (r, "div" if op == "/" else "rem", a, b)
        if op in ("&&", "||") or r in INTR or r == "bool":
            if op in ("<", ">", "<=", ">=") or op in ("+", "-", "*", "/", "%", "==", "!=", "&&", "||", "&", "|", "^", "<<", ">>"):
                return "%s %s %s" % (self.par(a), op, self.par(b))
        if op in ("==", "!=") and r in self.u.copytypes:
            return "%s %s %s" % (self.par(a), op, self.par(b))
        raise Unsupported("op %s on %s" % (op, r))

    def cast(self, x, fr, to):
        if fr == to: return x
        if fr in INTR and to in INTR:
            m = re.match(r"^-?\d+$", x)
            if m:
                v = int(x)
                if to.startswith("u") and v < 0: return "%s::MAX - %d" % (to, -v - 1)
                return "(%s%s)" % (x, to)
            return "(%s as %s)" % (self.par(x), to)
        if fr == "bool" and to in INTR: return "(if %s { 1%s } else { 0%s })" % (x, to, to)
        if fr in INTR and to == "bool": return "(%s != 0)" % self.par(x)
        if fr in INTR and to in ("F", "D"): return "%s_from_%s(%s)" % (to.lower(), fr, x)
        if fr == "bool" and to in ("F", "D"): return "%s_from_bool(%s)" % (to.lower(), x)
        if fr in ("F", "D") and to in INTR: return "%s_to_%s(%s)" % (fr.lower(), to, x)
        if fr in ("F", "D") and to == "bool": return "%s_to_bool(%s)" % (fr.lower(), x)
        if fr == "F" and to == "D": return "f_to_d(%s)" % x
        if fr == "D" and to == "F": return "d_to_f(%s)" % x
        c = self.u.casts.get((fr, to))
        if c: return c % x
        raise Unsupported("cast %s -> %s" % (fr, to))

    def flit(self, v, r):
        s = repr(float(v)) if not isinstance(v, str) else v
        from decimal import Decimal
        q = format(Decimal(s), "f")
        neg = q.startswith("-")
        q = q.lstrip("-")
        if "." in q: q = q.rstrip("0").rstrip(".") or "0"
        return "%s_lit(Ghost(%s%sreal))" % (r.lower(), "-" if neg else "", q if "." in q else q + ".0")

    def global_const(self, rd):
        nm = rd.get("name")
        q = self.ix.qn.get(rd["id"], nm)
        if q in self.u.consts: return self.u.consts[q]
        if nm in self.u.consts: return self.u.consts[nm]
        d = self.ix.decl.get(rd["id"])
        if rd.get("kind") == "EnumConstantDecl":
            return self.u.enumval(self, rd)
        if d is not None and d.get("kind") == "VarDecl" and (d.get("constexpr") or is_const(qt(d))):
            ch = self.inner(d)
            if ch:
                v = self.const_int(ch[0])
                if v is not None:
                    return str(v)
                save = self.pre; self.pre = []
                x = self.expr(ch[0])
                if self.pre: raise Unsupported("constant initializer")
                self.pre = save
                return self.par(x)
        raise Unsupported("global " + str(q))
    def global_var(self, rd):
        return self.global_const(rd)

    def expr(self, n):
        k = n["kind"]
        if k in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr", "ConstantExpr"):
            return self.expr(self.inner(n)[0])
        if k == "SubstNonTypeTemplateParmExpr":
            return self.expr([c for c in self.inner(n) if "Decl" not in c["kind"]][0])
        if k == "IntegerLiteral":
            return n["value"]
        if k == "CXXBoolLiteralExpr": return "true" if n["value"] else "false"
        if k == "CharacterLiteral": return str(n["value"])
        if k == "FloatingLiteral":
            return self.flit(n["value"], self.rty(qt(n)))
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr"):
            return self.castexpr(n)
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            v = self.env.get(rd["id"])
            if isinstance(v, tuple) and v[0] == "alias": return self.rdlv(v[1])
            if isinstance(v, tuple): raise Unsupported("lambda as value")
            if v is not None:
                if v.mode == "refmut" and self.is_scalar_r(v.rty): return "(*%s)" % v.name
                return v.name
            return self.global_const(rd)
        if k == "CXXThisExpr": return "this"
        if k == "SizeOfPackExpr":
            q = [[c.get("name") for c in self.inner(d) if c["kind"] == "ParmVarDecl"] for d in reversed(self.packs)]
            q = [max([v.count(x) for x in v if x] or [0]) for v in q]
            if q and q[0] > 1: return str(q[0])
            raise Unsupported("sizeof...")
        if k == "CallExpr":
            g = self.tuple_get(n)
            if g is not None: return self.expr(g)
        if k == "UnaryOperator": return self.unary(n)
        if k == "BinaryOperator": return self.binary(n)
        if k == "CompoundAssignOperator":
            self.pre += self.compound(n)
            return self.rdlv(self.lval(self.inner(n)[0]))
        if k == "ConditionalOperator":
            c, a, b = self.inner(n)
            cc = self.cond(c)
            save = self.pre
            self.pre = []; xa = self.expr(a); pa = self.pre
            self.pre = []; xb = self.expr(b); pb = self.pre
            self.pre = save
            r = None
            try: r = self.rty(qt(n))
            except Unsupported: pass
            if r and not self.is_scalar_r(r):
                if self.is_view(qt(n)): xa, xb = self.asref(xa, a), self.asref(xb, b)
                else: xa, xb = self.owned(xa, self.skip(a), r), self.owned(xb, self.skip(b), r)
            if r and self.is_scalar_r(r) and r in INTR:
                if re.match(r"^-?\d+$", xa): xa = xa + r
                if re.match(r"^-?\d+$", xb): xb = xb + r
            return "(if %s { %s } else { %s })" % (cc, " ".join(pa + [xa]), " ".join(pb + [xb]))
        if k == "ArraySubscriptExpr" or k == "MemberExpr":
            return self.rdlv(self.lval(n))
        if k == "CXXOperatorCallExpr": return self.opcall(n)
        if k == "CXXMemberCallExpr": return self.mcall(n)
        if k == "CallExpr": return self.call(n)
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): return self.construct(n)
        if k == "CXXScalarValueInitExpr" or k == "ImplicitValueInitExpr":
            r = self.rty(qt(n))
            if r in INTR: return "0" + r
            if r == "bool": return "false"
            if r in ("F", "D"): return self.flit("0", r)
            if r in self.u.defaults: return self.u.defaults[r]
            raise Unsupported("value-init " + r)
        if k == "InitListExpr": return self.initlist(n)
        if k == "CXXStdInitializerListExpr":
            il = self.skip(self.inner(n)[0])
            while il["kind"] != "InitListExpr": il = self.skip(self.inner(il)[0])
            return "vec![%s]" % ", ".join(self.expr(c) for c in self.inner(il))
        if k == "CXXTypeidExpr":
            ta = n.get("typeArg")
            if ta: return "tid_%s()" % re.sub(r"\W", "_", ta["qualType"].split("::")[-1])
            return "tid_of(w, %s)" % self.expr(self.inner(n)[0])
        if k == "CXXNullPtrLiteralExpr": return self.u.nullptr(self, n)
        if k == "UnaryExprOrTypeTraitExpr":
            at = n.get("argType", {})
            t = at.get("desugaredQualType") or at.get("qualType") or qt(self.inner(n)[0])
            sz = {"float": 4, "long": 8, "double": 8, "int": 4, "unsigned char": 1, "bool": 1, "int64_t": 8}.get(strip(t))
            if sz is None: sz = self.u.sizeof(t)
            return "%dusize" % sz
        if k == "CXXDefaultArgExpr":
            ch = self.inner(n)
            if ch: return self.expr(ch[0])
            raise Unsupported("default argument")
        if k == "CXXNewExpr" or k == "CXXDeleteExpr":
            return self.u.newdel(self, n)
        if k == "StringLiteral": return "()"
        raise Unsupported("expr " + k)

    def castexpr(self, n):
        ck = n.get("castKind")
        i = self.inner(n)[0]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase"): return self.expr(i) + self.basepath(n)
        if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "ArrayToPointerDecay"):
            return self.expr(i)
        if ck == "NullToPointer": return self.u.nullptr(self, n)
        if ck == "PointerToIntegral" and self.rty_of(i) in self.u.ptrs: return "(%s as %s)" % (self.expr(i), self.rty(qt(n)))
        if ck == "ToVoid": return "()"
        if ck in ("IntegralCast", "IntegralToBoolean", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "FloatingToBoolean"):
            x = self.expr(i)
            fr = self.rty(qt(i)); to = self.rty(qt(n))
            v = self.const_int(i)
            if v is not None and to in INTR: 
                return "%d%s" % (v, to) if (v >= 0 or not to.startswith("u")) else self.cast(str(v), fr, to)
            return self.cast(x, fr, to)
        if ck == "PointerToBoolean":
            return self.u.ptr_to_bool(self, i)
        if ck == "BitCast": return self.u.bitcast(self, n, i)
        raise Unsupported("cast kind %s" % ck)

    def unary(self, n):
        op = n["opcode"]; a = self.inner(n)[0]
        if op in ("++", "--"):
            lv = self.lval(a)
            if n.get("isPostfix"):
                r = self.rty_of(a)
                t = self.fresh("old")
                self.pre.append("let %s: %s = %s;" % (t, r, self.rdlv(lv)))
                save = self.pre; self.pre = []
                l = self.incdec(n)
                self.pre = save + l
                return t
            save = self.pre; self.pre = []
            l = self.incdec(n)
            self.pre = save + l
            return self.rdlv(lv)
        if op == "*":
            return self.rdlv(self.lval(n))
        if op == "&":
            h = self.u.addrof(self, a)
            if h is not None: return h
            raise Unsupported("address-of")
        x = self.expr(a)
        r = self.rty(qt(n))
        if op == "-":
            if r in ("F", "D"): return "%s_neg(%s)" % (r.lower(), x)
            if re.match(r"^\d+$", x): return "-" + x
            return "(-%s)" % self.par(x)
        if op == "+": return x
        if op == "!": return "!%s" % self.par(x)
        if op == "~": return "!%s" % self.par(x)
        raise Unsupported("unary " + op)

    def binary(self, n):
        op = n["opcode"]
        a, b = self.inner(n)
        if op == "=":
            self.pre += self.assign(n)
            return self.rdlv(self.lval(a))
        if op == ",":
            self.pre += self.stmt(a)
            return self.expr(b)
        xa = self.expr(a)
        if op in ("&&", "||"):
            save = self.pre; self.pre = []
            xb = self.expr(b); pb = self.pre; self.pre = save
            if pb:
                if op == "&&": return "(if %s { %s %s } else { false })" % (xa, " ".join(pb), xb)
                return "(if %s { true } else { %s %s })" % (xa, " ".join(pb), xb)
            return "%s %s %s" % (self.par(xa), op, self.par(xb))
        ra = self.rty_of(a); rb = self.rty_of(b)
        # evaluate lhs before hoisted rhs effects
        save = self.pre; self.pre = []
        xb = self.expr(b); pb = self.pre; self.pre = save
        if pb and not re.match(r"^-?[\d]\w*$", xa):
            t = self.fresh("l")
            self.pre.append("let %s = %s;" % (t, xa)); xa = t
        self.pre += pb
        if ra in ("Ptr", "IPtr", "BPtr"):
            if op in ("+", "-") and rb in INTR:
                if rb != "i64": xb = "(%s) as i64" % xb
                return "%s.add(%s%s)" % (xa, "-" if op == "-" else "", self.par(xb))
            if op == "-" and rb == ra: return "%s.diff(%s)" % (xa, xb)
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.u.ptrcmp(self, op, xa, xb)
        if rb in ("Ptr", "IPtr", "BPtr") and op == "+":
            if ra != "i64": xa = "(%s) as i64" % xa
            return "%s.add(%s)" % (xb, xa)
        if ra in self.u.ptrs and op in ("+", "-") and rb in INTR:
            return "(%s %s %s)" % (xa, op, xb if rb == "usize" else "(%s as usize)" % xb)
        h = self.u.binary(self, op, ra, rb, xa, xb, n)
        if h is not None: return h
        return self.binop(op, xa, xb, ra)

    # ----- calls
    def args(self, nodes, specs=None):
        return [self.expr(a) for a in nodes]

    def lambda_of(self, n):
        s = self.skip(n)
        if s["kind"] == "CXXConstructExpr" and len(self.inner(s)) == 1: s = self.skip(self.inner(s)[0])
        if s["kind"] == "LambdaExpr": return s
        if s["kind"] == "DeclRefExpr":
            v = self.env.get(s["referencedDecl"]["id"])
            if isinstance(v, tuple) and v[0] == "lambda": return v[1]
        return None

    def call(self, n):
        ch = self.inner(n)
        cal = self.skip(ch[0])
        args = ch[1:]
        if self.is_log(n): return "()"
        if cal["kind"] != "DeclRefExpr":
            h = self.u.indirect(self, n, cal, args)
            if h is not None: return h
            raise Unsupported("indirect call " + cal["kind"])
        rd = cal["referencedDecl"]
        name = rd.get("name")
        fp = self.env.get(rd["id"])
        if isinstance(fp, tuple) and fp[0] == "fnptr":
            if fp[1] is None: raise Unsupported("call through a null function pointer")
            return self.user_call(n, fp[1], args, None)
        h = self.u.call(self, n, rd, name, args)
        if h is not None: return h
        h = self.builtin_call(n, name, args)
        if h is not None: return h
        return self.user_call(n, rd, args, None)

    MATH1 = {"exp", "log", "sqrt", "sin", "cos", "tanh", "fabs", "floor", "ceil", "round", "erf", "log2", "log10", "log1p", "expm1", "sqrtf", "expf", "tan", "rsqrt"}
    def builtin_call(self, n, name, args):
        r = None
        try: r = self.rty(n["type"].get("desugaredQualType") or n["type"]["qualType"])
        except Unsupported: pass
        if name in ("min", "max") and len(args) == 2 and r in INTR | {"F", "D"}:
            a, b = self.args(args)
            if r in INTR: return "%s_%s(%s, %s)" % (r, name, a, b)
            return "%s_%s(%s, %s)" % (r.lower(), name, a, b)
        if name == "abs" and r in INTR: return "%s_abs(%s)" % (r, self.expr(args[0]))
        if name in ("abs", "fabs") and r in ("F", "D"): return "%s_abs(%s)" % (r.lower(), self.expr(args[0]))
        if name in self.MATH1 and r in ("F", "D"): return "%s_%s(%s)" % (r.lower(), name, self.expr(args[0]))
        if name in ("isnan", "isinf", "isfinite") and len(args) == 1:
            ra = self.rty_of(args[0])
            return "%s_%s(%s)" % (ra.lower(), name, self.expr(args[0]))
        if name == "pow" and r in ("F", "D"):
            a, b = self.args(args); return "%s_pow(%s, %s)" % (r.lower(), a, b)
        if name in ("move", "forward") and len(args) == 1:
            return self.expr(args[0])
        if name == "all_of" and len(args) == 3:
            v = self.range_vec(args[0], args[1]); lam = self.lambda_of(args[2])
            if v and lam is not None:
                c = self.closure(lam); t = self.fresh("all")
                self.pre.append("let %s = vall(&%s, %s);" % (t, v, c)); return t
        if name == "iota" and len(args) == 3:
            v = self.range_vec(args[0], args[1])
            if v:
                self.pre.append("viota(&mut %s, %s);" % (v, self.as_i64(args[2]))); return "()"
        if name == "reverse" and len(args) == 2:
            v = self.range_vec(args[0], args[1])
            if v: self.pre.append("vreverse(&mut %s);" % v); return "()"
        if name == "swap" and len(args) == 2:
            la, lb = self.lval(args[0]), self.lval(args[1])
            t = self.fresh("sw"); u = self.fresh("sw")
            self.pre.append("let %s = %s;" % (t, self.rdlv(la)))
            self.pre.append("let %s = %s;" % (u, self.rdlv(lb)))
            self.pre += self.wrlv(la, u) + self.wrlv(lb, t)
            return "()"
        if name in ("memcpy", "memset", "memmove"):
            return None
        if name in ("min", "max") : return None
        return None
    def as_i64(self, n):
        x = self.expr(n); r = self.rty(qt(self.skip(n)) or qt(n))
        return x if r == "i64" else self.cast(x, r, "i64")

    def range_vec(self, a, b):
        """v.begin(), v.end() -> v place"""
        sa, sb = self.skip(a), self.skip(b)
        def one(s, nm):
            if s["kind"] == "CXXMemberCallExpr":
                me = self.inner(s)[0]
                if me.get("name") == nm: return self.vecplace(self.inner(me)[0])
            return None
        va, vb = one(sa, "begin"), one(sb, "end")
        return va if va and va == vb else None

    def iter_of(self, a):
        """v.begin(), v.end(), v.begin() + k -> (place of v, position)"""
        s = self.skip(a)
        while s["kind"] in ("CXXConstructExpr", "ImplicitCastExpr") and len(self.inner(s)) == 1: s = self.skip(self.inner(s)[0])
        if s["kind"] == "CXXOperatorCallExpr":
            ch = self.inner(s)
            if self.skip(ch[0]).get("referencedDecl", {}).get("name") == "operator+" and len(ch) == 3:
                v, k = self.iter_of(ch[1]); j = self.as_i64(ch[2])
                return v, j if k == "0i64" else "%s + %s" % (k, j)
        if s["kind"] == "CXXMemberCallExpr":
            me = self.inner(s)[0]
            if me.get("name") in ("begin", "cbegin"): return self.vecplace(self.inner(me)[0]), "0i64"
            if me.get("name") in ("end", "cend"):
                v = self.vecplace(self.inner(me)[0]); t = self.fresh("end")
                self.pre.append("let %s: i64 = %s.len() as i64;" % (t, v)); return v, t
        raise Unsupported("iterator argument")

    def speclam(self, a):
        """a pure one-expression lambda as a specification function"""
        lam = self.lambda_of(a)
        if lam is None: return self.expr(a)                # a std::function variable: its current value
        rec = [c for c in self.inner(lam) if c["kind"] == "CXXRecordDecl"][0]
        ops = []
        for c in self.inner(rec):
            for m in [c] if c["kind"] == "CXXMethodDecl" else self.inner(c) if c["kind"] == "FunctionTemplateDecl" else []:
                if m["kind"] == "CXXMethodDecl" and m.get("name") == "operator()" and "auto" not in re.sub(r"^auto \(", "(", m["type"]["qualType"]).split(" ->")[0] and any(x["kind"] == "CompoundStmt" for x in self.inner(m)): ops.append(m)
        if len(ops) != 1: raise Unsupported("lambda with %d instances" % len(ops))
        m = ops[0]; ps = []
        for c in self.inner(m):
            if c["kind"] != "ParmVarDecl": continue
            r = self.rty(qt(c)); nm = self.fresh(rn(c.get("name", "p")))
            self.env[c["id"]] = Var(nm, r, "val"); ps.append((nm, r))
        stmts = self.inner([c for c in self.inner(m) if c["kind"] == "CompoundStmt"][0])
        if not stmts or stmts[-1]["kind"] != "ReturnStmt": raise Unsupported("lambda body")
        sp = self.pre; self.pre = []; lets = ""
        for st in stmts[:-1]:                              # named intermediate values
            if st["kind"] != "DeclStmt": raise Unsupported("lambda body")
            for d in self.inner(st):
                if d["kind"] != "VarDecl" or not self.inner(d): raise Unsupported("lambda body")
                r = self.rty(qt(d)); nm = self.fresh(rn(d.get("name", "v")))
                if not self.is_scalar_r(r) and r not in ("F", "D"): raise Unsupported("lambda body")
                lets += "let %s: %s = %s; " % (nm, r, self.expr_as(self.inner(d)[-1], r, "")); self.env[d["id"]] = Var(nm, r, "val")
        x = self.expr_as(self.inner(stmts[-1])[0], self.rty(self.ret_of(m)), "")
        if lets: x = "{ %s%s }" % (lets, x)
        if self.pre: raise Unsupported("lambda with effects")
        self.pre = sp
        x = re.sub(r"\b([fd])_(\w+)\(", r"s\1_\2(", re.sub(r"Ghost\(([^()]*)\)", r"\1", x))
        return "Ghost(|%s| %s)" % (", ".join("%s: %s" % q for q in ps), x)

    def user_call(self, n, rd, args, this):
        """call to a function with a contract (by decl) or an inlinable body"""
        did = rd["id"]
        body = self.ix.body_of.get(did)
        qn = self.ix.qn.get(did) or (body and body["_qn"])
        fs = self.u.lookup(qn, body, self.ix)
        if fs is not None:
            return self.emit_call(fs, body, args, this, n)
        if body is not None:
            return self.inline(n, body, args, this)
        raise Unsupported("call to %s (no contract, no body)" % (qn or rd.get("name")))

    def emit_call(self, fs, body, args, this, n):
        fs.called = True
        params = [c for c in self.inner(body) if c["kind"] == "ParmVarDecl"] if body else []
        out = []
        wmut = fs.w == "mut"
        if fs.w: out.append("w")
        muts = wmut or this is not None and this[1] == "mut"
        if this is not None: out.append(this[0])
        xs = []
        keep = [i for i in range(len(args)) if i >= len(params) or not self.compile_time(params[i])]
        params = [params[i] for i in keep if i < len(params)]; args = [args[i] for i in keep]
        for i, a in enumerate(args):
            if a["kind"] == "CXXDefaultArgExpr" and not self.inner(a):
                dv = [c for c in self.inner(params[i]) if "Expr" in c["kind"] or "Literal" in c["kind"]]
                if not dv: raise Unsupported("default argument")
                a = dv[0]
            pt = qt(params[i]) if i < len(params) else qt(a)
            pr = fs.ptypes.get(params[i].get("name")) if i < len(params) else None
            xs.append(self.arg(a, pt, pr, True))
        # the same tensor passed for writing and for reading: the reader gets a copy of the descriptor, and the callee must leave the descriptor as it is
        def place(x): return re.sub(r"^&mut |^&", "", x)
        muts_ = {}
        for i, a in enumerate(args):
            if i >= len(params): break
            pt = qt(params[i])
            if is_ref(pt) and not is_const(pt) and self.rty(pt) == "Tensor": muts_[place(xs[i])] = i
        post = []
        for i, x in enumerate(xs):
            if i < len(params) and place(x) in muts_ and muts_[place(x)] != i:
                pt = qt(params[i])
                if not (is_ref(pt) and is_const(pt)): raise Unsupported("tensor passed twice for writing")
                t = self.fresh("alias")
                self.pre.append("let %s = tcopy(&%s);" % (t, place(x)))
                post.append("proof { assert(*%s == %s); }" % (place(x), t) if xs[muts_[place(x)]] == place(x) else "proof { assert(%s == %s); }" % (place(x), t))
                xs[i] = "&" + t
        out += xs
        call = "%s(%s)" % (fs.rust, ", ".join(out))
        r = fs.rettype
        t = self.fresh("c")
        if "()" == (self.rty(n["type"].get("desugaredQualType") or n["type"]["qualType"]) if not fs.rettype else fs.rettype):
            self.pre.append(call + ";"); self.pre += post
            return "()"
        self.pre.append("let %s = %s;" % (t, call)); self.pre += post
        return t

    def arg(self, a, pt, pr, hoist):
        if pr is not None:
            if pr.startswith("&mut"): return "&mut " + self.mutplace(a)
            if pr.startswith("&"):
                x = self.expr(a); return self.asref(x, a)
            return self.expr(a)
        r = self.rty(pt)
        if is_ref(pt) and not is_const(pt) and not pt.strip().endswith("&&") and not self.byhandle(pt, r):
            s = self.skip(a)
            if s["kind"] == "DeclRefExpr":
                v = self.env.get(s["referencedDecl"]["id"])
                if isinstance(v, Var) and v.mode == "refmut": return v.name
            return "&mut " + self.mutplace(a)
        x = self.expr(a)
        if self.is_scalar_r(r):
            if hoist and not re.match(r"^-?[\w.]+$", x):
                t = self.fresh("a")
                self.pre.append("let %s: %s = %s;" % (t, r, x)); return t
            return x
        if pt.strip().endswith("&&") and r.startswith("Vec<") and self.u.bases: return self.owned(x, self.skip(a), r)
        if self.is_view(pt) or is_ref(pt): 
            x = self.asref(x, a)
            if x.startswith("&") and not re.match(r"^&[\w.\[\]() ]+$", x):
                t = self.fresh("a"); self.pre.append("let %s = %s;" % (t, x[1:])); return "&" + t
            return x
        return self.owned(x, self.skip(a), r)
    def mutplace(self, a):
        s = self.skip(a)
        if s["kind"] == "CXXMemberCallExpr":   # v.data()
            me = self.inner(s)[0]
            if me.get("name") in ("data", "begin"): return self.vecplace(self.inner(me)[0])
        if s["kind"] == "MemberExpr" and s.get("name") == "data":
            return self.vecplace(self.inner(s)[0])
        lv = self.lval(s)
        if lv.kind == "place":
            return lv.a[2:-1] if lv.a.startswith("(*") else lv.a
        return self.lv_path(lv)

    def inline(self, n, body, args, this, lam=None):
        if len(self.inl) > 6: raise Unsupported("inline depth")
        self.inlined = getattr(self, "inlined", set()); self.inlined.add(body.get("_qn", "?"))
        params = [c for c in self.inner(body) if c["kind"] == "ParmVarDecl"]
        stmts = None
        for c in self.inner(body):
            if c["kind"] == "CompoundStmt": stmts = self.inner(c)
        if stmts is None: raise Unsupported("no body to inline")
        rt = n["type"].get("desugaredQualType") or n["type"]["qualType"]
        r = self.rty(rt)
        lines = []
        if not params and this == "this" and len(stmts) == 1 and stmts[0]["kind"] == "ReturnStmt" and self.is_scalar_r(r) and r != "()":
            return self.par(self.expr(self.inner(stmts[0])[0]))  # a getter
        self.packs.append(body)
        for i, p in enumerate(params):
            if self.compile_time(p): continue
            a = args[i] if i < len(args) else None
            if a is None or (a["kind"] == "CXXDefaultArgExpr" and not self.inner(a)):
                dv = [c for c in self.inner(p)]
                if not dv: raise Unsupported("default argument")
                a = dv[-1]
            lam = self.lambda_of(a)
            if lam is not None:
                self.env[p["id"]] = ("lambda", lam); continue
            pt = qt(p); pr = self.rty_of(a) if pt.rstrip().endswith("*") else self.rty(pt)
            nm = rn(p.get("name", self.fresh("p")))
            s = self.skip(a)
            if is_ref(pt) and not is_const(pt) and not pt.strip().endswith("&&"):
                self.env[p["id"]] = ("alias", self.lval(a), pr); continue
            if pr.startswith("Vec<") and pt.rstrip().endswith("*"):
                self.env[p["id"]] = ("alias", LV("place", self.mutplace(a), ty=pr), pr); continue
            x = self.expr(a)
            if not self.is_scalar_r(pr):
                if self.is_view(pt) or is_ref(pt):
                    x = self.asref(x, a)
                    t = self.fresh(nm)
                    self.pre.append("let %s = %s;" % (t, x)); self.env[p["id"]] = Var(t, pr, "ref")
                else:
                    t = self.fresh(nm)
                    self.pre.append("let mut %s = %s;" % (t, self.owned(x, s, pr))); self.env[p["id"]] = Var(t, pr, "val")
                continue
            t = self.fresh(nm)
            self.pre.append("let mut %s: %s = %s;" % (t, pr, x))
            self.env[p["id"]] = Var(t, pr, "val")
        # returns of a reference: only 'return <lvalue>' single statement
        var = self.fresh("inl")
        fr = {"var": var, "rty": r, "t": rt}
        if self.loop_has_return(stmts): raise Unsupported("inlined callee returns from inside a loop")
        savec = getattr(self, "contstack", []); self.contstack = []
        self.inl.append(fr)
        savethis = getattr(self, "thisname", None)
        b = self.nest_returns(stmts)
        self.inl.pop()
        self.packs.pop()
        self.contstack = savec
        if r != "()": self.pre.append("let %s: %s;" % (var, r))
        self.pre += ["{"] + ["    " + l for l in b] + ["}"]
        return var if r != "()" else "()"

    def loop_has_return(self, stmts):
        for s in stmts:
            if s["kind"] in ("ForStmt", "WhileStmt", "CXXForRangeStmt") and self.has_return(s): return True
            if s["kind"] == "DoStmt" and self.const_int(self.inner(s)[1]) != 0 and self.has_return(s): return True
            if s["kind"] not in ("LambdaExpr",) and self.loop_has_return(self.inner(s)): return True
        return False

    def nest_returns(self, stmts):
        """statement list with structured single exit (returns become assignments)"""
        out = []
        for i, s in enumerate(stmts):
            if s["kind"] == "ReturnStmt":
                return out + self.stmt(s)
            if s["kind"] == "IfStmt" and self.has_return(s) and not self.has_asm(self.if_parts(s)[2]):
                init, var, then, els, cond = self.if_parts(s)
                if init is not None or var is not None: raise Unsupported("if-init in inlined callee")
                tl = self.inner(then) if then["kind"] == "CompoundStmt" else [then]
                el = ([] if els is None else (self.inner(els) if els["kind"] == "CompoundStmt" else [els]))
                rest = stmts[i + 1:]
                ln0 = self.loopno
                if n_const(self, s): pass
                c = self.cond(cond)
                p = self.pre; self.pre = []
                tt = self.terminates(tl); et = self.terminates(el)
                if rest and not tt and not et and (self.contains_loop(rest)): raise Unsupported("duplicated loop in inlined callee")
                th = self.nest_returns(tl + ([] if tt else rest))
                eh = self.nest_returns(el + ([] if et else rest))
                return out + p + ["if %s {" % c] + ["    " + l for l in th] + ["} else {"] + ["    " + l for l in eh] + ["}"]
            if s["kind"] == "CompoundStmt" and self.has_return(s):
                return out + ["{"] + self.nest_returns(self.inner(s) + stmts[i + 1:]) + ["}"]
            if self.has_return(s) and s["kind"] != "DeclStmt": raise Unsupported("return nested in " + s["kind"])
            out += self.stmt(s)
        return out
    def contains_loop(self, stmts):
        return any(s["kind"] in ("ForStmt", "WhileStmt", "CXXForRangeStmt") or self.contains_loop(self.inner(s)) for s in stmts)

    def opcall(self, n):
        ch = self.inner(n)
        op = self.skip(ch[0])["referencedDecl"]["name"]
        args = ch[1:]
        if op == "operator()":
            lam = self.lambda_of(args[0])
            if lam is not None: return self.inline_lambda(n, lam, args[1:])
        h = self.u.opcall(self, n, op, args, self.skip(ch[0])["referencedDecl"])
        if h is not None: return h
        if op == "operator[]" or op == "operator*" and len(args) == 1 and self.u.deref(self, args[0]) is not None: return self.rdlv(self.lval(n))
        if op in ("operator==", "operator!="):
            ra = self.rty_of(args[0])
            xa, xb = self.expr(args[0]), self.expr(args[1])
            if ra.startswith("Vec<i64>"):
                return "%sveq(%s, %s)" % ("!" if op == "operator!=" else "", self.asref(xa, args[0]), self.asref(xb, args[1]))
            if ra in self.u.copytypes or ra in INTR: return "%s %s %s" % (self.par(xa), op[8:], self.par(xb))
        if op == "operator=":
            self.pre += self.opcall_stmt(n)
            try: r = self.rty_of(args[0])
            except Unsupported: r = None
            return self.rdlv(self.lval(args[0])) if r in self.u.compound else "()"
        if op.endswith("=") and self.u.compound and op[:-1] + "/2" in self.u.simple_calls and self.rty_of(args[0]) in self.u.compound:      # x op= y is x = x op y
            lv = self.lval(args[0]); v = self.fresh("cv"); y = self.par(self.expr(args[1])); x = self.par(self.rdlv(lv))
            self.pre.append("let %s = %s;" % (v, self.u.simple_calls[op[:-1] + "/2"].replace("$0", x).replace("$1", y)))
            self.pre += self.wrlv(lv, v)
            return "()"
        if op == "operator->" and self.rty_of(args[0]) in self.u.copytypes: return self.expr(args[0])     # smart pointer to an abstract object
        if op == "operator()":
            return self.user_call(n, self.skip(ch[0])["referencedDecl"], args[1:], None)
        raise Unsupported("operator call " + op)

    def opcall_stmt(self, n):
        ch = self.inner(n)
        op = self.skip(ch[0])["referencedDecl"]["name"]
        if op == "operator=":
            a, b = ch[1], ch[2]
            h = self.u.assign(self, a, b)
            if h is not None: return h
            r = self.rty_of(a)
            x = self.speclam(b) if self.skip(b)["kind"] == "LambdaExpr" else self.expr(b)
            if not self.is_scalar_r(r): x = self.owned(x, self.skip(b), r)
            return self.wrlv(self.lval(a), x)
        return None

    def inline_lambda(self, n, lam, args):
        # LambdaExpr: CXXRecordDecl with operator() method having body
        rec = [c for c in self.inner(lam) if c["kind"] == "CXXRecordDecl"][0]
        ops = []
        for c in self.inner(rec):
            if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()": ops.append(c)
            if c["kind"] == "FunctionTemplateDecl":
                for x in self.inner(c):
                    if x["kind"] == "CXXMethodDecl" and x.get("name") == "operator()" and any(z["kind"] == "TemplateArgument" for z in self.inner(x)): ops.append(x)
        m = None
        callee = self.skip(self.inner(n)[0]) if n["kind"] == "CXXOperatorCallExpr" else None
        for o in ops:
            if callee is not None and callee["referencedDecl"]["id"] == o["id"]: m = o
        if m is None:
            if len(ops) != 1: raise Unsupported("lambda operator()")
            m = ops[0]
        return self.inline(n, m, args, None)

    def mcall(self, n):
        ch = self.inner(n)
        me = self.skip(ch[0])
        args = ch[1:]
        if me["kind"] != "MemberExpr": raise Unsupported("member call through " + me["kind"])
        h = self.u.mcall(self, n, me, me.get("name"), args)
        if h is not None: return h
        return self.method_user(n, me, args)

    def method_user(self, n, me, args):
        did = me.get("referencedMemberDecl")
        body = self.ix.body_of.get(did)
        d = self.ix.decl.get(did)
        qn = self.ix.qn.get(did) or (body and body["_qn"])
        fs = self.u.lookup(qn, body, self.ix) if qn else None
        base = self.inner(me)[0] if self.inner(me) else None
        if fs is not None:
            const = d is not None and " const" in d["type"]["qualType"].rsplit(")", 1)[-1]
            sb = self.skip(base)
            if sb["kind"] == "CXXThisExpr":
                th = self.expr(base)
                if th != "this": th = ("&" if const else "&mut ") + th
            else:
                cls = qn.rsplit("::", 1)[0]
                hb = None
                if me.get("isArrow"):
                    try: hb = self.rty_of(sb)
                    except Unsupported: pass
                if cls in self.u.handles: th = self.expr(base)
                elif hb in self.u.heaps:
                    if not const: raise Unsupported("modifying method on a heap object")
                    th = "&heap_get_%s(w, %s)" % (hb.lower(), self.expr(base))
                else: th = ("&" if const else "&mut ") + self.mutplace(base)
            return self.emit_call(fs, body or d, args, (th, "const" if const else "mut"), n)
        if body is not None and base is not None and self.skip(base)["kind"] == "CXXThisExpr":
            return self.inline(n, body, args, "this")
        raise Unsupported("method call %s" % (qn or me.get("name")))

    def construct(self, n):
        h = self.u.construct(self, n)
        if h is not None: return h
        t = qt(n)
        ch = [c for c in self.inner(n) if c["kind"] != "CXXDefaultArgExpr"]
        r = self.rty(t)
        # a constructor with a contract
        ct = (n.get("ctorType") or {}).get("qualType")
        for f in self.u.fns:
            if f.decl is not None and f.decl["kind"] == "CXXConstructorDecl" and f.decl["type"]["qualType"] == ct and f.decl["_qn"].split("::")[-1] == strip(t).split("::")[-1]:
                v = self.fresh("ob")
                self.pre.append("let mut %s = raw_%s();" % (v, r.lower()))
                self.emit_call(f, f.decl, ch, ("&mut " + v, "mut"), n)
                return v
        if len(ch) == 1:
            a = ch[0]
            try: ra = self.rty_of(a)
            except Unsupported: ra = None
            if ra == r:
                x = self.expr(a)
                if self.is_scalar_r(r): return x
                if self.is_view(t): return self.asref(x, a)
                return self.owned(x, self.skip(a), r)
            if self.is_scalar_r(r) and ra: return self.cast(self.expr(a), ra, r)
        if r.startswith("Vec<"):
            er = r[4:-1]
            if len(ch) == 0: return "Vec::new()"
            if len(ch) == 1 and self.skip(ch[0])["kind"] in ("CXXStdInitializerListExpr", "InitListExpr"):
                x = self.initlist(ch[0])
                return ("&" + x) if self.is_view(t) else x
            if len(ch) == 1: return "vfill(%s, %s)" % (self.to_usize(ch[0]), self.zero(er))
            if len(ch) == 2:
                rv = self.range_vec(ch[0], ch[1])
                if rv: return "vclone(&%s)" % rv
                return "vfill(%s, %s)" % (self.to_usize(ch[0]), self.expr(ch[1]))
        raise Unsupported("construct %s/%d" % (t, len(ch)))
    def to_usize(self, n):
        x = self.expr(n)
        r = self.rty(qt(n))
        return x if r == "usize" else self.cast(x, r, "usize")
    def zero(self, er):
        if er in INTR: return "0"
        if er == "bool": return "false"
        if er in ("F", "D"): return self.flit("0", er)
        if er.startswith("Vec<"): return "Vec::new()"
        if er in self.u.defaults: return self.u.defaults[er]
        m = re.match(r"^\((F|i64), (F|i64)\)$", er)
        if m: return "(%s, %s)" % tuple(self.zero(g) if g == "F" else "0i64" for g in m.groups())
        raise Unsupported("zero of " + er)

    def record_fields(self, t):
        """field names, in order, of a plain struct the unit knows as a struct"""
        b = strip(t)
        if b.split("::")[-1] not in self.u.structs: return None
        for qn, d in self.ix.records.items():
            if qn == b or qn.endswith("::" + b.split("::")[-1]):
                return [c["name"] for c in self.inner(d) if c["kind"] == "FieldDecl"]
        return None

    def initlist(self, n):
        n = self.skip(n)
        while n["kind"] == "CXXStdInitializerListExpr": n = self.skip(self.inner(n)[0])
        if n["kind"] == "CXXConstructExpr" : return self.construct(n)
        h = self.u.initlist(self, n)
        if h is not None: return h
        t = qt(n)
        if strip(t).startswith("std::array<") and len(self.inner(n)) == 1 and self.inner(n)[0]["kind"] == "InitListExpr": n = self.inner(n)[0]
        if "DimArray<" in t:
            sub = [c for c in self.inner(n)]
            if len(sub) == 1 and sub[0]["kind"] == "InitListExpr": sub = self.inner(sub[0])
            sub = [c for c in sub if c["kind"] != "ImplicitValueInitExpr"]
            if sub: raise Unsupported("initialised DimArray")
            return "vfill(8, 0)"
        els = [self.expr(c) for c in self.inner(n)]
        try:
            r = self.rty(t)
            if r in INTR or r in ("F", "D", "bool"):
                return els[0] if els else self.zero(r)
        except Unsupported: r = None
        v = self.fresh("il")
        er = None
        if r and r.startswith("("): return "(" + ", ".join(els) + ")"
        rec = self.record_fields(t)
        if rec is not None and len(rec) == len(els):
            return "%s { %s }" % (r, ", ".join("%s: %s" % (rn(f), e) for f, e in zip(rec, els)))
        self.pre.append("let mut %s = Vec::new();" % v)
        for e in els: self.pre.append("%s.push(%s);" % (v, e))
        return v

def n_const(tr, s): return False
