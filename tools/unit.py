"""Unit = one Verus file: sidecar contracts (.vs) + how C++ entities map to the prelude's vocabulary."""
import os, re, copy
from cxx2verus import *

def clsname(t):
    """last component of a class name, template arguments dropped"""
    t = strip(t)
    if re.match(r"^(tinytorch|std)::[\w:]*<", t) and t.split("<")[0].split("::")[-1] not in ("pair",): t = t.split("<")[0]
    return t.split("::")[-1].rstrip("* ").strip()

class LoopSpec:
    def __init__(s): s.inv = ""; s.dec = ""; s.noauto = False

class FnSpec:
    def __init__(s, rust, qn, targs):
        s.rust, s.qn, s.targs = rust, qn, targs
        s.req = s.ens = s.dec = ""
        s.loops = {}; s.hooks = {}; s.ptypes = {}; s.vtypes = {}
        s.w = None; s.rettype = None; s.retref = False; s.nothis = False
        s.generics = ""; s.attrs = []; s.assume_asserts = False
        s.nparams = None; s.ptypes_match = None; s.external = False
        s.used_loops = set(); s.called = False; s.prop = ""; s.nested = {}
        s.obl = []; s.const = None

def parse_vs(path):
    """returns dict(tu=[lines], prelude=[names], raw=[text blocks in order], fns=[FnSpec], opts={})"""
    res = dict(tu=[], prelude=[], raw=[], fns=[], opts={})
    cur = None; mode = None; buf = None; loop = None
    def setbuf(b):
        nonlocal buf
        buf = b
    lines = []
    for l in open(path).read().split("\n"):
        m = re.match(r"^@include\s+(\S+)", l)          # text shared by several units
        lines += open(os.path.join(os.path.dirname(path), m.group(1))).read().rstrip("\n").split("\n") if m else [l]
    i = 0
    acc = None   # (setter)
    def add(target, l): target.append(l)
    sink = None
    for l in lines:
        m = re.match(r"^@(\w[\w.]*)\s*(.*)$", l)
        if m:
            d, rest = m.group(1), m.group(2).strip()
            if d == "tu": sink = res["tu"]
            elif d == "prelude": res["prelude"] += rest.split(); sink = None
            elif d == "raw": sink = []; res["raw"].append(sink)
            elif d == "end": sink = None
            elif d == "opt":
                k, _, v = rest.partition("="); res["opts"].setdefault(k.strip(), []).append(v.strip()); sink = None
            elif d in ("fn", "extern"):
                cur = FnSpec("", "", None); parse_head(cur, rest)
                cur.external = d == "extern"
                cur.w = (res["opts"].get("w", ["mut"])[-1])
                if cur.w == "none": cur.w = None
                res["fns"].append(cur); sink = None; loop = None
                res["raw"].append(cur)
            elif d == "like":      # @like new = qn<targs> from old [/pat/rep/]...
                mm = re.match(r"^(.*?)\s+from\s+(\w+)\s*(.*)$", rest)
                head, old, subs = mm.group(1), mm.group(2), re.findall(r"/((?:[^/\\]|\\.)*)/((?:[^/\\]|\\.)*)/", mm.group(3))
                res["raw"].append(("like", head, old, subs)); sink = None; cur = None
            elif d == "req": sink = cur.req = cur.req or []
            elif d == "ens": sink = cur.ens = cur.ens or []
            elif d == "dec":
                if loop is not None: loop.dec = rest
                else: cur.dec = rest
                sink = None
            elif d == "w": cur.w = None if rest == "none" else rest; sink = None
            elif d == "ret":
                cur.rettype = rest.lstrip("&"); cur.retref = rest.startswith("&"); sink = None
            elif d == "attr": cur.attrs.append(rest); sink = None
            elif d == "generics": cur.generics = rest; sink = None
            elif d == "assume_asserts": cur.assume_asserts = True; sink = None
            elif d == "param":
                a, _, b = rest.partition(":"); cur.ptypes[a.strip()] = b.strip(); sink = None
            elif d == "var":
                a, _, b = rest.partition(":"); cur.vtypes[a.strip()] = b.strip(); sink = None
            elif d == "loop":
                loop = LoopSpec(); cur.loops[int(rest.split()[0])] = loop
                if "noauto" in rest: loop.noauto = True
                if "isolate" in rest: loop.iso = True
                sink = []; loop.inv = sink
            elif d == "inv": sink = []; loop.inv = sink
            elif d == "at": sink = []; cur.hooks[rest] = sink
            elif d == "prop": cur.prop = rest; sink = None
            elif d == "nothis": cur.nothis = True; sink = None
            else: raise Exception("%s: directive @%s" % (path, d))
            if d in ("req", "ens", "inv") and sink and not sink[-1].rstrip().endswith(","): sink[-1] += ","
            if d in ("req", "ens", "inv") and rest: sink.append(rest)
            if d in ("fn",): loop = None
        elif sink is not None: sink.append(l)
        elif l.strip() and not l.strip().startswith("//"): raise Exception("%s: stray line %r" % (path, l))
    def j(x): return "\n".join(x).rstrip() if isinstance(x, list) else x
    for f in res["fns"]:
        f.req, f.ens = j(f.req), j(f.ens)
        for lp in f.loops.values(): lp.inv = "\n".join(y for y in j(lp.inv).split("\n") if y.strip())
        f.hooks = {k: j(v) for k, v in f.hooks.items()}
    byname = {f.rust: f for f in res["fns"]}
    raw = []
    for x in res["raw"]:
        if isinstance(x, tuple):
            _, head, old, subs = x
            f = copy.deepcopy(byname[old]); parse_head(f, head)
            def sub(t):
                for a, b in subs: t = re.sub(a, b, t)
                return t
            f.req, f.ens, f.dec = sub(f.req), sub(f.ens), sub(f.dec)
            for lp in f.loops.values(): lp.inv, lp.dec = sub(lp.inv), sub(lp.dec)
            f.hooks = {k: sub(v) for k, v in f.hooks.items()}
            f.ptypes = {k: sub(v) for k, v in f.ptypes.items()}; f.vtypes = {k: sub(v) for k, v in f.vtypes.items()}
            if f.rettype: f.rettype = sub(f.rettype)
            byname[f.rust] = f; res["fns"].append(f); raw.append(f)
        else: raw.append(x)
    res["raw"] = raw
    res["raw"] = [x if isinstance(x, FnSpec) else j(x) for x in res["raw"]]
    return res

def parse_head(f, rest):
    mm = re.match(r"^([\w]+)\s*=\s*(.*)$", rest)
    rust, q = mm.group(1), mm.group(2).strip()
    targs = None
    np = None
    mm = re.match(r"^(.*?)\s*/(\d+)$", q)
    if mm: q, np = mm.group(1).strip(), int(mm.group(2))
    pm = None
    mm = re.match(r"^(.*?)\s*\((.*)\)$", q)
    if mm and not q.endswith("operator()"): q, pm = mm.group(1).strip(), mm.group(2)
    if q.endswith(">") and not q.endswith("operator>"):
        dd = 0; k = len(q) - 1
        while k >= 0:
            if q[k] == ">": dd += 1
            if q[k] == "<":
                dd -= 1
                if dd == 0: break
            k -= 1
        targs = [x.strip() for x in split_top(q[k + 1:-1])]; q = q[:k]
    f.rust, f.qn, f.targs, f.nparams, f.ptypes_match = rust, q, targs, np, pm

def split_clauses(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{": d += 1
        if c in ")]}": d -= 1
        if c == "," and d == 0: out.append(cur); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur)
    return [x for x in out if x.strip()]

def split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<(": d += 1
        if c in ">)": d -= 1
        if c == "," and d == 0: out.append(cur); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur)
    return out

class Unit:
    """default mapping: SmallVector/ArrayView/std::vector and Tensor (kernel view)"""
    def __init__(self, vs):
        self.vs = vs
        self.types = {"tinytorch::Tensor": "Tensor", "Tensor": "Tensor", "tinytorch::Options": "Opts", "Options": "Opts",
                      "tinytorch::DType": "i32", "DType": "i32", "tinytorch::Device": "Dev", "Device": "Dev",
                      "tinytorch::DimArray<long>": "Vec<i64>", "DimArray<long>": "Vec<i64>", "DimArray<int64_t>": "Vec<i64>",
                      "void *": "Ptr", "std::shared_ptr<Storage>": "Stor", "std::shared_ptr<tinytorch::Storage>": "Stor"}
        for t in vs["opts"].get("type", []):
            a, _, b = t.rpartition("=>"); self.types[a.strip()] = b.strip()
        self.copytypes = {"Opts", "Dev", "Stor", "DTy"} | set(x for l in vs["opts"].get("copytype", []) for x in l.split())
        self.viewtypes = set(vs["opts"].get("viewtype", []))
        self.structs = set(x for l in vs["opts"].get("struct", []) for x in l.split())
        self.handles = set(vs["opts"].get("handle", []))
        self.enums = set(["tinytorch::DType", "tinytorch::DeviceType"]) | set(vs["opts"].get("enum", []))
        self.consts = {"MAX_TENSOR_DIM": "8", "has_infinity": "true"}
        for t in vs["opts"].get("const", []):
            a, _, b = t.partition("=>"); self.consts[a.strip()] = b.strip()
        self.clones = {"Tensor": "tcopy"}
        for t in vs["opts"].get("clone", []):
            a, _, b = t.partition("=>"); self.clones[a.strip()] = b.strip()
        self.defaults = {"Tensor": "tensor_undef()"}
        for t in vs["opts"].get("default", []):
            a, _, b = t.partition("=>"); self.defaults[a.strip()] = b.strip()
        self.casts = {}
        for t in vs["opts"].get("cast", []):       # From/To => template with %s
            a, _, b = t.partition("=>"); self.casts[tuple(x.strip() for x in a.split("/"))] = b.strip()
        self.bases = set(x for l in vs["opts"].get("derived", []) for x in l.split())      # classes that keep their base class as the field `base`
        self.globalrefs = set(vs["opts"].get("globalref", []))
        self.fieldtypes = dict(tuple(x.strip() for x in t.split("=>")) for t in vs["opts"].get("fieldtype", []))
        self.simple_calls = {}
        for t in vs["opts"].get("call", []):       # name => template with $0 $1 ; prefix ! : statement(void)
            a, _, b = t.partition("=>"); self.simple_calls[a.strip()] = b.strip()
        self.simple_methods = {}
        for t in vs["opts"].get("method", []):     # Class.name/arity => template with $this $0
            a, _, b = t.partition("=>"); self.simple_methods[a.strip()] = b.strip()
        self.fields = {}
        for t in vs["opts"].get("field", []):      # Class.name => rust field / template
            a, _, b = t.partition("=>"); self.fields[a.strip()] = b.strip()
        # heap=Class=>Value,Handle : objects reached through pointers live in a ghost heap of w
        self.ranges = {}        # range=Type=>template of the sequence a range-for goes over
        for t in vs["opts"].get("range", []):
            a, _, b = t.partition("=>"); self.ranges[a.strip()] = b.strip()
        self.heaps = {}; self.ptrs = set(x for l in vs["opts"].get("pointer", []) for x in l.split())
        for t in vs["opts"].get("heap", []):
            a, _, b = t.partition("=>"); v, h = [x.strip() for x in b.split(",")]
            self.heaps[h] = v; self.types[a.strip()] = v; self.types[a.strip() + " *"] = h; self.structs.add(a.strip()); self.copytypes |= {v, h}; self.ptrs.add(h)
        self.copytypes |= self.ptrs
        self.compound = set(x for l in vs["opts"].get("compound", []) for x in l.split())
        self.indexed = {}      # index=Type=>read | write : templates with $k $x
        for t in vs["opts"].get("index", []):
            a, _, b = t.partition("=>"); self.indexed[a.strip()] = tuple(x.strip() for x in b.split("|"))
        self.fns = vs["fns"]
        self._byid = {}

    # ---- lookup of contracts
    def resolve(self, ix):
        missing = []
        for f in self.fns:
            c = ix.find(f.qn, f.targs, f.nparams)
            if f.targs is None: c = [d for d in c if not d["_targs"] or True]
            if f.ptypes_match is not None:
                want = f.ptypes_match.replace(" ", "")
                c = [d for d in c if want == ",".join(p["type"]["qualType"] for p in d.get("inner", []) if p.get("kind") == "ParmVarDecl").replace(" ", "")]
            # non template pattern duplicates: skip dependent patterns if instantiations exist
            if f.targs is None and len(c) > 1:
                c2 = [d for d in c if not self.dependent(d)]
                if c2: c = c2
            if not c: missing.append(f); f.decl = None; continue
            f.decl = c[0]
            self._byid[c[0]["id"]] = f
        return missing
    def dependent(self, d):
        s = str(d.get("inner"))
        return "<dependent type>" in s

    def lookup(self, qn, body, ix):
        if body is not None and body["id"] in self._byid: return self._byid[body["id"]]
        return None

    # ---- hooks used by the translator
    def specmethod(self, tr, n, me, mods):
        base = tr.inner(me)[0]
        sb = tr.skip(base)
        nm = me.get("name")
        args = tr.inner(n)[1:]
        try: r = tr.rty_of(sb)
        except Unsupported: return None
        b = tr.spec(sb, mods) if sb["kind"] in ("DeclRefExpr", "MemberExpr") else None
        if b is None: return None
        if r == "Tensor":
            if nm == "numel": return "%s.numel" % b
            if nm == "dim": return "%s.shape.len()" % b
            if nm in ("shape", "size") and len(args) == 1: return "%s.shape[%s as int]" % (b, tr.spec(args[0], mods)) if re.match(r"^[\w]+$", tr.spec(args[0], mods)) else None
        if r.startswith("Vec<") and nm == "size": return "%s.len()" % b
        return None

    def subst(self, tr, tmpl, this, args, pts=None):
        out = tmpl
        def one(m):
            k = m.group(1)
            if k == "this": return this()
            if k.startswith("V"):
                v = tr.range_vec(args[int(k[1:])], args[int(k[1:]) + 1])
                if not v: raise Unsupported("range argument")
                return v
            if k.startswith("W"): return tr.iter_of(args[int(k[1:])])[0]      # vector an iterator points into
            if k.startswith("K"): return tr.iter_of(args[int(k[1:])])[1]      # and its position
            if k.startswith("L"): return tr.speclam(args[int(k[1:])])         # a pure lambda as a specification function
            if k.startswith("m"):
                a = args[int(k[1:])]
                if tr.skip(a)["kind"] == "CallExpr":           # a reference handed out by another function: a place of its own
                    t = tr.fresh("ref"); x = tr.expr(a)
                    tr.pre.append("let mut %s = %s;" % (t, x)); return "&mut " + t
                return tr.mref(tr.mutplace(a))
            if k.startswith("v"): return tr.vecplace(args[int(k[1:])])
            if k.startswith("r"): return tr.asref(tr.expr(args[int(k[1:])]), args[int(k[1:])])
            return tr.par(tr.expr(args[int(k)]))
        return re.sub(r"\$(this|[mvrVWKL]?\d)", one, out)

    def stmt_or_expr(self, tr, t, n):
        """'!text' : effectful statement returning (), '=text': effectful call bound to a temp, else pure"""
        if t.startswith("!"):
            tr.pre.append(t[1:].strip() + ";"); return "()"
        if t.startswith("="):
            v = tr.fresh("c"); tr.pre.append("let %s = %s;" % (v, t[1:].strip())); return v
        return t

    def call(self, tr, n, rd, name, args):
        q = tr.ix.qn.get(rd["id"], name)
        for key in ("%s/%d" % (q, len(args)), q, "%s/%d" % (name, len(args)), name):
            if key in self.simple_calls:
                return self.stmt_or_expr(tr, self.subst(tr, self.simple_calls[key], None, args), n)
        if name in ("infinity", "max", "lowest", "min", "epsilon", "quiet_NaN") and not args and qt(n) in ("float", "double"):
            pf = "f" if qt(n) == "float" else "d"
            return {"infinity": pf + "_inf()", "max": pf + "_fmax()", "lowest": "%s_neg(%s_fmax())" % (pf, pf), "epsilon": pf + "_eps()", "min": pf + "_tiny()", "quiet_NaN": pf + "_nan()"}[name]
        if name == "empty" and rd["kind"] == "CXXMethodDecl" and (q or "").endswith("Tensor::empty"):
            x = tr.asref(tr.expr(args[0]), args[0])
            v = tr.fresh("te")
            op = tr.expr(args[1]) if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr" else "opts_default()"
            tr.pre.append("let %s = tensor_empty%s(w, %s, %s);" % (v, {"opts_indices()": "_i", "opts_bool()": "_b"}.get(op, ""), x, op)); return v
        if name == "scalar" and rd["kind"] == "CXXMethodDecl" and (q or "").endswith("Tensor::scalar"):
            a0 = tr.skip(args[0])
            while a0["kind"] in ("CXXConstructExpr", "ImplicitCastExpr", "CXXFunctionalCastExpr") and "Scalar" in qt(a0):
                ch = tr.inner(a0)
                if len(ch) != 1: raise Unsupported("Scalar")
                a0 = tr.skip(ch[0])
            x = tr.expr(a0); rx = tr.rty_of(a0)
            op = tr.expr(args[1]) if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr" else "opts_default()"
            if op == "opts_indices()":
                v = tr.fresh("ts"); tr.pre.append("let %s = tensor_scalar_i(w, %s, %s);" % (v, x if rx == "i64" else tr.cast(x, rx, "i64"), op)); return v
            if op == "opts_bool()": raise Unsupported("scalar of bool type")
            if rx != "F": x = tr.cast(x, rx, "F")
            v = tr.fresh("ts")
            tr.pre.append("let %s = tensor_scalar(w, %s, %s);" % (v, x, op)); return v
        if name == "zeros" and rd["kind"] == "CXXMethodDecl" and (q or "").endswith("Tensor::zeros"):
            x = tr.asref(tr.expr(args[0]), args[0])
            v = tr.fresh("tz")
            op = tr.expr(args[1]) if len(args) > 1 and args[1]["kind"] != "CXXDefaultArgExpr" else "opts_default()"
            if op in ("opts_indices()", "opts_bool()"): raise Unsupported("zeros of an index type")
            tr.pre.append("let %s = tensor_zeros(w, %s, %s);" % (v, x, op)); return v
        if name == "copyOnDevice":
            if len(args) == 4:
                d, s = tr.expr(args[0]), tr.expr(args[1])
                n4 = tr.as_i64(args[2])
                tr.pre.append("copy_on_device(w, %s, %s, %s);" % (d, s, n4)); return "()"
        if name == "memset" and len(args) == 3:
            a = args[0]
            while a["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr") and a.get("castKind") in ("BitCast", "NoOp", "LValueToRValue", None): a = tr.inner(a)[0]
            if tr.const_int(args[1]) == 0 and tr.rty_of(a) == "Ptr":
                p, nn = tr.expr(a), tr.as_i64(args[2]); tr.pre.append("memset_zero(w, %s, %s);" % (p, nn)); return "()"
        if name == "memcpy" and len(args) == 3:
            def bc(a):
                while a["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr") and a.get("castKind") in ("BitCast", "NoOp", "LValueToRValue", None): a = tr.inner(a)[0]
                return a
            args = [bc(args[0]), bc(args[1]), args[2]]
            try:
                d = tr.mutplace(args[0]); s = tr.asref(tr.vecplace(args[1]), args[1])
            except Unsupported: d = None
            if d is not None:
                nn = tr.as_i64(args[2])
                tr.pre.append("vmemcpy(%s, %s, %s);" % (tr.mref(d), s if s.startswith("&") else "&" + s, nn)); return "()"
        return None
    def indirect(self, tr, n, cal, args): return None
    def binary(self, tr, op, ra, rb, xa, xb, n): return None
    def ptrcmp(self, tr, op, a, b): raise Unsupported("pointer comparison")
    def ptr_to_bool(self, tr, i):
        if tr.rty_of(i) in ("Ptr", "IPtr", "BPtr"): return "(%s.b != 0xffff_ffff_ffff_ffff)" % tr.expr(i)
        if tr.rty_of(i) in self.ptrs: return "(%s != 0)" % tr.expr(i)
        raise Unsupported("pointer to bool")
    def bitcast(self, tr, n, i):
        r = tr.rty(qt(n))
        ri = tr.rty_of(i)
        if r == ri: return tr.expr(i)
        if r == "Ptr" and ri == "Ptr": return tr.expr(i)
        raise Unsupported("bitcast %s -> %s" % (qt(i), qt(n)))
    def nullptr(self, tr, n):
        r = tr.rty(qt(n))
        if r in ("Ptr", "IPtr", "BPtr"): return "%s { b: 0xffff_ffff_ffff_ffff, o: 0 }" % r
        if r in self.ptrs or r == "usize": return "0"
        raise Unsupported("nullptr")
    def newdel(self, tr, n):
        i = tr.inner(n)[0]
        if n["kind"] == "CXXNewExpr":
            h = tr.rty(qt(n))
            if h not in self.heaps or n.get("isArray"): raise Unsupported("new")
            x = tr.expr(i); v = tr.fresh("nw"); tr.pre.append("let %s = heap_new_%s(w, %s);" % (v, h.lower(), x)); return v
        h = tr.rty_of(i)
        if h not in self.heaps: raise Unsupported("delete")
        tr.pre.append("heap_del_%s(w, %s);" % (h.lower(), tr.expr(i))); return "()"
    def addrof(self, tr, a):
        try: r = tr.rty_of(a)
        except Unsupported: return None
        if r in self.ptrs or r in self.heaps.values(): return tr.expr(a)
        return None
    def deref(self, tr, a):
        try: r = tr.rty_of(tr.skip(a))
        except Unsupported: r = None
        if r in self.heaps and r not in self.ptrs - set(self.heaps) and self.heaps[r] in self.compound:
            px, g = tr.expr(a), r.lower()
            def wr(x, px=px, g=g):
                v = tr.fresh("v"); return ["let %s = %s;" % (v, x), "heap_set_%s(w, %s, %s);" % (g, px, v)]
            return LV("custom", "heap_get_%s(w, %s)" % (g, px), wr, ty=self.heaps[r])
        if r in self.ptrs and r not in self.heaps: return LV("place", tr.expr(a), ty=r)
        if tr.rty_of(tr.skip(a)) == "Tensor": return LV("place", tr.expr(a), ty="Tensor")
        return None
    def sizeof(self, t): raise Unsupported("sizeof " + t)
    def enumval(self, tr, rd):
        q = tr.ix.qn.get(rd["id"], rd.get("name"))
        d = tr.ix.decl.get(rd["id"])
        order = {"Float32": 0, "Float16": 1, "BFloat16": 2, "Int32": 3, "Int64": 4, "Bool": 5}
        if rd.get("name") in order: return "%di32" % order[rd["name"]]
        r = tr.rty(qt(rd))                                     # an enumeration given by its own type: Type::NAME
        if re.match(r"[A-Z]\w*$", r): return "%s::%s" % (r, rd["name"])
        raise Unsupported("enum " + str(q))
    def member_type(self, tr, s): return None
    def member_lval(self, tr, n):
        base = tr.inner(n)[0] if tr.inner(n) else None
        nm = n.get("name")
        if base is not None:
            sb = tr.skip(base)
            cls = clsname(qt(sb))
            key = cls + "." + nm
            if n.get("isArrow") and sb["kind"] != "CXXThisExpr":
                try: h = tr.rty_of(sb)
                except Unsupported: h = None
                if h in self.heaps:
                    bx = tr.expr(base); g = h.lower()
                    def wr(x, bx=bx, g=g):
                        b, v = tr.fresh("p"), tr.fresh("v")
                        return ["let %s = %s;" % (b, bx), "let %s = %s;" % (v, x), "heap_set_%s_%s(w, %s, %s);" % (g, nm, b, v)]
                    return LV("custom", "heap_get_%s(w, %s).%s" % (g, bx, rn(nm)), wr, ty=tr.rty(qt(n)))
            if key in self.fields:
                t = self.fields[key]
                bx = tr.expr(base)
                if " | " in t:      # read | write
                    g, st = [z.strip() for z in t.split(" | ")]
                    def wr(x, bx=bx, st=st):
                        b, v = tr.fresh("p"), tr.fresh("v")
                        return ["let %s = %s;" % (v, x), "let %s = %s;" % (b, bx), st.replace("$this", b).replace("$x", v) + ";"]
                    ty = None
                    try: ty = tr.rty(qt(n))
                    except Unsupported: pass
                    return LV("custom", g.replace("$this", bx), wr, ty=ty)
                if "$this" in t: t = t.replace("$this", bx)
                else: t = "%s.%s" % (bx, t)
                return LV("place", t)
            if cls in self.structs:
                bx = tr.expr(base)
                ty = None
                try: ty = tr.rty(qt(n))
                except Unsupported: pass
                return LV("place", "%s.%s" % (bx, rn(nm)), ty=ty)
            if re.match(r"(const )?(std::)?pair<", qt(sb)):
                bx = tr.expr(base)
                return LV("place", "%s.%d" % (bx, 0 if nm == "first" else 1))
            if "DimArray" in qt(sb) and nm == "data":
                return LV("place", tr.expr(base), ty="Vec<i64>")
        raise Unsupported("member %s of %s" % (nm, qt(base) if base else "?"))
    def method_lval(self, tr, n):
        me = tr.skip(tr.inner(n)[0])
        nm = me.get("name"); base = tr.inner(me)[0]
        try: r = tr.rty_of(base)
        except Unsupported: return None
        if r.startswith("Vec<"):
            v = tr.vecplace(base)
            if nm == "back": return LV("vec", v, "%s.len() - 1" % v, r[4:-1])
            if nm == "front": return LV("vec", v, "0", r[4:-1])
            if nm == "at": return LV("vec", v, tr.to_usize(tr.inner(n)[1]), r[4:-1])
        return None
    def returns_ref(self, tr, s):
        if tr.is_view(qt(s)): return True
        if s["kind"] == "CXXMemberCallExpr":
            me = tr.skip(tr.inner(s)[0])
            if me.get("name") in ("shape", "strides") and len(tr.inner(s)) == 1: return True
        return False
    def opcall(self, tr, n, op, args, rd): 
        try: ta = tr.rty_of(args[0])
        except Unsupported: ta = "?"
        for key in ("%s/%d@%s" % (op, len(args), ta), "%s/%d" % (op, len(args)), op):
            if key in self.simple_calls:
                return self.stmt_or_expr(tr, self.subst(tr, self.simple_calls[key], None, args), n)
        return None
    def assign(self, tr, a, b): return None
    def incdec(self, tr, s, lv, r, op): return None
    def initlist(self, tr, n): return None
    def construct(self, tr, n):
        t = qt(n)
        ch = [c for c in tr.inner(n) if c["kind"] != "CXXDefaultArgExpr"]
        r = tr.rty(t)
        key = "ctor %s/%d" % (r, len(ch))
        if key in self.simple_calls:
            return self.stmt_or_expr(tr, self.subst(tr, self.simple_calls[key], None, ch), n)
        if r == "Tensor":
            if not ch: return "tensor_undef()"
            if len(ch) == 2 and tr.rty_of(ch[0]).startswith("Vec"):
                x = tr.asref(tr.expr(ch[0]), ch[0]); v = tr.fresh("te"); o = tr.expr(ch[1])
                tr.pre.append("let %s = tensor_empty(w, %s, %s);" % (v, x, o)); return v
            if len(ch) == 4:
                x = tr.asref(tr.expr(ch[0]), ch[0]); v = tr.fresh("tv"); o = tr.expr(ch[1]); st = tr.expr(ch[2]); off = tr.expr(ch[3])
                tr.pre.append("let %s = tensor_view(w, %s, %s, %s, %s);" % (v, x, o, st, off)); return v
        if r.startswith("(") and len(ch) == 2 and r.endswith(")"):
            xs = []
            for c in ch:
                x = tr.expr(c); rc = tr.rty_of(c)
                if not tr.is_scalar_r(rc): x = tr.owned(x, tr.skip(c), rc)
                xs.append(x)
            return "(%s, %s)" % tuple(xs)
        if r == "Vec<Tensor>" and len(ch) == 1:
            try: ra = tr.rty_of(ch[0])
            except Unsupported: ra = None
            if ra != "Vec<Tensor>": return "tvec_undef(%s)" % tr.to_usize(ch[0])
        return None

    def mcall(self, tr, n, me, nm, args):
        base = tr.inner(me)[0] if tr.inner(me) else None
        if base is None: return None
        try: r = tr.rty_of(base)
        except Unsupported: r = None
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        cls = clsname(qt(tr.skip(base)))
        for c in filter(None, (r, cls)):
            for key in ("%s.%s/%d" % (c, nm, len(args)), "%s.%s" % (c, nm)):
                if key in self.simple_methods:
                    t = self.simple_methods[key]
                    if "$this" in t and "&mut $this" in t: this = lambda: tr.mutplace(base)
                    else: this = lambda: tr.expr(base)
                    return self.stmt_or_expr(tr, self.subst(tr, t, this, args), n)
        if r is not None and r.startswith("Vec<"):
            return self.vecmethod(tr, n, base, r, nm, args)
        if r == "Tensor":
            return self.tensormethod(tr, n, base, nm, args)
        if r == "Opts":
            if nm == "indices": return "opts_indices()"
            if nm == "dtype":
                x = tr.expr(args[0])
                return {"0i32": "opts_default()", "4i32": "opts_indices()", "5i32": "opts_bool()"}.get(x, tr.expr(base))
            if nm in ("noGrad", "device", "requiresGrad", "pinnedMemory"): return tr.expr(base)
        if r == "Dev":
            if nm == "isCpu": return "true"
        return None

    def vecmethod(self, tr, n, base, r, nm, args):
        er = r[4:-1]
        if nm in ("size", "empty", "data", "begin", "end", "back", "front", "view"):
            v = tr.vecplace(base)
            if nm == "size": return "%s.len()" % v
            if nm == "empty": return "(%s.len() == 0)" % v
            if nm == "view": return "&" + v
            if nm in ("back", "front"): return tr.rdlv(self.method_lval(tr, n))
            if nm == "data": return v
            return None
        v = tr.mutplace(base)
        if nm in ("pushBack", "push_back", "emplace_back", "emplaceBack"):
            x = tr.expr(args[0])
            if not tr.is_scalar_r(er): x = tr.owned(x, tr.skip(args[0]), er)
            elif er in INTR:
                ra = tr.rty(qt(args[0]))
                if ra != er: x = tr.cast(x, ra, er)
            t = tr.fresh("pb")
            tr.pre.append("let %s = %s;" % (t, x))
            tr.pre.append("%s.push(%s);" % (v, t)); return "()"
        if nm == "reserve": return "()"
        if nm == "clear": tr.pre.append("%s.clear();" % v); return "()"
        if nm == "pop_back": tr.pre.append("vpop(%s);" % tr.mref(v)); return "()"
        if nm == "resize":
            if len(args) == 1: tr.pre.append("vresize(%s, %s, %s);" % (tr.mref(v), tr.to_usize(args[0]), tr.zero(er)))
            else: tr.pre.append("vresize(%s, %s, %s);" % (tr.mref(v), tr.to_usize(args[0]), tr.expr(args[1])))
            return "()"
        if nm == "insert" and len(args) == 2:
            # insert(begin() + k, x)
            k = self.pos(tr, base, args[0])
            x = tr.expr(args[1])
            t = tr.fresh("in")
            tr.pre.append("let %s: %s = %s;" % (t, er, x))
            tr.pre.append("%s.insert(%s, %s);" % (v, k, t)); return "()"
        if nm == "assign" and len(args) == 2:
            src = self.iter_base(tr, args[0])
            if src is None or src != self.iter_base(tr, args[1]): raise Unsupported("assign from an iterator range")
            lo, hi = self.pos(tr, base, args[0]), self.pos(tr, base, args[1])
            tr.pre.append("vassign(%s, &%s, %s, %s);" % (tr.mref(v), src, lo, hi)); return "()"
        if nm == "erase" and len(args) == 1:
            k = self.pos(tr, base, args[0]); tr.pre.append("%s.remove(%s);" % (v, k)); return "()"
        return None
    def iter_base(self, tr, a):
        """the vector an iterator expression x.begin() + ... points into"""
        s = tr.skip(a)
        if s["kind"] == "CXXConstructExpr" and len(tr.inner(s)) == 1: s = tr.skip(tr.inner(s)[0])
        if s["kind"] == "CXXMemberCallExpr":
            me = tr.skip(tr.inner(s)[0])
            return tr.vecplace(tr.inner(me)[0]) if me.get("name") in ("begin", "end", "data", "cbegin", "cend") else None
        if s["kind"] == "CXXOperatorCallExpr": return self.iter_base(tr, tr.inner(s)[1])
        return None
    def pos(self, tr, base, a):
        s = tr.skip(a)
        if s["kind"] in ("CXXConstructExpr",) and len(tr.inner(s)) == 1: s = tr.skip(tr.inner(s)[0])
        def isbegin(x):
            x = tr.skip(x)
            return x["kind"] == "CXXMemberCallExpr" and tr.skip(tr.inner(x)[0]).get("name") in ("begin", "data", "cbegin")
        def isend(x):
            x = tr.skip(x)
            return x["kind"] == "CXXMemberCallExpr" and tr.skip(tr.inner(x)[0]).get("name") in ("end", "cend")
        if isbegin(s): return "0"
        if isend(s): return "%s.len()" % tr.vecplace(base)
        if s["kind"] == "BinaryOperator" and s["opcode"] == "+":
            l, r = tr.inner(s)
            if isbegin(l): return tr.to_usize(r)
        if s["kind"] == "CXXOperatorCallExpr":
            ch = tr.inner(s)
            if tr.skip(ch[0])["referencedDecl"]["name"] == "operator+":
                if isbegin(ch[1]): return tr.to_usize(ch[2])
                return "%s + %s" % (self.pos(tr, base, ch[1]), tr.to_usize(ch[2]))
        raise Unsupported("iterator position")

    def tensormethod(self, tr, n, base, nm, args):
        def T():
            x = tr.expr(base)
            return x
        if nm == "dim": return "%s.dim()" % T()
        if nm == "numel": return "%s.numel()" % T()
        if nm in ("shape", "sizes") and not args: return "%s.shapev()" % T()
        if nm == "strides" and not args: return "%s.stridev()" % T()
        if nm in ("shape", "size") and len(args) == 1: return "%s.shape_at(%s)" % (T(), tr.as_i64(args[0]))
        if nm == "stride" and len(args) == 1: return "%s.stride_at(%s)" % (T(), tr.as_i64(args[0]))
        if nm == "storageOffset": return "%s.storage_offset()" % T()
        if nm == "storage": return "%s.storage()" % T()
        if nm == "isScalar": return "%s.is_scalar()" % T()
        if nm == "dtype": return "%s.dtype()" % T()
        if nm == "device": return "%s.device()" % T()
        if nm == "options": return "%s.opts()" % T()
        if nm == "defined": return "%s.defined()" % T()
        if nm == "getImpl": return T()
        if nm == "dataPtr":
            r = tr.rty(qt(n))
            return "%s.%s()" % (T(), {"Ptr": "ptr", "IPtr": "iptr", "BPtr": "bptr"}[r])
        if nm == "clone":
            v = tr.fresh("cl"); tr.pre.append("let mut %s = tensor_clone(w, &%s);" % (v, T().lstrip("&"))); return v
        if nm == "reshape_" and len(args) == 1:
            x = tr.asref(tr.expr(args[0]), args[0]); tr.pre.append("tensor_reshape_(w, &mut %s, %s);" % (tr.mutplace(base), x)); return "()"
        if nm == "copyOnWrite":
            tr.pre.append("tensor_cow(w, %s);" % tr.mref(tr.mutplace(base))); return "()"
        if nm == "setRequiresGrad": 
            for a in args: tr.expr(a)
            return "()"
        return None
