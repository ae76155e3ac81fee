"""Mechanical extraction: clang AST of one C++ function -> Verus exec function over the explicit
heap of prelude.py.  No knowledge of any particular function; contracts come from spec.py."""
import re, os, json
from cxxast import Unsupported
import prelude

SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "bool": 1, "Ptr": 8}
INT_RE = {"unsigned char": "u8", "signed char": "i8", "char": "i8", "unsigned short": "u16", "short": "i16",
          "unsigned int": "u32", "int": "i32", "unsigned long": "u64", "long": "i64",
          "unsigned long long": "u64", "long long": "i64",
          "uint8_t": "u8", "int8_t": "i8", "uint16_t": "u16", "int16_t": "i16", "uint32_t": "u32",
          "int32_t": "i32", "uint64_t": "u64", "int64_t": "i64", "size_t": "u64", "std::size_t": "u64",
          "ptrdiff_t": "i64", "uintptr_t": "u64", "ssize_t": "i64"}
RUST_KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut "
              "pub ref return self Self static struct super trait true type unsafe use where while async await dyn "
              "abstract become box do final macro override priv typeof unsized virtual yield try mem old ghost tracked "
              "proof spec exec requires ensures invariant decreases forall exists choose assert assume int nat "
              "implies free null padd ret".split())

def strip_cv(t):
    t = t.strip()
    while True:
        u = re.sub(r"^(const|volatile)\s+", "", t)
        u = re.sub(r"\s*\b(const|volatile|restrict|__restrict)$", "", u)
        if u == t: return t
        t = u

class Ty:
    """int types: Ty('u32'); bool; void; pointers: Ty('Ptr', elem=Ty); arrays: Ty('arr', elem, n); records"""
    def __init__(s, k, elem=None, n=None, name=None): s.k, s.elem, s.n, s.name = k, elem, n, name
    def is_int(s): return s.k in SIZES and s.k not in ("bool", "Ptr")
    def signed(s): return s.k[0] == "i"
    def bits(s): return SIZES[s.k] * 8
    def __repr__(s): return s.k + (("<%r>" % s.elem) if s.elem else "") + (s.name or "")

def parse_type(q, prog):
    q = strip_cv(q)
    q = re.sub(r"\b(flbwt|std)::(?=[a-z]*int|size_t)", "", q)
    if q.endswith("&"): return Ty("ref", parse_type(q.rstrip("&"), prog))
    m = re.match(r"^(.*)\(\*\)\[(\d+)\]$", q)
    if m: return Ty("Ptr", Ty("arr", parse_type(m.group(1), prog), int(m.group(2))))
    if q.endswith("]"):
        m = re.match(r"^(.*?)((?:\[\d+\])+)$", q)
        if not m: raise Unsupported("type " + q)
        t = parse_type(m.group(1), prog)
        for d in reversed(re.findall(r"\[(\d+)\]", m.group(2))): t = Ty("arr", t, int(d))
        return t
    if q.endswith("*"): return Ty("Ptr", parse_type(q[:-1], prog))
    if q in INT_RE: return Ty(INT_RE[q])
    if q == "bool" or q == "_Bool": return Ty("bool")
    if q == "void": return Ty("void")
    n = q.split("::")[-1]
    n = re.sub(r"^(struct|class)\s+", "", n)
    if n in prog.classes: return Ty("rec", name=n)
    if n in ("FILE", "_IO_FILE"): return Ty("rec", name="FILE")
    if "(lambda at" in q: return Ty("lambda")
    m = re.match(r"^std::(.*)$", q)
    return Ty("rec", name=q)

def heap_elem(t):
    if t.is_int(): return t.k
    if t.k == "Ptr": return "ptr"
    if t.k == "bool": return "u8"
    return None

def tsize(t, tr):
    if t.k == "arr": return t.n * tsize(t.elem, tr)
    if t.k == "rec":
        if t.name in tr.class_size: return tr.class_size[t.name]
        raise Unsupported("sizeof " + str(t.name))
    return SIZES[t.k]

def widens(t, b):
    """every value of integer type t is one of b"""
    if t not in SIZES or b not in SIZES or "bool" in (t, b) or "Ptr" in (t, b): return False
    return SIZES[t] < SIZES[b] and (t[0] == b[0] or b[0] == "i")

# types of the locals the annotations were written for (tools/mkvartypes.py)
try: VARTYPES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vartypes.json")))
except Exception: VARTYPES = {}

class Translator:
    def __init__(self, prog, specs):
        self.prog, self.specs = prog, specs
        self.class_fields, self.class_size = {}, {}
        for c, fs in prog.classes.items():
            out = []
            for f, q in fs:
                t = parse_type(q, prog)
                if t.k == "arr": out.append((f, ("arr", t.elem.k, t.n)))
                else: out.append((f, "Ptr" if t.k == "Ptr" else t.k))
            self.class_fields[c] = out
            self.class_size[c] = prelude.sizeof_class(fs, prog.classes)
        self.mode = {}       # key -> '', 'r', 'w'
        self.done = {}       # key -> FnT
        self.lambdas = {}    # key -> (ParmVarDecls, body, captures)
        self.vartypes = VARTYPES

    def rname(self, key): return key.replace("::", "__")

    # ---- which functions touch memory, and how (fixpoint over translation)
    def translate_all(self, keys):
        """translate every function in the closure of keys; returns {key: FnT}"""
        for k in keys: self.mode.setdefault(k, "")
        for _ in range(20):
            before = dict(self.mode)
            self.done = {}
            work = list(keys)
            while work:
                k = work.pop()
                if k in self.done: continue
                ft = FnT(self, k)
                ft.run()
                self.done[k] = ft
                self.mode[k] = ft.mode
                work += [c for c in ft.callees if c not in self.done]
            if self.mode == before and all(c in self.done for f in self.done.values() for c in f.callees): break
        return self.done

class LV:
    """lvalue: var(name) | heap(ptr expr, idx expr, idx type, elem) | field(ptr, cls, f) | farr(ptr, cls, f, idx, it)"""
    def __init__(s, kind, *a): s.kind, s.a = kind, a

ATOM = re.compile(r"^(?:[A-Za-z_]\w*|\(?-?\d\w*\)?|null\(\))$")

class FnT:
    def __init__(self, tr, key, inline_of=None):
        self.tr, self.key, self.prog = tr, key, tr.prog
        self.spec = tr.specs.get(key)
        self.throws = bool(self.spec and self.spec.throws)
        self.mode = tr.mode.get(key, "")
        self.callees = []
        self.lines = []          # (text, c++ line)
        self.ntemp = 0
        self.nloop = 0
        self.nif = 0
        self.ncall = {}
        self.nassign = {}
        self.nstore = 0
        self.vars = {}           # decl id -> (rust name | LV, Ty)
        self.loopstack = []
        self.stack_objs = []
        self.curline = None
        self.varlist = []        # (name, type) in declaration order, for rename alignment
        self.inline_depth = 0
        self.used_hints = set()
        self.fnnode = tr.prog.fns.get(key)

    # ---- emission
    def emit(self, s): self.lines.append((s, self.curline))
    def temp(self):
        self.ntemp += 1
        return "t_%d" % self.ntemp
    def buffer(self):
        b = self.lines; self.lines = []
        return b
    def unbuffer(self, b):
        x = self.lines; self.lines = b
        return x
    def reads(self):
        if self.mode == "": self.mode = "r"
    def writes(self): self.mode = "w"

    def hoist(self, e, rt):
        if ATOM.match(e) and not self.is_mutvar(e): return e
        t = self.temp()
        self.emit("let %s: %s = %s;" % (t, rt, e))
        return t
    def imm(self, e, rt):
        """operand of a mutating primitive emitted right now: only memory reads must be evaluated before"""
        if not re.search(r"\bmem\b", e): return e
        t = self.temp()
        self.emit("let %s: %s = %s;" % (t, rt, e))
        return t
    def is_mutvar(self, e): return not re.match(r"^(t_\d+|\(?-?\d.*|null\(\))$", e)

    def hints(self, anchor):
        if not self.spec: return
        for a, text in self.spec.hints:
            if a == anchor:
                self.used_hints.add(a)
                self.emit("/*@hint %s*/ %s" % (anchor, re.sub(r"\bRES\b", self.res or "RES", self.narrow(text))))
        for a, text in self.spec.rests:
            if a == anchor and not self.inline_depth:
                # the rest of the function is proved from the stated facts alone (a cut): the body of a loop
                # that never repeats is checked against its invariant only
                self.used_hints.add(a)
                self.emit("/*@rest %s*/" % anchor)
                self.emit("#[verifier::loop_isolation(true)]")
                self.emit("loop"); self.emit("  invariant " + self.narrow(text)); self.emit("  decreases 0int"); self.emit("{")
                self.nrest += 1

    # a local that a change declared narrower is widened in the annotations (its value is the same)
    def narrow(self, text):
        if self.inline_depth: return text
        base = self.tr.vartypes.get(self.key)
        if not base: return text
        for nm, t in dict(self.varlist).items():
            b = base.get(nm)
            if b is None or b == t or not widens(t, b) or re.search(r"(?:[|,]|\blet(?: ghost)?(?: mut)?)\s*%s\s*[:=]" % nm, text): continue
            text = re.sub(r"(?<![.\w#])%s\b(?!\s*[:(@])" % nm, "(%s as %s)" % (nm, b), text)
        return text

    nrest = 0
    renamed = ()
    def sig(self, text):
        for nm in self.renamed: text = re.sub(r"(?<![.\w])%s\b" % nm, nm + "_0", text)
        return text
    res = None           # what the call at an anchor returned (RES in hints)
    nexit = 0
    def exit_hints(self):
        self.nexit += 1
        self.hints("exit"); self.hints("exit %d" % self.nexit)

    # ---- types
    def ty(self, n):
        t = n["type"]
        q = t.get("desugaredQualType") or t["qualType"]
        return parse_type(q, self.prog)
    def rt(self, t):
        if t.k == "ref": return self.rt(t.elem)
        if t.k == "arr": return "Ptr"
        if t.is_int() or t.k in ("bool", "Ptr"): return t.k
        raise Unsupported("value of type %r" % t)

    # ---- top level
    def run(self):
        if self.key in self.tr.lambdas:
            caps, params, body, mode = self.tr.lambdas[self.key]
            self.params = []
            for vid, name, t in caps:
                nm = self.newname(name)
                self.vars[vid] = (nm, t)
                self.params.append((nm, self.rt(t)))
            self.ret_t = Ty("bool")
            self.body_common(params, body, [])
            return
        f = self.prog.fns.get(self.key)
        if f is None: raise Unsupported("no definition of " + self.key)
        self.params = []
        if f.cls: self.params.append(("this_", "Ptr"))
        q = f.node["type"]["qualType"]
        rq = q[:q.index("(")].strip()
        self.ret_t = Ty("void") if f.is_ctor or f.is_dtor else parse_type(rq, self.prog)
        self.body_common(f.params, f.body, f.inits)

    def body_common(self, params, body, inits):
        if self.spec and self.spec.assumed:
            for p in params: self.params.append((self.newname(p.get("name") or "unnamed"), self.rt(self.ty(p))))
            self.ghost_params()
            self.writes(); self.emit("unimplemented!()")
            return
        muts = set()
        def scan(n):
            if n.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode", "").endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">="):
                self.note_mut(n["inner"][0], muts)
            if n.get("kind") == "UnaryOperator" and n["opcode"] in ("++", "--", "&"):
                self.note_mut(n["inner"][0], muts)
            for c in n.get("inner", []):
                if c: scan(c)
        scan(body)
        pre = []
        for p in params:
            t = self.ty(p)
            if t.k == "ref": raise Unsupported("reference parameter of a contract function", p)
            nm = self.newname(p.get("name") or "unnamed")
            self.vars[p["id"]] = (nm, t)
            self.params.append((nm, self.rt(t)))
            if p["id"] in muts: pre.append(nm)
        self.ghost_params()
        self.renamed = pre            # the signature has X_0 for a parameter X that is assigned to
        for nm in pre: self.emit("let mut %s = %s_0;" % (nm, nm))
        if self.mode != "": self.emit("proof { mem_wf(*mem); }")
        self.hints("entry")
        for i in inits: self.ctor_init(i)
        self.block(body)
        if self.ret_t.k == "void":
            self.exit_hints()
            self.cleanup()
            if self.throws: self.emit("return Ok(());")
            elif self.nrest: self.emit("return;")
        for _ in range(self.nrest): self.emit("}")

    def ghost_params(self):
        # ghost parameters (erased): the caller's contract file states what is passed
        for nm, t in (self.spec.ghosts if self.spec else []): self.params.append(("Ghost(%s)" % nm, "Ghost<%s>" % t))

    def note_mut(self, n, s):
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr"): n = n["inner"][0]
        if n["kind"] == "DeclRefExpr": s.add(n["referencedDecl"]["id"])

    def newname(self, name):
        if name in RUST_KW or re.match(r"^(t_\d+|M0|M1|MM)$", name): name += "_"
        if self.inline_depth: name = "%s_inl%d" % (name, self.inline_id)
        return name

    def ctor_init(self, n):
        raise Unsupported("constructor initializer list", n) if not self.try_ctor_init(n) else None
    def try_ctor_init(self, n):
        fld = n.get("anyInit")
        if not fld or not n.get("inner"): return False
        cls = self.fnnode.cls
        e = n["inner"][0]
        t = parse_type(fld["type"]["qualType"], self.prog)
        if t.k == "arr": return False
        v = self.expr(e)
        self.store(LV("field", "this_", cls, fld["name"]), v, t)
        return True

    def cleanup(self):
        for nm in reversed(self.stack_objs):
            self.writes(); self.emit("free_stack(mem, %s);" % nm)

    # ---- statements
    def block(self, n):
        for c in n.get("inner", []): self.stmt(c)

    def stmt(self, n):
        k = n["kind"]
        if n.get("_line"): self.curline = n["_line"]
        m = getattr(self, "s_" + k, None)
        if m: return m(n)
        self.discard(n)

    def discard(self, n):
        """expression statement"""
        while n["kind"] in ("ParenExpr", "ExprWithCleanups", "ConstantExpr") or (
                n["kind"] in ("CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "ImplicitCastExpr") and n.get("castKind") == "ToVoid"):
            n = n["inner"][0]
        if n["kind"] == "BinaryOperator" and n["opcode"] == ",":
            self.discard(n["inner"][0]); self.discard(n["inner"][1]); return
        if n["kind"] == "UnaryOperator" and n["opcode"] in ("++", "--"):
            self.incdec(n, False); return
        if n["kind"] == "BinaryOperator" and n["opcode"] == "=":
            self.assign(n, False); return
        if n["kind"] == "CompoundAssignOperator":
            self.compound(n, False); return
        if n["kind"] in ("CallExpr", "CXXMemberCallExpr"):
            e = self.call(n, False)
            if e: self.emit("let _ = %s;" % e if not e.endswith("!") else e)
            return
        if n["kind"] == "DeclRefExpr" or n["kind"] == "IntegerLiteral": return
        if n["kind"] == "CXXDeleteExpr": return self.delete(n)
        if n["kind"] == "CXXThrowExpr": return self.throw(n)
        if n["kind"] == "ConditionalOperator":
            c, a, b = n["inner"]
            ce = self.expr(c)
            self.emit("if %s {" % ce); self.discard(a); self.emit("} else {"); self.discard(b); self.emit("}")
            return
        e = self.expr(n)
        if not ATOM.match(e): self.emit("let _ = %s;" % e)

    def s_CompoundStmt(self, n):
        self.emit("{"); self.block(n); self.emit("}")
    def s_NullStmt(self, n): pass
    def s_DeclStmt(self, n):
        for d in n["inner"]:
            if d["kind"] == "VarDecl": self.vardecl(d)
            elif d["kind"] in ("TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDecl", "UsingDirectiveDecl"): pass
            else: raise Unsupported("declaration " + d["kind"], d)

    def vardecl(self, d):
        t = self.ty(d)
        init = next((c for c in d.get("inner", []) if not c["kind"].endswith("Attr")), None)
        if t.k == "lambda": return self.lambda_decl(d, init)
        nm = self.newname(d["name"])
        if t.k == "ref":
            if init is None: raise Unsupported("reference without initializer", d)
            while init["kind"] in ("ExprWithCleanups", "MaterializeTemporaryExpr") or (init["kind"] == "ImplicitCastExpr" and init.get("castKind") == "NoOp"):
                init = init["inner"][0]
            if init.get("valueCategory") == "lvalue":
                lv = self.lvalue(init)
                self.vars[d["id"]] = (self.freeze(lv), t.elem)
                return
            t = t.elem
        if d.get("storageClass") == "static": 
            if "const" not in d["type"]["qualType"]: raise Unsupported("static local", d)
        if t.k == "arr":
            n, et = 1, t
            while et.k == "arr": n *= et.n; et = et.elem
            he = heap_elem(et)
            if he is None: raise Unsupported("array of records", d)
            if self.loopstack: raise Unsupported("local array inside a loop", d)
            self.writes()
            st = he if he == "ptr" else "u%d" % (SIZES[et.k] * 8)
            self.emit("let %s: Ptr = stack_arr_%s(mem, %d);" % (nm, st, n))
            self.stack_objs.append(nm)
            self.vars[d["id"]] = (nm, t)
            self.varlist.append((nm, repr(t)))
            if init is not None: self.array_init(nm, t, init)
            return
        if t.k == "rec": raise Unsupported("local object of class type", d)
        rt = self.rt(t)
        self.varlist.append((nm, rt))
        if init is None or init["kind"] == "CXXConstructExpr":
            self.emit("let mut %s: %s = arb_%s();" % (nm, rt, rt.lower()))
        else:
            if init["kind"] == "InitListExpr":
                init = init["inner"][0]
            e = self.expr(init)
            self.emit("let mut %s: %s = %s;" % (nm, rt, e))
        self.vars[d["id"]] = (nm, t)
        self.after_assign(d["name"])

    def array_init(self, nm, t, init):
        if init["kind"] == "StringLiteral": raise Unsupported("string array", init)
        he = heap_elem(t.elem)
        if he is None or init["kind"] != "InitListExpr": raise Unsupported("array initializer", init)
        items = init.get("inner", []) or []
        filler = init.get("array_filler")
        if filler: items = [x for x in filler if x["kind"] != "ImplicitValueInitExpr"]
        if t.n > 64: raise Unsupported("large array initializer", init)
        for i in range(t.n):
            v = self.expr(items[i]) if i < len(items) and items[i]["kind"] != "ImplicitValueInitExpr" else ("null()" if he == "ptr" else "0")
            v = self.hoist(v, self.rt(t.elem))
            self.emit("st_%s(mem, %s, %d, %s);" % (he, nm, i, v))

    def freeze(self, lv):
        """evaluate the components of an lvalue now"""
        if lv.kind == "var": return lv
        a = list(lv.a)
        if lv.kind == "heap":
            a[0] = self.fresh(a[0], "Ptr"); a[1] = self.fresh(a[1], a[2])
        elif lv.kind == "field": a[0] = self.fresh(a[0], "Ptr")
        elif lv.kind == "farr":
            a[0] = self.fresh(a[0], "Ptr"); a[3] = self.fresh(a[3], a[4])
        return LV(lv.kind, *a)
    def fresh(self, e, rt):
        if re.match(r"^(t_\d+|\(?-?\d+\)?)$", e): return e
        t = self.temp(); self.emit("let %s: %s = %s;" % (t, rt, e)); return t

    def lambda_decl(self, d, init):
        lam = init
        while lam["kind"] != "LambdaExpr": lam = lam["inner"][0]
        cls = next(c for c in lam["inner"] if c["kind"] == "CXXRecordDecl")
        meth = next(c for c in cls["inner"] if c["kind"] == "CXXMethodDecl" and c["name"] == "operator()")
        body = next(c for c in meth["inner"] if c["kind"] == "CompoundStmt")
        params = [c for c in meth["inner"] if c["kind"] == "ParmVarDecl"]
        ids = []
        def scan(n):
            if n.get("kind") == "DeclRefExpr":
                r = n["referencedDecl"]["id"]
                if r in self.vars and r not in ids: ids.append(r)
            for c in n.get("inner", []):
                if c: scan(c)
        scan(body)
        caps = []
        for i in ids:
            nm, t = self.vars[i]
            if isinstance(nm, LV): raise Unsupported("lambda captures a reference", d)
            caps.append((i, nm, t))
        key = "%s::lambda" % self.key
        n = 1
        while key in self.tr.lambdas and self.tr.lambdas[key][2] is not body: 
            n += 1; key = "%s::lambda%d" % (self.key, n)
        self.tr.lambdas[key] = (caps, params, body, None)
        self.vars[d["id"]] = (("lambda", key, [c[1] for c in caps], [c[2] for c in caps], [c[1] for c in caps]), Ty("lambda"))

    def s_IfStmt(self, n):
        inner = [c for c in n["inner"]]
        if n.get("hasInit") or n.get("hasVar"): raise Unsupported("if with initializer", n)
        self.nif += 1
        k = self.nif
        c = self.expr(inner[0])
        self.emit("if %s {" % c)
        self.hints("if %d then" % k)
        part = self.part("if %d then" % k, inner[1])
        self.substmt(inner[1])
        if not self.always_returns(inner[1]) and not self.jumps(inner[1]): self.hints("if %d then end" % k)
        if part: self.emit("break;"); self.emit("}")
        self.emit("} else {")
        self.hints("if %d else" % k)
        if len(inner) > 2: self.substmt(inner[2])
        if len(inner) < 3 or (not self.always_returns(inner[2]) and not self.jumps(inner[2])): self.hints("if %d else end" % k)
        self.emit("}")
        self.hints("if %d post" % k)
    def jumps_deep(self, n):
        return n["kind"] in ("BreakStmt", "ContinueStmt", "ReturnStmt", "GotoStmt", "CXXThrowExpr") or any(self.jumps_deep(c) for c in n.get("inner", []) if c and "kind" in c)
    def part(self, anchor, n=None):
        """a block proved on its own: the body of a loop that is left at its end"""
        if not self.spec or anchor not in self.spec.parts: return False
        if self.inline_depth or (self.loopstack and (n is None or self.jumps_deep(n))): raise Unsupported("@part inside a loop")
        self.used_hints.add(anchor)
        self.emit("#[verifier::loop_isolation(true)]")
        self.emit("loop"); self.emit("  invariant_except_break " + self.narrow(self.spec.parts[anchor])); self.emit("  ensures " + self.narrow(self.spec.part_ends[anchor])); self.emit("  decreases 0int"); self.emit("{")
        return True
    def jumps(self, n):
        if n["kind"] in ("BreakStmt", "ContinueStmt"): return True
        return n["kind"] == "CompoundStmt" and any(self.jumps(c) for c in n.get("inner", []) if c)

    def substmt(self, n):
        if n["kind"] == "CompoundStmt": self.block(n)
        else: self.stmt(n)

    def loop_header(self, k):
        """invariant/decreases text of loop k"""
        sp = self.spec.loops.get(k) if self.spec else None
        out = []
        if sp:
            if sp.get("isolate"): pass
            for kw in ("invariant_except_break", "invariant", "ensures", "decreases"):
                if sp.get(kw): out.append("%s %s" % (kw, self.narrow(sp[kw])))
        return out

    def loop(self, n, cond, inc, body, k, post_cond=False):
        sp = (self.spec.loops.get(k) if self.spec else None) or {}
        has_break = self.has_break(body)
        cbuf, ce = [], None
        if cond is not None:
            b = self.buffer(); ce = self.expr(cond); cbuf = self.unbuffer(b)
        hdr = self.loop_header(k)
        self.hints("loop %d pre" % k)
        if not sp.get("isolate"):
            self.emit("#[verifier::loop_isolation(false)]")
            if sp.get("ensures") or sp.get("invariant_except_break"): self.emit("#[verifier::allow_complex_invariants]")
        simple = ce is not None and not cbuf and not post_cond
        self.emit("/*@loop %d*/" % k)
        if simple: self.emit("while %s" % ce)
        else: self.emit("loop")
        for h in hdr: self.emit("  " + h)
        self.emit("{")
        if not simple and not post_cond:
            self.lines += cbuf
            if ce is not None: self.emit("if !(%s) { break; }" % ce)
        self.hints("loop %d begin" % k)
        self.loopstack.append((k, inc, cond if post_cond else None))
        self.substmt(body)
        self.loopstack.pop()
        self.hints("loop %d end" % k)
        if inc is not None: self.discard(inc)
        self.hints("loop %d inc" % k)
        if post_cond:
            ce = self.expr(cond)
            self.emit("if !(%s) { break; }" % ce)
        self.emit("};")
        self.hints("loop %d post" % k)

    def has_break(self, n):
        if n["kind"] == "BreakStmt": return True
        if n["kind"] in ("ForStmt", "WhileStmt", "DoStmt", "SwitchStmt", "LambdaExpr"): return False
        return any(self.has_break(c) for c in n.get("inner", []) if c)
    def has_kind(self, n, kinds):
        if n["kind"] in kinds: return True
        if n["kind"] == "LambdaExpr": return False
        return any(self.has_kind(c, kinds) for c in n.get("inner", []) if c)

    def const_false(self, n):
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr", "ConstantExpr"): n = n["inner"][0]
        return (n["kind"] == "IntegerLiteral" and int(n["value"]) == 0) or (n["kind"] == "CXXBoolLiteralExpr" and not n["value"])

    def s_ForStmt(self, n):
        init, var, cond, inc, body = n["inner"]
        if not (cond and self.const_false(cond)): self.hints("loop %d before" % (self.nloop + 1))
        self.emit("{")
        if init: self.stmt(init)
        if cond and self.const_false(cond): self.emit("}"); return
        self.nloop += 1
        k = self.nloop
        self.loop(n, cond or None, inc or None, body, k)
        self.emit("}")
        self.hints("loop %d after" % k)
    def s_WhileStmt(self, n):
        cond, body = n["inner"][0], n["inner"][1]
        if len(n["inner"]) > 2: raise Unsupported("while with declaration", n)
        if self.const_false(cond): return
        c = cond
        while c["kind"] in ("ParenExpr", "ImplicitCastExpr"): c = c["inner"][0]
        if (c["kind"] == "CXXBoolLiteralExpr" and c["value"]) or (c["kind"] == "IntegerLiteral" and c["value"] != "0"): cond = None
        self.nloop += 1
        self.loop(n, cond, None, body, self.nloop)
    def s_DoStmt(self, n):
        body, cond = n["inner"]
        if self.const_false(cond) and not self.own_jumps(body):
            self.stmt(body); return
        if self.own_jumps(body, ("ContinueStmt",)): raise Unsupported("continue in do-while", n)
        self.nloop += 1
        self.loop(n, cond, None, body, self.nloop, post_cond=True)
    def own_jumps(self, n, kinds=("BreakStmt", "ContinueStmt")):
        if n["kind"] in kinds: return True
        if n["kind"] in ("ForStmt", "WhileStmt", "DoStmt", "LambdaExpr"): return False
        return any(self.own_jumps(c, kinds) for c in n.get("inner", []) if c)
    def s_BreakStmt(self, n):
        k = self.loopstack[-1][0]
        self.hints("loop %d break" % k)
        self.emit("break;")
    def s_ContinueStmt(self, n):
        k, inc, _ = self.loopstack[-1]
        self.hints("loop %d continue" % k)
        if inc is not None: self.discard(inc)
        self.emit("continue;")
    def s_ReturnStmt(self, n):
        e = n.get("inner", [None])
        e = e[0] if e else None
        if self.inline_depth: raise Unsupported("return inside an inlined helper", n)
        if e is None:
            self.exit_hints(); self.cleanup()
            self.emit("return Ok(());" if self.throws else "return;")
            return
        v = self.expr(e)
        self.emit("let ret_: %s = %s;" % (self.rt(self.ret_t), v))
        self.exit_hints(); self.cleanup()
        self.emit("return Ok(ret_);" if self.throws else "return ret_;")

    def throw(self, n):
        inner = n.get("inner")
        if not inner: raise Unsupported("rethrow", n)
        q = inner[0]["type"]["qualType"]
        std = bool(re.match(r"^(const )?std::(invalid_argument|runtime_error|logic_error|out_of_range|domain_error|length_error|"
                       r"range_error|overflow_error|underflow_error|bad_alloc|exception|system_error|ios_base::failure)$", q))
        if self.inline_depth and not self.throws: raise Unsupported("throw in inlined helper", n)
        self.hints("throw")
        self.cleanup()
        if self.throws: self.emit("return Err(exc_%s());" % ("std" if std else "other"))
        else:
            self.emit("/*@obl no exception may leave this function*/ assert(false);")
            if self.ret_t.k == "void": self.emit("return;")
            else: self.emit("return arb_%s();" % self.rt(self.ret_t).lower())
    def s_CXXThrowExpr(self, n): self.throw(n)

    def delete(self, n):
        e = n["inner"][0]
        t = self.ty(e)
        p = self.imm(self.expr(e), "Ptr")
        self.writes()
        if n.get("isArrayAsWritten") or n.get("isArray"):
            if t.elem.k == "rec": raise Unsupported("delete[] of objects", n)
            self.call_hints("before", "delete_arr")
            self.emit("delete_arr(mem, %s);" % p)
            self.call_hints("after", "delete_arr")
        else:
            if t.elem.k != "rec" or t.elem.name not in self.tr.class_fields: raise Unsupported("delete of non-class", n)
            self.emit("if !p_null(%s) {" % p)
            d = t.elem.name + "::dtor"
            if d in self.prog.fns:
                self.callees.append(d)
                self.call_hints("before", "delete_" + t.elem.name)
                self.emit("%s(mem, %s);" % (self.tr.rname(d), p))
                self.call_hints("after", "dtor_" + t.elem.name)
            self.emit("delete_obj(mem, %s);" % p)
            self.emit("}")
            self.call_hints("after", "delete_" + t.elem.name)

    # ---- lvalues
    def lvalue(self, n):
        k = n["kind"]
        if k == "ParenExpr": return self.lvalue(n["inner"][0])
        if k == "ImplicitCastExpr" and n.get("castKind") == "NoOp": return self.lvalue(n["inner"][0])
        if k == "DeclRefExpr":
            r = n["referencedDecl"]
            if r["id"] in self.vars:
                v = self.vars[r["id"]][0]
                if isinstance(v, LV): return v
                return LV("var", v)
            g = self.prog.globals.get((self.prog_tu(), r["id"]))
            if g is not None: return LV("const", g)
            raise Unsupported("reference to %s" % r.get("name"), n)
        if k == "UnaryOperator" and n["opcode"] == "*":
            e = n["inner"][0]
            t = self.ty(e).elem
            return self.heap_lv(self.expr(e), "0", "i64", t, n)
        if k == "ArraySubscriptExpr":
            b, i = n["inner"]
            if self.ty(b).k != "Ptr": b, i = i, b
            # member array?
            bb = b
            while bb["kind"] == "ParenExpr" or (bb["kind"] == "ImplicitCastExpr" and bb["castKind"] in ("ArrayToPointerDecay", "NoOp")): bb = bb["inner"][0]
            if bb["kind"] == "MemberExpr" and self.ty(bb).k == "arr":
                p, cls, f = self.member(bb)
                ie, it, pe = self.index(i, p, "Ptr")
                return LV("farr", pe, cls, f, ie, it)
            p = self.expr(b)
            ie, it, pe = self.index(i, p, "Ptr")
            return self.heap_lv(pe, ie, it, self.ty(b).elem, n)
        if k == "MemberExpr":
            p, cls, f = self.member(n)
            return LV("field", p, cls, f)
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            self.incdec(n, False)
            return self.lvalue(n["inner"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            (self.assign if n["opcode"] == "=" else self.compound)(n, False)
            return self.lvalue(n["inner"][0])
        raise Unsupported("lvalue " + k, n)

    def prog_tu(self):
        return self.fnnode.tu if self.fnnode else self.prog.fns[self.key.split("::lambda")[0]].tu

    def index(self, i, base, bt):
        """evaluate index expression i with the already computed base; returns idx, idx type, base"""
        b = self.buffer()
        e = self.expr(i)
        new = self.unbuffer(b)
        if new:
            base = self.hoist(base, bt)
            self.lines += new
        t = self.ty(i)
        if t.k in ("u64", "i64"): return e, t.k, base
        if e.lstrip("-").isdigit(): return e, "i64", base
        return "(%s as i64)" % e, "i64", base

    def heap_lv(self, p, i, it, t, n):
        if t.k == "arr":    # row of a multi-dimensional array: address of the row
            return LV("row", p, i, it, t)
        if t.k == "rec": return LV("rec", p, i, it, t)
        return LV("heap", p, i, it, t)

    def member(self, n):
        base = n["inner"][0]
        f = n["name"]
        if n.get("isArrow"):
            t = self.ty(base)
            cls = t.elem.name
            p = self.expr(base)
        else:
            lv = self.lvalue(base)
            if lv.kind != "rec": raise Unsupported("member of a local object", n)
            p = self.ptr_at(lv.a[0], lv.a[1], lv.a[2])
            cls = lv.a[3].name
        if cls not in self.tr.class_fields: raise Unsupported("member of class %s" % cls, n)
        return p, cls, f

    def ptr_at(self, p, i, it):
        if i == "0": return p
        return "padd%s(%s, %s)" % ("u" if it == "u64" else "", p, i)

    def load(self, lv, t):
        if lv.kind == "var": return lv.a[0]
        if lv.kind == "const":
            g = lv.a[0]
            init = next((c for c in g.get("inner", []) if not c["kind"].endswith("Attr")), None)
            if init is None: raise Unsupported("constant without value", g)
            return self.expr(init)
        self.reads()
        if lv.kind == "heap":
            p, i, it, et = lv.a
            he = heap_elem(et)
            if he is None: raise Unsupported("load of %r" % et)
            e = "ld%s_%s(mem, %s, %s)" % ("u" if it == "u64" else "", he, p, i)
            return "(%s != 0)" % e if et.k == "bool" else e
        if lv.kind == "field": return "ldf_%s_%s(mem, %s)" % (lv.a[1], lv.a[2], lv.a[0])
        if lv.kind == "farr":
            p, cls, f, i, it = lv.a
            return "ldfa%s_%s_%s(mem, %s, %s)" % ("u" if it == "u64" else "", cls, f, p, i)
        raise Unsupported("load through " + lv.kind)

    def store(self, lv, v, t):
        if lv.kind == "var":
            self.emit("%s = %s;" % (lv.a[0], v)); return
        self.writes()
        rt = self.rt(t)
        if lv.kind == "heap":
            p, i, it, et = lv.a
            he = heap_elem(et)
            v = self.imm(v, rt)
            if et.k == "bool": v = self.imm("bool_u8(%s)" % v, "u8")
            p = self.imm(p, "Ptr"); i = self.imm(i, it) if not i.isdigit() else i
            self.emit("st%s_%s(mem, %s, %s, %s);" % ("u" if it == "u64" else "", he, p, i, v))
            if not self.inline_depth:
                self.nstore += 1
                self.hints("after store %d" % self.nstore)
        elif lv.kind == "field":
            v = self.imm(v, rt); p = self.imm(lv.a[0], "Ptr")
            self.emit("stf_%s_%s(mem, %s, %s);" % (lv.a[1], lv.a[2], p, v))
        elif lv.kind == "farr":
            p, cls, f, i, it = lv.a
            v = self.imm(v, rt); p = self.imm(p, "Ptr"); i = self.imm(i, it)
            self.emit("stfa%s_%s_%s(mem, %s, %s, %s);" % ("u" if it == "u64" else "", cls, f, p, i, v))
        else: raise Unsupported("store through " + lv.kind)

    def after_assign(self, name):
        self.nassign[name] = self.nassign.get(name, 0) + 1
        self.hints("after assign %s %d" % (name, self.nassign[name]))
    def lv_name(self, n):
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr"): n = n["inner"][0]
        if n["kind"] == "DeclRefExpr": return n["referencedDecl"]["name"]
        if n["kind"] == "MemberExpr": return n["name"]
        if n["kind"] == "ArraySubscriptExpr":
            r = self.lv_name(n["inner"][0]); return r and r + "[]"
        if n["kind"] == "UnaryOperator" and n["opcode"] == "*":
            r = self.lv_name(n["inner"][0]); return r and "*" + r
        if n["kind"] == "UnaryOperator": return self.lv_name(n["inner"][0])
        return None

    def rhs_then_lv(self, l, r):
        v = self.expr(r)
        b = self.buffer()
        lv = self.lvalue(l)
        new = self.unbuffer(b)
        if new:
            v = self.hoist(v, self.rt(self.ty(l)))
            self.lines += new
        return lv, v

    def assign(self, n, want):
        l, r = n["inner"]
        t = self.ty(l)
        lv, v = self.rhs_then_lv(l, r)
        if want:
            v = self.hoist_always(v, self.rt(t))
        if want and lv.kind != "var": lv = self.freeze(lv)
        self.store(lv, v, t)
        nm = self.lv_name(l)
        if nm: self.after_assign(nm)
        return v

    def hoist_always(self, v, rt):
        if re.match(r"^t_\d+$", v): return v
        t = self.temp(); self.emit("let %s: %s = %s;" % (t, rt, v)); return t

    def compound(self, n, want):
        l, r = n["inner"]
        op = n["opcode"][:-1]
        t = self.ty(l)
        ct = parse_type(n.get("computeResultType", {}).get("desugaredQualType") or n.get("computeResultType", n["type"])["qualType"], self.prog)
        clt = parse_type(n.get("computeLHSType", {}).get("desugaredQualType") or n.get("computeLHSType", n["type"])["qualType"], self.prog)
        lv, v = self.rhs_then_lv(l, r)
        if lv.kind != "var":
            v = self.hoist(v, self.rt(self.ty(r)))
            lv = self.freeze(lv)
        cur = self.load(lv, t)
        if t.k == "Ptr":
            res = self.ptr_arith(cur, v, self.ty(r), op)
        else:
            res = self.arith(op, self.conv(cur, t, clt), v, clt, self.ty(r), n)
            res = self.conv(res, ct, t)
        if want: res = self.hoist_always(res, self.rt(t))
        self.store(lv, res, t)
        nm = self.lv_name(l)
        if nm: self.after_assign(nm)
        return res

    def incdec(self, n, want):
        e = n["inner"][0]
        t = self.ty(e)
        lv = self.lvalue(e)
        if lv.kind != "var": lv = self.freeze(lv)
        cur = self.load(lv, t)
        post = n.get("isPostfix")
        up = n["opcode"] == "++"
        old = None
        if want and post:
            old = self.hoist_always(cur, self.rt(t)); cur = old
        if t.k == "Ptr": new = "padd(%s, %s)" % (cur, "1" if up else "-1")
        elif t.is_int():
            if t.signed():
                if t.bits() < 32: new = "i32_%s(%s as i32 %s 1)" % (t.k, cur, "+" if up else "-")
                else: new = "(%s %s 1)" % (cur, "+" if up else "-")
            else: new = "%s_%s(%s, 1)" % ("add" if up else "sub", t.k, cur)
        else: raise Unsupported("increment of %r" % t, n)
        if want and not post: new = self.hoist_always(new, self.rt(t))
        self.store(lv, new, t)
        nm = self.lv_name(e)
        if nm: self.after_assign(nm)
        return old if post else new

    # ---- expressions
    def conv(self, e, a, b):
        if a.k == b.k: return e
        if a.k == "bool" and b.is_int(): return "bool_%s(%s)" % (b.k, e)
        if a.is_int() and b.k == "bool": return "(%s != 0)" % e
        if a.is_int() and b.is_int():
            if re.match(r"^\d+$", e):
                if int(e) < 2 ** (b.bits() - (1 if b.signed() else 0)): return e if False else "%s%s" % (re.match(r"^\d+", e).group(0), b.k)
            m = re.match(r"^(\d+)([ui]\d+)$", e)
            if m and int(m.group(1)) < 2 ** (b.bits() - (1 if b.signed() else 0)): return m.group(1) + b.k
            widen = (b.bits() > a.bits() and (not a.signed() or b.signed()))
            if widen: return "(%s as %s)" % (e, b.k)
            return "%s_%s(%s)" % (a.k, b.k, e)
        if a.k == "Ptr" and b.k == "bool": return "!p_null(%s)" % e
        raise Unsupported("conversion %r -> %r" % (a, b))

    def expr(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if not m: raise Unsupported("expression " + k, n)
        return m(n)

    def e_ParenExpr(self, n): return self.expr(n["inner"][0])
    def e_ConstantExpr(self, n): return self.expr(n["inner"][0])
    def e_ExprWithCleanups(self, n): return self.expr(n["inner"][0])
    def e_MaterializeTemporaryExpr(self, n): return self.expr(n["inner"][0])
    def e_SubstNonTypeTemplateParmExpr(self, n): return self.expr(n["inner"][-1])
    def e_CXXDefaultArgExpr(self, n): raise Unsupported("default argument", n)
    def e_IntegerLiteral(self, n):
        t = self.ty(n)
        return n["value"] + t.k
    def e_CharacterLiteral(self, n): return "%d%s" % (n["value"], self.ty(n).k)
    def e_CXXBoolLiteralExpr(self, n): return "true" if n["value"] else "false"
    def e_GNUNullExpr(self, n): return "0i64"
    def e_CXXNullPtrLiteralExpr(self, n): return "null()"
    def e_InitListExpr(self, n):
        if len(n.get("inner", [])) == 1: return self.expr(n["inner"][0])
        raise Unsupported("initializer list", n)
    def e_ImplicitValueInitExpr(self, n):
        t = self.ty(n); return "null()" if t.k == "Ptr" else "false" if t.k == "bool" else "0" + t.k
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_CXXThisExpr(self, n): return "this_"
    def e_StringLiteral(self, n): return "str_lit()"
    def e_DeclRefExpr(self, n):
        r = n["referencedDecl"]
        if r["kind"] == "EnumConstantDecl":
            g = self.prog.globals.get((self.prog_tu(), r["id"]))
            if g is None or not g.get("inner"): raise Unsupported("enumerator", n)
            return self.expr(g["inner"][0])
        return self.load(self.lvalue(n), self.ty(n))
    def e_MemberExpr(self, n): return self.load(self.lvalue(n), self.ty(n))
    def e_ArraySubscriptExpr(self, n): return self.load(self.lvalue(n), self.ty(n))

    def cast_common(self, n):
        e = n["inner"][0]
        ck = n.get("castKind")
        if ck == "LValueToRValue": return self.load_expr(e)
        if ck == "NoOp" or ck == "ConstructorConversion": return self.expr(e)
        if ck == "IntegralCast": return self.conv(self.expr(e), self.ty(e), self.ty(n))
        if ck == "IntegralToBoolean": return "(%s != 0)" % self.expr(e)
        if ck == "PointerToBoolean": return "!p_null(%s)" % self.expr(e)
        if ck == "NullToPointer": return "null()"
        if ck == "ArrayToPointerDecay":
            if e["kind"] == "StringLiteral": return "str_lit()"
            lv = self.lvalue(e)
            if lv.kind == "var": return lv.a[0]
            if lv.kind == "row":
                p, i, it, t = lv.a
                sz, et = 1, t
                while et.k == "arr": sz *= et.n; et = et.elem
                if it == "u64": return "paddu(%s, mul_u64(%s, %d))" % (p, i, sz)
                return "padd(%s, (%s) * %d)" % (p, i, sz)
            raise Unsupported("decay of member array", n)
        if ck == "BitCast":
            a, b = self.ty(e), self.ty(n)
            ee = e
            while ee["kind"] in ("ParenExpr",): ee = ee["inner"][0]
            if ee["kind"] == "CallExpr" and self.callee_name(ee) in ("malloc", "calloc", "realloc"):
                return self.malloc(ee, b)
            if a.k == "Ptr" and b.k == "Ptr":
                v = self.expr(e)
                if a.elem.k == "void" or b.elem.k == "void" or a.elem.k == "rec" or b.elem.k == "rec":
                    if b.elem.k == "void": return v
                    raise Unsupported("cast from %r to %r" % (a, b), n)
                sa, sb = tsize(a.elem, self.tr), tsize(b.elem, self.tr)
                return v if sa == sb else "p_cast(%s, %d, %d)" % (v, sa, sb)
        if ck == "ToVoid": self.discard(e); return "()"
        raise Unsupported("cast %s" % ck, n)
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = cast_common

    def load_expr(self, e):
        return self.load(self.lvalue(e), self.ty(e)) if e["kind"] not in ("ConditionalOperator",) else self.expr(e)

    def e_UnaryOperator(self, n):
        op = n["opcode"]
        if op in ("++", "--"): return self.incdec(n, True)
        e = n["inner"][0]
        if op == "*": return self.load(self.lvalue(n), self.ty(n))
        if op == "&":
            lv = self.lvalue(e)
            if lv.kind in ("heap", "rec"): return self.ptr_at(lv.a[0], lv.a[1], lv.a[2])
            raise Unsupported("address of " + lv.kind, n)
        v = self.expr(e)
        t = self.ty(n)
        if op == "!":
            return "!(%s)" % v
        if op == "~": return "not_%s(%s)" % (t.k, v)
        if op == "-":
            if t.signed(): return "(-(%s))" % self.typed(v, t)
            return "sub_%s(0, %s)" % (t.k, v)
        if op == "+": return v
        raise Unsupported("unary " + op, n)

    def typed(self, v, t): return v

    def pair(self, l, r):
        a = self.expr(l)
        b0 = self.buffer()
        b = self.expr(r)
        new = self.unbuffer(b0)
        if new:
            a = self.hoist(a, self.rt(self.ty(l)))
            self.lines += new
        return a, b

    def ptr_arith(self, p, i, it, op):
        u = it.k == "u64"
        if not u and it.k != "i64": i = "(%s as i64)" % i
        if op == "+": return "padd%s(%s, %s)" % ("u" if u else "", p, i)
        return "psub%s(%s, %s)" % ("u" if u else "", p, i)

    def arith(self, op, a, b, t, tb, n):
        if op in ("<<", ">>"):
            nm = "shl" if op == "<<" else "shr"
            if tb.signed():
                sh = b if re.match(r"^\d+", b) and False else "%s_u64(%s)" % (tb.k, b)
                m = re.match(r"^(\d+)i\d+$", b)
                if m: sh = m.group(1)
            else:
                sh = b if tb.k == "u64" else "(%s as u64)" % b
                m = re.match(r"^(\d+)u\d+$", b)
                if m: sh = m.group(1)
            return "%s_%s(%s, %s)" % (nm, t.k, a, sh)
        if op in ("&", "|", "^"):
            if t.signed(): return "%s_%s(%s, %s)" % ({"&": "and", "|": "or", "^": "xor"}[op], t.k, a, b)
            return "(%s %s %s)" % (a, op, b)
        if op in ("+", "-", "*"):
            if t.signed(): return "(%s %s %s)" % (a, op, b)
            return "%s_%s(%s, %s)" % ({"+": "add", "-": "sub", "*": "mul"}[op], t.k, a, b)
        if op in ("/", "%"):
            if t.signed(): return "%s_%s(%s, %s)" % ("div" if op == "/" else "rem", t.k, a, b)
            return "(%s %s %s)" % (a, op, b)
        raise Unsupported("operator " + op, n)

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=": return self.assign(n, True)
        if op == ",":
            self.discard(l); return self.expr(r)
        if op in ("&&", "||"):
            a = self.expr(l)
            b0 = self.buffer()
            b = self.expr(r)
            new = self.unbuffer(b0)
            if not new: return "(%s %s %s)" % (a, op, b)
            t = self.temp()
            self.emit("let mut %s: bool = %s;" % (t, a))
            self.emit("if %s%s {" % ("" if op == "&&" else "!", t))
            self.lines += new
            self.emit("%s = %s; }" % (t, b))
            return t
        tl, tr_ = self.ty(l), self.ty(r)
        a, b = self.pair(l, r)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if tl.k == "Ptr":
                nm = {"==": "p_eq", "!=": "p_ne", "<": "p_lt", ">": "p_gt", "<=": "p_le", ">=": "p_ge"}[op]
                return "%s(%s, %s)" % (nm, a, b)
            return "(%s %s %s)" % (a, op, b)
        if tl.k == "Ptr" and tr_.k == "Ptr" and op == "-": return "p_diff(%s, %s)" % (a, b)
        if tl.k == "Ptr": return self.ptr_arith(a, b, tr_, op)
        if tr_.k == "Ptr": 
            a = self.hoist(a, self.rt(tl))
            return self.ptr_arith(b, a, tl, op)
        return self.arith(op, a, b, self.ty(n), tr_, n)
    def e_CompoundAssignOperator(self, n): return self.compound(n, True)

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        ce = self.expr(c)
        b0 = self.buffer(); ae = self.expr(a); an = self.unbuffer(b0)
        b0 = self.buffer(); be = self.expr(b); bn = self.unbuffer(b0)
        if not an and not bn: return "(if %s { %s } else { %s })" % (ce, ae, be)
        t = self.temp()
        rt = self.rt(self.ty(n))
        self.emit("let mut %s: %s;" % (t, rt))
        self.emit("if %s {" % ce); self.lines += an; self.emit("%s = %s; } else {" % (t, ae))
        self.lines += bn; self.emit("%s = %s; }" % (t, be))
        return t

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") != "sizeof": raise Unsupported("sizeof-like", n)
        if "argType" in n:
            t = parse_type(n["argType"].get("desugaredQualType") or n["argType"]["qualType"], self.prog)
        else: t = self.ty(n["inner"][0])
        return "%du64" % tsize(t, self.tr)

    # ---- calls
    def callee(self, n):
        c = n["inner"][0]
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr"): c = c["inner"][0]
        return c
    def callee_name(self, n):
        c = self.callee(n)
        return c["referencedDecl"]["name"] if c["kind"] == "DeclRefExpr" else c.get("name")

    def malloc(self, n, t):
        nm = self.callee_name(n)
        args = n["inner"][1:]
        if nm == "calloc": raise Unsupported("calloc", n)
        self.writes()
        if nm == "malloc":
            sz = self.imm(self.expr(args[0]), "u64")
            et = t.elem
            r = self.temp()
            if et.k == "rec": self.emit("let %s: Ptr = malloc_%s(mem, %s);" % (r, et.name, sz))
            else:
                he = heap_elem(et)
                he = he if he == "ptr" else "u" + he[1:]
                self.emit("let %s: Ptr = malloc_%s(mem, %s);" % (r, he, sz))
            self.res = r
            self.call_hints("after", "malloc")
            return r
        p, sz = self.args(args)
        et = t.elem
        he = heap_elem(et)
        if he is None: raise Unsupported("realloc of records", n)
        he = he if he == "ptr" else "u" + he[1:]
        r = self.temp()
        self.emit("let %s: Ptr = realloc_%s(mem, %s, %s);" % (r, he, p, sz))
        self.res = r
        self.call_hints("after", "realloc")
        return r

    def args(self, args):
        out = []
        for i, a in enumerate(args):
            b0 = self.buffer(); e = self.expr(a); new = self.unbuffer(b0)
            if new:
                for j in range(i): out[j] = self.hoist(out[j], self.rt(self.ty(args[j])))
                self.lines += new
            out.append(e)
        return [self.imm(e, self.rt(self.ty(a))) for e, a in zip(out, args)]

    def call_hints(self, where, name):
        if where == "before" or name not in self.ncall: pass
        if where == "before" or (where == "after" and not getattr(self, "_pre_" + name, False)):
            self.ncall[name] = self.ncall.get(name, 0) + 1
        setattr(self, "_pre_" + name, where == "before")
        self.hints("%s call %s %d" % (where, name, self.ncall[name]))

    def e_CallExpr(self, n): return self.call(n, True)
    def e_CXXMemberCallExpr(self, n): return self.call(n, True)
    def e_CXXOperatorCallExpr(self, n): raise Unsupported("operator call", n)

    def call(self, n, want):
        c = self.callee(n)
        args = n["inner"][1:]
        this = None
        if c["kind"] == "MemberExpr":
            key = self.prog.ids.get((self.prog_tu(), c.get("referencedMemberDecl")))
            if not key or isinstance(key, tuple): raise Unsupported("call of member " + str(c.get("name")), n)
            base = c["inner"][0]
            this = base
            if not c.get("isArrow"): raise Unsupported("method of a local object", n)
        elif c["kind"] == "DeclRefExpr":
            r = c["referencedDecl"]
            key = self.prog.ids.get((self.prog_tu(), r["id"]))
            if key is None or key not in self.prog.fns:
                return self.extern(r["name"], n, args, want)
        else: raise Unsupported("indirect call", n)
        return self.call_key(key, this, args, n, want)

    def call_key(self, key, this, args, n, want):
        tr = self.tr
        if tr.specs.get(key) is None: return self.inline(key, this, args, n, want)
        callee_spec = tr.specs[key]
        f = self.prog.fns[key]
        if key != self.key: self.callees.append(key)
        mode = tr.mode.get(key, "")
        rq = f.node["type"]["qualType"]
        void = f.is_ctor or f.is_dtor or rq[:rq.index("(")].strip() == "void"
        if mode == "w":
            self.writes()
            av = []
            if isinstance(this, dict): av += self.args([this] + list(args))
            else: av += ([this] if this is not None else []) + self.args(args)
        else:
            if mode == "r": self.reads()
            av, alln = [], ([this] if this is not None else []) + list(args)
            for i, a in enumerate(alln):
                if not isinstance(a, dict): av.append(a); continue
                b0 = self.buffer(); e = self.expr(a); new = self.unbuffer(b0)
                if new:
                    for j in range(i):
                        if isinstance(alln[j], dict): av[j] = self.hoist(av[j], self.rt(self.ty(alln[j])))
                    self.lines += new
                av.append(e)
        pre = ["mem"] if mode == "w" else ["mem"] if mode == "r" else []
        short = key.split("::")[-1].split("__")[-1]
        if callee_spec.ghosts:
            g = self.spec and self.spec.gargs.get("%s %d" % (short, self.ncall.get(short, 0) + 1))
            if not g or self.inline_depth: raise Unsupported("call without the ghost arguments of the contract", n)
            av = av + ["Ghost(%s)" % x.strip() for x in g.split("|")]
        ce = "%s(%s)" % (tr.rname(key), ", ".join(pre + av))
        if callee_spec.throws:
            self.call_hints("before", short)
            r = self.temp()
            self.emit("let %s = %s;" % (r, ce))
            if self.throws:
                self.emit("if %s.is_err() {" % r)
                self.hints("throw call %s %d" % (short, self.ncall[short]))
                self.cleanup()
                self.emit("return Err(err_of(%s)); }" % r)
                x = self.temp()
                self.emit("let %s = no_exc(%s);" % (x, r))
                self.res = x
                self.call_hints("after", short)
                return x
            x = self.temp()
            self.emit("let %s = no_exc(%s);" % (x, r))
            self.res = x
            self.call_hints("after", short)
            return x
        if mode != "w" and want: return ce
        self.call_hints("before", short)
        if void or not want:
            self.emit(("%s;" if void else "let _ = %s;") % ce)
            self.call_hints("after", short)
            return "" if not want else "()"
        r = self.temp()
        self.emit("let %s: %s = %s;" % (r, self.rt(self.ty(n)), ce))
        self.res = r
        self.call_hints("after", short)
        return r

    inline_counter = 0
    def inline(self, key, this, args, n, want):
        """a function without a contract is expanded at the call"""
        f = self.prog.fns[key]
        if self.inline_depth > 6: raise Unsupported("recursive helper without contract", n)
        vals = []
        if this is not None:
            vals.append(("this", self.hoist_always(self.expr(this), "Ptr") if isinstance(this, dict) else this))
        bind = []
        for p, a in zip(f.params, args):
            t = self.ty(p)
            if t.k == "ref":
                aa = a
                while aa["kind"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr") and (aa["kind"] != "ImplicitCastExpr" or aa.get("castKind") == "NoOp"): aa = aa["inner"][0]
                if aa.get("valueCategory") == "lvalue": bind.append((p, self.freeze(self.lvalue(aa)), t.elem)); continue
                t = t.elem
            bind.append((p, self.hoist_always(self.expr(a), self.rt(t)), t))
        FnT.inline_counter += 1
        save = (getattr(self, "inline_id", 0), self.fnnode, self.ret_t, self.loopstack, getattr(self, "inl_ret", None), self.vars)
        self.inline_depth += 1
        self.inline_id = FnT.inline_counter
        self.ntemp += 0
        self.vars = dict(self.vars)
        self.fnnode = f
        q = f.node["type"]["qualType"]
        rq = q[:q.index("(")].strip()
        self.ret_t = Ty("void") if f.is_ctor or f.is_dtor else parse_type(rq, self.prog)
        self.loopstack = []
        r = None
        if self.ret_t.k != "void":
            r = self.temp()
            self.emit("let mut %s: %s = arb_%s();" % (r, self.rt(self.ret_t), self.rt(self.ret_t).lower()))
        self.inl_ret = r
        self.emit("{ /*@inline %s*/" % key)
        if this is not None: self.emit("let this_ = %s;" % vals[0][1])
        for p, v, t in bind:
            if isinstance(v, LV): self.vars[p["id"]] = (v, t); continue
            nm = self.newname(p.get("name") or "unnamed")
            self.emit("let mut %s: %s = %s;" % (nm, self.rt(t), v))
            self.vars[p["id"]] = (nm, t)
        for i in f.inits: self.ctor_init(i)
        self.tail(f.body.get("inner", []))
        self.emit("}")
        self.inline_depth -= 1
        self.inline_id, self.fnnode, self.ret_t, self.loopstack, self.inl_ret, self.vars = save
        return r if r else ("" if not want else "()")

    def always_returns(self, n):
        if n["kind"] in ("ReturnStmt", "CXXThrowExpr"): return True
        if n["kind"] in ("CompoundStmt", "ExprWithCleanups"): return any(self.always_returns(c) for c in n.get("inner", []) if c)
        if n["kind"] == "IfStmt": return len(n["inner"]) > 2 and self.always_returns(n["inner"][1]) and self.always_returns(n["inner"][2])
        return False
    def has_return(self, n): return self.has_kind(n, ("ReturnStmt",))

    def tail(self, stmts):
        """statements of an inlined helper; returns only in tail position"""
        for i, s in enumerate(stmts):
            if s.get("_line"): self.curline = s["_line"]
            if not self.has_return(s): self.stmt(s); continue
            if s["kind"] == "ReturnStmt":
                if s.get("inner"):
                    v = self.expr(s["inner"][0])
                    self.emit("%s = %s;" % (self.inl_ret, v))
                return
            if s["kind"] == "CompoundStmt":
                self.tail(s.get("inner", []) + stmts[i + 1:]); return
            if s["kind"] == "IfStmt":
                c, a = s["inner"][0], s["inner"][1]
                b = s["inner"][2] if len(s["inner"]) > 2 else None
                rest = stmts[i + 1:]
                ce = self.expr(c)
                self.emit("if %s {" % ce)
                ra, rb = self.always_returns(a), b is not None and self.always_returns(b)
                if not ra and not rb and rest: raise Unsupported("return in a non-tail branch of a helper", s)
                self.tail([a] + ([] if ra else rest))
                self.emit("} else {")
                self.tail(([b] if b is not None else []) + ([] if rb else rest))
                self.emit("}")
                return
            raise Unsupported("return inside a loop of a helper without contract", s)

    def e_CXXNewExpr(self, n):
        t = self.ty(n)
        self.writes()
        r = self.temp()
        if n.get("isArray"):
            sz = self.imm(self.conv_size(n["inner"][0]), "u64")
            he = heap_elem(t.elem)
            if he is None: raise Unsupported("new[] of objects", n)
            if len(n["inner"]) > 1 and n["inner"][1]["kind"] not in ("CXXConstructExpr",): raise Unsupported("new[] initializer", n)
            he = he if he == "ptr" else "u" + he[1:]
            self.emit("let %s: Ptr = new_arr_%s(mem, %s);" % (r, he, sz))
            self.res = r
            self.call_hints("after", "new_arr")
            return r
        cls = t.elem.name
        if cls not in self.tr.class_fields: raise Unsupported("new of %r" % t.elem, n)
        ce = next((c for c in n.get("inner", []) if c["kind"] == "CXXConstructExpr"), None)
        args = ce.get("inner", []) if ce else []
        key = cls + "::ctor"
        if key in self.prog.fns:
            av = self.args(args)
            self.call_hints("before", "alloc_" + cls)
            self.emit("let %s: Ptr = new_%s(mem);" % (r, cls))
            if self.tr.specs.get(key) is None: raise Unsupported("constructor without contract", n)
            if key != self.key: self.callees.append(key)
            self.call_hints("before", "new_" + cls)
            self.emit("%s(%s);" % (self.tr.rname(key), ", ".join(["mem", r] + av)))
            self.res = r
            self.call_hints("after", "new_" + cls)
        else:
            self.emit("let %s: Ptr = new_%s(mem);" % (r, cls))
        return r
    def conv_size(self, e):
        return self.conv(self.expr(e), self.ty(e), Ty("u64"))

    def e_CXXConstructExpr(self, n):
        raise Unsupported("construction of an object", n)
    def e_LambdaExpr(self, n): raise Unsupported("lambda in expression", n)

    # ---- external functions
    def extern(self, name, n, args, want):
        nm = name
        if nm in ("malloc", "realloc", "calloc"): raise Unsupported("untyped allocation", n)
        if nm in ("__builtin_clzl", "__builtin_clzll"): return "clzl(%s)" % self.expr(args[0])
        if nm == "__builtin_expect": return self.expr(args[0])
        if nm == "free":
            a = args[0]
            while a["kind"] == "ImplicitCastExpr" and a["castKind"] in ("BitCast", "NoOp"): a = a["inner"][0]
            p = self.imm(self.expr(a), "Ptr")
            self.writes()
            self.call_hints("before", "free")
            self.emit("free(mem, %s);" % p)
            self.call_hints("after", "free")
            return ""
        if nm == "fill_n":
            t = self.ty(args[0])
            p = self.hoist(self.expr(args[0]), "Ptr")
            cnt = self.hoist(self.expr(args[1]), self.rt(self.ty(args[1])))
            v = args[2]
            vt = self.ty(v); vt = vt.elem if vt.k == "ref" else vt
            val = self.hoist(self.conv(self.expr(v), vt, t.elem), self.rt(t.elem))
            self.writes()
            self.emit("fill_n_%s(mem, %s, %s, %s);" % (heap_elem(t.elem), p, cnt, val))
            return ""
        if nm in ("min", "max") and len(args) == 2:
            t = self.ty(n); t = t.elem if t.k == "ref" else t
            a, b = [self.hoist_always(self.expr(x) if x["kind"] not in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") else self.load_expr(x), self.rt(t)) for x in args]
            c = ("%s < %s" % (b, a)) if nm == "min" else ("%s < %s" % (a, b))
            return "(if %s { %s } else { %s })" % (c, b, a)
        if nm == "swap" and len(args) == 2:
            t = self.ty(args[0])
            l1, l2 = self.freeze(self.lvalue(args[0])), self.freeze(self.lvalue(args[1]))
            a = self.hoist_always(self.load(l1, t), self.rt(t)); b = self.hoist_always(self.load(l2, t), self.rt(t))
            self.store(l1, b, t); self.store(l2, a, t)
            return ""
        if nm == "sort" and len(args) == 3:
            lam = args[2]
            while lam["kind"] not in ("DeclRefExpr", "LambdaExpr"): lam = lam["inner"][0]
            if lam["kind"] != "DeclRefExpr" or lam["referencedDecl"]["id"] not in self.vars: raise Unsupported("comparator", n)
            lk = self.vars[lam["referencedDecl"]["id"]][0]
            a = self.args(args[:2])
            self.callees.append(lk[1])
            self.writes()
            self.call_hints("before", "sort")
            ls = self.tr.specs.get(lk[1])
            if ls is None: raise Unsupported("comparator without contract", n)
            caps = [self.hoist_always(c, self.rt(ct)) for c, ct in zip(lk[2], lk[3])]
            self.emit("let cmp_%d = mk_%s(%s);" % (self.ntemp, self.tr.rname(lk[1]), ", ".join(caps)))
            self.emit("std_sort(mem, %s, cmp_%d, Ghost(sort_order));" % (", ".join(a), self.ntemp))
            self.call_hints("after", "sort")
            return ""
        if nm in ("fopen", "fclose", "fread", "fwrite", "fseek", "ftell", "rewind", "fflush", "ferror", "feof", "remove"):
            av = []
            for i, a in enumerate(args):
                aa = a
                while aa["kind"] == "ImplicitCastExpr" and aa["castKind"] in ("BitCast", "NoOp", "ArrayToPointerDecay"): aa = aa["inner"][0]
                if aa["kind"] == "StringLiteral":
                    m = aa["value"].strip('"')
                    av.append({"r": "1u8", "rb": "1u8", "w": "2u8", "wb": "2u8"}.get(m) or "0u8")
                else: av.append(self.hoist_always(self.expr(a) if aa is a else self.expr_through(a), self.rt(self.ty(a))))
            self.writes()
            r = self.temp()
            self.call_hints("before", nm)
            rt = self.ty(n)
            call = "io_%s(mem%s)" % (nm, "".join(", " + x for x in av))
            if rt.k == "void": self.emit(call + ";")
            else: self.emit("let %s: %s = %s;" % (r, self.rt(rt), call))
            self.res = r
            self.call_hints("after", nm)
            return "" if not want or rt.k == "void" else r
        raise Unsupported("call of external function " + nm, n)
    def expr_through(self, a):
        while a["kind"] == "ImplicitCastExpr" and a["castKind"] in ("BitCast", "NoOp"): a = a["inner"][0]
        return self.expr(a)

    # ---- final text
    def text(self):
        sp = self.spec
        m = self.mode
        ps = (["mem: &mut Mem"] if m == "w" else ["mem: &Mem"] if m == "r" else []) + ["%s: %s" % (self.sig(p[0]), p[1]) for p in self.params]
        ret = "()" if self.ret_t.k == "void" else self.rt(self.ret_t)
        if self.throws: ret = "Result<%s, Exc>" % ret
        head = []
        for a in (sp.attrs if sp else []): head.append(a)
        if sp and sp.assumed: head.append("#[verifier::external_body]")
        head.append("pub fn %s(%s)%s" % (self.tr.rname(self.key), ", ".join(ps), "" if ret == "()" else " -> (ret: %s)" % ret))
        out = [(h, None) for h in head]
        if sp:
            if sp.requires: out.append(("  requires " + self.sig(sp.requires), None))
            ens = self.sig(sp.ensures or "")
            if ens: out.append(("  ensures " + ens, None))
            if sp.decreases: out.append(("  decreases " + sp.decreases, None))
        out.append(("{", None))
        if sp and not sp.assumed:
            for h in sp.hides: out.append(("hide(%s);" % h, None))
        out += self.lines
        out.append(("}", None))
        if self.key in self.tr.lambdas and sp and self.mode != "w":
            # the comparator as a function object, with the contract above
            k = len(self.tr.lambdas[self.key][0]); caps, par = self.params[:k], self.params[k:]
            w = lambda x: re.sub(r"\bM[01]\b", "w@", x)
            q = "|w: &Mem, %s" % ", ".join("%s: %s" % x for x in par); tup = "(w, %s)" % ", ".join(x[0] for x in par)
            req, ens = w(sp.requires or "true").rstrip().rstrip(",").replace("\n", " "), w(sp.ensures or "true").rstrip().rstrip(",").replace("\n", " ")
            def conj(x):
                d, cur, o = 0, "", []
                for ch in x:
                    if ch in "([{": d += 1
                    if ch in ")]}": d -= 1
                    if ch == "," and d == 0: o.append(cur); cur = ""
                    else: cur += ch
                return " && ".join("(%s)" % y for y in o + [cur])
            nm = self.tr.rname(self.key)
            for t in ["pub fn mk_%s(%s) -> (f: impl Fn(%s) -> bool)" % (nm, ", ".join("%s: %s" % x for x in caps), ", ".join(["&Mem"] + [x[1] for x in par])),
                      "  ensures forall%s| #![trigger f.requires(%s)] %s ==> f.requires(%s)," % (q, tup, conj(req), tup),
                      "    forall%s, ret: bool| #![trigger f.ensures(%s, ret)] f.ensures(%s, ret) ==> %s" % (q, tup, tup, conj(ens)),
                      "{ move %s| -> (ret: bool)" % q, "  requires " + req, "  ensures " + ens,
                      "{ %s(%s) } }" % (nm, ", ".join((["w"] if self.mode == "r" else []) + [x[0] for x in self.params]))]:
                out.append((t, None))
        return [(self.subst(t), l) for t, l in out]

    def subst(self, t):
        if self.mode == "w":
            t = re.sub(r"\bM0\b", "old(mem)@", t); t = re.sub(r"\bM1\b", "final(mem)@", t)
        else:
            t = re.sub(r"\bM[01]\b", "mem@" if self.mode == "r" else "arbitrary::<MemV>()", t)
        return re.sub(r"\bMM\b", "mem@", t)
