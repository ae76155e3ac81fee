"""Load the clang AST (JSON) of every translation unit of /repo/src and index what the
translator needs: functions with bodies, class layouts, source positions.

Nothing here knows about contracts; it only exposes what clang reports."""
import json, os, re, subprocess, glob, hashlib
from concurrent.futures import ProcessPoolExecutor

class Unsupported(Exception):
    def __init__(self, msg, node=None):
        loc = ""
        if node is not None:
            loc = " at %s:%s" % (os.path.basename(node.get("_file") or "?"), node.get("_line"))
        super().__init__(msg + loc)
        self.where = loc

CLANG = "clang++"

_FILE = re.compile(rb'"file": "((?:[^"\\\\]|\\\\.)*)"')
_LINE = re.compile(rb'"line": (\d+)')

def dump(repo, src):
    """AST of one translation unit. Top-level declarations whose text names no file of the
    repository are skipped before JSON parsing (they belong to system headers)."""
    cmd = [CLANG, "-std=c++11", "-I", os.path.join(repo, "include"), "-fsyntax-only", "-w",
           "-Xclang", "-ast-dump=json", src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Unsupported("clang cannot compile %s: %s" % (src, p.stderr.decode()[:400]))
    text = p.stdout
    root = os.path.realpath(repo).encode() + b"/"
    cur, line = None, None
    inner = []
    pos = text.find(b"\n    {\n")
    while pos >= 0:
        end = text.find(b"\n    }", pos)
        chunk = text[pos + 1:end + 6]
        start = (cur, line)
        fs = _FILE.findall(chunk)
        keep = (cur is not None and cur.startswith(root)) or any(
            os.path.realpath(x.decode()).encode().startswith(root) for x in set(fs))
        if keep:
            d = json.loads(chunk)
            d["_start"] = (start[0].decode() if start[0] else None, start[1])
            inner.append(d)
        if fs: cur = os.path.realpath(fs[-1].decode()).encode()
        ls = _LINE.findall(chunk)
        if ls: line = int(ls[-1])
        pos = text.find(b"\n    {\n", end)
    tu = {"kind": "TranslationUnitDecl", "inner": inner}
    annotate(tu)
    return tu

def annotate(tu):
    """clang's JSON gives file/line only when they change; make them explicit on every node."""
    st = {"file": None, "line": None}
    def bare(l):
        if "file" in l: st["file"] = l["file"]
        if "line" in l: st["line"] = l["line"]
        l["_f"], l["_l"] = st["file"], st["line"]
    def loc(l):
        if "offset" in l: bare(l)
        else:
            for k in l:
                if k in ("spellingLoc", "expansionLoc"): bare(l[k])
    def pos(l):
        if "offset" in l: return l["_f"], l["_l"]
        if "expansionLoc" in l: return l["expansionLoc"]["_f"], l["expansionLoc"]["_l"]
        return None, None
    # iterative document-order walk restricted to what can influence positions
    def walk(n):
        for k, v in list(n.items()):
            if k == "loc": loc(v)
            elif k == "range":
                b = v.get("begin", {}); e = v.get("end", {})
                loc(b); loc(e)
                n["_file"], n["_line"] = pos(b)
            elif k == "inner":
                for c in v:
                    if isinstance(c, dict):
                        if "_start" in c: st["file"], st["line"] = c.pop("_start")
                        walk(c)
            elif isinstance(v, dict) and k not in ("type", "argType", "valueCategory"):
                if "loc" in v or "range" in v or "inner" in v: walk(v)
        if "_file" not in n and "loc" in n:
            n["_file"], n["_line"] = pos(n["loc"])
    import sys
    sys.setrecursionlimit(100000)
    walk(tu)

class Fn:
    def __init__(self, key, node, tu, cls, static):
        self.key, self.node, self.tu, self.cls, self.static = key, node, tu, cls, static
        self.name = node["name"]
        self.params = [c for c in node.get("inner", []) if c["kind"] == "ParmVarDecl"]
        self.body = next((c for c in node.get("inner", []) if c["kind"] == "CompoundStmt"), None)
        self.is_ctor = node["kind"] == "CXXConstructorDecl"
        self.is_dtor = node["kind"] == "CXXDestructorDecl"
        self.inits = [c for c in node.get("inner", []) if c["kind"] == "CXXCtorInitializer"]

class Program:
    def __init__(self, repo):
        self.repo = os.path.realpath(repo)
        self.fns = {}      # key -> Fn (with body)
        self.classes = {}  # name -> [(field, typestr)]
        self.ids = {}      # (tu, decl id) -> key
        self.globals = {}  # (tu, decl id) -> constant or enumerator declaration
        self.src_files = sorted(glob.glob(os.path.join(self.repo, "src", "*.cpp")))
        with ProcessPoolExecutor(8) as ex:
            tus = list(ex.map(dump, [self.repo] * len(self.src_files), self.src_files))
        for s, tu in zip(self.src_files, tus):
            self.index(os.path.splitext(os.path.basename(s))[0], tu)

    def index(self, tuname, tu):
        def in_repo(n):
            f = n.get("_file")
            return bool(f) and os.path.realpath(f).startswith(self.repo + "/")
        def top(n, ns):
            for c in n.get("inner", []):
                k = c.get("kind")
                if k == "NamespaceDecl":
                    if c.get("name") in ("std", "__gnu_cxx", "__cxxabiv1"): continue
                    if in_repo(c) or not c.get("name"): top(c, ns + [c.get("name") or ""])
                elif k == "LinkageSpecDecl":
                    if in_repo(c): top(c, ns)
                elif not in_repo(c): continue
                elif k == "VarDecl" and ("const" in c["type"]["qualType"] or c.get("constexpr")): self.globals[(tuname, c["id"])] = c
                elif k == "EnumDecl":
                    for e in c.get("inner", []): self.globals[(tuname, e["id"])] = e
                elif k == "CXXRecordDecl": self.record(tuname, c)
                elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                    self.function(tuname, c, None)
        top(tu, [])

    def record(self, tuname, c):
        name = c.get("name")
        if not name or not c.get("completeDefinition"): return
        fields = []
        for f in c.get("inner", []):
            if f["kind"] == "FieldDecl":
                fields.append((f["name"], f["type"]["qualType"]))
                self.ids[(tuname, f["id"])] = ("field", name, f["name"])
            elif f["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
                if not f.get("isImplicit"): self.function(tuname, f, name)
        if name in self.classes and self.classes[name] != fields:
            raise Unsupported("class %s has two layouts" % name)
        self.classes[name] = fields

    def function(self, tuname, c, cls):
        if c.get("isImplicit"): return
        name = c["name"]
        static = c.get("storageClass") == "static" and cls is None
        k = None
        if "previousDecl" in c and (tuname, c["previousDecl"]) in self.ids:
            k = self.ids[(tuname, c["previousDecl"])]
            cls = k.split("::")[0] if "::" in k else None
            static = k.startswith(tuname + "__")
        if k is None:
            if cls:
                nm = {"CXXConstructorDecl": "ctor", "CXXDestructorDecl": "dtor"}.get(c["kind"], name)
                k = cls + "::" + nm
            elif static: k = tuname + "__" + name
            else: k = name
        self.ids[(tuname, c["id"])] = k
        f = Fn(k, c, tuname, cls, static)
        if f.body is not None:
            if k in self.fns:
                old = self.fns[k]
                # inline functions from headers appear in several TUs; keep the first
                if old.node.get("_file") == c.get("_file") and old.node.get("_line") == c.get("_line"): return
                raise Unsupported("two definitions (or overloads) of %s" % k, c)
            self.fns[k] = f

if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    for k in sorted(p.fns): print(k, p.fns[k].node["_file"], p.fns[k].node["_line"])
    for c in p.classes: print(c, p.classes[c])
