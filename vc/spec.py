"""Contract files.  Sections:
  @foreach A B C : v1 v2 v3 | w1 w2 w3 ... @end   textual templates ($A, $B, ...)
  @fn KEY            contract of the C++ function KEY (e.g. PackedArray::set_value)
  @params a b ...    parameter names used below (matched by position, so renames do not matter)
  @vars a b ...      names of locals used below, in declaration order (for renames)
  @uses lib ...      lemma libraries
  @ghost NAME : TYPE a ghost parameter; @garg FUNCTION K : EXPR | EXPR ...  what call K of a function passes for its ghost parameters
  @assumed           the contract is not proved here (listed as an assumption)
  @throws            an exception may leave the function (result becomes Result)
  @attr TEXT;  @hide F ...   definitions the proof of this function does not look into
  @requires / @ensures / @decreases
  @loop K            then @invariant / @invariant_except_break / @ensures / @decreases / @isolate
  @at ANCHOR         proof text at an anchor
  @part ANCHOR       facts from which alone the block that starts at "if K then" is proved; @part_end ANCHOR  what holds after it
  @rest ANCHOR       facts from which alone the rest of the function is proved (a cut)
"""
import re, os, glob

class Spec:
    def __init__(self, key):
        self.hides = []
        self.key, self.throws, self.attrs, self.hints, self.loops = key, False, [], [], {}
        self.rests = []
        self.ghosts, self.gargs = [], {}
        self.parts, self.part_ends = {}, {}
        self.assumed = False
        self.requires = self.ensures = self.decreases = ""
        self.params, self.vars, self.uses, self.extra = None, None, [], ""
        self.file = None

def expand(text):
    out, lines, i = [], text.split("\n"), 0
    while i < len(lines):
        m = re.match(r"^@foreach\s+(.*?)\s*:\s*(.*)$", lines[i])
        if not m: out.append(lines[i]); i += 1; continue
        names = m.group(1).split()
        rows = [r.split() for r in m.group(2).split("|")]
        j = i + 1
        while lines[j].strip() != "@end": j += 1
        body = "\n".join(lines[i + 1:j])
        for r in rows:
            t = body
            for n, v in sorted(zip(names, r), key=lambda x: -len(x[0])):
                t = t.replace("$" + n, v.replace("~", " ") if v != "-" else "")
            out.append(t)
        i = j + 1
    return "\n".join(out)

def parse(path):
    specs = {}
    cur = loop = None
    sect = None
    buf = []
    def flush():
        nonlocal buf
        t = "\n".join(l for l in buf).strip()
        buf = []
        if cur is None or sect is None: return
        t = re.sub(r"(?m)^\s*//.*$", "", t).strip() if sect[0] != "at" else t
        if sect[0] == "rest": cur.rests.append((sect[1], t))
        elif sect[0] == "part": cur.parts[sect[1]] = t
        elif sect[0] == "part_end": cur.part_ends[sect[1]] = t
        elif sect[0] == "at": cur.hints.append((sect[1], t))
        elif loop is not None: cur.loops[loop][sect[0]] = t
        elif sect[0] in ("requires", "ensures", "decreases"): setattr(cur, sect[0], t)
    for line in expand(open(path).read()).split("\n"):
        m = re.match(r"^@(\w+)\b\s*(.*)$", line)
        if not m:
            buf.append(line); continue
        flush()
        d, arg = m.group(1), m.group(2).strip()
        sect = None
        if d == "fn":
            cur = Spec(arg); cur.file = path; specs[arg] = cur; loop = None
        elif d == "params": cur.params = arg.split()
        elif d == "vars": cur.vars = arg.split()
        elif d == "uses": cur.uses = arg.split()
        elif d == "ghost": cur.ghosts.append(tuple(x.strip() for x in arg.split(":", 1)))
        elif d == "garg": cur.gargs[arg.split(":", 1)[0].strip()] = arg.split(":", 1)[1].strip()
        elif d == "throws": cur.throws = True
        elif d == "assumed": cur.assumed = True
        elif d == "hide": cur.hides += arg.split()
        elif d == "attr": cur.attrs.append(arg)
        elif d == "loop":
            loop = int(arg); cur.loops[loop] = {}
        elif d == "isolate": cur.loops[loop]["isolate"] = True
        elif d in ("at", "rest", "part", "part_end"): sect = (d, arg)
        else:
            if d in ("requires",): loop = None
            sect = (d, None)
            if arg: buf.append(arg)
    flush()
    return specs

def load(d):
    specs = {}
    for p in sorted(glob.glob(os.path.join(d, "*.spec"))):
        for k, s in parse(p).items():
            if k in specs: raise Exception("two contracts for " + k)
            specs[k] = s
    return specs
