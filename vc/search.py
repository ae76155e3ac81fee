"""Concrete search on the real code: compile /repo's sources with the sanitizers, run the drivers of one property."""
import os, re, sys, json, glob, time, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
HAR = os.path.join(os.path.dirname(HERE), "harness")
CXX = "clang++"
SAN = ["-std=c++11", "-O1", "-g", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all", "-DFLBWT_VERIFY_HOOKS"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=16:max_malloc_fill_size=1073741824",
           UBSAN_OPTIONS="print_stacktrace=1")
DRIVERS = {"C02": ["C02", "C02b"]}
BIG = {"C01", "C02", "C07", "C09", "C10", "C11", "C13", "C15"}     # drivers with large inputs, run without sanitizers
HUGE = {"C01", "C05", "C08", "C09", "C10", "C11", "C13", "C15", "C16"}     # texts above 2^31 and 2^32 bytes in the second search
WRAP = {"C03": ["fopen", "fclose", "fread", "fwrite", "ftell"], "C02b": ["fwrite"]}

def sh(cmd, timeout=300, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")

def mem_available():
    try: return int(re.search(r"MemAvailable:\s*(\d+)", open("/proc/meminfo").read()).group(1)) * 1024
    except Exception: return 0

class Search:
    def __init__(self, prop, repo, seed, budget, parts=8):
        self.prop, self.repo, self.seed, self.budget, self.parts = prop, repo, seed, budget, parts
        self.dir = tempfile.mkdtemp(prefix="flbwt-search-%s-" % prop)
        self.built, self.notes, self.log = [], [], ""

    def close(self): shutil.rmtree(self.dir, ignore_errors=True)

    def cc(self, src, out, extra=(), flags=SAN):
        return sh([CXX, *flags, "-I" + os.path.join(self.repo, "include"), "-I" + HAR, *extra, "-c", src, "-o", out])

    def build(self):
        """returns True when at least one driver could be built"""
        srcs = sorted(glob.glob(os.path.join(self.repo, "src", "**", "*.cpp"), recursive=True))
        hook = any("FLBWT_VERIFY_HOOKS" in open(s, errors="replace").read() for s in srcs)
        jobs = [(s, os.path.join(self.dir, "r_%d_%s.o" % (i, os.path.basename(s))), ()) for i, s in enumerate(srcs)]
        drv = DRIVERS.get(self.prop, [self.prop])
        dj = [(os.path.join(HAR, d + ".cpp"), os.path.join(self.dir, d + ".o"), ("-DHAVE_HOOK",) if hook else ()) for d in drv]
        rj = []
        if self.prop == "C06":
            for w in (32, 40, 48, 56, 64):
                f = os.path.join(self.dir, "rd%d.cpp" % w)
                open(f, "w").write('#include "%s/src/sais%dbit.cpp"\nuint64_t rd%d(uint64_t *B, uint64_t i, uint8_t d) { return get2(B, i, d); }\n' % (self.repo, w, w))
                rj.append((f, os.path.join(self.dir, "rd%d.o" % w), ()))
        with ThreadPoolExecutor(10) as ex:
            res = list(ex.map(lambda j: self.cc(*j), dj + rj + jobs))
        self.build_big(srcs, hook)
        dres, rres, sres = res[:len(dj)], res[len(dj):len(dj) + len(rj)], res[len(dj) + len(rj):]
        objs = []
        for j, (rc, o) in zip(jobs, sres):
            if rc: self.notes.append("does not compile: %s: %s" % (os.path.basename(j[0]), o[-500:]))
            else: objs.append(j[1])
        extra = []
        if self.prop == "C06":
            rd = [w for w, (rc, o) in zip((32, 40, 48, 56, 64), rres) if rc == 0]
            f = os.path.join(self.dir, "rdtab.cpp")
            open(f, "w").write('#include "rd.hpp"\n' + "".join("uint64_t rd%d(uint64_t*,uint64_t,uint8_t);\n" % w for w in rd)
                               + "Reader READERS[] = {%s};\nint N_READERS = %d;\n" % (", ".join(["rd%d" % w for w in rd] or ["0"]), len(rd)))
            self.cc(f, f[:-4] + ".o")
            extra = [f[:-4] + ".o"] + [os.path.join(self.dir, "rd%d.o" % w) for w in rd]
            objs = [o for o in objs if not re.search(r"sais(%s)bit" % "|".join(map(str, rd)) if rd else "$^", o)]
            if len(rd) < 5: self.notes.append("packed readers reached directly: %s of 5" % len(rd))
        for j, d, (rc, o) in zip(dj, drv, dres):
            if rc: self.notes.append("driver %s does not fit the code: %s" % (d, o[-600:])); continue
            oo = list(objs)
            if d == "C02b":
                for i, x in enumerate(oo):
                    y = x + ".w.o"
                    rc2, out = sh(["objcopy", "--weaken-symbol=_ZN5flbwt10bwt_stringEPhmb", x, y])
                    if rc2 == 0: oo[i] = y
            exe = os.path.join(self.dir, "x" + d)
            rc, o = sh([CXX, "-fsanitize=address,undefined", *["-Wl,--wrap=" + w for w in WRAP.get(d, [])], j[1], *extra, *oo, "-o", exe])
            if rc: self.notes.append("driver %s does not link: %s" % (d, o[-600:])); continue
            self.built.append((d, exe))
        return bool(self.built)

    def build_big(self, srcs, hook):
        """the same driver without sanitizers, for large inputs"""
        self.big = self.huge = None
        if self.prop not in BIG and self.prop not in HUGE: return
        flags = ["-std=c++11", "-O2", "-w", "-DFLBWT_VERIFY_HOOKS", "-DPLAIN"] + (["-DHAVE_HOOK"] if hook else [])
        fs = srcs + [os.path.join(HAR, "huge.cpp"), os.path.join(HAR, self.prop + ".cpp")]
        objs = [os.path.join(self.dir, "b_%d.o" % i) for i in range(len(fs))]
        with ThreadPoolExecutor(10) as ex: res = list(ex.map(lambda j: self.cc(j[0], j[1], flags=flags), zip(fs, objs)))
        link = lambda k, exe: sh([CXX, *[b for i, (b, r) in enumerate(zip(objs, res)) if r[0] == 0 and (i < len(srcs) or i == k)], "-o", exe])[0]
        for k, name in ((len(srcs), "huge"), (len(srcs) + 1, "big")):
            if self.prop not in (HUGE if name == "huge" else BIG): continue
            exe = os.path.join(self.dir, "x" + name)
            if res[k][0] or link(k, exe): self.notes.append("driver for %s inputs does not fit the code" % name); continue
            setattr(self, name, exe)

    def run(self, budget=None, scale=1):
        """returns (failure dict or None, coverage dict)"""
        budget = budget or self.budget
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "drivers": [d for d, _ in self.built]}
        for di, (d, exe) in enumerate(self.built):
            b = budget if d != "C02b" else min(3, budget)
            parts = self.parts if d != "C02b" else 1
            big = self.big if d == self.prop else None; nbig = 0 if not big else 2 if scale == 1 else 4
            nhuge = 3 if self.huge and scale > 1 and d == self.prop and mem_available() > 24e9 else 0
            outs = []
            ps = []
            for i in range(parts + nbig + nhuge):
                o = open(os.path.join(self.dir, "out.%s.%d" % (d, i)), "wb")
                env = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"] + ":malloc_fill_byte=%d" % (190, 1, 255, 0)[i % 4], FLBWT_SCALE=str(scale if i >= parts else 1))
                cmd = [exe, self.dir, str(self.seed), str(i), str(parts), str(b)] if i < parts else [big, self.dir, str(self.seed), str(i), str(nbig), str(b)]
                if i >= parts + nbig: cmd = [self.huge, self.dir, str(self.seed), str(i), str(i - parts - nbig), str(b)]
                ps.append((i, subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, env=env, cwd=self.dir)))
                o.close()
            bad = None
            live = dict(ps)
            deadline = time.time() + b + (15 if d == "C02b" else 100 if scale == 1 else 290)
            while live and bad is None:
                for i, p in list(live.items()):
                    rc = p.poll()
                    if rc is None: continue
                    del live[i]
                    if rc == -9: self.notes.append("driver %s part %d ended by the system" % (d, i)); continue
                    if rc != 0: bad = (i, rc); break
                if time.time() > deadline: self.notes.append("driver %s: %d processes stopped at the time limit" % (d, len(live))); break
                if live and bad is None: time.sleep(0.02)
            for p in live.values(): p.kill()
            for p in live.values(): p.wait()
            for i in range(parts + nbig + nhuge):
                out = open(os.path.join(self.dir, "out.%s.%d" % (d, i)), errors="replace").read()
                m = re.findall(r'(?m)^(\{"evals".*\})$', out)
                if m:
                    try:
                        j = json.loads(m[-1]); cov["evaluations"] += j["evals"]; cov["distinct_nontrivial"] += j["nontrivial"]
                        if j["sample"]: cov["samples"].append(j["sample"])
                    except Exception: pass
            if bad is not None:
                i, rc = bad
                out = open(os.path.join(self.dir, "out.%s.%d" % (d, i)), errors="replace").read()
                try: case = open(os.path.join(self.dir, "case.%d" % i), "rb").read().split(b"\0")[0].decode(errors="replace")
                except Exception: case = ""
                if "out of memory" in out or rc in (-9,):
                    self.notes.append("driver %s part %d ended by the system (rc %s)" % (d, i, rc)); continue
                if d == "C02b" and not re.search(r"(?m)^FAIL header", out):     # stand-in with impossible sizes: only a wrong header counts
                    self.notes.append("driver C02b does not fit the code"); continue
                m = re.search(r"(?m)^FAIL (.*)$", out)
                msg = m.group(1) if m else (re.search(r"(?m)^.*(?:ERROR: |runtime error: ).*$", out) or [None])[0] or "ended with status %s" % rc
                return {"driver": "huge" if i >= parts + nbig else d, "case": case, "msg": msg.strip(), "output": out[-6000:]}, cov
        return None, cov

if __name__ == "__main__":
    prop = sys.argv[1]; b = float(sys.argv[2]) if len(sys.argv) > 2 else 10
    s = Search(prop, sys.argv[3] if len(sys.argv) > 3 else "/repo", 1, b)
    t0 = time.time(); ok = s.build(); t1 = time.time()
    f, c = s.run() if ok else (None, {})
    print(prop, "build %.1fs run %.1fs" % (t1 - t0, time.time() - t1), s.notes, c.get("evaluations"), c.get("distinct_nontrivial"), (c.get("samples") or [""])[0][:150])
    if f: print("FAIL", f["driver"], f["case"][:300], f["msg"][:300], f["output"][-1500:])
    s.close()
