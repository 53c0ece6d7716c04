"""Build and run symbolic-execution harnesses against /repo's current tree."""
import threading, os, re, sys, json, time, shutil, subprocess, hashlib, tempfile, atexit, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
HAR = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = int(os.environ.get("SYM_JOBS", str(os.cpu_count() or 8)))

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(map(str, cmd)), r.stdout[-6000:]))
    return r.stdout

def engine():
    """Compile the pass plug-in and the run-time (cached by content)."""
    files = ["pass.cpp", "rt.cpp", "rt_inline.cpp", "ops.h", "sym.h"]
    h = hashlib.sha256()
    for f in files:
        h.update(open(os.path.join(ENG, f), "rb").read())
    d = os.path.join(BUILD, "engine-" + h.hexdigest()[:16])
    if os.path.exists(os.path.join(d, "ok")):
        return d
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    cfg = sh(["llvm-config-18" if shutil.which("llvm-config-18") else "llvm-config", "--cxxflags"]).split()
    cfg = [c for c in cfg if not c.startswith("-std")]
    ps = []
    for cmd in (["clang++-18", "-fPIC", "-shared", "-O1", "-fno-rtti", *cfg, "-std=c++17", "-w", ENG + "/pass.cpp", "-o", tmp + "/SymPass.so"],
                ["clang++-18", "-O2", "-w", "-std=c++17", "-c", ENG + "/rt.cpp", "-o", tmp + "/rt.o"],
                ["clang++-18", "-O2", "-w", "-emit-llvm", "-c", ENG + "/rt_inline.cpp", "-o", tmp + "/inl.bc"]):
        ps.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in ps:
        o, _ = p.communicate()
        if p.returncode:
            raise RuntimeError("engine build failed: %s\n%s" % (" ".join(cmd), o))
    open(tmp + "/ok", "w").close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d

_scratch = []
def _clean():
    for d in _scratch:
        if d.startswith("/tmp/symv-") or d.startswith(BUILD):
            shutil.rmtree(d, ignore_errors=True)
atexit.register(_clean)
def _term(sig, frm):
    sys.exit(2)
for s in (signal.SIGTERM, signal.SIGINT):
    signal.signal(s, _term)

def scratch():
    d = tempfile.mkdtemp(prefix="symv-", dir="/tmp")
    _scratch.append(d)
    return d

class Tree:
    """A private copy of /repo's sources with capacity constants lowered (never raised)."""
    CAPS = {"MAX_OUTPUT": 64, "MAX_TUPLE_LIST": 96, "MAX_TEXT": 256, "MAX_STRING": 256, "MAX_NODE": 48, "MAX_CONSTRAINT": 32,
            "MAX_STATES": 40, "MAX_PRIMITIVE": 400, "MAX_SIZE_PRIMITIVE": 300, "MAX_UNMATCHED_SYMBOL": 32, "MAX_UNIT": 32, "MAX_STATE": 32, "MAX_STACK":60}
    def __init__(self, caps=None):
        self.d = scratch()
        self.capsused = {}
        for s in ("JSONQuery", "JSONPathParser", "DFABuilder"):
            shutil.copytree(os.path.join(REPO, s), os.path.join(self.d, s))
        c = dict(self.CAPS)
        if caps is not None:
            c = caps
        pat = re.compile(r"^(\s*#\s*define\s+(\w+)\s+)(\d+)\b", re.M)
        for root, _, fs in os.walk(self.d):
            for f in fs:
                if not f.endswith((".c", ".h", ".cpp", ".hpp")):
                    continue
                p = os.path.join(root, f)
                t = open(p, encoding="latin-1").read()
                def rep(m):
                    n, v = m.group(2), int(m.group(3))
                    if n in c and v > c[n]:
                        self.capsused[n] = [v, c[n]]
                        return m.group(1) + str(c[n])
                    return m.group(0)
                t2 = pat.sub(rep, t)
                if t2 != t:
                    open(p, "w", encoding="latin-1").write(t2)
        g = os.path.join(self.d, "gen")
        os.makedirs(g)
        jp = os.path.join(self.d, "JSONPathParser")
        # same invocations as JSONPathParser/CMakeLists.txt
        sh(["bison", "-d", "-v", "-t", "-o", g + "/parser_j.c", jp + "/parser_j.y"], cwd=g)
        sh(["flex", "--header-file=" + g + "/scanner_j.h", "-o", g + "/scanner_j.c", jp + "/scanner_j.l"], cwd=g)
        self.inc = ["-I" + g, "-I" + self.d + "/JSONQuery", "-I" + jp, "-I" + self.d + "/DFABuilder/include", "-I" + self.d + "/DFABuilder/interface"]
    def query_c(self):
        d = self.d + "/JSONQuery/"
        return sorted(d + f for f in os.listdir(d) if f.endswith(".c"))
    def parser_c(self):
        return [self.d + "/gen/parser_j.c", self.d + "/gen/scanner_j.c"]
    def dfa_cpp(self):
        r = []
        for root, _, fs in os.walk(self.d + "/DFABuilder/src"):
            r += [os.path.join(root, f) for f in fs if f.endswith(".cpp")]
        return sorted(r)

CF = ["-std=gnu99", "-D_GNU_SOURCE", "-Wno-implicit-function-declaration", "-Wno-return-type", "-Wno-int-conversion", "-Wno-incompatible-function-pointer-types", "-include", "stdlib.h", "-include", "string.h"]
CXXF = ["-std=c++11", "-fno-exceptions", "-D_GLIBCXX_ASSERTIONS"]
OPT = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-fno-strict-aliasing", "-ftrivial-auto-var-init=pattern", "-w"]

def par(cmds):
    ps = []
    out = []
    def reap(p):
        cmd, pr = p
        o, _ = pr.communicate()
        if pr.returncode:
            out.append((cmd, o))
    for c in cmds:
        ps.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        if len(ps) >= 8:
            reap(ps.pop(0))
    for p in ps:
        reap(p)
    if out:
        raise RuntimeError("compile failed: %s\n%s" % (" ".join(out[0][0]), out[0][1][-6000:]))

class Obj:
    """Compile units to bitcode and natively; link harness binaries."""
    def __init__(self, tree, asan=False, autoinit="pattern"):
        self.tree, self.asan = tree, asan
        self.bc, self.nat = {}, {}
        self.e = engine()
        self.n = 0
        self.autoinit = autoinit
        self.lock = threading.RLock()
    def opt(self):
        return [o if not o.startswith("-ftrivial") else "-ftrivial-auto-var-init=" + self.autoinit for o in OPT]
    def num(self):
        with self.lock:
            self.n += 1
            return self.n
    def compile(self, srcs, native=False, defs=()):
        with self.lock:
            return self.compile_(srcs, native, defs)
    def compile_(self, srcs, native, defs):
        cmds, outs = [], []
        for s in srcs:
            cxx = s.endswith(".cpp")
            key = (s, tuple(defs), native)
            tab = self.nat if native else self.bc
            if key in tab:
                outs.append(tab[key]); continue
            self.n += 1
            o = "%s/o%d_%s.%s" % (self.tree.d, self.n, os.path.basename(s), "o" if native else "bc")
            if native:
                c = [("clang++-18" if cxx else "clang-18"), *(["-std=c++11", "-D_GLIBCXX_ASSERTIONS"] if cxx else CF), "-O1", "-g", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=" + self.autoinit, *defs, "-I" + ENG, "-I" + HAR, *self.tree.inc, "-c", s, "-o", o]
            else:
                c = [("clang++-18" if cxx else "clang-18"), *(CXXF if cxx else CF), *self.opt(), *defs, "-I" + ENG, "-I" + HAR, *self.tree.inc, "-emit-llvm", "-c", s, "-o", o]
                if self.asan:
                    c += ["-fsanitize=address", "-Xclang", "-disable-llvm-passes"]
            cmds.append(c); tab[key] = o; outs.append(o)
        par(cmds)
        return outs
    def compile_plain(self, srcs):
        with self.lock:
            return self.compile_plain_(srcs)
    def compile_plain_(self, srcs):
        cmds, outs = [], []
        for s in srcs:
            key = (s, "plain")
            if key not in self.nat:
                self.n += 1
                o = "%s/p%d_%s.o" % (self.tree.d, self.n, os.path.basename(s))
                cmds.append([*(["clang++-18", "-std=c++11"] if s.endswith(".cpp") else ["clang-18", *CF]), "-O1", "-w", *(["-fsanitize=address"] if self.asan else []), *self.tree.inc, "-c", s, "-o", o])
                self.nat[key] = o
            outs.append(self.nat[key])
        par(cmds)
        return outs
    def link_sym(self, harness, srcs, defs=(), concrete=()):
        """concrete: sources that only run on concrete data in this harness; compiled natively"""
        cobj = self.compile_plain(concrete)
        bcs = self.compile([harness] , defs=defs) + self.compile(list(srcs)) + self.compile([ENG + "/models.c"])
        b = "%s/h%d" % (self.tree.d, self.num())
        e = self.e
        sh(["llvm-link-18", *bcs, e + "/inl.bc", "-o", b + ".l.bc"])
        with open(b + ".lst", "w") as f:
            f.write("\n".join(open(ENG + "/models.txt").read().split()) + "\n")
        pre = ""
        if self.asan:
            pre = "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg),"
        passes = pre + "function(lower-switch),symexec,always-inline,function(instcombine<no-verify-fixpoint>,simplifycfg,gvn)"
        passes = passes.replace("lower-switch", "lowerswitch")
        if self.asan:
            passes += ",asan"
        sh(["opt-18", "-load-pass-plugin=" + e + "/SymPass.so", "-passes=" + passes, "-sym-models=" + b + ".lst", "-sym-report=" + b + ".rep", b + ".l.bc", "-o", b + ".i.bc"])
        sh(["clang++-18", "-O0", "-w", *(["-fsanitize=address"] if self.asan else []), "-Xclang", "-disable-llvm-passes", b + ".i.bc", *cobj, e + "/rt.o", "-lz3", "-lm", "-o", b + ".bin"])
        return b + ".bin"
    def link_native(self, harness, srcs, defs=()):
        os_ = self.compile([harness], native=True, defs=list(defs)) + self.compile(list(srcs), native=True) + self.compile([ENG + "/replay.c"], native=True)
        b = "%s/n%d.bin" % (self.tree.d, self.num())
        sh(["clang++-18", "-fsanitize=address", *os_, "-lm", "-lpthread", "-o", b])
        return b

def run(binary, time_s=300, maxv=20, jobs=None, fill=0xAB, hang=40, env=None):
    out = tempfile.mkdtemp(prefix="run", dir=os.path.dirname(binary))
    ev = dict(os.environ, SYM_OUT=out, SYM_TIME=str(time_s), SYM_MAXV=str(maxv), SYM_JOBS=str(jobs or JOBS), SYM_FILL=str(fill), SYM_HANG=str(hang),
              ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:detect_stack_use_after_return=0:quarantine_size_mb=4:malloc_context_size=2:symbolize=0:print_stats=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d" % fill)
    if env: ev.update(env)
    r = subprocess.run(["bash", "-c", "ulimit -s 524288; ulimit -c 0; exec \"$0\"", binary], env=ev, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=out)
    try:
        st = json.load(open(out + "/stats.json"))
    except Exception:
        raise RuntimeError("engine run failed rc=%s: %s" % (r.returncode, r.stderr[-3000:]))
    def lines(f):
        p = out + "/" + f
        if not os.path.exists(p): return []
        return [l.rstrip("\n").split("|", 2) for l in open(p, errors="replace")]
    st["viol"] = [v for v in lines("violations.txt") if v[0] != "engine"]
    st["engine_msgs"] = [v for v in lines("violations.txt") if v[0] == "engine"]
    st["knownhits"] = lines("known.txt")
    st["samples"] = []
    p = out + "/samples.txt"
    if os.path.exists(p):
        for l in open(p, errors="replace"):
            tag, _, rest = l.rstrip("\n").partition("|")
            txt, _, model = rest.rpartition("|")
            st["samples"].append((tag, txt, model))
    st["stderr"] = r.stderr[-4000:].decode(errors="replace")
    return st

def replay(native, model, timeout=60, fill=None):
    d = tempfile.mkdtemp(prefix="rp", dir=os.path.dirname(native))
    ev = dict(os.environ, SYM_MODEL=model, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=%d" % (fill if fill is not None else 0xAB))
    try:
        r = subprocess.run(["bash", "-c", "ulimit -s unlimited; ulimit -c 0; exec \"$0\"", native], env=ev, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", ""
    o = r.stdout.decode(errors="replace")
    if "REPLAY-VIOLATION" in o: return "violation", o
    if "REPLAY-PRUNED" in o: return "pruned", o
    if "REPLAY-KNOWN" in o: return "known", o
    if "AddressSanitizer" in o: return "asan", o
    if r.returncode < 0: return "signal %d" % -r.returncode, o
    if r.returncode == 0 and "REPLAY-OK" in o: return "ok", o
    return "exit %d" % r.returncode, o

def functions(binary):
    rep = binary[:-4] + ".rep"
    I = [l.split()[1] for l in open(rep) if l.startswith("I ")]
    N = [l.split()[1] for l in open(rep) if l.startswith("N ")]
    return [f for f in I if not f.startswith("__m_") and not f.startswith("_ZNS") and not f.startswith("_ZNKS") and not f.startswith("_ZS")], N
