#!/usr/bin/env python3
"""
Solver-based checks of noaaport/nbsp.

  runner.py check <PROP> [--tier quick|thorough]   decide one property
  runner.py one <HARNESS> [...]                    one harness, verbose
  runner.py replay <DIR>                           replay a recorded counterexample

Every run copies /repo's working tree to a scratch directory, generates the
configured headers with the project's own configure.sh and makefile, encodes
the real sources plus a harness with goto-cc, and lets CBMC's SAT back end
decide every assertion over all values within the bounds.  The REACH
assertions are reachability twins: they have to come back violated, and their
witnesses are replayed on the natively compiled code.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, hashlib
import concurrent.futures as cf
import resource, threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)

MEMLIMIT_GB = 14
NPAR = int(os.environ.get("VP_JOBS", "4"))

def sh(cmd, cwd=None, timeout=None, mem=None, env=None, stdout=subprocess.PIPE):
    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem << 30, mem << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, cwd=cwd, stdout=stdout, stderr=subprocess.STDOUT,
                         preexec_fn=lim, env=env, errors="replace", text=True,
                         stdin=subprocess.DEVNULL)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -999, out or ""

class Inconclusive(Exception):
    pass

def prepare(dst):
    """scratch copy of the working tree with the generated files"""
    shutil.copytree(REPO, dst, symlinks=True, ignore=shutil.ignore_patterns(
        ".git", "_build", "dev-notes", "tclhttpd", "tclgempak", "tclgrads",
        "tclmetar", "tclupperair", "tclssh", "tclldm", "examples", "debug-notes",
        "doc", "test", "0.examples", "*.tcl", "*.nc"))
    for d in ("src",):
        rc, out = sh(["sh", "./configure.sh"], cwd=os.path.join(dst, d), timeout=120)
        if rc != 0:
            raise Inconclusive("configure failed in %s: %s" % (d, out[-500:]))
    shutil.copy(os.path.join(dst, "Makefile.inc.in"), os.path.join(dst, "Makefile.inc"))
    rc, out = sh(["make", "conf.c", "defaults.h"], cwd=os.path.join(dst, "src"), timeout=120)
    if rc != 0:
        # generate them the way the makefile says
        raise Inconclusive("cannot generate conf.c/defaults.h: %s" % out[-500:])

FUNDEF = re.compile(r"^(?:[A-Za-z_][\w \t\*]*?[ \t\*])?([A-Za-z_]\w*)\s*\([^;{}]*\)\s*\{", re.M)

_index_lock = threading.Lock()
_index = {}
def function_index(root, sub):
    """name -> files defining a function of that name, under root/sub"""
    with _index_lock:
        k = (root, sub)
        if k not in _index:
            idx = {}
            for f in sorted(glob.glob(os.path.join(root, sub, "**", "*.c"), recursive=True)):
                try:
                    t = open(f, errors="replace").read()
                except OSError:
                    continue
                if "/tests/" in f or "/cli/" in f or re.search(r"^(int|void)?\s*main\s*\(", t, re.M):
                    continue
                for m in FUNDEF.finditer(t):
                    idx.setdefault(m.group(1), []).append(f)
            _index[k] = idx
        return _index[k]

class Harness:
    def __init__(self, name, src, entry=None, repo=(), inc=("src",), unwind=8,
                 unwindset=(), defs=(), thorough=None, flags=(), mem=False, log=True,
                 libc=True, malloc_fail=False, timeout=400, extra=(), objbits=11, cflags=(),
                 ldlibs=(), checks=True, note="", bounds="", native=True, index="src",
                 maxunwind=None, expect_undefined=(), reach=None, nondet_static=False,
                 solver=None, weak_only=(), noalias=False, unstatic=(), const=None):
        self.__dict__.update({k: v for k, v in locals().items() if k != "self"})
        self.entry = entry or name

    def variant(self, tier):
        v = dict(self.__dict__)
        if tier == "thorough" and self.thorough:
            for k, x in self.thorough.items():
                v[k] = x
        h = Harness.__new__(Harness)
        h.__dict__.update(v)
        return h

DEFAULT_INC = ["/usr/include/tcl8.6"]

def gb_functions(gb):
    rc, out = sh(["goto-instrument", "--list-symbols", gb], timeout=120)
    return out

class Run:
    """one harness on one prepared tree"""
    def __init__(self, h, root, work, verbose=False):
        self.h, self.root, self.verbose = h, root, verbose
        self.w = os.path.join(work, h.name)
        os.makedirs(self.w, exist_ok=True)
        self.info = {"harness": h.name, "bounds": h.bounds, "note": h.note}
        self.auto = []

    def incs(self):
        r = []
        if self.h.const:
            d = self.headers()
            for i in [os.path.dirname(u) for u in self.h.unstatic] + list(self.h.inc):
                r += ["-I", os.path.join(d, i)]
        r += ["-I", HERE, "-I", os.path.join(HERE, "h")]
        for u in self.h.unstatic:
            r += ["-I", os.path.dirname(os.path.join(self.root, u))]
        for i in self.h.inc:
            r += ["-I", os.path.join(self.root, i)]
        for i in DEFAULT_INC:
            r += ["-I", i]
        return r

    def cdefs(self):
        return ["-D" + d for d in self.h.defs] + ["-DHAS_CLOCK_GETTIME", "-DDEBUG"] + \
               list(self.h.cflags)

    def own_sources(self):
        h = self.h
        s = [os.path.join(HERE, "h", h.src), os.path.join(HERE, "vp_core.c")]
        if h.log is True:
            s.append(os.path.join(HERE, "vp_log.c"))
        elif h.log:
            s.append(os.path.join(HERE, h.log))
        for e in h.extra:
            s.append(os.path.join(HERE, e))
        return s

    def symbolic_sources(self):
        s = self.own_sources()
        if self.h.libc:
            s.append(os.path.join(HERE, "vp_libc.c"))
        if self.h.mem:
            s.append(os.path.join(HERE, "vp_mem.c"))
        return s

    def headers(self):
        """a copy of the headers with constants scaled down (array sizes); what the real
        values are is checked by a harness of its own"""
        d = os.path.join(self.w, "hdr")
        if os.path.isdir(d):
            return d
        tops = sorted({r.split("/")[0] for r in list(self.h.const) + list(self.h.repo) + list(self.h.inc)} - {"."})
        for top in tops:
            for f in glob.glob(os.path.join(self.root, top, "**", "*.h"), recursive=True):
                out = os.path.join(d, os.path.relpath(f, self.root))
                os.makedirs(os.path.dirname(out), exist_ok=True)
                shutil.copy(f, out)
        for rel, defs in self.h.const.items():
            src = os.path.join(self.root, rel)
            txt = open(src, errors="replace").read()
            for k, v in defs.items():
                txt, n = re.subn(r"^([ \t]*#[ \t]*define[ \t]+%s)\b.*$" % k, r"\1 %s" % v, txt, flags=re.M)
                if n != 1:
                    raise Inconclusive("constant %s not found in %s" % (k, rel))
            with open(os.path.join(d, rel), "w") as f:
                f.write('#line 1 "%s"\n' % src + txt)
        return d

    def source(self, rel):
        """path of a repo source; with file-scope statics made visible where the harness
        drives a static function directly"""
        src = os.path.join(self.root, rel)
        if rel not in self.h.unstatic and not (self.h.const and rel in self.h.repo):
            return src
        if self.h.const:
            out = os.path.join(self.headers(), rel)
            os.makedirs(os.path.dirname(out), exist_ok=True)
        else:
            out = os.path.join(self.w, "u_" + rel.replace("/", "_"))
        if not os.path.exists(out):
            txt = open(src, errors="replace").read()
            if rel in self.h.unstatic:
                txt = re.sub(r"^static[ \t]+(inline[ \t]+)?", "", txt, flags=re.M)
                txt = re.sub(r"^int[ \t]+main[ \t]*\(", "int vp_repo_main(", txt, flags=re.M)
            with open(out, "w") as f:
                f.write('#line 1 "%s"\n' % src + txt)
        return out

    def goto_cc(self, src, out):
        cmd = ["goto-cc", "-c", "-o", out, src] + self.incs() + self.cdefs() + ["-w", "-D__NO_CTYPE"]
        rc, o = sh(cmd, timeout=120)
        if rc != 0 or not os.path.exists(out):
            raise Inconclusive("goto-cc failed for %s:\n%s" % (src, o[-1500:]))

    def defined(self, gb):
        """functions with a body in a goto binary"""
        rc, out = sh(["goto-instrument", "--list-goto-functions" if False else "--show-goto-functions", gb], timeout=120)
        return set(re.findall(r"^([A-Za-z_]\w*) /\* ", out, re.M))

    def callgraph(self, gb):
        rc, out = sh(["goto-instrument", "--call-graph", gb], timeout=120)
        names = {self.h.entry}
        for l in out.splitlines():
            m = re.match(r"^\s*(\S+) -> (\S+)", l)
            if m:
                names |= {m.group(1), m.group(2)}
        return names

    def encode(self):
        t0 = time.time()
        own = []
        for i, s in enumerate(self.symbolic_sources()):
            o = os.path.join(self.w, "own%d.gb" % i)
            self.goto_cc(s, o)
            own.append(o)
        have = set()
        for o in own:
            have |= self.defined(o)
        repo_gb = []
        self.repo_files = list(self.h.repo)
        def add(rel):
            o = os.path.join(self.w, "r_" + rel.replace("/", "_") + ".gb")
            self.goto_cc(self.source(rel), o)
            d = self.defined(o)
            dup = sorted(d & have)
            if dup:
                cmd = ["goto-instrument"]
                for f in dup:
                    cmd += ["--remove-function-body", f]
                rc, out = sh(cmd + [o, o + "2"], timeout=120)
                if rc != 0:
                    raise Inconclusive("remove-function-body: " + out[-500:])
                o = o + "2"
            have.update(d)
            repo_gb.append(o)
        for rel in self.repo_files:
            add(rel)
        full = os.path.join(self.w, "full.gb")
        gb = os.path.join(self.w, "drop.gb")
        for attempt in range(4):
            cmd = ["goto-cc", "--function", self.h.entry, "-o", full] + own + repo_gb
            rc, out = sh(cmd, timeout=120)
            if rc != 0:
                raise Inconclusive("link failed:\n" + out[-1500:])
            rc, out = sh(["goto-instrument", "--drop-unused-functions", full, gb], timeout=120)
            if rc != 0:
                raise Inconclusive("drop-unused-functions: " + out[-800:])
            names = self.callgraph(gb)
            und = set(n for n in names - self.defined(gb) if not n.startswith(("__CPROVER", "nondet_", "__builtin")))
            idx = function_index(self.root, self.h.index)
            new = []
            for f in sorted(und):
                if f in self.h.expect_undefined:
                    continue
                if self.verbose or os.environ.get("VP_VERBOSE"):
                    print("undefined", f, idx.get(f))
                for cand in idx.get(f, []):
                    rel = os.path.relpath(cand, self.root)
                    if rel not in self.repo_files and rel not in new:
                        new.append(rel)
                        break
            if not new:
                break
            for rel in new:
                self.repo_files.append(rel)
                self.auto.append(rel)
                add(rel)
        self.undefined = und
        rep = set()
        for rel in self.repo_files:
            try:
                txt = open(os.path.join(self.root, rel), errors="replace").read()
            except OSError:
                continue
            rep |= set(FUNDEF.findall(txt))
        self.info["functions_encoded"] = sorted(n for n in names if n.split("$")[0] in rep)
        self.info["files_encoded"] = self.repo_files
        if self.auto:
            self.info["auto_added_files"] = self.auto
        self.info["encode_s"] = round(time.time() - t0, 2)
        self.gb = gb

    def cbmc(self, unwind, timeout):
        h = self.h
        cmd = ["cbmc", self.gb, "--json-ui", "--trace", "--unwind", str(unwind),
               "--unwinding-assertions", "--object-bits", str(h.objbits),
               "--no-signed-overflow-check", "--no-undefined-shift-check",
               "--no-pointer-primitive-check", "--verbosity", "8"]
        if not h.checks:
            cmd += ["--no-standard-checks", "--unwinding-assertions"]
        cmd += ["--malloc-may-fail", "--malloc-fail-null"] if h.malloc_fail else ["--no-malloc-may-fail"]
        k = 1
        if unwind > h.unwind:
            k = (unwind + h.unwind - 1)//h.unwind
        us = ["%s:%d" % (n, b*k) for n, b in h.unwindset]
        if us:
            cmd += ["--unwindset", ",".join(us)]
        cmd += list(h.flags)
        self.cmd = cmd
        if os.environ.get("VP_CMDONLY"):
            with open(os.path.join(self.w, "cmd.sh"), "w") as f:
                f.write(" ".join(c for c in cmd if c not in ("--json-ui", "--trace")) + ' "$@"\n')
            raise Inconclusive("command only")
        t0 = time.time()
        # a portfolio of two SAT back ends on the same formula: the first answer counts
        solvers = {"minisat": [], "cadical": ["--sat-solver", "cadical"]}
        if h.solver:
            solvers = {h.solver: solvers[h.solver]}
        procs = {}
        def lim():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_AS, (MEMLIMIT_GB << 30, MEMLIMIT_GB << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        for name, opt in solvers.items():
            fn = os.path.join(self.w, "cbmc_%s.json" % name)
            with open(fn, "w") as f:
                procs[name] = (subprocess.Popen(cmd + opt, stdout=f, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, preexec_fn=lim), fn)
        def usable(name):
            p, fn = procs[name]
            return p.returncode in (0, 10)
        done, rc, outf = None, -999, None
        try:
            while time.time() - t0 < timeout:
                alive = False
                for name, (p, fn) in procs.items():
                    if p.poll() is None:
                        alive = True
                    elif usable(name):
                        done = name
                        break
                    else:
                        rc, outf = p.returncode, fn
                if done or not alive:
                    break
                time.sleep(0.1)
        finally:
            for name, (p, fn) in procs.items():
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
        if done:
            rc, outf = procs[done][0].returncode, procs[done][1]
            self.info["solver"] = done
        self.wall = time.time() - t0
        if outf is None:
            raise Inconclusive("cbmc timeout after %ds (%s)" % (timeout, h.name))
        try:
            js = json.load(open(outf, errors="replace"))
        except Exception as e:
            tail = open(outf, errors="replace").read()[-600:]
            raise Inconclusive("cbmc output of %s not readable (rc %d): %s" % (h.name, rc, tail))
        return js

    def parse(self, js):
        res = None
        msgs = []
        for e in js:
            if "messageText" in e:
                msgs.append(e["messageText"])
            if "result" in e:
                res = e["result"]
        st = {}
        for m in msgs:
            for rx, key in ((r"size of program expression: (\d+) steps", "steps"),
                            (r"simple slicing removed (\d+) assignments", "sliced"),
                            (r"Generated (\d+) VCC\(s\), (\d+) remaining", "vccs"),
                            (r"(\d+) variables, (\d+) clauses", "cnf"),
                            (r"Runtime Solver: ([\d.e+-]+)s", "solver_s"),
                            (r"Runtime decision procedure: ([\d.e+-]+)s", "dp_s"),
                            (r"Runtime Symex: ([\d.e+-]+)s", "symex_s")):
                x = re.search(rx, m)
                if x:
                    if key == "vccs":
                        st["vccs"], st["vccs_remaining"] = int(x.group(1)), int(x.group(2))
                    elif key == "cnf":
                        st["variables"], st["clauses"] = int(x.group(1)), int(x.group(2))
                        
                    elif key in ("solver_s",):
                        st[key] = round(st.get(key, 0) + float(x.group(1)), 4)
                        st["sat_calls"] = st.get("sat_calls", 0) + 1
                    elif key in ("dp_s", "symex_s"):
                        st[key] = round(float(x.group(1)), 4)
                    else:
                        st[key] = int(x.group(1))
        nobody = sorted(set(x for m in msgs for x in re.findall(r"no body for function (\S+)", m)))
        if res is None:
            errs = [m for m in msgs if "rror" in m or "emory" in m]
            raise Inconclusive("cbmc gave no result for %s: %s" % (self.h.name, " | ".join((errs or msgs)[-3:])[:600]))
        return res, st, [n for n in nobody if not n.startswith("nondet_")]

    @staticmethod
    def values(trace):
        v = []
        for s in trace or []:
            if s.get("stepType") == "assignment" and s.get("lhs") == "vp_nd_last" and \
               s.get("sourceLocation", {}).get("function") == "vp_nd_u64":
                b = s["value"].get("binary")
                v.append(int(b, 2) if b else int(s["value"].get("data", "0").rstrip("ul")))
        return v

    # ------------------------------------------------------------ native
    def native_build(self):
        if hasattr(self, "exe"):
            return self.exe
        h = self.h
        stubs = set()
        texts = [open(s).read() for s in self.own_sources()]
        for s in list(texts):
            for inc in re.findall(r'#include "([\w./]+)"', s):
                for d in (HERE, os.path.join(HERE, "h")):
                    p = os.path.join(d, inc)
                    if os.path.exists(p) and inc not in ("vp.h",):
                        texts.append(open(p).read())
        for t in texts:
            stubs |= set(re.findall(r"VP_STUB\((\w+)\)", t))
        mapf = os.path.join(self.w, "redef")
        with open(mapf, "w") as f:
            for s in sorted(stubs):
                f.write("%s vp_stub_%s\n" % (s, s))
        objs = []
        base = ["gcc", "-std=gnu17", "-O0", "-g", "-w", "-fno-builtin", "-fno-pie", "-ffunction-sections", "-fdata-sections",
                "-ftrivial-auto-var-init=pattern", "-fsanitize=address", "-fsanitize=bounds",
                "-fno-omit-frame-pointer", "-DVP_NATIVE", "-DVP_ENTRY=" + h.entry] + self.incs() + self.cdefs()
        def comp(src, o):
            rc, out = sh(base + ["-c", "-o", o, src], timeout=120)
            if rc != 0:
                raise Inconclusive("native compile of %s failed: %s" % (src, out[-1500:]))
        for i, s in enumerate(self.own_sources()):
            o = os.path.join(self.w, "n_own%d.o" % i)
            comp(s, o)
            objs.append(o)
        for rel in self.repo_files:
            o = os.path.join(self.w, "n_" + rel.replace("/", "_") + ".o")
            comp(self.source(rel), o)
            rc, out = sh(["objcopy", "--weaken", "--redefine-syms=" + mapf, o], timeout=60)
            for pre in ("__isoc99_", "__isoc23_"):
                al = [x for x in stubs if x in ("sscanf", "fscanf", "strtol", "strtoul", "strtoll", "strtoull", "strtoimax", "strtoumax")]
                if rc == 0 and al:
                    rc, out = sh(["objcopy"] + [y for x in al for y in ("--redefine-sym", "%s%s=vp_stub_%s" % (pre, x, x))] + [o], timeout=60)
            if rc != 0:
                raise Inconclusive("objcopy: " + out)
            objs.append(o)
        exe = os.path.join(self.w, "native")
        # harness objects call real-code functions and may call the stubs by VP_STUB only
        rc, out = sh(["gcc", "-no-pie", "-fsanitize=address", "-fsanitize=bounds", "-Wl,--gc-sections", "-Wl,-z,muldefs",
                      "-Wl,--unresolved-symbols=ignore-all", "-o", exe] + objs +
                     list(h.ldlibs) + ["-lpthread", "-lm"], timeout=120)
        if rc != 0:
            raise Inconclusive("native link failed: " + out[-1500:])
        self.exe = exe
        return exe

    def native_run(self, values, fill="0xbe", timeout=15):
        exe = self.native_build()
        fn = os.path.join(self.w, "values.%d" % (abs(hash((tuple(values), fill))) % 10**9))
        with open(fn, "w") as f:
            f.write("\n".join("%x" % v for v in values) + "\n")
        env = {"PATH": "/usr/bin:/bin", "VP_VALUES": fn, "TZ": "UTC", "LC_ALL": "C",
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
               "max_malloc_fill_size=1000000:malloc_fill_byte=%d:handle_abort=0:"
               "detect_stack_use_after_return=0:allocator_may_return_null=1:disable_coredump=1" % int(fill, 16),
               "UBSAN_OPTIONS": "halt_on_error=1:exitcode=98"}
        scratch = os.path.join(self.w, "cwd")
        os.makedirs(scratch, exist_ok=True)
        rc, out = sh([exe], cwd=scratch, timeout=timeout, env=env)
        return rc, out

    def replay(self, values, kind):
        """-> (reproduced, text)"""
        last = ""
        for fill in ("0xbe", "0x00", "0xff"):
            rc, out = self.native_run(values, fill)
            last = "exit %d: %s" % (rc, out[-600:].strip())
            if rc == -999:
                if kind == "hang":
                    return True, "does not terminate within 15 s"
                continue
            if rc == 101:
                return True, last
            if rc in (98, 99) or rc in (-6, -11, -8, -7, -4, 134, 139):
                return True, last
        return False, last

    # ------------------------------------------------------------- decide
    def decide(self, budget):
        h = self.h
        t0 = time.time()
        self.encode()
        unwind = h.unwind
        maxunwind = h.maxunwind or max(2*h.unwind, h.unwind + 4)
        while True:
            left = budget - (time.time() - t0)
            if left < 5:
                raise Inconclusive("time budget of %s exhausted" % h.name)
            js = self.cbmc(unwind, min(h.timeout, left))
            res, st, nobody = self.parse(js)
            failed = [r for r in res if r["status"] == "FAILURE"]
            unknown = [r for r in res if r["status"] not in ("FAILURE", "SUCCESS")]
            unw = [r for r in failed if r["property"].find(".unwind.") >= 0 or "unwinding assertion" in r.get("description", "") or "recursion" in r["property"]]
            real = [r for r in failed if r not in unw and not r["description"].startswith("REACH:")]
            if unw and not real and unwind < maxunwind:
                unwind = maxunwind
                continue
            break
        # one entry per place: CBMC reports the same assertion once per inlined copy
        reach = {}
        for r in res:
            if r["description"].startswith("REACH:"):
                reach.setdefault(r["description"][6:], []).append(r)
        self.info.update(st)
        self.info["unwind"] = unwind
        self.info["cbmc_wall_s"] = round(self.wall, 2)
        self.info["assertions"] = len(res) - sum(len(x) for x in reach.values())
        self.info["reach_points"] = len(reach)
        if nobody:
            self.info["functions_without_body"] = nobody
        viol = []
        notes = []
        for r in real:
            vals = self.values(r.get("trace"))
            ok, txt = self.replay(vals, "assert")
            viol.append({"harness": h.name, "assertion": r["description"], "property": r["property"],
                         "at": "%s:%s" % (os.path.basename(r.get("sourceLocation", {}).get("file", "?")), r.get("sourceLocation", {}).get("line", "?")),
                         "function": r.get("sourceLocation", {}).get("function", "?"),
                         "values": ["%x" % v for v in vals], "reproduced": ok, "native": txt})
        if unw and not real:
            # the loop may really not terminate
            r = unw[0]
            vals = self.values(r.get("trace"))
            ok, txt = self.replay(vals, "hang")
            if ok:
                viol.append({"harness": h.name, "assertion": "terminates: " + r["description"], "property": r["property"],
                             "at": "%s:%s" % (os.path.basename(r.get("sourceLocation", {}).get("file", "?")), r.get("sourceLocation", {}).get("line", "?")),
                             "function": r.get("sourceLocation", {}).get("function", "?"),
                             "values": ["%x" % v for v in vals], "reproduced": ok, "native": txt})
            else:
                raise Inconclusive("%s: the bound is too small: %s (%s)" % (h.name, r["description"], r["property"]))
        if unknown and not real:
            raise Inconclusive("%s: undecided: %s" % (h.name, unknown[0]["description"]))
        # reachability twins, validated natively
        validated = 0
        samples = []
        unreached = []
        for name, rs in sorted(reach.items()):
            hit = [r for r in rs if r["status"] == "FAILURE"]
            if not hit:
                unreached.append(name)
                continue
            if h.native and not viol:
                vals = self.values(hit[0].get("trace"))
                rc, out = self.native_run(vals)
                if ("VP-REACH:" + name) in out.split("\n") or any(l == "VP-REACH:" + name for l in out.splitlines()):
                    validated += 1
                    if len(samples) < 2:
                        samples.append({"harness": h.name, "reach": name,
                                        "draws": ["%x" % v for v in vals[:40]]})
                else:
                    notes.append("witness of %s does not reproduce: %s" % (name, ("exit %d: " % rc) + out[-200:] + " draws " + " ".join("%x" % v for v in vals[:60])))
        self.info["witnesses_replayed"] = validated
        self.info["samples"] = samples
        self.info["notes"] = notes
        self.info["unreached"] = unreached
        self.info["wall_s"] = round(time.time() - t0, 2)
        return viol

def load_known():
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)) if k.get("status") == "known"]

def matches(k, v):
    """a listed finding is identified by harness, assertion text and function"""
    return k["harness"] == v["harness"] and k["assertion"] == v["assertion"] and \
        (not k.get("function") or k["function"] == v["function"])

def main_check(prop, tier):
    import registry
    t0 = time.time()
    hs = [h.variant(tier) for h in registry.PROPS[prop]["harnesses"]
          if not (getattr(h, "note", "") == "thorough-only" and tier != "thorough")]
    budget = 820 if tier == "quick" else 3*3600
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    viols, errors, infos = [], [], []
    rep_root = os.path.join(VERIF, "replays", prop)
    shutil.rmtree(rep_root, ignore_errors=True)
    try:
        root = os.path.join(tmp, "s")
        try:
            prepare(root)
        except Inconclusive as e:
            errors.append(str(e))
            hs = []
        def job(h):
            r = Run(h, root, tmp)
            try:
                v = r.decide(budget - (time.time() - t0))
                return r, v, None
            except Inconclusive as e:
                return r, [], str(e)
        with cf.ThreadPoolExecutor(NPAR) as ex:
            for r, v, e in ex.map(job, hs):
                infos.append(r.info)
                viols += v
                if e:
                    errors.append(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    known = [k for k in load_known() if k["property"] == prop]
    new = []
    unrep = []
    for v in viols:
        ks = [k for k in known if matches(k, v)]
        if ks:
            print("KNOWN-FINDING: property=%s %s" % (prop, ks[0]["what"]))
            continue
        if v["reproduced"] or not v["assertion"].startswith("VP:"):
            new.append(v)
        else:
            unrep.append(v)
    # vacuity
    for i in infos:
        if i.get("unreached") and not viols:
            errors.append("%s: reachability twin not violated: %s" % (i["harness"], i["unreached"]))
        for n in i.get("notes", []):
            # a witness which the native code does not follow is a doubt about the model
            # only if none of the others is followed either
            if not viols and not i.get("witnesses_replayed"):
                errors.append("%s: %s" % (i["harness"], n))
    for v in unrep:
        errors.append("counterexample does not reproduce natively: %s %s %s | %s" % (v["harness"], v["assertion"], v["at"], v["native"]))
    wall = time.time() - t0
    ev = evidence(prop, tier, infos, viols, new, wall, registry)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for i in infos:
        print("%-28s %s assertions=%s vccs=%s steps=%s clauses=%s solver=%ss wall=%ss witnesses=%s/%s" %
              (i["harness"], "unwind=%s" % i.get("unwind"), i.get("assertions"), i.get("vccs_remaining"), i.get("steps"),
               i.get("clauses"), i.get("dp_s"), i.get("wall_s"), i.get("witnesses_replayed"), i.get("reach_points")))
    if new:
        os.makedirs(rep_root, exist_ok=True)
        path = os.path.join(rep_root, "replay.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "violations": new}, f, indent=1)
        for v in new[:10]:
            print("  %s: %s at %s in %s (%s; %s)" % (v["harness"], v["assertion"], v["at"], v["function"],
                  "reproduced natively" if v["reproduced"] else "memory-safety report of the solver, not confirmed by the sanitizer",
                  v["native"].splitlines()[0][:160] if v["native"] else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    print("OK property=%s tier=%s %.1fs" % (prop, tier, wall))
    return 0

def evidence(prop, tier, infos, viols, new, wall, registry):
    p = registry.PROPS[prop]
    tot = lambda k: sum(int(i.get(k) or 0) for i in infos)
    samples = [s for i in infos for s in i.get("samples", [])][:6]
    cov = {
        "states": tot("steps"),
        "transitions": max(0, tot("steps") - tot("sliced")),
        "traces_validated_against_impl": tot("witnesses_replayed"),
        "samples": samples,
        "explanation": "bounded symbolic execution of the real functions by CBMC; states = symbolic program states (SSA steps) "
                       "of the unrolled encodings, transitions = those kept after slicing; every assertion is decided by the SAT back "
                       "end over all values within the bounds, unwinding assertions included; the traces validated are the "
                       "solver's witnesses of the reachability twins, replayed on the natively compiled code",
        "assertions_decided": tot("assertions"),
        "queries_discharged": tot("vccs_remaining"),
        "sat_solver_calls": tot("sat_calls"),
        "solver_s": round(sum(float(i.get("dp_s") or 0) for i in infos), 3),
        "cnf_clauses": tot("clauses"),
        "functions_encoded": sorted(set(f for i in infos for f in i.get("functions_encoded", []))),
        "files_encoded": sorted(set(f for i in infos for f in i.get("files_encoded", []))),
        "harnesses": [{k: v for k, v in i.items() if k not in ("samples", "functions_encoded")} for i in infos],
    }
    return {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "model_checking", "coverage": cov,
            "assumptions": p.get("assumptions", []) + ["bounds and stubs as listed per harness and in DESIGN.md"],
            "wall_s": round(wall, 2), "violations": len(new)}

def main_one(names, tier):
    import registry
    tmp = tempfile.mkdtemp(prefix="vp_one_")
    keep = os.environ.get("VP_KEEP")
    try:
        root = os.path.join(tmp, "s")
        prepare(root)
        allh = {h.name: h for p in registry.PROPS.values() for h in p["harnesses"]}
        def job(n):
            r = Run(allh[n].variant(tier), root, tmp)
            try:
                return r, r.decide(36000), None
            except Inconclusive as e:
                return r, [], str(e)
        with cf.ThreadPoolExecutor(NPAR) as ex:
            for r, v, e in ex.map(job, names):
                print("==", r.h.name)
                i = r.info
                print(json.dumps({k: x for k, x in i.items() if k not in ("samples",)}, indent=1))
                print(json.dumps(i.get("samples"))[:1500])
                for x in v:
                    print("VIOL", json.dumps(x, indent=1)[:2500])
                if e:
                    print("INCONCLUSIVE", e)
    finally:
        if keep:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)

def main_replay(path):
    import registry
    d = json.load(open(path))
    allh = {h.name: h for p in registry.PROPS.values() for h in p["harnesses"]}
    tmp = tempfile.mkdtemp(prefix="vp_rep_")
    rc = 0
    try:
        root = os.path.join(tmp, "s")
        prepare(root)
        for v in d["violations"]:
            r = Run(allh[v["harness"]].variant(d["tier"]), root, tmp)
            r.encode()
            ok, txt = r.replay([int(x, 16) for x in v["values"]], "hang" if v["assertion"].startswith("terminates") else "assert")
            print(v["harness"], v["assertion"], "REPRODUCED" if ok else "not reproduced", txt)
            rc |= 1 if ok else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc

if __name__ == "__main__":
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i+1]
        del a[i:i+2]
    if a[0] == "check":
        sys.exit(main_check(a[1], tier))
    elif a[0] == "one":
        main_one(a[1:], tier)
    elif a[0] == "replay":
        sys.exit(main_replay(a[1]))
