"""Build the symbolic and the native image of a harness from /repo's working tree, run the executor, replay what it finds."""
import functools, hashlib, json, os, re, shutil, subprocess, sys, threading, time, tempfile, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
VPSE = os.path.join(BUILD, "vpse")
CLANG = "clang-18"; LINK = "llvm-link-18"
INC = [f"-I{REPO}/include", f"-I{REPO}/src/rbus", f"-I{REPO}/src/core", f"-I{REPO}/src/rtmessage", f"-I{REPO}/src/session_manager", f"-I{VERIF}/rt", f"-I{VERIF}/harness"]
DEFS = ["-D_GNU_SOURCE", "-DRBUS_ALWAYS_ON", "-DMSG_ROUNDTRIP_TIME", "-DBUILD_FOR_DESKTOP", "-D__NO_CTYPE", "-Drbus_EXPORTS"]
CF = ["-std=gnu11", "-O0", "-g", "-w", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-common", "-ffp-contract=off"]
RT = f"{VERIF}/rt"
_locks = {}; _glk = threading.Lock()
def lock_for(k):
    with _glk: return _locks.setdefault(k, threading.Lock())
def sh(cmd, timeout=600, env=None, mem_mb=None, cwd=None):
    pre = None
    if mem_mb:
        import resource
        def pre(): resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, preexec_fn=pre, cwd=cwd)
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")
class BuildError(Exception): pass
@functools.lru_cache(None)
def preprocessed(cmd, src):
    """all that a unit is made of, so that nothing built of other contents is ever used"""
    r = subprocess.run(list(cmd) + ["-E", src, "-o", "-"], capture_output=True)
    if r.returncode: raise BuildError(f"preprocess {src}: " + r.stderr.decode(errors="replace")[-3000:])
    return r.stdout
def unit_cmd(src, extra):
    isenv = src.endswith("/rt/env.c") or src.endswith("/rt/native.c") or src.endswith("/rt/libc.c")
    return tuple([CLANG] + CF + DEFS + INC + list(extra) + ([] if isenv else ["-include", f"{RT}/vp_env.h"]))
def compile_unit(src, mode, extra=()):
    """mode: bc (symbolic), asan, msan, plain -> path of the object"""
    cmd = list(unit_cmd(src, extra))
    key = hashlib.sha256(repr((src, mode, cmd)).encode() + preprocessed(tuple(cmd), src)).hexdigest()[:24]
    out = os.path.join(BUILD, "cache", f"{os.path.basename(src)}.{mode}.{key}." + ("bc" if mode == "bc" else "o"))
    with lock_for(out):
        if os.path.exists(out): return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}.tmp"
        if mode == "bc": cmd += ["-emit-llvm", "-fno-discard-value-names", "-c", src, "-o", tmp]
        else:
            if mode == "asan": cmd += ["-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
            elif mode == "msan": cmd += ["-fsanitize=memory", "-fno-omit-frame-pointer"]
            cmd += ["-c", src, "-o", tmp]
        rc, o, e = sh(cmd, 300)
        if rc != 0: raise BuildError(f"compile {src} ({mode}): {e[-3000:]}")
        os.replace(tmp, out); return out
class Image:
    """A harness together with the repository sources it exercises."""
    def __init__(self, harness, repo, rt=(), defs=(), engine_rt=(), native_libs=(), instrument=None):
        self.harness, self.repo, self.rt, self.defs = harness, tuple(repo), tuple(rt), tuple(defs); self.engine_rt, self.native_libs, self.instrument = tuple(engine_rt), tuple(native_libs), instrument
        self.id = hashlib.sha256(repr((harness, self.repo, self.rt, self.defs, self.engine_rt, self.native_libs, instrument)).encode()).hexdigest()[:12]
    def srcs(self, native):
        l = [f"{VERIF}/harness/{self.harness}"] + [f"{REPO}/src/{r}" for r in self.repo] + [f"{RT}/env.c", f"{RT}/stubs.c"] + [f"{RT}/{r}" for r in self.rt]
        return l + ([f"{RT}/native.c"] if native else [f"{RT}/libc.c"] + [f"{RT}/{r}" for r in self.engine_rt])
    def _defs(self, s): return list(self.defs) if (s.startswith(f"{VERIF}/harness") or s.startswith(REPO)) else []
    def symbolic(self):
        objs = [compile_unit(s, "bc", self._defs(s)) for s in self.srcs(False)]
        key = hashlib.sha256(" ".join(objs).encode() + repr(self.instrument).encode()).hexdigest()[:24]; out = os.path.join(BUILD, "cache", f"img.{self.harness}.{key}.bc")
        with lock_for(out):
            if not os.path.exists(out):
                tmp = out + f".{os.getpid()}.tmp"; base = [objs[i] for i in range(1, len(objs))]
                rc, o, e = sh([LINK, "-o", tmp] + base + ["--override=" + objs[0]])
                if rc: raise BuildError("llvm-link: " + e[-3000:])
                if self.instrument is not None:
                    rc, o, e = sh([VPSE, "--instrument", tmp, "-o", tmp + "2"] + sum((["--mem-fn", f] for f in self.instrument), []))
                    if rc: raise BuildError("instrument: " + e[-2000:])
                    os.replace(tmp + "2", tmp)
                os.replace(tmp, out)
        return out
    def native(self, mode="asan"):
        key = hashlib.sha256((self.id + mode).encode() + b"".join(hashlib.sha256(preprocessed(unit_cmd(s, self._defs(s)), s)).digest() for s in self.srcs(True))).hexdigest()[:24]
        out = os.path.join(BUILD, "cache", f"nat.{self.harness}.{mode}.{key}")
        with lock_for(out):
            if os.path.exists(out): return out
            san = {"asan": ["-fsanitize=address"], "msan": ["-fsanitize=memory"], "plain": []}[mode]; tmp = out + f".{os.getpid()}.tmp"
            if self.instrument is None:
                objs = [compile_unit(s, mode, self._defs(s)) for s in self.srcs(True)]
                rc, o, e = sh([CLANG, "-g", "-o", tmp] + san + objs + ["-Wl,--allow-multiple-definition", "-lpthread", "-lm"] + list(self.native_libs))
                if rc: raise BuildError("native link: " + e[-3000:])
            else: # same scheduling points as the symbolic image: instrument the sanitizer-ready bitcode, then generate code
                bcs = []
                for s in self.srcs(True):
                    o1 = tmp + "." + os.path.basename(s) + ".bc"; isenv = s.endswith("/rt/env.c") or s.endswith("/rt/native.c")
                    cmd = [CLANG] + CF + DEFS + INC + self._defs(s) + ([] if isenv else ["-include", f"{RT}/vp_env.h"]) + san + ["-ftrivial-auto-var-init=pattern", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", s, "-o", o1]
                    rc, o, e = sh(cmd, 300)
                    if rc: raise BuildError("native bc: " + e[-3000:])
                    rc, o, e = sh([VPSE, "--instrument", o1, "-o", o1 + "2.bc"] + sum((["--mem-fn", f] for f in self.instrument), []))
                    if rc: raise BuildError("instrument: " + e[-2000:])
                    rc, o, e = sh([CLANG, "-g", "-O0"] + san + ["-c", o1 + "2.bc", "-o", o1 + ".o"], 300)
                    if rc: raise BuildError("native cg: " + e[-3000:])
                    bcs.append(o1 + ".o")
                rc, o, e = sh([CLANG, "-g", "-o", tmp] + san + bcs + ["-Wl,--allow-multiple-definition", "-lpthread", "-lm"] + list(self.native_libs))
                for f in glob.glob(tmp + ".*"): os.unlink(f)
                if rc: raise BuildError("native link: " + e[-3000:])
            os.replace(tmp, out); return out
def run_native(img, inputs, params, mode="asan", want_obs=False, timeout=20):
    exe = img.native(mode)
    with tempfile.TemporaryDirectory(prefix="vprep") as d:
        with open(f"{d}/in", "w") as f: f.write("\n".join(str(i[2]) for i in inputs) + "\n")
        env = {"PATH": "/usr/bin:/bin", "VP_INPUTS": f"{d}/in", "VP_OBS": f"{d}/obs", "HOME": d,
               "ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=170:max_malloc_fill_size=8388608:max_allocation_size_mb=8:allocator_may_return_null=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:handle_abort=0:symbolize=1:strict_string_checks=0:replace_str=1:intercept_strlen=1", "MSAN_OPTIONS": "exitcode=67:allocator_may_return_null=1:symbolize=1", "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18"}
        for k, v in params.items(): env[f"VP_P_{k}"] = str(v)
        rc, o, e = sh([exe], timeout, env, cwd=d)
        obs = []
        if want_obs and os.path.exists(f"{d}/obs"): obs = [int(x) for x in open(f"{d}/obs").read().split()]
        return rc, o, e, obs
def confirm(img, err, params):
    """Replay a counterexample on the real code. Returns (confirmed, description)."""
    kind = err["kind"]; modes = ["msan"] if kind == "uninit" else ["asan"]
    for m in modes:
        rc, o, e, _ = run_native(img, err["inputs"], params, m)
        tail = e[-1500:]
        if "VPMISMATCH" in e: return False, "replay left the recorded path: " + tail
        if kind == "check":
            mm = re.search(r"VPFAIL check (.*)", e)
            if mm and mm.group(1).strip() == err["label"].strip(): return True, "check failed natively: " + mm.group(1)
            if "AddressSanitizer" in e: return True, "native run stopped with a memory error before the check: " + tail
            if rc == -6: return True, "native run aborted before the check: " + tail
        elif kind == "memory":
            if "AddressSanitizer" in e: return True, re.search(r"ERROR: AddressSanitizer: [^\n]*", e).group(0)
            if rc in (-11, -6): return True, f"native run died with signal {-rc}"
            mm = re.search(r"VPFAIL check (.*)", e)
            if mm: return True, "check failed natively: " + mm.group(1)
        elif kind in ("assert", "abort"):
            if rc == -6: return True, "native run aborted: " + tail[-300:]
            if "AddressSanitizer" in e: return True, tail
        elif kind == "hang":
            if rc == -999: return True, "native run does not terminate"
        elif kind == "recursion":
            if "stack-overflow" in e or rc == -11: return True, "native stack overflow"
        elif kind == "arith":
            if rc == -8 or "FPE" in e: return True, "native SIGFPE"
        elif kind == "exit": return True, f"process exit, native status {rc}"
        elif kind == "uninit":
            if "MemorySanitizer" in e: return True, re.search(r"WARNING: MemorySanitizer: [^\n]*", e).group(0)
    return False, f"not reproduced (rc={rc}): {tail[-600:]}"
class Job:
    def __init__(self, name, img, params=None, budget=200, mem=5000, tier="quick", expect_finding=None, maxsteps=40000000, samples=12, concmax=600, bounds="", qtimeout=20000):
        self.name, self.img, self.params, self.budget, self.mem, self.tier, self.expect_finding, self.maxsteps, self.samples, self.concmax, self.bounds, self.qtimeout = name, img, params or {}, budget, mem, tier, expect_finding, maxsteps, samples, concmax, bounds, qtimeout
def run_job(job):
    t0 = time.time(); r = {"job": job.name, "bounds": job.bounds, "params": job.params, "confirmed": [], "unconfirmed": [], "incomplete": [], "validated": 0, "mismatch": []}
    try: bc = job.img.symbolic()
    except BuildError as e: r["incomplete"].append("build: " + str(e)); r["wall"] = time.time() - t0; return r
    out = os.path.join(BUILD, "cache", f"out.{os.getpid()}.{job.name}.json")
    cmd = [VPSE, bc, "--out", out, "--budget", str(job.budget), "--maxsteps", str(job.maxsteps), "--repo", REPO + "/", "--samples", str(job.samples * 3), "--mem", str(job.mem), "--concmax", str(job.concmax), "--qtimeout", str(job.qtimeout)]
    for k, v in job.params.items(): cmd += ["--param", f"{k}={v}"]
    rc, o, e = sh(cmd, job.budget + 120)
    if rc != 0 or not os.path.exists(out): r["incomplete"].append(f"executor failed rc={rc}: {e[-800:]}"); r["wall"] = time.time() - t0; return r
    d = json.load(open(out)); os.unlink(out); r["engine"] = {k: d[k] for k in ("paths", "pruned", "forks", "steps", "errors", "wall", "queries", "z3calls", "cachehits", "sat", "unsat", "unknown", "solver_time", "states")}
    r["incomplete"] += d["incomplete"]; r["checks"], r["reach"], r["functions"] = d["checks"], d["reach"], d["functions"]
    try:
        for err in d["errs"][:12]:
            ok, why = confirm(job.img, err, job.params); err["replay"] = why; (r["confirmed"] if ok else r["unconfirmed"]).append(err)
        # cross-check the encoding against the real code on a sample of the completed paths
        for s in d["samples"][:job.samples]:
            rc, o, e, obs = run_native(job.img, s["inputs"], job.params, "asan", True)
            if rc != 0 or obs != s["obs"]: r["mismatch"].append({"inputs": s["inputs"], "want": s["obs"], "got": obs, "rc": rc, "err": e[-500:]})
            else: r["validated"] += 1
        r["sample"] = [{"inputs": s["inputs"][:40], "observed": s["obs"][:20], "steps": s["steps"]} for s in d["samples"][:2]]
    except BuildError as ex: r["incomplete"].append("native build: " + str(ex))
    if "error limit" in r["incomplete"] and (r["confirmed"]): pass
    r["wall"] = time.time() - t0; return r
