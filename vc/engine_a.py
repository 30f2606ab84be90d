"""Engine A: contract enforcement on the real C sources with CBMC (goto-cc / goto-instrument --dfcc / cbmc).

Everything is rebuilt from the repository's working tree on every run, in a private scratch directory.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

REPO = os.environ.get("VERIF_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(ROOT, "vc", "lib")
CFLAGS = ["-std=c11", "-I" + os.path.join(REPO, "headers"), "-I" + LIB]
CHECKS = {"pointer": "--pointer-check", "bounds": "--bounds-check", "div": "--div-by-zero-check",
          "overflow": "--signed-overflow-check", "shift": "--undefined-shift-check"}


class EngineError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                          errors="replace", **kw)


class Workspace:
    """Scratch build of the repository's sources as goto-binaries (verification) and weak native objects (replay)."""

    def __init__(self, jobs=8):
        self.dir = tempfile.mkdtemp(prefix="kefir-vc-")
        self.jobs = jobs
        self.lock = threading.Lock()
        self.objs = {}
        self.closures = {}
        self.progs = {}
        self.locks = {}
        self.native_lib = None
        self._index = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def sources(self, pats):
        out = []
        for p in pats:
            m = sorted(glob.glob(os.path.join(REPO, "source", p)))
            if not m:
                raise EngineError("no source matches %s" % p)
            out += [x for x in m if x not in out]
        return out

    def all_sources(self):
        out = []
        for d, dn, fn in os.walk(os.path.join(REPO, "source")):
            if "/source/tests" in d or "/source/main" in d:
                continue
            out += [os.path.join(d, f) for f in fn if f.endswith(".c")]
        return sorted(out)

    def index(self):
        """function name -> defining source file (plain textual index, used only to widen the set of linked files)"""
        with self.lock:
            if self._index is None:
                idx = {}
                rx = re.compile(r"^(?!static|typedef|#|\s|\})[\w\s\*]*?\b(\w+)\(", re.M)
                for s in self.all_sources():
                    txt = open(s, errors="replace").read()
                    for m in rx.finditer(txt):
                        # definition: the next of ';' or '{' after the matching ')' is '{'
                        i, depth = m.end(), 1
                        while i < len(txt) and depth:
                            depth += {"(": 1, ")": -1}.get(txt[i], 0)
                            i += 1
                        if txt[i:i + 3].strip().startswith("{"):
                            idx.setdefault(m.group(1), s)
                self._index = idx
            return self._index

    def obj(self, src, extra=()):
        key = (src,) + tuple(extra)
        with self.lock:
            lk = self.locks.setdefault(key, threading.Lock())
        with lk:
            if key in self.objs:
                return self.objs[key]
            out = os.path.join(self.dir, "o%d.gb" % len(self.locks) + re.sub(r"\W", "_", src)[-60:] + "_%d" % (abs(hash(key)) % 10**6))
            isrc, fl = src, list(extra)
            if "abstract-arith" in fl:
                import abstract_arith
                fl.remove("abstract-arith")
                isrc = out + ".c"
                try:
                    abstract_arith.rewrite(src, isrc, CFLAGS)
                except Exception as e:
                    raise EngineError("arithmetic abstraction failed on %s: %s" % (src, e))
                fl += ["-include", os.path.join(LIB, "arith.h")]
            cache = os.environ.get("VC_CACHE")  # development only: goto binaries keyed by preprocessed text
            if cache:
                e = sh(["gcc", "-E"] + CFLAGS + fl + [isrc]).stdout
                ck = os.path.join(cache, hashlib.sha1((e + src).encode()).hexdigest())
                if os.path.exists(ck):
                    self.objs[key] = ck
                    return ck
            r = sh(["goto-cc"] + CFLAGS + fl + ["-c", isrc, "-o", out])
            if cache and not r.returncode:
                os.makedirs(cache, exist_ok=True)
                shutil.copy(out, ck + ".t%d" % os.getpid())
                os.replace(ck + ".t%d" % os.getpid(), ck)
            if r.returncode:
                raise EngineError("goto-cc failed on %s\n%s" % (src, r.stdout + r.stderr))
            self.objs[key] = out
            return out

    def native(self):
        """static archive of all repository sources with every global symbol weakened (unit stubs override)"""
        with self.lock:
            if self.native_lib:
                return self.native_lib
            d = os.path.join(self.dir, "native")
            os.makedirs(d, exist_ok=True)
            srcs = self.all_sources()

            def one(s):
                o = os.path.join(d, re.sub(r"\W", "_", os.path.relpath(s, REPO)) + ".o")
                r = sh(["gcc", "-std=c11", "-O1", "-g", "-fPIC", "-fno-inline", "-fno-ipa-cp", "-fno-ipa-sra",
                        "-fsemantic-interposition", "-D_POSIX_C_SOURCE=200809L",
                        "-I" + os.path.join(REPO, "headers"), "-c", s, "-o", o])
                if r.returncode:
                    return None, s + "\n" + r.stderr
                sh(["objcopy", "--weaken", o])
                return o, None
            with cf.ThreadPoolExecutor(self.jobs) as ex:
                rs = list(ex.map(one, srcs))
            objs = [o for o, _ in rs if o]
            lib = os.path.join(self.dir, "libnative.a")
            sh(["ar", "rcs", lib] + objs)
            self.native_lib = lib
            return lib


class Case:
    def __init__(self, unit, name, defs):
        self.unit, self.name, self.defs = unit, name, defs


def cbmc_json(out):
    try:
        return json.loads(out)
    except Exception:
        i = out.rfind("\n]")
        try:
            return json.loads(out[:i + 2])
        except Exception:
            return None


def entry_name(unit, case):
    return "vc_entry_" + re.sub(r"\W", "_", case["name"]) if "params" in unit else "harness"


def unit_text(ws, prop, unit, wd):
    """path of the unit's C text; a parameterised unit gets one entry function per case"""
    hfile = os.path.join(ROOT, "proofs", unit.get("dir", prop), unit["file"])
    if "params" not in unit:
        return hfile
    gen = os.path.join(wd, "unit.c")
    with open(gen, "w") as o:
        o.write('#include "vc.h"\n')
        for v in unit["params"]:
            o.write("static int %s;\n" % v)
        o.write('#include "%s"\n' % hfile)
        for c in unit["cases"]:
            o.write("void %s(void) {" % entry_name(unit, c))
            for v in unit["params"]:
                o.write(" %s = %s;" % (v, c["params"][v]))
            o.write(" harness(); }\n")
        o.write("void vc_entry_all_cases(void) {")
        for c in unit["cases"]:
            o.write(" %s();" % entry_name(unit, c))
        o.write(" }\n")
    return gen


def build_case(ws, prop, unit, case, wd, lap):
    """link the unit against the real sources; -> goto binary"""
    clk = None
    try:
        hfile = unit_text(ws, prop, unit, wd)
        defs = ["-D" + d for d in unit.get("defs", []) + case.get("defs", [])]
        dfcc = unit.get("mode", "direct") == "dfcc"
        if dfcc:
            defs.append("-DVC_DFCC")
        hobj = os.path.join(wd, "h.gb")
        r = sh(["goto-cc"] + CFLAGS + defs + ["-c", hfile, "-o", hobj])
        if r.returncode:
            raise EngineError("goto-cc failed on unit %s\n%s" % (unit["file"], r.stdout + r.stderr))
        entry = "vc_entry_all_cases" if "params" in unit else "harness"
        with ws.lock:
            clk = ws.locks.setdefault("closure " + unit["name"], threading.Lock())
        clk.acquire()
        srcs = list(ws.closures.get(unit["name"], []))
        if srcs:
            clk.release()
            clk = None
        srcs = srcs or ws.sources(unit["srcs"])
        abstr = ws.sources(unit.get("abstract_arith", []))
        stubs = list(unit.get("stubs", []))
        for rnd in range(10):
            objs = []
            with cf.ThreadPoolExecutor(8) as ex:
                pre = list(ex.map(lambda s: ws.obj(s, ("abstract-arith",) if s in abstr else ()), srcs))
            for s, o in zip(srcs, pre):
                here = [f for f in stubs if ws.index().get(f) == s]
                if here:
                    o2 = os.path.join(wd, os.path.basename(o) + ".cut")
                    cmd = ["goto-instrument"]
                    for f in here:
                        cmd += ["--remove-function-body", f]
                    rr = sh(cmd + [o, o2])
                    if rr.returncode:
                        raise EngineError("remove-function-body failed\n" + rr.stderr)
                    o = o2
                objs.append(o)
            a = os.path.join(wd, "a.gb")
            r = sh(["goto-cc", "--function", entry, hobj] + objs + ["-o", a])
            if r.returncode:
                raise EngineError("link failed\n" + r.stdout + r.stderr)
            r = sh(["goto-instrument", "--drop-unused-functions", "--add-library", a, a + "1"])
            cur = a + "1" if r.returncode == 0 else a
            r = sh(["goto-instrument", "--list-undefined-functions", cur])
            und = [l.strip() for l in r.stdout.splitlines() if re.match(r"^[A-Za-z_]\w*$", l.strip())]
            und = [u for u in und if not u.startswith(("__CPROVER", "nondet_", "__builtin", "contract::"))]
            und = [u for u in und if u not in unit.get("havoc", [])]
            if len(und) > 3:  # only what the remaining function bodies mention
                t = set(re.findall(r"[A-Za-z_]\w*", sh(["goto-instrument", "--show-goto-functions", cur]).stdout))
                und = [u for u in und if u in t]
            add = [ws.index()[u] for u in und if u in ws.index() and u not in unit.get("cut", [])
                   and ws.index()[u] not in srcs] if unit.get("closure", True) else []
            if os.environ.get("VC_SHOW"):
                print("round", rnd, len(srcs), sorted({os.path.relpath(x, REPO) for x in add}), flush=True)
            if add:
                srcs += sorted(set(add))
                continue
            break
        if clk:
            ws.closures[unit["name"]] = list(srcs)
            clk.release()
            clk = None
        lap("link rounds %d, %d srcs" % (rnd + 1, len(srcs)))
        if und:
            rx = "(" + "|".join(und) + ")"
            r = sh(["goto-instrument", "--generate-function-body", rx, "--generate-function-body-options", "assert-false",
                    cur, a + "2"])
            if r.returncode:
                raise EngineError("generate-function-body failed\n" + r.stderr)
            cur = a + "2"
        if dfcc:
            cmd = ["goto-instrument", "--dfcc", "harness"]
            for f in unit["enforce"]:
                cmd += ["--enforce-contract", f]
            for f in unit.get("replace", []):
                cmd += ["--replace-call-with-contract", f]
            if unit.get("loop_contracts"):
                cmd += ["--apply-loop-contracts"]
            r = sh(cmd + [cur, a + "3"])
            if r.returncode:
                raise EngineError("dfcc failed\n" + r.stdout[-2000:] + r.stderr[-2000:])
            cur = a + "3"
        return cur
    finally:
        if clk:
            clk.release()


def run_case(ws, prop, unit, case, timeout):
    """-> dict(status=ok|fail|error, ...)"""
    t0 = time.time()
    name = "%s/%s/%s" % (prop, unit["name"], case["name"])
    wd = tempfile.mkdtemp(prefix="case-", dir=ws.dir)
    res = {"name": name, "unit": unit["name"], "case": case["name"], "functions": unit.get("enforce", [])}
    T = [time.time()]
    def lap(n):
        if os.environ.get("VC_PROF"):
            print("   prof", name, n, round(time.time() - T[0], 2), flush=True)
        T[0] = time.time()
    cur = None
    try:
        if "params" in unit:
            with ws.lock:
                lk = ws.locks.setdefault("prog " + unit["name"], threading.Lock())
            with lk:
                if unit["name"] not in ws.progs:
                    pd = tempfile.mkdtemp(prefix="unit-", dir=ws.dir)
                    try:
                        ws.progs[unit["name"]] = build_case(ws, prop, unit, case, pd, lap)
                    except EngineError as e:
                        ws.progs[unit["name"]] = e
            cur = ws.progs[unit["name"]]
            if isinstance(cur, EngineError):
                raise cur
        else:
            cur = build_case(ws, prop, unit, case, wd, lap)
        cmd = ["cbmc", cur, "--verbosity", "8", "--no-standard-checks", "--unwinding-assertions", "--drop-unused-functions"]
        if "params" in unit:
            cmd += ["--function", entry_name(unit, case)]
        for c in unit.get("checks", []):
            cmd.append(CHECKS[c])
        if "unwind" in unit:
            cmd += ["--unwind", str(case.get("unwind", unit["unwind"]))]
        for u in unit.get("unwindset", []) + case.get("unwindset", []):
            cmd += ["--unwindset", u]
        cmd += unit.get("cbmc", []) + case.get("cbmc", [])
        cmd += ["--object-bits", str(unit.get("object_bits", 14))]
        res["cmd"] = " ".join(cmd).replace(cur, "<unit>.gb").replace(wd, "")
        env = dict(os.environ)
        try:
            r = sh(["bash", "-c", "ulimit -v %d; exec \"$@\"" % unit.get("mem_kb", 14000000), "x"] + cmd, timeout=timeout, env=env)
        except subprocess.TimeoutExpired:
            raise EngineError("cbmc timed out after %ds" % timeout)
        lap("cbmc")
        props, msgs, solver, fun = [], [], 0.0, ""
        for line in r.stdout.splitlines():
            m = re.match(r"^\[(\S+)\] (?:file \S+ )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", line)
            if m:
                props.append({"property": m.group(1), "description": m.group(3), "status": m.group(4),
                              "sourceLocation": {"line": m.group(2), "function": fun}})
                continue
            m = re.match(r"^(\S+) function (\S+)$", line)
            if m:
                fun = m.group(1) + ":" + m.group(2)
            m = re.match(r"^Runtime (?:Symex|Convert SSA|decision procedure): ([\d.]+)s", line)
            if m:
                solver += float(m.group(1))
            msgs.append(line)
        if not re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)", r.stdout, re.M) or not props:
            raise EngineError("cbmc gave no results (rc %d): %s" % (r.returncode, " | ".join((msgs + r.stderr.splitlines())[-6:])))
        nobody = [m for m in msgs if "no body for" in m]
        nobody = [m for m in nobody if not any(h in m for h in unit.get("havoc", []))]
        if nobody:
            raise EngineError("call to a function without body: " + nobody[0])
        ign = [re.compile(x) for x in unit.get("ignore", [])]
        obl = fails = 0
        reach_ok = reach_bad = 0
        failing, unw, harness_limit = [], [], []
        for p in props:
            d, pid, st = p.get("description", ""), p.get("property", ""), p["status"]
            if d.startswith("VCREACH"):
                if st == "FAILURE":
                    reach_ok += 1
                else:
                    reach_bad += 1
                    res.setdefault("vacuous", []).append(d)
                continue
            if "undefined function should be unreachable" in d:
                if st != "SUCCESS":
                    harness_limit.append(pid)
                continue
            if any(x.search(d) for x in ign):
                continue
            obl += 1
            if st == "SUCCESS":
                continue
            if st != "FAILURE":
                raise EngineError("obligation %s undecided: %s" % (pid, st))
            if ".unwind" in pid or ".recursion" in pid or "unwinding assertion" in d or "recursion unwinding" in d:
                unw.append(p)
            else:
                failing.append(p)
        res.update(obligations=obl, discharged=obl - len(failing) - len(unw), solver_s=solver,
                   wall_s=round(time.time() - t0, 2), reach=reach_ok)
        if failing or unw:
            # second run for the counterexample traces of the failing obligations only
            failing.sort(key=lambda p: 0 if p.get("description", "").startswith(("VC ", "Check ensures")) else 1)
            res["status"] = "fail"
            pick = (failing + unw)[:4]
            try:
                tcmd = [x for x in cmd if x not in ("--verbosity", "8")] + ["--json-ui", "--trace"]
                for p in pick:
                    tcmd += ["--property", p["property"]]
                r2 = sh(["bash", "-c", "ulimit -v %d; exec \"$@\"" % unit.get("mem_kb", 14000000), "x"] + tcmd, timeout=timeout)
                for e in cbmc_json(r2.stdout) or []:
                    for q in e.get("result", []):
                        for p in pick:
                            if p["property"] == q["property"] and q.get("trace"):
                                p["trace"] = q["trace"]
            except subprocess.TimeoutExpired:
                pass
            res["failing"] = [{"property": p["property"], "description": p["description"],
                               "where": p.get("sourceLocation", {}),
                               "inputs": trace_inputs(p)} for p in (failing + unw)[:12]]
            res["only_unwind"] = not failing
            res["harness_limit"] = harness_limit
            return res
        if harness_limit:
            raise EngineError("verified code reaches functions outside the unit: %s" % ", ".join(harness_limit[:5]))
        if reach_bad or not reach_ok:
            raise EngineError("vacuity guard: %s" % (res.get("vacuous") or "no reachability witness"))
        if obl == 0:
            raise EngineError("no obligations generated")
        res["status"] = "ok"
        return res
    except EngineError as e:
        res.update(status="error", error=str(e), wall_s=round(time.time() - t0, 2))
        return res
    finally:
        if os.environ.get("VC_KEEP"):
            try: shutil.copy(cur, os.environ["VC_KEEP"])
            except Exception: pass
        shutil.rmtree(wd, ignore_errors=True)


def trace_inputs(p):
    vals = []
    for s in p.get("trace", []):
        if s.get("stepType") == "input" and s.get("inputID") == "vcnd":
            v = s["values"][0] if s.get("values") else {}
            b = v.get("binary")
            vals.append(int(b, 2) if b else 0)
    return vals


def native_exe(ws, prop, unit, case):
    """compile the same unit natively against the real sources"""
    lib = ws.native()
    wd = tempfile.mkdtemp(prefix="nat-", dir=ws.dir)
    hfile = unit_text(ws, prop, unit, wd)
    defs = ["-D" + d for d in unit.get("defs", []) + case.get("defs", [])]
    if "params" in unit:
        defs.append("-DVC_ENTRY=" + entry_name(unit, case))
    exe = os.path.join(wd, "replay")
    r = sh(["gcc", "-std=gnu11", "-w", "-g", "-O1", "-DVC_NATIVE"] + defs +
           ["-I" + os.path.join(REPO, "headers"), "-I" + LIB, hfile, "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-lm", "-o", exe])
    if r.returncode:
        raise EngineError("native build failed: " + r.stderr[-1500:])
    return exe, wd


def replay(ws, prop, unit, case, inputs, timeout=30):
    """run the unit natively on the counterexample"""
    exe, wd = native_exe(ws, prop, unit, case)
    inp = os.path.join(wd, "in")
    open(inp, "w").write("".join("%x\n" % (v & (2**64 - 1)) for v in inputs))
    try:
        r = sh([exe, inp], timeout=timeout, cwd=wd)
    except subprocess.TimeoutExpired:
        return True, "native replay does not terminate within %ds" % timeout
    out = "exit %d\n%s%s" % (r.returncode, r.stdout[-1500:], r.stderr[-500:])
    return (r.returncode == 1 and "VC-FAILED" in r.stdout) or r.returncode < 0, out


def native_search(ws, prop, unit, case, runs=300, timeout=60):
    """run the unit natively on pseudo-random boundary-heavy inputs, looking for a failing input"""
    exe, wd = native_exe(ws, prop, unit, case)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        r = sh([exe, "--search", str(seed), str(runs)], timeout=timeout, cwd=wd)
    except subprocess.TimeoutExpired:
        return False, "native search timed out"
    return "VC-FAILED" in r.stdout or "VC-CRASH" in r.stdout, "native search, seed %d, %d runs\n%s" % (seed, runs, r.stdout[-1500:])
