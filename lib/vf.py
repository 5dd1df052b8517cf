"""Framework shared by every check: build, TLC, scenario replay, trace validation, evidence."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
REPLAY = os.path.join(VERIF, "replays")
TLAJARS = ":".join(["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"])
CXX = "/usr/bin/g++"
CC = "/usr/bin/gcc"
# The same instruction-set and language flags as /repo/CMakeLists.txt's Release build.
BASE = ["-std=c++17", "-w", "-fPIC", "-march=native", "-mbmi", "-mavx2", "-D_GLIBCXX_USE_CXX11_ABI=1"]
NCPU = os.cpu_count() or 4


class HarnessError(Exception):
    """The check itself could not run (exit 2): never a verdict about /repo."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def read(path, mode="rb"):
    with open(path, mode) as f:
        return f.read()


def _write_atomic(path, data):
    tmp = path + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    with open(tmp, "wb") as f:
        f.write(data)
    os.replace(tmp, path)


# ------------------------------------------------------------------------------------------- build

def _headers_hash():
    parts = []
    for d in ("source", "anytime", "tools"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith((".h", ".hpp", ".inc")):
                parts += [f, read(os.path.join(REPO, d, f))]
    return sha(*parts)


_generating = threading.Lock()


def generated_sources(log=None):
    """ascii.cpp and unicode.cpp are produced by /repo/tools generators from /repo/external/Unicode."""
    udir = os.path.join(REPO, "external", "Unicode")
    data = []
    for root, _, files in sorted(os.walk(udir)):
        for f in sorted(files):
            data += [f, read(os.path.join(root, f))]
    tools = [os.path.join(REPO, "tools", n) for n in ("ascii_database_to_c.cpp", "unicode_database_to_c.cpp")]
    key = sha(_headers_hash(), *(data + [read(t) for t in tools] + [read(os.path.join(REPO, "source", f)) for f in ("asserts.cpp", "file.cpp", "bitstring.cpp")]))[:24]
    out = os.path.join(BUILD, "gen-" + key)
    done = os.path.join(out, "done")
    with _generating:
      if not os.path.exists(done):
        os.makedirs(out, exist_ok=True)
        with cf.ThreadPoolExecutor(2) as ex:
            for f in [ex.submit(_gen_one, tools[0], out, "ascii"), ex.submit(_gen_one, tools[1], out, "unicode")]:
                f.result()
        _write_atomic(done, b"ok")
    return [os.path.join(out, "ascii.cpp"), os.path.join(out, "unicode.cpp")]


def _gen_one(tool, out, stem):
    exe = os.path.join(out, stem + "_gen")
    more = [] if stem == "ascii" else [os.path.join(REPO, "source", f) for f in ("asserts.cpp", "file.cpp", "bitstring.cpp")]
    r = subprocess.run([CXX] + BASE + ["-O1", "-I" + REPO + "/source", tool] + more + ["-o", exe], capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("cannot build %s: %s" % (tool, r.stderr[-2000:]))
    U = os.path.join(REPO, "external", "Unicode")
    if stem == "ascii":
        args = [exe]
    else:
        args = [exe] + [os.path.join(U, f) for f in UNICODE_ARGS]
    r = subprocess.run(args, capture_output=True)
    if r.returncode:
        raise HarnessError("%s failed" % exe)
    _write_atomic(os.path.join(out, stem + ".cpp"), r.stdout)


UNICODE_ARGS = ["UnicodeData.txt", "PropList.txt", "CaseFolding.txt"]


class Builder:
    def __init__(self, opt="-O1", defines=(), extra=(), link=(), instrument=None, flag=None):
        """instrument, flag: compile only the files whose name satisfies the predicate with the (sanitizer) flag"""
        self.instrument, self.flag = instrument, flag
        self.flags = BASE + [opt, "-DJASS_VERIF_MAX_DOCUMENTS=1048576"] + ["-D" + d for d in defines] + list(extra)
        self.incs = ["-I" + REPO + "/source", "-I" + REPO + "/anytime", "-I" + HARN]
        self.link = list(link)
        self.hh = _headers_hash()
        os.makedirs(BUILD, exist_ok=True)

    def _obj(self, src):
        text = read(src)
        hh = self.hh + sha(*[read(os.path.join(HARN, f)) for f in sorted(os.listdir(HARN)) if f.endswith(".h")])
        if src.startswith(HARN):        # a harness may take in a tool's main file
            hh += sha(*[read(os.path.join(REPO, "tools", f)) for f in sorted(os.listdir(os.path.join(REPO, "tools"))) if f.endswith(".cpp")])
        key = sha(src, text, hh, " ".join(self._flags(src)))[:32]
        obj = os.path.join(BUILD, key + ".o")
        return obj

    def _flags(self, src):
        return self.flags + ([self.flag] if self.flag and self.instrument(os.path.basename(src)) else [])

    def compile(self, src):
        obj = self._obj(src)
        if os.path.exists(obj):
            return obj, None
        tmp = obj + ".%d.%d.o" % (os.getpid(), threading.get_ident())
        if src.endswith(".c"):
            cmd = [CC, "-w", "-fPIC", "-O1", "-c"] + self.incs + [src, "-o", tmp]
        else:
            cmd = [CXX] + self._flags(src) + ["-c"] + self.incs + [src, "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return None, "%s\n%s" % (" ".join(cmd), r.stderr[-3000:])
        os.replace(tmp, obj)
        return obj, None

    def harness(self, src, extra=(), name=None):
        """One harness file, the /repo files recorded for it in closures.json, and any named extra files."""
        cl = json.load(open(os.path.join(VERIF, "lib", "closures.json")))
        return self.build(name or src.split(".")[0], [src] + [os.path.join(REPO, e) for e in extra] + cl.get(src, []))

    def program(self, src, extra=()):
        """One of /repo's own programs."""
        cl = json.load(open(os.path.join(VERIF, "lib", "closures.json")))
        return self.build(os.path.basename(src).split(".")[0], [os.path.join(REPO, s) for s in [src] + list(extra)] + cl.get(src, []))

    def build(self, name, sources, all_fallback=True):
        """sources: harness file(s) in /verif/harness plus names of /repo source files it needs."""
        paths = []
        gen = None
        for s in sources:
            if s in ("ascii.cpp", "unicode.cpp"):
                gen = gen or generated_sources()
                paths.append(gen[0] if s == "ascii.cpp" else gen[1])
            elif os.path.isabs(s):
                paths.append(s)
            elif os.path.exists(os.path.join(HARN, s)):
                paths.append(os.path.join(HARN, s))
            elif os.path.exists(os.path.join(REPO, s)):
                paths.append(os.path.join(REPO, s))
            elif os.path.exists(os.path.join(REPO, "source", s)):
                paths.append(os.path.join(REPO, "source", s))
            # a listed file that no longer exists: the link fallback below takes the whole library
        exe, err = self._link(name, paths)
        if exe is None and all_fallback:
            more = [os.path.join(REPO, "source", f) for f in sorted(os.listdir(os.path.join(REPO, "source"))) if f.endswith(".cpp")]
            gen = gen or generated_sources()
            have = set(paths)
            paths = paths + [p for p in more + gen if p not in have]
            exe, err = self._link(name, paths)
        if exe is None:
            raise HarnessError("build of %s failed:\n%s" % (name, err))
        return exe

    def _link(self, name, paths):
        # slowest first keeps the pool busy
        slow = ["compress_integer_qmx_jass_v1.cpp", "unicode.cpp", "compress_integer_all.cpp", "compress_integer_qmx_original.cpp"]
        order = sorted(paths, key=lambda p: (slow.index(os.path.basename(p)) if os.path.basename(p) in slow else
                                             -1 if p.startswith(HARN) else 9, -os.path.getsize(p)))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(self.compile, order))
        for obj, err in res:
            if obj is None:
                return None, err
        objs = [o for o, _ in res]
        if self.flag:           # of the inline functions the linker keeps the first it sees
            objs = [o for p, o in zip(order, objs) if self.instrument(os.path.basename(p))] + [o for p, o in zip(order, objs) if not self.instrument(os.path.basename(p))]
        key = sha(name, *objs, *self.link)[:32]
        exe = os.path.join(BUILD, name + "-" + key)
        if not os.path.exists(exe):
            tmp = exe + ".%d.%d" % (os.getpid(), threading.get_ident())
            ex = [f for f in self.flags + [self.flag or ""] if f.startswith("-fsan")]
            r = subprocess.run([CXX] + ex + objs + ["-o", tmp, "-lpthread", "-lz", "-lzstd", "-lstdc++fs"] + self.link, capture_output=True, text=True)
            if r.returncode:
                return None, r.stderr[-3000:]
            os.replace(tmp, exe)
        return exe, None


# ------------------------------------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                self.generated = int(m[-1].replace(",", ""))
        self.violated = "is violated" in out or "Deadlock reached" in out or "was violated" in out
        self.complete = "Model checking completed. No error has been found." in out


def tlc(workdir, module, cfg, args=(), env=None, timeout=300, workers=1, heap="4g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)),
           "-cp", TLAJARS, "-DTLA-Library=" + SPEC, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
           "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(args) + [os.path.join(SPEC, module)]
    if workers == 1:
        cmd[3] = "-XX:+UseSerialGC"
        cmd.pop(4)
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=workdir, errors="replace")
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = 124
    shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(rc, out)


# ------------------------------------------------------------------------------------------- a check run

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        os.makedirs(WORK, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=WORK)
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "trace_events": 0, "models": []}
        self.violations = []
        self.assumptions = []
        self.level = "model_checking"
        kf = os.path.join(VERIF, "known_findings.json")
        allk = json.load(open(kf)) if os.path.exists(kf) else []
        self.known = [k for k in allk if k.get("property") == prop and k.get("status") == "known"]

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ---- (a) exhaustive / simulated model checking of the specification
    def model(self, module, cfg, workers=None, timeout=600, sim=None, heap="4g", env=None):
        t = time.time()
        args = []
        if sim:
            args = ["-simulate", "num=%d" % sim[0], "-depth", str(sim[1]), "-seed", str(self.seed)]
        r = tlc(self.work, module, cfg, args, workers=workers or min(4, NCPU), timeout=timeout, heap=heap, env=env)
        ok = r.complete or (sim and r.rc == 0)
        if r.violated:
            # The specification itself breaks its property: a defect of this machinery, not of /repo.
            raise HarnessError("specification %s/%s violates its own property:\n%s" % (module, cfg, r.out[-4000:]))
        if not ok:
            raise HarnessError("TLC failed on %s/%s rc=%s:\n%s" % (module, cfg, r.rc, r.out[-4000:]))
        self.cov["states"] += r.distinct or r.generated
        self.cov["transitions"] += r.generated
        self.cov["models"].append({"module": module, "cfg": cfg, "distinct": r.distinct, "generated": r.generated,
                                   "exhaustive": not sim, "wall_s": round(time.time() - t, 2)})
        self.log("model %s: %d distinct, %d generated" % (cfg, r.distinct, r.generated))
        return r

    # ---- (b) behaviours generated from the specification
    def generate(self, module, cfg, num, depth, workers=1, timeout=300, env=None, limit=None, bfs=False):
        """TLC simulation (or breadth-first enumeration) of a *Gen configuration that prints @@<json>."""
        args = [] if bfs else ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
        r = tlc(self.work, module, cfg, args, workers=workers, timeout=timeout, env=env)
        if r.rc != 0:
            raise HarnessError("generation %s/%s failed:\n%s" % (module, cfg, r.out[-3000:]))
        seen, out = set(), []
        for line in r.out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                s = json.loads(line)[2:]
            elif line.startswith("@@"):
                s = line[2:]
            else:
                continue
            if s in seen:
                continue
            seen.add(s)
            out.append(json.loads(s))
            if limit and len(out) >= limit:
                break
        if not out:
            raise HarnessError("generation %s/%s produced no behaviour:\n%s" % (module, cfg, r.out[-3000:]))
        self.cov["models"].append({"module": module, "cfg": cfg, "behaviours_generated": len(out), "generated": r.generated})
        self.log("generated %d behaviours from %s" % (len(out), cfg))
        return out

    # ---- running the real code
    memory_limit = 12 << 30          # of one harness process

    def run_one(self, exe, text, timeout=60, args=(), name="scn", env=None, cwd=None):
        """Runs one scenario text through a harness; returns (events, status)."""
        d = tempfile.mkdtemp(prefix=name, dir=self.work)
        sc = os.path.join(d, "scenario.txt")
        with open(sc, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogateescape"))
        e = dict(os.environ)
        e.update(env or {})
        e["MALLOC_PERTURB_"] = e.get("MALLOC_PERTURB_", "165")
        so = open(os.path.join(d, "stdout"), "wb")
        limited = ["/bin/sh", "-c", 'ulimit -v %d; exec "$@"' % (self.memory_limit >> 10), "sh"] if self.memory_limit else []
        p = subprocess.Popen(limited + [exe, sc, os.path.join(d, "trace")] + list(args), stdout=so, stderr=subprocess.STDOUT,
                             cwd=cwd or d, env=e, start_new_session=True, stdin=subprocess.DEVNULL)
        status = "ok"
        try:
            rc = p.wait(timeout=timeout)
            if rc < 0:
                status = "crash:signal %d" % -rc
            elif rc != 0:
                status = "exit:%d" % rc
        except subprocess.TimeoutExpired:
            status = "hang"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        so.close()
        ev = []
        tr = os.path.join(d, "trace")
        if os.path.exists(tr):
            for line in read(tr).split(b"\n"):
                if line.strip():
                    try:
                        ev.append(json.loads(line.decode("utf-8", "replace")))
                    except ValueError:
                        pass
        tail = read(os.path.join(d, "stdout"))[-1500:].decode(errors="replace")
        shutil.rmtree(d, ignore_errors=True)
        return ev, status, tail

    def run_all(self, exe, scenarios, timeout=60, args=(), par=NCPU, env=None):
        """scenarios: list of texts. Returns list of (events, status, tail) in the same order."""
        with cf.ThreadPoolExecutor(par) as ex:
            return list(ex.map(lambda s: self.run_one(exe, s, timeout, args, env=env), scenarios))

    # ---- (c) is a recorded trace a behaviour of the specification?
    def accept(self, module, cfg, events, timeout=600, env=None, heap="3g"):
        """Returns (accepted, index of first event that could not be matched, TLCResult)."""
        fd, path = tempfile.mkstemp(prefix="trace", suffix=".ndjson", dir=self.work)
        with os.fdopen(fd, "w") as f:
            for ev in events:
                f.write(json.dumps(ev) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        r = tlc(self.work, module, cfg, env=e, timeout=timeout, heap=heap)
        m = re.search(r'"TRACE_DIAMETER", (\d+), (\d+)', r.out)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        os.unlink(path)
        if not m:
            infra = r.rc == 124 or "OutOfMemory" in r.out or "StackOverflow" in r.out or "Parsing or semantic" in r.out or "Error:" not in r.out
            if infra:
                why = [l[:600] for l in r.out.splitlines() if "rror" in l or "xception" in l][:12]
                raise HarnessError("trace validation %s broke rc=%s: %s\n%s" % (module, r.rc, "\n".join(why), r.out[-1500:]))
            # A value in the trace lies outside every domain the specification defines: it is no behaviour of it.
            # Find the run by halving.
            starts = [j for j, ev in enumerate(events) if ev.get("e") == "reset"]
            if len(starts) <= 1:
                self.last_eval_error = r.out[-1500:]
                k = re.findall(r"/\\ i = (\d+)|^i = (\d+)", r.out, re.M)
                at = int([x or y for x, y in k][-1]) - 1 if k else 0
                return False, min(at, len(events) - 1), r
            mid = starts[len(starts) // 2]
            ok, at, r1 = self.accept(module, cfg, events[:mid], timeout, env, heap)
            if not ok:
                return ok, at, r1
            ok, at, r1 = self.accept(module, cfg, events[mid:], timeout, env, heap)
            return ok, at + mid, r1
        diam, n = int(m.group(1)), int(m.group(2))
        return diam - 1 == n, diam - 1, r

    def validate(self, module, cfg, runs, exe=None, scenarios=None, par=NCPU, timeout=600, rerun=True, env=None,
                 args=(), run_timeout=60, what="trace", run_env=None):
        """Validates many runs. runs[i] = (events, status, tail). A rejected trace or an abnormal end of the
        real code on a valid scenario is a violation (after a confirming re-run)."""
        good, bad = [], []
        for i, (ev, st, tail) in enumerate(runs):
            (good if st == "ok" else bad).append(i)
        for i in bad:
            self._abnormal(i, runs[i], exe, scenarios, args, run_timeout, run_env, rerun)
        # split into par chunks of similar size, one JVM each
        chunks = [[] for _ in range(par)]
        sizes = [0] * par
        for i in sorted(good, key=lambda i: -len(runs[i][0])):
            k = sizes.index(min(sizes))
            chunks[k].append(i)
            sizes[k] += len(runs[i][0]) + 5
        chunks = [c for c in chunks if c]

        def work(chunk):
            rej = []
            todo = list(chunk)
            while todo:
                ev, owner = [], []
                for i in todo:
                    ev.append({"e": "reset"})
                    owner.append((i, -1))
                    for k, x in enumerate(runs[i][0]):
                        ev.append(x)
                        owner.append((i, k))
                ok, at, r = self.accept(module, cfg, ev, timeout=timeout, env=env)
                if ok:
                    break
                i, k = owner[at]
                rej.append((i, k))
                if len(rej) >= 3:
                    break
                todo = todo[todo.index(i) + 1:]
            return rej

        with cf.ThreadPoolExecutor(len(chunks) or 1) as ex:
            rejected = [x for l in ex.map(work, chunks) for x in l]
        self.cov["traces_validated_against_impl"] += len(good) - len(rejected)
        self.cov["trace_events"] += sum(len(runs[i][0]) for i in good)
        for i in good[:2]:
            if len(self.cov["samples"]) < 4 and runs[i][0]:
                self.cov["samples"].append({"scenario": (str(scenarios[i])[:600] if scenarios else what),
                                            "events": runs[i][0][:6]})
        for i, k in rejected[:5]:
            self._rejected(i, k, runs[i], module, cfg, exe, scenarios, args, run_timeout, rerun, env, run_env)
        self.log("validated %d/%d %s against %s" % (len(good) - len(rejected), len(runs), what, module))
        return rejected

    def _abnormal(self, i, run, exe, scenarios, args, run_timeout, run_env, rerun):
        ev, st, tail = run
        if exe and scenarios is not None and rerun:
            ev2, st2, tail2 = self.run_one(exe, scenarios[i], run_timeout * 2, args, env=run_env)
            if st2 == "ok" and st == "hang":
                self.log("a timeout did not reproduce; ignored:", st)
                return
        self.violation({"kind": "abnormal termination of the real code on a valid scenario", "status": st, "output": tail,
                        "last_event": ev[-1] if ev else None, "scenario": self._show(scenarios, i)})

    def _rejected(self, i, k, run, module, cfg, exe, scenarios, args, run_timeout, rerun, env, run_env):
        ev, st, tail = run
        # confirm: validate this trace alone (the trace is real evidence whether or not the run repeats)
        ok, at, r = self.accept(module, cfg, [{"e": "reset"}] + ev, env=env)
        if ok:
            self.log("rejection did not reproduce when the trace was validated alone; ignored")
            return
        repro = None
        if exe and scenarios is not None and rerun:
            ev2, st2, _ = self.run_one(exe, scenarios[i], run_timeout * 2, args, env=run_env)
            if st2 == "ok":
                ok2, _, _ = self.accept(module, cfg, [{"e": "reset"}] + ev2, env=env)
                repro = not ok2
        k = at - 1
        self.violation({"kind": "trace of the real code is not a behaviour of the specification", "spec": module,
                        "rejected_event_index": k, "rejected_event": ev[k] if 0 <= k < len(ev) else None,
                        "previous_events": ev[max(0, k - 3):max(0, k)], "reproduced_on_rerun": repro,
                        "scenario": self._show(scenarios, i)})

    @staticmethod
    def _show(scenarios, i):
        if scenarios is None:
            return None
        s = scenarios[i]
        return s if isinstance(s, str) else s.decode("utf-8", "replace")

    def violation(self, info):
        os.makedirs(os.path.join(REPLAY, self.prop), exist_ok=True)
        p = os.path.join(REPLAY, self.prop, "v%d-%d.json" % (os.getpid(), len(self.violations)))
        with open(p, "w") as f:
            json.dump(info, f, indent=1, default=str)
        self.violations.append(p)
        self.log("violation:", json.dumps({k: v for k, v in info.items() if k != "scenario"}, default=str)[:1500])

    def known_finding(self, what):
        print("KNOWN-FINDING: property=%s %s" % (self.prop, what), flush=True)

    def finish(self, crash=None):
        for s in self.cov["samples"]:       # evidence stays small: events of a kilobyte or more are shown by their start
            s["events"] = [e if len(json.dumps(e, default=str)) < 1000 else json.dumps(e, default=str)[:1000] + " ..." for e in s["events"][:12]]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0]), flush=True)
            return 1
        if crash:
            print("CHECK-ERROR property=%s\n%s" % (self.prop, crash), flush=True)
            return 2
        print("HELD property=%s %.1fs states=%d traces=%d events=%d" % (self.prop, time.time() - self.t0, self.cov["states"],
              self.cov["traces_validated_against_impl"], self.cov["trace_events"]), flush=True)
        return 0
