"""Check driver: compiles the code under contract from /repo's working tree, generates and discharges the obligations of
every contract of one property, replays counterexamples natively and writes the evidence file."""
import sys, os, re, json, pickle, time, subprocess, hashlib, shutil, random, signal, traceback
import multiprocessing as mp, multiprocessing.pool

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEFS = ["-std=gnu++20", "-DNDEBUG", "-DDUNE_ISTL_VERSION_MAJOR=2", "-DDUNE_ISTL_VERSION_MINOR=9", "-DHAS_CEREAL=1",
        "-DHAS_HDF5=1", "-DHAS_ISTL=1", "-DHAS_SUPERLU=1", "-DHAS_UMFPACK=1", "-DHAVE_NULLPTR=1", "-DPROFILE_LEVEL=3",
        "-DReal=double", "-DUSE_CBLAS=1", "-DUSE_OPENMP=1", "-DepsZ=1.0e-12", '-DISTL_VERSION="2.9.0"']
INCS = ["3rdparty", "src/ASM", "src/LinAlg", "src/SIM", "src/Utility", "src/Eig", "3rdparty/autodiff", "3rdparty/expreval",
        "src/ASM/LR", "Apps/Common", "Apps/Utils"]
SYS = ["/usr/include/superlu", "/usr/include/hdf5/serial", "/usr/include/suitesparse"]
CXX, LINK, OPT = "clang++-18", "llvm-link-18", "opt-18"
OPTP = "function(sroa,early-cse,simplifycfg,instsimplify,loop-simplify)"


class BuildError(Exception):
    pass


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd[:3] + ["..."] + cmd[-3:]), p.stderr[-3000:]))
    return p.stdout


def flags(gen, native=False):
    f = list(DEFS) + ["-I" + os.path.join(ROOT, "include"), "-I" + gen]
    f += ["-I" + os.path.join(REPO, i) for i in INCS]
    for s in SYS:
        f += ["-isystem", s]
    f += ["-fno-access-control", "-w", "-ffp-contract=off", "-fno-math-errno"]
    f += ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin-printf", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
          "-fno-threadsafe-statics", "-fsanitize=address"]
    return f


def generate(gen):
    os.makedirs(gen, exist_ok=True)
    src = os.path.join(REPO, "src/IFEM.h.in")
    with open(src) as f:
        t = f.read().replace("@IFEM_VERSION_STRING@", "0.0.0")
    with open(os.path.join(gen, "IFEM.h"), "w") as f:
        f.write(t)
    with open(os.path.join(gen, "omp.h"), "w") as f:
        f.write("#pragma once\nextern \"C\" { int omp_get_max_threads(); int omp_get_num_threads(); int omp_get_thread_num();"
                " void omp_set_num_threads(int); int omp_in_parallel(); }\n")


def compile_bc(src, out, fl, cache):
    pre = subprocess.run([CXX] + fl + ["-E", "-P", src], capture_output=True)
    if pre.returncode:
        raise BuildError(pre.stderr.decode()[-3000:])
    if cache:
        h = hashlib.sha256()
        h.update(" ".join(x for x in fl if not x.startswith("-I")).encode())
        h.update(pre.stdout)
        c = os.path.join(cache, h.hexdigest()[:32] + ".bc")
        if os.path.exists(c):
            shutil.copy(c, out)
            return
    sh([CXX] + fl + ["-emit-llvm", "-c", src, "-o", out])
    if cache:
        os.makedirs(cache, exist_ok=True)
        tmp = c + ".%d" % os.getpid()
        shutil.copy(out, tmp)
        os.replace(tmp, c)


def meta(path):
    d = {"TU": [], "TIME": 240, "NRANDOM": 400, "PATHS": 20000, "FOCUS": [], "ASSUME": [], "TITLE": "", "SRC": [], "FLAGS": [], "INCLUDE": []}
    with open(path) as f:
        for l in f:
            m = re.match(r'//\s*VC-(\w+):\s*(.*)', l)
            if m:
                k, v = m.group(1), m.group(2).strip()
                if k in ("TU", "FOCUS", "SRC", "FLAGS", "INCLUDE"):
                    d[k] += v.split()
                elif k == "ASSUME":
                    d[k].append(v)
                elif k in ("TIME", "NRANDOM", "PATHS"):
                    d[k] = int(v)
                else:
                    d[k] = v
    return d


def contract_files(prop):
    base = os.path.join(ROOT, "contracts")
    return sorted(os.path.join(base, f) for f in os.listdir(base) if re.match(prop + r'(_\w+)?\.cpp$', f))


class Build:
    """IR text and native executable of one contract file"""

    def __init__(self, cfile, work, cache=None, pool=None):
        self.cfile, self.work, self.cache = cfile, work, cache
        self.m = meta(cfile)
        os.makedirs(work, exist_ok=True)
        self.gen = os.path.join(work, "gen")
        generate(self.gen)
        self.fl = [x for x in flags(self.gen) if "-U" + x[2:].split("=")[0] not in self.m["FLAGS"]] + self.m["FLAGS"]
        self.name = os.path.basename(cfile)[:-4]

    def jobs(self):
        js = []
        for t in self.m["TU"]:
            js.append((os.path.join(REPO, t), os.path.join(self.work, re.sub(r'\W', '_', t) + ".bc"), self.fl))
        js.append((self.cfile, os.path.join(self.work, "contract.bc"), self.fl))
        for s in ("runtime", "streams"):
            js.append((os.path.join(ROOT, "support/%s.cpp" % s), os.path.join(self.work, s + "-rt.bc"),
                       [x for x in self.fl if x not in ("-fsanitize=address",)] + ["-fno-builtin"]))
        return js

    def compile(self, nproc=8):
        js = self.jobs()
        with mp.pool.ThreadPool(nproc) as p:
            res = p.map(lambda j: self._one(j), js)
        for r in res:
            if r is not None:
                raise BuildError(r)

    def _one(self, j):
        try:
            compile_bc(j[0], j[1], j[2], self.cache)
            return None
        except BuildError as e:
            return "%s: %s" % (j[0], e)

    def text(self):
        return "".join(open(f).read() for f in [self.cfile] + [os.path.join(ROOT, "contracts", i) for i in self.m["INCLUDE"]])

    def contracts(self):
        return re.findall(r'^CONTRACT\((\w+)\)', self.text(), re.M)

    def covers(self):
        return re.findall(r'vc_cover\("([^"]+)"\)', self.text())

    def link_ir(self):
        w = self.work
        bcs = [j[1] for j in self.jobs()]
        real = [b for b in bcs if not b.endswith("-rt.bc")]
        rt = [b for b in bcs if b.endswith("-rt.bc")]
        self.nat = os.path.join(w, "native.bc")
        api = ",".join(self.contracts())
        sh([LINK] + real + ["-o", self.nat + ".0"])
        sh([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=" + api, self.nat + ".0", "-o", self.nat])
        sh([LINK, self.nat + ".0"] + rt + ["-o", os.path.join(w, "ir.bc")])
        sh([OPT, "-passes=internalize,globaldce," + OPTP, "-internalize-public-api-list=" + api + ",vcs_out_text,vcs_out_char,vcs_out_int", "-S",
            os.path.join(w, "ir.bc"), "-o", os.path.join(w, "ir.ll")])
        os.unlink(self.nat + ".0")
        return os.path.join(w, "ir.ll")

    def native(self):
        w = self.work
        exe = os.path.join(w, "native")
        tab = os.path.join(w, "table.cpp")
        cs = self.contracts()
        with open(tab, "w") as f:
            f.write("struct Entry { const char* name; void (*f)(); };\n")
            for c in cs:
                f.write('extern "C" void %s();\n' % c)
            f.write("Entry vc_table[] = {%s{nullptr,nullptr}};\n" % "".join('{"%s",%s},' % (c, c) for c in cs))
        san = ["-fsanitize=address"]
        sh([CXX, "-O1", "-w"] + san + ["-c", "-ffunction-sections", "-fdata-sections", self.nat, "-o", os.path.join(w, "native.o")])
        sh([CXX, "-O1", "-w", "-std=gnu++20", "-I" + os.path.join(ROOT, "include")] + san +
           [tab, os.path.join(ROOT, "support/native.cpp"), os.path.join(w, "native.o"), "-o", exe,
            "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-llapack", "-lblas"])
        return exe


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_odr_violation=0", OPENBLAS_NUM_THREADS="1")


def run_native(args, timeout):
    try:
        p = subprocess.run(args, capture_output=True, text=True, errors="replace", timeout=timeout, env=NENV)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    return p.returncode, p.stdout + p.stderr


def blank(cname):
    return {"name": cname, "status": "ok", "obligations": 0, "discharged": 0, "paths": 0, "failures": [], "unknown": [],
            "notes": [], "funcs": {}, "covers": [], "labels": {}, "backends": {}, "solver_s": {}, "samples": [], "trusted": [],
            "unbounded": False, "wall": 0.0}


class Scheduler:
    """runs functions in forked children, at most n at a time; no threads"""

    def __init__(self, n, work, deadline):
        self.n, self.work, self.deadline = n, work, deadline
        self.queue, self.live, self.k = [], {}, 0

    def add(self, fa, tlimit, done, first=False):
        t = (fa, tlimit, done)
        self.queue.insert(0, t) if first else self.queue.append(t)

    def start(self, t):
        self.k += 1
        out = os.path.join(self.work, "res%d" % self.k)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.setpgid(0, 0)
                r = t[0][0](*t[0][1])
                with open(out + ".t", "wb") as f:
                    pickle.dump(r, f)
                os.rename(out + ".t", out)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                try:
                    sys.stdout.flush()
                    sys.stderr.flush()
                finally:
                    os._exit(rc)
        self.live[pid] = (t, out, min(time.time() + t[1], self.deadline))

    def kill(self, pid):
        for f in (os.killpg, os.kill):
            try:
                f(pid, signal.SIGKILL)
            except OSError:
                pass

    def run(self):
        try:
            while self.queue or self.live:
                while self.queue and len(self.live) < self.n and time.time() < self.deadline:
                    self.start(self.queue.pop(0))
                if not self.live:
                    break
                pid, st = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    now = time.time()
                    for p, v in self.live.items():
                        if now > v[2]:
                            self.kill(p)
                    time.sleep(0.02)
                    continue
                if pid not in self.live:
                    continue
                t, out, _ = self.live.pop(pid)
                r = None
                if os.path.exists(out):
                    with open(out, "rb") as f:
                        r = pickle.load(f)
                    os.unlink(out)
                t[2](r if r is not None else "exit status %d" % st)
        finally:
            for p in self.live:
                self.kill(p)


def nat_build(b):
    try:
        return (b.native(),)
    except BuildError as e:
        return str(e)


def nat_random(b, exe, c, seed, thorough):
    df = os.path.join(b.work, "rnd_" + c)
    n = b.m["NRANDOM"] * (10 if thorough else 1)
    rc, out = run_native([exe, "random", c, str(seed), str(n), df, "60" if thorough else "15"], 90)
    return (b.name, c), rc, out, df


def run_contract(args):
    """worker: verify one contract; returns a picklable dict"""
    irfile, cname, seed, tlimit, maxpaths, thorough, quiet = args
    from . import engine as EN, ir
    t0 = time.time()
    r = blank(cname)
    if not quiet:
        pass
    if os.environ.get("IRVC_TRACE"):
        import faulthandler
        faulthandler.dump_traceback_later(float(os.environ["IRVC_TRACE"]) + 5, exit=True)

        def dump(*_):
            f = sys._getframe(1)
            while f is not None:
                if "st" in f.f_locals and "ins" in f.f_locals:
                    st = f.f_locals["st"]
                    print([x.f.name for x in st.frames], (f.f_locals["ins"].txt, f.f_locals["ins"].op, getattr(f.f_locals["ins"],"args",None), f.f_locals.get("a"), f.f_locals.get("b")), flush=True)
                    print(str(f.f_locals)[:3000], flush=True)
                    break
                f = f.f_back
            os._exit(3 if f else 4)
        signal.signal(signal.SIGALRM, dump)
        signal.setitimer(signal.ITIMER_REAL, float(os.environ["IRVC_TRACE"]))
    try:
        sys.setrecursionlimit(20000)
        with open(irfile) as f:
            mod = ir.Module(f.read())
        r["parse_s"] = time.time() - t0
        E = EN.Engine(mod, seed)
        E.thorough = thorough
        E.deadline = time.time() + tlimit
        E.max_paths = maxpaths
        if cname.startswith("P_"):
            from . import loops
            E.pmode = True
            E.loopsum = loops.LoopSum(E)
            r["unbounded"] = True
        try:
            st = E.start(cname)
            if os.environ.get("IRVC_PROF"):
                import cProfile, pstats
                pr = cProfile.Profile()
                pr.enable()
                try:
                    E.explore(st)
                finally:
                    pr.disable()
                    pstats.Stats(pr, stream=open(os.environ["IRVC_PROF"], "w")).sort_stats("cumulative").print_stats(45)
            else:
                E.explore(st)
        except EN.Budget as e:
            r["status"] = "incomplete"
            r["notes"].append("budget exhausted: %s" % e)
        except EN.Unsupported as e:
            r["status"] = "incomplete"
            r["notes"].append("unsupported: %s%s" % (e, "" if e.where is None else " in " + e.where))
        except RecursionError:
            r["status"] = "incomplete"
            r["notes"].append("recursion limit")
        except ir.IRError as e:
            r["status"] = "incomplete"
            r["notes"].append("ir: %s" % e)
        r.update(obligations=E.obl, discharged=E.disch, paths=E.paths, killed=E.killed, steps=E.steps,
                 unknown=E.unknowns[:50], nunknown=len(E.unknowns), covers=sorted(E.covers), backends=dict(E.byback),
                 solver_s=dict(E.solver.stats.time), queries=E.solver.stats.queries, funcs=dict(E.funcs_run),
                 samples=E.samples, trusted=sorted(E.trusted), labels={k: [v[0], v[1], v[2]] for k, v in E.labels.items()})
        if E.loopsum is not None:
            r["loops"] = E.loopsum.report()
        r["notes"] += E.unsup[:3]
        r["failures"] = [dict(label=f.label, kind=f.kind, detail=str(f.detail)[:1500], backend=f.backend,
                              inputs=[(n, float(v) if not isinstance(v, int) else v) for n, v in f.inputs])
                         for f in E.failures]
    except Exception:
        r["status"] = "error"
        r["notes"].append(traceback.format_exc()[-3000:])
    r["wall"] = time.time() - t0
    return r


def demangle(names):
    if not names:
        return {}
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))


def write_replay(path, prop, cfile, cname, fl, native_out, inputs):
    with open(path, "w") as f:
        f.write("! property %s contract %s (%s)\n" % (prop, cname, os.path.basename(cfile)))
        f.write("! obligation: %s\n" % fl.get("label"))
        f.write("! verdict: %s by %s\n" % (fl.get("kind"), fl.get("backend")))
        for l in str(fl.get("detail", "")).split("\n"):
            f.write("! %s\n" % l)
        f.write("! native run: %s\n" % (native_out or "").strip()[-1500:].replace("\n", "\n! "))
        f.write("! to replay: bash check.sh --replay <this file>\n")
        for n, v in inputs:
            f.write("%s %s\n" % (n, repr(v)))


def clean_replay(path):
    """strip comment lines for the native reader"""
    out = path + ".in"
    with open(path) as f, open(out, "w") as g:
        for l in f:
            if not l.startswith("!"):
                g.write(l)
    return out


def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) contract=(\S+) label="([^"]*)"\s*(.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--native-only", action="store_true")
    ap.add_argument("--seed-scratch", default="", help="scratch directory for replay and evidence files")
    ap.add_argument("--nproc", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = a.tier == "thorough"
    prop = a.prop
    t0 = time.time()
    work = os.path.join(ROOT, "work", "%s-%d" % (prop, os.getpid()))
    rdir = os.path.join(a.seed_scratch or ROOT, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cache = os.path.join(ROOT, "work", "cache")
    files = contract_files(prop)
    if not files:
        print("no contracts for", prop)
        return 2
    violations = []
    known = []
    allres = []
    builderrs = []
    nat_stats = {}
    status = 0
    kf = known_findings()
    try:
        builds = []
        for f in files:
            b = Build(f, os.path.join(work, os.path.basename(f)[:-4]), cache)
            try:
                b.compile()
                b.ll = b.link_ir()
                builds.append(b)
            except BuildError as e:
                builderrs.append("%s: %s" % (os.path.basename(f), e))
                print("BUILD FAILED", os.path.basename(f), str(e)[-1500:])
        tb = time.time() - t0
        jobs = []
        natonly = []
        for b in builds:
            for c in b.contracts():
                if a.only and not re.search(a.only, c):
                    continue
                if c.startswith("N_") or a.native_only:  # bounded stand-in: native execution only
                    natonly.append((b, c))
                    continue
                if c.startswith("T_") and not thorough:
                    continue
                tl = b.m["TIME"] * (3 if thorough else 1)
                jobs.append((b, (b.ll, c, seed, tl, b.m["PATHS"] * (5 if thorough else 1), thorough, not a.v)))
        # the verifier, the native build and the native random runs (validation of the verifier's semantics and a
        # search of its own) share the cores; one single-threaded scheduler forks every one of them
        natives = {}
        sch = Scheduler(1 if a.serial else a.nproc, work, t0 + (840 if not thorough else 14000))
        if not a.no_native:
            for b in builds:
                def built(r, b=b):
                    if isinstance(r, str) or r is None:
                        builderrs.append("native %s: %s" % (b.name, r))
                        print("NATIVE BUILD FAILED", str(r)[-1500:])
                        return
                    natives[b.name] = r[0]
                    for bb, c in [(bb, j[1]) for bb, j in jobs] + natonly:
                        if bb is b:
                            sch.add((nat_random, (b, r[0], c, seed, thorough)), 150, lambda o, b=b, c=c: natout.append(((b, c),) + (tuple(o[1:]) if isinstance(o, tuple) else (None, str(o)))), first=True)
                sch.add((nat_build, (b,)), 300, built)
        natout = []
        res = []
        byname = {}
        for b, j in jobs:
            def verified(r, b=b, j=j):
                if not isinstance(r, dict):
                    r = dict(blank(j[1]), status="incomplete", notes=["worker ended without an answer (%s)" % (r,)])
                byname[(b.name, j[1])] = r
            sch.add((run_contract, (j,)), j[3] * 1.3 + 60, verified)
        sch.run()
        for b, j in jobs:
            r = byname.get((b.name, j[1])) or dict(blank(j[1]), status="incomplete", notes=["not run"])
            r["file"] = b.name
            res.append((b, r))
            if a.v:
                print("  %-34s %-10s obl %d/%d paths %d killed %s steps %s %.1fs %s" % (r["name"], r["status"], r["discharged"],
                      r["obligations"], r["paths"], r.get("killed"), r.get("steps"), r["wall"], "; ".join(r["notes"])[:1500]))
                for u in r["unknown"][:5]:
                    print("      unknown:", u[:300])
                for f in r["failures"][:6]:
                    print("      FAILED:", f["label"], "|", f["kind"], "|", f["detail"][:500])
            allres.append(r)
        # 1. symbolic refutations, replayed
        seen = set()
        for b, r in res:
            exe = natives.get(b.name)
            for k, f in enumerate(r["failures"]):
                key = (r["name"], f["label"])
                if key in seen:
                    continue
                if any(p == prop and c == r["name"] and l == f["label"] for p, c, l, _ in kf):
                    seen.add(key)
                    known.append(next(x for x in kf if x[0] == prop and x[1] == r["name"] and x[2] == f["label"]))
                    continue
                rp = os.path.join(rdir, "%s_%s_%d.txt" % (prop, r["name"], k))
                write_replay(rp, prop, b.cfile, r["name"], f, "", f["inputs"])
                conf, out = False, "not run"
                if exe:
                    rc, out = run_native([exe, "replay", r["name"], clean_replay(rp)], 60)
                    os.unlink(rp + ".in")
                    conf = rc not in (0, None) and "(pc 0x000000000000" not in out
                write_replay(rp, prop, b.cfile, r["name"], f, out, f["inputs"])
                f["confirmed"] = conf
                if conf:
                    seen.add(key)
                    violations.append((rp, r["name"], f, True))
            # refuted but not reproduced
            for k, f in enumerate(r["failures"]):
                key = (r["name"], f["label"])
                if key in seen:
                    continue
                rp = os.path.join(rdir, "%s_%s_%d.txt" % (prop, r["name"], k))
                seen.add(key)
                if f["kind"] == "implicit":
                    r["unknown"].append("unconfirmed: " + f["label"])
                    r["nunknown"] = r.get("nunknown", 0) + 1
                    continue
                violations.append((rp, r["name"], f, False))
        # 2. native random failures
        for o in natout:
            if o[1] is None:
                if len(o) > 2 and o[2]:
                    nat_stats[o[0][1]] = o[2][:80]
                continue
            (b, c), rc, out, df = o
            m = re.search(r'runs (\d+) rejected (\d+) checked (\d+) failed (\d+)', out)
            nat_stats[c] = [int(x) for x in m.groups()] if m else out[-200:]
            if rc == 0:
                continue
            if "(pc 0x000000000000" in out:  # a call of a function outside the linked translation units
                nat_stats[c] = "calls a function that is not linked: " + out[-200:]
                continue
            lab = re.search(r'^FAIL (.*?) : (.*)$', out, re.M)
            label = lab.group(1) if lab else "crash"
            if any(p == prop and cc == c and l == label for p, cc, l, _ in kf):
                known.append(next(x for x in kf if x[0] == prop and x[1] == c and x[2] == label))
                continue
            if any(v[1] == c and v[3] for v in violations):
                continue
            rp = os.path.join(rdir, "%s_%s_rnd.txt" % (prop, c))
            inputs = []
            if os.path.exists(df):
                for l in open(df):
                    w = l.rstrip("\n").rsplit(" ", 1)
                    if len(w) < 2:
                        continue
                    inputs.append((w[0], int(w[1]) if re.fullmatch(r"-?\d+", w[1]) else float(w[1])))
            f = dict(label=label, kind="native execution of the contract at sampled inputs", backend="native run",
                     detail=out[-1500:])
            if not inputs:
                cur = ""
                try:
                    cur = open(df + ".cur").read().strip()
                except OSError:
                    pass
                f["detail"] += "\nseed %d iteration %s" % (seed, cur)
            violations = [v for v in violations if not (v[1] == c and v[2]["label"] == label)]
            write_replay(rp, prop, b.cfile, c, f, out, inputs)
            violations.append((rp, c, f, True))
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    # ---------------------------------------------------------------- evidence
    wall = time.time() - t0
    if not a.seed_scratch:
        write_evidence(prop, a.tier, seed, allres, builds, builderrs, violations, known, nat_stats, wall, tb)
    done = set()
    for k in known:
        if k not in done:
            done.add(k)
            print("KNOWN-FINDING: property=%s %s: %s %s" % (k[0], k[1], k[2], k[3]))
    for r in allres:
        if r["status"] != "ok" or r["unknown"]:
            print("undecided: %s %s %s %s" % (r["name"], r["status"], "; ".join(r["notes"])[:300], r["unknown"][:3]))
    ob = sum(r["obligations"] for r in allres)
    di = sum(r["discharged"] for r in allres)
    print("%s: %d contracts, %d obligations, %d discharged, %d paths, %.1f s" % (prop, len(allres), ob, di,
          sum(r["paths"] for r in allres), wall))
    if violations:
        violations.sort(key=lambda v: not v[3])
        # confirmed ones settle the matter; report an unconfirmed one only when it stands alone
        rp, c, f, conf = violations[0]
        for rp, c, f, conf in violations[:10]:
            print("failed obligation: %s / %s (%s)" % (c, f["label"], f["backend"]))
        for rp, c, f, conf in violations[:10]:
            if conf:
                print("VIOLATION property=%s replay=%s" % (prop, rp))
        if not violations[0][3]:
            rp = violations[0][0]
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    if builderrs and not allres or allres and all(r["status"] == "error" for r in allres) or not allres and not nat_stats:
        return 2
    # vacuity: every cover label must have been reached
    reached = set()
    for r in allres:
        reached |= set(r["covers"])
    want = set()
    for b in builds:
        want |= set(b.covers())
    miss = want - reached
    if miss and not a.only:
        print("cover points not reached:", sorted(miss))
    return 0


def write_evidence(prop, tier, seed, allres, builds, builderrs, violations, known, nat, wall, tb):
    names = set()
    for r in allres:
        names |= set(r["funcs"])
    dm = demangle(sorted(names))
    fn = sorted(set(d for d in dm.values() if d and not re.match(r'(std::|__gnu_cxx::|void std::|bool std::|_?[HPTN]_|.*\bstd::(vector|map|set|_|allocator|__))', d)))
    solver = {}
    back = {}
    for r in allres:
        for k, v in r["solver_s"].items():
            solver[k] = solver.get(k, 0) + v
        for k, v in r["backends"].items():
            back[k] = back.get(k, 0) + v
    ob = sum(r["obligations"] for r in allres)
    di = sum(r["discharged"] for r in allres)
    cov = {
        "obligations": ob, "discharged": di,
        "checker_cmd": "bash /verif/check.sh %s" % prop,
        "trusted_base": ["irvc verification-condition generator (/verif/irvc)", "clang 18 front end and the LLVM passes " + OPTP,
                         "z3 4 (python bindings), cvc5 1.1.2, sympy Groebner bases",
                         "/verif/support/runtime.cpp: assumed contracts of libstdc++ out-of-line functions, BLAS, LAPACK, libc"],
        "contracts": [dict(name=r["name"], kind="unbounded" if r["unbounded"] else "full-domain values, enumerated sizes (bounded)"
                           if r["paths"] > 1 else "full domain", status=r["status"], paths=r["paths"], obligations=r["obligations"],
                           discharged=r["discharged"], seconds=round(r["wall"], 2), undecided=r["unknown"][:8],
                           notes=r["notes"][:4], loops=r.get("loops", [])[:40],
                           labels={k: "%d/%d" % (v[1], v[0]) for k, v in list(r["labels"].items())[:60]}) for r in allres],
        "undecided": sum(r.get("nunknown", 0) for r in allres),
        "functions_under_contract": fn[:400], "number_of_functions": len(fn),
        "backends": back, "solver_seconds": {k: round(v, 2) for k, v in solver.items()},
        "build_seconds": round(tb, 1),
        "instructions_interpreted": sum(r.get("steps", 0) for r in allres),
        "paths": sum(r["paths"] for r in allres),
        "native_runs": nat,
        "bounded_stand_ins": {k: v for k, v in nat.items() if k.startswith("N_")},
        "build_errors": builderrs,
        "known_findings": [list(k) for k in known],
        "samples": [s for r in allres for s in r["samples"][:1]][:4],
        "evaluations": sum(r["paths"] for r in allres), "distinct_nontrivial": sum(r["paths"] for r in allres),
        "rule": "one evaluation is one feasible execution path of a contract with symbolic values; paths differ in their path condition",
        "explanation": "contracts on the real functions; every obligation generated from the current source is discharged "
                       "by exact symbolic execution of its LLVM IR; contracts named P_ hold for all sizes, H_ for the enumerated sizes"
    }
    ass = ["real arithmetic is exact (rounding is outside the contracts); machine integers do not overflow",
           "OpenMP parallel regions execute sequentially", "stream output has no effect on the state"]
    for b in builds:
        ass += b.m["ASSUME"]
    for r in allres:
        ass += r["trusted"]
    lv = "other"
    man = os.path.join(ROOT, "MANIFEST.json")
    if os.path.exists(man):
        for c in json.load(open(man))["checks"]:
            if c["property"] == prop:
                lv = c["level"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lv, "coverage": cov, "assumptions": sorted(set(ass)),
          "wall_s": round(wall, 2), "violations": len(violations)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
