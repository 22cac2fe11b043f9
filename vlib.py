"""Machinery shared by the checks: building the drivers from /repo's working tree,
running TLC, running the drivers, validating traces, reporting."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RIVER_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CORES = max(1, min(8, os.cpu_count() or 1))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


FILES = ("tables", "script", "words")   # options naming files of this run


class CheckError(Exception):
    pass


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="rv_%s_" % prop)
        self.stats = dict(states=0, transitions=0, traces=0, events=0)
        self.extra = {}
        self.samples = []
        self.violations = []
        self.pool = cf.ThreadPoolExecutor(CORES)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, n):
        return os.path.join(self.dir, n)

    # ------------------------------------------------------------ building
    def build(self, drivers, san=False):
        """compile /repo's library sources and the given drivers, in parallel"""
        inc = ["-I" + REPO + "/src/include", "-I" + REPO + "/src/src", "-I" + HARN]
        flags = ["-std=c++17", "-w", "-pthread"]
        flags += ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] if san else ["-O2", "-DNDEBUG"]
        tag = "san" if san else "rel"
        src = sorted(glob.glob(REPO + "/src/src/*.cpp"))
        if not src:
            raise CheckError("no sources under %s/src/src" % REPO)
        # the text parser is slow to compile: start it first
        src.sort(key=lambda f: -os.path.getsize(f) if not f.endswith("river.cpp") else -10 ** 9)
        jobs = []
        for f in src + [os.path.join(HARN, d + ".cpp") for d in drivers]:
            o = self.path(tag + "_" + os.path.basename(f)[:-4] + (".d.o" if f.startswith(HARN) else ".l.o"))
            jobs.append((f, o, self.pool.submit(subprocess.run, ["g++"] + flags + inc + ["-c", f, "-o", o], capture_output=True, text=True)))
        libs, objs = [], {}
        for f, o, j in jobs:
            r = j.result()
            if r.returncode:
                raise CheckError("compiling %s failed:\n%s" % (f, r.stderr[-3000:]))
            if f.startswith(HARN):
                objs[os.path.basename(f)[:-4]] = o
            else:
                libs.append(o)
        out = {}
        for d, o in objs.items():
            exe = self.path(tag + "_" + d)
            r = subprocess.run(["g++"] + flags + [o] + libs + ["-o", exe], capture_output=True, text=True)
            if r.returncode:
                raise CheckError("linking %s failed:\n%s" % (d, r.stderr[-3000:]))
            out[d] = exe
        return out

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=800, args=(), mem="2g"):
        """run TLC on spec/<module>.tla with the given configuration text"""
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        c = os.path.join(md, "m.cfg")
        open(c, "w").write(cfg)
        e = dict(os.environ, **(env or {}))
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-config", c, "-noGenerateSpecTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=md, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC %s timed out" % module)
        finally:
            pass
        out = r.stdout + r.stderr
        shutil.rmtree(md, ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if m:
            self.stats["transitions"] += int(m[1])
            self.stats["states"] += int(m[2])
        return r.returncode, out

    def model(self, module, cfg, **kw):
        """exhaustive model check that must succeed"""
        rc, out = self.tlc(module, cfg, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model %s does not satisfy its properties:\n%s" % (module, out[-3000:]))
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        self.extra.setdefault("models", []).append({"module": module, "states": int(m[2]) if m else 0, "transitions": int(m[1]) if m else 0})
        return out

    # ------------------------------------------------------------ behaviours generated from RiverMC
    def scripts(self, runs, limit=None):
        """explore RiverMC; returns the script file holding every emitted history with its prescribed answers"""
        hists = []
        for kw in runs:
            sim = kw.get("simulate")
            cfg = ("CONSTANTS Ids={%(ids)s} Shapes={%(shapes)s} QOps={%(ops)s} QRules={%(rules)s} Types={%(types)s} MaxSteps=%(steps)d MaxAdd=%(maxadd)d Emit=TRUE\n"
                   "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS " % kw) + ("TypeOK Emitted" if sim else "TypeOK Isolated PureQuery Unordered SamplesClear Emitted") + "\n"
            args = ["-simulate", "num=%d" % sim, "-depth", str(kw["steps"] + 2), "-seed", str(self.seed)] if sim else []
            rc, out = self.tlc("RiverMC", cfg, workers=1 if sim else CORES, args=args)
            if rc != 0:
                raise CheckError("RiverMC: " + out[-2000:])
            found = []
            for m in re.finditer(r'<<"SCRIPT", "(.*)">>', out):
                steps = re.findall(r'<<\\"(\w)\\", ([0-9, ]+)(?:, <<([0-9, ]+)>>)?>>', m[1])
                found.append([(k, [int(x) for x in a.split(",")], (msk or "").replace(", ", "")) for k, a, msk in steps])
            m = re.search(r"(\d+) states generated, (\d+) distinct", out)
            self.extra.setdefault("models", []).append({"module": "RiverMC", "mode": "simulate" if sim else "exhaustive", "steps": kw["steps"],
                                                        "states": int(m[2]) if m else 0, "histories_emitted": len(found)})
            if limit and len(found) > limit:
                step = len(found) / limit
                found = [found[int(i * step)] for i in range(limit)]
            hists += found
        out = self.path("scripts.txt")
        txt = open(os.path.join(SPEC, "RiverMC.tla")).read()
        lib = re.search(r"Lib == <<(.*?)\nSM ==", txt, re.S)[1]
        cons = [re.findall(r"P\((\d+),(\d+)\)", l) for l in lib.splitlines() if "P(" in l]
        sm = re.findall(r"<<(\d+),(\d+)>>", re.search(r"SM == (.*)", txt)[1])
        with open(out, "w") as f:
            f.write("%d\n" % len(cons))
            for c in cons:
                f.write("%d %s\n" % (len(c), " ".join("%d %d" % (60 * int(x), 60 * int(y)) for x, y in c)))
            f.write("%d %s\n" % (len(sm), " ".join("%s %s" % p for p in sm)))
            for h in hists:
                w = [str(len(h))]
                for k, a, msk in h:
                    if k == "A":
                        a = [a[0], a[1], a[2] - 1]
                    w.append(k)
                    w += map(str, a)
                    if k == "P":
                        w.append(msk)
                f.write(" ".join(w) + "\n")
        return out, len(hists)

    # ------------------------------------------------------------ inputs generated from SweepMC
    def words(self, runs, limit=None):
        """explore SweepMC on the questions (1, 0) and write every emitted input with the strips each question must yield"""
        def one(kw):
            cfg = ("CONSTANTS Subject0=0 Clip0=1 W=%d Slant=%d Letters=%d Depth=%d QOps={1} QRules={0} Types={0,1} Emit=TRUE\n"
                   "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Stitches Emitted\n" % kw)
            rc, out = self.tlc("SweepMC", cfg, workers=2)
            if rc != 0:
                raise CheckError("SweepMC: " + out[-2000:])
            found = []
            for a, b in re.findall(r'<<\s*"WORDS",\s*"(.*?)",\s*"(.*?)"\s*>>', out, re.S):
                w, m = [json.loads(x.replace("<<", "[").replace(">>", "]")) for x in (a, b)]
                found.append((w[:-1], ["".join(str(v) for beam in q for v in beam) for q in m]))
            self.extra.setdefault("models", []).append({"module": "SweepMC", "mode": "emit", "constants": "W=%d Slant=%d Letters=%d Depth=%d" % kw, "inputs_emitted": len(found)})
            if limit and len(found) > limit:
                step = len(found) / limit
                found = [found[int(i * step)] for i in range(limit)]
            return found
        out, n = self.path("words.txt"), 0
        with open(out, "w") as f:
            for found in self.pool.map(one, runs):
                for w, m in found:
                    n += 1
                    t = [len(w)]
                    for beam in w:
                        t.append(len(beam))
                        for l in beam:
                            t += l
                    f.write(" ".join(map(str, t)) + " " + " ".join(m) + "\n")
        return out, n

    def validate(self, module, files, checks=None, env=None, timeout=800, mem="2g"):
        """validate trace files; returns [(file, id, line, reason)] and counts"""
        files = [f for f in files if os.path.getsize(f) > 0]
        cfg = "SPECIFICATION TSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
        if checks is not None:
            cfg = "CONSTANT Checks = {%s}\n" % ", ".join('"%s"' % c for c in checks) + cfg

        def one(f):
            rc, out = self.tlc(module, cfg, env=dict(env or {}, TRACE_FILE=f), timeout=timeout, mem=mem)
            done = re.search(r'<<"DONE", (\d+), (\d+), (\d+)>>', out)
            if not done or done[1] != done[2]:
                raise CheckError("TLC did not finish %s on %s:\n%s" % (module, f, out[-3000:]))
            rej = [(f, int(a), int(b), c) for a, b, c in re.findall(r'<<"REJECT", (\d+), (\d+), "([^"]*)">>', out)]
            if len(rej) != int(done[3]):
                raise CheckError("inconsistent TLC output on %s:\n%s" % (f, out[-2000:]))
            self.stats["events"] += int(done[2])
            und = re.search(r'<<"UNDECIDED", (\d+)>>', out)
            if und:
                self.extra["undecided"] = self.extra.get("undecided", 0) + int(und[1])
            return rej
        rejects = []
        for r in self.pool.map(one, files):
            rejects += r
        return rejects

    # ------------------------------------------------------------ oracle tables
    def tables(self, g=6):
        slices = 4
        files = [self.path("orc%d.json" % i) for i in range(slices)]

        def one(i):
            cfg = "CONSTANTS G = %d Slice = %d Slices = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" % (g, i, slices)
            rc, out = self.tlc("Oracle", cfg, env={"OUT_FILE": files[i]})
            if rc != 0:
                raise CheckError("oracle tables: " + out[-2000:])
        list(self.pool.map(one, range(slices)))
        d = [json.load(open(f)) for f in files]
        t = d[0]
        w = [t["g"], t["ns"]]
        for s in t["samples"]:
            w += s
        for r in t["fill"]:
            w += r
        for r in t["op"]:
            w += r
        w.append(len(t["atoms"]))
        for a in t["atoms"]:
            w += a
        pairs = [p for x in d for p in x["pairs"]]
        w.append(len(pairs))
        out = self.path("tables.txt")
        with open(out, "w") as f:
            f.write(" ".join(map(str, w)) + "\n")
            for p in pairs:
                f.write(" ".join(map(str, p)) + "\n")
        return out

    # ------------------------------------------------------------ drivers
    def drive(self, exe, mode, count, jobs=None, env=None, **opts):
        """run a driver on [0, count) split over the cores; returns (trace files, summed stats)"""
        jobs = jobs or CORES
        per = (count + jobs - 1) // jobs
        tag = re.sub(r"\W", "_", mode + "_" + "_".join("%s%s" % kv for kv in sorted(opts.items()) if kv[0] not in FILES))
        files, futs = [], []
        for j in range(jobs):
            a, b = j * per, min(count, (j + 1) * per)
            if a >= b:
                break
            out = self.path("tr_%s_%d.ndjson" % (tag, j))
            open(out, "w").close()
            cmd = [exe, mode, "--seed", str(self.seed), "--from", str(a), "--count", str(b - a), "--out", out]
            for k, v in opts.items():
                cmd += ["--" + k, str(v)]
            files.append(out)
            err = open(out + ".err", "w")
            futs.append(self.pool.submit(subprocess.run, cmd, stdout=subprocess.PIPE, stderr=err, text=True, timeout=700, env=dict(os.environ, **(env or {}))))
        tot = {}
        for f in futs:
            r = f.result()
            if r.returncode != 0:
                raise CheckError("driver %s failed (%d): %s" % (mode, r.returncode, r.stdout[-500:]))
            for k, v in json.loads(r.stdout.strip().splitlines()[-1]).items():
                tot[k] = tot.get(k, 0) + v
        return files, tot

    # ------------------------------------------------------------ reporting
    def finish(self, level, coverage, assumptions=()):
        cov = dict(states=self.stats["states"], transitions=self.stats["transitions"],
                   traces_validated_against_impl=self.stats["traces"], trace_events=self.stats["events"], samples=self.samples[:5])
        cov.update(self.extra)
        cov.update(coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        self.pool.shutdown(wait=True)
        shutil.rmtree(self.dir, ignore_errors=True)
