#!/usr/bin/env python3
"""check.py <property> <quick|thorough>      run one check
   check.py replay <file>                   run a reported violation again
   check.py setup                           what setup_cmd runs"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import *
import props

REPLAY = os.path.join(VERIF, "replay")


class Check(Run):
    """adds conformance runs, confirmation and reporting to Run"""

    def __init__(self, prop, tier, seed):
        super().__init__(prop, tier, seed)
        self.exes = {}
        self.known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == prop]
        self.runs = []

    def q(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def split(self, files):
        """the histories of the trace files, spread evenly for parallel validation"""
        hist = []
        for f in files:
            for line in open(f):
                if line.startswith('{"e":"begin"'):
                    hist.append([])
                if line.endswith("\n") and hist:
                    hist[-1].append(line)
        return hist

    def conform(self, mode, count, checks=None, module="TraceRiver", exe="drv", san=False, env=None, note=None, sticky=False, **opts):
        """run the driver on `count` cases and have TLC judge what it forwards"""
        t = time.time()
        e = self.exes[("san_" if san else "") + exe]
        if san:
            env = dict(env or {}, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="halt_on_error=1")
        files, tot = self.drive(e, mode, count, env=env, **opts)
        hist = self.split(files)
        n = len(hist)
        parts = min(CORES, max(1, n // 4))
        fs = []
        hist.sort(key=lambda h: -sum(map(len, h)))
        for i in range(parts):
            f = self.path("val_%d_%d.ndjson" % (len(self.runs), i))
            with open(f, "w") as o:
                for h in hist[i::parts]:
                    o.writelines(h)
            fs.append(f)
        rej = self.validate(module, fs, checks, env=env) if n else []
        self.stats["traces"] += n
        rec = dict(mode=mode, options={k: v for k, v in opts.items() if k not in FILES}, sanitizers=san, **tot)
        rec["validated_histories"] = n
        rec["rejected"] = len(rej)
        rec["wall_s"] = round(time.time() - t, 1)
        self.runs.append(rec)
        if note:
            rec["what"] = note
        self.log(mode, {k: v for k, v in rec.items() if k in ("cases", "calls", "judged", "suspicious", "validated_histories", "rejected", "aborts")}, rec["options"], "%.1fs" % rec["wall_s"])
        if n and len(self.samples) < 5:
            h = min(hist, key=lambda h: abs(len(h) - 6))
            self.samples.append("".join(h)[:1500])
        if tot.get("cases", 1) == 0 and count:
            raise CheckError("driver ran no case in mode " + mode)
        done = 0
        for f, cid, line, reason in rej:
            if done >= 3:
                break
            if self.confirm(mode, cid, reason, checks, module, exe, san, env, opts, sticky, f):
                done += 1
        return tot

    def one_case(self, mode, cid, checks, module, e, env, opts, frm=None, cnt=1):
        out = self.path("re_%s_%d.ndjson" % (mode, cid))
        open(out, "w").close()
        cmd = [e, mode, "--seed", str(self.seed), "--from", str(cid if frm is None else frm), "--count", str(cnt), "--out", out]
        o = dict(opts)
        o["every"] = 1 if frm is None else o.get("every", 50)
        for k, v in o.items():
            cmd += ["--" + k, str(v)]
        r = subprocess.run(cmd, capture_output=True, text=True, env=dict(os.environ, **(env or {})), timeout=700)
        if r.returncode:
            raise CheckError("driver failed on re-run: " + r.stderr[-500:])
        rej = self.validate(module, [out], checks, env=env)
        return [x for x in rej if x[1] == cid], out, r.stderr

    def confirm(self, mode, cid, reason, checks, module, exe, san, env, opts, sticky, src):
        """a rejected history is run again before it is reported"""
        e = self.exes[("san_" if san else "") + exe]
        rej, out, err = self.one_case(mode, cid, checks, module, e, env, opts)
        if not rej:
            per = opts.get("_per", 0)
            base = max(0, cid - cid % 2000) if not per else cid // per * per
            rej, out, err = self.one_case(mode, cid, checks, module, e, env, opts, frm=base, cnt=cid - base + 1)
        if not rej and not sticky:
            self.log("case %d of %s was rejected once (%s) and accepted on both re-runs; not reported" % (cid, mode, reason))
            self.extra.setdefault("unreproduced", []).append([mode, cid, reason])
            return False
        if rej:
            reason = rej[0][3]
        else:
            out = src
        lines = []
        keep = False
        for l in open(out):
            if l.startswith('{"e":"begin"'):
                keep = json.loads(l)["id"] == cid
            if keep:
                lines.append(json.loads(l))
        extra = {}
        if "script" in opts:
            L = open(opts["script"]).read().splitlines(True)
            head = int(L[0]) + 2
            extra = dict(script="".join(L[:head]) + L[head + cid])
        if "words" in opts:
            extra = dict(words=open(opts["words"]).read().splitlines(True)[cid])
        self.report(dict(extra, mode=mode, case=cid, seed=self.seed, reason=reason, checks=checks, module=module, exe=exe, san=san,
                         opts={k: v for k, v in opts.items() if k not in FILES}, stderr=err[-4000:], trace=lines))
        return True

    def report(self, info):
        os.makedirs(REPLAY, exist_ok=True)
        info["property"] = self.prop
        txt = json.dumps(info)
        f = os.path.join(REPLAY, "%s-%s.json" % (self.prop, hashlib.sha1(txt.encode()).hexdigest()[:10]))
        open(f, "w").write(txt + "\n")
        self.violations.append(f)
        self.log("rejected:", info.get("reason"), "mode", info.get("mode"), "case", info.get("case"))
        print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        for t in ("java", "g++"):
            if not shutil.which(t):
                print("missing", t)
                return 1
        r = Run("setup", "quick", 1)
        rc, out = r.tlc("LawsMC", "CONSTANTS N=1 K=3 Thin=1 Rect=FALSE\nSPECIFICATION Spec\nINVARIANT Presentation\nCHECK_DEADLOCK FALSE\n")
        r.close()
        print("TLC", "works" if rc == 0 else out[-1000:])
        return 0 if rc == 0 else 1
    if sys.argv[1] == "replay":
        info = json.load(open(sys.argv[2]))
        prop, tier, seed, only = info["property"], "quick", info["seed"], info
    else:
        prop, tier, seed, only = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")), int(os.environ.get("VERIF_SEED", "1")), None
    c = Check(prop, tier, seed)
    try:
        if only:
            props.replay(c, only)
        else:
            spec = props.CHECKS[prop]
            cov = spec["run"](c) or {}
            cov["runs"] = c.runs
            c.finish("model_checking", cov, spec.get("assumptions", ()))
    except Exception as ex:   # a check that cannot be carried out gives no verdict
        traceback.print_exc()
        print("CHECK-ERROR property=%s %s" % (prop, str(ex).splitlines()[0] if str(ex) else ex))
        if not c.violations:
            return 2
    finally:
        c.close()
    if c.violations:
        return 1
    print("OK property=%s" % prop)
    return 0


if __name__ == "__main__":
    sys.exit(main())
