"""What each check runs."""
import json, os, subprocess
from vlib import *

ENGINE = ["drv"]


def prep(c, drivers=("drv",), san=False, tables=True, rel=True):
    """build the drivers and the oracle tables at the same time"""
    t = c.pool.submit(c.tables) if tables else None
    if rel:
        for d, e in c.build(list(drivers)).items():
            c.exes[d] = e
    if san:
        for d, e in c.build(list(drivers), san=True).items():
            c.exes["san_" + d] = e
    c.tab = t.result() if t else None
    c.log("built")


def laws(c, inv, n, k, thin, rect=False):
    c.model("LawsMC", "CONSTANTS N=%d K=%d Thin=%d Rect=%s\nSPECIFICATION Spec\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n" % (n, k, thin, "TRUE" if rect else "FALSE", inv), workers=CORES)
    c.log("law", inv, "holds on the specification")


SWEEP = "CONSTANTS Subject0=0 Clip0=1 W=%d Slant=%d Letters=%d Depth=%d QOps={1,2,3,4} QRules={0,1,2,3} Types={0,1} Emit=FALSE\nSPECIFICATION Spec\nINVARIANTS Separates Stitches Nothing Paired Alternate Faithful\nCHECK_DEADLOCK FALSE\n"


def sweep(c, quick, deep):
    """the algorithm against the meaning"""
    for k in c.q(quick, quick + deep):
        c.model("SweepMC", SWEEP % k, workers=CORES)
    c.log("the sweep yields the region on the specification")


WORDS = [(1, 1, 2, 2), (1, 1, 4, 1), (3, 0, 2, 2)]
WORDS2 = [(2, 1, 4, 1), (2, 0, 6, 1), (2, 1, 2, 2), (1, 1, 2, 3)]


def c01(c):
    prep(c)
    sweep(c, [(1, 1, 2, 2)], [(3, 0, 2, 2), (2, 1, 4, 1)])
    f, n = c.words(WORDS + c.q([], WORDS2), limit=c.q(6000, 60000))
    c.conform("words", n, ["region"], words=f, every=c.q(300, 2000), note="inputs generated by TLC from SweepMC, strips prescribed by the model, all operations and rules")
    T = dict(tables=c.tab, screen="r")
    ck = ["region"]
    c.conform("enum", 28224, ck, kind=33, every=1500, note="every pair of oriented triangles on the 3x3 grid, all operations and rules", **T)
    c.conform("enum", 127008, ck, kind=43, every=6000, note="every oriented quadrilateral against every oriented triangle on the 3x3 grid", **T)
    if c.tier == "thorough":
        c.conform("enum", 571536, ck, kind=44, every=20000, note="every pair of oriented quadrilaterals on the 3x3 grid", **T)
        c.conform("enum", 508032, ck, kind=53, every=20000, note="every pentagon against every triangle on the 3x3 grid", **T)
    c.conform("bool", c.q(40000, 600000), ck, fam=0, every=c.q(800, 4000), note="random degenerate grid shapes, all 16 combinations each", **T)
    c.conform("bool", c.q(16000, 200000), ck, fam=1, every=c.q(400, 2000), note="random separated shapes, all 16 combinations each", **T)


def c02(c):
    prep(c, tables=False)
    c.conform("bool", c.q(16000, 200000), ["region"], fam=2, every=c.q(260, 2500), screen="r", note="random curved shapes in general position, all 16 combinations each")


def c03(c):
    prep(c)
    laws(c, "BoundaryForm", c.q(2, 2), c.q(4, 5), c.q(2, 1), True)
    f, n = c.words(WORDS + c.q([], WORDS2), limit=c.q(6000, 60000))
    c.conform("words", n, ["form"], words=f, every=c.q(300, 2000), note="inputs generated by TLC from SweepMC, all operations and rules")
    T = dict(tables=c.tab, screen="f")
    ck = ["form"]
    c.conform("enum", 28224, ck, kind=33, every=1500, **T)
    c.conform("enum", 127008, ck, kind=43, every=6000, **T)
    if c.tier == "thorough":
        c.conform("enum", 571536, ck, kind=44, every=20000, **T)
    c.conform("bool", c.q(24000, 300000), ck, fam=0, every=c.q(600, 4000), **T)
    c.conform("bool", c.q(10000, 100000), ck, fam=0, kind=4, every=c.q(400, 2000), **T)
    c.conform("bool", c.q(8000, 100000), ck, fam=1, every=c.q(300, 2000), **T)
    c.conform("bool", c.q(4000, 60000), ck, fam=2, every=c.q(160, 1500), **T)


def c04(c):
    prep(c)
    T = dict(tables=c.tab, screen="p")
    ck = ["prov"]
    c.conform("enum", 28224, ck, kind=33, every=1500, **T)
    c.conform("bool", c.q(16000, 200000), ck, fam=0, every=c.q(500, 3000), **T)
    c.conform("bool", c.q(10000, 120000), ck, fam=1, every=c.q(300, 2000), **T)
    c.conform("bool", c.q(6000, 80000), ck, fam=2, every=c.q(200, 1500), **T)


def c05(c):
    prep(c, san=True)
    c.conform("safe", c.q(4000, 60000), [], san=True, every=c.q(80, 400), tables=c.tab, note="degenerate and ordinary histories under address and undefined-behaviour sanitizers, heap balance per history")
    c.conform("safe", c.q(60000, 600000), [], every=c.q(1500, 6000), tables=c.tab, note="the same without sanitizers")
    c.conform("bool", c.q(1500, 20000), [], san=True, fam=2, every=c.q(100, 1000), screen="", tables=c.tab, note="curved inputs under sanitizers")
    findings(c)


def findings(c):
    """inputs recorded as known findings: reported as such while they fail, never as violations"""
    for k in c.known:
        r = subprocess.run([c.exes["drv"], "text", "--out", "/dev/null", "--count", "1", "--subject", k["subject"], "--clip", k["clip"], "--cpu", "3"], capture_output=True, text=True, timeout=120)
        st = json.loads(r.stdout.strip().splitlines()[-1])
        if st["aborts"]:
            print("KNOWN-FINDING: property=%s %s" % (c.prop, k["what"]), flush=True)
        c.extra.setdefault("known_findings", []).append({"id": k["id"], "still_fails": bool(st["aborts"])})


def c06(c):
    prep(c)
    laws(c, "Presentation", 2, 3, c.q(6, 1))
    c.conform("repr", c.q(40000, 500000), ["region", "area"], every=c.q(700, 5000), tables=c.tab)


def c07(c):
    prep(c)
    laws(c, "Transforms", 2, 3, c.q(12, 1))
    for fam, n in ((0, c.q(24000, 300000)), (1, c.q(12000, 150000)), (2, c.q(8000, 100000))):
        c.conform("xf", n, ["region"], fam=fam, every=c.q(400, 3000), screen="r", tables=c.tab)


SHORT = dict(ids="1", shapes="1,2,3", ops="1,2,3,4", rules="0,1,2,3", types="0,1", steps=4, maxadd=3)
SHORT5 = dict(ids="1", shapes="1,2,3", ops="1,2,3,4", rules="1,2", types="0,1", steps=5, maxadd=4)
SHORT6 = dict(ids="1", shapes="1,3,6", ops="1,3,4", rules="0,2", types="0,1", steps=6, maxadd=4)
PAIR = dict(ids="1,2", shapes="1,2", ops="1,4", rules="0,2", types="0,1", steps=6, maxadd=2)
PAIR7 = dict(ids="1,2", shapes="1,2", ops="1,4", rules="2", types="0,1", steps=7, maxadd=2)
LONG1 = dict(ids="1", shapes="1,2,3,4,5,6", ops="1,2,3,4", rules="0,1,2,3", types="0,1", steps=14, maxadd=8, simulate=40)
LONG3 = dict(ids="1,2,3", shapes="1,2,3,4,5,6", ops="1,2,3,4", rules="0,1,2,3", types="0,1", steps=16, maxadd=6, simulate=40)


def c08(c):
    prep(c)
    f, n = c.scripts([SHORT, SHORT5] + c.q([], [SHORT6]) + [dict(LONG1, simulate=c.q(40, 400))], limit=c.q(8000, 60000))
    c.conform("script", n, ["region", "form"], every=c.q(300, 2000), script=f, tables=c.tab, note="histories generated by TLC from RiverMC, answers prescribed by the model")
    c.conform("hist", c.q(24000, 300000), ["region", "area"], every=c.q(500, 4000), tables=c.tab)


def c09(c):
    prep(c)
    f, n = c.scripts([PAIR] + c.q([], [PAIR7]) + [dict(LONG3, simulate=c.q(40, 400))], limit=c.q(8000, 60000))
    c.conform("script", n, ["region", "io"], every=c.q(300, 2000), script=f, tables=c.tab, note="histories generated by TLC from RiverMC")
    c.conform("iso", c.q(16000, 200000), ["region", "io"], every=c.q(400, 4000), tables=c.tab)
    c.conform("threads", c.q(1600, 20000), ["region", "io"], every=c.q(40, 400), tables=c.tab, sticky=True)


def c10(c):
    prep(c, drivers=["fn"], tables=False)
    c.model("PathMC", "CONSTANTS Slots={1,2} MaxLen=%d Alphabet={109} TextLen=0\nSPECIFICATION Spec\nINVARIANTS Faithful Chained\nCHECK_DEADLOCK FALSE\n" % c.q(2, 3), workers=CORES)
    c.conform("path", c.q(80000, 1000000), [], module="TracePath", exe="fn", note="histories of building, moving and traversing up to four path objects; special doubles compared by bits")


def c11(c):
    prep(c, drivers=["fn"], tables=False)
    c.model("PathMC", "CONSTANTS Slots={1} MaxLen=0 Alphabet={109,108,49,45,46,101,32} TextLen=%d\nSPECIFICATION Spec\nINVARIANTS WellFormed Blank Growing Stops Loose\nCHECK_DEADLOCK FALSE\n" % c.q(6, 7), workers=CORES)
    T = dict(module="TracePath", exe="fn")
    c.conform("text", 59049, [], kind=5, note="every text of five characters over nine", **T)
    c.conform("text", 161051, [], kind=15, note="every text of five tokens over eleven", **T)
    if c.tier == "thorough":
        c.conform("text", 531441, [], kind=6, note="every text of six characters over nine", **T)
        c.conform("text", 1771561, [], kind=16, note="every text of six tokens over eleven", **T)
    c.conform("text", c.q(80000, 1000000), [], note="random commands, numbers and white space, half of them mutated", **T)


def c17(c):
    prep(c, drivers=["scan"], tables=False)
    c.model("ScanMC", "CONSTANTS W=2 H=1 N=3\nSPECIFICATION Spec\nINVARIANTS Complete Never2 Emptied\nCHECK_DEADLOCK FALSE\n", workers=CORES)
    if c.tier == "thorough":
        c.model("ScanMC", "CONSTANTS W=2 H=0 N=4\nSPECIFICATION Spec\nINVARIANTS Complete Never2 Emptied\nCHECK_DEADLOCK FALSE\n", workers=CORES)
    T = dict(module="TracePath", exe="scan")
    c.conform("scan", 27000, [], kind=3, note="every sequence of three boxes on a 4x2 grid", **T)
    c.conform("scan", c.q(120000, 1500000), [], note="up to 24 boxes with equal coordinates, repeated scans, later insertions", **T)


def c20(c):
    prep(c, drivers=["fn"], tables=False)
    c.conform("help", c.q(150000, 2000000), [], module="TracePath", exe="fn", note="vectors, rectangles, lines on integer arguments")


def math(c):
    """the function drivers and the arithmetic the function specifications rest on"""
    t = c.pool.submit(c.model, "BigTest", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n")
    prep(c, drivers=["fn"], tables=False)
    t.result()
    return dict(module="TraceMath", exe="fn")


def c12(c):
    M = math(c)
    c.conform("seg", 5184, [], kind=3, note="every pair of segments on the 3x3 grid", **M)
    c.conform("seg", 57600, [], kind=4, note="every pair of segments on the 4x4 grid", **M)
    if c.tier == "thorough":
        c.conform("seg", 360000, [], kind=5, note="every pair of segments on the 5x5 grid", **M)
    c.conform("seg", c.q(60000, 600000), [], note="random, touching and collinear segments at scales 2^-20 to 2^20", **M)


def c13(c):
    M = math(c)
    c.conform("lcub", c.q(240000, 4000000), [], every=c.q(12, 40), note="random and degenerate cubics against random, axis-parallel and end-touching lines", **M)


def c14(c):
    M = math(c)
    c.conform("ccub", c.q(20000, 300000), [], note="pairs of cubics with up to nine crossings, identical and reversed ones, four precisions", **M)


def c15(c):
    M = math(c)
    c.conform("bez", c.q(24000, 400000), [], note="split, split_y, get_boundary, point_at_y, point_at and circle", **M)


def c16(c):
    M = math(c)
    c.conform("solve", c.q(20000, 300000), [], note="integer polynomials of degree up to three, known multiple roots", **M)


def c18(c):
    prep(c)
    c.conform("api", c.q(20000, 250000), ["api"], every=c.q(300, 3000), tables=c.tab)


def c19(c):
    prep(c)
    laws(c, "Measure", 2, 3, c.q(6, 1))
    c.conform("area", c.q(16000, 200000), ["area"], every=c.q(300, 3000), tables=c.tab)


ENGINE_ASSUMES = ["coordinates stay below 2^13 quanta so that TLC's 32-bit integers are exact", "the driver's screening chooses which of the executed cases TLC judges; a fixed share is forwarded regardless"]
TV = "TLA+/TLC: "
BOUND = "Holds for every case explored (counts in the evidence file); inputs outside the generated families are not covered. Trusted: TLC, the driver's recording of calls and outputs, g++."
FBOUND = "Holds for every call recorded (counts in the evidence file), up to the tolerances written in Rmath.tla; calls TLC marks undecided (tangential or unresolvably close) are only checked for soundness. Trusted: TLC, the driver's recording, g++."
CHECKS = {
    "C01": dict(run=c01, technique=TV + "sweep model SweepMC shown equal to River and its inputs replayed; oracle tables and trace validation of River; exhaustive small polygon pairs plus random degenerate grid shapes", note=BOUND),
    "C02": dict(run=c02, technique=TV + "trace validation of River with cubic edges in fixed-point arithmetic", note=BOUND),
    "C03": dict(run=c03, technique=TV + "boundary-form law model-checked, output contours validated against it", note=BOUND),
    "C04": dict(run=c04, technique=TV + "trace validation of edge and vertex provenance", note=BOUND),
    "C05": dict(run=c05, technique=TV + "trace validation of complete histories recorded under sanitizers, heap balance", note=BOUND),
    "C06": dict(run=c06, technique=TV + "presentation laws model-checked, pairs of executions validated", note=BOUND),
    "C07": dict(run=c07, technique=TV + "transform laws model-checked, transformed executions validated", note=BOUND),
    "C08": dict(run=c08, technique=TV + "histories generated from RiverMC replayed on the library, recorded histories validated", note=BOUND),
    "C09": dict(run=c09, technique=TV + "interleavings generated from RiverMC replayed on the library, recorded interleavings validated", note=BOUND),
    "C10": dict(run=c10, technique=TV + "path objects as a state machine (stored form against elements), recorded histories validated", note="Holds for every history or text recorded (counts in the evidence file). Trusted: TLC, the driver's recording, g++."),
    "C11": dict(run=c11, technique=TV + "character-level grammar with laws model-checked, exhaustive short texts and random texts validated", note="Holds for every history or text recorded (counts in the evidence file). Trusted: TLC, the driver's recording, g++."),
    "C12": dict(run=c12, technique=TV + "exact-arithmetic specification of segment intersection, exhaustive grid pairs and random calls validated", note=FBOUND),
    "C13": dict(run=c13, technique=TV + "certified root isolation in exact arithmetic, recorded calls validated", note=FBOUND),
    "C14": dict(run=c14, technique=TV + "certified crossings in fixed-point arithmetic, recorded calls validated", note=FBOUND),
    "C15": dict(run=c15, technique=TV + "exact blossoms, bounds and root isolation, recorded calls validated", note=FBOUND),
    "C16": dict(run=c16, technique=TV + "exact root isolation of integer polynomials, recorded calls validated", note=FBOUND),
    "C17": dict(run=c17, technique=TV + "sweep model checked on all small box sets, recorded scans validated", note="Holds for every history or text recorded (counts in the evidence file). Trusted: TLC, the driver's recording, g++."),
    "C18": dict(run=c18, technique=TV + "trace validation of the four interface combinations against each other", note=BOUND),
    "C19": dict(run=c19, technique=TV + "measure laws model-checked, exact areas of recorded results validated", note=BOUND),
    "C20": dict(run=c20, technique=TV + "exact integer specification, recorded calls validated", note="Holds for every history or text recorded (counts in the evidence file). Trusted: TLC, the driver's recording, g++."),
}
for k in CHECKS:
    CHECKS[k].setdefault("assumptions", ENGINE_ASSUMES)


def replay(c, info):
    prep(c, drivers=[info["exe"]], san=info.get("san", False), tables=info["exe"] == "drv")
    opts = dict(info["opts"])
    if info["exe"] == "drv" and c.tab and info["mode"] not in ("script", "words"):
        opts["tables"] = c.tab
    e = c.exes[("san_" if info.get("san") else "") + info["exe"]]
    case, frm = info["case"], None
    for k in ("script", "words"):
        if k in info:   # the one line is case 0 of its file
            opts[k], opts["base"], opts["every"], frm = c.path(k + ".txt"), case, 1, 0
            open(opts[k], "w").write(info[k])
    rej, out, err = c.one_case(info["mode"], case, info["checks"], info["module"], e, None, opts, frm=frm)
    print("rejected again: %s" % rej[0][3] if rej else "accepted now")
    if rej:
        c.violations.append(1)
