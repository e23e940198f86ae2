"""What each property's check runs."""
import glob
import os
import shutil

import build


def mon(module, quick, thorough, variant="plain", chunks=None, jobs=None):
    def run(r):
        exe = build.prepare([variant])[variant]
        r.shards(exe, module, quick if r.tier == "quick" else thorough, variant=variant,
                 chunks=chunks, jobs=jobs)
    run.variants = [variant]
    return run


# modules of the plain build, and how many of their cases the memory check
# runs under the sanitizers: (quick, thorough)
WATCHED = {"P02": (3000, 40000), "P03": (3000, 40000), "P04": (12000, 200000),
           "P05": (1500, 30000), "P06": (1500, 30000), "P07": (1500, 30000),
           "P08": (1500, 30000), "P09": (1500, 20000), "P10": (800, 16000),
           "P11": (1500, 20000), "P12": (2000, 20000), "P14": (1000, 20000),
           "P15": (800, 10000), "P16": (1500, 20000), "P19": (1500, 20000),
           "P23": (400, 8000), "P24": (500, 10000), "P25": (800, 16000)}


def p01(r):
    exe = build.prepare(["asan"])["asan"]
    q = r.tier == "quick"
    r.shards(exe, "P01", 16000 if q else 400000, variant="asan", chunks=16)
    for m, (a, b) in WATCHED.items():
        r.shards(exe, m, a if q else b, variant="asan", crashes_only=True,
                 env={"P25_DIR": build.REPO + "/media"})
    rel = build.prepare(["asan_rel"])["asan_rel"]
    for m, a, b in (("P01", 3000, 100000), ("P04", 12000, 200000), ("P09", 800, 10000),
                    ("P11", 800, 10000), ("P12", 1000, 10000)):
        r.shards(rel, m, a if q else b, variant="asan_rel", crashes_only=True, tag="rel")

    # uninitialised values: the one thing the sanitizers above do not see
    vg = build.prepare(["vg"])["vg"]
    wrap = ["valgrind", "-q", "--exit-on-first-error=yes", "--error-exitcode=95",
            "--undef-value-errors=yes", "--leak-check=no", "--log-file={LOG}"]
    for m, a, b in (("P01", 320, 6000), ("P05", 64, 1500), ("P07", 64, 1500), ("P08", 96, 2000),
                    ("P11", 64, 1500), ("P14", 64, 1500), ("P06", 48, 1000), ("P16", 48, 1000)):
        n0 = r.cases
        r.shards(vg, m, a if q else b, variant="vg", crashes_only=True, wrap=wrap, tag="vg")
        r.count("memcheck_cases", r.cases - n0)


p01.variants = ["asan", "asan_rel", "vg"]

def p13(r):
    b = build.prepare(["plain", "tool", "tool_asan"])
    q = r.tier == "quick"
    for t, n in (("tool", 16000 if q else 300000), ("tool_asan", 4000 if q else 60000)):
        r.shards(b["plain"], "P13", n, env={"P13_TOOL": b[t]}, variant="plain", tag=t)
    small = build.prepare_if_it_builds("tool_small")
    if small:
        r.shards(b["plain"], "P13", 3000 if q else 40000, variant="plain", tag="small",
                 env={"P13_TOOL": small, "P13_SMALL": "1"})


p13.variants = ["plain", "tool", "tool_asan"]
p13.optional = ["tool_small"]


def p21(r):
    b = build.prepare(["plain", "tool"])
    r.shards(b["plain"], "P21", 2800 if r.tier == "quick" else 24000, variant="plain",
             env={"P13_TOOL": b["tool"], "P21_DIR": build.REPO + "/tools"})


p21.variants = ["plain", "tool"]


def p25(r):
    b = build.prepare(["plain"])
    r.shards(b["plain"], "P25", 12000 if r.tier == "quick" else 300000, variant="plain",
             env={"P25_DIR": build.REPO + "/media"})


p25.variants = ["plain"]


def p22(r):
    b = build.prepare(["plain", "tool"])
    r.shards(b["plain"], "P22", 1600 if r.tier == "quick" else 24000, variant="plain",
             env={"P13_TOOL": b["tool"], "P21_DIR": build.REPO + "/tools"})


p22.variants = ["plain", "tool"]


def p04(r):
    b = build.prepare(["plain", "plain_rel"])
    q = r.tier == "quick"
    r.shards(b["plain"], "P04", 1000000 if q else 20000000, variant="plain")
    n0 = r.cases
    r.shards(b["plain_rel"], "P04", 300000 if q else 4000000, variant="plain_rel", tag="rel")
    r.count("release_build_cases", r.cases - n0)


p04.variants = ["plain", "plain_rel"]

DIGEST = ["d_clang_o0", "d_clang_o3", "d_gcc_o2", "d_pattern", "d_zero", "d_release"]


def p20(r):
    """The same exported cases through every build; digests must agree."""
    b = build.prepare(["plain"] + DIGEST)
    builds = list(DIGEST)
    small = build.prepare_if_it_builds("d_small")
    if small:
        b["d_small"] = small
        builds.append("d_small")
    n = 3000 if r.tier == "quick" else 60000
    r.shards(b["plain"], "EXPORT", n, variant="plain", crashes_only=True)
    exported, r.cases, r.distinct, r.rules, r.samples = r.cases, 0, set(), [], []
    path = os.path.join(r.scratch, "cases.bin")
    parts = glob.glob(os.path.join(r.scratch, "EXPORT-*.d", "cases.bin"))
    parts.sort(key=lambda p: int(os.path.basename(os.path.dirname(p)).split("-")[1]))
    with open(path, "wb") as f:
        for p in parts:
            with open(p, "rb") as g:
                shutil.copyfileobj(g, f)
            os.unlink(p)
    got = {}
    for v in builds:
        r.shards(b[v], "P20", exported, env={"P20_CASES": path}, variant=v, tag=v)
        got[v] = {}
        for p in glob.glob(os.path.join(r.scratch, "P20-%s*.d" % v, "digests.txt")):
            for line in open(p):
                w = line.split()
                if len(w) == 4:
                    got[v][int(w[0])] = (w[1], w[2], w[3])
            os.unlink(p)
    ref = got[DIGEST[0]]
    for v in builds[1:]:
        shown = 0
        for i, d in got[v].items():
            if i not in ref:
                continue
            r.evals += 1
            r.count("compared " + v)
            small = v == "d_small"
            bad = d[0] != ref[i][0] or (not small and d[1] != ref[i][1])
            if bad and shown < 2:
                shown += 1
                what = "result" if d[0] != ref[i][0] else "dump"
                r.violation("P20:build:" + v + ":" + what,
                            "case %d: build %s gives another %s than %s (%s units, %s units)" %
                            (i, v, what, DIGEST[0], d[2], ref[i][2]),
                            dict(kind="cases", builds=[DIGEST[0], v], case=i, seed=r.seed,
                                 tier=r.tier))
    r.sample("%d cases through %d builds" % (exported, len(builds)))


p20.variants = ["plain"] + DIGEST
p20.optional = ["d_small"]

PLAN = {
    "P01": dict(run=p01),
    "P02": dict(run=mon("P02", 120000, 1200000)),
    "P03": dict(run=mon("P03", 200000, 3000000)),
    "P04": dict(run=p04, require=["release_build_cases"]),
    "P05": dict(run=mon("P05", 80000, 1500000)),
    "P06": dict(run=mon("P06", 80000, 1500000)),
    "P07": dict(run=mon("P07", 80000, 1500000)),
    "P08": dict(run=mon("P08", 80000, 1500000)),
    "P09": dict(run=mon("P09", 16000, 500000)),
    "P10": dict(run=mon("P10", 24000, 500000)),
    "P11": dict(run=mon("P11", 40000, 800000)),
    "P12": dict(run=mon("P12", 120000, 2000000)),
    "P13": dict(run=p13),
    "P14": dict(run=mon("P14", 80000, 1500000)),
    "P15": dict(run=mon("P15", 120000, 2000000)),
    "P16": dict(run=mon("P16", 120000, 2000000)),
    "P17": dict(run=mon("P17", 1600, 30000, variant="tsan", chunks=64, jobs=4), floor=100),
    "P18": dict(run=mon("P18", 8000, 150000, variant="count")),
    "P19": dict(run=mon("P19", 100000, 2000000)),
    "P20": dict(run=p20, require=["compared " + v for v in DIGEST[1:]]),
    "P21": dict(run=p21),
    "P23": dict(run=mon("P23", 20000, 400000)),
    "P24": dict(run=mon("P24", 60000, 1200000)),
    "P25": dict(run=p25, require=["traced_streams", "traced_elements"]),
    "P22": dict(run=p22, require=["mmco_%d" % k for k in range(1, 7)] + [
        "frame_num_wraps", "list_modifications", "sliding_window_removals"]),
}


def optional_variants():
    return [v for p in PLAN.values() for v in getattr(p["run"], "optional", [])]


def all_variants():
    s = []
    for p in PLAN.values():
        for v in getattr(p["run"], "variants", []):
            if v not in s:
                s.append(v)
    return s
