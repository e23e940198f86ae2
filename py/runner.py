"""Runs monitor shards, attributes crashes and hangs to cases, merges what the
monitors observed, matches violations against the known findings, and writes
the evidence file."""
import glob
import json
import os
import re
import struct
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import build

EVID = os.path.join(build.HERE, "evidence")
GRACE = 45  # seconds the other monitors get once one has reported
KNOWN = os.path.join(build.HERE, "known-findings.txt")

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:hard_rss_limit_mb=3500:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=1:max_allocation_size_mb=4096:"
                    "strict_string_checks=1:detect_invalid_pointer_pairs=0:malloc_fill_byte=190:"
                    "max_malloc_fill_size=4096:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=96",
}


def clean_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ASAN_", "UBSAN_", "MALLOC_"))}
    e.update(SAN_ENV)
    e["LC_ALL"] = "C.UTF-8"
    if extra:
        e.update(extra)
    return e


def known_findings(prop):
    """[(key, text)] of the recorded, unrepaired findings of a property."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Run:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.events, self.distinct, self.samples = {}, set(), []
        self.cases = self.evals = 0
        self.viol = []          # (key, detail, replay dict)
        self.inconclusive = []
        self.rules = []
        self.errors = []
        self.notes = {}
        self.n = 0
        self.first = None       # when the first violation was reported
        self.flag = os.path.join(scratch, "reported")
        self.known = set(k for k, _ in known_findings(prop))

    # ---- observation ------------------------------------------------------
    def count(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def seen(self, d):
        self.distinct.add(str(d))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s[:300])

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def violation(self, key, detail, replay):
        self.viol.append((key, detail, replay))
        self.note(key)

    # Once something is broken there is an answer: what is still running gets a
    # while to report too, and then it is stopped (code that got slow, or hangs,
    # would otherwise keep the check from ending).
    def note(self, key):
        if self.first is None and key not in self.known:
            self.first = time.time()

    def over(self):
        if self.first is None and os.path.exists(self.flag):
            for k in open(self.flag, errors="replace").read().splitlines():
                self.note(k)
        return self.first is not None and time.time() - self.first > GRACE

    # ---- monitor processes --------------------------------------------------
    def _tmp(self, what):
        self.n += 1
        return os.path.join(self.scratch, "%s%d" % (what, self.n))

    def _spawn(self, exe, module, seed, start, count, env=None, wrap=(), limit=None, tag=""):
        base = os.path.join(self.scratch, "%s-%s%d-%d" % (module, tag, start, count))
        out, prog, err = base + ".json", base + ".prog", base + ".err"
        sc = base + ".d"
        os.makedirs(sc, exist_ok=True)
        for p in (out, prog):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [w.replace("{LOG}", err + ".san.vg") for w in wrap] + [exe, module, str(seed), str(start), str(count), out, prog, sc, self.tier]
        e = clean_env(env)
        e["MON_FLAG"] = self.flag
        timed_out = stopped = False
        t0 = time.time()
        with open(err, "wb") as ef:
            for k in ("ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS"):
                e[k] += ":log_path=" + err + ".san"
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=ef, env=e)
            while True:
                try:
                    so, _ = p.communicate(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    timed_out = time.time() - t0 > (limit or 3000)
                    stopped = self.over()
                    if timed_out or stopped:
                        p.kill()
                        so, _ = p.communicate()
                        break
        idx = None
        try:
            with open(prog, "rb") as f:
                b = f.read(24)
            idx, hang, fin = struct.unpack("<QQQ", b)
        except Exception:
            hang = fin = 0
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except Exception:
                res = None
        viols = []
        for line in so.decode(errors="replace").splitlines():
            f = line.split("\t")
            if f[0] == "VIOL" and len(f) >= 4:
                viols.append((f[1], int(f[2]), f[3]))
        errtxt = ""
        for x in [err] + sorted(glob.glob(glob.escape(err) + ".san*")):
            if os.path.exists(x):
                errtxt += open(x, "rb").read()[-20000:].decode(errors="replace")
                os.unlink(x)
        return dict(rc=p.returncode, idx=idx, hang=bool(hang), fin=bool(fin), res=res,
                    viols=viols, err=errtxt, timed_out=timed_out, stopped=stopped, cmd=cmd)

    @staticmethod
    def crash_key(module, r):
        """A stable name for a crash: what happened, and where in the library."""
        kind = "exit%s" % r["rc"]
        if r["hang"] or r["timed_out"]:
            kind = "hang"
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", r["err"])
        if m:
            kind = "asan-" + m.group(1)
        m = re.search(r"WARNING: ThreadSanitizer: ([^\(\n]+)", r["err"])
        if m:
            kind = "tsan-" + m.group(1).strip().replace(" ", "-")
        m = re.search(r"runtime error: ([a-z ]+)", r["err"])
        if m:
            kind = "ubsan-" + m.group(1).strip().replace(" ", "-")[:40]
        if "LeakSanitizer" in r["err"]:
            kind = "leak"
        if re.search(r"ERROR SUMMARY: [1-9]", r["err"]):
            m = re.search(r"==\d+== ((?:Conditional|Use of|Invalid|Syscall|Source and)[^\n]*)", r["err"])
            kind = "memcheck-" + (m.group(1)[:40].replace(" ", "-") if m else "error")
        where = ""
        for m in re.finditer(r"(?:#\d+ 0x\S+ in|(?:at|by) 0x[0-9A-F]+:) (?:h264nal::)?([\w:~]+)[^\n]*?"
                             r"(?:/src/|\()(h264\w+\.cc|rtc_\w+\.cc)", r["err"]):
            where = m.group(1) + "@" + m.group(2)
            break
        return "crash %s %s %s" % (module, kind, where)

    def _merge(self, res):
        self.cases += res["cases"]
        self.evals += res["evals"]
        for k, v in res["events"].items():
            if k.startswith("maximum_"):
                self.events[k] = max(self.events.get(k, 0), v)
            else:
                self.events[k] = self.events.get(k, 0) + v
        self.distinct.update(res["module"] + ":" + d for d in res["distinct"])
        for s in res["samples"]:
            self.sample(s)
        self.rule(res["rule"])

    def shards(self, exe, module, total, env=None, wrap=(), crashes_only=False, tag="",
               variant="", jobs=None, chunks=None):
        """Run `total` cases of a monitor module, split over the cores."""
        jobs = jobs or build.JOBS
        chunks = chunks or jobs
        per = max(1, (total + chunks - 1) // chunks)
        parts = [(s, min(per, total - s)) for s in range(0, total, per)]
        env = dict(env or {})
        if crashes_only:
            env["MON_IGNORE"] = "1"

        def replay(start, count):
            return dict(kind="monitor", variant=variant, exe=os.path.basename(exe), module=module,
                        seed=self.seed, start=start, count=count, env=env, wrap=list(wrap),
                        tier=self.tier)

        def one(part):
            start, count = part
            end = start + count
            out = []
            crashes = 0
            while start < end:
                if self.over():
                    return out
                r = self._spawn(exe, module, self.seed, start, end - start, env, wrap, tag=tag)
                if r["stopped"]:
                    out.append(("stopped", r, start))
                    return out
                if r["rc"] in (0, 3) and r["res"] is not None:
                    out.append(("ok", r, start))
                    return out
                # the process died: in which case?
                idx = r["idx"]
                if idx is None or not (start <= idx < end):
                    out.append(("error", r, start))
                    return out
                r2 = self._spawn(exe, module, self.seed, idx, 1, env, wrap, tag=tag + "r")
                if r2["stopped"]:
                    return out
                reported = re.search(r"(Address|Thread)Sanitizer|runtime error:|==\d+== \w", r["err"])
                if reported and r2["rc"] in (0, 3):
                    # a report of the instrumentation stands on its own
                    self.note(self.crash_key(module, r))
                    out.append(("crash", r, (start, idx - start + 1)))
                elif r2["rc"] not in (0, 3) or r2["res"] is None:
                    self.note(self.crash_key(module, r2))
                    out.append(("crash", r2, (idx, 1)))
                else:
                    r3 = self._spawn(exe, module, self.seed, start, end - start, env, wrap,
                                     tag=tag + "s")
                    if r3["stopped"]:
                        return out
                    if r3["rc"] not in (0, 3) or r3["res"] is None:
                        self.note(self.crash_key(module, r3))
                        out.append(("crash", r3, (start, idx - start + 1)))
                    else:
                        out.append(("flaky", r, (idx, 1)))
                        out.append(("ok", r3, start))
                        return out
                crashes += 1
                if crashes >= 2:
                    return out
                start = idx + 1
            return out

        with ThreadPoolExecutor(jobs) as ex:
            results = list(ex.map(one, parts))
        for part in results:
            for what, r, pos in part:
                if what in ("ok", "stopped"):
                    if r["res"] is not None:
                        self._merge(r["res"])
                    if not crashes_only:
                        for key, idx, detail in r["viols"]:
                            self.violation(key, detail, replay(idx, 1))
                elif what == "crash":
                    key = self.crash_key(module, r)
                    txt = r["err"].strip().splitlines()
                    head = [x for x in txt if "ERROR" in x or "runtime error" in x or "WARNING: Thr" in x
                            or "SUMMARY" in x]
                    self.cases += 1
                    self.evals += 1
                    self.violation(key, " / ".join(head)[:1000] or "process died, exit %s" % r["rc"],
                                   replay(*pos))
                elif what == "flaky":
                    self.inconclusive.append("%s case %s died once (exit %s) and not again" %
                                             (module, pos, r["rc"]))
                else:
                    self.errors.append("%s: monitor failed: exit %s %s" %
                                       (module, r["rc"], r["err"][-500:]))

    # ---- verdict --------------------------------------------------------------
    def finish(self, t0, spec):
        os.makedirs(EVID, exist_ok=True)
        known = known_findings(self.prop)
        fresh, hit = [], {}
        for key, detail, rep in self.viol:
            k = next((t for kk, t in known if kk == key), None)
            if k is not None:
                hit[key] = k
            else:
                fresh.append((key, detail, rep))
        missing = [k for k in spec.get("require", []) if not self.events.get(k)]
        floor = spec.get("floor", 20)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.cases,
                "oracle_evaluations": self.evals,
                "distinct_nontrivial": len(self.distinct),
                "rule": "; ".join(self.rules),
                "samples": self.samples or ["(none)"],
                "events": dict(sorted(self.events.items())),
                "inconclusive": self.inconclusive,
                "exhaustive": False,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh),
        }
        ev["coverage"].update(self.notes)
        if self.errors:
            ev["coverage"]["errors"] = self.errors[:10]
        tmp = os.path.join(EVID, self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, self.prop + ".json"))
        for key in hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, hit[key]))
        if fresh:
            seen = set()
            for key, detail, rep in fresh:
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 8:
                    break
                path = os.path.join(EVID, "replay-%s-%d.json" % (self.prop, len(seen)))
                rep = dict(rep)
                rep.update(property=self.prop, key=key, detail=detail)
                with open(path, "w") as f:
                    json.dump(rep, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  %s: %s" % (key, detail[:600]))
            return 1
        if self.errors:
            print("ERROR: " + " | ".join(self.errors)[:2000])
            return 2
        if missing or len(self.distinct) < floor:
            print("ERROR: the monitors observed too little: missing %s, distinct %d" %
                  (missing, len(self.distinct)))
            return 2
        print("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs" %
              (self.prop, self.tier, self.seed, self.cases, self.evals, len(self.distinct),
               time.time() - t0))
        return 0
