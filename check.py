#!/usr/bin/env python3
"""Build the library from /repo's working tree, run the monitors of one property
and write evidence/<id>.json.

usage: check.py ID [quick|thorough]        exit 0 held, 1 violation, 2 no answer
       check.py --replay FILE              rerun the case recorded in a replay file
"""
import concurrent.futures as cf
import fnmatch
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props_cfg import PROPS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
KNOWN = os.path.join(HERE, "known_findings.txt")
CXXSTD = ["-std=gnu++20", "-w", "-g1", "-fno-omit-frame-pointer", "-DNDEBUG"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
VARIANTS = {
    # compiler, flags for the library, flags for the harness
    "rel": ("g++", ["-O2", "-ftrivial-auto-var-init=pattern"], ["-O1"]),
    "asan": ("clang++", ["-O1"] + SAN, ["-O1"]),
    "hard": ("clang++", ["-O1", "-D_GLIBCXX_ASSERTIONS"] + SAN, ["-O1"]),
    "tsan": ("clang++", ["-O1", "-fsanitize=thread"], ["-O1", "-fsanitize=thread"]),
}


class NoAnswer(Exception):
    pass


def run_cc(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def lib_sources(kind, everything=False):
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    srcs = [s for s in srcs if "/pybind/" not in s]
    if not everything and kind == "segy":
        srcs = [s for s in srcs if "SEGD" not in os.path.basename(s)]
    if not everything and kind == "segd":
        srcs = [s for s in srcs if "SEGY" not in os.path.basename(s)]
    if not everything and kind == "base":
        srcs = [s for s in srcs if "SEGY" not in os.path.basename(s) and "SEGD" not in os.path.basename(s)]
    return srcs


def build(cfg, variants, work, ex):
    """compile library and harness for every variant in parallel, return {variant: binary}"""
    def attempt(everything):
        jobs = {}
        for v in variants:
            cxx, lf, hf = VARIANTS[v]
            inc = ["-I" + REPO + "/include", "-I" + H]
            for s in lib_sources(cfg["lib"], everything):
                o = "%s/%s.lib.%s.o" % (work, v, s[len(REPO) + 1:].replace("/", "_"))
                jobs[o] = [cxx] + CXXSTD + lf + inc + ["-c", s, "-o", o]
            for s in [H + "/alloc.cpp"] + [H + "/" + x for x in cfg["src"]]:
                o = "%s/%s.mon.%s.o" % (work, v, os.path.basename(s))
                fl = hf + (cfg.get("hflags", []))
                if cfg.get("san_harness") and v in ("asan", "hard"):
                    fl = lf + cfg.get("hflags", [])
                jobs[o] = [cxx] + CXXSTD + fl + inc + ["-c", s, "-o", o]
        # big units first, so that they do not become the tail
        order = sorted(jobs, key=lambda o: -os.path.getsize(jobs[o][-3]))
        res = {o: ex.submit(run_cc, jobs[o]) for o in order}
        for o in order:
            r = res[o].result()
            if r.returncode:
                raise NoAnswer("does not compile: %s\n%s" % (" ".join(jobs[o]), r.stdout[-3000:]))
        out = {}
        for v in variants:
            cxx, lf, hf = VARIANTS[v]
            objs = sorted(o for o in jobs if os.path.basename(o).startswith(v + ".lib."))
            objs += sorted(o for o in jobs if os.path.basename(o).startswith(v + ".mon."))
            b = "%s/mon.%s" % (work, v)
            r = run_cc([cxx] + lf + objs + ["-o", b, "-lpthread", "-ldl"] + cfg.get("ldflags", []))
            if r.returncode:
                return None, r.stdout
            out[v] = b
        return out, ""
    out, err = attempt(False)
    if out is None:
        out, err = attempt(True)
    if out is None:
        raise NoAnswer("does not link:\n" + err[-3000:])
    return out


def sanitizer_key(err):
    """short, stable name of a sanitizer report: what happened in which library function"""
    kind = None
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        kind = m.group(2)
        if m.group(1) == "LeakSanitizer":
            kind = "leak"
    m2 = re.search(r"runtime error: (.*)", err)
    if m2 and not (m and m.start() < m2.start()):
        kind = "ub:" + re.sub(r"0x[0-9a-f]+|-?[0-9][0-9.e+]*|'[^']*'", "N", m2.group(1))[:60]
    if "WARNING: ThreadSanitizer" in err:
        m3 = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", err)
        kind = "tsan:" + m3.group(1).strip()
    if kind is None:
        if "Assertion" in err:
            kind = "assertion"
        elif "terminate called" in err:
            kind = "terminate"
    where = ""
    for fr in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):\d+", err):
        if fr.group(2).startswith(REPO + "/"):
            where = re.sub(r"\(.*", "", fr.group(1))
            break
    return kind, where


class Runner:
    def __init__(self, pid, cfg, tier, seed, work):
        self.pid, self.cfg, self.tier, self.seed, self.work = pid, cfg, tier, seed, work

    def env(self, leaks):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = ("exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:"
                             "detect_leaks=%d:malloc_context_size=12:max_malloc_fill_size=8192:"
                             "malloc_fill_byte=165:handle_abort=1" % leaks)
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
        e["LC_ALL"] = "C"
        return e

    def once(self, binary, variant, seed, tag, case=None, leaks=None, stall=None):
        """one run of a monitor binary; returns dict with result or a crash/hang violation"""
        if leaks is None:
            leaks = 1 if variant in ("asan", "hard") else 0
        d = os.path.join(self.work, tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        out, st, err = d + "/out.json", d + "/status", d + "/stderr"
        cmd = [binary, "--prop", self.pid, "--seed", str(seed), "--tier", self.tier, "--out", out, "--scratch", d,
               "--status", st, "--variant", variant]
        if case:
            cmd += ["--case", case]
        stall = stall or self.cfg.get("stall", 90 if self.tier == "quick" else 240)
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=ef, env=self.env(leaks), start_new_session=True, cwd=d)
            last, since = None, time.time()
            hung = big = False
            while True:
                try:
                    p.wait(0.05 if time.time() - since < 2 else 0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                cur = self.status(st)
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > stall:
                    hung = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
                if self.rss(p.pid) > 14 << 30:
                    big = True
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
                if os.path.getsize(err) > 8 << 20:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    break
        rc = p.returncode
        etxt = open(err, errors="replace").read()[:200000]
        stt = self.status(st)
        res = {"variant": variant, "seed": seed, "rc": rc, "viol": [], "out": None, "sig": set()}
        if os.path.exists(out):
            try:
                res["out"] = json.load(open(out))
            except ValueError:
                pass
            try:
                b = open(out + ".sig", "rb").read()
                res["sig"] = set(struct.unpack("<%dQ" % (len(b) // 8), b))
            except OSError:
                pass
        here = dict(variant=variant, seed=seed, case="%s:%d" % (stt[1], stt[0]) if stt else "?", note=stt[2] if stt else "")
        if res["out"] is None:  # it did not come to writing its results, but said what it saw
            for m in re.finditer(r"^MONITOR\[\S+ \S+\] case (\S+:\d+): (\S+): (.*)$", etxt, re.M):
                res["viol"].append(dict(variant=variant, seed=seed, case=m.group(1), key=m.group(2), msg=m.group(3), note=""))
        if hung:
            res["viol"].append(dict(here, key="hang/%s" % here["case"].split(":")[0],
                                    msg="no progress for %d s: the call does not return" % stall, hang=True))
        elif big:
            res["viol"].append(dict(here, key="memory/%s" % here["case"].split(":")[0], msg="more than 14 GB of memory in use"))
        elif rc == 3:
            raise NoAnswer("harness error in %s: %s" % (variant, etxt[-2000:]))
        elif rc in (0, 10) and res["out"] is not None:
            for v in res["out"]["violations"]:
                res["viol"].append(dict(variant=variant, seed=seed, case=v["case"], key=v["key"], msg=v["msg"], note=""))
        else:
            kind, where = sanitizer_key(etxt)
            if "LeakSanitizer has encountered a fatal error" in etxt and leaks:
                return self.once(binary, variant, seed, tag, case, 0, stall)
            if kind == "leak":
                here["case"] = "*"
            if kind is None:
                kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
            if not stt or not stt[1]:
                raise NoAnswer("monitor did not start: %s" % etxt[-1500:])
            if rc == -9 and not res["viol"]:
                raise NoAnswer("monitor process was killed (out of memory?): %s" % etxt[-500:])
            m = re.search(r"(ERROR: \w+Sanitizer|runtime error|WARNING: ThreadSanitizer|terminate called|Assertion)", etxt)
            beg = max(0, m.start() - 200) if m else max(0, len(etxt) - 3000)
            res["viol"].append(dict(here, key="crash/%s%s" % (kind, "@" + where if where else ""),
                                    msg="process died: " + kind + (" in " + where if where else ""), report=etxt[beg:beg + 6000]))
        return res

    @staticmethod
    def rss(pid):
        try:
            return int(open("/proc/%d/statm" % pid).read().split()[1]) * 4096
        except (OSError, ValueError, IndexError):
            return 0

    @staticmethod
    def status(p):
        try:
            b = open(p, "rb").read()
        except OSError:
            return None
        if len(b) < 544:
            return None
        idx = struct.unpack_from("<Q", b, 8)[0]
        name = b[32:96].split(b"\0")[0].decode("latin1")
        note = b[96:544].split(b"\0")[0].decode("latin1")
        return (idx, name, note)


def known_findings(pid):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    t0 = time.time()
    if sys.argv[1:2] == ["--setup"]:  # nothing is kept between runs: only see that the tools are there
        for t in ("g++", "clang++"):
            subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
        return 0
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[pid]
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    for old in glob.glob("%s/%s*" % (ev, pid)):
        os.remove(old)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return check(pid, cfg, tier, seed, work, ev, t0)
    except NoAnswer as e:
        print("NO-ANSWER property=%s: %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, cfg, tier, seed, work, ev, t0):
    variants = cfg.get("variants", ["rel", "asan"])
    ncpu = os.cpu_count() or 4
    runner = Runner(pid, cfg, tier, seed, work)
    with cf.ThreadPoolExecutor(ncpu) as ex:
        bins = build(cfg, variants, work, ex)
        t1 = time.time()
        shards = cfg.get("shards_" + tier, {"quick": 2, "thorough": 8}[tier])
        jobs = []
        k = 0
        for s in range(shards):
            for v in variants:
                # every run gets its own seed, the sanitized and the plain build explore different cases
                jobs.append(ex.submit(runner.once, bins[v], v, seed * 1000 + k, "%s-%d" % (v, s)))
                k += 1
        results = [j.result() for j in jobs]
    # a stall is confirmed alone, on an otherwise idle machine
    viols = {}
    allv = [v for r in results for v in r["viol"]]
    known = known_findings(pid)
    sure = any(not v.get("hang") and not any(fnmatch.fnmatchcase(v["key"], k) for k, _ in known) for v in allv)
    for r in results:
        for v in r["viol"]:
            if v.get("hang") and not sure:
                again = runner.once(bins[v["variant"]], v["variant"], v["seed"], "again", case=v["case"], stall=120)
                if not any(x.get("hang") for x in again["viol"]):
                    if again["viol"]:
                        v = again["viol"][0]
                    else:
                        raise NoAnswer("a case stalled once and finished when repeated: %s" % v["case"])
                sure = True  # one confirmed violation is enough
            viols.setdefault(v["key"], v)
    new, hit = [], {}
    for k, v in sorted(viols.items()):
        for pat, what in known:
            if fnmatch.fnmatchcase(k, pat):
                hit[pat] = what
                break
        else:
            new.append(v)
    # ---- evidence
    counters, samples, evals, sig = {}, [], 0, set()
    for r in results:
        sig |= r["sig"]
        o = r["out"]
        if o:
            evals += o["evaluations"]
            for a, b in o["counters"].items():
                counters[a] = counters.get(a, 0) + b
            for x in o["samples"]:
                if len(samples) < 16 and x not in samples:
                    samples.append(x)
    if not new:
        if evals == 0 or not samples:
            raise NoAnswer("monitors observed nothing")
        for want in cfg.get("must_observe", []):
            if not any(fnmatch.fnmatchcase(c, want) and n for c, n in counters.items()):
                raise NoAnswer("the workload never reached %s" % want)
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(sig), "rule": cfg["rule"], "samples": samples or ["(none)"],
            "observed": counters, "runs": [{"variant": r["variant"], "seed": r["seed"], "cases": (r["out"] or {}).get("evaluations", 0)} for r in results],
            "build_s": round(t1 - t0, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if cfg.get("exhaustive"):
        doc["coverage"]["exhaustive_parts"] = cfg["exhaustive"]
    json.dump(doc, open("%s/%s.json" % (ev, pid), "w"), indent=1)
    for pat, what in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if not new:
        print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" % (pid, evals, len(sig), time.time() - t0))
        return 0
    for n, v in enumerate(new):
        rp = "%s/%s.replay%d.json" % (ev, pid, n)
        json.dump(dict(v, property=pid, tier=tier, rerun="python3 check.py --replay " + rp), open(rp, "w"), indent=1)
        print("%s [%s] case %s: %s: %s" % (pid, v["variant"], v["case"], v["key"], v["msg"][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def replay(path):
    v = json.load(open(path))
    pid = v["property"]
    cfg = PROPS[pid]
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
            bins = build(cfg, [v["variant"]], work, ex)
        r = Runner(pid, cfg, v["tier"], v["seed"], work).once(bins[v["variant"]], v["variant"], v["seed"], "replay",
                                                               case=None if v["case"] == "*" else v["case"])
        for x in r["viol"]:
            print(x["key"], x["msg"])
            print(x.get("report", ""))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1 if r["viol"] else 0
    except NoAnswer as e:
        print("NO-ANSWER", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
