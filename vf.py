#!/usr/bin/env python3
"""Driver: builds the harness of a property from /repo's working tree, runs it, decides, writes the evidence file.

  vf.py check C01 [--tier quick|thorough]    decide one property (exit 0 / exit 1 with a VIOLATION line / exit 2: error)
  vf.py replay FILE                          re-run the execution described by a replay file, verbosely
  vf.py build                                build every harness
  vf.py list                                 list the checks
"""
import concurrent.futures as cf
import ctypes
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
REPLAYS = os.path.join(ROOT, "replays")
NCPU = min(8, os.cpu_count() or 1)
HANG_S = int(os.environ.get("VF_HANG_S", "60"))

sys.path.insert(0, ROOT)
from checks import CHECKS, HARNESS  # noqa: E402

COMMON = ["-std=c++20", "-g", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-DFMT_HEADER_ONLY", "-w"]
UB = "-fsanitize=undefined"
VARIANTS = {
    # controlled scheduler + thread sanitizer + undefined behaviour sanitizer
    "tsan": dict(cxx="g++", flags=["-O1", "-fsanitize=thread", UB, "-fno-sanitize=vptr", "-fno-sanitize-recover=all"], ds="tsan"),
    # controlled scheduler + address sanitizer
    "dasan": dict(cxx="g++", flags=["-O1", "-fsanitize=address", UB, "-fno-sanitize-recover=all"], ds="plain"),
    # real threads + thread sanitizer
    "nat": dict(cxx="g++", flags=["-O1", "-fsanitize=thread", UB, "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-DVF_NATIVE"], ds="none"),
    # sequential harnesses: address + undefined behaviour sanitizers
    "asan": dict(cxx="g++", flags=["-O1", "-fsanitize=address", UB, "-fno-sanitize-recover=all"], ds="none"),
}
ENV = {
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:abort_on_error=0:report_signal_unsafe=0:suppressions=%s" % os.path.join(ROOT, "rt", "tsan.supp"),
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=67:detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1:strict_string_checks=1:detect_invalid_pointer_pairs=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=68",
    "LSAN_OPTIONS": "exitcode=69",
    "LC_ALL": "C",
    "TZ": "UTC",
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_sources():
    src = sorted(glob.glob(REPO + "/sdk/src/**/*.cpp", recursive=True))
    return [s for s in src if os.path.basename(s) != "version.cpp"]


def repo_headers():
    return [p for pat in ("/sdk/include/**/*", "/sdk/src/**/*.h", "/sdk/src/**/*.hpp") for p in glob.glob(REPO + pat, recursive=True) if os.path.isfile(p)]


INC_RE = re.compile(r'^[ \t]*#[ \t]*include[ \t]*(?:[<"]([^>"]+)[>"]|(\S))', re.M)
_inc_cache = {}


def closure(src):
    """src and every file of /repo or /verif it may include, or None when that cannot be told from the text."""
    dirs = [i[2:] for i in INCS]
    seen, todo = set(), [src]
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        if f not in _inc_cache:
            with open(f, errors="replace") as h:
                found = INC_RE.findall(h.read())
            if any(other for _, other in found):
                _inc_cache[f] = None
            else:
                names = [n for n, _ in found]
                _inc_cache[f] = [c for n in names for c in (os.path.normpath(os.path.join(d, n)) for d in [os.path.dirname(f)] + dirs) if os.path.isfile(c)]
        if _inc_cache[f] is None:
            return None
        todo += _inc_cache[f]
    return seen


INCS = ["-I" + REPO + "/sdk/include", "-I" + REPO + "/sdk/src", "-I" + REPO + "/sdk/src/datetime", "-I" + ROOT + "/rt", "-I" + ROOT + "/harness"]


class BuildError(Exception):
    misuse = False  # a use of the public interface that the property covers no longer compiles


def compile_obj(cxx, flags, src, out):
    if os.path.exists(out):
        return
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh([cxx] + flags + ["-c", src, "-o", tmp])
    if r.returncode:
        errs = [l for l in r.stdout.splitlines() if "error:" in l][:8]
        e = BuildError("compiling %s failed:\n%s" % (src, "\n".join(errs) or r.stdout[-2000:]))
        # the library's own sources compile, the harness includes what it uses, and the compiler points into the library
        e.misuse = src.startswith(ROOT + "/harness/") and any(REPO + "/" in l for l in r.stdout.splitlines()[:60])
        e.log = r.stdout[:20000]
        raise e
    os.replace(tmp, out)


def build(pairs):
    """pairs: set of (harness, variant). Returns {(harness, variant): path}."""
    os.makedirs(BUILD, exist_ok=True)
    headers = repo_headers()
    rt_files = glob.glob(ROOT + "/rt/*.*pp") + glob.glob(ROOT + "/harness/*.hpp")
    hd = digest(headers + rt_files)
    jobs, links, res = [], [], {}
    seen = set()

    def obj(cxx, flags, src, base):
        files = closure(src)
        key = digest(files or [src], ("" if files else hd) + " ".join([cxx] + flags))
        out = os.path.join(BUILD, "%s-%s.o" % (base, key))
        if out not in seen:
            seen.add(out)
            jobs.append((cxx, flags, src, out))
        return out

    for harness, variant in sorted(pairs):
        v = VARIANTS[variant]
        spec = HARNESS[harness]
        flags = COMMON + v["flags"] + spec.get("flags", []) + INCS
        lflags = COMMON + v["flags"] + INCS
        objs = [obj(v["cxx"], flags, os.path.join(ROOT, "harness", spec.get("src", harness) + ".cpp"), harness + "-" + variant)]
        objs += [obj(v["cxx"], flags, os.path.join(ROOT, "harness", x + ".cpp"), x + "-" + variant) for x in spec.get("extra", [])]
        for s in repo_sources():
            rel = os.path.relpath(s, REPO + "/sdk/src").replace("/", "_")
            if any(re.search(p, rel) for p in spec.get("skip_src", [])):
                continue
            objs.append(obj(v["cxx"], lflags, s, rel + "-" + variant))
        rt = ["-std=c++20", "-O2", "-g", "-fno-tree-loop-distribute-patterns", "-w"] + INCS
        if v["ds"] == "tsan":
            rt = rt + ["-DDS_TSAN"]
        if v["ds"] == "none":
            rt = rt + ["-DDS_NONE"]
        objs.append(obj("g++", rt, ROOT + "/rt/hx.cpp", "hx-" + v["ds"]))
        objs.append(obj("g++", rt, ROOT + "/rt/dsched.cpp", "ds-" + v["ds"]))
        out = os.path.join(BUILD, "%s-%s-%s" % (harness, variant, digest([], "".join(objs))))
        links.append((v, objs, out))
        res[(harness, variant)] = out
    todo = [j for j in jobs if not os.path.exists(j[3])]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [f.exception() for f in [ex.submit(compile_obj, *j) for j in todo]]
        for e in sorted((e for e in errs if e), key=lambda e: getattr(e, "misuse", False)):
            raise e

        def link(v, objs, out):
            if os.path.exists(out):
                return
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh([v["cxx"]] + COMMON + v["flags"] + ["-o", tmp] + objs + ["-rdynamic", "-ldl", "-lpthread"])
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (out, r.stdout[-4000:]))
            os.replace(tmp, out)

        for f in [ex.submit(link, *l) for l in links]:
            f.result()
    return res


# --------------------------------------------------------------------------------------------------------- running
_libc = ctypes.CDLL(None)
_cpu_lock = threading.Lock()
_cpus = list(range(os.cpu_count() or 1))


def preexec(cpu):
    def f():
        _libc.personality(0x0040000)  # no address space randomisation: repeatable runs
        if cpu is not None:
            try:
                os.sched_setaffinity(0, {cpu})
            except OSError:
                pass
        os.setpgid(0, 0)
    return f


SAN_RE = re.compile(r"(WARNING: ThreadSanitizer: [^\n]*|ERROR: AddressSanitizer:? [^\n]*|ERROR: LeakSanitizer: [^\n]*|runtime error: [^\n]*|ThreadSanitizer: CHECK failed[^\n]*|ThreadSanitizer:DEADLYSIGNAL[^\n]*|FATAL: ThreadSanitizer[^\n]*|/usr/include/c\+\+/[^\n]*Assertion '[^\n]*|terminate called[^\n]*)")


def classify(out, rc):
    """(key, detail) for a worker that did not end normally."""
    m = re.search(r"^VF_FAIL (\{.*\})$", out, re.M)
    if m:
        d = json.loads(m.group(1), strict=False)
        return d["key"], d["detail"]
    m = SAN_RE.search(out)
    if m:
        head = m.group(1)
        kind = re.sub(r"0x[0-9a-f]+|pid=\d+|\(.*?\)|==\d+==", "", head).strip()
        kind = re.sub(r"\s+on (unknown )?address.*", "", kind)
        kind = re.sub(r"[-+]?\d[\d.e+]*", "N", kind)
        frames = re.findall(r"#\d+ (.*?) (/[^\s:]+):(\d+)", out[m.start():])
        loc = ""
        for fn, path, ln in frames:
            if path.startswith(REPO + "/"):
                loc = os.path.basename(path)
                break
        if not loc:
            lm = re.search(r"(/repo/[^\s:]+):\d+", out)
            loc = os.path.basename(lm.group(1)) if lm else ""
        return ("san:%s@%s" % (kind, loc)).replace(" ", "_"), out[m.start():m.start() + 6000]
    if rc < 0:
        return "signal:%d" % -rc, out[-3000:]
    return "exit:%d" % rc, out[-3000:]


def worker(binary, mode, base, start, count, cpu, tmp, tier, hang_s):
    """Run one process. Returns dict(status=ok|fail|hang|killed, ...)."""
    pref = os.path.join(tmp, "w%d-%d" % (start, time.monotonic_ns()))
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_TIER"] = tier
    env["VF_SCRATCH"] = pref + ".scratch"
    env["VF_WORKER"] = str(cpu if cpu is not None else 0)
    logp = pref + ".log"
    with open(logp, "wb") as log:
        p = subprocess.Popen([binary, mode, str(base), str(start), str(count), pref], stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, preexec_fn=preexec(cpu), cwd=tmp)
        last, last_t = None, time.monotonic()
        hang = False
        while True:
            try:
                p.wait(timeout=0.2 if time.monotonic() - last_t < 5 else 1)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                with open(pref + ".prog", "rb") as f:
                    cur = f.read(8)
            except OSError:
                cur = b""
            if cur != last:
                last, last_t = cur, time.monotonic()
            elif time.monotonic() - last_t > hang_s:
                hang = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.wait()
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)  # anything it left behind
        except OSError:
            pass
    it = start
    try:
        with open(pref + ".prog", "rb") as f:
            it = struct.unpack("<Q", f.read(8))[0]
    except (OSError, struct.error):
        pass
    with open(logp, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 2000000))
        out = f.read().decode("utf-8", "replace")
    r = dict(iter=it, out=out, rc=p.returncode, start=start)
    if hang:
        r["status"] = "hang"
    elif p.returncode == 0 and os.path.exists(pref + ".states"):
        r["status"] = "ok"
        with open(pref + ".stats") as f:
            r.update(json.load(f))
        with open(pref + ".states", "rb") as f:
            r["states"] = f.read()
    elif p.returncode == -9:
        r["status"] = "killed"
    else:
        r["status"] = "fail"
        r["key"], r["detail"] = classify(out, p.returncode)
    for e in (".prog", ".stats", ".states", ".log"):
        try:
            os.unlink(pref + e)
        except OSError:
            pass
    shutil.rmtree(pref + ".scratch", ignore_errors=True)
    return r


def load_findings():
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                res.append(dict(property=m.group(1), key=m.group(2), what=m.group(3)))
    return res


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    jobs = spec["jobs"]
    try:
        bins = build({(j["bin"], j["build"]) for j in jobs})
    except BuildError as e:
        if e.misuse:
            os.makedirs(REPLAYS, exist_ok=True)
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            rp = os.path.join(REPLAYS, "%s-compile.json" % pid)
            with open(rp, "w") as f:
                json.dump(dict(property=pid, key="does-not-compile", detail=e.log), f, indent=1)
            with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=dict(evaluations=0, distinct_nontrivial=0, rule=spec["rule"], samples=["(the harness does not compile)"]), assumptions=[], wall_s=round(time.time() - t0, 1), violations=1), f, indent=1)
            print("%s: the library compiles, but this use of its public interface does not: %s" % (pid, e))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        print("ERROR: build failed: %s" % e)
        return 2
    build_s = time.time() - t0
    findings = [f for f in load_findings() if f["property"] == pid]
    tmp = tempfile.mkdtemp(prefix="vf-")
    os.chmod(tmp, 0o755)
    tasks = []
    for ji, j in enumerate(jobs):
        n = j[tier] if tier in j else j["quick"] * 20
        chunk = max(1, min(j.get("chunk", 2000), (n + NCPU - 1) // NCPU))
        s = 0
        while s < n:
            tasks.append((ji, s, min(chunk, n - s)))
            s += chunk
    # interleave the jobs so that each of them gets going early
    lock = threading.Lock()
    queue = list(tasks)
    queue.sort(key=lambda t: (t[1] / max(1, jobs[t[0]].get(tier, jobs[t[0]]["quick"])), t[0]))
    stats, states, samples = {}, {}, []
    violation, known_hit, errors = [], {}, []
    stop = threading.Event()

    def handle(r, ji, start, count, cpu):
        """Merge a result; returns remaining (start, count) to go on with, or None."""
        j = jobs[ji]
        if r["status"] == "ok":
            with lock:
                for k, (v, mx) in r["stats"].items():
                    name = j["mode"] + "." + k
                    stats[name] = max(stats.get(name, 0), v) if mx else stats.get(name, 0) + v
                    if k == "iterations":
                        stats["iterations"] = stats.get("iterations", 0) + v
                states.setdefault(ji, set()).update(memoryview(r["states"]).cast("Q") if r["states"] else [])
                if sum(1 for s in samples if s.startswith(j["mode"] + ":")) < 2:
                    samples.extend(j["mode"] + ": " + s for s in r["samples"][:1])
            return None
        it = r["iter"]
        if r["status"] == "killed":
            with lock:
                errors.append("worker ended by SIGKILL (memory?) in %s iteration %d" % (j["mode"], it))
            return None
        reproduced = None
        if r["status"] == "hang":
            r2 = worker(bins[(j["bin"], j["build"])], j["mode"], seed, it, 1, cpu, tmp, tier, HANG_S * 2)
            if r2["status"] == "ok":
                with lock:
                    stats["inconclusive_timeouts"] = stats.get("inconclusive_timeouts", 0) + 1
                return (it + 1, start + count - it - 1)
            if r2["status"] == "hang":
                r["key"], r["detail"] = "hang", "no progress within %d s, twice; last output: %s" % (HANG_S, r2["out"][-1500:])
                reproduced = True
            elif r2["status"] == "fail":
                r["key"], r["detail"] = r2["key"], r2["detail"]
                reproduced = True
            else:
                with lock:
                    errors.append("worker ended by SIGKILL in %s iteration %d" % (j["mode"], it))
                return None
        else:
            r2 = worker(bins[(j["bin"], j["build"])], j["mode"], seed, it, 1, cpu, tmp, tier, HANG_S)
            reproduced = r2["status"] != "ok"
            if r2["status"] == "fail" and r["key"].startswith(("exit", "signal")):
                r["key"], r["detail"] = r2["key"], r2["detail"]
            if not reproduced and r["key"].startswith(("exit", "signal")):
                # an unexplained end that does not come back alone: once more with its history
                r3 = worker(bins[(j["bin"], j["build"])], j["mode"], seed, start, it - start + 1, cpu, tmp, tier, HANG_S)
                if r3["status"] == "ok":
                    with lock:
                        stats["inconclusive_ends"] = stats.get("inconclusive_ends", 0) + 1
                    return (it + 1, start + count - it - 1)
        v = dict(property=pid, key=r["key"], detail=r["detail"], bin=j["bin"], build=j["build"], mode=j["mode"], base=seed, start=start, iter=it, reproduced_alone=reproduced, tier=tier)
        for f in findings:
            if f["key"] == v["key"] or (f["key"].endswith("*") and v["key"].startswith(f["key"][:-1])):
                with lock:
                    known_hit[f["key"]] = known_hit.get(f["key"], 0) + 1
                return (it + 1, start + count - it - 1)
        with lock:
            violation.append(v)
        stop.set()
        return None

    def loop(cpu):
        while not stop.is_set():
            with lock:
                if not queue:
                    return
                ji, s, c = queue.pop(0)
            j = jobs[ji]
            while c > 0 and not stop.is_set():
                r = worker(bins[(j["bin"], j["build"])], j["mode"], seed, s, c, None if j.get("unpinned") else cpu, tmp, tier, j.get("hang_s", HANG_S))
                nxt = handle(r, ji, s, c, cpu)
                if nxt is None:
                    break
                s, c = nxt

    try:
        avail = sorted(os.sched_getaffinity(0))
        threads = [threading.Thread(target=loop, args=(avail[i % len(avail)],)) for i in range(min(NCPU, max(1, len(queue))))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    distinct = sum(len(s) for s in states.values())
    evals = stats.get("iterations", 0)
    for k in spec.get("require", []):
        if not violation and not errors and stats.get(k, 0) == 0:
            errors.append("nothing observed for %s" % k)
    cov = dict(evaluations=evals, distinct_nontrivial=distinct, rule=spec["rule"], samples=samples or ["(none)"], observed={k: v for k, v in sorted(stats.items())}, build_s=round(build_s, 1))
    cov["jobs"] = [dict(harness=j["bin"], build=j["build"], mode=j["mode"], distinct=len(states.get(i, ()))) for i, j in enumerate(jobs)]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violation))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in findings:
        if f["key"] in known_hit or f["key"].startswith("static:"):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if violation:
        v = violation[0]
        os.makedirs(REPLAYS, exist_ok=True)
        rp = os.path.join(REPLAYS, "%s-%s-%d.json" % (pid, hashlib.sha256(v["key"].encode()).hexdigest()[:8], v["iter"]))
        with open(rp, "w") as f:
            json.dump(v, f, indent=1)
        print("%s: %s (mode %s, seed %d, iteration %d)" % (pid, v["key"], v["mode"], seed, v["iter"]))
        print(v["detail"][:4000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        print("ERROR: " + "; ".join(errors))
        return 2
    print("%s: held on %d executions (%d distinct), %.1f s" % (pid, evals, distinct, time.time() - t0))
    return 0


def replay(path):
    v = json.load(open(path))
    if v["key"] == "does-not-compile":
        print(v["detail"])
        return 1
    b = build({(v["bin"], v["build"])})[(v["bin"], v["build"])]
    env = dict(os.environ)
    env.update(ENV)
    env["VERIF_TIER"] = v.get("tier", "quick")
    tmp = tempfile.mkdtemp(prefix="vf-")
    env["VF_SCRATCH"] = tmp + "/scratch"
    try:
        s, c = (v["iter"], 1) if v.get("reproduced_alone", True) else (v["start"], v["iter"] - v["start"] + 1)
        return subprocess.run([b, v["mode"], str(v["base"]), str(s), str(c), tmp + "/r", "-v"], env=env, preexec_fn=preexec(None), cwd=tmp).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier if tier in ("quick", "thorough") else "quick")
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "build":
        try:
            build({(j["bin"], j["build"]) for c in CHECKS.values() for j in c["jobs"]})
        except BuildError as e:
            print("ERROR: %s" % e)
            return 2
        return 0
    if a[0] == "list":
        for k in sorted(CHECKS):
            print(k)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
