"""Building, running and judging of the monitored workloads.

Everything a check needs is rebuilt from /repo's working tree into /verif/build
(git-ignored), keyed by the content of the sources and the compiler flags.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(1, os.cpu_count() or 1)


class HarnessError(Exception):
    """The check itself failed: no verdict."""


# --------------------------------------------------------------------- building
VARIANTS = {
    "plain": ["-O2", "-g1"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "vg": ["-O1", "-g1"],
    "asanpic": ["-O1", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "pic": ["-O2", "-g1", "-fPIC"],
}
LIBS = ["-lboost_serialization", "-lboost_iostreams", "-lz", "-pthread"]
SRC_EXT = (".cpp", ".hpp", ".h", ".cc", ".cxx", ".hh", ".c", ".inl", ".ipp", ".txx")


def _hash_files(paths, extra=()):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for e in extra:
        h.update(str(e).encode() + b"\0")
    return h.hexdigest()[:20]


def _tree(*dirs):
    out = []
    for d in dirs:
        for root, subdirs, files in os.walk(d):
            subdirs.sort()
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith(SRC_EXT)]
    return out


def repo_std():
    try:
        txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    except OSError:
        return "-std=c++11"
    m = re.search(r"-std=(?:c|gnu)\+\+\w+", txt)
    if m:
        return m.group(0)
    m = re.search(r"CMAKE_CXX_STANDARD\s+(\d+)", txt)
    return "-std=c++" + (m.group(1) if m else "11")


def _run_cc(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise HarnessError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def _parallel(cmds):
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(_run_cc, c) for c in cmds]:
            f.result()


def build(variant, programs):
    """Builds harness programs (list of names of harness/<name>.cpp, or 'genexcli'
    or 'pygenex') in a variant. Returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build_locked(variant, programs)


def _prune(limit=4 << 30):
    """Drops the objects not used for longest when the cache has grown large."""
    files = []
    for root, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(root, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in files)
    for _, size, p in sorted(files):
        if total <= limit:
            break
        os.unlink(p)
        total -= size


def _build_locked(variant, programs):
    _prune()
    flags = VARIANTS[variant] + ["-w", "-pthread", "-I" + os.path.join(REPO, "genex")]
    std = repo_std()
    is_src = lambda p: p.endswith((".cpp", ".cc", ".cxx", ".c"))
    lib_src = [p for p in _tree(os.path.join(REPO, "genex")) if is_src(p)]
    if not lib_src:
        raise HarnessError("no library sources under %s/genex" % REPO)
    repo_headers = [p for p in _tree(os.path.join(REPO, "genex"), os.path.join(REPO, "cli"), os.path.join(REPO, "pygenex")) if not is_src(p)]
    own_headers = [p for p in _tree(HARNESS) if not is_src(p)]
    repo_key, own_key = _hash_files(repo_headers), _hash_files(own_headers)
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    cmds = []

    def compile_(src, label, std_, extra, keys):
        """object file for one source, named by everything it is made from"""
        cmd = ["g++", std_] + flags + extra + ["-c", src]
        o = os.path.join(out, "%s_%s_%s.o" % (label, os.path.basename(src), _hash_files([src], [cmd] + keys)))
        if os.path.exists(o):
            os.utime(o)
        elif not any(c[-1] == o + ".tmp" for c in cmds):
            cmds.append(cmd + ["-o", o + ".tmp"])
        return o

    def harness_obj(name):
        extra = ["-fno-sanitize=float-cast-overflow"] if variant == "asan" else []
        return compile_(os.path.join(HARNESS, name + ".cpp"), "h", "-std=c++17", extra + ["-I" + HARNESS], [repo_key, own_key])

    obj = {}
    for name in programs:
        if name == "genexcli":
            obj[name] = [compile_(s, "cli", std, ["-I" + os.path.join(REPO, "cli")], [repo_key])
                         for s in _tree(os.path.join(REPO, "cli")) if is_src(s)]
        elif name == "pygenex":
            inc = sorted(glob.glob("/usr/include/python3.[0-9]*"))
            if not inc:
                raise HarnessError("no Python headers")
            obj[name] = [compile_(s, "py", std, ["-I" + inc[-1]], [repo_key])
                         for s in _tree(os.path.join(REPO, "pygenex")) if is_src(s)]
        else:
            obj[name] = [harness_obj("common"), harness_obj(name)]
    lib_obj = [compile_(s, "lib", std, [], [repo_key]) for s in lib_src]
    _parallel(cmds)
    for c in cmds:
        os.rename(c[-1], c[-1][:-4])
    links, result = [], {}
    for name in programs:
        tag = _hash_files([], obj[name] + lib_obj)
        extra = []
        if name == "pygenex":
            exe = os.path.join(out, "pygenex-%s.so" % tag)
            extra = ["-shared", "-lboost_python3%s" % sorted(glob.glob("/usr/include/python3.[0-9]*"))[-1].split("3.")[-1]]
        else:
            exe = os.path.join(out, "%s-%s" % (name, tag))
            if name == "genexcli":
                extra = ["-lreadline"]
        result[name] = exe
        if os.path.exists(exe):
            os.utime(exe)
        else:
            links.append(["g++"] + VARIANTS[variant] + obj[name] + lib_obj + extra + LIBS + ["-o", exe + ".tmp"])
    _parallel(links)
    for c in links:
        os.rename(c[-1], c[-1][:-4])
    return result


# --------------------------------------------------------------------- running
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=1:strict_string_checks=0:detect_odr_violation=0:max_allocation_size_mb=8192:"
                    "handle_segv=1:allow_user_segv_handler=0",
    "LSAN_OPTIONS": "exitcode=98:report_objects=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:history_size=4:second_deadlock_stack=1",
    "MALLOC_ARENA_MAX": "1",
    "LC_ALL": "C",
}


class Result:
    def __init__(self):
        self.violations = []   # dict(case, key, what, stage)
        self.inputs = 0
        self.judgements = 0
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.executions = 0
        self.truncated = False
        self.notes = []


def _tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            data = f.read(4 << 20)
    except OSError:
        return ""
    txt = data.decode("utf-8", "replace")
    m = re.search(r"(==\d+==ERROR|WARNING: ThreadSanitizer|runtime error:|terminate called|Assertion|==\d+== (Invalid|Conditional|Use of|Syscall))", txt)
    if m:
        return txt[max(0, m.start() - 200):m.start() + n]
    return txt[-n:]


def _crash_key(log, rc):
    m = re.search(r"AddressSanitizer: ([\w-]+)", log)
    if m:
        return "asan-" + m.group(1)
    if "LeakSanitizer" in log:
        return "leak"
    if "ThreadSanitizer" in log:
        m = re.search(r"ThreadSanitizer: ([\w -]+)", log)
        return "tsan-" + (m.group(1).strip().replace(" ", "-") if m else "report")
    m = re.search(r"runtime error: ([\w -]+)", log)
    if m:
        return "ubsan-" + m.group(1).strip().replace(" ", "-")[:40]
    if rc == 96:
        return "memcheck"
    if "terminate called" in log:
        return "uncaught-exception"
    if "Assertion" in log:
        return "assertion"
    if rc < 0:
        try:
            return "signal-" + signal.Signals(-rc).name
        except ValueError:
            return "signal-%d" % -rc
    return "exit-%d" % rc


class Runner:
    """Runs the cases of one stage in child processes, several at a time."""

    def __init__(self, prop, tier, seed, res, deadline, scratch):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.res, self.deadline, self.scratch = res, deadline, scratch
        self.lock = threading.Lock()
        self.serial = 0

    def _child(self, exe, stage, a, b, hang):
        """One child over cases [a,b). Returns (status, case, rc, log)."""
        with self.lock:
            self.serial += 1
            d = os.path.join(self.scratch, "w%d" % self.serial)
        os.makedirs(os.path.join(d, "s"))
        out, prog, err = (os.path.join(d, n) for n in ("out", "progress", "err"))
        cmd = list(stage.get("wrap", [])) + [exe, "--prop", self.prop, "--tier", self.tier, "--seed", str(self.seed),
               "--from", str(a), "--to", str(b), "--out", out, "--progress", prog,
               "--scratch", os.path.join(d, "s"), "--stage", stage["name"], "--mode", stage.get("mode", "")]
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(stage.get("env", {}))
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef if stage.get("stdout") else subprocess.DEVNULL,
                                 stderr=ef, env=env, cwd=os.path.join(d, "s"), start_new_session=True)
        last, since, status = None, time.time(), "ok"
        while True:
            try:
                p.wait(0.25 if last is not None else 0.02)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = open(prog).read()
            except OSError:
                cur = ""
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > hang:
                status = "hang"
                self._killpg(p)
                p.wait()
                break
        self._killpg(p)
        try:
            case = int(open(prog).read().split()[0])
        except (OSError, ValueError, IndexError):
            case = a
        log = _tail(err)
        lines = []
        if os.path.exists(out):
            with open(out, errors="replace") as f:
                for line in f:
                    try:
                        lines.append(json.loads(line))
                    except ValueError:
                        pass
        shutil.rmtree(d, ignore_errors=True)
        return status, case, p.returncode, log, lines

    @staticmethod
    def _killpg(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def _absorb(self, lines, stage):
        done = False
        with self.lock:
            for r in lines:
                if r["type"] == "violation":
                    r["stage"] = stage["name"]
                    self.res.violations.append(r)
                elif r["type"] == "done":
                    done = True
                    self.res.inputs += r["inputs"]
                    self.res.judgements += r["judgements"]
                    for k, v in r["counters"].items():
                        self.res.counters[k] = self.res.counters.get(k, 0) + v
                    if len(self.res.samples) < 4:
                        self.res.samples += r["samples"][:1]
                    if len(self.res.distinct) < 3000000:
                        self.res.distinct.update(r["distinct"])
        return done

    def run_range(self, exe, stage, a, b):
        hang = stage.get("hang", 90)
        while a < b:
            with self.lock:
                if time.time() > self.deadline:
                    self.res.truncated = True
                    return
                if len(self.res.violations) >= 8:
                    return
                self.res.executions += 1
            status, case, rc, log, lines = self._child(exe, stage, a, b, hang)
            done = self._absorb(lines, stage)
            if status == "hang":
                # a stopped clock on a loaded machine is no verdict: the case gets a second chance alone
                st2, _, rc2, log2, lines2 = self._child(exe, stage, case, case + 1, 2 * hang)
                self._absorb([l for l in lines2 if l["type"] == "violation"], stage)
                if st2 == "hang":
                    self._violation(stage, case, "hang", "the case made no progress for %d s, twice" % hang)
                elif rc2 != 0:
                    self._violation(stage, case, _crash_key(log2, rc2), log2)
                a = case + 1
                continue
            if rc == 0 and done:
                return
            if rc == 3:
                raise HarnessError("%s: harness failure: %s" % (stage["name"], log))
            if rc == 98 and done:
                # leak report at exit: find the case by running them one by one
                self._locate_leak(exe, stage, a, b, hang, log)
                return
            if rc == 0:
                raise HarnessError("%s: no result from child: %s" % (stage["name"], log))
            key = _crash_key(log, rc)
            if rc == -9:
                st2, _, rc2, log2, _ = self._child(exe, stage, case, case + 1, hang)
                if rc2 == -9:
                    self._violation(stage, case, "killed", "killed (memory?) twice on this case")
                a = case + 1
                continue
            self._violation(stage, case, key, log)
            a = case + 1

    def _locate_leak(self, exe, stage, a, b, hang, log):
        lo, hi = a, b
        while hi - lo > 1:
            mid = (lo + hi) // 2
            st, _, rc, log2, _ = self._child(exe, stage, lo, mid, hang)
            if rc == 98:
                hi, log = mid, log2
            else:
                st, _, rc, log2, _ = self._child(exe, stage, mid, hi, hang)
                if rc != 98:
                    break
                lo, log = mid, log2
        self._violation(stage, lo, "leak", log)

    def _violation(self, stage, case, key, what):
        with self.lock:
            self.res.violations.append({"type": "violation", "case": case, "key": key, "what": what, "stage": stage["name"]})

    def run_stage(self, exe, stage):
        n = stage[self.tier]
        workers = min(stage.get("workers", JOBS), n) or 1
        per = stage.get("chunk") or max(1, -(-n // (workers * 2)))
        chunks = [(a, min(n, a + per)) for a in range(0, n, per)]
        with ThreadPoolExecutor(workers) as ex:
            for f in [ex.submit(self.run_range, exe, stage, a, b) for a, b in chunks]:
                f.result()


# ------------------------------------------------------------- known findings
def known_findings():
    """finding: property=<id> key=<key> match=<text> -- <description>"""
    out = []
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) key=(\S+) match=\"(.*)\" -- (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main_check(prop, spec, tier, seed, only_case=None, only_stage=None):
    t0 = time.time()
    budget = 420 if tier == "quick" else 780
    res = Result()
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="genex-check-%s-" % prop)
    try:
        try:
            exes = {}
            for st in spec["stages"]:
                if st[tier] <= 0:
                    continue
                exes.setdefault(st["variant"], set()).add(st.get("program", prop))
                for extra in st.get("also", []):
                    exes.setdefault(st.get("also_variant", st["variant"]), set()).add(extra)
            paths = {v: build(v, sorted(names)) for v, names in exes.items()}
            build_s = time.time() - t0
            runner = Runner(prop, tier, seed, res, t0 + budget, scratch)
            stage_counts = {}
            for st in spec["stages"]:
                if st[tier] <= 0 or (only_stage and st["name"] != only_stage):
                    continue
                st = dict(st)
                for extra in st.get("also", []):
                    st["mode"] = st.get("mode", "") + ",%s=%s" % (extra, paths[st.get("also_variant", st["variant"])][extra])
                exe = paths[st["variant"]][st.get("program", prop)]
                before = res.inputs
                if only_case is not None:
                    runner.run_range(exe, st, only_case, only_case + 1)
                else:
                    runner.run_stage(exe, st)
                stage_counts[st["name"]] = res.inputs - before
                if res.violations:
                    break
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    except HarnessError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    # verdict
    known = known_findings()
    fresh, seen_known = [], {}
    for v in res.violations:
        for (p, k, m, d) in known:
            if p == prop and k == v["key"] and m in v["what"]:
                seen_known[d] = seen_known.get(d, 0) + 1
                break
        else:
            fresh.append(v)
    for d in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    if only_case is not None:
        for v in fresh:
            print("case %s stage %s key %s\n%s" % (v["case"], v["stage"], v["key"], v["what"]))
        print("replayed: %s" % ("violation reproduced" if fresh else "no violation"))
        return 1 if fresh else 0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": res.inputs,
            "distinct_nontrivial": len(res.distinct),
            "rule": spec["rule"],
            "samples": res.samples[:4],
            "judgements": res.judgements,
            "child_processes": res.executions,
            "inputs_per_stage": stage_counts,
            "counters": res.counters,
            "stopped_by_time_budget": res.truncated,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(build_s, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        v = fresh[0]
        rp = os.path.join(VERIF, "evidence", "replay", "%s-%d-%s-%d.json" % (prop, seed, v["stage"], v["case"]))
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, "stage": v["stage"], "case": v["case"], "key": v["key"],
                       "what": v["what"], "replay": "python3 /verif/check.py replay " + rp, "others": fresh[1:6]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        for v in fresh[:3]:
            print("  [%s case %d] %s: %s" % (v["stage"], v["case"], v["key"], v["what"][:1500]))
        return 1
    if res.inputs == 0 or not res.distinct:
        print("ERROR property=%s the run observed nothing" % prop)
        return 2
    for c in spec.get("require", []):
        if not res.counters.get(c):
            print("ERROR property=%s nothing observed for %s" % (prop, c))
            return 2
    print("held property=%s inputs=%d distinct=%d judgements=%d wall=%.1fs (build %.1fs)%s"
          % (prop, res.inputs, len(res.distinct), res.judgements, time.time() - t0, build_s,
             " stopped by time budget" if res.truncated else ""))
    return 0
