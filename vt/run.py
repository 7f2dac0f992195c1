"""Runs cases in the instrumented driver, in parallel, and reports what the oracles saw."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from . import build

VERIF = build.VERIF
SAN = {
    "ASAN_OPTIONS": "allocator_may_return_null=1:max_allocation_size_mb=1024:hard_rss_limit_mb=6000:exitcode=99:"
                    "abort_on_error=0:detect_stack_use_after_return=1:strict_string_checks=1:"
                    "detect_leaks=1:leak_check_at_exit=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "LSAN_OPTIONS": "exitcode=99",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:suppressions=" +
                    os.path.join(VERIF, "harness", "tsan.supp"),
}
VALGRIND = ("valgrind", "-q", "--error-exitcode=88", "--exit-on-first-error=yes", "--leak-check=no", "--num-callers=20",
            "--undef-value-errors=yes", "--max-stackframe=16000000")
JOBS = int(os.environ.get("VT_JOBS", "8"))
STOP = bool(os.environ.get("VT_STOP"))  # development: the first violation ends the run


LADDER = (257, 300, 520, 1030, 2050, 4100, 5000, 8200, 10050, 16400, 20010, 33000, 66000, 70100, 140000, 262200, 300000)


def hx(s):
    return (s.encode("utf-8") if isinstance(s, str) else bytes(s)).hex()


def jhex(v):
    return hx(json.dumps(v, ensure_ascii=False))


def unhex(s):
    return bytes.fromhex(s)


class Case:
    """steps: driver operations; check(results, case) -> iterable of violation messages."""
    __slots__ = ("steps", "check", "tl", "info", "key")

    def __init__(self, steps, check=None, tl=10, info=None, key=None):
        self.steps, self.check, self.tl, self.info, self.key = steps, check, tl, info, key


CANARIES = {"asan": ("memory", "undefined", "assertion", "leak"), "alloc": ("undefined", "memory"), "tsan": ("race",), "plain": ()}
NO_LEAKS = False


def canaries(kinds):
    """plants one fault of each kind and sees that the instrumentation reports it in this environment"""
    global NO_LEAKS
    seen = {}
    env = dict(os.environ)
    env.update(SAN)
    for k in kinds:
        todo = [(c, ()) for c in CANARIES.get(k, ())]
        if k == "plain" and shutil.which("valgrind"):
            todo.append(("uninit", VALGRIND))
        for c, wrap in todo:
            p = subprocess.run(list(wrap) + [build.build(k), "--canary", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               stdin=subprocess.DEVNULL)
            found = p.returncode != 0 and b"missed" not in p.stdout
            if c == "leak":
                # needs ptrace, which an environment may refuse
                found = p.returncode == 99 and b"1234 byte" in p.stderr
                NO_LEAKS = not found
            elif not found:
                raise RuntimeError("the %s build does not report a planted %s fault" % (k, c))
            seen["%s: %s" % (k, c)] = "reported" if found else "not available here"
    return seen


class Driver:
    def __init__(self, kind, exe, leak_every=0, env=None, wrap=()):
        self.kind, self.exe, self.leak_every, self.wrap = kind, exe, leak_every, list(wrap)
        self.env = dict(os.environ)
        self.env.pop("LC_ALL", None)
        self.env.update(SAN)
        for k, v in (env or {}).items():
            self.env[k] = self.env[k] + ":" + v[1:] if v[:1] == "+" else v      # "+": further options
        self.dir = tempfile.mkdtemp(prefix="vt-", dir=os.environ.get("TMPDIR", "/tmp"))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _spawn(self, lines, leak_every, wall):
        p = subprocess.Popen(self.wrap + [self.exe, self.dir, str(leak_every)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=self.env, cwd=self.dir, start_new_session=True)
        err = []
        t = threading.Thread(target=lambda: err.append(p.stderr.read()))
        t.start()
        killed = False
        try:
            out = self._io(p, lines, wall)
        except subprocess.TimeoutExpired:
            killed = True
            p.kill()
            out = self._partial
        p.wait()
        t.join()
        return out, (err[0] if err else b"").decode("utf-8", "replace"), p.returncode, killed

    def _io(self, p, lines, wall):
        buf = []
        self._partial = b""

        def feed():
            try:
                p.stdin.write(lines)
                p.stdin.close()
            except OSError:
                pass
        f = threading.Thread(target=feed)
        r = threading.Thread(target=lambda: buf.append(p.stdout.read()))
        f.start()
        r.start()
        r.join(wall)
        if r.is_alive():
            p.kill()
            r.join()
            self._partial = b"".join(buf)
            f.join()
            raise subprocess.TimeoutExpired("driver", wall)
        f.join()
        return b"".join(buf)

    def run(self, cases, single=False):
        """list of outcomes: ("ok", results) | ("crash", text) | ("timeout", text) | ("leak", text)"""
        out = [None] * len(cases)
        todo = list(range(len(cases)))
        suspects = []
        hangs = crashes = 0
        while todo:
            text = b"".join(json.dumps({"id": i, "tl": cases[i].tl, "steps": cases[i].steps}).encode() + b"\n"
                            for i in todo)
            wall = 60 + 4 * sum(cases[i].tl for i in todo)
            raw, err, rc, killed = self._spawn(text, self.leak_every, wall)
            begun, done, last_check, timeout = None, False, -1, None
            for line in raw.split(b"\n"):
                if not line.startswith(b"{"):
                    continue
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if "begin" in d:
                    begun = d["begin"]
                elif "r" in d:
                    out[d["id"]] = ("ok", d["r"])
                    begun = None
                elif "timeout" in d:
                    timeout = d["timeout"]
                elif "leakcheck" in d:
                    if d["leakcheck"]:
                        suspects.append([i for i in todo if last_check < i <= d["upto"]])
                    last_check = d["upto"]
                elif "done" in d:
                    done = True
            if done:
                break
            bad = begun if begun is not None else timeout
            if timeout is not None:
                bad = timeout
            if bad is None:
                rest = [i for i in todo if out[i] is None]
                if not rest:
                    # died outside any case (at exit)
                    out[todo[-1]] = ("crash", "exit status %s outside a case\n%s" % (rc, err[-3000:]))
                    break
                bad = rest[0]
            if timeout is not None or killed:
                if single:
                    out[bad] = ("timeout", "no result within the limit")
                else:
                    c = cases[bad]
                    again = Case(c.steps, tl=c.tl * (4 if c.tl <= 10 else 2))
                    out[bad] = self.run([again], True)[0]
                    if out[bad][0] == "timeout":
                        hangs += 1
            else:
                out[bad] = ("crash", summarize(err) + "\nexit status %s" % rc)
                crashes += 1
            k = todo.index(bad)
            todo = todo[k + 1:]
            if hangs >= 1 or crashes >= 10:
                for i in todo:
                    out[i] = ("skipped", "")
                break
        for window in suspects:
            for i in window:
                if out[i] is None or out[i][0] != "ok":
                    continue
                lines = json.dumps({"id": 0, "tl": cases[i].tl * 5, "steps": cases[i].steps}).encode() + b"\n"
                raw, err, rc, killed = self._spawn(lines, 1, 60 + 20 * cases[i].tl)
                if b'"leakcheck":1' in raw:
                    out[i] = ("leak", summarize(err))
        return out


def summarize(err):
    lines = [l for l in err.splitlines() if l.strip()]
    keep = [l for l in lines if re.search(r"ERROR|SUMMARY|runtime error|WARNING: Thread|Assertion|terminate|what\(\)|"
                                          r"^\s*#\d|leak of|Location|Previous|Write of|Read of|^  (Write|Read)", l)]
    return "\n".join(l[:240] for l in (keep or lines)[:60])


# ------------------------------------------------------------------- workers
class Ctx:
    """What a property's workload sees in one worker."""

    def __init__(self, prop, tier, seed, worker, workers, deadline):
        self.prop, self.tier, self.seed, self.worker, self.workers = prop, tier, seed, worker, workers
        self.deadline = deadline
        self.rng = random.Random("%s/%s/%s" % (seed, prop, worker))
        self.count = collections.Counter()
        self.seen = set()
        self.samples = []
        self.violations = []
        self.evals = 0
        self.drivers = {}
        self.cut = False
        self.load = [0] * workers
        self.recorded, self.known_hits = known(prop), set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        """this worker's share of a number of cases"""
        total = thorough if self.thorough else quick
        return total // self.workers + (1 if self.worker < total % self.workers else 0)

    def ladder(self, quick=1, thorough=3, hi=70100, lo=0):
        """this worker's share of sizes around and beyond those at which a counter, buffer or index could turn over"""
        sizes = [n for n in LADDER if lo <= n <= (hi if not self.thorough or hi < 70100 else hi * 5)]
        r = random.Random("%s/%s/%s" % (self.seed, self.prop, self.load))
        out = []
        for _ in range(thorough if self.thorough else quick):
            out += [n + r.choice((0, 0, 1, r.randint(0, n // 8))) for n in sizes]
        # shared so that each worker has as much to do, over all the ladders of the property
        mine = []
        for n in sorted(out, reverse=True):
            k = min(range(self.workers), key=lambda w: (self.load[w], w))
            self.load[k] += n + 500
            if k == self.worker:
                mine.append(n)
        r.shuffle(mine)
        return mine

    def mine(self, items):
        return [x for i, x in enumerate(items) if i % self.workers == self.worker]

    def driver(self, kind="asan", leak_every=0, env=None, wrap=()):
        if NO_LEAKS:
            leak_every = 0
        k = (kind, leak_every, tuple(sorted((env or {}).items())), tuple(wrap))
        if k not in self.drivers:
            self.drivers[k] = Driver(kind, build.build(kind), leak_every, env, wrap)
        return self.drivers[k]

    def violation(self, what, steps, got=None, kind="asan"):
        for rx, name in self.recorded:
            if rx.search(what):
                self.known_hits.add(name)
                return
        self.violations.append({"what": what, "steps": steps, "got": got, "build": kind})

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def note(self, key):
        """a distinct, non-trivial case"""
        self.seen.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def late(self):
        if time.time() > self.deadline:
            self.cut = True
            return True
        return False

    def run(self, cases, kind="asan", leak_every=0, env=None, batch=200, tolerate=(), wrap=()):
        """cases: an iterable, run in batches and checked as they come"""
        if self.late() or len(self.violations) > (0 if STOP else 20):
            return
        drv = self.driver(kind, leak_every, env, wrap)
        group = []

        def flush():
            if not group:
                return
            for c, o in zip(group, drv.run(group)):
                self.evals += 1
                if o is None:
                    o = ("crash", "no answer for the case")
                self.count["outcome:" + o[0]] += 1
                if o[0] == "skipped":
                    continue
                if o[0] != "ok":
                    if o[0] not in tolerate:
                        self.violation("%s: %s" % (o[0], o[1]), c.steps, kind=kind)
                    continue
                if c.key is not None:
                    self.note(c.key)
                if c.check is None:
                    continue
                try:
                    for v in c.check(o[1]) or ():
                        self.violation(v, c.steps, o[1], kind)
                except Exception as e:
                    # a result of a shape the real code never gives
                    self.violation("the result cannot be understood: %s at %s: %s" % (
                        repr(e)[:200], traceback.format_exc().strip().splitlines()[-3].strip()[:120], json.dumps(o[1])[:600]), c.steps, o[1], kind)
            group.clear()
        for c in cases:
            group.append(c)
            if len(group) >= batch:
                flush()
                if self.late() or len(self.violations) > (0 if STOP else 20):
                    return
        flush()


def _worker(args):
    prop, fn, tier, seed, worker, workers, deadline, q = args
    ctx = Ctx(prop, tier, seed, worker, workers, deadline)
    try:
        fn(ctx)
        q.put(("done", worker, {"count": ctx.count, "seen": ctx.seen, "samples": ctx.samples, "cut": ctx.cut,
                                "violations": ctx.violations[:20], "evals": ctx.evals, "known": ctx.known_hits}))
    except BaseException:
        q.put(("error", worker, traceback.format_exc()))
    finally:
        for d in ctx.drivers.values():
            d.close()


def known(prop):
    """signatures of recorded findings: lines 'open: property=<id> match=<regular expression> | <what fails>'"""
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"open: property=(\S+) match=(.*?) \| (.*)", l.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def run_property(prop, fn, tier, seed, rule, level="exploration", kinds=("asan",), budget=None, workers=JOBS,
                 required=None, before=None):
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    if before:
        before()
    for k in kinds:
        build.build(k)
    tb = time.time() - t0
    planted = [] if STOP else canaries([k for k in kinds if k in CANARIES])
    budget = budget or (150 if tier == "quick" else 700)
    deadline = time.time() + budget
    q = mp.Queue()
    ps = [mp.Process(target=_worker, args=((prop, fn, tier, seed, w, workers, deadline, q),)) for w in range(workers)]
    for p in ps:
        p.start()
    results, errors = [], []
    for _ in ps:
        while True:
            try:
                m = q.get(timeout=5)
                break
            except Exception:
                if not any(p.is_alive() for p in ps) and q.empty():
                    m = ("error", -1, "a worker died")
                    break
        (results if m[0] == "done" else errors).append(m[2])
        if STOP and m[0] == "done" and m[2]["violations"]:
            for p in ps:
                p.kill()
            break
        if m[0] == "error" and m[1] == -1:
            break
    for p in ps:
        p.join(10)
        if p.is_alive():
            p.terminate()
    count, seen, samples, viol, evals, cut, hit = collections.Counter(), set(), [], [], 0, False, set()
    for r in results:
        hit |= r["known"]
        count.update(r["count"])
        seen |= r["seen"]
        samples += r["samples"][:1]
        viol += r["violations"]
        evals += r["evals"]
        cut |= r["cut"]
    fresh = viol
    missing = [k for k, m in (required or {}).items() if count[k] < m] if not cut and not fresh else []
    cov = {"evaluations": evals, "distinct_nontrivial": len(seen), "rule": rule,
           "samples": [clip(s) for s in samples[:5]], "observed": dict(sorted(count.items())),
           "builds": list(kinds), "canaries": planted, "build_s": round(tb, 1), "stopped_by_time": cut, "workers": workers}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if errors:
        print("CHECK ERROR %s (%d workers)\n%s" % (prop, len(errors), errors[0][:4000]), file=sys.stderr)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    for what in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if fresh:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        fresh.sort(key=lambda v: len(json.dumps(v["steps"])))
        for i, v in enumerate(fresh[:3]):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(dict(v, property=prop), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["what"][:1500].replace("\n", "\n  "))
        return 1
    if errors:
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)%s" % (
        prop, evals, len(seen), time.time() - t0, tb, " [time limit reached]" if cut else ""))
    if missing:
        print("CHECK ERROR %s: the workload did not exercise: %s" % (prop, ", ".join(missing)), file=sys.stderr)
        return 2
    return 0


def clip(s, n=1500):
    t = json.dumps(s, ensure_ascii=True)
    return s if len(t) <= n else t[:n] + "..."


def replay(path):
    v = json.load(open(path))
    if v["build"] == "jni":
        from . import p_jni
        print("recorded: " + v["what"])
        print("now: " + json.dumps(p_jni.replay(v["steps"]))[:6000])
        return
    d = Driver(v["build"], build.build(v["build"]), 1 if v["what"].startswith("leak") else 0)
    try:
        o = d.run([Case(v["steps"], tl=60)])[0]
    finally:
        d.close()
    print("recorded: " + v["what"])
    print("now: " + json.dumps(o)[:6000])
