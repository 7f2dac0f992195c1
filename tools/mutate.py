#!/usr/bin/env python3
"""Development only: small changes of /repo's sources, made in scratch copies, to look for gaps in the checks.

mutate.py list [FILE...]                 how many changes there are
mutate.py run OUT.jsonl [-j N] [FILE...] try them (resumes); each line: file, line, before, after, killed by
"""
import json, os, re, shutil, subprocess, sys, threading, time, queue, random
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ORDER = {
    "normalizer.cpp": ["C09", "C10", "C11", "C22", "C06", "C01", "C02"],
    "pre_tokenizer.cpp": ["C13", "C14", "C12", "C22", "C06", "C01", "C02"],
    "model.cpp": ["C15", "C16", "C22", "C01", "C03", "C02", "C26"],
    "decoder.cpp": ["C20", "C14", "C23", "C01", "C02"],
    "post_processor.cpp": ["C19", "C05", "C22", "C01", "C02", "C26"],
    "added_vocabulary.cpp": ["C07", "C08", "C22", "C06", "C01", "C03", "C26", "C21"],
    "tokenizer.cpp": ["C22", "C20", "C05", "C08", "C19", "C17", "C18", "C26", "C02", "C01"],
    "utils.cpp": ["C17", "C18", "C24", "C22", "C06", "C21", "C02", "C01", "C05"],
    "common.cpp": ["C24", "C13", "C21", "C20", "C02", "C01"],
}
TESTED = {"normalizer.cpp", "pre_tokenizer.cpp", "decoder.cpp", "common.cpp"}
OPS = [
    (r"(?<![<>=!\-&|])<(?![<=])(?=\s)", ["<=", ">="]), (r"(?<![<>=!\-])>(?![>=])(?=\s)", [">=", "<="]),
    (r"<=", ["<", ">"]), (r"(?<!>)>=", [">", "<"]), (r"==", ["!="]), (r"!=", ["=="]),
    (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
    (r"(?<![\w.'])0(?![\w.'x])", ["1"]), (r"(?<![\w.'])1(?![\w.'])", ["0", "2"]), (r"(?<![\w.'])([2-9]|\d\d+)(?![\w.'])", ["INC"]),
    (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;", ";"]), (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]),
    (r"\.begin\(\)", [".end()"]), (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]), (r"(?<=\()!(?=\w)", [""]), (r"(?<=[\s(])!(?=\w)", [""]),
    (r"\bemplace\(", ["insert_or_assign("]), (r"0x[0-9A-Fa-f]+", ["HEX"]), (r"\bfirst\b", ["second"]), (r"\bsecond\b", ["first"]),
    (r"\+\+(?=\w)|(?<=\w)\+\+", [""]), (r"(?<=\()(\w+)(?=\);)", ["{}"]),
    (r'"(?:[^"\\]|\\.)+"', ['""']), (r"U_SUCCESS", ["U_FAILURE"]), (r"U_FAILURE", ["U_SUCCESS"]),
]


def mutants(f):
    src = open(os.path.join(REPO, "src", f)).read().split("\n")
    out, seen = [], set()

    def add(i, new):
        if new != src[i] and (i, new) not in seen:
            seen.add((i, new))
            out.append((i, src[i], new))
    comment = False
    for i, l in enumerate(src):
        s = l.strip()
        if not s or s.startswith(("#", "//", "*", "using ", "namespace")):
            continue
        code = l.split("//")[0].rstrip() if "//" in l and '"' not in l else l
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                for r in reps:
                    if r == "INC":
                        r = str(int(m.group(0)) + 1)
                    elif r == "HEX":
                        r = hex(int(m.group(0), 16) + 1)
                    add(i, l[:m.start()] + r + l[m.end():])
        if re.match(r"^\s+[\w:.\->\[\]()*&]+(\(| = | \+= | -= |\+\+|\.).*;$", code) and not re.match(r"^\s*(return|const|auto|int|size_t|std::\w+(<.*>)? \w|using|if|for|while|static)\b", code):
            add(i, re.sub(r"\S.*", ";", l, count=1))
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{)$", code) or re.match(r"^(\s*(?:\} else )?if \()(.*)(\) [^{]*;)$", code)
        if m:
            add(i, m.group(1) + "(" + m.group(2) + ") && false" + m.group(3))
            add(i, m.group(1) + "(" + m.group(2) + ") || true" + m.group(3))
        m = re.match(r"^(\s*)return (.*);$", code)
        if m and m.group(2) not in ("true", "false", "{}"):
            add(i, m.group(1) + "return {};")
    return out


class Worker:
    def __init__(self, k):
        self.d = "/tmp/m/w%d" % k
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        self.repo, self.verif, self.cache, self.t = (os.path.join(self.d, x) for x in ("repo", "verif", "cache", "t"))
        shutil.copytree(REPO, self.repo, ignore=shutil.ignore_patterns("_build", ".git"), symlinks=True)
        shutil.copytree(VERIF, self.verif, ignore=shutil.ignore_patterns(".git", ".build", "replays", "evidence", "seeded"))
        os.makedirs(self.t)
        self.env = dict(os.environ, VT_REPO=self.repo, VT_CACHE=self.cache, VT_STOP="1", VERIF_SEED="1")
        self.sh("mkdir -p %s && cp -al %s/.build/objects %s/.build/overlay %s/ || cp -a %s/.build/objects %s/.build/overlay %s/" % ((self.cache,) + (VERIF, VERIF, self.cache) * 2))
        self.lib = sorted(x[:-4] for x in TESTED)
        for n in self.lib:
            r = self.sh("g++ -std=c++17 -O0 -w -Iinclude -c src/%s.cpp -o ../t/l_%s.o" % (n, n))
            assert r.returncode == 0, r.stdout
        for n in ("common", "decoder", "normalizer", "pre_tokenizer"):
            r = self.sh("g++ -std=c++17 -O0 -w -Iinclude -I/usr/src/googletest/googletest/include -c tests/%s.cpp -o ../t/t_%s.o" % (n, n))
            assert r.returncode == 0, r.stdout
        self.sh("cp /repo/_build/lib/libgtest*.a ../t/ 2>/dev/null || find /repo/_build -name 'libgtest*.a' -exec cp {} ../t/ \\;")

    def sh(self, c, timeout=900, **kw):
        try:
            return subprocess.run("exec setsid bash -c '%s'" % c.replace("'", "'\\''"), shell=True, cwd=self.repo, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired as e:
            return subprocess.CompletedProcess(c, 124, "timeout")

    def one(self, f, i, a, b):
        p = os.path.join(self.repo, "src", f)
        src = open(os.path.join(REPO, "src", f)).read().split("\n")
        assert src[i] == a
        src[i] = b
        open(p, "w").write("\n".join(src))
        t0 = time.time()
        try:
            n = f[:-4]
            if f in TESTED:
                r = self.sh("g++ -std=c++17 -O0 -w -Iinclude -c src/%s.cpp -o ../t/m.o" % n)
                if r.returncode:
                    return "no compile", 0
                libs = " ".join("../t/l_%s.o" % x for x in self.lib if x != n)
                r = self.sh("g++ ../t/m.o %s ../t/t_*.o ../t/libgtest.a ../t/libgtest_main.a -lsimdjson -licui18n -licuuc -lpthread -o ../t/tests && timeout 20 ../t/tests" % libs)
                if r.returncode:
                    return "tests", time.time() - t0
            else:
                r = self.sh("g++ -std=c++17 -O0 -w -fsyntax-only -Iinclude src/%s.cpp" % n)
                if r.returncode:
                    return "no compile", 0
            log = []
            for c in ORDER[f]:
                r = self.sh("timeout 600 python3 %s/check.py %s" % (self.verif, c))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    return c + (" (after %s)" % ",".join(log) if log else ""), time.time() - t0
                if r.returncode:
                    log.append("%s=%d" % (c, r.returncode))
            return "SURVIVED" + (" " + ",".join(log) if log else ""), time.time() - t0
        finally:
            shutil.copy(os.path.join(REPO, "src", f), p)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "list":
        for f in args or ORDER:
            ms = mutants(f)
            print(f, len(ms))
        return
    out = args.pop(0)
    n = 3
    if args and args[0] == "-j":
        n = int(args[1])
        args = args[2:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["after"]))
    todo = [(f, i, a, b) for f in args or ORDER for i, a, b in mutants(f) if (f, i + 1, b) not in done]
    random.Random(5).shuffle(todo)
    print(len(todo), flush=True)
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()

    def loop(k):
        w = Worker(k)
        while True:
            try:
                f, i, a, b = q.get_nowait()
            except queue.Empty:
                return
            r, s = w.one(f, i, a, b)
            with lock, open(out, "a") as o:
                o.write(json.dumps({"file": f, "line": i + 1, "before": a, "after": b, "by": r, "s": round(s, 1)}) + "\n")
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


main()
