#!/usr/bin/env python3
"""Makes and validates seeded/<id>/ from the descriptions in tools/seeds/*.py.

seed.py make ID...   write patch.diff, demo.sh, demo.cpp, meta.json
seed.py try ID...    in a scratch copy of /repo: patch applies, builds, stable tests pass, demo passes before and fails after
seed.py check ID...  apply to /repo, run the quick check of the seed's property (and --also ...), undo
"""
import glob, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(VERIF, "seeded")
SEEDS = {}

DEMO_SH = """#!/bin/bash
# exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
ls src/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 %(flags)s -w -Iinclude -c {} -o '"$d"'/$(basename {}).o' || exit 2
g++ -std=c++17 %(flags)s -w -Iinclude "$here/demo.cpp" "$d"/*.o -lsimdjson -licui18n -licuuc -lpthread -o "$d/demo" || exit 2
timeout 60 "$d/demo"
"""
DEMO_HEAD = r'''#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <thread>
#include <vector>
#include "simdjson.h"
#include "tokenizers/added_vocabulary.h"
#include "tokenizers/common.h"
#include "tokenizers/decoder.h"
#include "tokenizers/model.h"
#include "tokenizers/normalizer.h"
#include "tokenizers/post_processor.h"
#include "tokenizers/pre_tokenizer.h"
#include "tokenizers/tokenizer.h"
#include "tokenizers/utils.h"
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { printf("failed: %s\n", #c); bad = 1; } } while (0)
// a configuration whose parts can be replaced
static std::string config(const std::string& model, const std::string& normalizer = "null", const std::string& pre = "null",
                          const std::string& post = "null", const std::string& decoder = "null", const std::string& trunc = "null",
                          const std::string& pad = "null", const std::string& added = "[]") {
  return "{\"version\":\"1.0\",\"truncation\":" + trunc + ",\"padding\":" + pad + ",\"added_tokens\":" + added + ",\"normalizer\":" + normalizer +
         ",\"pre_tokenizer\":" + pre + ",\"post_processor\":" + post + ",\"decoder\":" + decoder + ",\"model\":" + model + "}";
}
static std::string wordpiece(const std::string& vocab, int limit = 100) {
  return "{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":" +
         std::to_string(limit) + ",\"vocab\":" + vocab + "}";
}
static std::string bpe(const std::string& vocab, const std::string& merges) {
  return "{\"type\":\"BPE\",\"dropout\":null,\"unk_token\":null,\"continuing_subword_prefix\":null,\"end_of_word_suffix\":null,"
         "\"fuse_unk\":false,\"byte_fallback\":false,\"ignore_merges\":false,\"vocab\":" + vocab + ",\"merges\":" + merges + "}";
}
template <class T> static std::string show(const std::vector<T>& v) {
  std::string s;
  for (auto& x : v) { if constexpr (std::is_same_v<T, std::string>) s += x; else s += std::to_string(x); s += ' '; }
  return s;
}
'''


def seed(id, property, edits, demo, needs, breaks, flags="-O0", sh=None, files=None):
    SEEDS[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, sh=sh, files=files or {})


def load():
    for f in sorted(glob.glob(os.path.join(VERIF, "tools", "seeds", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"seed": seed})


def make(id):
    s = SEEDS[id]
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/t", "HEAD"], check=True)
        for f, a, b in s["edits"]:
            p = os.path.join(w, "t", f)
            t = open(p).read()
            assert t.count(a) == 1, (id, f, a, t.count(a))
            open(p, "w").write(t.replace(a, b))
        diff = subprocess.run(["git", "-C", w + "/t", "diff"], stdout=subprocess.PIPE, check=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/t"])
        shutil.rmtree(w, ignore_errors=True)
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(s["sh"] or DEMO_SH % s)
    os.chmod(d + "/demo.sh", 0o755)
    if s["demo"]:
        open(d + "/demo.cpp", "w").write(DEMO_HEAD + "int main() {\n" + s["demo"].strip("\n") + "\n  if (!bad) printf(\"holds\\n\");\n  return bad;\n}\n" if "int main" not in s["demo"] else DEMO_HEAD + s["demo"])
    for n, t in s["files"].items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def build_test():
    b = sh("bash /opt/vp/build.sh", "/repo")
    if b.returncode:
        return "build fails: " + b.stdout[-800:]
    sh("bash /opt/vp/test.sh /tmp/seed-test.json", "/repo")
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = json.load(open("/tmp/seed-test.json"))
    passed = set(r["passed"]) if isinstance(r["passed"], list) else r["passed"]
    n = len(passed) if not isinstance(passed, int) else passed
    return "" if n == 28 else "tests: %d pass" % n


def tryit(id):
    """uses /repo itself for the build, as vcheck does; undone afterwards"""
    d = os.path.join(S, id)
    assert not sh("git status --porcelain", "/repo").stdout.strip()
    r0 = sh("bash %s/demo.sh" % d, "/repo")
    try:
        a = sh("git apply %s/patch.diff" % d, "/repo")
        if a.returncode:
            print(id, "does not apply", a.stdout); return
        why = build_test()
        r1 = sh("bash %s/demo.sh" % d, "/repo")
    finally:
        sh("git checkout -- .", "/repo")
    ok = r0.returncode == 0 and r1.returncode not in (0, 2) and not why
    print(id, "VALID" if ok else "INVALID", "before", r0.returncode, "after", r1.returncode, why, "" if ok else r0.stdout[-500:] + r1.stdout[-500:])


def check(id, props):
    d = os.path.join(S, id)
    assert not sh("git status --porcelain", "/repo").stdout.strip()
    try:
        a = sh("git apply %s/patch.diff" % d, "/repo")
        assert a.returncode == 0, a.stdout
        for p in props or [json.load(open(d + "/meta.json"))["property"]]:
            r = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s" % p, VERIF)
            hit = "VIOLATION property=" + p in r.stdout
            print(id, p, "CAUGHT" if hit and r.returncode == 1 else "missed (exit %d)" % r.returncode,
                  "" if not hit else r.stdout.split("\n")[1][:200], flush=True)
            if not hit and r.returncode:
                print(r.stdout[-1500:])
    finally:
        sh("git checkout -- .", "/repo")


# planted bugs which the checks of the time missed, and what was added for them
MISSED = {
    "patterns-by-beginning": "patterns which share a long stretch (C13)",
    "empty-entry-left-out": "empty vocabulary entries (C21 and the pipeline checks)",
    "flag-left-unset": "builds which fill unset variables with a pattern (all)",
    "last-result-kept": "calls made twice and calls around additions (C03)",
    "ids-remembered": "calls made twice and calls around additions (C03)",
    "unknown-length-16-bit": "words of more than 65 536 characters (C16)",
    "merge-position-16-bit": "words of more than 65 536 characters (C16)",
    "flags-inherited": "options with their default value left unwritten or written as null (all checks)",
    "last-form-only": "edits between the forms of a chain (C09)",
    "text-on-the-stack": "enormous texts and tokens (C01)",
    "replaced-by-recursion": "enormous texts and tokens (C01)",
    "ids-beyond-count": "ids with gaps (C20)",
    "prefix-as-c-string": "values that need care, such as U+0000, in every place for a string (C21)",
    "last-duplicate-wins": "merges listed twice (C16)",
    "language-of-the-user": "environments in which case depends on the language, and the letters concerned (C03)",
    "cleanup-order": "tokens of several clean-up strings run together (C20)",
    "prefix-length-in-characters": "continuation prefixes and suffixes beyond ASCII (C16)",
    "stops-at-placeholder": "bare and empty vocabularies (C22)",
    "dropout-goes-on": "partial dropout among the compared configurations (C03, C04)",
    "first-flags-stay": "contents added again with other flags (C07)",
    "recycled-slot": "every word of a long history asked again (C16)",
    "trimmed-past-its-end": "tokens with more spaces than source characters (C06)",
    "windows-16-bit": "the size ladder (C17)",
    "word-index-16-bit": "texts of more than 65 536 words (C05, C06, C22)",
    "cache-key-prefix": "families of long words sharing prefixes (C03, C16)",
    "prefix-space-after-template": "exact trimming at the start of the text (C19), strict clause (C06)",
    "replacement-rescanned": "replacements that contain their pattern (C01)",
    "specials-without-normalizer": "additions in several rounds, as special tokens too (C07)",
    "slot-before-word": "sweeps on a tokenizer which has seen nothing yet (C26)",
    "sticky-regex-status": "configurations whose every use fails, in between (C03)",
    "template-longest-name": "special tokens whose names are prefixes of each other (C19)",
}


def table():
    rows = ["| planted bug | property | needs | first | caught by |", "|----|----|----|----|----|"]
    for id in sorted(SEEDS):
        s = SEEDS[id]
        rows.append("| %s | %s | %s | %s | quick check of %s |" % (
            id, s["property"], s["needs"].replace("|", "\\|"), "missed; added " + MISSED[id] if id in MISSED else "caught", s["property"]))
    p = os.path.join(VERIF, "DESIGN.md")
    t = open(p).read()
    a, b = t.index("<!-- seeds -->"), t.index("<!-- /seeds -->")
    open(p, "w").write(t[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + t[b:])


if __name__ == "__main__":
    load()
    if sys.argv[1] == "table":
        sys.exit(table())
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    props = [a[1:] for a in sys.argv[2:] if a.startswith("-")]
    for i in ids or sorted(SEEDS):
        {"make": make, "try": tryit}[cmd](i) if cmd != "check" else check(i, props)
