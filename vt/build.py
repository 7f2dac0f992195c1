"""Builds the library from /repo's working tree together with a harness, under chosen instrumentation."""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
CACHE = os.environ.get("VT_CACHE") or os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")

COMMON = ["-std=c++17", "-w", "-g1", "-fno-omit-frame-pointer", "-fno-var-tracking"]
# requests of absurd size fail as they would on a small machine, and leave the allocator's checks in place
WRAP = ["-DVT_WRAP_NEW", "-Wl,--wrap=_Znwm,--wrap=_Znam"]
# what is read before it is written shows: no value a program could expect by chance
UNSET = ["-ftrivial-auto-var-init=pattern"]
KINDS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"] + UNSET + WRAP,
    "alloc": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS",
              "-DVT_HOOK_NEW"] + UNSET,
    "tsan": ["-O1", "-fsanitize=thread", "-DVT_HOOK_NEW"],
    "plain": ["-O1"] + WRAP,
    "jni": ["-O1", "-fPIC", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"] + UNSET,
}
LIBS = ["-lsimdjson", "-licui18n", "-licuuc", "-lpthread"]


class BuildError(Exception):
    pass


def sources():
    """The library's own sources, as CMakeLists.txt lists them."""
    out = []
    cm = os.path.join(REPO, "CMakeLists.txt")
    if os.path.exists(cm):
        for m in re.finditer(r"^\s*(src/[\w/.\-]+\.(?:cpp|cc|cxx))\s*$", open(cm).read(), re.M):
            p = os.path.join(REPO, m.group(1))
            if os.path.exists(p):
                out.append(p)
    for p in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
        if p not in out:
            out.append(p)
    return out


def overlay():
    """simdjson.h of the installed version plus field::escaped_key() (present in the version the repo vendors)."""
    src = "/usr/include/simdjson.h"
    d = os.path.join(CACHE, "overlay")
    dst = os.path.join(d, "simdjson.h")
    t = open(src).read()
    if not re.search(r"[^n]escaped_key\(\)", t):
        a = ("\n  simdjson_inline std::string_view escaped_key() const noexcept {const char*b_=first.raw();"
             "const char*e_=b_;while(*e_!='\"'){if(*e_=='\\\\')++e_;++e_;}"
             "return std::string_view(b_,size_t(e_-b_));}\n")
        b = ("\n  simdjson_inline simdjson_result<std::string_view> escaped_key() noexcept "
             "{ if(this->error()){return this->error();} return this->first.escaped_key(); }\n")
        pa = r"(  simdjson_inline simdjson_warn_unused simdjson_result<std::string_view> unescaped_key\([^)]*\) noexcept;\n)"
        pb = r"(  simdjson_inline simdjson_result<std::string_view> unescaped_key\([^)]*\) noexcept;\n)"
        t, na = re.subn(pa, lambda m: m.group(1) + a, t)
        t, nb = re.subn(pb, lambda m: m.group(1) + b, t)
        if not na or not nb:
            raise BuildError("cannot make the simdjson overlay (%d/%d)" % (na, nb))
    # compile time: always_inline plus sanitizers takes minutes
    t = t.replace("#define simdjson_inline simdjson_really_inline", "#define simdjson_inline inline")
    t = t.replace("#define simdjson_inline inline __attribute__((always_inline))", "#define simdjson_inline inline")
    t = t.replace("#define simdjson_really_inline inline __attribute__((always_inline))",
                  "#define simdjson_really_inline inline")
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(dst) or open(dst).read() != t:
        tmp = dst + ".%d" % os.getpid()
        open(tmp, "w").write(t)
        os.replace(tmp, dst)
    return d


def tree_hash(extra=()):
    h = hashlib.sha256()
    files = []
    for base in ("src", "include", "android"):
        for root, dirs, names in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for n in sorted(names):
                if n.endswith((".cpp", ".h", ".hpp", ".cc", ".java", ".kt", ".txt")):
                    files.append(os.path.join(root, n))
    files.append(os.path.join(REPO, "CMakeLists.txt"))
    for f in list(files) + list(extra) + [os.path.abspath(__file__)]:
        if os.path.exists(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        lines = [l[:300] for l in p.stdout.splitlines() if "error" in l or "undefined reference" in l]
        raise BuildError(" ".join(cmd)[-200:] + "\n" + "\n".join(lines[:20] or [p.stdout[-2000:]]))


def build(kind, mains=("driver.cpp",), out="driver", extra_flags=(), shared=False, extra_sources=()):
    mains = [os.path.join(HARNESS, m) for m in mains] + list(extra_sources)
    key = tree_hash(mains) + "-" + hashlib.sha256(repr((kind, KINDS[kind], extra_flags, shared)).encode()).hexdigest()[:8]
    d = os.path.join(CACHE, key)
    target = os.path.join(d, out)
    if os.path.exists(target):
        return target
    ov = overlay()
    # keep only a few builds
    os.makedirs(CACHE, exist_ok=True)
    old = sorted((p for p in glob.glob(os.path.join(CACHE, "*")) if os.path.isdir(p) and not p.endswith(("overlay", "objects"))),
                 key=os.path.getmtime)
    for p in old[:-12]:
        shutil.rmtree(p, ignore_errors=True)
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    flags = COMMON + KINDS[kind] + list(extra_flags) + ["-I", ov, "-I", os.path.join(REPO, "include")]
    cxx = os.environ.get("VT_CXX", "g++")
    # an object is made again only if its source, a header or the flags changed
    shared_text = hashlib.sha256(repr((cxx, COMMON, KINDS[kind], extra_flags)).encode())
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARNESS):
      for root, dirs, names in os.walk(base):
        dirs.sort()
        for n in sorted(names):
            if n.endswith((".cpp", ".java", ".supp")):
                continue
            shared_text.update((os.path.relpath(os.path.join(root, n), base)).encode() + b"\0" + open(os.path.join(root, n), "rb").read())
    shared_text.update(open(os.path.join(ov, "simdjson.h"), "rb").read())
    store = os.path.join(CACHE, "objects")
    os.makedirs(store, exist_ok=True)
    kept = sorted(glob.glob(os.path.join(store, "*.o")), key=os.path.getmtime)
    for p in kept[:-150]:
        os.unlink(p)
    jobs, objs = [], []
    todo = sorted(mains) + sorted(sources(), key=lambda s: -os.path.getsize(s))

    def compile_one(s, o):
        h = shared_text.copy()
        h.update(os.path.basename(s).encode() + b"\0" + open(s, "rb").read())
        have = os.path.join(store, h.hexdigest()[:32] + ".o")
        try:
            os.link(have, o)
            os.utime(have)
            return
        except OSError:
            pass
        run([cxx] + flags + ["-c", s, "-o", o])
        try:
            os.link(o, have)
        except OSError:
            pass
    for i, s in enumerate(todo):
        o = os.path.join(tmp, "%02d_%s.o" % (i, os.path.basename(s)))
        objs.append(o)
        jobs.append((s, o))
    with cf.ThreadPoolExecutor(int(os.environ.get("VT_JOBS", "8"))) as ex:
        for f in [ex.submit(compile_one, *j) for j in jobs]:
            f.result()
    link = [cxx] + flags + (["-shared"] if shared else []) + objs + ["-o", os.path.join(tmp, out)] + LIBS
    run(link)
    for o in objs:
        os.unlink(o)
    if os.path.exists(d):
        shutil.rmtree(tmp, ignore_errors=True)
    else:
        os.replace(tmp, d)
    return target


if __name__ == "__main__":
    for k in sys.argv[1:] or ["asan"]:
        print(build(k))
