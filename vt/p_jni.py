"""C25: the Android bridge, loaded into a JVM which checks JNI use, under AddressSanitizer."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import threading

from . import build, gen, ref
from .lib import Case, dec, enc, tok

JNI_CPP = "android/tokenizers_android/src/main/cpp"
JAVA = "android/tokenizers_android/src/main/java"


def home():
    for p in [os.environ.get("JAVA_HOME", "")] + sorted(glob.glob("/usr/lib/jvm/*")):
        if p and os.path.exists(os.path.join(p, "include", "jni.h")):
            return p
    raise RuntimeError("no JDK with jni.h")


def prepare():
    """(directory of the shared library, directory of the classes)"""
    h = home()
    cpp = sorted(glob.glob(os.path.join(build.REPO, JNI_CPP, "*.cpp")))
    so = build.build("jni", mains=(), out="libtokenizers_android.so", shared=True, extra_sources=tuple(cpp),
                     extra_flags=("-I" + h + "/include", "-I" + h + "/include/linux"))
    d = os.path.dirname(so)
    srcs = [os.path.join(build.HARNESS, "Bridge.java")]
    for root, _, names in os.walk(os.path.join(build.REPO, JAVA)):
        srcs += [os.path.join(root, n) for n in sorted(names) if n.endswith(".java")]
    text = b"\0".join(open(f, "rb").read() for f in sorted(srcs))
    cls = os.path.join(d, "classes-" + hashlib.sha256(text).hexdigest()[:16])
    if not os.path.exists(os.path.join(cls, "Bridge.class")):
        tmp = cls + ".tmp%d" % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        p = subprocess.run([os.path.join(h, "bin", "javac"), "-nowarn", "-d", tmp] + srcs,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise build.BuildError(p.stdout[-3000:])
        shutil.rmtree(cls, ignore_errors=True)
        os.replace(tmp, cls)
    return d, cls


def u16(units):
    return None if units is None else "." + "".join("%04x" % u for u in units)


def to_units(cps):
    out = []
    for c in cps:
        if c >= 0x10000:
            c -= 0x10000
            out += [0xD800 + (c >> 10), 0xDC00 + (c & 1023)]
        else:
            out.append(c)
    return out


def to_cps(units):
    """code points of a Java string, unpaired surrogates as U+FFFD"""
    out, i = [], 0
    while i < len(units):
        u = units[i]
        i += 1
        if 0xD800 <= u < 0xDC00 and i < len(units) and 0xDC00 <= units[i] < 0xE000:
            out.append(0x10000 + ((u - 0xD800) << 10) + (units[i] - 0xDC00))
            i += 1
        else:
            out.append(0xFFFD if 0xD800 <= u < 0xE000 else u)
    return out


BAD = re.compile(r"FATAL ERROR in native|WARNING in native|WARNING: JNI|ERROR: AddressSanitizer|SIGSEGV|SIGABRT|terminate called|"
                 r"A fatal error has been detected|runtime error:")


def jvm(dirs, scratch, lines, wall):
    """answers of the calls, and what the JVM or the sanitizer complained about"""
    d, cls = dirs
    # the sanitizer looks up __cxa_throw when it starts, so the C++ runtime has to be there too
    asan = " ".join(subprocess.run(["g++", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip() for n in ("libasan.so", "libstdc++.so.6"))
    env = dict(os.environ)
    env.update({"LD_PRELOAD": asan, "ASAN_OPTIONS": "handle_segv=0:handle_sigbus=0:handle_abort=0:detect_leaks=0:exitcode=99:allocator_may_return_null=1:"
                                                    "detect_stack_use_after_return=0"})
    p = subprocess.Popen([os.path.join(home(), "bin", "java"), "-Xcheck:jni", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx512m", "-Xss4m",
                          "-XX:-CreateCoredumpOnCrash", "-Xshare:auto", "-Djava.library.path=" + d, "-cp", cls, "Bridge"],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch, env=env, start_new_session=True)
    timer = threading.Timer(wall, p.kill)
    timer.start()
    out, _ = p.communicate("".join(l + "\n" for l in lines).encode())
    expired = not timer.is_alive()
    timer.cancel()
    text = out.decode("utf-8", "replace")
    answers = re.findall(r"(?m)@ (.*)$", text)
    noise = [l[:300] for l in text.splitlines() if not l.startswith("@ ")]
    complaint = [l for l in noise if BAD.search(l)]
    return answers, complaint, noise, p.returncode, expired


def r_units(rng, cps):
    u = to_units([c for c in cps if 0 <= c <= 0x10FFFF and not 0xD800 <= c < 0xE000])
    k = rng.random()
    if k < 0.35:
        for _ in range(rng.randint(1, 4)):
            i = rng.randint(0, len(u))
            u[i:i] = rng.choice(([0xD800], [0xDFFF], [0xDC00, 0xD83D], [0], [0xDBFF], [0xD83D, 0xDE00], [0xFFFD], [0xFFFF], [0xFEFF], [0x80], [0x7FF, 0x800]))
    elif k < 0.5 and u:
        for _ in range(rng.randint(1, 3)):
            del u[rng.randrange(len(u)):][:1]
            if not u:
                break
    return u


def broken(rng, text):
    k = rng.randrange(6)
    if k == 0:
        return text[:rng.randrange(len(text))]
    if k == 1:
        return ""
    if k == 2:
        return text.replace('"type"', '"kind"', 1)
    if k == 3:
        return text.replace(":", "", 1)
    if k == 4:
        return '{"model": {"type": "é😀"}, "added_tokens": [], "normalizer": {"type": "Replace", "pattern": {"String": "a"}}}'
    return json.dumps({"version": "1.0", "truncation": None, "padding": None, "added_tokens": [], "normalizer": None, "post_processor": None,
                       "decoder": None, "pre_tokenizer": {"type": "Split", "pattern": {"Regex": "(é😀"}, "behavior": "Isolated", "invert": False},
                       "model": {"type": "WordPiece", "unk_token": "[UNK]", "continuing_subword_prefix": "##", "max_input_chars_per_word": 100,
                                 "vocab": {"[UNK]": 0}}}, ensure_ascii=False)


def c25(ctx):
    rng = ctx.rng
    dirs = prepare()
    drv = ctx.driver("asan")
    total = ctx.n(600, 12000)
    done = 0
    sizes = ctx.ladder(3, 6)

    def several():
        """tokenizers side by side, called in turn and from several threads at once"""
        k = rng.randint(2, 4)
        base = gen.r_config(rng)
        made = [base] + [gen.r_config(rng) if rng.random() < 0.5 else (gen.variant(rng, *base), base[1]) for _ in range(k - 1)]
        lines, steps, info, calls = [], [], [], []
        for j, (cfg, _) in enumerate(made):
            units = to_units([ord(c) for c in json.dumps(cfg, ensure_ascii=False)])
            lines.append("new " + u16(units))
            steps.append({"op": "tok", "as": "t%d" % j, "config": "".join(map(chr, to_cps(units))).encode().hex()})
            info.append(("new", None))
        texts = [r_units(rng, gen.config_text(rng, cfg, alphabet, 25)) for cfg, alphabet in made]
        for _ in range(rng.randint(6, 14)):
            j = rng.randrange(k)
            if rng.random() < 0.7:
                t, sp = rng.choice(texts), gen.flag(rng)
                calls.append(("enc %s %d %d" % (u16(t), sp, k - 1 - j), enc("t%d" % j, to_cps(t), sp), ("enc", t)))
            else:
                ids, skip = [rng.randrange(-1, 50) for _ in range(rng.choice((1, 6, 30)))], gen.flag(rng)
                calls.append(("dec .%s %d %d" % (",".join(map(str, ids)), skip, k - 1 - j), dec("t%d" % j, ids, skip), ("dec", ids)))
        together = calls * rng.randint(1, 4)
        rng.shuffle(together)
        par = ("par %d;" % rng.randint(2, 5) + ";".join(c[0] for c in together), [c[1] for c in together], ("par", [c[2] for c in together]))
        for c in [par] + calls if gen.flag(rng) else calls + [par]:
            lines.append(c[0])
            steps.append(c[1])
            info.append(c[2])
        ctx.count["several tokenizers"] += 1
        ctx.count["calls in threads"] += len(together)
        return lines, steps, info

    def judge(what, t, n, g):
        if "no" in n:       # could not be loaded
            return None if g == "none" else "a tokenizer exists that could not be loaded"
        if "x" in n:
            return None if g.startswith("threw") else "native throws, Java does not"
        if what == "enc":
            if t and any(0xD800 <= u < 0xE000 for u in t):
                ctx.count["texts with surrogates"] += 1
            if t and 0 in t:
                ctx.count["texts with NUL"] += 1
            want = "ids ." + ",".join(map(str, n["e"]["i"]))
        else:
            want = "text " + u16(to_units([ord(c) for c in bytes.fromhex(n["d"]).decode("utf-8", "replace")]))
        return None if g == want else "want " + want

    while (done < total or sizes) and not ctx.late():
        group = []       # (lines, native steps, units of the texts)
        for n in sizes[:2]:
            # long strings and id lists, large vocabularies
            huge = rng.random() < 0.3
            if huge:
                cfg, words = gen.huge_config(rng, min(n, 20000))
                t = [c for _ in range(n // 8 + 1) for c in rng.choice(words) + [32]]
            else:
                cfg, alphabet, t = gen.big_case(rng, n)
            if rng.random() < 0.6:
                cfg["truncation"] = None
            units = to_units([ord(c) for c in json.dumps(cfg, ensure_ascii=False)])
            vocab = list(((cfg["model"] or {}).get("vocab") or {}).values()) or [0]
            ids = [rng.choice(vocab) if rng.random() < 0.95 else rng.randrange(-2, 100) for _ in range(n)]
            tu = to_units([c for c in t if ref.scalar(c)])
            for at in [rng.randrange(len(tu)) for _ in range(rng.choice((0, 3)))]:
                tu[at] = rng.choice((0, 0xD800, 0xDC00, 0xDBFF, 0xFFFD))
            group.append((["new " + u16(units), "enc %s 1" % u16(tu), "dec .%s 0" % ",".join(map(str, ids)), "enc %s 0" % u16(tu[:40])],
                          [{"op": "tok", "as": "t", "config": "".join(map(chr, to_cps(units))).encode().hex()}, enc("t", to_cps(tu), True), dec("t", ids, False),
                           enc("t", to_cps(tu[:40]), False)],
                          [("new", None), ("enc", tu), ("dec", ids), ("enc", tu[:40])]))
            ctx.count["large"] += 1
        del sizes[:2]
        for _ in range(min(60, max(total - done, 0))):
            cfg, alphabet = gen.r_config(rng)
            if rng.random() < 0.3:
                cfg["decoder"] = {"type": "ByteLevel", "add_prefix_space": True, "trim_offsets": True, "use_regex": True}
            text = json.dumps(cfg, ensure_ascii=rng.random() < 0.3)
            if rng.random() < 0.12:
                text = broken(rng, text)
            units = to_units([ord(c) for c in text])
            if rng.random() < 0.05:
                units.insert(rng.randrange(len(units) + 1), rng.choice((0xD800, 0xDC00, 0)))
            cps = to_cps(units)
            lines = ["new " + u16(units)]
            steps = [{"op": "tok", "as": "t", "config": "".join(map(chr, cps)).encode().hex()}]
            info = [("new", None)]
            vocab = [v for v in ((cfg["model"] or {}).get("vocab") or {}).values()] or [0]
            for _ in range(rng.randint(3, 8)):
                k = rng.random()
                if k < 0.6:
                    t = r_units(rng, gen.config_text(rng, cfg, alphabet, 25) if rng.random() < 0.6 else gen.rtext(rng, 30))
                    if rng.random() < 0.02:
                        t = t * 400
                    sp = rng.random() < 0.5
                    lines.append("enc %s %d" % (u16(t), sp))
                    steps.append(enc("t", to_cps(t), sp))
                    info.append(("enc", t))
                elif k < 0.95:
                    ids = [rng.choice((rng.choice(vocab), rng.randrange(-2, 60), 2147483647, -2147483648, rng.choice(vocab))) for _ in range(rng.choice((0, 1, 6, 30)))]
                    skip = rng.random() < 0.5
                    lines.append("dec .%s %d" % (",".join(map(str, ids)), skip))
                    steps.append(dec("t", ids, skip))
                    info.append(("dec", ids))
                else:
                    lines.append(rng.choice(("enc null 1", "dec null 0")))
                    steps.append(None)
                    info.append(("null", None))
            group.append((lines, steps, info))
        if rng.random() < 0.5:
            group.append((["new null"], [None], [("null", None)]))
        for _ in range(4):
            group.append(several())
        native = drv.run([Case([x for s in g[1] if s for x in (s if isinstance(s, list) else [s])], tl=60) for g in group])
        lines = [l for g in group for l in g[0]]
        ans, complaint, noise, rc, expired = jvm(dirs, drv.dir, lines, 240)
        ctx.count["processes"] += 1
        done += len(group)
        replay = [{"java": lines}]
        if complaint:
            ctx.violation("the JVM or the sanitizer complained: " + " | ".join(complaint[:6]), replay, noise[-30:], "jni")
        if rc != 0 or not ans or ans[-1] != "done":
            at = lines[len(ans)] if len(ans) < len(lines) else "the end"
            ctx.violation("the process ended (%s%s) at the call %s: %s" % (rc, ", no answer in time" if expired else "", at[:300], " | ".join(noise[-12:])[:1500]),
                          [{"java": lines[:len(ans) + 1]}], None, "jni")
            if len(ctx.violations) > 5:
                return
        i = 0
        for (ls, steps, info), nat in zip(group, native):
            got = ans[i:i + len(ls)]
            i += len(ls)
            if len(got) < len(ls) or nat[0] != "ok":
                continue
            ctx.evals += 1
            ctx.note(tuple(ls))
            res = iter(nat[1])
            loaded = True
            for l, s, (what, t), g in zip(ls, steps, info, got):
                n = [next(res) for _ in s] if isinstance(s, list) else next(res) if s else None
                bad = None
                ctx.count["%s %s" % (what, re.split("[ ;]", g)[0])] += 1
                if what == "null":
                    bad = None if g.startswith("threw") or g == "none" else "null was accepted"
                elif what == "new":
                    loaded = "x" not in n
                    if g.startswith("threw") == loaded or g == "none":
                        bad = "loading differs"
                elif what == "par":
                    parts = g.split(";")[1:]
                    bads = [judge(w, u, x, y) for (w, u), x, y in zip(t, n, parts)] if len(parts) == len(t) else ["answers missing"]
                    bad = next((b for b in bads if b), None)
                else:
                    bad = judge(what, t, n, g)
                if bad:
                    ctx.violation("through Java %s gives %s: %s" % (l[:300], g[:300], bad[:300]), [{"java": ls}], got, "jni")
    ctx.sample({"java": [l[:200] for l in lines[:6]]})


def replay(steps):
    import tempfile
    d = tempfile.mkdtemp(prefix="vt-jni-")
    try:
        ans, complaint, noise, rc, _ = jvm(prepare(), d, [l for s in steps for l in s["java"]], 240)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"answers": ans, "complaints": complaint, "exit": rc, "noise": noise[-20:]}
