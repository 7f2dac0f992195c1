"""Whole-tokenizer properties: C03, C06, C07, C08, C20, C21, C22 and C23."""
import json

from . import gen, ref
from .lib import Case, add, chunks, code_points, comp, dec, enc, first_diff, hx, jhex, show, show_r, tok, unhex
from .p_post import from_json, parts, shape, trim


def brief(cfg):
    c = {k: v for k, v in cfg.items() if k not in ("model", "version") and v not in (None, [])}
    m = cfg["model"]
    if m:
        c["model"] = {k: v for k, v in m.items() if k not in ("vocab", "merges")}
    t = json.dumps(c, ensure_ascii=False)
    return t if len(t) < 900 else t[:900] + "..."


def row(t):
    return (t.id, t.type, t.value, t.word, t.special, t.att)


def compare_encoding(want, r, what, ctx=None):
    """want: parts of Tok, or None if the text must be rejected"""
    if want is None:
        return [] if "x" in r else [what + ": expected an exception, got " + show_r(r)]
    if "e" not in r:
        return [what + ": " + show_r(r)]
    out = shape(r["e"], what)
    if out:
        return out
    ps = parts(r["e"])
    if len(ps) != len(want):
        return ["%s: expected %d parts %s, got %d %s" % (what, len(want), [len(p) for p in want], len(ps), [len(p) for p in ps])]
    for k, (w, g) in enumerate(zip(want, ps)):
        a = [row(t) for t in w]
        b = [(x[0], x[1], x[2], "pad" if t.word == "pad" else x[3], x[5], x[6]) for x, t in zip(g, w)]
        if len(w) != len(g) or a != b:
            i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            return ["%s: part %d has %d tokens, expected %d; from token %d expected %s got %s" % (
                what, k, len(g), len(w), i, a[i:i + 4], [(x[0], x[1], x[2], x[3], x[5], x[6]) for x in g[i:i + 4]])]
    return []


def want_of(rt, text, sp):
    try:
        return rt.encode(text, sp)
    except ValueError:
        return None


def clean_ci(cfg, text):
    """long s and the Kelvin sign, where a pattern ignores case"""
    if "(?i" in json.dumps(cfg["pre_tokenizer"]):
        return [c for c in text if c not in (0x17F, 0x212A)]
    return text


def unambiguous(cfg):
    """drops added tokens whose matching is not specified: single-word ones in a prefix relation, equal normalized contents"""
    out, keys = [], []
    for t in cfg["added_tokens"] or []:
        raw = [ord(c) for c in t["content"]]
        norm = ref.cps_of(ref.normalize(cfg["normalizer"], ref.source(raw))) if t["normalized"] else raw
        if not norm or (t["normalized"] and (norm, True) in keys):
            continue
        keys.append((norm, t["normalized"]))
        out.append((t, norm))
    for t, n in out:
        if t["single_word"] and any(o is not t and (o_n[:len(n)] == n or n[:len(o_n)] == o_n) for o, o_n in out):
            t["single_word"] = False
    if cfg["added_tokens"] is not None:
        cfg["added_tokens"] = gen.added_json([t for t, _ in out])
        for t in cfg["added_tokens"]:
            t["id"] = cfg["added_tokens"].index(t)
    return cfg


# --------------------------------------------------------------------- C22
def c22(ctx):
    rng = ctx.rng

    def work(sizes=None, huge=False):
        for n in range(ctx.n(5000, 120000)) if sizes is None else sizes:
            if huge:
                cfg, words = gen.huge_config(rng, n)
                texts = [[c for w in words[i::3] for c in w + [32]] for i in range(3)]
                ctx.count["huge"] += 1
            elif sizes is not None:
                cfg, alphabet, text = gen.big_case(rng, n)
                if rng.random() < 0.3:
                    cfg["post_processor"] = gen.big_template(rng)
                texts = [clean_ci(cfg, text)]
                ctx.count["large"] += 1
            else:
                cfg, alphabet = gen.r_config(rng)
                if cfg["model"] and rng.random() < 0.1:
                    gen.sparse(rng, cfg)
                    ctx.count["sparse ids"] += 1
                elif cfg["model"] and rng.random() < 0.05:   # next to nothing, or nothing, in the vocabulary
                    v = cfg["model"]["vocab"]
                    cfg["model"]["vocab"] = {t: i for i, t in enumerate(rng.sample(list(v), rng.choice((0, 0, 1, 2)) if len(v) > 2 else 0))}
                    if cfg["model"]["type"] == "BPE":
                        cfg["model"]["merges"] = []
                    ctx.count["bare vocabularies"] += 1
                texts = [clean_ci(cfg, gen.config_text(rng, cfg, alphabet, rng.choice((3, 20, 60)))) for _ in range(3)]
            unambiguous(cfg)
            rt = ref.RefTokenizer(cfg)
            steps = [tok("t", cfg)]
            for t in texts:
                steps += [enc("t", t, True), enc("t", t, False)]
            for k in ("normalizer", "pre_tokenizer", "model", "post_processor", "truncation", "padding"):
                if cfg[k] is None:
                    ctx.count["no " + k] += 1
            wants = [(want_of(rt, t, True), want_of(rt, t, False)) for t in texts]

            def check(r, cfg=cfg, texts=texts, wants=wants):
                if r[0].get("ok") != 1:
                    return ["the configuration did not load: %s: %s" % (show_r(r[0]), brief(cfg))]
                out = []
                for k, x in enumerate(r[1:]):
                    w = wants[k // 2][k % 2]
                    out += compare_encoding(w, x, "encoding [%s] (special %s) under %s" % (
                        show(texts[k // 2], 20), k % 2 == 0, brief(cfg)))
                    ctx.count["rejected" if w is None else "encoded"] += 1
                    if w:
                        ctx.count["tokens"] += sum(map(len, w))
                        ctx.count["added tokens"] += any(t.value in rt_set for p in w for t in p) if (
                            rt_set := {t["content"] for t in cfg["added_tokens"] or []}) else 0
                return out[:3]
            yield Case(steps, check, tl=20 if sizes is None else 90, key=(json.dumps(cfg, sort_keys=True), tuple(map(tuple, texts))))
        ctx.sample({"config": brief(cfg), "text": texts[0][:60]})

    def composed():
        """the stages run one by one on the library's own components"""
        for _ in range(ctx.n(1500, 30000)):
            cfg, alphabet = gen.r_config(rng)
            cfg["added_tokens"] = []
            cfg["truncation"] = cfg["padding"] = cfg["post_processor"] = None
            if not cfg["model"] or not cfg["pre_tokenizer"] or not cfg["normalizer"]:
                continue
            text = gen.config_text(rng, cfg, alphabet, 40)
            norm = ref.cps_of(ref.normalize(cfg["normalizer"], ref.source(text)))
            steps = [tok("t", cfg), enc("t", text), comp("normalizer", "n", cfg["normalizer"]), {"op": "normalize", "c": "n", "text": text},
                     comp("pre_tokenizer", "p", cfg["pre_tokenizer"]), {"op": "pretok", "c": "p", "text": norm}]
            steps2 = [comp("model", "m", cfg["model"])]

            def check(r, cfg=cfg, norm=norm, text=text):
                what = "encoding [%s] under %s" % (show(text, 20), brief(cfg))
                if "e" not in r[1]:
                    return [what + ": " + show_r(r[1])]
                if r[3].get("w") != norm or "p" not in r[5]:
                    return []     # decided by the normalizer's and the pre-tokenizer's own checks
                ctx.count["composed"] += 1
                pieces = [unhex(p["n"]).decode() for p in r[5]["p"]["p"]]
                want = [(i, t, w) for w, p in enumerate(pieces) for i, t, *_ in ref.model_tokens(cfg["model"], [ord(c) for c in p])]
                e = r[1]["e"]
                got = list(zip(e["i"], [unhex(t).decode("utf-8", "replace") for t in e["t"]], e["w"]))
                if got != want:
                    return ["%s: the stages alone give %s, together %s" % (what, want[:8], got[:8])]
            yield Case(steps, check, tl=20)
    ctx.run(work(ctx.ladder(4, 12)), batch=4)
    ctx.run(work(ctx.ladder(1, 3, lo=4000), True), batch=4)
    ctx.run(work(), batch=60)
    ctx.run(composed(), batch=100)


# --------------------------------------------------------------------- C06
def span_ok(chars, a, b):
    """whether [a, b) delimits the source of the characters"""
    lo, hi = min(c[1] for c in chars), max(c[2] for c in chars)
    if not lo <= a <= b <= hi:
        return False
    f, l = chars[0], chars[-1]
    if f[3] and a != lo or l[3] and b != hi:
        return False
    exact = [c for c in chars if c[3]]
    if exact and (a > min(c[1] for c in exact) or b < max(c[2] for c in exact)):
        return False
    # inside the clusters at the ends
    return a <= max(f[2], lo) and b >= min(l[1], hi)


def c06(ctx):
    rng = ctx.rng

    def check_text(cfg, text, sp, w, x, what, trimmed):
        pres, posts = gen.find(cfg["pre_tokenizer"], "ByteLevel"), gen.find(cfg["post_processor"], "ByteLevel")
        # one byte-level pre-tokenizer, and processors which know whether it puts spaces first
        strict = trimmed and len(pres) == 1 and len([p for p in posts if p["trim_offsets"]]) == 1 and \
            all(p["add_prefix_space"] == pres[0]["add_prefix_space"] for p in posts)
        if w is None or "e" not in x or shape(x["e"], what):
            return []
        out = []
        n = len(text)
        for k, (wp, gp) in enumerate(zip(w, parts(x["e"]))):
            if [t.id for t in wp] != [g[0] for g in gp]:
                ctx.count["other tokens"] += 1      # not this property's concern
                continue
            last = (0, 0)
            for i, (t, g) in enumerate(zip(wp, gp)):
                a, b = g[4]
                if t.chars is None:
                    if t.off != (a, b):
                        out.append("%s: part %d token %d (template or padding) has offsets %s" % (what, k, i, g[4]))
                    continue
                ctx.count["offsets"] += 1
                if not 0 <= a <= b <= n:
                    out.append("%s: part %d token %d %r: offsets %s outside the text of %d characters" % (what, k, i, t.value, g[4], n))
                    continue
                if trimmed:
                    # some span allowed before trimming must give this one
                    lo, hi = min(c[1] for c in t.chars), max(c[2] for c in t.chars)
                    good = any([a, b] in trim((0, 0, t.value, 0, [p, q]), i == 0 or p == 0 or all(o.chars is None for o in wp[:i]), pre, False)
                               for p in range(lo, hi + 1) for q in range(p, hi + 1) if span_ok(t.chars, p, q)
                               for pre in (True, False))
                    ctx.count["trimmed"] += 1
                    # spaces only: the first token of the text keeps its other characters, whatever was put before it
                    kept = [c for c in t.chars if c[3] and c[1] < c[2] and text[c[1]] not in ref.WHITE]
                    if strict and kept and not cfg["normalizer"] and 0x120 not in text and min(c[1] for c in t.chars) == 0:
                        ctx.count["trimmed at the start"] += 1
                        if a > min(c[1] for c in kept) or b < max(c[2] for c in kept):
                            good = False
                else:
                    good = span_ok(t.chars, a, b)
                if not good:
                    out.append("%s: part %d token %d %r: offsets %s, made from %s" % (
                        what, k, i, t.value, g[4], [(hex(c[0]), c[1], c[2], c[3]) for c in t.chars[:8]]))
                if not repeats and not trimmed and (a < last[0] or b < last[1]):
                    out.append("%s: part %d token %d %r: offsets %s go back from %s" % (what, k, i, t.value, g[4], last))
                last = (a, b)
                if not all(c[3] for c in t.chars):
                    ctx.count["inexact"] += 1
                if any(c[1] != j for j, c in enumerate(t.chars, t.chars[0][1])):
                    ctx.count["shifted"] += 1
        return out[:3]

    repeats = False

    def work(sizes=None):
        nonlocal repeats
        for n in range(ctx.n(6000, 150000)) if sizes is None else sizes:
            trimmed = rng.random() < 0.15 and sizes is None
            cfg, alphabet = gen.r_config(rng, trim=True)
            if not trimmed:
                gen.strip_trim(cfg["post_processor"])
            if trimmed and rng.random() < 0.6:      # the usual combinations
                space = rng.random() < 0.7
                bl = {"type": "ByteLevel", "add_prefix_space": space, "trim_offsets": True, "use_regex": gen.flag(rng)}
                cfg["normalizer"], cfg["pre_tokenizer"] = None, bl
                cfg["model"] = gen.r_bpe(rng, alphabet, byte_level=True)
                cfg["post_processor"] = rng.choice((bl, {"type": "Sequence", "processors": [gen.r_template(rng), bl]},
                                                    {"type": "Sequence", "processors": [bl, gen.r_template(rng)]}))
                if rng.random() < 0.5:      # more spaces in a token than characters it was made from
                    bl["use_regex"] = bl["use_regex"] and gen.flag(rng)
                    abc = [c for c in "abx.1_" if rng.random() < 0.7] or ["a"]
                    alphabet = abc + [" "]
                    g = "\u0120"
                    merges = [(g, g), (g, g + g)] + [p for c in abc for p in ((g + g, c), (c, g), (g, c), (c, g + g), (g + c, g))]
                    rng.shuffle(merges)
                    names = [g] + abc + [x + y for x, y in merges]
                    names += [x for p in merges for x in p]
                    cfg["model"] = {"type": "BPE", "dropout": None, "unk_token": None, "continuing_subword_prefix": None, "end_of_word_suffix": None,
                                    "fuse_unk": False, "byte_fallback": False, "ignore_merges": False,
                                    "vocab": {t: i for i, t in enumerate(dict.fromkeys(names))},
                                    "merges": ["%s %s" % m for m in dict.fromkeys(merges)]}
                    cfg["normalizer"] = {"type": "Replace", "pattern": {"String": rng.choice(abc)},
                                         "content": rng.choice(("  ", "   ", "  a", "a  ", " a ", " ", "  a  ")).replace("a", rng.choice(abc))}
                    ctx.count["spaces inserted"] += 1
            trimmed = gen.trims(cfg["post_processor"])
            unambiguous(cfg)
            if not trimmed and rng.random() < 0.4:      # normalizers matter most here
                cfg["normalizer"] = gen.r_normalizer(rng)
            unambiguous(cfg)
            from .p_post import post_repeats
            rep = post_repeats(cfg["post_processor"])
            rt = ref.RefTokenizer(cfg)
            texts = []
            for _ in range(3):
                if rng.random() < 0.4:
                    t = gen.rtext(rng, rng.choice((3, 12, 40)))
                    for _ in range(rng.randint(0, 4)):
                        t.insert(rng.randint(0, len(t)), ord(rng.choice(alphabet)))
                else:
                    t = gen.config_text(rng, cfg, alphabet, rng.choice((3, 20, 60)))
                texts.append(clean_ci(cfg, t))
                if sizes is not None:
                    gen.tame(rng, cfg, n)
                    m = rng.choice((0, 0, 1, 2))
                    texts[0] = clean_ci(cfg, gen.stretch(rng, n * max(m, 1), lambda: gen.config_text(rng, cfg, alphabet, 60) if m == 0 else
                                                         gen.rtext(rng, 40) if m == 1 else [ord(rng.choice(alphabet)), rng.choice((32, 44))]))
                    ctx.count["large"] += 1
                    break
            sp = gen.flag(rng)
            steps = [tok("t", cfg)] + [enc("t", t, sp) for t in texts]
            wants = [want_of(rt, t, sp) for t in texts]

            def check(r, cfg=cfg, texts=texts, wants=wants, sp=sp, trimmed=trimmed, rep=rep):
                nonlocal repeats
                repeats = rep
                out = []
                for t, w, x in zip(texts, wants, r[1:]):
                    out += check_text(cfg, t, sp, w, x, "encoding [%s] under %s" % (show(t, 30), brief(cfg)), trimmed)
                return out[:3]
            yield Case(steps, check, tl=20 if sizes is None else 90, key=(json.dumps(cfg, sort_keys=True), tuple(map(tuple, texts))))
        ctx.sample({"config": brief(cfg), "text": texts[0][:60]})
    ctx.run(work(ctx.ladder(4, 12)), batch=4)
    ctx.run(work(), batch=60)


# --------------------------------------------------------------------- C07
ADDED_POOL = ["[MASK]", "[CLS]", "<s>", "</s>", "<|im_start|>", "A", "AB", "ABC", "BC", "é", "e\u0301", "😀", "中", "a b", "ab", "aba", "b",
              "Ünï", "x.y", "...", "\u00c5", "İx"[1:], "STRASSE", "tok", " lead", "trail ", "##a", "Ġb", "\U0002b820", "ß", "12", "$(", "\\s"]


def small_config(rng):
    """a pipeline in which every token is easy to read"""
    alphabet = list("abcABx12é") + [rng.choice("中😀ßÅ.")]
    cfg = {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [], "normalizer": gen.r_normalizer(rng),
           "pre_tokenizer": gen.r_pretokenizer(rng), "post_processor": None, "decoder": None, "model": None}
    if rng.random() < 0.35:
        cfg["normalizer"] = rng.choice((None, {"type": "NFC"}, {"type": "NFD"}, gen.r_simple_normalizer(rng), {
            "type": "BertNormalizer", "clean_text": True, "handle_chinese_chars": True, "strip_accents": None, "lowercase": True}))
    bl = gen.uses(cfg["pre_tokenizer"], "ByteLevel")
    cfg["model"] = gen.r_bpe(rng, alphabet, byte_level=True) if bl else (
        gen.r_wordpiece(rng, alphabet) if gen.flag(rng) else gen.r_bpe(rng, alphabet))
    return cfg, alphabet


def r_added_dense(rng, cfg, n=None):
    out, seen = [], set()
    vocab = sorted(cfg["model"]["vocab"]) if cfg["model"] else []
    for _ in range(rng.randint(1, 6) if n is None else n):
        k = rng.random()
        c = rng.choice(ADDED_POOL) if k < 0.75 or not vocab else rng.choice(vocab) if k < 0.9 else \
            "".join(chr(c) for c in gen.rtext(rng, 5)) or "q"
        if c in seen or not c or "\u0130" in c:
            continue
        seen.add(c)
        sp = gen.flag(rng)
        out.append({"content": c, "single_word": rng.random() < 0.35, "lstrip": rng.random() < 0.3, "rstrip": rng.random() < 0.3,
                    "normalized": gen.flag(rng), "special": sp})
    return out


def many_added(rng, k):
    """k tokens, many with the beginning of another"""
    abc = rng.choice(("ab", "abcdefgh", "é中😀x", "".join(gen.LATIN)))
    out, seen = [], set()
    flags = rng.random() < 0.5
    while len(out) < k:
        j = rng.random()
        if j < 0.3:
            c = "<t%d>" % len(out)
        elif j < 0.5 and out:
            c = rng.choice(out)["content"] + rng.choice(abc)
        elif j < 0.52:
            c = "".join(rng.choice(abc) for _ in range(rng.choice((33, 65, 129, 257, 300, 1030, 2000))))
        else:
            c = "".join(rng.choice(abc) for _ in range(rng.randint(3, 16)))
        if c in seen:
            continue
        seen.add(c)
        out.append({"content": c, "single_word": flags and rng.random() < 0.1, "lstrip": flags and rng.random() < 0.2,
                    "rstrip": flags and rng.random() < 0.2, "normalized": gen.flag(rng), "special": gen.flag(rng)})
    return out


def dense_text(rng, cfg, alphabet, added):
    t = []
    for _ in range(rng.randint(0, 12)):
        k = rng.random()
        if k < 0.45 and added:
            c = rng.choice(added)["content"]
            k2 = rng.random()
            if k2 < 0.1:
                c = c.lower()
            elif k2 < 0.15:
                c = c.upper()
            elif k2 < 0.25:
                c = c[:rng.randint(1, len(c))]
            t += [ord(x) for x in c if x != "\u0130" and len(x) == 1]
        elif k < 0.75:
            t += [rng.choice((32, 32, 32, 9, 10, 0xA0, 0x3000, 0x2E, 0x2D, 0x5F, 0x301, 0x200D, 0x2C, 0x24B6, 0x2160))] * rng.randint(1, 2)
        else:
            t += [ord(rng.choice(alphabet)) for _ in range(rng.randint(1, 4))]
    return [c for c in t if gen.ok(c)]


def c07(ctx):
    rng = ctx.rng

    def work(sizes=None, counts=None):
        for n in sizes or counts or range(0 if sizes is not None or counts is not None else ctx.n(6000, 150000)):
            cfg, alphabet = small_config(rng)
            added = r_added_dense(rng, cfg) if counts is None else many_added(rng, n)
            late = rng.random() < 0.35 and (counts is None or n < 400)
            if counts is not None:
                cfg["normalizer"] = rng.choice((None, {"type": "NFC"}, {"type": "NFKD"}, {"type": "StripAccents"}, {
                    "type": "BertNormalizer", "clean_text": True, "handle_chinese_chars": False, "strip_accents": None, "lowercase": True}))
                ctx.count["many added tokens"] += 1
            cfg["added_tokens"] = gen.added_json(added)
            if counts is not None:
                for t in cfg["added_tokens"]:      # equal normalized contents are not specified
                    t["normalized"] = t["normalized"] and t["content"].startswith("<t")
                    t["single_word"] = t["single_word"] and t["content"].startswith("<t")
            else:
                unambiguous(cfg)
            added = cfg["added_tokens"]
            rt = ref.RefTokenizer(cfg)
            if sizes is not None or counts is not None:
                k = rng.random()
                gen.tame(rng, cfg, 2000)

                def make():
                    if counts is not None and rng.random() < 0.5:
                        c = [ord(x) for x in rng.choice(added)["content"]]
                        return rng.choice((c, c, c[:-1] + [32], c + c, [32] + c + [32], [0x7A] + c))
                    if k < 0.3 and added and rng.random() < 0.1:
                        return [rng.choice((32, 10, 0xA0))] * rng.choice((3, 17, 33, 50, 65, 130, 300)) + \
                            [ord(x) for x in rng.choice(added)["content"]] + [rng.choice((32, 9, 0x3000))] * rng.choice((0, 3, 17, 33, 65, 130, 300))
                    return dense_text(rng, cfg, alphabet, added)
                texts = [clean_ci(cfg, gen.stretch(rng, n if sizes else rng.choice((300, 2000, 6000)), make))]
                ctx.count["large"] += 1
            else:
                texts = [clean_ci(cfg, dense_text(rng, cfg, alphabet, added)) for _ in range(4)]
            given = added
            if added and counts is None and sizes is None and rng.random() < 0.15:
                # some were first added with other flags: those of the last addition count
                given = list(added)
                for t in rng.sample(added, rng.randint(1, min(3, len(added)))):
                    given[added.index(t)] = dict(t, **{f: gen.flag(rng) for f in ("single_word", "lstrip", "rstrip", "normalized")})
                    given.append(t)
                ctx.count["added again with other flags"] += 1
            if late:
                k = rng.randint(0, len(added))
                steps = [tok("t", dict(cfg, added_tokens=added[:k]))] + ([enc("t", texts[0])] if gen.flag(rng) else [])
                added = given
                while k < len(added):
                    n = rng.randint(1, len(added) - k)
                    more = added[k:k + n]
                    steps.append(add("t", more, all(t["special"] for t in more) and rng.random() < 0.7))
                    ctx.count["late additions"] += 1
                    if gen.flag(rng):
                        steps.append(enc("t", texts[-1]))
                    k += n
                if rng.random() < 0.3:       # nothing new
                    steps.append(add("t", [], gen.flag(rng)))
            else:
                steps = [tok("t", dict(cfg, added_tokens=given))]
            pre = len(steps)
            steps += [enc("t", t) for t in texts] + [tok("plain", dict(cfg, added_tokens=[]))] + [enc("plain", t) for t in texts]
            wants = [want_of(rt, t, True) for t in texts]
            finds = [[p.tok is not None for p in rt.added.extract(t)] for t in texts]

            def check(r, cfg=cfg, texts=texts, wants=wants, finds=finds, pre=pre):
                out = []
                n = len(texts)
                for i, (t, w, f) in enumerate(zip(texts, wants, finds)):
                    x, plain = r[pre + i], r[pre + n + 1 + i]
                    what = "encoding [%s] %r under %s" % (show(t, 30), ref.utf8(t), brief(cfg))
                    if not any(f):
                        # nothing to find: the added vocabulary must not show
                        ctx.count["unaffected"] += 1
                        if x != plain:
                            out.append("%s: no added token occurs, yet the result is %s instead of %s" % (what, show_r(x), show_r(plain)))
                        continue
                    ctx.count["found"] += sum(f)
                    # compare only the recognised tokens and what lies between them; the stages around are decided elsewhere
                    out += compare_added(ctx, cfg, w, x, what)
                return out[:3]
            yield Case(steps, check, tl=20 if len(texts) > 1 else 90, key=(json.dumps(cfg, sort_keys=True), tuple(map(tuple, texts))))
        ctx.sample({"config": brief(cfg), "text": texts[0][:60]})

    def outside():
        """surroundings are tokenized as if split there: each gap encoded alone"""
        for _ in range(ctx.n(2500, 50000)):
            cfg, alphabet = small_config(rng)
            # without normalized tokens, prefix spaces or normalizers that look at the text's ends
            cfg["normalizer"] = rng.choice((None, {"type": "NFC"}, {"type": "StripAccents"}, gen.r_simple_normalizer(rng)))
            toks = [t for t in r_added_dense(rng, cfg, 3)]
            for t in toks:
                t.update(normalized=False, single_word=False, lstrip=False, rstrip=False)
            cfg["added_tokens"] = gen.added_json(toks)
            if not toks:
                continue
            gaps = []
            for _ in range(rng.randint(1, 4)):
                g = clean_ci(cfg, [c for c in gen.alphabet_text(rng, alphabet, 8, 0.05)])
                if all(chr_in(g, t["content"]) for t in toks):
                    gaps.append(g)
            seps = [rng.choice(toks)["content"] for _ in gaps[1:]]
            text = list(gaps[0]) if gaps else []
            at = []
            for s, g in zip(seps, gaps[1:]):
                at.append((len(text), len(text) + len(s), s))
                text += [ord(c) for c in s] + g
            # the joints must not make or lengthen a match
            rt = ref.RefTokenizer(cfg)
            if not gaps or [f for f in rt.added.find(text, 0) if f[2] is not None] != at:
                continue
            steps = [tok("t", cfg), enc("t", text)] + [enc("t", g) for g in gaps]

            def check(r, cfg=cfg, text=text, gaps=gaps, seps=seps, rt=rt):
                if any("e" not in x for x in r[1:]):
                    return [] if all("x" in x for x in r[1:]) else ["encoding [%s]: %s" % (show(text), [show_r(x)[:80] for x in r[1:]])]
                ctx.count["gaps"] += len(gaps)
                want = []
                for i, g in enumerate(gaps):
                    if i:
                        want.append((rt.added.ids[seps[i - 1]], hx(seps[i - 1])))
                    e = r[2 + i]["e"]
                    want += list(zip(e["i"], e["t"]))
                e = r[1]["e"]
                got = list(zip(e["i"], e["t"]))
                if got != want:
                    return ["encoding [%s] under %s: its parts alone give %s, together %s" % (
                        show(text, 30), brief(cfg), [(i, unhex(t)) for i, t in want][:10], [(i, unhex(t)) for i, t in got][:10])]
            yield Case(steps, check, tl=20)
    def neighbours():
        """every character next to a single-word token, and next to one which absorbs whitespace"""
        cfg = {"version": "1.0", "truncation": None, "padding": None, "normalizer": None, "post_processor": None, "decoder": None,
               "pre_tokenizer": {"type": "Split", "pattern": {"Regex": "[.]"}, "behavior": "Isolated", "invert": False},
               "added_tokens": gen.added_json([dict(content=c, single_word=s, lstrip=l, rstrip=r, normalized=False, special=False)
                                               for c, s, l, r in (("<s>", True, False, False), ("<b>", False, True, True), ("<l>", False, True, False), ("<r>", False, False, True))]),
               "model": {"type": "WordPiece", "unk_token": "[UNK]", "continuing_subword_prefix": "##", "max_input_chars_per_word": 100,
                         "vocab": {"[UNK]": 0, ".": 1}}}
        s, b, l, r = ([ord(x) for x in c] for c in ("<s>", "<b>", "<l>", "<r>"))
        every = [c for c in code_points(ctx.thorough) if c not in (0x2E, 0x3C, 0x3E)]
        for cs in chunks(ctx.mine(every), 64):
            def check(x, cs=cs):
                if "e" not in x[1]:
                    return ["encoding the neighbours [%s]: %s" % (show(cs), show_r(x[1]))]
                e = x[1]["e"]
                got = iter(list(zip(e["i"], [unhex(t).decode("utf-8", "replace") for t in e["t"]])))
                for c in cs:
                    ch, out, w, sp = chr(c), [], ref.is_word(c), c in ref.WHITE
                    gap = [(0, "[UNK]")]
                    out += [(0, "[UNK]")] if w else gap + [(2, "<s>")]
                    out += [(1, ".")] + ([(0, "[UNK]")] if w else [(2, "<s>")] + gap) + [(1, ".")]
                    out += ([(3, ch + "<b>" + ch)] if sp else gap + [(3, "<b>")] + gap) + [(1, ".")]
                    out += ([(4, ch + "<l>")] if sp else gap + [(4, "<l>")]) + gap + [(1, ".")]
                    out += gap + ([(5, "<r>" + ch)] if sp else [(5, "<r>")] + gap) + [(1, ".")]
                    ctx.count["neighbours"] += 1
                    have = [next(got, None) for _ in out]
                    if have != out:
                        return ["next to the character %04X added tokens give %s, expected %s" % (c, have, out)]
            text = [x for c in cs for x in [c] + s + [46] + s + [c, 46, c] + b + [c, 46, c] + l + [c, 46, c] + r + [c, 46]]
            yield Case([tok("t", cfg), enc("t", text)], check, tl=20)
    ctx.run(neighbours(), batch=8)
    ctx.run(work(ctx.ladder(3, 9)), batch=4)
    ctx.run(work(None, ctx.mine([10, 17, 33, 40, 65, 100, 129, 200, 257, 300, 520, 1030, 4100] * (2 if not ctx.thorough else 8))), batch=4)
    ctx.run(work(), batch=60)
    ctx.run(outside(), batch=100)


def chr_in(g, content):
    return content not in "".join(map(chr, g))


def compare_added(ctx, cfg, want, r, what):
    if want is None:
        return []
    if "e" not in r:
        return [what + ": " + show_r(r)]
    e = r["e"]
    out = shape(e, what)
    if out:
        return out
    a = [(t.id, t.value) for t in want[0]]
    b = [(i, unhex(t).decode("utf-8", "replace")) for i, t in zip(e["i"], e["t"])]
    if a != b:
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return ["%s: from token %d expected %s got %s" % (what, i, a[i:i + 5], b[i:i + 5])]
    return []


# --------------------------------------------------------------------- C08
def c08(ctx):
    rng = ctx.rng

    def work():
        for _ in range(ctx.n(3000, 60000)):
            cfg, alphabet = small_config(rng)
            if rng.random() < 0.08:
                cfg["model"] = None
            if rng.random() < 0.5:
                cfg["normalizer"] = None
            cfg["decoder"] = None
            pool = [c for c in ADDED_POOL] + (rng.sample(sorted(cfg["model"]["vocab"]), min(6, len(cfg["model"]["vocab"]))) if cfg["model"] else [])
            pool = rng.sample(pool, min(len(pool), rng.randint(2, 14))) + [""]

            def some(n):
                out = []
                for _ in range(rng.randint(0, n)):
                    c = rng.choice(pool)
                    out.append({"content": c, "single_word": gen.flag(rng), "lstrip": gen.flag(rng), "rstrip": gen.flag(rng),
                                "normalized": gen.flag(rng), "special": special.setdefault(c, gen.flag(rng)), "id": rng.randrange(100)})
                    if not special[c] and rng.random() < 0.15:      # becomes special from the next mention on
                        special[c] = True
                return out
            special = {}
            first = some(5)
            cfg["added_tokens"] = [dict(t, id=i) for i, t in enumerate(first)]
            rt = ref.Added(dict(cfg, added_tokens=[]))
            rt.add(first)
            steps, checks = [tok("t", cfg)], [lambda r: [] if r.get("ok") == 1 else ["did not load: " + show_r(r)]]
            history = [[t["content"] for t in first]]

            def observe():
                ids = sorted(rt.by_id.items())
                top = max(list(rt.by_id) + list(rt.model_vocab.values()) + [-1])
                for i, c in ids:
                    steps.extend((dec("t", [i], False), dec("t", [i], True)))
                    checks.append(lambda r, i=i, c=c, h=list(history): [] if r.get("d") == hx(c) else [
                        "after %s id %d decodes to %s, expected %r" % (h, i, show_r(r), c)])
                    sp = c in rt.special
                    checks.append(lambda r, i=i, c=c, sp=sp, h=list(history): [] if r.get("d") == ("" if sp else hx(c)) else [
                        "after %s id %d (%r, special %s) decodes with skipping to %s" % (h, i, c, sp, show_r(r))])
                for i in (top + 1, top + 2, -1):      # the next id must still be free
                    if i not in rt.by_id:
                        steps.append(dec("t", [i], False))
                        checks.append(lambda r, i=i, h=list(history): [] if r.get("d") == "" else [
                            "after %s the free id %d decodes to %s" % (h, i, show_r(r))])
                # all at once, in order
                some_ids = [rng.choice(ids)[0] for _ in range(6)] if ids else []
                steps.append(dec("t", some_ids, True))
                want = " ".join(rt.by_id[i] for i in some_ids if rt.by_id[i] not in rt.special)
                checks.append(lambda r, w=want, s=some_ids, h=list(history): [] if r.get("d") == hx(w) else [
                    "after %s ids %s decode with skipping to %s, expected %r" % (h, s, show_r(r), w)])
                # ids seen in encodings
                for c in rng.sample(sorted(rt.ids), min(3, len(rt.ids))):
                    if rt.flags[c]["normalized"] and cfg["normalizer"]:
                        continue
                    if any(o != c and o in c or len(o) > len(c) and c in o for o in rt.ids):
                        continue
                    t = [ord(x) for x in c]
                    f = rt.find(t, 1 if rt.flags[c]["normalized"] else 0)
                    if f != [(0, len(t), c)]:
                        continue
                    if not rt.flags[c]["normalized"] or True:
                        steps.append(enc("t", t, False))
                        checks.append(lambda r, c=c, i=rt.ids[c], h=list(history): [] if "e" in r and r["e"]["i"] == [i] else [
                            "after %s the text %r encodes to %s, expected the id %d" % (h, c, show_r(r), i)])
                        ctx.count["encoded"] += 1
            observe()
            for _ in range(rng.randint(0, 5)):
                more = some(4)
                viaspecial = bool(more) and all(t["special"] for t in more) and gen.flag(rng)
                n = rt.add(more)
                steps.append(add("t", more, viaspecial))
                history.append([t["content"] for t in more])
                ctx.count["additions"] += 1
                ctx.count["repeated contents"] += sum(t["content"] in sum(history[:-1], []) for t in more)
                ctx.count["model contents"] += sum(t["content"] in rt.model_vocab for t in more)
                checks.append(lambda r, n=n, h=list(history): [] if r.get("n") == n else [
                    "the last of %s returned %s, expected %d" % (h, show_r(r), n)])
                observe()
            yield Case(steps, lambda r, checks=checks: [v for c, x in zip(checks, r) for v in c(x)][:4], tl=20,
                       key=(repr(history), repr(special), repr(sorted((cfg["model"] or {"vocab": {}})["vocab"]))))
        ctx.sample({"history": history, "special": special})

    def large(counts, huge=False):
        """many tokens, one by one or in few calls, with repeats; then every id is read back"""
        for n in counts:
            if huge:
                cfg, _ = gen.huge_config(rng, n)
                cfg["added_tokens"], n = [], rng.choice((5, 40))
                ctx.count["huge vocabularies"] += 1
            else:
                cfg, _ = small_config(rng)
            cfg.update(decoder=None, normalizer=None, post_processor=None)
            rt = ref.Added(dict(cfg, added_tokens=[]))
            every = many_added(rng, n)
            if cfg["model"]:
                every += [dict(every[0], content=c) for c in rng.sample(sorted(cfg["model"]["vocab"]), min(9, len(cfg["model"]["vocab"])))]
                rng.shuffle(every)
            first = every[:rng.choice((0, 1, n // 2))]
            cfg["added_tokens"] = [dict(t, id=i) for i, t in enumerate(first)]
            rt.add(first)
            steps, checks, k = [tok("t", cfg)], [lambda r: [] if r.get("ok") == 1 else ["did not load: " + show_r(r)]], len(first)
            big = gen.flag(rng)
            while k < len(every):
                j = max(rng.choice((1, 2, 30, 300, 5000)) if big else rng.choice((1, 1, 3)), n * n // 40000)
                more = every[k:k + j] + [dict(t) for t in rng.sample(every[:k + j], min(rng.randint(0, 3), k + j))]
                k += j
                got = rt.add(more)
                steps.append(add("t", more, all(t["special"] for t in more)))
                checks.append(lambda r, got=got, j=len(more), k=k: [] if r.get("n") == got else [
                    "adding %d tokens after %d returned %s, expected %d" % (j, k, show_r(r), got)])
            ids = sorted(rt.by_id)
            rng.shuffle(ids)
            ctx.count["many additions"] += 1
            ctx.count["ids read back"] += len(ids)
            for skip in (False, True):
                steps.append(dec("t", ids, skip))
                want = " ".join(rt.by_id[i] for i in ids if not (skip and rt.by_id[i] in rt.special))
                checks.append(lambda r, want=want, skip=skip, n=len(every): [] if r.get("d") == hx(want) else [
                    "after %d additions the added ids decode (skip %s) to %s..., expected %r..." % (
                        n, skip, unhex(r["d"])[:200] if "d" in r else show_r(r), want[:200])])
            for i in rng.sample(ids, min(len(ids), 200)) + [max(ids), max(ids) + 1]:
                steps.append(dec("t", [i], False))
                checks.append(lambda r, i=i, want=rt.by_id.get(i, ""), n=len(every): [] if r.get("d") == hx(want) else [
                    "after %d additions id %d decodes to %s, expected %r" % (n, i, show_r(r), want)])
            for i in rng.sample(ids, min(len(ids), 60)):
                c = rt.by_id[i]
                if rt.find([ord(x) for x in c], int(rt.flags[c]["normalized"])) == [(0, len(c), c)] and (
                        not rt.flags[c]["normalized"] or all(f[2] is None for f in rt.find([ord(x) for x in c], 0))):
                    steps.append(enc("t", [ord(x) for x in c], False))
                    checks.append(lambda r, i=i, c=c, n=len(every): [] if "e" in r and r["e"]["i"] == [i] else [
                        "after %d additions %r encodes to %s, expected the id %d" % (n, c[:100], show_r(r), i)])
            yield Case(steps, lambda r, checks=checks: [v for c, x in zip(checks, r) for v in c(x)][:4], tl=90)
    ctx.run(large(ctx.mine([20, 33, 65, 100, 129, 200, 255, 256, 257, 300, 520, 1030, 2000, 4100] * (2 if not ctx.thorough else 8))), batch=4)
    ctx.run(large(ctx.ladder(1, 3, lo=4000), True), batch=4)
    ctx.run(work(), batch=100)


# --------------------------------------------------------------------- C20
DTOK = ["a", "##b", "##", "##ing", "hello", ".", "?", "!", ",", "'", "n't", "'m", "'s", "'ve", "'re", "do", "not", " do not", "##n't", "do not",
        "<0x41>", "<0xC3>", "<0xA9>", "<0xE4>", "<0xB8>", "<0xAD>", "<0xF0>", "<0x9F>", "<0x98>", "<0x80>", "<0xFF>", "<0x0A>", "<0x00>",
        "<0x4G>", "<0x411>", "<0xab>", "0x41", "<0x41", "▁", "▁a", "▁▁b", "a▁", "é", "éé", "😀", "中", "", " ", "  a", "a  ", " a ", "@@x", "aa", "aaa",
        "ab", "aab", "##é", "x ' y", "a , b", "it 's", "[CLS]", "\n", "Ġa", "Ā"]


CLEANED = [" .", " ?", " !", " ,", " ' ", " n't", " 'm", " do not", " 's", " 've", " 're", " ", "'", "a", "n't", "'m", " '", "do not", "##"]


def r_tokens(rng):
    k = rng.random()
    n = rng.choice((0, 1, 2, 3, 6, 12))
    if k < 0.2:       # byte runs
        s = rng.choice(("é", "中", "😀", "a", "\u0301", "𝄞", "é中", "\U0010ffff", "\x7f\x80"))
        out = ["<0x%02X>" % b for b in s.encode()]
        if rng.random() < 0.4:
            del out[rng.randrange(len(out))]
        if rng.random() < 0.3:
            out.insert(rng.randint(0, len(out)), rng.choice(DTOK))
        if rng.random() < 0.2:
            out = [rng.choice(("<0x80>", "<0xED>", "<0xA0>", "<0xC0>", "<0xF4>", "<0x90>"))] + out
        return [rng.choice(DTOK) for _ in range(rng.randint(0, 2))] + out + [rng.choice(DTOK) for _ in range(rng.randint(0, 2))]
    if k < 0.3:
        return ["".join(chr(c) for c in gen.rtext(rng, 6)) for _ in range(n)]
    if k < 0.5:       # what clean-up looks for, run together
        return ["".join(rng.choice(CLEANED) for _ in range(rng.randint(1, 5))) for _ in range(n)]
    return [rng.choice(DTOK) for _ in range(n)]


def c20(ctx):
    rng = ctx.rng

    def chain(cfg, toks):
        want = [t for t in ref.decode_chain(cfg, [t.encode() for t in toks])]
        ctx.count["decoder " + cfg["type"]] += 1

        def check(r):
            if "l" not in r[1]:
                return ["%s of %s: %s" % (str(cfg)[:900], toks[:40], show_r(r[1]))]
            got = [unhex(x) for x in r[1]["l"]]
            # how the text is divided into strings only matters where a later decoder sees it
            if b"".join(got) != b"".join(want):
                i = first_diff(b"".join(want), b"".join(got))
                return ["%s of %d tokens %s: at byte %d expected %s got %s" % (str(cfg)[:900], len(toks), toks[:40], i, b"".join(want)[
                    max(i - 20, 0):i + 60], b"".join(got)[max(i - 20, 0):i + 60])]
        return Case([comp("decoder", "d", cfg), {"op": "chain", "c": "d", "tokens": [hx(t) for t in toks]}], check, tl=10 if len(toks) < 200 else 60,
                    key=(repr(cfg), tuple(toks)) if b"".join(want) != "".join(toks).encode() else None)

    def work():
        for _ in range(ctx.n(9000, 200000)):
            cfg = gen.r_decoder(rng)
            while cfg is None:
                cfg = gen.r_decoder(rng)
            toks = r_tokens(rng)
            yield chain(cfg, toks)
        ctx.sample({"config": cfg, "tokens": toks})

    def small():
        # WordPiece over every short list of telling tokens
        toks = ["a", "##b", ".", "'", "n't", "##", "'s", ""]
        lists = [[]] + [[a] for a in toks] + [[a, b] for a in toks for b in toks] + [[a, b, c] for a in toks for b in toks for c in toks]
        for l in ctx.mine(lists):
            for cl in (True, False):
                yield chain({"type": "WordPiece", "prefix": "##", "cleanup": cl}, l)
        strs = ["", "a", "aa", "aaa", "ab", "ba", "aba", "aab", "b", "éa", "aé"]
        for s in ctx.mine(strs):
            for st in range(4):
                for sp in range(4):
                    yield chain({"type": "Strip", "content": "a", "start": st, "stop": sp}, [s, "b", s])
        for b in ctx.mine(range(256)):
            for f in ("<0x%02X>", "<0x%02x>"):
                yield chain({"type": "ByteFallback"}, [f % b])
                yield chain({"type": "ByteFallback"}, ["x", "<0xC3>", f % b, "<0xA9>", "y"])
                yield chain({"type": "ByteFallback"}, ["<0xE4>", f % b, "<0xAD>"])
                yield chain({"type": "ByteFallback"}, ["<0xF0>", f % b, "<0x98>", "<0x80>"])

    def large():
        for n in ctx.ladder(5, 15):
            ctx.count["large"] += 1
            cfg = gen.r_decoder(rng)
            while cfg is None or cfg["type"] == "Sequence" and not cfg["decoders"]:
                cfg = gen.r_decoder(rng)
            yield chain(cfg, gen.stretch(rng, n, lambda: r_tokens(rng) or ["a"]))
            # long runs of byte tokens, whole and broken; long tokens
            unit = rng.choice(("é", "中", "😀", "a", "\U0010ffff", "é中a"))
            raw = (unit * n).encode()[:n - n % len(unit.encode())]
            toks = ["<0x%02X>" % b for b in raw]
            k = rng.random()
            if k < 0.25:
                toks[-1:] = ["<0xC3>"]
            elif k < 0.5:
                toks.insert(rng.randrange(len(toks)), rng.choice(("<0xFF>", "x", "", "é")))
            yield chain({"type": "ByteFallback"}, rng.choice(([], ["x"])) + toks + rng.choice(([], ["y"])))
            c = rng.choice(("a", "▁", "é", " "))
            t = c * rng.choice((3, 17, 33, 65, 129, n)) + "b" + c * rng.choice((3, 17, 33, 65, 129, n))
            yield chain({"type": "Strip", "content": c, "start": rng.choice((0, 1, 5, 16, 17, 33, 64, 100, 300, n)), "stop": rng.choice(
                (0, 1, 5, 16, 17, 33, 64, 100, 300, n))}, [t, c * 40, "z"])
            p = rng.choice(("a", "ab", "▁", "é", "<0x41>"))
            yield chain({"type": "Replace", "pattern": {"String": p * rng.choice((1, 1, 2, 20))}, "content": rng.choice(("", "aa", "x" * 70))},
                        [p * n + "z", "q" + p * 41 + "q"] if n < 20000 else [p * n])
            yield chain({"type": "WordPiece", "prefix": rng.choice(("##", "#" * 17, "##ab" * 20)), "cleanup": gen.flag(rng)},
                        ["".join(rng.choice(DTOK) for _ in range(n // 4)), "#" * 17 + "x", "##ab" * 20 + "y", " ." * 40, "a n't" * 30])
        for k in ctx.mine([4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33] * 8):
            ds = [gen.r_decoder(rng, 2) for _ in range(k)]
            for d in ds:
                if d and d["type"] == "Replace" and d["pattern"]["String"] in d["content"] and len(d["content"]) > 1:
                    d["content"] = "q"
            ctx.count["long sequences"] += 1
            yield chain({"type": "Sequence", "decoders": [d for d in ds if d]}, r_tokens(rng))

    def whole(sizes=None, huge=False):
        for n in range(ctx.n(3000, 60000)) if sizes is None else sizes:
            cfg, alphabet = gen.huge_config(rng, n) if huge else gen.r_config(rng)
            if rng.random() < 0.3:
                cfg["decoder"] = gen.r_decoder(rng)
            if cfg["model"] and rng.random() < 0.15:
                gen.sparse(rng, cfg)
                ctx.count["sparse ids"] += 1
            rt = ref.RefTokenizer(cfg)
            known = list(rt.added.by_id) + list(rt.added.model_vocab.values()) or [0]
            lists = []
            for _ in range(4):
                ids = []
                for _ in range(rng.choice((0, 1, 3, 10, 30)) if sizes is None else 300 if huge else n):
                    k = rng.random()
                    ids.append(rng.choice(known) if k < 0.8 else rng.choice(list(rt.added.by_id) or known) if k < 0.9 else
                               rng.choice((-1, 2147483647, -2147483648, max(known) + 1, 10 ** 6)))
                lists.append((ids, gen.flag(rng)))
                if sizes is not None and not huge:
                    break
            if sizes is not None:
                ctx.count["huge" if huge else "large"] += 1
            steps = [tok("t", cfg)] + [dec("t", i, s) for i, s in lists]
            wants = [rt.decode(i, s) for i, s in lists]

            def check(r, cfg=cfg, lists=lists, wants=wants):
                out = []
                for (ids, skip), w, x in zip(lists, wants, r[1:]):
                    ctx.count["id lists"] += 1
                    if "d" not in x or unhex(x["d"]) != w:
                        got = unhex(x["d"]) if "d" in x else b""
                        i = first_diff(w, got)
                        out.append("decoding %d ids %s (skip %s) with %s and added tokens %s: at byte %d of %d/%d expected %r got %s" % (
                            len(ids), ids[:60], skip, cfg["decoder"], [t["content"] for t in cfg["added_tokens"] or []], i, len(w), len(got),
                            w[max(i - 30, 0):i + 100], got[max(i - 30, 0):i + 100] if "d" in x else show_r(x)))
                return out
            yield Case(steps, check, tl=10 if sizes is None else 60, key=(json.dumps(cfg, sort_keys=True), repr(lists)))
    ctx.run(large(), batch=8)
    ctx.run(whole(ctx.ladder(3, 9)), batch=4)
    ctx.run(whole(ctx.ladder(1, 3, lo=4000), True), batch=4)
    ctx.run(work())
    ctx.run(small())
    ctx.run(whole(), batch=100)


# --------------------------------------------------------------------- C23
def printable(s):
    """content which byte-level decoding leaves alone: some character outside the byte alphabet, or printable ASCII only"""
    return all(33 <= ord(c) <= 126 for c in s) or any(ord(c) not in ref.CP_BYTE for c in s)


def c23(ctx):
    rng = ctx.rng

    def work():
        sizes = ctx.ladder(4, 12)
        for n in sizes + [0] * ctx.n(4000, 100000):
            alphabet = gen.r_alphabet(rng)
            model = gen.r_bpe(rng, alphabet, byte_level=True)
            model["ignore_merges"] = gen.flag(rng)
            prefix = rng.random() < 0.3
            bl = {"type": "ByteLevel", "add_prefix_space": prefix, "trim_offsets": gen.flag(rng), "use_regex": gen.flag(rng)}
            pre = bl
            if not prefix and rng.random() < 0.4:
                pre = {"type": "Sequence", "pretokenizers": [
                    {"type": "Split", "pattern": {"Regex": rng.choice(gen.SPLITS)}, "behavior": "Isolated", "invert": False}, bl]}
            cfg = {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [], "normalizer": None, "pre_tokenizer": pre,
                   "post_processor": rng.choice((None, {"type": "ByteLevel", "add_prefix_space": gen.flag(rng), "trim_offsets": gen.flag(rng),
                                                        "use_regex": gen.flag(rng)})),
                   "decoder": {"type": "ByteLevel", "add_prefix_space": gen.flag(rng), "trim_offsets": gen.flag(rng), "use_regex": gen.flag(rng)},
                   "model": model}
            added = []
            if rng.random() < 0.5:
                for c in rng.sample(["<|end|>", "[MASK]", "<s>", "中文", "😀", "a 中", "A", "~~"], rng.randint(1, 3)):
                    if printable(c) and c not in added:
                        cfg["added_tokens"].append({"id": 0, "content": c, "single_word": gen.flag(rng), "lstrip": False, "rstrip": False,
                                                    "normalized": gen.flag(rng), "special": gen.flag(rng)})
                        added.append(c)
            texts = []
            for _ in range(1 if n else 4):
                k = rng.random()
                t = gen.rtext(rng, rng.choice((1, 5, 30, 120))) if k < 0.7 else gen.alphabet_text(rng, alphabet, 60)
                if n:
                    ctx.count["large"] += 1
                    t = gen.stretch(rng, n, lambda: gen.rtext(rng, 40) if k < 0.7 else gen.alphabet_text(rng, alphabet, 60))
                    if k < 0.1:
                        t = [rng.choice((0x61, 0x20, 0xE9, 0x1F600))] * n
                for c in added:
                    for _ in range(rng.choice((0, 1)) if not n else rng.choice((0, 1, 9, 100))):
                        i = rng.randint(0, len(t))
                        t[i:i] = [ord(x) for x in c]
                texts.append([c for c in t if c not in (0x17F, 0x212A)])
            steps1 = [tok("t", cfg)] + [enc("t", t) for t in texts]

            def check1(r, cfg=cfg, texts=texts):
                out = []
                for t, x in zip(texts, r[1:]):
                    if "e" not in x:
                        out.append("encoding [%s] under %s: %s" % (show(t), brief(cfg), show_r(x)))
                        continue
                    second.append((cfg, t, x["e"]["i"], x["e"]["t"]))
                return out
            yield Case(steps1, check1, tl=90 if n else 20, key=(json.dumps(cfg, sort_keys=True), tuple(map(tuple, texts))))
        ctx.sample({"config": brief(cfg), "text": texts[0][:60]})

    second = []

    def back():
        while second:
            cfg = second[-1][0]
            group = []
            while second and second[-1][0] is cfg:
                group.append(second.pop())
            rt = ref.RefTokenizer(cfg)
            steps = [tok("t", cfg)] + [dec("t", g[2], False) for g in group]

            def check(r, cfg=cfg, group=group, rt=rt):
                out = []
                for (_, t, ids, _), x in zip(group, r[1:]):
                    ctx.count["round trips"] += 1
                    ctx.count["bytes"] += len(ref.utf8(t))
                    want = ref.utf8(t)
                    if uses_prefix(cfg):
                        want = b""
                        for p in rt.added.extract(t):
                            if p.tok is None and p.chars and p.chars[0][0] != 32:
                                want += b" "
                                ctx.count["prefix spaces"] += 1
                            want += p.text()
                    if any(p.tok is not None for p in rt.added.extract(t)):
                        ctx.count["with added tokens"] += 1
                    if "d" not in x or unhex(x["d"]) != want:
                        out.append("[%s] under %s came back as %r, expected %r (ids %s)" % (
                            show(t, 30), brief(cfg), unhex(x["d"])[:200] if "d" in x else show_r(x), want[:200], ids[:20]))
                return out
            yield Case(steps, check, tl=20 if len(group) > 1 else 60)

    def uses_prefix(cfg):
        p = cfg["pre_tokenizer"]
        return (p["pretokenizers"][1] if p["type"] == "Sequence" else p)["add_prefix_space"]

    # alternate, so that memory stays small
    it = work()
    while True:
        group = []
        for c in it:
            group.append(c)
            if len(group) >= 60:
                break
        if not group or ctx.late():
            break
        ctx.run(iter(group), batch=60)
        ctx.run(back(), batch=60)
        if len(ctx.violations) > 20:
            break


# --------------------------------------------------------------------- C21
def escape(rng, s):
    """a JSON string literal, with characters written in different ways"""
    out = ['"']
    for ch in s:
        c = ord(ch)
        k = rng.random()
        short = {0x22: '\\"', 0x5C: "\\\\", 0x2F: "\\/", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t"}
        if c in short and (k < 0.6 or c in (0x22, 0x5C) and k < 0.7):
            out.append(short[c])
        elif c < 0x20 or c in (0x22, 0x5C) or k < 0.3:
            u = [c] if c < 0x10000 else [0xD800 + (c - 0x10000 >> 10), 0xDC00 + (c - 0x10000 & 0x3FF)]
            out.append("".join(rng.choice(("\\u%04x", "\\u%04X")) % x for x in u))
        else:
            out.append(ch)
    return "".join(out) + '"'


# a document may hold more than the library reads, but not where it reads every entry
FREE = ("vocab", "special_tokens")


def rewrite(rng, v, path=(), keys=False):
    """keys: also write the fixed key names with escapes"""
    def ws():
        return rng.choice(("", "", " ", "\n", "\t ", "\r\n  "))
    if isinstance(v, dict):
        items = [(k, rewrite(rng, x, path + (k,), keys)) for k, x in v.items()]
        if not (path and (path[-1] in FREE or path[-1] in ("pattern", "strategy", "SpecialToken", "Sequence")
                          or len(path) > 1 and path[-2] == "single" or path[-1] == "*single")) and rng.random() < 0.3:
            k = rng.choice(("x-extra", "comment", "__", "é", "zzz"))
            if k not in v:
                items.append((k, rng.choice(("null", "1", "[1,{\"type\":\"NFC\"}]", "{\"a\":{}}", "\"x\"", "-1.5e3", "true"))))
        # the last of several vocabulary entries never matters: contents are unique
        rng.shuffle(items)
        return "{" + ws() + ",".join(ws() + (escape(rng, k) if keys or path and path[-1] in FREE else json.dumps(k)) + ws() + ":" + ws() + x + ws() for k, x in items) + ws() + "}"
    if isinstance(v, list):
        tag = "*single" if path and path[-1] == "single" else "*"
        return "[" + ws() + ",".join(ws() + rewrite(rng, x, path + (tag,), keys) + ws() for x in v) + ws() + "]"
    if isinstance(v, str):
        return escape(rng, v)
    return json.dumps(v)


def bigger(rng, cfg):
    """names and values that need escaping"""
    for k in ('"', "\\", "/", "a\"b", "\n", "\t", "\u0001", "\u2028", "é\\", "\U0001f600\"", "\x7f", "\\u0041", "\\n"):
        if cfg["model"] and rng.random() < 0.4 and k not in cfg["model"]["vocab"]:
            cfg["model"]["vocab"][k] = max(cfg["model"]["vocab"].values(), default=-1) + 1
    return cfg


ODD = ("\0", '"', "\\", "/", "\n", "\t", "\x01", "\x1f", "\x7f", "\u2028", "\ufeff", "\U0001f600", "\\u0041", "\\n", "\u0301")


def odd_values(rng, cfg):
    """characters that need care, inside strings which are values"""
    found = []

    def walk(o):
        if isinstance(o, dict):
            for k, v in o.items():
                if k in ("prepend", "content", "String", "prefix", "pad_token", "unk_token") and isinstance(v, str) and v:
                    found.append((o, k))
                elif k == "tokens":
                    found.extend((v, i) for i in range(len(v)))
                elif k not in ("vocab", "merges"):
                    walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    walk({k: cfg[k] for k in ("normalizer", "decoder", "padding", "post_processor")})
    if cfg["model"] and cfg["model"].get("unk_token") in cfg["model"]["vocab"]:
        found.append((cfg["model"], "unk_token"))
    out = []
    for o, k in rng.sample(found, min(len(found), 2)):
        c, v = rng.choice(ODD), o[k]
        i = rng.randint(0, len(v))
        o[k] = v[:i] + c + v[i:]
        out.append(o[k])
        if o is cfg["model"]:
            o["vocab"][o[k]] = max(o["vocab"].values()) + 1
    return out


def c21(ctx):
    rng = ctx.rng

    def sizable(n):
        """a configuration with many entries somewhere"""
        cfg, alphabet = gen.r_config(rng)
        k = rng.random()
        if k < 0.35:
            cfg, words = gen.huge_config(rng, n)
            alphabet = [chr(c) for w in rng.sample(words, 20) for c in w]
        elif k < 0.5:
            cfg["added_tokens"] = gen.added_json(many_added(rng, min(n, 3000 if ctx.thorough else 600)))
            for t in cfg["added_tokens"]:
                t["normalized"] = t["single_word"] = False
        elif k < 0.75:
            cfg["post_processor"] = gen.big_template(rng)
            if gen.flag(rng):
                cfg["post_processor"] = {"type": "Sequence", "processors": [{"type": "Sequence", "processors": []}] * rng.choice((1, 8, 20)) +
                                         [cfg["post_processor"]]}
        else:
            m = rng.choice((5, 8, 9, 12, 16, 17, 33))
            cfg["normalizer"] = {"type": "Sequence", "normalizers": [
                rng.choice(({"type": "Replace", "pattern": {"String": rng.choice(alphabet)}, "content": rng.choice(alphabet)},
                            {"type": "Prepend", "prepend": rng.choice(alphabet)}, {"type": "NFC"})) for _ in range(m)]}
            cfg["pre_tokenizer"] = {"type": "Sequence", "pretokenizers": [
                {"type": "Split", "pattern": {"Regex": rng.choice(gen.LATIN)}, "behavior": "Isolated", "invert": False} for _ in range(m)]}
            cfg["decoder"] = {"type": "Sequence", "decoders": [
                {"type": "Replace", "pattern": {"String": rng.choice(alphabet)}, "content": rng.choice(alphabet)} for _ in range(m)]}
        ctx.count["sizable"] += 1
        return cfg, alphabet

    def work(sizes=None):
        for n in range(ctx.n(3000, 60000)) if sizes is None else sizes:
            cfg, alphabet = gen.r_config(rng) if sizes is None else sizable(n)
            if sizes is None or len(cfg["added_tokens"] or []) < 50:
                unambiguous(cfg)
            bigger(rng, cfg)
            odd = odd_values(rng, cfg) if rng.random() < 0.5 else []
            ctx.count["odd values"] += len(odd) > 0
            alphabet = alphabet + ['"', "\\", "/", "\n"]
            texts = [clean_ci(cfg, gen.config_text(rng, cfg, alphabet, rng.choice((3, 30)))) for _ in range(3)]
            for o in odd:
                for t in texts[:2]:
                    i = rng.randint(0, len(t))
                    t[i:i] = [ord(c) for c in o]
            ids = [rng.randrange(-1, 60) for _ in range(20)]
            docs = [gen.dumps(cfg), json.dumps(cfg, ensure_ascii=True), json.dumps(cfg, indent=rng.choice((1, 2, "\t"))), rewrite(rng, cfg),
                    rewrite(rng, cfg)]
            for d in docs:
                m = json.loads(d)["model"]
                assert (m or {}).get("vocab") == (cfg["model"] or {}).get("vocab")
            steps, n = [], 0
            for d in docs:
                steps.append({"op": "tok", "as": "t%d" % n, rng.choice(("config", "config", "file")): hx(d)})
                n += 1
            steps.append({"op": "tok", "as": "t%d" % n, "file": hx(docs[rng.randrange(len(docs))])})
            n += 1
            head = len(steps)
            per = []
            for i in range(n):
                per.append(len(steps))
                steps += [enc("t%d" % i, t, k == 0) for k, t in enumerate(texts)] + [dec("t%d" % i, ids, False), dec("t%d" % i, ids, True)]
            rt = ref.RefTokenizer(cfg)
            want = [want_of(rt, t, k == 0) for k, t in enumerate(texts)]
            wd = [rt.decode(ids, False), rt.decode(ids, True)]

            def check(r, cfg=cfg, per=per, docs=docs, texts=texts, head=head, want=want, wd=wd, ids=ids):
                out = []
                base = r[per[0]:per[0] + 5]
                for i in range(head):
                    if r[i] != r[0]:
                        out.append("the document %s loads differently (%s) from %s (%s)" % (
                            (docs + docs)[i][:300], show_r(r[i]), docs[0][:300], show_r(r[0])))
                for i, p in enumerate(per):
                    ctx.count["documents"] += 1
                    for k in range(5):
                        if r[p + k] != base[k]:
                            out.append("two forms of one configuration %s differ on %s: %s and %s; forms: %s ... and %s" % (
                                brief(cfg), show(texts[k]) if k < 3 else ids, show_r(base[k]), show_r(r[p + k]), docs[0][:200],
                                (docs + ["file"])[i][:200]))
                            break
                # each value takes effect as written
                for k in range(3):
                    out += compare_encoding(want[k], base[k], "encoding [%s] under %s" % (show(texts[k], 20), brief(cfg)))
                for k in range(2):
                    if "d" not in base[3 + k] or unhex(base[3 + k]["d"]) != wd[k]:
                        out.append("decoding %s under %s: expected %r got %s" % (ids, brief(cfg), wd[k], show_r(base[3 + k])))
                return out[:3]
            yield Case(steps, check, tl=20 if sizes is None else 120, key=(json.dumps(cfg, sort_keys=True)))
        ctx.sample({"document": docs[3][:1200]})

    def escaped_keys():
        """the fixed key names written with escapes"""
        for _ in range(ctx.n(80, 400)):
            cfg, alphabet = gen.r_config(rng)
            text = clean_ci(cfg, gen.config_text(rng, cfg, alphabet, 20))
            d = rewrite(rng, cfg, (), True)
            steps = [tok("a", cfg), enc("a", text), {"op": "tok", "as": "b", "config": hx(d)}, enc("b", text)]
            ctx.count["escaped key names"] += 1
            yield Case(steps, lambda r, d=d: [] if r[:2] == r[2:] else [
                "fixed key names written with escapes are not recognised: %s: %s instead of %s" % (d[:300], show_r(r[3]), show_r(r[1]))])
    ctx.run(work(ctx.ladder(2, 6)), batch=2)
    ctx.run(work(), batch=40)
    n = len(ctx.violations)
    ctx.run(escaped_keys(), batch=40)
    del ctx.violations[n + 1:]


# --------------------------------------------------------------------- C03
def c03(ctx):
    rng = ctx.rng
    locales = ["C", "POSIX", "C.utf8"]

    def probe(name, texts, idl):
        out = []
        for k, t in enumerate(texts):
            out += [enc(name, t, True), enc(name, t, False)]
        for i in idl:
            out += [dec(name, i, True), dec(name, i, False)]
        return out

    def work():
        for _ in range(ctx.n(2000, 60000)):
            cfg, alphabet = gen.r_config(rng)
            if cfg["model"] and cfg["model"]["type"] == "BPE" and rng.random() < 0.3:
                cfg["model"]["unk_token"] = "<unk>"
            if cfg["model"] and cfg["model"]["type"] == "BPE" and rng.random() < 0.25:
                cfg["model"]["dropout"] = rng.choice((0.1, 0.3, 0.5, 0.9))
                ctx.count["dropout"] += 1
            texts = [gen.config_text(rng, cfg, alphabet, rng.choice((3, 20, 60))) for _ in range(3)]
            if rng.random() < 0.5:
                texts.append(gen.rtext(rng, 30, ["space", "control", "accent", "upperx", "lower", "greek", "punct2"]))
            if rng.random() < 0.3:      # words which some shortened key would confuse
                if rng.random() < 0.6 and cfg["model"] and cfg["model"]["type"] == "WordPiece":
                    cfg["model"] = gen.r_bpe(rng, alphabet)
                fam = gen.long_family(rng, alphabet, 1030 if cfg["model"] and cfg["model"]["type"] == "BPE" else 300)
                texts = texts[:1] + ([[c for w in fam for c in w + [32]]] if gen.flag(rng) else fam[:5])
                ctx.count["families of long words"] += 1
            if sum(map(len, texts)) > 400:
                gen.fewer_windows(cfg)
            idl = [[rng.randrange(-1, 60) for _ in range(rng.randint(0, 12))] for _ in range(2)]
            late = r_added_dense(rng, cfg, 3) if rng.random() < 0.4 else []
            steps = [tok("a", cfg)]
            if late:
                steps.append(add("a", late))
            marks = []

            def at(name):
                marks.append(len(steps))
                steps.extend(probe(name, texts, idl))
            at("a")                                  # fresh
            at("a")                                  # repeated at once
            for _ in range(rng.randint(1, 5)):       # a history of other calls, some of which throw
                k = rng.random()
                if k < 0.35:
                    steps.append(enc("a", gen.ill(rng, rng.choice(texts)), gen.flag(rng)))
                    ctx.count["ill-formed calls"] += 1
                elif k < 0.7:
                    steps.append(enc("a", gen.config_text(rng, cfg, alphabet, 40), gen.flag(rng)))
                elif k < 0.78:       # a configuration whose every use fails
                    bad = dict(cfg, pre_tokenizer={"type": "Split", "pattern": {"Regex": rng.choice(("(", "[a", "a{2,1}", "*", "(?<=a*)b", "\\p{Nope}"))},
                                                   "behavior": "Isolated", "invert": False}) if gen.flag(rng) else \
                        dict(cfg, truncation={"direction": "Right", "max_length": 1, "strategy": "LongestFirst", "stride": 7})
                    steps += [tok("bad", bad), enc("bad", rng.choice(texts) + [97, 32, 98])]
                    ctx.count["failing configurations"] += 1
                elif k < 0.85:
                    t = rng.choice(texts)
                    steps.append(enc("a", t[:rng.randint(0, len(t))] + t, gen.flag(rng)))
                else:
                    steps.append(dec("a", [rng.choice((-1, 2147483647, rng.randrange(60))) for _ in range(8)], gen.flag(rng)))
                ctx.count["other calls"] += 1
            at("a")
            k = rng.random()
            cfg2, alpha2 = gen.r_config(rng) if k < 0.3 else (gen.variant(rng, cfg, alphabet), alphabet)
            steps.append(tok("other", cfg2))
            for t in texts:
                steps.append(enc("other", t, gen.flag(rng)))
            steps.append(enc("other", gen.config_text(rng, cfg2, alpha2, 40)))
            steps += [tok("b", cfg)] + ([add("b", late)] if late else [])
            order = list(range(len(texts)))
            rng.shuffle(order)
            for k in order:                          # another instance meets the texts in another order
                steps.append(enc("b", texts[k], gen.flag(rng)))
            at("b")
            steps.append({"op": "del", "t": "b"})
            steps.append({"op": "locale", "name": rng.choice(locales)})
            at("a")
            steps += [tok("c", cfg)] + ([add("c", late)] if late else [])
            at("c")

            def check(r, marks=list(marks), n=len(probe("a", texts, idl)), cfg=cfg, steps=list(steps)):
                out = []
                base = r[marks[0]:marks[0] + n]
                for m in marks[1:]:
                    ctx.count["comparisons"] += n
                    for k in range(n):
                        if r[m + k] != base[k]:
                            out.append("%s first gave %s, later (call %d) %s, under %s" % (
                                json.dumps(steps[m + k])[:300], show_r(base[k]), m + k, show_r(r[m + k]), brief(cfg)))
                            break
                return out[:3]
            yield Case(steps, check, tl=30, key=(json.dumps(cfg, sort_keys=True), tuple(map(tuple, texts))))
        ctx.sample({"config": brief(cfg), "text": texts[0]})

    def processes():
        """the same calls in separate processes, in another order and under other environments"""
        todo = []
        for _ in range(ctx.n(1200, 16000)):
            cfg, alphabet = gen.r_config(rng)
            texts = [gen.config_text(rng, cfg, alphabet, 40), gen.config_text(rng, cfg, alphabet, 10), gen.rtext(rng, 30),
                     # letters whose case depends on the language
                     [rng.choice((0x49, 0x130, 0x131, 0x69, 0x49, 0x307, 0xCC, 0x4A, 0x12E, 0x3A3, 0x1E9E, 0xDF, 0x20, 0x41)) for _ in range(rng.randint(1, 12))]]
            idl = [[rng.randrange(-1, 60) for _ in range(9)]]
            # a configuration differing in one part meets the same texts in the same process
            cfg2 = gen.variant(rng, cfg, alphabet) if rng.random() < 0.8 else gen.r_config(rng)[0]
            todo.append([[tok("a", cfg)] + probe("a", texts, idl), [tok("o", cfg2)] + probe("o", texts, idl)])
        got = {}
        for k, env in enumerate(({}, {"LC_ALL": "C.utf8", "LANG": "C.utf8", "TZ": "Asia/Tokyo"}, {
                "LC_ALL": rng.choice(("tr_TR.UTF-8", "az_AZ.UTF-8", "tr_TR.UTF-8", "lt_LT.UTF-8")), "LC_CTYPE": "tr_TR.UTF-8", "LANG": "de_DE.UTF-8"})):
            def keep(i, k):
                n = len(todo[i][0])

                def f(r):
                    r = (r[n:] + r[:n]) if k == 1 else r
                    if k == 0:
                        got[i] = r
                    elif i in got and got[i] != r:
                        j = next(j for j in range(len(r)) if r[j] != got[i][j])
                        return ["in another process and order %s gave %s instead of %s" % (
                            json.dumps((todo[i][0] + todo[i][1])[j])[:300], show_r(r[j]), show_r(got[i][j]))]
                    else:
                        ctx.count["across processes"] += 1
                return f
            order = list(range(len(todo)))
            if k:
                rng.shuffle(order)
            ctx.run((Case((todo[i][1] + todo[i][0]) if k == 1 else (todo[i][0] + todo[i][1]), keep(i, k), tl=20) for i in order),
                    batch=100, env=env)
    def long_histories():
        """thousands of calls and of distinct words between two meetings with the same probes"""
        for k in ctx.mine(range(16 if not ctx.thorough else 96)):
            cfg, alphabet = gen.r_config(rng)
            while not cfg["model"]:
                cfg, alphabet = gen.r_config(rng)
            words = k % 4 != 3
            if words:
                cfg["pre_tokenizer"] = {"type": "Split", "pattern": {"Regex": " "}, "behavior": "Removed", "invert": False}
                cfg["normalizer"] = None
                alphabet = list("abc")
                cfg["model"] = gen.r_bpe(rng, alphabet) if k % 8 < 5 else gen.r_wordpiece(rng, alphabet)
                cfg["added_tokens"] = gen.added_json(gen.r_added(rng, {}, ["x"], 2))
            gen.fewer_windows(cfg)
            texts = [gen.config_text(rng, cfg, alphabet, 30) for _ in range(4)]
            steps = [tok("a", cfg), tok("b", cfg)]
            first = len(steps)
            steps += probe("a", texts, [[1, 2, 3]])
            if words:
                seen, calls = set(), 0
                total = rng.choice((3000, 11000, 13000, 25000)) if not ctx.thorough else rng.choice((11000, 25000, 70000, 140000))
                while len(seen) < total:
                    t = []
                    for _ in range(rng.choice((40, 400))):
                        w = "".join(rng.choice(alphabet) for _ in range(rng.randint(4, 14)))
                        seen.add(w)
                        t += [ord(c) for c in w] + [32]
                    steps.append(enc("a", t, False))
                ctx.count["histories of many words"] += 1
            else:
                for j in range(rng.choice((1100, 2100, 5000)) if not ctx.thorough else rng.choice((5000, 20000, 70000))):
                    steps.append(enc("a", [ord(rng.choice(alphabet)) for _ in range(rng.randint(0, 3))], False) if gen.flag(rng) else
                                 dec("a", [rng.randrange(40)], False))
                ctx.count["histories of many calls"] += 1
            n = first
            again = [len(steps)]
            steps += probe("a", texts, [[1, 2, 3]])
            again.append(len(steps))
            steps += probe("b", texts, [[1, 2, 3]])
            # some calls of the history repeated on both instances
            pairs = []
            for j in rng.sample(range(first, again[0]), min(40, again[0] - first)):
                pairs.append((j, len(steps)))
                steps.append(dict(steps[j], t="b"))
                pairs.append((j, len(steps)))
                steps.append(steps[j])

            def check(r, steps=list(steps), n=n, again=again, pairs=pairs, cfg=cfg):
                m = again[1] - again[0]
                for a, b in [(n + i, s + i) for s in again for i in range(m)] + pairs:
                    ctx.count["comparisons"] += 1
                    if r[a] != r[b]:
                        return ["%s gave %s as call %d and %s as call %d of a long history, under %s" % (
                            json.dumps(steps[a])[:300], show_r(r[a]), a, show_r(r[b]), b, brief(cfg))]
            yield Case(steps, check, tl=240)
    def instances():
        """each call twice in a row, the same call right before and after an addition, and an instance in the memory of a deleted one; against
        instances which had the tokens from the start and made each call once"""
        for _ in range(ctx.n(700, 20000)):
            cfg, alphabet = gen.r_config(rng)
            cfg2 = gen.variant(rng, cfg, alphabet) if rng.random() < 0.8 else gen.r_config(rng)[0]
            late = r_added_dense(rng, cfg, 3)
            calls = probe("t", [gen.config_text(rng, dict(cfg, added_tokens=(cfg["added_tokens"] or []) + gen.added_json(late)), alphabet, rng.choice((4, 25)))
                                for _ in range(3)], [[rng.randrange(-1, 60) for _ in range(rng.randint(1, 12))] for _ in range(2)])
            rng.shuffle(calls)
            steps = [tok("t", cfg), add("t", late)]
            base = {}
            for k, c in enumerate(calls):
                base[1, k] = len(steps)
                steps.append(c)
            steps += [{"op": "del", "t": "t"}, tok("o", cfg2)]
            for k in rng.sample(range(len(calls)), len(calls)):
                base[2, k] = len(steps)
                steps.append(dict(calls[k], t="o"))
            compare = []

            def again(which, k, n, label):
                for _ in range(n):
                    compare.append((base[which, k], len(steps)))
                    steps.append(calls[k])
                    ctx.count[label] += 1
            steps.append(tok("t", cfg))
            order = rng.sample(range(len(calls)), len(calls))
            for k in order:                     # before the addition: nothing to compare with
                steps.append(calls[k])
            steps.append(add("t", late))
            again(1, order[-1], 1, "around additions")
            for k in rng.sample(range(len(calls)), len(calls)):
                again(1, k, 2, "doubled calls")
            steps += [{"op": "del", "t": "t"}, tok("t", cfg2)]
            again(2, k, 2, "in the place of another")
            for k in rng.sample(range(len(calls)), 3):
                again(2, k, 1, "in the place of another")

            def check(r, compare=compare, steps=list(steps), cfg=cfg):
                for a, b in compare:
                    ctx.count["comparisons"] += 1
                    if r[a] != r[b]:
                        return ["%s gave %s as call %d and %s as call %d of a history with additions and deletions, under %s" % (
                            json.dumps(steps[a])[:300], show_r(r[a]), a, show_r(r[b]), b, brief(cfg))]
            yield Case(steps, check, tl=30, key=("instances", json.dumps(cfg, sort_keys=True)))

    ctx.run(long_histories(), batch=1)
    ctx.run(work(), batch=40)
    # without quarantine, so that a new instance comes to lie where a deleted one lay
    ctx.run(instances(), batch=40, env={"ASAN_OPTIONS": "+quarantine_size_mb=0:thread_local_quarantine_size_kb=0"})
    processes()
