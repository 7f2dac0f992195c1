"""C09-C14 and C24: normalizers, pre-tokenizers, the byte-level codec and string conversion."""
import unicodedata as ud

from . import gen, ref
from .lib import (Case, chunks, code_points, comp, diff, hx, normalize, show, show_r, simple_piece_check, splits_of,
                  unhex)

FORMS = ("NFC", "NFD", "NFKC", "NFKD")


def py_norm(form, cps):
    return [ord(c) for c in ud.normalize(form, "".join(map(chr, cps)))]


def words(r):
    return r.get("w")


def expect(want, r, what):
    got = r.get("w")
    if got is None:
        return ["%s: expected a text, got %s" % (what, show_r(r))]
    if got != want:
        return [diff(what, want, got)]
    return []


def nested(rng, cfgs):
    """a Sequence of the configurations, grouped at random into inner sequences"""
    out = list(cfgs)
    for _ in range(rng.randint(0, 2)):
        if len(out) > 1:
            i = rng.randrange(len(out))
            j = rng.randint(i + 1, len(out))
            out[i:j] = [{"type": "Sequence", "normalizers": out[i:j]}]
    return {"type": "Sequence", "normalizers": out}


# --------------------------------------------------------------------- C09
def compositions():
    """every canonical composition pair"""
    out = []
    for c in range(0x110000):
        if 0xD800 <= c <= 0xDFFF:
            continue
        d = ud.decomposition(chr(c))
        if d and not d.startswith("<"):
            p = [int(x, 16) for x in d.split()]
            if len(p) == 2:
                out.append((p[0], p[1], c))
    return out


def c09(ctx):
    rng = ctx.rng
    pairs = compositions()

    def case(form, text, count, key=None):
        want = py_norm(form, text)
        ctx.count[count] += 1
        if want != text:
            ctx.count["changed"] += 1
        return Case([comp("normalizer", "n", {"type": form}), normalize("n", text)],
                    lambda r, form=form, want=want, text=text: expect(want, r[1], "%s of [%s]" % (form, show(text, 12))),
                    tl=30, key=key or (form, tuple(text)) if want != text else None)

    def exhaustive():
        cps = code_points(ctx.thorough)
        for ch in ctx.mine(list(chunks(cps, 2048))):
            text = []
            for c in ch:
                text += [c, 1]
            ctx.count["code_points"] += len(ch)
            for form in FORMS:
                yield case(form, text, "code point blocks")

    def composed():
        # every composition pair alone, with a mark between or after, and its decomposition
        todo = ctx.mine(pairs)
        for ch in chunks(todo, 60):
            text = []
            for a, b, c in ch:
                m = rng.choice((0x301, 0x327, 0x323, 0x345, 0x5B0, 0x3099, 0x338, 0x94D, 0x1D165))
                text += [a, b, 1, c, 1, a, m, b, 1, a, b, m, 1, c, m, 1, m, a, b, 1]
            for form in FORMS:
                yield case(form, text, "composition pairs")
        # Hangul: every syllable composed and decomposed
        todo = ctx.mine(list(range(0xAC00, 0xD7A4)))
        for ch in chunks(todo, 300):
            text = []
            for c in ch:
                text += py_norm("NFD", [c]) + [1, c, 1]
                if (c - 0xAC00) % 28 == 0:
                    text += [c, 0x11A8 + rng.randrange(27), 1]
            for form in FORMS:
                yield case(form, text, "hangul")

    marks = [c for c in range(0x300, 0x1F000) if ref.scalar(c) and ud.combining(chr(c))]

    def rand():
        for _ in range(ctx.n(2400, 60000)):
            k = rng.random()
            if k < 0.5:
                text = gen.rtext(rng, rng.choice((8, 40, 120)))
            elif k < 0.75:     # starters with shuffled marks
                text = []
                for _ in range(rng.randint(1, 8)):
                    a, b, c = rng.choice(pairs)
                    text += rng.choice(([a, b], [c], [a], [gen.rchar(rng)]))
                    ms = [rng.choice(marks) for _ in range(rng.randint(0, 5))] + [b] * rng.randint(0, 1)
                    rng.shuffle(ms)
                    text += ms
            elif k < 0.85:     # long runs of marks and expanding characters, at awkward lengths
                n = rng.choice((15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 500, 511, 512, 513, 1000, 2049))
                unit = rng.choice(([0xFDFA], [0x344], [0xAC01], [0x1D15E], [0x1F82, 0x323], [0x61, 0x301], [0x61], [0x10400],
                                   [0x1100, 0x1161], [0x301, 0x323], [0x2F800], [0x61, 0x10FFFD]))
                text = (unit * n)[:n]
                if rng.random() < 0.5:
                    text = [0x41] * rng.randint(0, 3) + text + [0x5A]
            else:
                text = [c for c in (rng.randrange(0x3400) if rng.random() < 0.8 else rng.randrange(0x20000)
                                    for _ in range(rng.randint(1, 30))) if ref.scalar(c) and gen.ok(c)]
            form = rng.choice(FORMS)
            yield case(form, text, "random")
            if rng.random() < 0.3:
                fs = [rng.choice(FORMS) for _ in range(rng.randint(0, 4))]
                want = text
                for f in fs:
                    want = py_norm(f, want)
                ctx.count["chains"] += 1
                yield Case([comp("normalizer", "n", nested(rng, [{"type": f} for f in fs])), normalize("n", text)],
                           lambda r, fs=fs, want=want: expect(want, r[1], "chain %s" % fs), key=("chain", tuple(fs), tuple(text)))
        ctx.sample({"form": form, "text": text[:40]})

    def large():
        for n in ctx.ladder(2, 6):
            text = gen.stretch(rng, n, lambda: gen.rtext(rng, 40))
            for form in FORMS:
                yield case(form, text, "large")
        for n in ctx.ladder(3, 12, hi=2100) + ctx.mine(list(range(2, 70)) * 4 + [100, 126, 127, 128, 129, 200, 254, 255, 256] * 4):
            text = [rng.choice((0x61, 0xAC00, rng.choice(pairs)[0]))]
            few = [rng.choice(marks) for _ in range(rng.choice((1, 2, 3, 40)))]
            text += [rng.choice(few) for _ in range(n)] + ([0x62] if gen.flag(rng) else [])
            for form in FORMS:
                yield case(form, text, "mark runs")
        # edits between the forms, which the next form meets
        for _ in range(ctx.n(800, 20000)):
            ms = []
            for _ in range(rng.randint(2, 5)):
                k = rng.random()
                c = chr(rng.choice(marks) if gen.flag(rng) else rng.choice((0x65, 0x1100, 0x1161, 0x11A8, 0xE9, 0x41, 0x212B)))
                ms.append({"type": rng.choice(FORMS)} if k < 0.6 else {"type": "StripAccents"} if k < 0.7 else
                          {"type": "Prepend", "prepend": c} if k < 0.8 else
                          {"type": "Replace", "pattern": {"String": rng.choice("aeA\u0301\u0323\u1161")}, "content": c})
            text = gen.rtext(rng, 20) if rng.random() < 0.4 else [rng.choice((0x65, 0xE9, 0x301, 0x323, 0x1100, 0x1161, 0xAC00, 0xFB01, 0xBD, 0x212B, 0x61, 0x1EA5))
                                                                for _ in range(rng.randint(1, 8))]
            want = [x[0] for x in ref.normalize({"type": "Sequence", "normalizers": ms}, [(c, j, j + 1, True) for j, c in enumerate(text)])]
            ctx.count["edits between forms"] += 1
            yield Case([comp("normalizer", "n", nested(rng, ms)), normalize("n", text)],
                       lambda r, ms=ms, want=want, text=text: expect(want, r[1], "chain %s of [%s]" % (ms, show(text))), key=("edits", repr(ms), tuple(text)))
        for n in ctx.mine([2, 3, 5, 8, 12, 20, 40] * 3):
            fs = [rng.choice(FORMS) for _ in range(n)]
            text = want = gen.rtext(rng, 40)
            for f in fs:
                want = py_norm(f, want)
            ctx.count["chains"] += 1
            yield Case([comp("normalizer", "n", nested(rng, [{"type": f} for f in fs])), normalize("n", text)],
                       lambda r, fs=fs, want=want: expect(want, r[1], "chain %s" % fs), key=("chain", tuple(fs), tuple(text)))

    # idempotence is a consequence of the exact form; chains of one form repeat it
    ctx.run(large(), batch=8)
    ctx.run(exhaustive(), batch=16)
    ctx.run(composed(), batch=32)
    ctx.run(rand())


# --------------------------------------------------------------------- C10
def bert_cfg(clean, cjk, strip, low):
    return {"type": "BertNormalizer", "clean_text": clean, "handle_chinese_chars": cjk, "strip_accents": strip,
            "lowercase": low}


COMBOS = [bert_cfg(a, b, s, l) for a in (False, True) for b in (False, True) for s in (None, False, True)
          for l in (False, True)]


def c10_ok(c):
    # İ has no one-character lowercase; later CJK extensions are outside the blocks BERT lists but are ideographs
    return gen.ok(c) and not 0x2CEB0 <= c <= 0x2F7FF and not 0x2FA20 <= c <= 0x33FFF


def c10(ctx):
    rng = ctx.rng

    def case(cfg, text, locale=None, count="random"):
        want = ref.cps_of(ref.normalize(cfg, ref.source(text)))
        ctx.count[count] += 1
        if want != text:
            ctx.count["changed"] += 1
        steps = [comp("normalizer", "n", cfg), normalize("n", text)]
        if locale:
            steps.insert(0, {"op": "locale", "name": locale})

        def check(r):
            return expect(want, r[-1], "BertNormalizer %s locale %s on [%s]" % (
                [cfg[k] for k in ("clean_text", "handle_chinese_chars", "strip_accents", "lowercase")], locale, show(text, 8)))
        return Case(steps, check, tl=30, key=(repr(cfg), tuple(text)) if want != text else None)

    def exhaustive():
        cps = [c for c in code_points(ctx.thorough) if c10_ok(c)]
        todo = [(cfg, k) for k in range(0, len(cps), 1024) for cfg in COMBOS]
        for cfg, k in ctx.mine(todo):
            text = []
            for c in cps[k:k + 1024]:
                text += [0x78, c]
            text.append(0x78)
            ctx.count["code_point_checks"] += min(1024, len(cps) - k)
            yield case(cfg, text, "C.utf8" if rng.random() < 0.3 else None, "code point blocks")

    def rand():
        for _ in range(ctx.n(4000, 100000)):
            pools = None
            if rng.random() < 0.6:
                pools = rng.sample(["space", "control", "odd", "cjk", "nearcjk", "accent", "multi", "mark", "upper", "greek",
                                    "upperx", "lower", "hangul", "kana"], 3)
            text = [c for c in gen.rtext(rng, rng.choice((5, 30, 80)), pools) if c10_ok(c)]
            cfg = rng.choice(COMBOS)
            yield case(cfg, text, rng.choice((None, None, "C.utf8", "POSIX")))
        ctx.sample({"config": cfg, "text": text})

    def large():
        for n in ctx.ladder(2, 6):
            def make():
                pools = rng.sample(["space", "control", "odd", "cjk", "nearcjk", "accent", "multi", "mark", "upper", "greek",
                                    "upperx", "lower", "hangul", "kana"], 3)
                return [c for c in gen.rtext(rng, 40, pools) if c10_ok(c)]
            text = gen.stretch(rng, n, make)
            for cfg in rng.sample(COMBOS, 4):
                yield case(cfg, text, rng.choice((None, "C.utf8")), "large")
            one = rng.choice((0x301, 0x4E00, 0xC9, 0x20, 0x0D, 0x1EA4, 0x41))
            yield case(rng.choice(COMBOS), [0x61] + [one] * n + [0x62], None, "large")

    ctx.run(large(), batch=8)
    ctx.run(exhaustive(), batch=16)
    ctx.run(rand())


# --------------------------------------------------------------------- C11
META = ["(", ")", "[", "]", ".", "*", "+", "?", "^", "$", "|", "\\", "\\s", "\\d", "[a]", "a.b", "(a|b)", "$1", "\\1", "a*", "^a",
        "{2}", "\\", "\\\\", "&", "%", "\u2028", "\u00a0"]


def r_edit(rng, alphabet):
    t = rng.choice(("Prepend", "Replace", "Replace", "Replace", "Strip", "StripAccents"))
    if t == "Prepend":
        return {"type": t, "prepend": "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 3)))}
    if t == "Replace":
        k = rng.random()
        pat = rng.choice(META) if k < 0.3 else "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 3)))
        con = rng.choice(META) if rng.random() < 0.2 else "".join(rng.choice(alphabet) for _ in range(rng.randint(0, 3)))
        return {"type": t, "pattern": {"String": pat}, "content": con}
    if t == "Strip":
        return {"type": t, "strip_left": gen.flag(rng), "strip_right": gen.flag(rng)}
    return {"type": t}


def c11(ctx):
    rng = ctx.rng

    def case(cfg, text, count):
        want = ref.cps_of(ref.normalize(cfg, ref.source(text)))
        ctx.count[count] += 1
        if want != text:
            ctx.count["changed " + cfg["type"]] += 1
        return Case([comp("normalizer", "n", cfg), normalize("n", text)],
                    lambda r: expect(want, r[1], "%s on [%s]" % (cfg, show(text, 16))), tl=30,
                    key=(repr(cfg), tuple(text)) if want != text else None)

    def exhaustive():
        cps = code_points(ctx.thorough)
        for ch in ctx.mine(list(chunks(cps, 1024))):
            text = []
            for c in ch:
                text += [0x78, c]
            text.append(0x78)
            yield case({"type": "StripAccents"}, text, "code point blocks")
            yield case({"type": "Replace", "pattern": {"String": "x"}, "content": "é"}, text, "code point blocks")
            ctx.count["code_points"] += len(ch)
        # strip: each candidate at each end (all cheap candidates, a sample of the others)
        cand = ctx.mine([c for c in range(0x3100) if ref.scalar(c) and gen.ok(c)] + [0xFEFF, 0xFFFD, 0xE0020, 0x1D173])
        for c in cand:
            for l, r in ((True, False), (False, True), (True, True), (False, False)):
                if c not in ref.WHITE and rng.random() < 0.7:
                    continue
                ctx.count["strip ends"] += 1
                yield case({"type": "Strip", "strip_left": l, "strip_right": r}, [c, c, 0x61, c, 0x20, c], "strip")

    def rand():
        for _ in range(ctx.n(9000, 200000)):
            pools = rng.sample(gen.NAMES, 2)
            alphabet = [chr(gen.rchar(rng, pools)) for _ in range(rng.randint(1, 4))] + \
                [rng.choice(" a\u0301\t\u00a0")]
            cfg = r_edit(rng, alphabet)
            k = rng.random()
            if k < 0.25:
                text = gen.rtext(rng, 40)
            else:
                text = [ord(rng.choice(alphabet)) for _ in range(rng.randint(0, rng.choice((3, 12, 50))))]
            if cfg["type"] == "Replace" and rng.random() < 0.5:
                p = [ord(c) for c in cfg["pattern"]["String"]]
                for _ in range(rng.randint(1, 4)):
                    i = rng.randint(0, len(text))
                    text[i:i] = p[:rng.randint(1, len(p))] if rng.random() < 0.3 and p else p
            if cfg["type"] == "Strip" and rng.random() < 0.8:
                ws = [rng.choice(sorted(ref.WHITE)) for _ in range(rng.randint(0, 3))]
                text = ws + text + [rng.choice(sorted(ref.WHITE)) for _ in range(rng.randint(0, 3))]
            if rng.random() < 0.3:
                cfg = nested(rng, [cfg] + [r_edit(rng, alphabet) for _ in range(rng.randint(0, 3))])
                ctx.count["sequences"] += 1
            yield case(cfg, text, "random")
        ctx.sample({"config": cfg, "text": text})

    def big_edit(n, alphabet, text):
        """an edit whose pattern, content or prefix is long, or which has a lot to do"""
        def word(k):
            return "".join(rng.choice(alphabet) for _ in range(k))
        t = rng.choice(("Prepend", "Replace", "Replace", "Replace", "Strip", "StripAccents"))
        short = rng.choice((1, 1, 2, 3))
        if t == "Prepend":
            return {"type": t, "prepend": word(rng.choice((short, 17, 70, 300, n)))}, text
        if t == "Replace":
            k = rng.random()
            if k < 0.5:
                pat, con = word(short), word(rng.choice((0, 1, 2, 3)))
            elif k < 0.75:
                pat, con = word(rng.choice((9, 17, 33, 65, 130, 300, min(n, 1100)))), word(rng.choice((0, 1, 3, 40)))
                p = [ord(c) for c in pat]
                for _ in range(rng.randint(1, 6)):
                    i = rng.randrange(len(text))
                    text = text[:i] + rng.choice((p, p, p[:-1], p[:-1] + p)) + text[i:]
            else:
                pat, con = word(2), word(rng.choice((17, 70, 300)))
                text = [0x7A] * len(text)
                p = [ord(c) for c in pat]
                for _ in range(rng.randint(1, 30)):
                    i = rng.randrange(len(text))
                    text[i:i] = p
            return {"type": t, "pattern": {"String": pat}, "content": con}, text
        if t == "Strip":
            ws = sorted(ref.WHITE)
            few = [rng.choice(ws) for _ in range(rng.choice((1, 2, 30)))]
            a, b = rng.choice((0, 1, 15, 16, 17, 33, 64, 129, 300, n)), rng.choice((0, 1, 15, 16, 17, 33, 64, 129, 300, n))
            text = [rng.choice(few) for _ in range(a)] + (text if rng.random() < 0.9 else []) + [rng.choice(few) for _ in range(b)]
            return {"type": t, "strip_left": rng.random() < 0.8, "strip_right": rng.random() < 0.8}, text
        return {"type": t}, text

    def large():
        for n in ctx.ladder(6, 20):
            alphabet = [chr(gen.rchar(rng, rng.sample(gen.NAMES, 2))) for _ in range(rng.randint(1, 3))] + [rng.choice(" a\u0301\t\u00a0")]
            text = gen.stretch(rng, n, lambda: [ord(rng.choice(alphabet)) for _ in range(rng.randint(1, 40))])
            cfg, text = big_edit(n, alphabet, text)
            yield case(cfg, text, "large")
        for n in ctx.mine([17, 33, 65, 101, 129, 200, 257, 300, 520, 1030, 4100, 10050] * 3):
            few = [rng.choice(sorted(ref.WHITE)) for _ in range(rng.choice((1, 2, 30)))]
            a, b = [[rng.choice(few) for _ in range(n)] for _ in range(2)]
            yield case({"type": "Strip", "strip_left": True, "strip_right": True}, rng.choice((a, [])) + [0x61] + rng.choice((b, b, [])), "large")
        for n in ctx.mine([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 33] * 6):
            alphabet = [chr(gen.rchar(rng, rng.sample(gen.NAMES, 2))) for _ in range(rng.randint(1, 3))] + [rng.choice(" a\u0301\t\u00a0")]
            cfgs = [r_edit(rng, alphabet) for _ in range(n)]
            for c in cfgs:      # a pattern that is found in a content grows without bound
                if c["type"] == "Replace" and c["pattern"]["String"] in c["content"] and len(c["content"]) > 1:
                    c["content"] = rng.choice(alphabet)
            yield case(nested(rng, cfgs), [ord(rng.choice(alphabet)) for _ in range(rng.randint(1, 60))], "long sequences")

    ctx.run(large(), batch=8)
    ctx.run(exhaustive(), batch=32)
    ctx.run(rand())


# --------------------------------------------------------------------- C12
def ref_pieces(cfg, text):
    out = []
    for p in ref.pretokenize(cfg, [ref.Piece(ref.source(text))]):
        out.append((ref.cps_of(p.chars), p.chars[0][1], p.chars[-1][2]))
    return out


def c12(ctx):
    rng = ctx.rng
    cfg = {"type": "BertPreTokenizer"}
    step = comp("pre_tokenizer", "p", cfg)

    def case(text, count, locale=None):
        want = ref_pieces(cfg, text)
        ctx.count[count] += 1
        ctx.count["pieces"] += len(want)
        steps = [step, {"op": "pretok", "c": "p", "text": text}]
        if locale:
            steps.insert(0, {"op": "locale", "name": locale})
        return Case(steps, lambda r: simple_piece_check(want, r[-1], text, "BERT pieces of [%s]" % show(text, 20)), tl=30,
                    key=tuple(text) if len(want) > 1 else None)

    def exhaustive():
        for ch in ctx.mine(list(chunks(code_points(ctx.thorough), 400))):
            text = []
            for c in ch:
                text += [0x61, c, 0x61] if rng.random() < 0.8 else [c]
            ctx.count["code_points"] += len(ch)
            yield case(text, "code point blocks", "C.utf8" if rng.random() < 0.3 else None)

    def rand():
        for _ in range(ctx.n(8000, 200000)):
            k = rng.random()
            if k < 0.5:
                pools = rng.sample(["lower", "punct", "punct2", "symbol", "space", "control", "mark", "cjk", "emoji", "upperx"],
                                   rng.randint(1, 4))
                text = gen.rtext(rng, rng.choice((3, 10, 40)), pools)
            else:
                text = gen.rtext(rng, rng.choice((5, 60)))
            yield case(text, "random")
        ctx.sample({"text": text})

    def large():
        for n in ctx.ladder(3, 9):
            text = gen.stretch(rng, n, lambda: gen.rtext(rng, 40))
            yield case(text, "large", rng.choice((None, "C.utf8")))
            run = [rng.choice((0x61, 0x20, 0x2C, 0x3000, 0xE9, 0x1F600, 0x301))] * n
            yield case([0x62] * gen.flag(rng) + run + [0x20, 0x63] * gen.flag(rng), "large")

    ctx.run(large(), batch=8)
    ctx.run(exhaustive(), batch=16)
    ctx.run(rand())


# --------------------------------------------------------------------- C13
def pattern_text(rng, pattern, maxlen=30):
    k = rng.random()
    if k < 0.35:
        text = gen.rtext(rng, maxlen)
    elif k < 0.7:
        text = [ord(rng.choice("abcx ab1é😀.,' \n\t")) for _ in range(rng.randint(0, maxlen))]
    else:
        text = []
        for _ in range(rng.randint(0, 6)):
            text += [ord(c) for c in rng.choice(("don't", "ab", " aab", "123 4567", "x", "  \n\n ", "é", "😀😀", "e\u0301", "a b",
                                                 "I'LL", "...", "中文", "\u3000", "abcabc", "'s", "\r\n"))]
    if "(?i" in pattern:
        text = [c for c in text if c not in (0x17F, 0x212A)]
    return text


def rand_pattern(rng, depth=0):
    """a random pattern which ICU and Python understand alike"""
    k = rng.random()
    if k < 0.45 or depth > 2:
        return rng.choice(["a", "b", "c", "x", " ", "é", "😀", "[ab]", "[^a]", r"\s", r"\S", r"\p{L}", r"\p{N}", r"\p{P}", r"[^\s\p{L}]",
                           r"\.", "[a-c]", "'"])
    if k < 0.6:
        return rand_pattern(rng, depth + 1) + rand_pattern(rng, depth + 1)
    if k < 0.75:
        return "(?:%s|%s)" % (rand_pattern(rng, depth + 1), rand_pattern(rng, depth + 1))
    if k < 0.85:
        return "(?:%s)%s" % (rand_pattern(rng, depth + 1), rng.choice(("+", "{1,2}", "{2}", "+?")))
    if k < 0.92:
        return "(%s)" % rand_pattern(rng, depth + 1)
    return "%s(%s%s)" % (rand_pattern(rng, depth + 1), rng.choice(("?!", "?=")), rand_pattern(rng, depth + 1))


def conservation(cfg, text, r):
    """what must hold for any pattern, including those which match the empty string"""
    if "p" not in r:
        return ["pieces of [%s] under %s: expected pieces, got %s" % (show(text), cfg, show_r(r))]
    out, pos = [], 0
    for raw, a, b, _ in splits_of(r):
        if not raw:
            out.append("an empty piece at %d under %s on [%s]" % (a, cfg, show(text)))
        if a < pos or b > len(text) or ref.utf8(text[a:b]) != raw:
            out.append("piece %r at [%d, %d) does not match the text under %s on [%s]" % (raw, a, b, cfg, show(text)))
        if cfg["behavior"] == "Isolated" and a != pos:
            out.append("text lost before %d under %s on [%s]" % (a, cfg, show(text)))
        pos = b
    if cfg["behavior"] == "Isolated" and pos != len(text):
        out.append("text lost at the end under %s on [%s]" % (cfg, show(text)))
    return out


def c13(ctx):
    rng = ctx.rng

    def exact(cfg, text, count, pieces=None):
        """pieces: list of (text, token or None) given as the input"""
        if pieces is None:
            inp = [ref.Piece(ref.source(text))]
            st = {"op": "pretok", "c": "p", "text": text}
        else:
            inp, pos = [], 0
            for t, k in pieces:
                inp.append(ref.Piece([(c, pos + i, pos + i + 1, True) for i, c in enumerate(t)], k))
                pos += len(t)
            text = [c for t, _ in pieces for c in t]
            st = {"op": "pretok", "c": "p",
                  "pieces": [[hx(ref.utf8(t)), None if k is None else [k, hx(ref.utf8(t))]] for t, k in pieces]}
        res = ref.pretokenize(cfg, inp)
        want = [(ref.cps_of(p.chars), p.chars[0][1], p.chars[-1][2]) for p in res]
        toks = [p.tok for p in res]
        ctx.count[count] += 1
        ctx.count["pieces"] += len(want)

        def check(r):
            out = simple_piece_check(want, r[1], text, "pieces of [%s] under %s" % (show(text, 30), cfg))
            if not out:
                for g, k in zip(splits_of(r[1]), toks):
                    ids = [t[0] for t in g[3]]
                    if ids != ([] if k is None else [k]):
                        out.append("the added token of piece %r became %s under %s" % (g[0], g[3], cfg))
            return out
        return Case([comp("pre_tokenizer", "p", cfg), st], check, tl=30,
                    key=(repr(cfg), tuple(text)) if len(want) > 1 else None)

    # patterns that agree in a long stretch (which matches nothing here) and differ before or after it
    stems = ["".join(rng.choice("qzjQZJ") for _ in range(n)) for n in (6, 14, 30, 70, 150, 300)]

    def rand():
        cfg = text = None
        for _ in range(ctx.n(9000, 150000)):
            k = rng.random()
            cfg = gen.r_split(rng)
            if k < 0.35:
                pat = rand_pattern(rng)
                if rng.random() < 0.3:
                    pat = rng.choice(("%s|%s", "%s|(?:%s)", "(?:%s)?(?:%s)", "%s{2}|%s")) % (rng.choice(stems), pat) if rng.random() < 0.6 \
                        else "%s|%s" % (pat, rng.choice(stems))
                    ctx.count["long patterns"] += 1
                try:
                    if ref.py_regex(pat).match(""):
                        raise ref.re.error("matches nothing")
                    cfg["pattern"]["Regex"] = pat
                except ref.re.error:
                    pass
            pat = cfg["pattern"]["Regex"]
            text = pattern_text(rng, pat, rng.choice((4, 20, 60)))
            if any(a == b for a, b in ref.regex_matches(pat, text)):
                ctx.count["empty matches"] += 1
                yield Case([comp("pre_tokenizer", "p", cfg), {"op": "pretok", "c": "p", "text": text}],
                           lambda r, cfg=cfg, text=text: conservation(cfg, text, r[1]))
                continue
            if k > 0.6 and k < 0.75:
                cfg = {"type": "Sequence", "pretokenizers": [cfg] + [
                    gen.r_split(rng) if rng.random() < 0.7 else {"type": "BertPreTokenizer"} for _ in range(rng.randint(1, 3))]}
                if any("(?i" in c.get("pattern", {}).get("Regex", "") for c in cfg["pretokenizers"]):
                    text = [c for c in text if c not in (0x17F, 0x212A)]
                if rng.random() < 0.3:
                    cfg["pretokenizers"][:2] = [{"type": "Sequence", "pretokenizers": cfg["pretokenizers"][:2]}]
                yield exact(cfg, text, "sequences")
            elif k >= 0.75:
                pieces, rest = [], text
                while rest:
                    n = rng.randint(1, max(len(rest) // 2, 1))
                    pieces.append((rest[:n], rng.randrange(1000) if rng.random() < 0.4 else None))
                    rest = rest[n:]
                if rng.random() < 0.3:
                    cfg = {"type": "Sequence", "pretokenizers": [cfg, {"type": "BertPreTokenizer"}]}
                if any(p[1] is not None for p in pieces):
                    ctx.count["with added tokens"] += 1
                yield exact(cfg, None, "given pieces", pieces)
            else:
                yield exact(cfg, text, "behaviour %s%s" % (cfg["behavior"], " inverted" if cfg["invert"] else ""))
        for _ in range(ctx.n(2000, 40000)):
            cfg = gen.r_split(rng)
            cfg["pattern"]["Regex"] = rng.choice(gen.NULLABLE)
            text = pattern_text(rng, cfg["pattern"]["Regex"])
            ctx.count["empty matches"] += 1
            yield Case([comp("pre_tokenizer", "p", cfg), {"op": "pretok", "c": "p", "text": text}],
                       lambda r, cfg=cfg, text=text: conservation(cfg, text, r[1]), key=("nullable", repr(cfg), tuple(text)))
        ctx.sample({"config": cfg, "text": text})

    def large():
        for n in ctx.ladder(5, 15):
            cfg = gen.r_split(rng)
            pat = cfg["pattern"]["Regex"]
            text = gen.stretch(rng, n, lambda: pattern_text(rng, pat, 40))
            k = rng.random()
            if k < 0.15:
                pat = cfg["pattern"]["Regex"] = rng.choice((r"\s+", r"\p{L}+", r"[a-c]+", r"\S+", r"[^a-z]", "x"))
                text = [rng.choice((0x61, 0x20, 0xE9, 0x78))] * n + [0x2C] * gen.flag(rng)
            if any(a == b for a, b in ref.regex_matches(pat, text)):
                continue
            ctx.count["large"] += 1
            if k < 0.6:
                yield exact(cfg, text, "behaviour %s%s" % (cfg["behavior"], " inverted" if cfg["invert"] else ""))
                continue
            if k < 0.75:
                cfg = {"type": "Sequence", "pretokenizers": [cfg, {"type": "BertPreTokenizer"}, gen.r_split(rng)]}
                text = [c for c in text if c not in (0x17F, 0x212A)]
            pieces, rest, most = [], text, rng.choice((2, 20, 400))
            while rest:
                c = rng.randint(1, most)
                pieces.append((rest[:c], rng.randrange(100000) if rng.random() < 0.4 else None))
                rest = rest[c:]
            yield exact(cfg, None, "given pieces", pieces)
        for n in ctx.mine([3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20] * 4):
            cfg = {"type": "Sequence", "pretokenizers": [{"type": "Split", "pattern": {"Regex": p}, "behavior": "Isolated", "invert": False}
                                                         for p in rng.choices(["a", "b", "é", "😀", " ", "1", "ab", "x"], k=n)]}
            yield exact(cfg, pattern_text(rng, "", 60), "sequences")

    ctx.run(large(), batch=8)
    ctx.run(rand())


# --------------------------------------------------------------------- C14
def c14(ctx):
    rng = ctx.rng

    def check_alphabet(r):
        m = r[0].get("m")
        if m is None:
            return ["bytes_char: " + show_r(r[0])]
        d = {b: unhex(s).decode("utf-8", "replace") for b, s in m}
        out = []
        if sorted(d) != list(range(256)) or len(m) != 256:
            out.append("bytes_char does not map the 256 byte values: %d keys" % len(d))
        if len(set(d.values())) != len(d):
            out.append("bytes_char is not one-to-one")
        for b, s in d.items():
            if len(s) != 1 or not s.isprintable() or s.isspace() or ud.category(s)[0] in "CZ":
                out.append("byte %d is shown as %r" % (b, s))
            elif ord(s) != ref.BYTE_CP.get(b):
                out.append("byte %d is %r, GPT-2 has U+%04X" % (b, s, ref.BYTE_CP.get(b, 0)))
        return out

    def pre(cfg, text, count, pieces=None, seq=None):
        inp, pos, given = [], 0, [(text, None)] if pieces is None else pieces
        for t, k in given:
            inp.append(ref.Piece([(c, pos + i, pos + i + 1, True) for i, c in enumerate(t)], k))
            pos += len(t)
        want = [(p.text(), p.tok) for p in ref.pretokenize(cfg, inp)]
        full = [c for t, _ in given for c in t]
        st = {"op": "pretok", "c": "p", "text": text} if pieces is None else {
            "op": "pretok", "c": "p",
            "pieces": [[hx(ref.utf8(t)), None if k is None else [k, hx(ref.utf8(t))]] for t, k in pieces]}
        ctx.count[count] += 1
        ctx.count["bytes mapped"] += len(ref.utf8(full))

        def check(r):
            if "p" not in r[1]:
                return ["byte-level pieces of [%s] under %s: %s" % (show(full), cfg, show_r(r[1]))]
            got = [(s[0], s[3][0][0] if s[3] else None) for s in splits_of(r[1])]
            out = []
            if got != want:
                out.append("byte-level pieces of [%s] under %s: expected %s got %s" % (show(full), cfg, want[:12], got[:12]))
            # conservation, independent of the reference split
            if seq is None and all(k is None for _, k in given):
                try:
                    b = b"".join(bytes(ref.CP_BYTE[ord(c)] for c in s[0].decode()) for s in got)
                except (KeyError, UnicodeDecodeError):
                    return out + ["a piece has a symbol outside the byte alphabet: %s" % got[:8]]
                exp = ref.utf8(full)
                if cfg["add_prefix_space"] and pieces is None and full and full[0] != 32:
                    exp = b" " + exp
                if pieces is None and b != exp:
                    out.append("bytes of [%s] under %s became %r" % (show(full), cfg, b[:80]))
            return out
        return Case([comp("pre_tokenizer", "p", cfg), st], check, tl=30, key=(repr(cfg), tuple(full), pieces is None))

    def dec(toks, count):
        want = b"".join(ref.decode_chain({"type": "ByteLevel"}, toks))
        cfg = {"type": "ByteLevel", "add_prefix_space": gen.flag(rng), "trim_offsets": gen.flag(rng), "use_regex": gen.flag(rng)}
        ctx.count[count] += 1

        def check(r):
            if "l" not in r[1]:
                return ["byte-level decoding of %s: %s" % (toks[:8], show_r(r[1]))]
            got = b"".join(map(unhex, r[1]["l"]))
            if got != want:
                return ["byte-level decoding of %s: expected %r got %r" % (toks[:12], want[:80], got[:80])]
        return Case([comp("decoder", "d", cfg), {"op": "chain", "c": "d", "tokens": [hx(t) for t in toks]}], check, tl=30,
                    key=("dec", tuple(toks)))

    def divide(s):
        out = []
        while s:
            n = rng.randint(1, 4)
            out.append(s[:n])
            s = s[n:]
        return out

    def work():
        yield Case([{"op": "alphabet"}], check_alphabet)
        # every byte alone and every pair of neighbours
        for b in ctx.mine(range(256)):
            yield dec([chr(ref.BYTE_CP[b]).encode()], "single bytes")
            yield dec([(chr(ref.BYTE_CP[b]) + chr(ref.BYTE_CP[(b + 1) % 256])).encode()], "single bytes")
        cfgs = [{"type": "ByteLevel", "add_prefix_space": a, "trim_offsets": t, "use_regex": u}
                for a in (False, True) for t in (False, True) for u in (False, True)]
        for ch in ctx.mine(list(chunks(code_points(ctx.thorough), 512))):
            cfg = rng.choice(cfgs)
            ctx.count["code_points"] += len(ch)
            yield pre(cfg, ch, "code point blocks")
        for _ in range(ctx.n(6000, 150000)):
            cfg = rng.choice(cfgs)
            k = rng.random()
            text = gen.rtext(rng, rng.choice((1, 5, 30, 100)))
            if k < 0.2:
                text = [32] * rng.randint(0, 2) + text
            if k < 0.6:
                yield pre(cfg, text, "random")
            elif k < 0.85:
                pieces, rest = [], text
                while rest:
                    n = rng.randint(1, max(len(rest) // 2, 1))
                    pieces.append((rest[:n], rng.randrange(1000) if rng.random() < 0.3 else None))
                    rest = rest[n:]
                yield pre(cfg, None, "given pieces", pieces)
            else:
                s = {"type": "Sequence", "pretokenizers": [gen.r_split(rng), dict(cfg, use_regex=False)]}
                if "(?i" in s["pretokenizers"][0]["pattern"]["Regex"]:
                    text = [c for c in text if c not in (0x17F, 0x212A)]
                if not any(a == b for a, b in ref.regex_matches(s["pretokenizers"][0]["pattern"]["Regex"], text)):
                    yield pre(s, text, "after a split", seq=True)
            # decoding of arbitrary byte strings under any division, with foreign tokens
            raw = bytes(rng.randrange(256) for _ in range(rng.randint(0, 40))) if rng.random() < 0.5 else ref.utf8(text)
            toks = [t.encode() for t in divide("".join(chr(ref.BYTE_CP[b]) for b in raw))]
            yield dec(toks, "byte strings")
            for _ in range(rng.randint(1, 3)):
                f = rng.choice(("é\u4e2d", "[CLS] x", "a b", "😀", "\u0144", "Ġ中", "\u00ad", "\u00a0", "\n", "hello world", "\u0100\u0144",
                                "\x7f", "Ā\u200b", "<|x y|>"))
                toks.insert(rng.randint(0, len(toks)), f.encode())
            yield dec(toks, "foreign tokens")
        ctx.sample({"config": cfg, "text": text, "tokens": [t.decode() for t in toks]})

    def large():
        for n in ctx.ladder(3, 9):
            ctx.count["large"] += 1
            cfg = {"type": "ByteLevel", "add_prefix_space": gen.flag(rng), "trim_offsets": gen.flag(rng), "use_regex": gen.flag(rng)}
            text = gen.stretch(rng, n, lambda: gen.rtext(rng, 40))
            yield pre(cfg, text, "random")
            yield pre(dict(cfg, use_regex=gen.flag(rng)), [rng.choice((0x61, 0xE9, 0x1F600, 0x4E00))] * n, "random")
            pieces, rest, most = [], text, rng.choice((2, 20, 400))
            while rest:
                c = rng.randint(1, most)
                pieces.append((rest[:c], rng.randrange(100000) if rng.random() < 0.3 else None))
                rest = rest[c:]
            yield pre(cfg, None, "given pieces", pieces)
            s = "".join(chr(ref.BYTE_CP[rng.randrange(256)]) for _ in range(n))
            yield dec([s.encode()], "byte strings")
            toks = [t.encode() for t in divide(s)]
            for _ in range(5):
                toks.insert(rng.randrange(len(toks)), "é\u4e2d [X]".encode())
            yield dec(toks, "foreign tokens")
            yield dec([rng.choice(("\u4e2d", "[X] y", "a b")).encode() * (n // 5)], "foreign tokens")

    ctx.run(large(), batch=8)
    ctx.run(work())


# --------------------------------------------------------------------- C24
def c24(ctx):
    rng = ctx.rng

    def tos(text, count):
        good = all(ref.scalar(c) for c in text)
        ctx.count[count] += 1

        def check(r):
            if good:
                want = ref.utf8(text)
                if "d" not in r[0] or unhex(r[0]["d"]) != want:
                    return ["UTF-8 of [%s]: expected %r got %s" % (show(text), want[:60], show_r(r[0]))]
            elif "x" not in r[0]:
                return ["the ill-formed text [%s] became %s" % (show(text), show_r(r[0]))]
        return Case([{"op": "tos", "text": text}], check, key=("w", tuple(text)))

    def froms(raw, count):
        try:
            want = [ord(c) for c in raw.decode("utf-8")]
            ctx.count["well-formed bytes"] += 1
        except UnicodeDecodeError:
            want = None
            ctx.count["ill-formed bytes"] += 1
        ctx.count[count] += 1

        def check(r):
            if want is None:
                if "x" not in r[0]:
                    return ["the ill-formed bytes %s became %s" % (raw[:60].hex(" "), show_r(r[0]))]
            elif r[0].get("w") != want:
                return ["bytes %s: expected [%s] got %s" % (raw[:60].hex(" "), show(want), show_r(r[0]))]
        return Case([{"op": "froms", "bytes": raw.hex()}], check, key=("b", raw))

    def multi(items, fn):
        """one driver case for many conversions"""
        cs = [fn(x) for x in items]
        return Case([s for c in cs for s in c.steps],
                    lambda r: [v for i, c in enumerate(cs) for v in (c.check([r[i]]) or ())],
                    key=cs[0].key)

    def work():
        cps = [c for c in range(0x110000) if ref.scalar(c)]
        for ch in ctx.mine(list(chunks(cps, 4096))):
            ctx.count["code_points"] += len(ch)
            yield tos(ch, "code point blocks")
            yield froms(ref.utf8(ch), "code point blocks")
        # every ill-formed code point near the borders, and all surrogates
        bad = list(range(0xD800, 0xE000)) + [0x110000 + i for i in range(64)] + [0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000,
                                                                               0x7FFFFFFF, -1, -2, -128, -0x80000000]
        for ch in ctx.mine(list(chunks(bad, 32))):
            yield multi(ch, lambda c: tos([c], "bad code points"))
            yield multi(ch, lambda c: tos([0x61, 0x1F600, c, 0xE9], "bad code points"))
        # all two-byte strings, then the boundaries of three- and four-byte ones, and every truncation
        two = [bytes((a, b)) for a in range(0x80, 256) for b in range(256)] + [bytes((a,)) for a in range(256)] + \
            [bytes((a, b)) for a in (0, 0x41, 0x7F) for b in range(256)]
        for ch in ctx.mine(list(chunks(two, 256))):
            yield multi(ch, lambda b: froms(b, "two-byte strings"))
        edge = [0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF]
        three = [bytes((a, b, c)) for a in range(0xE0, 0x100) for b in edge for c in edge] + \
            [bytes((a, b, c, d)) for a in range(0xF0, 0x100) for b in edge for c in edge[1:9] for d in (0x7F, 0x80, 0xBF, 0xC0)]
        for ch in ctx.mine(list(chunks(three, 256))):
            yield multi(ch, lambda b: froms(b, "boundary strings"))
        # embedded in good text
        for _ in range(ctx.n(6000, 200000)):
            text = gen.rtext(rng, rng.choice((1, 4, 30, 300)))
            raw = bytearray(ref.utf8(text))
            k = rng.random()
            if k < 0.3:
                yield tos(text, "texts")
            elif k < 0.5:
                yield froms(bytes(raw), "texts")
            elif k < 0.6:
                yield tos(gen.ill(rng, text), "ill-formed texts")
            elif raw:
                for _ in range(rng.randint(1, 2)):
                    m = rng.random()
                    i = rng.randrange(len(raw))
                    if m < 0.35:
                        raw[i] = rng.randrange(256)
                    elif m < 0.6:
                        del raw[i]
                    elif m < 0.8:
                        raw[i:i] = rng.choice((b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\x80", b"\xff", b"\xf8\x88\x80\x80\x80",
                                               b"\x80", b"\xc2", b"\xf0\x9f\x98", b"\xed\xbf\xbf", b"\xef\xbf\xbe", b"\xef\xbb\xbf"))
                    else:
                        del raw[i:]
                    if not raw:
                        break
                yield froms(bytes(raw), "mutated texts")
        ctx.sample({"bytes": bytes(raw).hex()})

    def large():
        for n in ctx.ladder(3, 9) + ctx.mine([140000, 262200, 300000, 524300, 1048600]):
            ctx.count["large"] += 1
            text = gen.stretch(rng, n, lambda: gen.rtext(rng, 40))
            raw = ref.utf8(text)
            yield tos(text, "texts")
            yield froms(raw, "texts")
            k = rng.choice((0, 1, 2, 3, n // 2))
            text = [rng.choice((0x61, 0x7F))] * k + [rng.choice((0xE9, 0x4E00, 0x1F600, 0x61, 0))] * n
            yield tos(text, "texts")
            yield froms(ref.utf8(text), "texts")
            i = rng.choice((0, 1, len(text) // 2, len(text) - 1, rng.randrange(len(text))))
            yield tos(text[:i] + [rng.choice((0xD800, 0xDFFF, 0x110000, -1))] + text[i:], "ill-formed texts")
            raw = bytearray(raw)
            i = rng.choice((0, len(raw) // 2, len(raw) - 1, rng.randrange(len(raw))))
            raw[i:i] = rng.choice((b"\xff", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80"))
            yield froms(bytes(raw), "mutated texts")

    ctx.run(large(), batch=4)
    ctx.run(work())
