"""C01, C02, C04 and C26: memory safety, hostile configurations, concurrency and failures."""
import json
import re
import shutil

from . import gen, ref
from .lib import Case, add, comp, dec, enc, hx, jhex, normalize, show, show_r, tok, unhex
from .p_pipe import brief, r_added_dense
from .p_pipe import r_tokens as decoder_tokens
from .run import VALGRIND

OKTYPES = ("invalid_argument", "bad_alloc", "length_error", "out_of_range", "range_error", "runtime_error", "exception")


HUGE = re.compile(rb"\d{7}|\d[eE]\+?\d")


def returned(r, what, big=False):
    """a result of a call that may fail: a value or a C++ exception; big: the configuration may ask for any amount of memory"""
    if r.get("x") == "bad_alloc" and not big:
        return ["%s asked for more memory than 768 MB at once" % what]
    if r.get("x") == "NON_STD":
        return ["%s threw something that is not a std::exception" % what]
    if "badop" in r:
        raise RuntimeError("unknown operation in " + what)
    return []


# --------------------------------------------------------------------- C01
def hostile_text(rng, cfg, alphabet):
    k = rng.random()
    if k < 0.3:
        t = gen.config_text(rng, cfg, alphabet, rng.choice((3, 30, 120)))
    elif k < 0.7:
        t = gen.rtext(rng, rng.choice((3, 30, 120)))
    elif k < 0.8:
        t = [rng.choice((0, 32, 0x301, 0x1161, 0xFDFA, 0x10FFFF, 0x344, 0xAC01, 0x200D, 0xFE0F, 0x0A))] * rng.randint(1, 50)
    else:
        t = [rng.choice(sorted(ref.WHITE) + [0, 0xFFFD, 0x61]) for _ in range(rng.randint(0, 20))]
    if rng.random() < 0.25:
        t = gen.ill(rng, t)
    return t


LONG_UNITS = ["97", "32", "769", "64018", "55176", "128512", "97,32", "97,769,803", "46", "0", "20013", "4352,4449,4520", "65,66,67,32", "10",
              "836", "9650", "97,98,99,100", "1114111", "60,115,62", "91,77,65,83,75,93", "55296", "40,41"]


def wild_component(rng, cfg):
    """configurations at the edge of what loads"""
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(9)
        if k == 0:
            cfg[rng.choice(("normalizer", "pre_tokenizer", "model", "post_processor", "decoder", "added_tokens", "truncation", "padding"))] = None
        elif k == 1:
            cfg["normalizer"] = {"type": "Sequence", "normalizers": [gen.r_normalizer(rng, 1), {"type": rng.choice((
                "Lowercase", "Nmt", "Precompiled", "Unknown", "Sequence", "NFC"))}] + [gen.r_simple_normalizer(rng)]}
            if cfg["normalizer"]["normalizers"][1]["type"] == "Sequence":
                cfg["normalizer"]["normalizers"][1]["normalizers"] = []
        elif k == 2:
            cfg["pre_tokenizer"] = rng.choice((
                {"type": rng.choice(("Whitespace", "Digits", "Metaspace", "Punctuation", "Nope"))},
                {"type": "Split", "pattern": {"Regex": rng.choice(gen.NULLABLE + gen.SPLITS + [r"(?=.)", r"$", r"^", r"\b", r"(?<=a)", "(a+)+$", "."])},
                 "behavior": rng.choice(("Isolated", "Removed", "MergedWithPrevious", "MergedWithNext", "Contiguous", "Nope")),
                 "invert": gen.flag(rng)},
                {"type": "Sequence", "pretokenizers": [gen.r_pretokenizer(rng, 1), gen.r_split(rng, True), gen.r_pretokenizer(rng, 1)]}))
        elif k == 3 and cfg["model"]:
            cfg["model"]["vocab"] = dict(list(cfg["model"]["vocab"].items())[:rng.randint(0, 3)])
            if cfg["model"]["type"] == "BPE":
                cfg["model"]["merges"] = []
        elif k == 4:
            toks = r_added_dense(rng, cfg) + [{"content": rng.choice(("", " ", "\u0301", "\n", "\u0000", "a")), "single_word": gen.flag(rng),
                                               "lstrip": gen.flag(rng), "rstrip": gen.flag(rng), "normalized": gen.flag(rng), "special": gen.flag(rng)}]
            cfg["added_tokens"] = [dict(t, id=rng.choice((0, -5, 2 ** 31 - 1, 7))) for t in toks]
        elif k == 5:
            cfg["truncation"] = dict(gen.r_truncation(rng), max_length=rng.choice((0, 1, 2, 2147483647, -1, -2147483648)),
                                     stride=rng.choice((0, 1, 2147483647, -1, -2147483648)))
        elif k == 6:
            cfg["padding"] = dict(gen.r_padding(rng), pad_to_multiple_of=rng.choice((1, 257, -8, -2147483648, 0, None, 3)),
                                  strategy=rng.choice(("BatchLongest", {"Fixed": rng.choice((0, -1, 5, -2147483648, 1000))}, "Nope")))
        elif k == 7:
            cfg["post_processor"] = gen.r_post(rng)
            if isinstance(cfg["post_processor"], dict) and cfg["post_processor"].get("single"):
                cfg["post_processor"]["single"] *= rng.choice((0, 1, 3))
        elif k == 8 and cfg["model"] and cfg["model"]["type"] == "WordPiece":
            cfg["model"]["max_input_chars_per_word"] = rng.choice((0, -1, 2147483647, -2147483648, 1))
            cfg["model"]["unk_token"] = rng.choice(("", "[UNK]", "é"))
        elif k == 8 and cfg["model"]:
            cfg["model"]["dropout"] = rng.choice((None, 0.0, 0.5, 1.0, -1.0, 2.0))
    return cfg


def c01_case(ctx, cfg, alphabet, tl=10):
    rng = ctx.rng
    if rng.random() < 0.5:
        cfg = wild_component(rng, cfg)
    steps = [tok("t", cfg)]
    for _ in range(rng.randint(2, 6)):
        k = rng.random()
        if k < 0.6:
            steps.append(enc("t", hostile_text(rng, cfg, alphabet), gen.flag(rng)))
        elif k < 0.85:
            odd = rng.random() < 0.5
            steps.append(dec("t", [rng.choice((rng.randrange(-2, 300), -1, 2147483647, -2147483648, rng.randrange(0, 40)) if odd else (rng.randrange(60),))
                                   for _ in range(rng.choice((0, 1, 5, 40)))], gen.flag(rng)))
        else:
            steps.append(add("t", r_added_dense(rng, cfg, rng.randint(0, 4)), gen.flag(rng)))

    def check(r, steps=steps):
        out = []
        for s, x in zip(steps, r):
            out += returned(x, json.dumps(s)[:300])
            ctx.count["%s %s" % (s["op"], "threw" if "x" in x else "none" if "no" in x else "returned")] += 1
        return out
    return Case(steps, check, tl=tl, key=json.dumps(steps))


def c01(ctx):
    rng = ctx.rng

    def work(n, tl=10):
        for _ in range(n):
            cfg, alphabet = gen.r_config(rng)
            if rng.random() < 0.3:      # any decoder with any vocabulary
                cfg["decoder"] = gen.r_decoder(rng)
            if rng.random() < 0.2:
                cfg["normalizer"] = gen.r_normalizer(rng)
            yield c01_case(ctx, cfg, alphabet, tl)

    def components():
        """components called directly, with texts and encodings a pipeline may never produce"""
        for _ in range(ctx.n(3000, 60000)):
            alphabet = gen.r_alphabet(rng)
            t = hostile_text(rng, {"added_tokens": []}, alphabet)
            good = [c for c in t if ref.scalar(c)]
            steps = []
            k = rng.randrange(5)
            if k == 0:
                n = gen.r_normalizer(rng) or {"type": "NFC"}
                steps = [comp("normalizer", "n", n), {"op": "normalize", "c": "n", "text": t}]
            elif k == 1:
                p = rng.choice((gen.r_pretokenizer, lambda r: gen.r_split(r, True)))(rng) or {"type": "BertPreTokenizer"}
                steps = [comp("pre_tokenizer", "p", p), {"op": "pretok", "c": "p", "text": t}]
                cut = rng.randint(0, len(good))
                steps.append({"op": "pretok", "c": "p", "pieces": [[hx(ref.utf8(good[:cut])), None], [hx(ref.utf8(good[cut:])), [3, hx("x")] if gen.flag(rng) else None]]})
            elif k == 2:
                m = gen.r_wordpiece(rng, alphabet) if gen.flag(rng) else gen.r_bpe(rng, alphabet)
                steps = [comp("model", "m", m), {"op": "model", "c": "m", "pieces": [[hx(ref.utf8(good)), None], ["", None], [hx("a"), None]]}]
            elif k == 3:
                d = gen.r_decoder(rng) or {"type": "Fuse"}
                toks = [ref.utf8(gen.rtext(rng, 6)) for _ in range(rng.randint(0, 5))] + [x.encode() for x in decoder_tokens(rng)]
                for r in gen.find(d, "Replace"):
                    toks.append((r["pattern"]["String"] * rng.randint(1, 3) + rng.choice(("", "b"))).encode())
                for _ in range(rng.randint(0, 3)):
                    toks.append(rng.choice((b"\xff", b"\xc3", b"<0x", b"<0xZZ>", b"", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"<0xE4>", b"\xc4", b"\xc4\xa0\xc4")))
                rng.shuffle(toks)
                steps = [comp("decoder", "d", d), {"op": "chain", "c": "d", "tokens": [x.hex() for x in toks]}]
            else:
                from .p_post import r_tokens, to_json
                e = to_json(r_tokens(rng, rng.randint(0, 9)), [r_tokens(rng, rng.randint(0, 5)) for _ in range(rng.randint(0, 3))])
                steps = [comp("post_processor", "p", gen.r_post(rng) or gen.r_template(rng)), {"op": "process", "c": "p", "enc": e, "sp": gen.flag(rng)},
                         comp("truncation", "u", gen.r_truncation(rng)), {"op": "truncate", "c": "u", "enc": e},
                         comp("padding", "q", gen.r_padding(rng)), {"op": "pad", "c": "q", "enc": e}]
            ctx.count["component calls"] += len(steps)
            yield Case(steps, lambda r, steps=steps: [v for s, x in zip(steps, r) for v in returned(x, json.dumps(s)[:300])], key=json.dumps(steps))

    def long_runs():
        for i in range(ctx.n(120, 1200)):
            cfg, alphabet = gen.r_config(rng)
            cfg["truncation"] = rng.choice((None, {"direction": rng.choice(("Left", "Right")), "max_length": 512, "strategy": "LongestFirst", "stride": rng.choice((0, 128))}))
            cfg["padding"] = None
            n = rng.choice((1000, 5000, 20000)) if i % 8 or not ctx.thorough else 100000
            if cfg["model"] and cfg["model"].get("max_input_chars_per_word", 0) > n:
                n = 1000      # its cost grows with the cube of a word, by its definition
            ctx.count["long runs"] += 1
            u = rng.choice(LONG_UNITS) if rng.random() < 0.7 else str(ord(rng.choice(alphabet)))
            steps = [tok("t", cfg), enc("t", "rep:%d:%s" % (n // (1 + u.count(",")), u), gen.flag(rng)), enc("t", [97])]
            yield Case(steps, lambda r, steps=steps: [v for s, x in zip(steps, r) for v in returned(x, "a run")], tl=60, key=json.dumps(steps))

    def big():
        """one very long text per style"""
        sizes = 300000 if ctx.thorough else 100000
        todo = []
        for u in ("97", "97,32", "769", "128512", "32"):
            for style in range(4):
                todo.append((u, style))
        for u, style in ctx.mine(todo):
            cfg, alphabet = gen.r_config(rng)
            cfg.update(truncation=None, padding=None, post_processor=None)
            abc = list("abc😀\u0301")
            cfg["normalizer"] = [None, {"type": "NFKC"}, {"type": "BertNormalizer", "clean_text": True, "handle_chinese_chars": True, "strip_accents": None, "lowercase": True}, None][style]
            cfg["pre_tokenizer"] = [None, {"type": "ByteLevel", "add_prefix_space": False, "trim_offsets": True, "use_regex": True}, {"type": "BertPreTokenizer"}, None][style]
            cfg["model"] = [gen.r_bpe(rng, abc), gen.r_bpe(rng, abc, byte_level=True), gen.r_wordpiece(rng, abc), gen.r_wordpiece(rng, abc)][style]
            if style >= 2:
                cfg["model"]["max_input_chars_per_word"] = 100 if style == 2 else 2147483647
            ctx.count["very long texts"] += 1
            n = sizes // (1 + u.count(","))
            if style == 3:
                n //= 50
            steps = [tok("t", cfg), enc("t", "rep:%d:%s" % (n, u))]
            yield Case(steps, lambda r: [v for x in r for v in returned(x, "a very long text")], tl=60)

    def enormous():
        """sizes beyond what the stack or a 16-bit counter holds"""
        def judge(r):
            return [v for x in r for v in returned(x, "an enormous input")]
        wp = {"type": "WordPiece", "unk_token": "a", "continuing_subword_prefix": "##", "max_input_chars_per_word": 100, "vocab": {"a": 0}}
        plain = {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [], "normalizer": None, "pre_tokenizer": None,
                 "post_processor": None, "decoder": None, "model": wp}
        bert = dict(plain, pre_tokenizer={"type": "BertPreTokenizer"})
        todo = [[tok("t", plain), enc("t", "rep:%d:%s" % (n, u))] for n, u in ((9000000, "97"), (2500000, "128512"))]
        todo.append([tok("t", bert), enc("t", "rep:300000:97,32")])
        for m in ({"type": "NFC"}, {"type": "Replace", "pattern": {"String": "a"}, "content": "bc"}, {"type": "StripAccents"}, {"type": "Strip", "strip_left": True, "strip_right": True},
                  {"type": "BertNormalizer", "clean_text": True, "handle_chinese_chars": True, "strip_accents": True, "lowercase": True}):
            u = rng.choice(("97", "97", "32", "97,769", "20013", "65"))
            todo.append([comp("normalizer", "n", m), normalize("n", "rep:%d:%s" % (400000 if ctx.thorough else 250000, u))])
        n = 400000 if ctx.thorough else 150000
        for d in [{"type": "Replace", "pattern": {"String": "a"}, "content": "b"}, {"type": "Strip", "content": "a", "start": n + 5, "stop": 3},
                  {"type": "WordPiece", "prefix": "##", "cleanup": True}, {"type": "ByteFallback"}, {"type": "Fuse"}, {"type": "ByteLevel"}]:
            for toks in (["a" * n], [" ." * (n // 2)], ["a", "##a"] * (n // 4), ["<0xC3>", "<0xA9>"] * (n // 4)):
                todo.append([comp("decoder", "d", d), {"op": "chain", "c": "d", "tokens": [hx(t) for t in toks]}])
        todo.append([tok("t", dict(plain, post_processor={"type": "ByteLevel", "add_prefix_space": False, "trim_offsets": True, "use_regex": True},
                                   model=dict(wp, vocab={"a": 0, "\u0120" * n: 1}, max_input_chars_per_word=2147483647))),
                     enc("t", "rep:%d:288" % n)])
        for steps in ctx.mine(todo):
            ctx.count["enormous"] += 1
            yield Case(steps, judge, tl=150)

    def scaled():
        """large vocabularies, many additions, long id lists, large processing configurations, histories of many words"""
        for n in ctx.ladder(4, 8):
            k = rng.randrange(5)
            if k == 0:
                cfg, words = gen.huge_config(rng, n)
                t = [c for w in rng.sample(words, min(60, len(words))) for c in w + [32]]
                ids = [rng.choice((rng.randrange(n), n, n + 3, -1, 2147483647)) for _ in range(300)]
                steps = [tok("t", cfg), enc("t", t), dec("t", ids), dec("t", ids, True), enc("t", hostile_text(rng, cfg, ["a"]))]
            elif k == 1:
                cfg, alphabet, t = gen.big_case(rng, n)
                steps = [tok("t", cfg), enc("t", gen.ill(rng, t)), enc("t", t), enc("t", t[:50])]
            elif k == 2:
                cfg, alphabet = gen.r_config(rng)
                m = min(n, 3000)
                many = [{"content": "%s%d%s" % (rng.choice(alphabet), i, rng.choice(("", " ", "é"))), "single_word": gen.flag(rng), "lstrip": gen.flag(rng),
                         "rstrip": gen.flag(rng), "normalized": gen.flag(rng), "special": gen.flag(rng)} for i in range(m)]
                cfg["added_tokens"] = gen.added_json(many[:m // 2])
                t = [ord(c) for a in rng.sample(many, min(m, 40)) for c in a["content"]]
                steps = [tok("t", cfg), enc("t", t), add("t", many[m // 2:]), enc("t", t), dec("t", [rng.randrange(-2, m + 100) for _ in range(100)])]
            elif k == 3:
                cfg, alphabet = gen.r_config(rng)
                ids = [rng.choice((rng.randrange(60), rng.randrange(60), -1, 10 ** 6)) for _ in range(n)]
                steps = [tok("t", cfg), dec("t", ids), dec("t", ids, True)]
            else:
                cfg, alphabet = gen.r_config(rng)
                gen.tame(rng, cfg, n)
                cfg["post_processor"] = gen.big_template(rng)
                cfg["truncation"] = rng.choice((None, {"direction": rng.choice(("Left", "Right")), "strategy": "LongestFirst",
                                                       "max_length": rng.choice((1, 7, 300)), "stride": 0}))
                t = gen.config_text(rng, cfg, alphabet, min(n, 3000))
                steps = [tok("t", cfg), enc("t", t), enc("t", t[:20])]
            ctx.count["large"] += 1
            yield Case(steps, lambda r, steps=steps: [v for s, x in zip(steps, r) for v in returned(x, json.dumps(s)[:200])], tl=60, key=json.dumps(steps)[:3000])

    ctx.run(work(ctx.n(6000, 150000)), leak_every=50)
    ctx.run(components(), leak_every=100)
    ctx.run(scaled(), leak_every=8, batch=8)
    ctx.run(enormous(), leak_every=8, batch=1)
    ctx.run(long_runs(), leak_every=8, batch=8)
    ctx.run(big(), batch=2)
    ctx.sample({"texts": "see observed"})
    # uninitialised reads, which the sanitizers of this compiler do not see
    if shutil.which("valgrind"):
        n0 = ctx.evals
        ctx.run(work(ctx.n(160, 4000), 60), kind="plain", wrap=VALGRIND, batch=20)
        ctx.count["cases under memcheck"] += ctx.evals - n0


# --------------------------------------------------------------------- C02
def mutate(rng, text):
    """a damaged document (bytes)"""
    b = bytearray(text)
    for _ in range(rng.choice((1, 1, 2, 4))):
        k = rng.randrange(7)
        i = rng.randrange(len(b) + 1)
        if k == 0:
            del b[i:]
        elif k == 1 and b:
            b[min(i, len(b) - 1)] ^= 1 << rng.randrange(8)
        elif k == 2:
            del b[i:i + rng.randint(1, 20)]
        elif k == 3:
            b[i:i] = rng.choice((b"\"", b"{", b"}", b"[", b"]", b",", b":", b"null", b"\\", b"\x00", b"\xff", b"1e999", b"\\ud800", b"-", b"99999999999999999999"))
        elif k == 4 and b:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + rng.randint(1, 60)]
        elif k == 5 and b:
            b[min(i, len(b) - 1)] = rng.randrange(256)
        elif k == 6:
            b = b[i:]
    return bytes(b)


VALUES = [None, True, False, 0, -1, 1, 2147483647, 2147483648, -2147483649, 2 ** 63, 2 ** 64, 1.5, 1e308, "", "x", "[CLS]", "é", "\u0000", [], {}, [[]],
          [None], [1], ["a"], {"a": 1}, {"type": "Nope"}, {"type": None}, {"type": "Sequence"}, [{}], {"": ""}]
PATTERNS = ["(", "[", "*", "\\", "(?<", "a{99999999999}", "\\p{Nope}", "(?P<x>a)", "[z-a]", "(a+)+b", "\\u{110000}", "a{2,1}", "(?i", "\\x{FFFFFFFF}", "((((", ")", "+",
            "\\Q", "[[:alpha:]]", "(?<=a*)", "\\1"]


def paths(v, p=()):
    out = []
    if isinstance(v, dict):
        for k, x in v.items():
            out.append(p + (k,))
            out += paths(x, p + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v[:6]):
            out.append(p + (i,))
            out += paths(x, p + (i,))
    return out


def restructure(rng, cfg):
    """a well-formed document with missing, misplaced or wrongly typed parts"""
    cfg = json.loads(json.dumps(cfg))
    # the vocabulary is only one place among many
    for _ in range(rng.choice((1, 1, 2, 3))):
        ps = [p for p in paths(cfg) if "vocab" not in p[:-1] or rng.random() < 0.05]
        if not ps:
            return cfg
        p = rng.choice(ps)
        o = cfg
        for k in p[:-1]:
            o = o[k]
        m = rng.randrange(6)
        if m == 0:
            del o[p[-1]]
        elif m in (1, 2):
            o[p[-1]] = json.loads(json.dumps(rng.choice(VALUES)))
        elif m == 3:      # another part of the document here
            q = rng.choice(paths(cfg) or [p])
            x = cfg
            for k in q:
                x = x[k]
            o[p[-1]] = json.loads(json.dumps(x))
        elif m == 4 and isinstance(o[p[-1]], str):
            o[p[-1]] = rng.choice(PATTERNS) if p[-1] == "Regex" else o[p[-1]][:1] * rng.choice((0, 1, 3))
        elif m == 5 and isinstance(o[p[-1]], int):
            o[p[-1]] = rng.choice((-1, 2 ** 31, 2 ** 31 - 1, -2 ** 31, 2 ** 63 - 1, 2 ** 64 - 1, 0.5, "1"))
        try:
            json.dumps(cfg)
        except (RecursionError, ValueError):
            return {}
    return cfg


def nesting(rng):
    d = rng.choice((10, 63, 64, 65, 66, 200, 1000, 1025, 5000, 60000))
    kind = rng.randrange(5)
    if kind == 0:
        return b"[" * d
    if kind == 1:
        return b'{"a":' * d
    key, typ = rng.choice((("normalizer", "normalizers"), ("pre_tokenizer", "pretokenizers"), ("post_processor", "processors"), ("decoder", "decoders")))
    inner = {"normalizer": '{"type":"NFC"}', "pre_tokenizer": '{"type":"BertPreTokenizer"}', "post_processor": '{"type":"ByteLevel","trim_offsets":true,"add_prefix_space":true}',
             "decoder": '{"type":"Fuse"}'}[key]
    s = '{"type":"Sequence","%s":[' % typ * d + inner + "]}" * (d if kind != 4 else 0)
    cfg = {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [], "normalizer": None, "pre_tokenizer": None, "post_processor": None, "decoder": None,
           "model": {"type": "WordPiece", "unk_token": "[UNK]", "continuing_subword_prefix": "##", "max_input_chars_per_word": 100, "vocab": {"[UNK]": 0, "a": 1}}}
    cfg[key] = "@@"
    return json.dumps(cfg).replace('"@@"', s).encode()


# what no JSON parser takes for a value, whatever it is asked for
BROKEN = (b"tru", b"nul", b"nulx", b"", b"}", b"{", b'{"type"', b'{"type":}', b"01x", b'"abc', b"[", b"]", b"{]", b"[}", b"'a'", b"-")
SECTIONS = ("truncation", "padding", "added_tokens", "normalizer", "pre_tokenizer", "model", "decoder", "post_processor")


def c02(ctx):
    rng = ctx.rng

    def use(name="t"):
        return [enc(name, [97, 32, 98, 0xE9, 0x1F600]), enc(name, [], False), enc(name, gen.rtext(rng, 12)), dec(name, [0, 1, 2, 5, -1, 2147483647], True), dec(name, [1, 0], False),
                add(name, [{"content": "zz", "single_word": False, "lstrip": True, "rstrip": False, "normalized": True, "special": False}]), enc(name, [97, 122, 122, 32])]

    def case(load, label, want=None, tl=10):
        steps = load + use()
        ctx.count[label] += 1

        def check(r):
            out = []
            x = r[0]
            big = bool(HUGE.search(bytes.fromhex(load[0].get("config") or load[0].get("file") or "")))
            for s, y in zip(steps, r):
                out += returned(y, json.dumps(s)[:200], big)
            ctx.count["loaded" if x.get("ok") == 1 else "refused"] += 1
            if want == "runtime_error" and x.get("x") not in ("runtime_error", "range_error", "overflow_error"):
                out.append("%s: loading gave %s instead of a std::runtime_error" % (label, show_r(x)))
            if want == "invalid_argument" and x.get("x") != "invalid_argument":
                out.append("%s: loading gave %s instead of std::invalid_argument" % (label, show_r(x)))
            if want == "ok" and x.get("ok") != 1:
                out.append("%s: a valid document was refused: %s" % (label, show_r(x)))
            return out
        return Case(steps, check, tl=tl, key=json.dumps(load))

    def config(b):
        return [{"op": "tok", "as": "t", "config": b.hex()}]

    def work(n, small=False):
        for _ in range(n):
            cfg, alphabet = gen.r_config(rng)
            if cfg["model"] and len(cfg["model"]["vocab"]) > 60 and rng.random() < 0.7:
                cfg["model"]["vocab"] = dict(list(cfg["model"]["vocab"].items())[:30])
            doc = gen.dumps(cfg).encode()
            k = rng.random()
            if k < 0.35:
                yield case(config(mutate(rng, doc)), "damaged documents")
            elif k < 0.8:
                c = restructure(rng, cfg)
                want = "runtime_error" if any(s not in c for s in SECTIONS) and isinstance(c, dict) else None
                d = json.dumps(c, ensure_ascii=gen.flag(rng)).encode()
                if want:
                    ctx.count["absent sections"] += 1
                if d:
                    yield case(config(d), "restructured documents", want)
            elif k < 0.84:
                m = mutate(rng, doc)
                yield case([{"op": "tok", "as": "t", "file": m.hex()}], "files")
            elif k < 0.88:
                yield case(config(nesting(rng)), "deep nesting", tl=20)
            elif k < 0.9:
                d = bytes(rng.randrange(256) for _ in range(rng.randint(1, 60)))
                yield case(config(d), "noise")
            elif k < 0.92:
                cfg["pre_tokenizer"] = {"type": "Split", "pattern": {"Regex": rng.choice(PATTERNS)}, "behavior": "Isolated", "invert": False}
                yield case(config(gen.dumps(cfg).encode()), "bad patterns")
            elif k < 0.94:
                c = dict(cfg)
                c.pop(rng.choice(SECTIONS))
                ctx.count["absent sections"] += 1
                yield case(config(gen.dumps(c).encode()), "one section absent", "runtime_error")
            elif k < 0.95:
                # one section is not JSON
                broken, bad = rng.choice(SECTIONS), rng.choice(BROKEN)
                d = b"{" + b",".join(json.dumps(s).encode() + b":" + (bad if s == broken else json.dumps(v).encode()) for s, v in cfg.items()) + b"}"
                if broken in cfg:
                    yield case(config(d), "broken sections", "runtime_error")
            elif k < 0.97:
                # cut off in the middle: nothing closes the outer object
                cut = rng.randint(1, len(doc) - 1)
                yield case(config(doc[:cut]), "cut documents", "runtime_error")
            else:
                yield case(config(doc), "valid documents", "ok")

    def scaled():
        """documents of up to several megabytes: whole, cut, damaged and restructured"""
        for n in ctx.ladder(4, 8):
            cfg, words = gen.huge_config(rng, n)
            ctx.count["large documents"] += 1
            k = rng.randrange(4)
            if k == 0:
                yield case(config(gen.dumps(cfg).encode()), "large, valid", "ok", 60)
            elif k == 1:
                doc = gen.dumps(cfg).encode()
                yield case(config(doc[:rng.randrange(1, len(doc))]), "large, cut", "runtime_error", 60)
            elif k == 2:
                yield case(config(mutate(rng, gen.dumps(cfg).encode())), "large, damaged", None, 60)
            else:
                yield case(config(json.dumps(restructure(rng, cfg)).encode()), "large, restructured", None, 60)

    def fixed():
        yield case([{"op": "tok", "as": "t", "path": "", "config": ""}], "nothing given", "invalid_argument")
        for p in ("/nonexistent/dir", "/dev/null", "relative/none", "/verif/check.py", "\u0001"):
            yield case([{"op": "tok", "as": "t", "path": hx(p), "config": ""}], "missing files", "runtime_error")
            yield case([{"op": "tok", "as": "t", "path": hx(p), "config": hx("{}")}], "missing files", "runtime_error")
        for d in (b"", b" ", b"\x00", b"{", b"}", b"[", b"null", b"1", b"\"x\"", b"[]", b"{}", b"{\"", b"\xef\xbb\xbf{}", b"\xff\xfe{}", b"{\"model\"", b"{\"model\":}", b"nul",
                  b"{]", b"{\"a\":1"):
            if d:
                yield case(config(d), "tiny documents", "runtime_error")
            yield case([{"op": "tok", "as": "t", "file": d.hex()}], "tiny files", "runtime_error")
        # every prefix of one document, and every single deletion
        cfg, _ = gen.r_config(gen_rng(ctx.seed))
        if cfg["model"]:
            cfg["model"]["vocab"] = dict(list(cfg["model"]["vocab"].items())[:5])
            if "merges" in cfg["model"]:
                cfg["model"]["merges"] = cfg["model"]["merges"][:3]
        doc = gen.dumps(cfg).encode()[:1500 if not ctx.thorough else 6000]
        full = gen.dumps(cfg).encode()
        for i in ctx.mine(range(1, len(doc))):
            yield case(config(full[:i]), "every prefix", "runtime_error" if i < len(full) else None)
            yield case(config(full[:i - 1] + full[i:]), "every deletion")

    def gen_rng(seed):
        import random
        return random.Random("c02/%s" % seed)

    ctx.run(work(ctx.n(9000, 200000)), leak_every=50)
    ctx.run(fixed(), leak_every=50)
    ctx.run(scaled(), leak_every=8, batch=8)
    ctx.sample({"document": json.dumps(restructure(rng, gen.r_config(rng)[0]))[:1200]})
    if shutil.which("valgrind"):
        n0 = ctx.evals
        ctx.run(work(ctx.n(160, 4000)), kind="plain", wrap=VALGRIND, batch=20)
        ctx.count["cases under memcheck"] += ctx.evals - n0


# --------------------------------------------------------------------- C04
def odd_names(rng, cfg):
    """values which name nothing the library knows, or are left empty: looked up in the same tables as the others"""
    name = lambda: rng.choice((None, "", "Nope", "right", "left", "Up", "x" * rng.randint(1, 40)))
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(8)
        if k < 2:
            cfg["truncation"] = dict(cfg["truncation"] or gen.r_truncation(rng), **{rng.choice(("direction", "strategy")): name()})
        elif k < 4:
            cfg["padding"] = dict(cfg["padding"] or gen.r_padding(rng), **{rng.choice(("direction", "strategy")): name()})
        elif k == 4:
            cfg["normalizer"] = {"type": "Sequence", "normalizers": [{"type": rng.choice(("Lowercase", "Nmt", "Precompiled", "Nope"))}, gen.r_simple_normalizer(rng)]}
        elif k == 5:
            cfg["pre_tokenizer"] = rng.choice(({"type": rng.choice(("Whitespace", "Digits", "Metaspace", "Nope"))},
                                               {"type": "Split", "pattern": {"Regex": "[a ]"}, "behavior": name(), "invert": gen.flag(rng)}))
        elif k == 6:
            cfg["decoder"] = {"type": rng.choice(("Metaspace", "CTC", "BPEDecoder", "Nope"))}
        else:
            cfg["post_processor"] = {"type": rng.choice(("BertProcessing", "RobertaProcessing", "Nope"))}
    return cfg


def c04(ctx):
    rng = ctx.rng

    def concurrent_case(threads, calls, own=False, size=0):
        cfg, alphabet = gen.r_config(rng)
        if size:
            gen.tame(rng, cfg, size)
        if rng.random() < 0.5:      # the word cache matters most
            cfg["model"] = gen.r_bpe(rng, alphabet)
            if rng.random() < 0.2:
                cfg["model"]["dropout"] = rng.choice((0.1, 0.5, 0.9))
                ctx.count["dropout"] += 1
        if cfg["model"] is None:
            cfg["model"] = gen.r_wordpiece(rng, alphabet)
        if own and rng.random() < 0.5:
            odd_names(rng, cfg)
            ctx.count["unknown names"] += 1
        cfg2, alphabet2 = gen.r_config(rng)
        texts = [gen.config_text(rng, cfg, alphabet, rng.choice((5, 30))) for _ in range(3)] + [gen.rtext(rng, 20)]
        if size:
            ctx.count["large"] += 1
            texts += [gen.stretch(rng, size, lambda: gen.config_text(rng, cfg, alphabet, 60)) for _ in range(2)]
        if rng.random() < 0.15:
            texts.append(gen.ill(rng, texts[0]))
        nrm, pre = gen.r_simple_normalizer(rng), cfg["pre_tokenizer"] or {"type": "BertPreTokenizer"}
        dcd = gen.r_decoder(rng) or {"type": "ByteLevel", "add_prefix_space": False, "trim_offsets": False, "use_regex": False}
        setup = [tok("t", cfg), tok("u", cfg2), comp("normalizer", "n", nrm), comp("pre_tokenizer", "p", pre), comp("model", "m", cfg["model"]), comp("decoder", "d", dcd)]

        def call():
            k = rng.random()
            t = rng.choice(texts)
            if k < 0.55:
                return enc("t", t, gen.flag(rng))
            if k < 0.62:
                return enc("u", t, gen.flag(rng))
            if k < 0.72:
                return dec("t", [rng.randrange(-1, 50) for _ in range(10)], gen.flag(rng))
            if k < 0.78:
                return {"op": "normalize", "c": "n", "text": t}
            if k < 0.86:
                return {"op": "pretok", "c": "p", "text": t}
            if k < 0.94:
                good = [c for c in t if ref.scalar(c)]
                return {"op": "model", "c": "m", "pieces": [[hx(ref.utf8(good[:8])), None], [hx(ref.utf8(good[8:])), None]]}
            return {"op": "chain", "c": "d", "tokens": [hx(x) for x in rng.sample(["Ġa", "##b", "<0xC3>", "<0xA9>", "é", "▁", " x"], 4)]}
        lists = []
        same = [call() for _ in range(calls)]
        for _ in range(threads):
            # several threads make the same calls at the same time, others their own
            l = list(same) if rng.random() < 0.6 else [call() for _ in range(calls)]
            if rng.random() < 0.3:
                rng.shuffle(l)
            lists.append(l)
        flat = []
        for l in lists:
            for s in l:
                if s not in flat:
                    flat.append(s)
        if own:
            steps = [{"op": "par", "threads": [setup + l for l in lists], "yield": rng.choice((0, 0, 7, 50)), "own": True}] + setup + flat
            head, skip = 0, len(setup)
        else:
            steps = setup + [{"op": "par", "threads": lists, "yield": rng.choice((0, 0, 1, 3, 7, 50))}] + setup + flat
            head, skip = len(setup), 0

        def check(r):
            out = []
            p = r[head]
            ref_at = {json.dumps(s): r[head + 1 + len(setup) + i] for i, s in enumerate(flat)}
            ctx.count["overlapping calls"] += p["overlap"]
            ctx.note(("interleaving", tuple(p["order"]), json.dumps(lists)[:200]))
            if skip:
                for l in p["par"]:
                    if l[:skip] != r[1:1 + skip]:
                        out.append("loading concurrently gave %s, alone %s" % (show_r(l[:skip]), show_r(r[1:1 + skip])))
            for l, got in zip(lists, p["par"]):
                for s, x in zip(l, got[skip:]):
                    ctx.count["calls compared"] += 1
                    w = ref_at[json.dumps(s)]
                    if x != w:
                        out.append("%s gave %s among other threads, %s alone; under %s" % (json.dumps(s)[:300], show_r(x), show_r(w), brief(cfg)))
            return out[:3]
        return Case(steps, check, tl=60 if size else 15)

    def cold():
        for _ in range(ctx.n(160, 2000)):
            ctx.count["first calls of a process"] += 1
            yield concurrent_case(rng.randint(2, 6), rng.randint(1, 3), own=gen.flag(rng))

    def warm():
        for _ in range(ctx.n(600, 12000)):
            yield concurrent_case(rng.randint(2, 8), rng.randint(2, 10), own=rng.random() < 0.15)

    def words():
        """a word cache which several threads fill with thousands of words at once"""
        for _ in range(ctx.n(8, 60)):
            alphabet = gen.r_alphabet(rng)
            cfg = {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [], "normalizer": None,
                   "pre_tokenizer": {"type": "Split", "pattern": {"Regex": " "}, "behavior": "Removed", "invert": False},
                   "post_processor": None, "decoder": None, "model": gen.r_bpe(rng, alphabet)}
            abc = [ord(c) for c in alphabet if c != " "]
            made = [[rng.choice(abc) for _ in range(rng.randint(4, 9))] for _ in range(rng.choice((800, 3000, 11000)))]
            texts = []
            for _ in range(6):
                part = rng.sample(made, len(made) // 3)
                texts.append([c for w in part for c in w + [32]])
            setup = [tok("t", cfg)]
            lists = [[enc("t", t) for t in rng.sample(texts, 3)] for _ in range(rng.randint(3, 8))]
            flat = [enc("t", t) for t in texts]
            steps = setup + [{"op": "par", "threads": lists, "yield": rng.choice((0, 7))}] + flat + setup + flat
            ctx.count["many words"] += len(made)

            def check(r, lists=lists, flat=flat, cfg=cfg):
                out, p, n = [], r[1], len(flat)
                ctx.count["overlapping calls"] += p["overlap"]
                fresh = {json.dumps(s): x for s, x in zip(flat, r[3 + n:])}
                for l, got in zip(lists, p["par"]):
                    for s, x in zip(l, got):
                        ctx.count["calls compared"] += 1
                        if x != fresh[json.dumps(s)]:
                            out.append("thousands of words at once: a result differs from the same call alone under %s" % brief(cfg))
                if r[2:2 + n] != r[3 + n:]:
                    out.append("after thousands of words at once: results differ from those of a fresh tokenizer under %s" % brief(cfg))
                return out[:3]
            yield Case(steps, check, tl=60)

    ctx.run(cold(), kind="tsan", batch=1)
    ctx.run(words(), kind="tsan", batch=4)
    ctx.run((concurrent_case(rng.randint(2, 16), rng.randint(2, 6), size=rng.choice((300, 600, 1100, 1100, 2100))) for _ in range(ctx.n(32, 600))), kind="tsan", batch=8)
    ctx.run(warm(), kind="tsan", batch=40)
    # the same without the race detector: other timings, and address errors
    ctx.run((concurrent_case(rng.randint(2, 8), rng.randint(2, 12)) for _ in range(ctx.n(500, 8000))), kind="asan", batch=40)
    ctx.sample({"threads": "2 to 8", "calls": "2 to 12 each"})


# --------------------------------------------------------------------- C26
def c26(ctx):
    rng = ctx.rng

    def sweep_case(tiny=False):
        cfg, alphabet = gen.r_config(rng)
        # small vocabularies: the number of allocations decides the cost
        m = cfg["model"]
        if m and len(m["vocab"]) > 80:
            cfg["model"] = m = gen.r_wordpiece(rng, alphabet) if m["type"] == "WordPiece" else gen.r_bpe(rng, alphabet, byte_fallback=False)
            if len(m["vocab"]) > 80:
                keep = [k for k in m["vocab"] if not k.startswith("<0x")]
                m["vocab"] = {k: i for i, k in enumerate(keep)}
        if m and "merges" in m:
            m["merges"] = m["merges"][:8]
            m["dropout"] = None
        texts = [gen.config_text(rng, cfg, alphabet, 12), gen.rtext(rng, 8)]
        ids = [rng.randrange(0, 30) for _ in range(6)]
        probes = [enc("t", texts[0]), enc("t", texts[1], False), enc("t", [97, 32, 98]), dec("t", ids, False), dec("t", ids, True)]
        k = rng.random()
        late = r_added_dense(rng, cfg, 3)
        prep = []
        if k < 0.5:
            step, label = enc("t", texts[0] if rng.random() < 0.7 else gen.rtext(rng, 10), gen.flag(rng)), "encode"
        elif k < 0.65:
            step, label = dec("t", [rng.randrange(0, 40) for _ in range(8)], gen.flag(rng)), "decode"
        elif k < 0.85:
            step, label = tok("t", cfg), "load"
            prep = []
        else:
            step, label = add("t", late), "add_tokens"
            prep = [tok("t", cfg)]
            probes = []      # what a partly failed addition leaves is not promised, only that nothing breaks
        first = [tok("t", cfg)]
        check_steps = list(probes)
        if label == "encode":
            check_steps = ([step] if gen.flag(rng) else []) + check_steps
            if rng.random() < 0.6:       # every failure meets a tokenizer that has seen nothing yet
                prep = [tok("t", cfg)]
                ctx.count["cold sweeps"] += 1
        if label == "load":
            check_steps = []
        after = [tok("t", cfg)] + probes if label == "load" else probes
        sweep = {"op": "sweep", "step": step, "check": check_steps, "prepare": prep, "from": rng.randrange(1000), "stride": 0,
                 "limit": 2000 if ctx.thorough else 300 if prep else 400}
        steps = first + probes + [sweep] + after

        def check(r):
            s = r[1 + len(probes)]
            if "total" not in s:
                return ["the sweep failed: " + show_r(s)]
            ctx.count["faults " + label] += s["faults"]
            ctx.count["allocations"] += s["total"]
            ctx.count["absorbed"] += s["swallowed"]
            for kind, n in s["kinds"].items():
                ctx.count["ended with " + kind] += n
            out = []
            if s["wrongtype"]:
                out.append("%s: a failed allocation left as something else than a std::exception: %s" % (label, unhex(s["fw"])[:500]))
            if s["wrongok"]:
                out.append("%s: a failed allocation was ignored and the result is wrong: %s" % (label, unhex(s["fw"])[:700]))
            if s["diff"]:
                out.append("%s: after a failed call the results differ under %s: %s" % (label, brief(cfg), unhex(s["fd"])[:900]))
            a, b = r[1:1 + len(probes)], r[len(r) - len(probes):]
            if probes and a != b:
                out.append("%s: after all failures the results differ under %s: %s and %s" % (label, brief(cfg), show_r(a), show_r(b)))
            return out
        return Case(steps, check, tl=60, key=json.dumps(steps)[:2000])

    def scaled():
        """longer texts and tokenizers with a history, at some of their allocations"""
        for _ in range(ctx.n(64, 600)):
            cfg, alphabet = gen.r_config(rng)
            if rng.random() < 0.6:
                cfg["model"] = gen.r_bpe(rng, alphabet)
            n = rng.choice((300, 600, 1100))
            gen.tame(rng, cfg, n)
            if cfg["model"] and "dropout" in cfg["model"]:
                cfg["model"]["dropout"] = None
            a, b = [gen.stretch(rng, n, lambda: gen.config_text(rng, cfg, alphabet, 60)) for _ in range(2)]
            words = [c for _ in range(n) for c in [ord(rng.choice(alphabet)) for _ in range(5)] + [32]] if gen.flag(rng) else a
            probes = [enc("t", b), enc("t", [97, 32, 98]), dec("t", list(range(30)))]
            steps = [tok("t", cfg), enc("t", words), {"op": "sweep", "step": enc("t", a), "check": [probes[1]], "prepare": [], "from": rng.randrange(1000),
                     "stride": 0, "limit": 25}] + probes + [tok("t", cfg)] + probes
            ctx.count["large"] += 1

            def check(r, cfg=cfg):
                s = r[2]
                if "total" not in s:
                    return ["the sweep failed: " + show_r(s)]
                ctx.count["faults large"] += s["faults"]
                if s["wrongtype"] or s["wrongok"] or s["diff"]:
                    return ["a long text: wrong end or result after a failed allocation under %s: %s %s" % (brief(cfg), unhex(s["fw"])[:400], unhex(s["fd"])[:400])]
                if r[3:6] != r[7:10]:
                    return ["after failures on a long text the results differ under %s: %s and %s" % (brief(cfg), show_r(r[3:6]), show_r(r[7:10]))]
            yield Case(steps, check, tl=60, key=json.dumps(steps)[:2000])

    def illformed():
        """calls which fail on ill-formed text leave no trace"""
        for _ in range(ctx.n(1500, 30000)):
            cfg, alphabet = gen.r_config(rng)
            texts = [gen.config_text(rng, cfg, alphabet, 30), gen.rtext(rng, 20)]
            probes = [enc("t", t, s) for t in texts for s in (True, False)] + [dec("t", [rng.randrange(40) for _ in range(6)])]
            bad = [enc("t", gen.ill(rng, rng.choice(texts)), gen.flag(rng)) for _ in range(3)]
            steps = [tok("t", cfg)] + bad[:1] + probes + bad + probes + [tok("f", cfg)] + [dict(p, t="f") for p in probes]

            def check(r, n=len(probes), cfg=cfg):
                ctx.count["ill-formed calls"] += sum("x" in x for x in r[1:2] + r[2 + n:5 + n])
                a, b, c = r[2:2 + n], r[5 + n:5 + 2 * n], r[6 + 2 * n:]
                if not a == b == c:
                    return ["after calls on ill-formed text the results differ under %s: fresh %s, then %s, then %s" % (brief(cfg), show_r(c), show_r(a), show_r(b))]
            yield Case(steps, check, tl=20, key=json.dumps(steps)[:2000])

    ctx.run((sweep_case() for _ in range(ctx.n(600, 12000))), kind="alloc", leak_every=10, batch=20)
    ctx.run(scaled(), kind="alloc", leak_every=4, batch=8)
    ctx.run(illformed(), leak_every=50)
    ctx.sample({"sweep": "every k-th allocation of one call fails, k = 0, 1, 2, ..."})
