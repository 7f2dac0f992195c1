"""Generators of texts, configurations and component configurations."""
import json
import string

from . import ref

LATIN = "abcdefghijklmnopqrstuvwxyz"
POOLS = {
    "lower": LATIN,
    "upper": LATIN.upper(),
    "digit": "0123456789",
    "punct": string.punctuation,
    "accent": "éèêëàâäçñöüßÀÉÎÕÜÅåøØœŒæÆłŁšŠžŽčČřŘőŐ\u1e9e\u01c4\u01c5\u01c6\u00aa\u00b5\u00b2",
    "multi": "\u1ea4\u1ea5\u01d5\u1e08\u1fa7\u1f82\u0344\u0958\u095f\u0f43\u2adc\ufb1d\ufb2a\U0001d15e\U0001d160"
             "\u212b\u2126\u00c5\u0374\u037e\u0387\u1fc1\u1fee\u2260\u226e\u0439\u0457\u0451",
    "mark": "\u0301\u0300\u0308\u0327\u0323\u0331\u0304\u0345\u0338\u093c\u0e49\u3099\u309a\u0f71\u0f72\u0f74\u05b0\u05bc"
            "\u064b\u0651\u20e3\ufe0f\u0903\u093e\u0488\U0001d165\U0001d16e\u0338\u0334",
    "greek": "αβγδεζηθικλμνξοπρσςτυφχψωΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩάέήίόύώΆΈΉϊΐΰᾳῼ",
    "cyr": "абвгдежзийклмнопрстуфхцчшщъыьэюяАБВГДЕЖЗИЙКЛМНЁёЇїЎў",
    "cjk": "中文字漢字日本語㐀\u4dbf\u4e00\u9fff\uf900\ufa0e\ufaff\U00020000\U0002a6df\U0002a700\U0002b73f\U0002b740\U0002b81f"
           "\U0002b820\U0002ceaf\U0002f800\U0002fa1f",
    "nearcjk": "\u33ff\u4dc0\u4dff\ua000\uf8ff\ufb00\U0001ffff\U0002a6e0\U0002f7ff\U0002fa20\u3007\u3021\u2e80\u2f00",
    "kana": "あいうえおかがきぎゕアイウエオガヴ゛ﾊﾞﾟｱ・ー",
    "hangul": "가각간갇갈한글\ud7a3\u1100\u1161\u11a8\u1112\u1175\u11c2\ua960\ud7b0\u3131\uffa1",
    "emoji": "😀👍🏽👨\u200d👩\u200d👧❤\ufe0f🇮🇳🏳\ufe0f\u200d🌈\U0001f9d1#\ufe0f\u20e3",
    "space": " \t\n\r\u000b\u000c\u0085\u00a0\u1680\u2003\u2009\u2028\u2029\u202f\u205f\u3000",
    "control": "\u0001\u0007\u001b\u007f\u0080\u009f\u00ad\u200b\u200c\u200d\u200e\u2060\ufeff\u061c\U000e0001\U000e0041",
    "odd": "\u0000\ufffd\ufffe\uffff\ufdd0\U0001fffe\U0010ffff\ue000\U000f0000\U00100000\u0378\u05ff\U0001f8ff\U000e01ef",
    "compat": "ﬁﬂﬀ½¼²³㎏㏒ﷺ①⑳㊙ⅷⅣ™℠ℌ㍿ｆｕｌｌ１２！ﾊｶﾞ…‥¨´˙\u1d2c\u2100\U0001d400\U0001d7d8\U0001f100",
    "punct2": "。、「」！？…—–‘’“”«»¿¡§¶·٪؟،፡。〜\u2010\u203f\u2040\uff3f\u00b6\U00010100\U0001e95e\u05be\u0964",
    "symbol": "©®°±×÷€£¥₹←→↑∀∃∑√∞♥★\u02c6\u00b4\u20bf\U0001f3b5",
    "number": "٠١٢३४५๑๒Ⅻ½①\U0001d7ce\u3007\u0bf0\u00b9",
    "upperx": "\U00010400\U00010428\U000118a0\U0001e900\u10a0\u13a0\u1c90\u2c00\ua640\uff21\u24b6\u1e9e\u03f4\u2126",
    "indic": "क्षत्रज्ञआमनमस्तेকোட்டுతెലയാളം\u0dca\u0ddd\u1b06\u1b35\U00011131\U00011127",
    "arabic": "السلامعليكمﻻﻼءأإآؤئ\u0655ًٌ",
    "thai": "สวัสดีกำ\u0e33\u0eb3ไทย",
    "byte": "ĠĊĉčĀāğĠġŃÀÿ¡¬®\u0100\u0143",
    "special": "▁\u2581Ġ</w>##",
}
NAMES = sorted(POOLS)
PLAIN = ("lower", "upper", "digit", "punct")


def ok(c):
    return not ref.newer(c) and c != 0x130


def rchar(rng, pools=NAMES):
    r = rng.random()
    if r < 0.02:
        while True:
            c = rng.randrange(0x110000)
            if ref.scalar(c) and ok(c):
                return c
    if r < 0.05:
        while True:
            c = rng.randrange(0x3100)
            if ok(c):
                return c
    return ord(rng.choice(POOLS[rng.choice(pools)]))


def rtext(rng, maxlen=40, pools=None):
    """a list of scalar values"""
    if pools is None:
        k = rng.random()
        if k < 0.25:
            pools = ["lower", "upper", "space", "punct"]
        elif k < 0.6:
            pools = rng.sample(NAMES, rng.randint(1, 4)) + ["lower"]
        elif k < 0.8:
            pools = rng.sample(NAMES, 3) + ["mark", "mark"]
        else:
            pools = NAMES
    n = rng.choice((0, 1, 1, 2, 3)) if rng.random() < 0.2 else rng.randint(0, maxlen)
    out = []
    while len(out) < n:
        if rng.random() < 0.12:
            out.append(32)
        elif out and rng.random() < 0.08:
            out += out[-rng.randint(1, 3):]
        elif rng.random() < 0.15:
            w = rng.choice(("hello", "don't", "I'm", "we've", "Ünïcödé", "naïve", "[CLS]", "123", "it's", "  ", "x.y",
                            "e\u0301", "A\u030a\u0323", "\u1100\u1161\u11a8", "👨\u200d👩\u200d👧", "\r\n", "do not", "n't"))
            out += [ord(c) for c in w]
        else:
            out.append(rchar(rng, pools))
    return out[:max(n, 1)] if n else []


def ill(rng, text):
    """the text with ill-formed code points put in"""
    text = list(text)
    for _ in range(rng.randint(1, 3)):
        c = rng.choice((0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, -1, -2147483648, 0x1FFFFF,
                        rng.randrange(0xD800, 0xE000), rng.randrange(0x110000, 0x7FFFFFFF)))
        text.insert(rng.randint(0, len(text)), c)
    return text


TURNS = (255, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 20000, 32768, 65536, 100000, 131072, 262144)


def stretch(rng, n, make, unit=900):
    """n items: a stretch of what `make` makes, repeated, with fresh ones at the ends, around round numbers and here and there"""
    def fresh(k):
        out = []
        while len(out) < k:
            out += make() or [97]
        return out[:k]
    if n <= unit:
        return fresh(n)
    base = fresh(unit)
    out = (base * (n // unit + 1))[:n]
    for at in [0, n - 60] + [t - 30 for t in TURNS if t < n] + [rng.randrange(n) for _ in range(6)]:
        at = max(0, min(at, n - 60))
        out[at:at + 60] = fresh(60)
    return out


# ------------------------------------------------------------- components
def flag(rng):
    return rng.random() < 0.5


def r_simple_normalizer(rng):
    t = rng.choice(("NFC", "NFD", "NFKC", "NFKD", "BertNormalizer", "Prepend", "Replace", "Strip", "StripAccents"))
    if t == "BertNormalizer":
        return {"type": t, "clean_text": flag(rng), "handle_chinese_chars": flag(rng),
                "strip_accents": rng.choice((None, True, False)), "lowercase": flag(rng)}
    if t == "Prepend":
        return {"type": t, "prepend": rng.choice(("▁", "", "ab", " ", "\u0301", "😀é", "x"))}
    if t == "Replace":
        p = rng.choice((" ", "a", "ab", "aa", "é", "😀", ".", "(", "aba", "", "\\s"))
        return {"type": t, "pattern": {"String": p}, "content": replacement(rng, p, ("▁", "", "b", "aa", "éé", "😀x", "$1", "a", " "))}
    if t == "Strip":
        return {"type": t, "strip_left": flag(rng), "strip_right": flag(rng)}
    return {"type": t}


def r_normalizer(rng, depth=0):
    k = rng.random()
    if k < 0.15 and depth == 0:
        return None
    if k < 0.45 and depth < 2:
        return {"type": "Sequence", "normalizers": [r_normalizer(rng, depth + 1) for _ in range(rng.randint(0, 3))]}
    return r_simple_normalizer(rng)


LLAMA3 = (r"(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\r\n\p{L}\p{N}]?\p{L}+|\p{N}{1,3}| ?[^\s\p{L}\p{N}]+[\r\n]*|"
          r"\s*[\r\n]+|\s+(?!\S)|\s+")
SPLITS = [ref.GPT2, LLAMA3, r"\s+", r"\p{N}", r"[a-c]+", r"a|ab", r"(a)(b)", r"\p{L}+", r"\p{P}", r"x", r"[^a-z]", r"ab?",
          r"\p{N}{1,3}", r" ", r"\p{M}", r"(?:ab)+", r"\S+", r"[\s\p{P}]+", r"😀+", r"é", r"a*?b"]
NULLABLE = [r"a*", r"\s*", r"", r"(?=a)", r"b?", r"\p{L}*"]


def r_split(rng, nullable=False):
    return {"type": "Split", "pattern": {"Regex": rng.choice(SPLITS + (NULLABLE if nullable else []))},
            "behavior": rng.choice(("Isolated", "Removed", "Isolated")), "invert": rng.random() < 0.3}


def r_bytelevel(rng):
    return {"type": "ByteLevel", "add_prefix_space": flag(rng), "trim_offsets": flag(rng), "use_regex": flag(rng)}


def r_pretokenizer(rng, depth=0):
    k = rng.random()
    if k < 0.12 and depth == 0:
        return None
    if k < 0.35 and depth < 2:
        return {"type": "Sequence",
                "pretokenizers": [r_pretokenizer(rng, depth + 1) for _ in range(rng.randint(0, 3))]}
    return rng.choice((lambda: {"type": "BertPreTokenizer"}, lambda: r_split(rng), lambda: r_bytelevel(rng)))()


def uses(cfg, name):
    """whether a component configuration contains the type"""
    if not isinstance(cfg, dict):
        return False
    if cfg.get("type") == name:
        return True
    return any(uses(x, name) for v in cfg.values() if isinstance(v, list) for x in v)


def find(cfg, name):
    """the components of a type inside a configuration"""
    if not isinstance(cfg, dict):
        return []
    return ([cfg] if cfg.get("type") == name else []) + [f for v in cfg.values() if isinstance(v, list) for x in v for f in find(x, name)]


def replacement(rng, pattern, contents):
    """contents which hold the pattern or a part of it, half of the time"""
    if rng.random() < 0.5 or not pattern:
        return rng.choice(contents)
    return rng.choice((pattern, pattern * 2, "x" + pattern, pattern + "x", pattern + pattern[:1], pattern[:-1], pattern[1:] + "y" + pattern))


def numbered(rng, contents, start=()):
    """vocabulary with dense ids; `start` first"""
    rest = [c for c in contents if c not in start]
    rng.shuffle(rest)
    seq = list(dict.fromkeys(list(start) + rest))
    items = [(c, i) for i, c in enumerate(seq)]
    rng.shuffle(items)
    return dict(items)


def sparse(rng, cfg):
    """ids with gaps, in any order"""
    vocab = cfg["model"]["vocab"]
    ids = rng.sample(range(9 * len(vocab)), len(vocab))
    k = rng.choice((1, 40, 40000)) if len(vocab) < 5000 else 1
    cfg["added_tokens"] = [t for t in cfg["added_tokens"] or [] if t["content"] in vocab]
    cfg["model"]["vocab"] = {t: i * k for t, i in zip(vocab, ids)}


def r_wordpiece(rng, alphabet, words=(), prefix=None):
    prefix = rng.choice(("##", "##", "", "@@", "é", None)) if prefix is None else prefix
    p = prefix or ""
    unk = rng.choice(("[UNK]", "[UNK]", "<unk>", "absent"))
    out = [] if unk == "absent" else [unk]
    for c in alphabet:
        if rng.random() < 0.85:
            out.append(c)
        if rng.random() < 0.85:
            out.append(p + c)
    base = list(words) + ["".join(rng.choice(alphabet) for _ in range(rng.randint(2, 6))) for _ in range(12)]
    for w in base:
        if w:
            i = rng.randrange(len(w))
            j = rng.randint(i + 1, len(w))
            out.append((p if rng.random() < 0.5 else "") + w[i:j])
            if rng.random() < 0.3:
                out.append(w)
    if rng.random() < 0.06:     # an entry no text can match, but which has an id
        out.append("")
    vocab = numbered(rng, out, [] if flag(rng) else out[:1])
    return {"type": "WordPiece", "unk_token": unk, "continuing_subword_prefix": prefix,
            "max_input_chars_per_word": rng.choice((100, 100, 10, 5, 1, 0, 2147483647)), "vocab": vocab}


BYTES_FB = ["<0x%02X>" % b for b in range(256)]


def r_merges(rng, tokens, count, prefix="", pairs=None, limit=12, suffix="</w>"):
    """random merges over the given tokens; extends and returns the token list too"""
    tokens = list(tokens)
    have, seen, merges = set(tokens), set(), []
    for _ in range(count * 3):
        if len(merges) >= count:
            break
        a, b = rng.choice(tokens), rng.choice(tokens)
        if " " in a or " " in b or not b.startswith(prefix) or (a, b) in seen or a.endswith(suffix) or \
                len(a) + len(b) > limit:
            continue
        new = a + b[len(prefix):]
        if len(b) == len(prefix):
            continue
        seen.add((a, b))
        if new not in have:
            have.add(new)
            tokens.append(new)
            if rng.random() < 0.6:
                tokens += [new] * 2     # favours longer chains
        merges.append("%s %s" % (a, b))
    if rng.random() < 0.5:
        rng.shuffle(merges)
    if merges and rng.random() < 0.1:       # listed twice: the lowest rank counts
        for m in rng.sample(merges, min(3, len(merges))):
            merges.insert(rng.randint(merges.index(m) + 1, len(merges)), m)
    return merges, list(dict.fromkeys(tokens))


def r_bpe(rng, alphabet, byte_level=False, **kw):
    if byte_level:
        base = [chr(c) for c in ref.BYTE_CP.values()]
        focus = [chr(ref.BYTE_CP[b]) for b in "".join(alphabet + [" "]).encode()]
        merges, toks = r_merges(rng, focus, rng.randint(0, 40))
        vocab = numbered(rng, base + toks + [""] * (rng.random() < 0.06))
        m = {"type": "BPE", "dropout": None, "unk_token": None, "continuing_subword_prefix": None,
             "end_of_word_suffix": None, "fuse_unk": flag(rng), "byte_fallback": rng.random() < 0.2,
             "ignore_merges": rng.random() < 0.3, "vocab": vocab, "merges": merges}
        m.update(kw)
        return m
    prefix = rng.choice((None, None, None, None, "##", "", rng.choice(("▁", "é@", "😀"))))
    suffix = rng.choice((None, None, None, None, "</w>", "", rng.choice(("▁", "é", "😀"))))
    base = []
    for c in alphabet:
        if c == " ":
            continue
        for v in ([c] if not prefix else [c, prefix + c]):
            for w in ([v] if not suffix else [v, v + suffix]):
                if rng.random() < 0.9:
                    base.append(w)
    if not base:
        base = [alphabet[0]]
    merges, toks = r_merges(rng, base, rng.randint(0, 40), prefix or "", suffix=suffix or "</w>")
    extra = []
    unk = rng.choice((None, "<unk>", "<unk>", "<unk>", "absent"))
    if unk == "<unk>":
        extra.append(unk)
    fb = rng.random() < 0.5
    if fb:
        extra += BYTES_FB if rng.random() < 0.7 else rng.sample(BYTES_FB, 128)
    vocab = numbered(rng, toks + extra + [""] * (rng.random() < 0.06))
    m = {"type": "BPE", "dropout": None, "unk_token": unk, "continuing_subword_prefix": prefix,
         "end_of_word_suffix": suffix, "fuse_unk": flag(rng), "byte_fallback": fb, "ignore_merges": rng.random() < 0.25,
         "vocab": vocab, "merges": merges}
    m.update(kw)
    return m


def r_alphabet(rng, n=None):
    out = [rng.choice(LATIN) for _ in range(n or rng.randint(2, 5))]
    for _ in range(rng.randint(0, 3)):
        out.append(chr(rchar(rng, [rng.choice(("accent", "cjk", "emoji", "greek", "hangul", "mark", "kana", "punct", "upperx",
                                               "special", "byte"))])))
    return list(dict.fromkeys(out))


def alphabet_text(rng, alphabet, maxlen=40, foreign=0.1):
    n = rng.randint(0, maxlen)
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.15:
            out.append(32)
        elif r < 0.15 + foreign:
            out.append(rchar(rng))
        else:
            out.append(ord(rng.choice(alphabet)))
    return out


def long_family(rng, alphabet, hi=300):
    """long words which differ only far from the start, only at the start, or in length"""
    abc = [ord(c) for c in alphabet if c != " "] or [97]
    n = rng.choice([x for x in (7, 8, 15, 16, 23, 24, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513,
                                1023, 1030, 4100) if x <= hi])
    w = [rng.choice(abc) for _ in range(n)]
    out = [w, w + [rng.choice(abc)], w[:-1], w + [rng.choice(abc) for _ in range(rng.randint(2, 9))], w[:-1] + [rng.choice(abc)],
           w[:1 << rng.choice((n.bit_length() - 1, rng.randint(2, max(n.bit_length() - 1, 2))))], [rng.choice(abc)] + w[1:], w[:n // 2] + [rng.choice(abc)] + w[n // 2 + 1:], w[::-1], w[1:], w + w]
    rng.shuffle(out)
    return out[:rng.randint(2, len(out))]


def r_added(rng, vocab, alphabet, n=None, normalized=None):
    out, seen = [], set()
    for _ in range(rng.randint(0, 4) if n is None else n):
        k = rng.random()
        if k < 0.35:
            c = rng.choice(("[CLS]", "[SEP]", "[MASK]", "<s>", "</s>", "<|end|>", "[PAD]"))
        elif k < 0.5 and vocab:
            c = rng.choice(sorted(vocab))
        elif k < 0.75:
            c = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 4)))
        else:
            c = rng.choice(("é", "ab ab", "😀", "A B", "\u4e2d", "Ünï", " x", "a.b", "Ġ", "\U0002b820x", "e\u0301"))
        if c in seen:
            continue
        seen.add(c)
        sp = flag(rng)
        out.append({"content": c, "single_word": rng.random() < 0.3, "lstrip": rng.random() < 0.3,
                    "rstrip": rng.random() < 0.3, "normalized": (not sp if rng.random() < 0.7 else flag(rng))
                    if normalized is None else normalized, "special": sp})
    return out


def added_json(tokens, rng=None):
    return [dict({"id": i}, **t) for i, t in enumerate(tokens)]


def r_truncation(rng):
    mx = rng.choice((0, 1, 2, 3, 5, 8, 13, 30, 512))
    return {"direction": rng.choice(("Right", "Left")), "max_length": mx,
            "strategy": rng.choice(("LongestFirst", "OnlyFirst")),
            "stride": rng.choice((0, 0, 1, 2, max(mx - 1, 0), max(mx - 4, 0), mx))}


def r_padding(rng):
    return {"strategy": rng.choice(("BatchLongest", {"Fixed": rng.choice((0, 1, 4, 10, 17, 40))})),
            "direction": rng.choice(("Right", "Left")), "pad_to_multiple_of": rng.choice((None, 0, 1, 2, 8, 7)),
            "pad_id": rng.choice((0, 7, 50256, -1)), "pad_type_id": rng.choice((0, 1, 3)), "pad_token": rng.choice(("[PAD]", "<pad>", ""))}


def r_template(rng, one_sequence=True):
    names = rng.sample(["[CLS]", "[SEP]", "<s>", "</s>", "é😀", "[X]", "<s>2", "[CLS]é", "x<s>", "<S>", ""] if rng.random() < 0.4 else
                       ["[CLS]", "[SEP]", "<s>", "</s>", "é😀", "[X]"], rng.randint(1, 4))
    sp, single = {}, []
    for n in names:
        k = rng.choice((1, 1, 1, 2, 0))
        sp[n] = {"id": n, "ids": [rng.randrange(200) for _ in range(k)], "tokens": [n + "_%d" % i for i in range(k)]}
    for _ in range(rng.randint(0, 2)):
        single.append({"SpecialToken": {"id": rng.choice(names), "type_id": rng.randint(0, 2)}})
    if rng.random() < 0.95:
        single.append({"Sequence": {"id": "A", "type_id": rng.choice((0, 0, 1, 5))}})
    for _ in range(rng.randint(0, 3)):
        single.append({"SpecialToken": {"id": rng.choice(names + ["missing"]), "type_id": rng.randint(0, 2)}})
    return {"type": "TemplateProcessing", "single": single, "pair": [], "special_tokens": sp}


def big_template(rng):
    """many special tokens, of many ids each, in a long template"""
    count = rng.choice((1, 3, 9, 17, 33, 40, 70, 260))
    names = ["<s%d>" % i for i in range(count)]
    sp = {}
    for n in names:
        k = rng.choice((1, 1, 2, 3, 4, 5, 8, 9, 16, 17, 20))
        sp[n] = {"id": n, "ids": [rng.randrange(100000) for _ in range(k)], "tokens": [n + "_%d" % i for i in range(k)]}
    size = rng.choice((1, 3, 8, 9, 16, 17, 33, 60, 130, 260))
    single = [{"SpecialToken": {"id": rng.choice(names), "type_id": rng.choice((0, 1, 2, 300))}} for _ in range(size)]
    single.insert(rng.randint(0, size), {"Sequence": {"id": "A", "type_id": rng.choice((0, 1, 5, 300))}})
    return {"type": "TemplateProcessing", "single": single, "pair": [], "special_tokens": sp}


def r_post(rng, depth=0, bytelevel=True):
    k = rng.random()
    if k < 0.2 and depth == 0:
        return None
    if k < 0.4 and depth < 2:
        return {"type": "Sequence", "processors": [r_post(rng, depth + 1, bytelevel) for _ in range(rng.randint(0, 2))]}
    if k < 0.5 and bytelevel:
        return {"type": "ByteLevel", "add_prefix_space": flag(rng), "trim_offsets": flag(rng), "use_regex": flag(rng)}
    return r_template(rng)


def r_decoder(rng, depth=0):
    k = rng.random()
    if k < 0.1 and depth == 0:
        return None
    if k < 0.4 and depth < 2:
        return {"type": "Sequence", "decoders": [r_decoder(rng, depth + 1) for _ in range(rng.randint(0, 4))]}
    t = rng.choice(("WordPiece", "ByteLevel", "Replace", "ByteFallback", "Fuse", "Strip"))
    if t == "WordPiece":
        return {"type": t, "prefix": rng.choice(("##", "##", "@@", "é", "")), "cleanup": flag(rng)}
    if t == "Replace":
        p = rng.choice(("▁", "a", "ab", "aa", "", "é", ".", "##"))
        return {"type": t, "pattern": {"String": p}, "content": replacement(rng, p, (" ", "", "aa", "b", "😀"))}
    if t == "Strip":
        return {"type": t, "content": rng.choice((" ", "a", "▁", "é")), "start": rng.choice((0, 1, 2, 5)),
                "stop": rng.choice((0, 1, 2, 5))}
    return {"type": t}


# ------------------------------------------------------------ whole pipelines
def r_config(rng, trim=True):
    """a supported configuration and the alphabet its vocabulary is made of"""
    alphabet = r_alphabet(rng)
    style = rng.choice(("bert", "llama", "gpt2", "llama3", "mix", "mix"))
    cfg = {"version": "1.0", "truncation": r_truncation(rng) if rng.random() < 0.25 else None,
           "padding": r_padding(rng) if rng.random() < 0.25 else None, "added_tokens": [], "normalizer": None,
           "pre_tokenizer": None, "post_processor": None, "decoder": None, "model": None}
    if style == "bert":
        low = flag(rng)
        cfg["normalizer"] = {"type": "BertNormalizer", "clean_text": rng.random() < 0.8,
                             "handle_chinese_chars": rng.random() < 0.8,
                             "strip_accents": rng.choice((None, True, False)), "lowercase": low}
        cfg["pre_tokenizer"] = {"type": "BertPreTokenizer"}
        cfg["model"] = r_wordpiece(rng, alphabet)
        cfg["post_processor"] = r_template(rng)
        cfg["decoder"] = {"type": "WordPiece", "prefix": "##", "cleanup": flag(rng)}
    elif style == "llama":
        cfg["normalizer"] = {"type": "Sequence", "normalizers": [
            {"type": "Prepend", "prepend": "▁"}, {"type": "Replace", "pattern": {"String": " "}, "content": "▁"}]}
        cfg["model"] = r_bpe(rng, alphabet + ["▁"])
        cfg["post_processor"] = r_template(rng)
        cfg["decoder"] = {"type": "Sequence", "decoders": [
            {"type": "Replace", "pattern": {"String": "▁"}, "content": " "}, {"type": "ByteFallback"}, {"type": "Fuse"},
            {"type": "Strip", "content": " ", "start": 1, "stop": 0}]}
    elif style in ("gpt2", "llama3"):
        cfg["normalizer"] = rng.choice((None, {"type": "NFC"}))
        if style == "gpt2":
            cfg["pre_tokenizer"] = r_bytelevel(rng)
        else:
            cfg["pre_tokenizer"] = {"type": "Sequence", "pretokenizers": [
                {"type": "Split", "pattern": {"Regex": LLAMA3}, "behavior": "Isolated", "invert": False},
                {"type": "ByteLevel", "add_prefix_space": False, "trim_offsets": True, "use_regex": False}]}
        cfg["model"] = r_bpe(rng, alphabet, byte_level=True)
        cfg["post_processor"] = rng.choice((None, r_bytelevel(rng), r_template(rng),
                                            {"type": "Sequence", "processors": [r_bytelevel(rng), r_template(rng)]}))
        cfg["decoder"] = r_bytelevel(rng)
    else:
        cfg["normalizer"] = r_normalizer(rng)
        cfg["pre_tokenizer"] = r_pretokenizer(rng)
        bl = uses(cfg["pre_tokenizer"], "ByteLevel") and rng.random() < 0.7
        cfg["model"] = r_bpe(rng, alphabet, byte_level=True) if bl else \
            r_wordpiece(rng, alphabet) if flag(rng) else r_bpe(rng, alphabet)
        cfg["post_processor"] = r_post(rng)
        cfg["decoder"] = r_decoder(rng)
        if rng.random() < 0.03:
            cfg["model"] = None
    if not trim:
        strip_trim(cfg["post_processor"])
    vocab = cfg["model"]["vocab"] if cfg["model"] else {}
    toks = r_added(rng, vocab, alphabet)
    cfg["added_tokens"] = added_json(toks) if rng.random() < 0.95 else None
    return cfg, alphabet


def strip_trim(post):
    if isinstance(post, dict):
        if "trim_offsets" in post:
            post["trim_offsets"] = False
        for p in post.get("processors", []):
            strip_trim(p)


def trims(post):
    return isinstance(post, dict) and (bool(post.get("trim_offsets")) or any(trims(p) for p in post.get("processors", [])))


def config_text(rng, cfg, alphabet, maxlen=40):
    """a text for the configuration: its alphabet, added tokens and foreign characters"""
    k = rng.random()
    if k < 0.15:
        t = rtext(rng, maxlen)
    elif k < 0.2:
        t = []
    else:
        t = alphabet_text(rng, alphabet, maxlen, rng.choice((0, 0.05, 0.3)))
    for a in cfg["added_tokens"] or []:
        for _ in range(rng.choice((0, 0, 1, 1, 2))):
            i = rng.randint(0, len(t))
            c = [ord(x) for x in a["content"]]
            if rng.random() < 0.3:
                c = [32] + c + [32]
            t[i:i] = c
    return t


def fewer_windows(cfg):
    """a stride which keeps the overlapping windows of a long text affordable"""
    tr = cfg["truncation"]
    if tr and isinstance(tr.get("stride"), int) and (tr.get("max_length") or 0) > 8:
        tr["stride"] = min(tr["stride"], tr["max_length"] // 2)


def tame(rng, cfg, n):
    """limits which keep a text of n characters affordable"""
    m = cfg["model"]
    if m and m["type"] == "WordPiece" and n > 1500:
        m["max_input_chars_per_word"] = min(m["max_input_chars_per_word"] or 0, 100)
    tr = cfg["truncation"]
    if tr and n > 200:
        tr["max_length"] = mx = max(rng.choice((n, n // 2, n // 7, n // 60, 1000)), 40)
        tr["stride"] = rng.choice((0, 0, 3, mx // 10, mx // 2))
    pad = cfg["padding"]
    if pad and n > 200:
        if isinstance(pad["strategy"], dict) and flag(rng):
            pad["strategy"]["Fixed"] = rng.choice((300, 1000, n // 2) if tr else (300, n // 2, n + 100))
        if flag(rng):
            pad["pad_to_multiple_of"] = rng.choice((64, 100, 300, 1024))
    return cfg


def many_words(rng, cfg, alphabet, n):
    """a text of n words or more, which the configuration is made to split off"""
    cfg["pre_tokenizer"] = rng.choice((
        {"type": "BertPreTokenizer"}, {"type": "Split", "pattern": {"Regex": "[ ,.]"}, "behavior": rng.choice(("Isolated", "Removed")), "invert": False}))
    if rng.random() < 0.7:
        cfg["truncation"] = None
    if cfg["normalizer"] and rng.random() < 0.7:
        cfg["normalizer"] = rng.choice((None, {"type": "NFC"}))
    abc = [ord(c) for c in alphabet if c.isalnum()] or [97]
    seps = [rng.choice((32, 44, 46)) for _ in range(3)]
    return stretch(rng, n * 2, lambda: [rng.choice(abc), rng.choice(seps)])


def big_case(rng, n, trim=True):
    """a configuration and a text of n characters or more for it"""
    cfg, alphabet = r_config(rng, trim)
    if rng.random() < 0.25:
        cfg["truncation"] = None
    tame(rng, cfg, n)
    if n >= 65000 and rng.random() < 0.7:
        return cfg, alphabet, many_words(rng, cfg, alphabet, n)
    if rng.random() < 0.3:      # nearly as many words as characters
        seps = [rng.choice((32, 44, 46)) for _ in range(3)]
        return cfg, alphabet, stretch(rng, n * 2, lambda: [ord(rng.choice(alphabet)), rng.choice(seps)])
    return cfg, alphabet, stretch(rng, n, lambda: config_text(rng, cfg, alphabet, 60))


def big_wordpiece(rng, n):
    """a vocabulary of n entries"""
    abc = [chr(c) for c in rng.sample(range(0x4E00, 0x9000), max(int(n ** 0.5) + 20, 30))]
    pre = rng.choice(("##", "", "\u9001"))
    names = ["[UNK]"]
    seen = set(names)
    while len(names) < n:
        t = (pre if rng.random() < 0.5 else "") + "".join(rng.choice(abc) for _ in range(rng.choice((1, 2, 2, 2, 3))))
        if t not in seen:
            seen.add(t)
            names.append(t)
    rng.shuffle(names)
    return {"type": "WordPiece", "unk_token": "[UNK]", "continuing_subword_prefix": pre,
            "max_input_chars_per_word": rng.choice((100, 2147483647)), "vocab": {t: i for i, t in enumerate(names)}}


def wordpiece_words(rng, model, n):
    pre, names = model["continuing_subword_prefix"], list(model["vocab"])
    pool = names[-200:] + rng.sample(names, min(n, len(names)))
    words = []
    for t in pool:
        w = t[len(pre):] if t.startswith(pre) else t
        for _ in range(rng.randint(0, 3)):
            u = rng.choice(pool)
            w += u[len(pre):] if pre and u.startswith(pre) else u
        words.append([ord(c) for c in w or "a"])
    return words


def big_bpe(rng, n):
    """n merges over symbols which overlap, so that ranks and ids are large; returns their pairs too"""
    side = max(int((n / 1.6) ** 0.5), 12)
    base = [chr(c) for c in rng.sample(range(0x4E00, 0x9000), side)]
    pairs, seen, toks = [], set(), list(base)
    have = set(toks)
    while len(pairs) < n:
        deep = rng.random() < 0.25 and len(toks) > side
        a = toks[rng.randrange(side, len(toks))] if deep and flag(rng) else rng.choice(base)
        b = toks[rng.randrange(side, len(toks))] if deep else rng.choice(base)
        if (a, b) in seen or len(a + b) > 6:
            continue
        seen.add((a, b))
        pairs.append((a, b))
        if a + b not in have:
            have.add(a + b)
            toks.append(a + b)
    rng.shuffle(pairs)
    names = toks + ["<unk>"]
    rng.shuffle(names)
    return {"type": "BPE", "dropout": None, "unk_token": "<unk>", "continuing_subword_prefix": None, "end_of_word_suffix": None,
            "fuse_unk": flag(rng), "byte_fallback": False, "ignore_merges": False,
            "vocab": {t: i for i, t in enumerate(names)}, "merges": ["%s %s" % p for p in pairs]}, pairs, base


def bpe_words(rng, pairs, base, n):
    words = [[ord(c) for c in "".join(rng.choice(base) for _ in range(rng.randint(2, 14)))] for _ in range(n // 2)]
    firsts = {}
    for i, (a, b) in enumerate(pairs):
        firsts.setdefault(a, []).append(i)
    for _ in range(n - n // 2):     # overlapping pairs of which one is often far down the list
        a, b = pairs[rng.choice((-1 - rng.randrange(min(len(pairs), 400)), rng.randrange(len(pairs))))]
        c = pairs[rng.choice(firsts[b])][1] if b in firsts else rng.choice(base)
        words.append([ord(x) for x in a + b + c])
    return words


def huge_config(rng, n):
    """a tokenizer with n vocabulary entries or merges, and words for it"""
    if flag(rng):
        model = big_wordpiece(rng, n)
        words = wordpiece_words(rng, model, 300)
    else:
        model, pairs, base = big_bpe(rng, n)
        words = bpe_words(rng, pairs, base, 500)
    cfg = {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [], "normalizer": rng.choice((None, {"type": "NFC"})),
           "pre_tokenizer": {"type": "Split", "pattern": {"Regex": " "}, "behavior": "Removed", "invert": False},
           "post_processor": rng.choice((None, r_template(rng))), "decoder": rng.choice((None, {"type": "WordPiece", "prefix": "##", "cleanup": True})),
           "model": model}
    cfg["added_tokens"] = added_json(r_added(rng, {}, ["x", "y"], rng.randint(0, 5)))
    return cfg, words


def variant(rng, cfg, alphabet):
    """a copy of the configuration that differs in one part"""
    cfg = json.loads(json.dumps(cfg))
    m = cfg["model"]
    k = rng.random()
    if m and k < 0.55:
        k = rng.random()
        if k < 0.3:
            ids = list(m["vocab"].values())
            rng.shuffle(ids)
            m["vocab"] = dict(zip(m["vocab"], ids))
        elif k < 0.5 and m.get("merges"):
            if flag(rng):
                rng.shuffle(m["merges"])
            else:
                m["merges"] = m["merges"][:rng.randrange(len(m["merges"]))]
        elif k < 0.7 and len(m["vocab"]) > 2:
            known = sorted(m["vocab"], key=m["vocab"].get)
            del known[rng.randrange(len(known))]
            m["vocab"] = numbered(rng, known)
        else:
            f = rng.choice([x for x in ("unk_token", "continuing_subword_prefix", "end_of_word_suffix", "fuse_unk", "byte_fallback",
                                        "ignore_merges", "max_input_chars_per_word") if x in m])
            m[f] = rng.choice((0, 1, 3, 200)) if f.startswith("max") else not m[f] if isinstance(m[f], bool) else \
                rng.choice((None, "##", "@@", "</w>", "<unk>", "[UNK]", rng.choice(sorted(m["vocab"]) or ["x"])))
    else:
        f = rng.choice(("normalizer", "pre_tokenizer", "post_processor", "decoder", "added_tokens", "truncation", "padding"))
        cfg[f] = {"normalizer": r_normalizer, "pre_tokenizer": r_pretokenizer, "post_processor": r_post, "decoder": r_decoder,
                  "truncation": r_truncation, "padding": r_padding,
                  "added_tokens": lambda r: added_json(r_added(r, m["vocab"] if m else {}, alphabet, 3))}[f](rng)
    return cfg


def dumps(cfg):
    return json.dumps(cfg, ensure_ascii=False)
