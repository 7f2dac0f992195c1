"""Independent reference models of the tokenization pipeline.

Texts are lists of code points.  A character of a processed text is a tuple
(cp, lo, hi, exact): exact characters come from exactly the source range
[lo, hi); the others were made from somewhere inside it.
"""
import heapq
import re
import unicodedata as ud
from functools import lru_cache

WHITE = frozenset(list(range(9, 14)) + [0x20, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) +
                  [0x2028, 0x2029, 0x202F, 0x205F, 0x3000])
# assigned after Unicode 15.0 (the version of this Python)
NEWER = [(0x2FFC, 0x2FFF), (0x31EF, 0x31EF), (0x2EBF0, 0x2EE5D)]


def newer(c):
    return any(a <= c <= b for a, b in NEWER)


def scalar(c):
    return 0 <= c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF


@lru_cache(maxsize=None)
def cat(c):
    return ud.category(chr(c))


def utf8(cps):
    return "".join(map(chr, cps)).encode("utf-8")


def source(text):
    return [(c, i, i + 1, True) for i, c in enumerate(text)]


def cps_of(chars):
    return [c[0] for c in chars]


# ------------------------------------------------------------ normalizers
def _seconds():
    out = set(range(0x1161, 0x1176)) | set(range(0x11A8, 0x11C3))
    for c in range(0x110000):
        if 0xAC00 <= c <= 0xD7A3 or 0xD800 <= c <= 0xDFFF:
            continue
        d = ud.decomposition(chr(c))
        if d and not d.startswith("<"):
            p = d.split()
            if len(p) == 2:
                out.add(int(p[1], 16))
    return out


SECONDS = _seconds()


@lru_cache(maxsize=None)
def starts_cluster(c):
    d = ord(ud.normalize("NFKD", chr(c))[0])
    return ud.combining(chr(d)) == 0 and d not in SECONDS and \
        ud.combining(chr(c)) == 0 and c not in SECONDS


def norm_form(form, chars):
    out = []
    i, n = 0, len(chars)
    while i < n:
        j = i + 1
        while j < n and not starts_cluster(chars[j][0]):
            j += 1
        seg = cps_of(chars[i:j])
        res = [ord(x) for x in ud.normalize(form, "".join(map(chr, seg)))]
        if res == seg:
            out += chars[i:j]
        else:
            lo = min(c[1] for c in chars[i:j])
            hi = max(c[2] for c in chars[i:j])
            out += [(c, lo, hi, False) for c in res]
        i = j
    return out


CJK = [(0x4E00, 0x9FFF), (0x3400, 0x4DBF), (0x20000, 0x2A6DF), (0x2A700, 0x2B73F), (0x2B740, 0x2B81F),
       (0x2B820, 0x2CEAF), (0xF900, 0xFAFF), (0x2F800, 0x2FA1F)]


def is_cjk(c):
    return any(a <= c <= b for a, b in CJK)


def lower(c):
    s = chr(c).lower()
    return ord(s) if len(s) == 1 else 0x69   # only U+0130


def bert(chars, clean, chinese, strip, low):
    if clean:
        out = []
        for c in chars:
            cp = c[0]
            if cp in (9, 10, 13):
                out.append((32,) + c[1:])
            elif cp in (0, 0xFFFD) or cat(cp)[0] == "C":
                continue
            elif cp in WHITE:
                out.append((32,) + c[1:])
            else:
                out.append(c)
        chars = out
    if chinese:
        out = []
        for c in chars:
            if is_cjk(c[0]):
                sp = (32, c[1], c[2], False)
                out += [sp, c, sp]
            else:
                out.append(c)
        chars = out
    if strip:
        chars = [c for c in norm_form("NFD", chars) if cat(c[0]) != "Mn"]
    if low:
        chars = [(lower(c[0]),) + c[1:] for c in chars]
    return chars


def normalize(cfg, chars):
    """cfg: the configuration (dict) or None."""
    if cfg is None:
        return chars
    t = cfg["type"]
    if t == "Sequence":
        for n in cfg["normalizers"]:
            chars = normalize(n, chars)
        return chars
    if t in ("NFC", "NFD", "NFKC", "NFKD"):
        return norm_form(t, chars)
    if t == "BertNormalizer":
        sa = cfg["strip_accents"]
        lo = bool(cfg["lowercase"])
        return bert(chars, bool(cfg["clean_text"]), bool(cfg["handle_chinese_chars"]), lo if sa is None else sa, lo)
    if t == "Prepend":
        if not chars:
            return chars
        f = chars[0]
        return [(ord(c), f[1], f[2], False) for c in cfg["prepend"]] + chars
    if t == "Replace":
        pat = [ord(c) for c in cfg["pattern"]["String"]]
        if not pat:
            return chars
        new = [ord(c) for c in cfg["content"]]
        out, i, cps = [], 0, cps_of(chars)
        while i < len(chars):
            if cps[i:i + len(pat)] == pat:
                m = chars[i:i + len(pat)]
                ex = len(new) == 1 and all(c[3] for c in m)
                lo, hi = min(c[1] for c in m), max(c[2] for c in m)
                out += [(c, lo, hi, ex) for c in new]
                i += len(pat)
            else:
                out.append(chars[i])
                i += 1
        return out
    if t == "Strip":
        i, j = 0, len(chars)
        if cfg["strip_left"]:
            while i < j and chars[i][0] in WHITE:
                i += 1
        if cfg["strip_right"]:
            while j > i and chars[j - 1][0] in WHITE:
                j -= 1
        return chars[i:j]
    if t == "StripAccents":
        return [c for c in chars if cat(c[0])[0] != "M"]
    return chars    # unsupported types are ignored


# ---------------------------------------------------------- pre-tokenizers
def _ranges(pred):
    out, start = [], None
    for c in range(0x110001):
        ok = c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF and pred(c)
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            out.append((start, c - 1))
            start = None
    return "".join("\\U%08x-\\U%08x" % r for r in out)


_classes = {}


def _cls(letter):
    if letter not in _classes:
        _classes[letter] = _ranges(lambda c: ud.category(chr(c))[0] == letter)
    return _classes[letter]


_WS = "".join("\\U%08x" % c for c in sorted(WHITE))


@lru_cache(maxsize=None)
def py_regex(pattern):
    """The Python regular expression equivalent to an ICU one (for the patterns this suite uses)."""
    out, depth, i = [], 0, 0
    while i < len(pattern):
        p3 = pattern[i:i + 5]
        ch = pattern[i]
        if p3.startswith("\\p{") and p3.endswith("}"):
            c = _cls(p3[3])
            out.append(c if depth else "[" + c + "]")
            i += 5
            continue
        if ch == "\\":
            two = pattern[i:i + 2]
            if two == "\\s":
                out.append(_WS if depth else "[" + _WS + "]")
            elif two == "\\S":
                assert not depth
                out.append("[^" + _WS + "]")
            else:
                out.append(two)
            i += 2
            continue
        if ch == "[":
            depth += 1
        elif ch == "]":
            depth -= 1
        out.append(ch)
        i += 1
    return re.compile("".join(out))


GPT2 = r"'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+"


def regex_matches(pattern, cps):
    return [m.span() for m in py_regex(pattern).finditer("".join(map(chr, cps)))]


class Piece:
    __slots__ = ("chars", "tok")

    def __init__(self, chars, tok=None):
        self.chars = chars
        self.tok = tok      # id of the added token, if it is one

    def text(self):
        return utf8(cps_of(self.chars))


def split_by(pieces, matcher, isolated, invert=False):
    out = []
    for p in pieces:
        if p.tok is not None:
            out.append(p)
            continue
        spans, cur = [], 0
        for a, b in matcher(cps_of(p.chars)):
            if a > cur:
                spans.append((cur, a, False))
            spans.append((a, b, True))
            cur = b
        if cur < len(p.chars):
            spans.append((cur, len(p.chars), False))
        for a, b, m in spans:
            if a < b and (isolated or m == bool(invert)):
                out.append(Piece(p.chars[a:b]))
    return out


def is_bert_punct(c):
    return 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126 or cat(c)[0] == "P"


def _runs(cps, pred):
    out, i = [], 0
    while i < len(cps):
        if pred(cps[i]):
            j = i
            while j < len(cps) and pred(cps[j]):
                j += 1
            out.append((i, j))
            i = j
        else:
            i += 1
    return out


def _byte_alphabet():
    good = list(range(33, 127)) + list(range(0xA1, 0xAD)) + list(range(0xAE, 0x100))
    m, n = {}, 0
    for b in range(256):
        if b in good:
            m[b] = b
        else:
            m[b] = 256 + n
            n += 1
    return m


BYTE_CP = _byte_alphabet()
CP_BYTE = {v: k for k, v in BYTE_CP.items()}


def pretokenize(cfg, pieces):
    if cfg is None:
        return pieces
    t = cfg["type"]
    if t == "Sequence":
        for c in cfg["pretokenizers"]:
            pieces = pretokenize(c, pieces)
        return pieces
    if t == "BertPreTokenizer":
        pieces = split_by(pieces, lambda s: _runs(s, lambda c: c in WHITE), False)
        return split_by(pieces, lambda s: [(i, i + 1) for i, c in enumerate(s) if is_bert_punct(c)], True)
    if t == "Split":
        return split_by(pieces, lambda s: regex_matches(cfg["pattern"]["Regex"], s), cfg["behavior"] == "Isolated",
                        cfg["invert"])
    if t == "ByteLevel":
        out = []
        for p in pieces:
            if p.tok is None and cfg["add_prefix_space"] and p.chars and p.chars[0][0] != 32:
                f = p.chars[0]
                p = Piece([(32, f[1], f[2], False)] + p.chars)
            out.append(p)
        pieces = out
        if cfg["use_regex"]:
            pieces = split_by(pieces, lambda s: regex_matches(GPT2, s), True)
        out = []
        for p in pieces:
            if p.tok is None:
                p = Piece([(BYTE_CP[b],) + c[1:] for c in p.chars for b in chr(c[0]).encode("utf-8")])
            out.append(p)
        return [p for p in out if p.chars]
    return pieces


# ------------------------------------------------------------------ models
class Tok:
    __slots__ = ("id", "value", "chars", "word", "type", "special", "att", "off")

    def __init__(self, id, value, chars, word=None, type=0, special=0, att=1, off=None):
        self.id, self.value, self.chars = id, value, chars
        self.word, self.type, self.special, self.att = word, type, special, att
        self.off = off      # fixed offsets, for template and padding tokens

    def copy(self, **kw):
        t = Tok(self.id, self.value, self.chars, self.word, self.type, self.special, self.att, self.off)
        for k, v in kw.items():
            setattr(t, k, v)
        return t


def wordpiece(model, cps):
    """list of (id, value, i, j)"""
    vocab, unk = model["vocab"], model["unk_token"] or ""
    prefix = model["continuing_subword_prefix"] or ""
    whole = [(vocab.get(unk, 0), unk, 0, len(cps))]
    limit = model["max_input_chars_per_word"]
    if len(cps) > (limit or 0):
        return whole
    s = "".join(map(chr, cps))
    out, i = [], 0
    longest = longest_name(model) if len(s) > 40 else len(s)
    while i < len(s):
        for j in range(min(len(s), i + longest), i, -1):
            v = (prefix if i else "") + s[i:j]
            if v in vocab:
                out.append((vocab[v], v, i, j))
                i = j
                break
        else:
            return whole
    return out


_longest = {}


def longest_name(model):
    key = id(model)
    if key not in _longest or _longest[key][0] is not model or _longest[key][1] != len(model["vocab"]):
        if len(_longest) > 64:
            _longest.clear()
        _longest[key] = (model, len(model["vocab"]), max(map(len, model["vocab"]), default=0))
    return _longest[key][2]


_merge_cache = {}


def merge_table(model):
    key = id(model)
    if key in _merge_cache and _merge_cache[key][0] is model:
        return _merge_cache[key][1]
    vocab, prefix = model["vocab"], model["continuing_subword_prefix"] or ""
    table = {}
    for rank, m in enumerate(model["merges"]):
        a, b = m.split(" ", 1)
        new = a + b[len(prefix):]
        if a in vocab and b in vocab and new in vocab:
            table.setdefault((vocab[a], vocab[b]), (rank, vocab[new]))
    names = {v: k for k, v in vocab.items()}
    if len(_merge_cache) > 64:
        _merge_cache.clear()
    _merge_cache[key] = (model, (table, names))
    return table, names


def bpe(model, cps, dropout_all=False):
    vocab = model["vocab"]
    table, names = merge_table(model)
    s = "".join(map(chr, cps))
    if model["ignore_merges"] and not model["dropout"] and s in vocab:
        return [(vocab[s], s, 0, len(s))]
    prefix, suffix = model["continuing_subword_prefix"] or "", model["end_of_word_suffix"] or ""
    unk = model["unk_token"]
    syms, pending = [], None        # [id, i, j]

    def flush():
        nonlocal pending
        if pending:
            syms.append(pending)
            pending = None
    for i, ch in enumerate(s):
        v = (prefix if i else "") + ch + (suffix if i == len(s) - 1 else "")
        if v in vocab:
            flush()
            syms.append([vocab[v], i, i + 1])
            continue
        if model["byte_fallback"]:
            bs = ["<0x%02X>" % b for b in ch.encode("utf-8")]
            if all(b in vocab for b in bs):
                flush()
                syms += [[vocab[b], i, i + 1] for b in bs]
                continue
        if unk and unk in vocab:
            if pending and model["fuse_unk"]:
                pending[2] = i + 1
            else:
                flush()
                pending = [vocab[unk], i, i + 1]
    flush()
    if len(syms) > 40 and not dropout_all:
        syms, dropout_all = merge_many(syms, table), True
    while not dropout_all:
        best = None
        for k in range(len(syms) - 1):
            m = table.get((syms[k][0], syms[k + 1][0]))
            if m and (best is None or m[0] < best[0]):
                best = (m[0], k, m[1])
        if best is None:
            break
        _, k, new = best
        syms[k:k + 2] = [[new, syms[k][1], syms[k + 1][2]]]
    return [(x, names[x], i, j) for x, i, j in syms]


def merge_many(syms, table):
    """the same merging for a long word: the lowest rank first, the leftmost of equals"""
    ids = [x[0] for x in syms]
    nxt = list(range(1, len(syms))) + [None]
    prv = [None] + list(range(len(syms) - 1))
    heap = []

    def offer(k):
        if k is not None and nxt[k] is not None:
            m = table.get((ids[k], ids[nxt[k]]))
            if m:
                heapq.heappush(heap, (m[0], k, ids[k], ids[nxt[k]], m[1]))
    for k in range(len(syms)):
        offer(k)
    while heap:
        _, k, a, b, new = heapq.heappop(heap)
        if ids[k] != a or nxt[k] is None or ids[nxt[k]] != b:
            continue
        n = nxt[k]
        ids[k], ids[n], nxt[k] = new, None, nxt[n]
        if nxt[k] is not None:
            prv[nxt[k]] = k
        offer(k)
        offer(prv[k])
    out, k = [], 0 if syms else None
    while k is not None:
        end = nxt[k] if nxt[k] is not None else len(syms)
        out.append([ids[k], syms[k][1], syms[end - 1][2]])
        k = nxt[k]
    return out


def model_tokens(model, cps):
    if model["type"] == "WordPiece":
        return wordpiece(model, cps)
    return bpe(model, cps, dropout_all=model["dropout"] == 1.0)


# ---------------------------------------------------------- added vocabulary
def is_word(c):
    k = cat(c)
    return k[0] in "LM" or k in ("Nl", "Nd", "Pc") or c in (0x200C, 0x200D) or 0x24B6 <= c <= 0x24E9 or \
        0x1F130 <= c <= 0x1F149 or 0x1F150 <= c <= 0x1F169 or 0x1F170 <= c <= 0x1F189


class Added:
    """tokens: dicts content, single_word, lstrip, rstrip, normalized, special."""

    def __init__(self, cfg):
        self.model_vocab = cfg["model"]["vocab"] if cfg["model"] else {}
        self.normalizer = cfg["normalizer"]
        self.ids, self.flags, self.special = {}, {}, set()
        self.by_id = {}
        self._tries = None
        self.top = max(self.model_vocab.values(), default=-1)

    def add(self, tokens):
        n = 0
        for t in tokens:
            if not t["content"]:
                continue
            n += 1
            c = t["content"]
            if c in self.ids:
                i = self.ids[c]
            elif c in self.model_vocab:
                i = self.model_vocab[c]
            else:
                i = self.top + 1
            self.top = max(self.top, i)
            self.ids[c] = i
            self.flags[c] = t
            self.by_id[i] = c
            if t["special"]:
                self.special.add(c)
        self._tries = None
        return n

    def tries(self):
        if self._tries is None:
            raw, norm = [], []
            for c, t in self.flags.items():
                cps = [ord(x) for x in c]
                if t["normalized"]:
                    cps = cps_of(normalize(self.normalizer, source(cps)))
                if cps:
                    (norm if t["normalized"] else raw).append((cps, c))
            for l in (raw, norm):
                l.sort(key=lambda x: -len(x[0]))
            self._tries = []
            for l in (raw, norm):
                first = {}
                for k, c in l:
                    first.setdefault(k[0], []).append((k, c))
                self._tries.append(first)
        return self._tries

    def find(self, cps, which):
        """list of (start, stop, content or None) covering cps"""
        first = self.tries()[which]
        out, done, i, n = [], 0, 0, len(cps)
        while i < n:
            hit = None
            for k, c in first.get(cps[i], ()):
                if cps[i:i + len(k)] != k:
                    continue
                f = self.flags[c]
                a, b = i, i + len(k)
                if f["single_word"] and ((a > 0 and is_word(cps[a - 1])) or (b < n and is_word(cps[b]))):
                    continue
                if f["lstrip"]:
                    while a > done and cps[a - 1] in WHITE:
                        a -= 1
                if f["rstrip"]:
                    while b < n and cps[b] in WHITE:
                        b += 1
                hit = (a, b, c)
                break
            if hit:
                if hit[0] > done:
                    out.append((done, hit[0], None))
                out.append(hit)
                i = done = hit[1]
            else:
                i += 1
        if done < n:
            out.append((done, n, None))
        return out

    def extract(self, text):
        chars = source(text)
        pieces = []
        for a, b, c in self.find(text, 0):
            if c is not None:
                pieces.append(Piece(chars[a:b], self.ids[c]))
                continue
            sub = normalize(self.normalizer, chars[a:b])
            for x, y, d in self.find(cps_of(sub), 1):
                pieces.append(Piece(sub[x:y], None if d is None else self.ids[d]))
        return pieces


# -------------------------------------------------- truncation, templates, pad
def truncate(cfg, toks, reserved=0):
    """list of windows, the main one first; raises ValueError as the library does"""
    mx = max((cfg["max_length"] or 0) - reserved, 0)
    n = len(toks)
    if n <= mx:
        return [toks]
    if mx == 0:
        return [[], toks]
    if cfg["strategy"] not in ("LongestFirst", "OnlyFirst"):
        return [toks]
    stride = cfg["stride"] or 0
    if stride < 0 or stride >= mx:
        raise ValueError("stride")
    step, out = mx - stride, []
    if cfg["direction"] != "Left":
        a = 0
        while True:
            out.append(toks[a:a + mx])
            if a + mx >= n:
                break
            a += step
    else:
        b = n
        while True:
            out.append(toks[max(b - mx, 0):b])
            if b - mx <= 0:
                break
            b -= step
    return out


def template_reserved(cfg):
    if cfg is None:
        return 0
    if cfg["type"] == "Sequence":
        return sum(template_reserved(p) for p in cfg["processors"])
    if cfg["type"] != "TemplateProcessing":
        return 0
    sp = {s["id"]: s for s in cfg["special_tokens"].values()}
    return sum(len(sp[p["SpecialToken"]["id"]]["ids"]) for p in cfg["single"]
               if "SpecialToken" in p and p["SpecialToken"]["id"] in sp)


def postprocess(cfg, toks, special):
    if cfg is None:
        return toks
    t = cfg["type"]
    if t == "Sequence":
        for p in cfg["processors"]:
            toks = postprocess(p, toks, special)
        return toks
    if t != "TemplateProcessing":
        return toks     # ByteLevel: offsets are checked separately
    sp = {s["id"]: s for s in cfg["special_tokens"].values()}
    out = []
    for p in cfg["single"]:
        if "Sequence" in p:
            out += [x.copy(type=p["Sequence"]["type_id"]) for x in toks]
        elif special and p["SpecialToken"]["id"] in sp:
            s = sp[p["SpecialToken"]["id"]]
            out += [Tok(i, v, None, None, p["SpecialToken"]["type_id"], 1, 1, (0, 0))
                    for i, v in zip(s["ids"], s["tokens"])]
    return out


def pad_target(cfg, n):
    s = cfg["strategy"]
    target = s["Fixed"] if isinstance(s, dict) else n
    m = cfg["pad_to_multiple_of"]
    if m and m > 0 and target % m:
        target += m - target % m
    return target


def pad(cfg, toks, target):
    k = target - len(toks)
    if k <= 0:
        return toks
    ps = [Tok(cfg["pad_id"], cfg["pad_token"], None, "pad", cfg["pad_type_id"], 1, 0, (0, 0)) for _ in range(k)]
    return ps + toks if cfg["direction"] == "Left" else toks + ps


class RefTokenizer:
    def __init__(self, cfg):
        self.cfg = cfg
        self.added = Added(cfg)
        self.added.add(cfg["added_tokens"] or [])

    def pieces(self, text):
        return pretokenize(self.cfg["pre_tokenizer"], self.added.extract(text))

    def tokens(self, text):
        out = []
        for w, p in enumerate(self.pieces(text)):
            if p.tok is not None:
                out.append(Tok(p.tok, p.text().decode(), p.chars, w))
            elif self.cfg["model"] and p.chars:
                for i, v, a, b in model_tokens(self.cfg["model"], cps_of(p.chars)):
                    out.append(Tok(i, v, p.chars[a:b], w))
        return out

    def encode(self, text, special=True):
        """list of parts, the main one first, each a list of Tok"""
        cfg = self.cfg
        parts = [self.tokens(text)]
        if cfg["truncation"]:
            parts = truncate(cfg["truncation"], parts[0], template_reserved(cfg["post_processor"]) if special else 0)
        parts = [postprocess(cfg["post_processor"], p, special) for p in parts]
        if cfg["padding"]:
            target = pad_target(cfg["padding"], len(parts[0]))
            parts = [pad(cfg["padding"], p, target) for p in parts]
        return parts

    def decode(self, ids, skip=True):
        names = {v: k for k, v in self.added.model_vocab.items()}
        toks = []
        for i in ids:
            t = self.added.by_id.get(i, names.get(i))
            if t is None or (skip and t in self.added.special):
                continue
            toks.append(t.encode())
        d = self.cfg["decoder"]
        return b" ".join(toks) if d is None else b"".join(decode_chain(d, toks))


# ---------------------------------------------------------------- decoders
CLEANUP = [(b" .", b"."), (b" ?", b"?"), (b" !", b"!"), (b" ,", b","), (b" ' ", b"'"), (b" n't", b"n't"),
           (b" 'm", b"'m"), (b" do not", b" don't"), (b" 's", b"'s"), (b" 've", b"'ve"), (b" 're", b"'re")]


def decode_chain(cfg, toks):
    """tokens are byte strings"""
    t = cfg["type"]
    if t == "Sequence":
        for d in cfg["decoders"]:
            toks = decode_chain(d, toks)
        return toks
    if t == "WordPiece":
        pre, out = (cfg["prefix"] or "").encode(), []
        for i, k in enumerate(toks):
            if i:
                k = k[len(pre):] if k.startswith(pre) else b" " + k
            if cfg["cleanup"]:
                for a, b in CLEANUP:
                    k = k.replace(a, b)
            out.append(k)
        return out
    if t == "Replace":
        p, c = cfg["pattern"]["String"].encode(), cfg["content"].encode()
        return [k.replace(p, c) if p else k for k in toks]
    if t == "Fuse":
        return [b"".join(toks)]
    if t == "Strip":
        c, out = cfg["content"].encode(), []
        for k in toks:
            n = cfg["start"]
            while c and n > 0 and k.startswith(c):
                k, n = k[len(c):], n - 1
            n = cfg["stop"]
            while c and n > 0 and k.endswith(c):
                k, n = k[:len(k) - len(c)], n - 1
            out.append(k)
        return out
    if t == "ByteFallback":
        out, run = [], b""

        def flush():
            nonlocal run
            if run:
                try:
                    run.decode("utf-8")
                    out.append(run)
                except UnicodeDecodeError:
                    out.append("\ufffd".encode() * len(run))
                run = b""
        for k in toks:
            m = re.fullmatch(rb"<0x([0-9a-fA-F]{2})>", k)
            if m:
                run += bytes([int(m.group(1), 16)])
            else:
                flush()
                out.append(k)
        flush()
        return out
    if t == "ByteLevel":
        out = b""
        for k in toks:
            try:
                out += bytes(CP_BYTE[ord(c)] for c in k.decode("utf-8"))
            except (KeyError, UnicodeDecodeError):
                out += k
        return [out]
    return toks
