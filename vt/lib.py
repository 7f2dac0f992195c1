"""Small helpers shared by the workloads."""
import json
import zlib

from .run import Case, hx, jhex, unhex
from . import ref


# what null stands for where a document may leave an option open
NULLS = {k: False for k in ("fuse_unk", "byte_fallback", "ignore_merges", "clean_text", "handle_chinese_chars", "lowercase", "strip_left",
                            "strip_right", "add_prefix_space", "use_regex", "trim_offsets", "cleanup", "invert")}
NULLS.update({"unk_token": "", "continuing_subword_prefix": "", "end_of_word_suffix": "", "prefix": "", "dropout": 0.0, "stride": 0,
              "pad_to_multiple_of": 0, "pad_id": 0, "pad_type_id": 0})
TOKEN_DEFAULTS = {"single_word": False, "lstrip": False, "rstrip": False, "normalized": True, "special": False}


def unwritten(cfg):
    """the same configuration with some options that have their default value written as null, or (added tokens) not at all"""
    h = zlib.crc32(repr([(k, v if k not in ("model", "added_tokens") else len(v or ())) for k, v in cfg.items()]).encode())
    if h % 3:
        return cfg

    def walk(o, depth=0):
        if isinstance(o, dict):
            return {k: v if k in ("vocab", "merges", "special_tokens") else
                    None if k in NULLS and v is not None and v == NULLS[k] and type(v) is type(NULLS[k]) and (h >> len(k)) % 2 else
                    walk(v, depth + 1) for k, v in o.items()}
        return [walk(x, depth + 1) for x in o] if isinstance(o, list) and depth < 20 else o
    out = {k: v if k == "added_tokens" else walk(v) for k, v in cfg.items()} if "added_tokens" in cfg else walk(cfg)
    if isinstance(cfg.get("added_tokens"), list):
        out["added_tokens"] = [{k: v for k, v in t.items() if not (k in TOKEN_DEFAULTS and v is TOKEN_DEFAULTS[k] and (h >> i + len(k)) % 2)}
                               if isinstance(t, dict) else t for i, t in enumerate(cfg["added_tokens"])] if len(cfg["added_tokens"]) < 3000 \
            else cfg["added_tokens"]
    return out


def comp(kind, name, cfg):
    return {"op": "comp", "kind": kind, "as": name, "config": jhex(unwritten(cfg) if isinstance(cfg, dict) else cfg)}


def tok(name, cfg):
    return {"op": "tok", "as": name, "config": jhex(unwritten(cfg)) if isinstance(cfg, dict) else cfg}


def enc(name, text, sp=True):
    return {"op": "enc", "t": name, "text": text, "sp": sp}


def dec(name, ids, skip=True):
    return {"op": "dec", "t": name, "ids": ids, "skip": skip}


def add(name, tokens, special=False):
    return {"op": "add", "t": name, "special": special,
            "tokens": [[t.get("id", 0), hx(t["content"]), t["single_word"], t["lstrip"], t["rstrip"], t["normalized"],
                        t["special"]] for t in tokens]}


def normalize(name, text):
    return {"op": "normalize", "c": name, "text": text}


def show(cps, n=60):
    s = " ".join("%04X" % c if c >= 0 else str(c) for c in cps[:n])
    return s + (" .. (%d)" % len(cps) if len(cps) > n else "")


def show_r(r):
    t = json.dumps(r)
    return t if len(t) < 600 else t[:600] + "..."


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def diff(what, want, got):
    i = first_diff(want, got)
    return "%s: at %d expected [%s] got [%s] (lengths %d/%d)" % (
        what, i, show(want[max(i - 3, 0):i + 6]), show(got[max(i - 3, 0):i + 6]), len(want), len(got))


def splits_of(r):
    """[(text bytes, start, stop, tokens)] of a pre-tokenized result"""
    return [(unhex(p["n"]), p["o"][0], p["o"][1], p["k"]) for p in r["p"]["p"]]


def code_points(thorough, assigned_extra=4):
    """every scalar value (thorough) or every assigned one outside the private planes, plus a sample of the rest"""
    out = []
    for c in range(0x110000):
        if not ref.scalar(c) or ref.newer(c):
            continue
        if thorough:
            out.append(c)
            continue
        k = ref.cat(c)
        if k in ("Cn", "Co"):
            if c % 257 == 0 or c & 0xFFFE == 0xFFFE or ref.cat(c - 1) not in ("Cn", "Co", "Cs") or \
                    (c < 0x10FFFF and ref.scalar(c + 1) and ref.cat(c + 1) not in ("Cn", "Co")):
                out.append(c)
        elif 0xAC00 <= c <= 0xD7A3 and c % 7 > 1 or 0x20000 <= c <= 0x3FFFF and c % 16 and ref.cat(c + 1) != "Cn" and \
                ref.cat(c - 1) != "Cn" and not 0x2F800 <= c <= 0x2FA1F and ref.is_cjk(c) == ref.is_cjk(c - 1) == \
                ref.is_cjk(c + 1):
            continue
        else:
            out.append(c)
    return out


def chunks(items, n):
    for i in range(0, len(items), n):
        yield items[i:i + n]


def simple_piece_check(want, r, text=None, what="pieces"):
    """want: list of (code points, start, stop)"""
    if "p" not in r:
        return ["%s: expected pieces, got %s" % (what, show_r(r))]
    got = splits_of(r)
    src = r["p"]["n"]
    out = []
    if text is not None and src != text:
        out.append(diff(what + ": the text changed", text, src))
    a = [(ref.utf8(w[0]), w[1], w[2]) for w in want]
    b = [g[:3] for g in got]
    if a != b:
        i = first_diff(a, b)
        out.append("%s: piece %d of %d/%d: expected %s got %s" % (what, i, len(a), len(b), a[i:i + 2], b[i:i + 2]))
    return out
