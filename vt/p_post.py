"""C05, C17, C18 and C19: the shape of encodings, truncation, padding and templates."""
from . import gen, ref
from .lib import Case, comp, enc, first_diff, hx, show, show_r, tok, unhex

FIELDS = ("i", "y", "t", "w", "o", "s", "a")


def r_tokens(rng, n):
    """rows (id, type, token, word, offsets, special, attention) of a made-up encoding"""
    rows, pos, word = [], 0, 0
    for k in range(n):
        a = pos + rng.randint(0, 2)
        pos = a + rng.randint(0, 4)
        word += rng.random() < 0.6
        v = rng.choice(("t%d" % k, "Ġt%d" % k, "ĠĠa%dĠ" % k, "é%d" % k, "Ġ", "ĠĠ", "x%dĠ" % k, "", "ĠĠĠ", "a%dĠb" % k, "\u0120\u0120w"))
        rows.append((1000 + k, rng.randint(0, 2), v, None if rng.random() < 0.1 else word, [a, pos],
                     int(rng.random() < 0.1), int(rng.random() < 0.95)))
    return rows


def to_json(rows, over=()):
    e = {f: [hx(r[k]) if f == "t" else r[k] for r in rows] for k, f in enumerate(FIELDS)}
    e["v"] = [to_json(o) for o in over]
    return e


def from_json(e):
    """rows of an encoding, or None if it is not rectangular"""
    n = len(e["i"])
    if any(len(e[f]) != n for f in FIELDS):
        return None
    return [tuple(unhex(e[f][k]).decode("utf-8", "replace") if f == "t" else e[f][k] for f in FIELDS) for k in range(n)]


def parts(e):
    out = [from_json(e)] + [from_json(v) for v in e["v"]]
    return out


def lengths(e):
    return {f: len(e[f]) for f in FIELDS}


def shape(e, what):
    out = []
    for k, p in enumerate([e] + e["v"]):
        if len(set(lengths(p).values())) > 1:
            out.append("%s: part %d is not rectangular: %s" % (what, k, lengths(p)))
    for v in e["v"]:
        if v["v"]:
            out.append("%s: an overflow part has overflow parts" % what)
    return out


def compare(want, got, what):
    """want, got: lists of parts, each a list of rows"""
    if want == got:
        return []
    if len(want) != len(got):
        return ["%s: expected %d parts %s got %d %s" % (what, len(want), [len(p) for p in want], len(got),
                                                        [None if p is None else len(p) for p in got])]
    for k, (w, g) in enumerate(zip(want, got)):
        if w != g:
            if g is None or len(w) != len(g):
                return ["%s: part %d: expected %d tokens got %s" % (what, k, len(w), None if g is None else len(g))]
            i = next(i for i in range(len(w)) if w[i] != g[i])
            return ["%s: part %d token %d: expected %s got %s" % (what, k, i, w[i], g[i])]


# --------------------------------------------------------------------- C17
def c17_cfg(rng):
    n = rng.choice((0, 1, 2, 3, 5, 8, 17, 40))
    k = rng.random()
    if k < 0.15:
        mx = 0
    elif k < 0.35:
        mx = max(n + rng.choice((-1, 0, 1)), 0)
    else:
        mx = rng.randint(1, 12)
    stride = rng.choice((0, 0, 1, 2, mx - 1, mx, mx + 1, rng.randint(0, max(mx, 1))))
    cfg = {"direction": rng.choice(("Right", "Left")), "max_length": mx, "strategy": rng.choice(("LongestFirst", "OnlyFirst")),
           "stride": max(stride, 0)}
    if rng.random() < 0.3:
        items = list(cfg.items())
        rng.shuffle(items)
        cfg = dict(items)
    return cfg, n


def c17(ctx):
    rng = ctx.rng

    def verdict(cfg, rows, r, what):
        try:
            want = ref.truncate(cfg, rows)
        except ValueError:
            want = None
        if want is None:
            if "x" not in r:
                return ["%s: a stride of %d with a maximum of %d was accepted: %s" % (what, cfg["stride"], cfg["max_length"],
                                                                                   show_r(r))]
            return []
        if "e" not in r:
            return ["%s: %s" % (what, show_r(r))]
        return shape(r["e"], what) + (compare(want, parts(r["e"]), what) or [])

    def tally(cfg, n):
        mx = cfg["max_length"]
        ctx.count["unchanged" if n <= mx else "maximum 0" if mx == 0 else "stride rejected" if cfg["stride"] >= mx else
                  "windows " + cfg["direction"]] += 1
        if n > mx > cfg["stride"] > 0:
            ctx.count["overlapping windows"] += 1

    def component():
        # every small case
        small = [(d, mx, s, n, st) for d in ("Right", "Left") for mx in range(0, 6) for s in range(0, 6) for n in range(0, 13)
                 for st in ("LongestFirst", "OnlyFirst")]
        if not ctx.thorough:
            small = [x for x in small if (x[1] * 7 + x[2] * 3 + x[3] + (x[4] == "OnlyFirst")) % 2 == 0]
        for d, mx, s, n, st in ctx.mine(small):
            cfg = {"direction": d, "max_length": mx, "strategy": st, "stride": s}
            rows = r_tokens(rng, n)
            tally(cfg, n)
            ctx.count["small"] += 1
            yield Case([comp("truncation", "u", cfg), {"op": "truncate", "c": "u", "enc": to_json(rows)}],
                       lambda r, cfg=cfg, rows=rows: verdict(cfg, rows, r[1], "truncating %d tokens by %s" % (len(rows), cfg)),
                       key=(repr(cfg), n))
        for _ in range(ctx.n(4000, 80000)):
            cfg, n = c17_cfg(rng)
            rows = r_tokens(rng, n if rng.random() < 0.8 else rng.randint(0, 300))
            tally(cfg, len(rows))
            yield Case([comp("truncation", "u", cfg), {"op": "truncate", "c": "u", "enc": to_json(rows)}],
                       lambda r, cfg=cfg, rows=rows: verdict(cfg, rows, r[1], "truncating %d tokens by %s" % (len(rows), cfg)),
                       key=(repr(cfg), len(rows)))
        ctx.sample({"config": cfg, "tokens": len(rows)})

    def whole():
        # encoding with truncation = truncating the encoding without it
        for _ in range(ctx.n(2000, 40000)):
            cfg, alphabet = gen.r_config(rng)
            cfg["padding"] = cfg["post_processor"] = None
            tr, _ = c17_cfg(rng)
            text = gen.config_text(rng, cfg, alphabet, rng.choice((3, 20, 60)))
            cfg["truncation"] = None
            steps = [tok("a", cfg), enc("a", text), tok("b", dict(cfg, truncation=tr)), enc("b", text)]

            def check(r, tr=tr):
                if "e" not in r[1]:
                    return ["encoding without truncation: " + show_r(r[1])]
                rows = from_json(r[1]["e"])
                if rows is None:
                    return ["not rectangular without truncation"]
                tally(tr, len(rows))
                ctx.count["whole tokenizers"] += 1
                return verdict(tr, rows, r[3], "encoding %d tokens under %s" % (len(rows), tr))
            yield Case(steps, check, tl=20)

    def large():
        for n in ctx.ladder(6, 20):
            mx = rng.choice((n - 1, n - 3, n // 2, n // 2 + 1, n // 7, n // 60 + 1, 300, 257, 40, 12, 3, 1))
            mx = max(1, min(mx, n))
            stride = rng.choice((0, 1, 2, mx // 10, mx // 2, mx - 2, mx - 1))
            while stride and n // (mx - stride if mx > stride else 1) * mx > 400000:
                stride //= 2
            stride = max(0, min(stride, mx - 1))
            cfg = {"direction": rng.choice(("Right", "Left")), "max_length": mx, "strategy": rng.choice(("LongestFirst", "OnlyFirst")),
                   "stride": stride}
            rows = r_tokens(rng, n)
            tally(cfg, n)
            ctx.count["large"] += 1
            if n > 256 * (mx - stride):
                ctx.count["over 256 windows"] += 1
            yield Case([comp("truncation", "u", cfg), {"op": "truncate", "c": "u", "enc": to_json(rows)}],
                       lambda r, cfg=cfg, rows=rows: verdict(cfg, rows, r[1], "truncating %d tokens by %s" % (len(rows), cfg)), tl=60,
                       key=(repr(cfg), n))
    ctx.run(large(), batch=4)
    ctx.run(component())
    ctx.run(whole(), batch=100)


# --------------------------------------------------------------------- C18
def c18(ctx):
    rng = ctx.rng

    def expected(cfg, ps):
        target = ref.pad_target(cfg, len(ps[0]))
        out = []
        for p in ps:
            k = max(target - len(p), 0)
            pads = [(cfg["pad_id"], cfg["pad_type_id"], cfg["pad_token"], "*", [0, 0], 1, 0)] * k
            out.append(pads + p if cfg["direction"] == "Left" else p + pads)
        return out

    def verdict(cfg, ps, r, what):
        if "e" not in r:
            return ["%s: %s" % (what, show_r(r))]
        want = expected(cfg, ps)
        got = parts(r["e"])
        if None in got:
            return shape(r["e"], what)
        for w, g in zip(want, got):      # the word index of padding is not specified
            for i in range(min(len(w), len(g))):
                if w[i][3] == "*":
                    w[i] = w[i][:3] + (g[i][3],) + w[i][4:]
        return shape(r["e"], what) + (compare(want, got, what) or [])

    def tally(cfg, ps):
        t = ref.pad_target(cfg, len(ps[0]))
        ctx.count["%s %s" % (cfg["direction"], "padded" if t > len(ps[0]) else "full")] += 1
        if cfg["pad_to_multiple_of"] and t % cfg["pad_to_multiple_of"] == 0 and t > len(ps[0]):
            ctx.count["rounded"] += 1
        if len(ps) > 1:
            ctx.count["with overflow"] += 1

    def r_cfg():
        cfg = gen.r_padding(rng)
        if rng.random() < 0.5 and isinstance(cfg["strategy"], dict):
            cfg["strategy"]["Fixed"] = rng.choice((rng.randint(0, 40), rng.randint(0, 40), rng.randint(0, 40), -rng.randint(1, 9)))
        if rng.random() < 0.4:
            cfg["pad_to_multiple_of"] = rng.randint(1, 16)
        return cfg

    def component():
        small = [(d, s, m, n) for d in ("Right", "Left") for s in ("BatchLongest", 0, 1, 4, 7, -1, -2147483648) for m in (None, 0, 1, 2, 3, 8)
                 for n in range(0, 10)]
        for d, s, m, n in ctx.mine(small):
            cfg = {"strategy": s if isinstance(s, str) else {"Fixed": s}, "direction": d, "pad_to_multiple_of": m, "pad_id": 3,
                   "pad_type_id": 1, "pad_token": "[PAD]"}
            ps = [r_tokens(rng, n)] + [r_tokens(rng, rng.randint(0, 9)) for _ in range(rng.choice((0, 0, 1, 3)))]
            tally(cfg, ps)
            ctx.count["small"] += 1
            yield Case([comp("padding", "p", cfg), {"op": "pad", "c": "p", "enc": to_json(ps[0], ps[1:])}],
                       lambda r, cfg=cfg, ps=ps: verdict(cfg, ps, r[1], "padding %s by %s" % ([len(p) for p in ps], cfg)),
                       key=(repr(cfg), tuple(map(len, ps))))
        for _ in range(ctx.n(5000, 100000)):
            cfg = r_cfg()
            n = rng.choice((0, 1, 3, 8, rng.randint(0, 60)))
            ps = [r_tokens(rng, n)] + [r_tokens(rng, rng.randint(0, max(n, 3))) for _ in range(rng.choice((0, 0, 1, 2, 5)))]
            tally(cfg, ps)
            yield Case([comp("padding", "p", cfg), {"op": "pad", "c": "p", "enc": to_json(ps[0], ps[1:])}],
                       lambda r, cfg=cfg, ps=ps: verdict(cfg, ps, r[1], "padding %s by %s" % ([len(p) for p in ps], cfg)),
                       key=(repr(cfg), tuple(map(len, ps))))
        ctx.sample({"config": cfg, "lengths": [len(p) for p in ps]})

    def whole():
        for _ in range(ctx.n(2000, 40000)):
            cfg, alphabet = gen.r_config(rng)
            pc = r_cfg()
            if rng.random() < 0.5:
                tr = gen.r_truncation(rng)
                tr["stride"] = min(tr["stride"], 1) if tr["max_length"] > 4 else 0
                cfg["truncation"] = tr
            text = gen.config_text(rng, cfg, alphabet, rng.choice((0, 3, 20, 60)))
            cfg["padding"] = None
            sp = gen.flag(rng)
            steps = [tok("a", cfg), enc("a", text, sp), tok("b", dict(cfg, padding=pc)), enc("b", text, sp)]

            def check(r, pc=pc):
                if "x" in r[1]:
                    ctx.count["rejected"] += 1
                    return [] if "x" in r[3] else ["only encoding without padding failed"]
                ps = parts(r[1]["e"])
                if None in ps:
                    return ["not rectangular without padding"]
                tally(pc, ps)
                ctx.count["whole tokenizers"] += 1
                return verdict(pc, ps, r[3], "encoding %s under %s" % ([len(p) for p in ps], pc))
            yield Case(steps, check, tl=20)

    def large():
        for n in ctx.ladder(5, 15):
            m = rng.choice((None, None, 64, 100, 257, 1000, 1024, 4096, 70000))
            cfg = dict(r_cfg(), pad_to_multiple_of=m, strategy=rng.choice(("BatchLongest", {"Fixed": n}, {"Fixed": n})))
            # one long part, or many parts
            k = rng.choice((0, 1, 3, max(0, min(300, 300000 // max(ref.pad_target(cfg, n), 1) - 1))))
            ps = [r_tokens(rng, rng.choice((n, n - 1, n // 2, 3)))] + [r_tokens(rng, rng.choice((0, 1, 5, n // 2) if k < 5 else (0, 1, 5)))
                                                                     for _ in range(k)]
            tally(cfg, ps)
            ctx.count["large"] += 1
            yield Case([comp("padding", "p", cfg), {"op": "pad", "c": "p", "enc": to_json(ps[0], ps[1:])}],
                       lambda r, cfg=cfg, ps=ps: verdict(cfg, ps, r[1], "padding %s by %s" % ([len(p) for p in ps][:20], cfg)), tl=60,
                       key=(repr(cfg), tuple(map(len, ps))))
        for k in ctx.mine([10, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 4100] * 3):
            cfg = r_cfg()
            ps = [r_tokens(rng, rng.randint(0, 30))] + [r_tokens(rng, rng.randint(0, 9)) for _ in range(k)]
            tally(cfg, ps)
            ctx.count["many parts"] += 1
            yield Case([comp("padding", "p", cfg), {"op": "pad", "c": "p", "enc": to_json(ps[0], ps[1:])}],
                       lambda r, cfg=cfg, ps=ps: verdict(cfg, ps, r[1], "padding %s by %s" % ([len(p) for p in ps][:20], cfg)), tl=60)
    ctx.run(large(), batch=4)
    ctx.run(component())
    ctx.run(whole(), batch=100)


# --------------------------------------------------------------------- C19
def trim(row, first, prefix, exact):
    """allowed offsets of a row after byte-level trimming"""
    v, (a, b) = row[2], row[4]
    lead = len(v) - len(v.lstrip("\u0120"))
    tail = len(v) - len(v.rstrip("\u0120"))
    if not lead and not tail:
        return [[a, b]]

    def cut(lead):
        x = min(a + lead, b)
        y = max(b - tail, x) if b >= tail else b
        return [x, y]
    if first and prefix and lead == 1:
        return [cut(0)] if exact else [cut(0), cut(1)]
    return [cut(lead)]


def template(cfg, ps, sp):
    """expected parts; text rows keep everything but the type id"""
    special = {s["id"]: s for s in cfg["special_tokens"].values()}
    out = []
    for p in ps:
        rows = []
        for e in cfg["single"]:
            if "Sequence" in e:
                rows += [r[:1] + (e["Sequence"]["type_id"],) + r[2:] for r in p]
            elif sp and e["SpecialToken"]["id"] in special:
                s = special[e["SpecialToken"]["id"]]
                rows += [(i, e["SpecialToken"]["type_id"], t, None, [0, 0], 1, 1) for i, t in zip(s["ids"], s["tokens"])]
        out.append(rows)
    return out


def c19(ctx):
    rng = ctx.rng

    def apply(cfg, ps, sp):
        """expected parts; offsets become lists of allowed ones in a 'trim' step (always the last one)"""
        if cfg["type"] == "Sequence":
            for c in cfg["processors"]:
                ps = apply(c, ps, sp)
            return ps
        if cfg["type"] == "TemplateProcessing":
            return template(cfg, ps, sp)
        if cfg["type"] == "ByteLevel" and cfg["trim_offsets"]:
            out = []
            for k, p in enumerate(ps):
                rows = []
                for i, r in enumerate(p):
                    allowed = []
                    for o in (r[4] if isinstance(r[4], tuple) else (r[4],)):
                        first = i == 0 or o[0] == 0
                        allowed += trim(r[:4] + (o,) + r[5:], first, cfg["add_prefix_space"], o[0] == 0 or k == 0 and i == 0)
                    rows.append(r[:4] + (tuple(allowed),) + r[5:])
                out.append(rows)
            return out
        return ps

    def verdict(cfg, ps, sp, r, what):
        if "e" not in r:
            return ["%s: %s" % (what, show_r(r))]
        out = shape(r["e"], what)
        if out:
            return out
        got = parts(r["e"])
        want = [list(p) for p in apply(cfg, ps, sp)]
        for w, g in zip(want, got):
            for i in range(min(len(w), len(g))):
                if isinstance(w[i][4], tuple):
                    o = g[i][4] if g[i][4] in w[i][4] else w[i][4][0]
                    w[i] = w[i][:4] + (o,) + w[i][5:]
        return compare(want, got, what) or []

    def r_proc(depth=0):
        k = rng.random()
        if k < 0.55 or depth > 1:
            return gen.r_template(rng)
        if k < 0.75:
            return {"type": "ByteLevel", "add_prefix_space": gen.flag(rng), "trim_offsets": rng.random() < 0.8,
                    "use_regex": gen.flag(rng)}
        return {"type": "Sequence", "processors": [r_proc(depth + 1) for _ in range(rng.randint(0, 3))]}

    def component():
        for _ in range(ctx.n(6000, 120000)):
            cfg = r_proc()
            n = rng.choice((0, 1, 2, 5, rng.randint(0, 40)))
            ps = [r_tokens(rng, n)] + [r_tokens(rng, rng.randint(0, 9)) for _ in range(rng.choice((0, 0, 1, 2, 5)))]
            sp = gen.flag(rng)
            ctx.count["processor " + cfg["type"]] += 1
            if len(ps) > 1:
                ctx.count["with overflow"] += 1
            yield Case([comp("post_processor", "p", cfg), {"op": "process", "c": "p", "enc": to_json(ps[0], ps[1:]), "sp": sp}],
                       lambda r, cfg=cfg, ps=ps, sp=sp: verdict(cfg, ps, sp, r[1], "processing %s (special %s) by %s" % (
                           [len(p) for p in ps], sp, cfg)),
                       key=(repr(cfg), tuple(map(len, ps)), sp))
        ctx.sample({"config": cfg, "lengths": [len(p) for p in ps]})

    def whole():
        """a tokenizer with truncation and processors against the one without"""
        for _ in range(ctx.n(3000, 60000)):
            cfg, alphabet = gen.r_config(rng)
            post = r_proc()
            gen.strip_trim(post)
            tr = gen.r_truncation(rng) if rng.random() < 0.8 else None
            res = ref.template_reserved(post)
            if tr and rng.random() < 0.5:
                tr["max_length"] = max(res + rng.randint(-1, 3), 0)
                tr["stride"] = min(tr["stride"], max(tr["max_length"] - res - 1, 0))
            text = gen.config_text(rng, cfg, alphabet, rng.choice((0, 3, 20, 60)))
            sp = rng.random() < 0.7
            bare = dict(cfg, padding=None, truncation=None, post_processor=None)
            steps = [tok("a", bare), enc("a", text, sp), tok("b", dict(bare, truncation=tr, post_processor=post)), enc("b", text, sp)]

            def check(r, post=post, tr=tr, sp=sp, res=res):
                if "e" not in r[1]:
                    return ["encoding: " + show_r(r[1])]
                rows = from_json(r[1]["e"])
                if rows is None:
                    return ["not rectangular"]
                what = "encoding %d tokens (special %s) with %s and %s" % (len(rows), sp, tr, post)
                try:
                    ps = ref.truncate(tr, rows, res if sp else 0) if tr else [rows]
                except ValueError:
                    ctx.count["rejected"] += 1
                    return [] if "x" in r[3] else [what + ": the stride was accepted"]
                out = verdict(post, ps, sp, r[3], what)
                if tr and "e" in r[3]:
                    ctx.count["within the budget"] += 1
                    n = len(r[3]["e"]["i"])
                    seqs = sum("Sequence" in p for p in post["single"]) if post["type"] == "TemplateProcessing" else None
                    if seqs == 1 and n > max(tr["max_length"], res if sp else 0):
                        out.append("%s: %d tokens, over the maximum" % (what, n))
                    if len(ps) > 1:
                        ctx.count["truncated"] += 1
                return out
            yield Case(steps, check, tl=20, key=("whole", repr(post), repr(tr), tuple(text)))

    def large():
        def one(cfg, ps, count):
            sp = rng.random() < 0.8
            ctx.count[count] += 1
            return Case([comp("post_processor", "p", cfg), {"op": "process", "c": "p", "enc": to_json(ps[0], ps[1:]), "sp": sp}],
                        lambda r: verdict(cfg, ps, sp, r[1], "processing %s (special %s) by %s" % (
                            [len(p) for p in ps][:20], sp, str(cfg)[:2000])), tl=60,
                        key=(repr(cfg), tuple(map(len, ps)), sp))
        for n in ctx.ladder(3, 9):
            yield one(rng.choice((gen.r_template(rng), gen.big_template(rng), gen.r_bytelevel(rng))), [r_tokens(rng, n)], "large")
        for k in ctx.mine([3, 8, 15, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1030, 4100] * 6):
            cfg = rng.choice((gen.r_template(rng), gen.big_template(rng), gen.r_bytelevel(rng), {"type": "Sequence", "processors": [
                dict(gen.r_bytelevel(rng), trim_offsets=True), gen.r_template(rng)]}))
            if k > 1000 and len(cfg.get("single", ())) > 20:
                cfg = gen.r_template(rng)
            yield one(cfg, [r_tokens(rng, rng.randint(0, 12)) for _ in range(k + 1)], "many parts")
        for _ in range(ctx.n(120, 1500)):
            yield one(gen.big_template(rng), [r_tokens(rng, rng.randint(0, 12)) for _ in range(rng.choice((1, 1, 2, 4)))], "long templates")
        for k in ctx.mine([4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20] * 6):
            ps, seq = [gen.r_template(rng) if rng.random() < 0.8 else dict(gen.r_bytelevel(rng), trim_offsets=False) for _ in range(k)], 1
            for p in ps:        # the sequence doubles with each template that repeats it
                if p["type"] == "TemplateProcessing":
                    p["single"] = [x for x in p["single"] if "SpecialToken" in x]
                    p["single"].insert(rng.randint(0, len(p["single"])), {"Sequence": {"id": "A", "type_id": rng.randint(0, 3)}})
            yield one({"type": "Sequence", "processors": ps}, [r_tokens(rng, rng.randint(0, 9)) for _ in range(rng.choice((1, 3)))],
                      "long sequences")
    ctx.run(large(), batch=8)
    ctx.run(component())
    ctx.run(whole(), batch=100)


# --------------------------------------------------------------------- C05
def monitor(e, cfg, sp, what):
    """invariants of any encoding of a configuration"""
    out = shape(e, what)
    if out:
        return out
    padc = cfg["padding"]
    for k, p in enumerate(parts(e)):
        n, last, i0, i1 = len(p), -1, 0, len(p)
        # padding is a block at one end, marked by attention 0
        pads = [r[6] == 0 for r in p]
        for r in p:
            if r[6] not in (0, 1) or r[5] not in (0, 1):
                out.append("%s: part %d: masks hold %s" % (what, k, (r[5], r[6])))
        if any(pads):
            if padc is None:
                out.append("%s: part %d: attention 0 without padding" % (what, k))
                continue
            m = sum(pads)
            i0, i1 = (m, n) if padc["direction"] == "Left" else (0, n - m)
            block = p[:m] if padc["direction"] == "Left" else p[n - m:]
            for r in block:
                if (r[0], r[1], r[2], r[4], r[5], r[6]) != (padc["pad_id"], padc["pad_type_id"], padc["pad_token"], [0, 0], 1, 0):
                    out.append("%s: part %d: attention 0 on %s, which is not padding" % (what, k, r))
        for r in p[i0:i1]:
            if r[6] != 1:
                out.append("%s: part %d: attention %d outside the padding" % (what, k, r[6]))
            if (r[5] == 1) != (r[3] is None):
                out.append("%s: part %d: special mask %d but word %s on %s" % (what, k, r[5], r[3], r))
            if r[5] == 1 and r[4] != [0, 0]:
                out.append("%s: part %d: a template token has offsets %s" % (what, k, r[4]))
    return out[:4]


def c05(ctx):
    rng = ctx.rng

    def work(large=False):
        for n in ctx.ladder(3, 9) if large else range(ctx.n(5000, 100000)):
            cfg, alphabet = gen.r_config(rng)
            if rng.random() < 0.5:
                cfg["padding"] = gen.r_padding(rng)
            if rng.random() < 0.5:
                cfg["truncation"] = gen.r_truncation(rng)
            if rng.random() < 0.5:
                cfg["post_processor"] = gen.r_template(rng)
            sp = gen.flag(rng)
            if large:
                if rng.random() < 0.3:
                    cfg["post_processor"] = gen.big_template(rng)
                    cfg["truncation"] = None
                gen.tame(rng, cfg, n)
                if n >= 65000 and rng.random() < 0.7:
                    texts = [gen.many_words(rng, cfg, alphabet, n)]
                    ctx.count["many words"] += 1
                else:
                    texts = [gen.stretch(rng, n, lambda: gen.config_text(rng, cfg, alphabet, 60))]
                ctx.count["large"] += 1
            else:
                texts = [gen.config_text(rng, cfg, alphabet, rng.choice((0, 3, 20, 60))) for _ in range(3)]
            steps = [tok("t", cfg)]
            for t in texts:
                steps += [enc("t", t, True), enc("t", t, False)]
            rt = ref.RefTokenizer(cfg)

            def check(r, cfg=cfg, texts=texts, rt=rt):
                out = []
                if r[0].get("ok") != 1:
                    return ["the configuration did not load: " + show_r(r[0])]
                for k, x in enumerate(r[1:]):
                    t, sp = texts[k // 2], k % 2 == 0
                    what = "encoding [%s] (special %s) with post-processor %s truncation %s padding %s" % (
                        show(t, 12), sp, cfg["post_processor"], cfg["truncation"], cfg["padding"])
                    try:
                        want = rt.encode(t, sp)
                    except ValueError:
                        want = None
                    if "x" in x:
                        ctx.count["rejected"] += 1
                        continue
                    out += monitor(x["e"], cfg, sp, what)
                    if out or want is None:
                        continue
                    ctx.count["parts"] += 1 + len(x["e"]["v"])
                    ps = parts(x["e"])
                    if len(ps) > 1:
                        ctx.count["with overflow"] += 1
                    if any(row[6] == 0 for p in ps for row in p):
                        ctx.count["padded"] += 1
                    if any(row[5] == 1 and row[6] == 1 for p in ps for row in p):
                        ctx.count["with template tokens"] += 1
                    # the same tokens must have the masks and words the pipeline's model gives them
                    if [[row[0] for row in p] for p in ps] == [[w.id for w in p] for p in want]:
                        ctx.count["compared with the model"] += 1
                        masks = [[(row[5], row[6]) for row in p] for p in ps]
                        wm = [[(w.special, w.att) for w in p] for p in want]
                        if masks != wm:
                            out.append("%s: masks expected %s got %s" % (what, str(wm)[:800], str(masks)[:800]))
                        words = [[row[3] for row in p] for p in ps]
                        ww = [[row[3] if w.word == "pad" else w.word for w, row in zip(p, q)] for p, q in zip(want, ps)]
                        if words != ww:
                            out += deviation(ww, words, what + ": words")
                    # words never decrease over the text tokens, unless the template repeats the sequence
                    if post_repeats(cfg["post_processor"]):
                        continue
                    for p in ps:
                        seq = [row[3] for row in p if row[5] == 0]
                        if any(a > b for a, b in zip(seq, seq[1:])):
                            out.append("%s: word indices decrease: %s" % (what, str(seq)[:800]))
                return out[:5]
            yield Case(steps, check, tl=90 if large else 30, key=(repr(cfg["post_processor"]), repr(cfg["truncation"]), repr(cfg["padding"]),
                                                 tuple(map(tuple, texts))))
        ctx.sample({"truncation": cfg["truncation"], "padding": cfg["padding"], "post_processor": cfg["post_processor"],
                    "text": texts[0]})
    ctx.run(work(True), batch=4)
    ctx.run(work(), batch=60)


def deviation(want, got, what):
    """the first difference of two lists of lists"""
    for k, (a, b) in enumerate(zip(want, got)):
        i = first_diff(a, b)
        if a != b:
            return ["%s: part %d at %d of %d/%d: expected %s got %s" % (what, k, i, len(a), len(b), a[max(i - 2, 0):i + 6], b[max(i - 2, 0):i + 6])]
    return ["%s: %d parts, expected %d" % (what, len(got), len(want))] if len(want) != len(got) else []


def post_repeats(post):
    if not post:
        return False
    if post["type"] == "Sequence":
        return any(post_repeats(p) for p in post["processors"])
    return post["type"] == "TemplateProcessing" and sum("Sequence" in p for p in post["single"]) > 1
