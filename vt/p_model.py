"""C15 and C16: the models."""
from . import gen, ref
from .lib import Case, add, comp, dec, enc, first_diff, hx, show, show_r, splits_of, tok, unhex


def expected(model, cps):
    at = [0]
    for c in cps:
        at.append(at[-1] + (1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4))
    return [(a, b.encode(), at[i], at[j]) for a, b, i, j in ref.model_tokens(model, cps)]


def describe(model):
    return {k: v for k, v in model.items() if k not in ("vocab", "merges")}


def compare(model, cps, got, what):
    want = expected(model, cps)
    got = [(t[0], unhex(t[1]), t[2], t[3]) for t in got]
    # a byte-fallback token may be located at its own byte or at the whole character
    same = len(got) == len(want) and all(
        g == w or (g[:2] == w[:2] and w[1].startswith(b"<0x") and w[2] <= g[2] < g[3] <= w[3]) for g, w in zip(got, want))
    if not same:
        i = first_diff(want, got)
        return ["%s of %r [%s] under %s: token %d of %d/%d: expected %s got %s" % (
            what, ref.utf8(cps)[:300], show(cps, 20), describe(model), i, len(want), len(got), want[max(i - 3, 0):i + 9],
            got[max(i - 3, 0):i + 9])]
    return []


def lookups(rng, model, steps, checks):
    """vocabulary lookups in both directions"""
    for v in rng.sample(sorted(model["vocab"]), min(4, len(model["vocab"]))):
        steps += [{"op": "t2i", "c": "m", "token": hx(v)}, {"op": "i2t", "c": "m", "id": model["vocab"][v]}]
        checks.append(lambda r, v=v: [] if r.get("n") == model["vocab"][v] else ["id of %r: expected %d got %s" % (
            v, model["vocab"][v], show_r(r))])
        checks.append(lambda r, v=v: [] if r.get("d") == hx(v) else ["token of id %d: expected %r got %s" % (
            model["vocab"][v], v, show_r(r))])
    names = {v: k for k, v in model["vocab"].items()}
    for i in (-1, max(names, default=0) + 1 + rng.randrange(5), 2147483647, -2147483648):
        if i not in names:
            steps.append({"op": "i2t", "c": "m", "id": i})
            checks.append(lambda r, i=i: [] if "d" in r and r["d"] is None else ["id %d is not in the vocabulary but gives %s" % (
                i, show_r(r))])
    t = "no such token " + str(rng.random())
    steps.append({"op": "t2i", "c": "m", "token": hx(t)})
    checks.append(lambda r: [] if "n" in r and r["n"] is None else ["an absent token has id %s" % show_r(r)])


def model_case(ctx, model, texts, what, grouped=False, look=False):
    """texts: list of words; each run as one piece, or several pieces in one call"""
    rng = ctx.rng
    steps, checks = [comp("model", "m", model)], [lambda r: [] if r.get("ok") == 1 else ["the model did not load: " + show_r(r)]]
    i = 0
    while i < len(texts):
        n = rng.randint(1, 5) if grouped else 1
        group = texts[i:i + n]
        i += n
        pieces = [(w, rng.randrange(900, 999) if rng.random() < 0.12 and grouped else None) for w in group]
        steps.append({"op": "model", "c": "m",
                      "pieces": [[hx(ref.utf8(w)), None if k is None else [k, hx(ref.utf8(w))]] for w, k in pieces]})

        def check(r, pieces=pieces):
            if "p" not in r:
                return ["%s of %s: got %s" % (what, [show(w) for w, _ in pieces], show_r(r))]
            sp = splits_of(r)
            if len(sp) != len(pieces):
                return ["%s: %d pieces became %d" % (what, len(pieces), len(sp))]
            out = []
            for (w, k), s in zip(pieces, sp):
                if k is not None:
                    if [(t[0], unhex(t[1])) for t in s[3]] != [(k, ref.utf8(w))]:
                        out.append("%s: the added token %d %r became %s" % (what, k, ref.utf8(w), s[3]))
                elif w:
                    out += compare(model, w, s[3], what)
            return out
        checks.append(check)
    if look:
        lookups(rng, model, steps, checks)
    return Case(steps, lambda r: [v for c, x in zip(checks, r) for v in (c(x) or ())], tl=30,
                key=(what, repr(describe(model)), hash(tuple(model["vocab"].items())), tuple(map(tuple, texts))))


def renumber(rng, model):
    """sparse, unordered ids"""
    k = rng.random()
    if k < 0.6:
        return
    ids = rng.sample(range(0, 5 * len(model["vocab"]) + 10), len(model["vocab"]))
    if k > 0.9:
        ids = [i * 40000 for i in ids]
    model["vocab"] = dict(zip(model["vocab"], ids))


# --------------------------------------------------------------------- C15
def wp_word(rng, model, alphabet):
    k = rng.random()
    pre = model["continuing_subword_prefix"] or ""
    if k < 0.6:
        return [ord(rng.choice(alphabet)) for _ in range(rng.randint(1, 12))]
    if k < 0.85:
        w = ""
        for _ in range(rng.randint(1, 4)):
            t = rng.choice(sorted(model["vocab"]))
            w += t[len(pre):] if pre and t.startswith(pre) and rng.random() < 0.8 else t
        w = w or "a"
        if rng.random() < 0.2:
            w = w[:-1] or w
        return [ord(c) for c in w]
    if k < 0.92:
        n = (model["max_input_chars_per_word"] or 0)
        n = min(n, 200) + rng.choice((-1, 0, 1))
        return [ord(rng.choice(alphabet)) for _ in range(max(n, 1))]
    return gen.rtext(rng, 10) or [0x61]


def c15(ctx):
    rng = ctx.rng

    def work():
        for _ in range(ctx.n(2600, 60000)):
            alphabet = gen.r_alphabet(rng)
            model = gen.r_wordpiece(rng, alphabet)
            if rng.random() < 0.15:      # dense coverage: long matches compete
                w = "".join(rng.choice(alphabet) for _ in range(10))
                p = model["continuing_subword_prefix"] or ""
                toks = ["[UNK]"] + [w[:i] for i in range(1, 11) if rng.random() < 0.7] + \
                    [p + w[i:j] for i in range(1, 10) for j in range(i + 1, 11) if rng.random() < 0.4]
                model["vocab"] = gen.numbered(rng, toks)
                model["unk_token"] = "[UNK]"
                ctx.count["dense"] += 1
                texts = [[ord(c) for c in w[:rng.randint(1, 10)]] for _ in range(4)] + [[ord(c) for c in w]]
            else:
                texts = [wp_word(rng, model, alphabet) for _ in range(12)]
            renumber(rng, model)
            for t in texts:
                e = ref.wordpiece(model, t)
                ctx.count["unknown" if len(e) == 1 and e[0][1] == (model["unk_token"] or "") else
                          "several pieces" if len(e) > 1 else "whole word"] += 1
                if len(t) > (model["max_input_chars_per_word"] or 0):
                    ctx.count["over the limit"] += 1
            yield model_case(ctx, model, texts, "WordPiece", grouped=rng.random() < 0.3, look=rng.random() < 0.1)
            if rng.random() < 0.15:      # the same through a whole tokenizer
                cfg = {"truncation": None, "padding": None, "added_tokens": [], "normalizer": None,
                       "pre_tokenizer": {"type": "Split", "pattern": {"Regex": " "}, "behavior": "Removed", "invert": False},
                       "post_processor": None, "decoder": None, "model": model}
                words = [[c for c in t if c != 32] for t in texts]
                text = [c for w in words for c in w + [32]]

                def check(r, model=model, words=words):
                    if "e" not in r[1]:
                        return ["encoding: " + show_r(r[1])]
                    want = [(a, b) for w in words if w for a, b, *_ in expected(model, w)]
                    got = [(i, unhex(t)) for i, t in zip(r[1]["e"]["i"], r[1]["e"]["t"])]
                    if got != want:
                        return ["tokens under %s: expected %s got %s" % (describe(model), want[:20], got[:20])]
                ctx.count["whole tokenizers"] += 1
                yield Case([tok("t", cfg), enc("t", text)], check)
        ctx.sample({"model": describe(model), "vocab": sorted(model["vocab"])[:20], "words": [ref.utf8(t).decode() for t in texts[:4]]})
    def large():
        # vocabularies of many entries
        for n in ctx.ladder(1, 3, lo=200):
            n = min(n, 150000)
            model = gen.big_wordpiece(rng, n)
            words = gen.wordpiece_words(rng, model, 400)
            ctx.count["large vocabularies"] += 1
            for w in words:
                ctx.count["large, known" if len(w) <= 100 and ref.wordpiece(model, w)[0][1] != "[UNK]" else "large, unknown"] += 1
            yield model_case(ctx, model, words, "WordPiece", grouped=gen.flag(rng), look=True)
        # long entries, long words, words of many pieces
        for n in ctx.ladder(8, 24, hi=1100) + ctx.mine([17, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 200, 255, 256] * 4):
            abc = gen.r_alphabet(rng)
            pre = rng.choice(("##", "", "é", "#" * 20))
            w = "".join(rng.choice(abc) for _ in range(n))
            toks = ["[UNK]"] + [c for c in abc] + [pre + c for c in abc]
            if rng.random() < 0.7:
                toks += [w[:i] for i in (1, n // 3, n // 2, n - 1, n) if i and gen.flag(rng)]
                toks += [pre + w[i:j] for i in (1, n // 3, n // 2) for j in (n // 2 + 1, n - 1, n) if j > i and gen.flag(rng)]
            if rng.random() < 0.3:
                toks.remove(pre + rng.choice(abc))
            model = {"type": "WordPiece", "unk_token": "[UNK]", "continuing_subword_prefix": pre,
                     "max_input_chars_per_word": rng.choice((n - 1, n, n + 1, 2147483647, 2147483647)),
                     "vocab": gen.numbered(rng, toks)}
            w = [ord(c) for c in w]
            ctx.count["long words"] += 1
            yield model_case(ctx, model, [w, w[1:], w[:-1], w + w[:1], w[::-1]], "WordPiece")
        # many pieces in one call
        for n in ctx.ladder(1, 3):
            abc = gen.r_alphabet(rng)
            model = gen.r_wordpiece(rng, abc)
            words = [wp_word(rng, model, abc) for _ in range(200)]
            words = [w[:20] for w in words] if n > 3000 else words      # the cost of a word grows with its square
            ctx.count["many pieces"] += 1
            yield many_pieces(rng, model, gen.stretch(rng, n, lambda: [rng.choice(words)]), "WordPiece")

    ctx.run(large(), batch=8)
    ctx.run(work(), batch=100)


def many_pieces(rng, model, words, what):
    """one call with all the words"""
    steps = [comp("model", "m", model), {"op": "model", "c": "m", "pieces": [[hx(ref.utf8(w)), None] for w in words]}]
    memo = {}

    def check(r):
        if "p" not in r[1]:
            return ["%s of %d pieces: %s" % (what, len(words), show_r(r[1]))]
        sp = splits_of(r[1])
        if len(sp) != len(words):
            return ["%s: %d pieces became %d" % (what, len(words), len(sp))]
        for i, (w, s) in enumerate(zip(words, sp)):
            k = (tuple(w), repr(s[3]))
            if k not in memo:
                memo[k] = [v + " (piece %d of %d)" % (i, len(words)) for v in compare(model, w, s[3], what)]
            if memo[k]:
                return memo[k]
    return Case(steps, check, tl=60)


# --------------------------------------------------------------------- C16
def bpe_word(rng, model, alphabet):
    k = rng.random()
    if model["merges"] and k < 0.35:
        w = ""
        p, q = model["continuing_subword_prefix"] or "", model["end_of_word_suffix"] or "</w>"
        for _ in range(rng.randint(1, 4)):
            a, b = rng.choice(model["merges"]).split(" ", 1)
            for x in (a, b):
                x = x[len(p):] if p and x.startswith(p) else x
                w += x[:-len(q)] if x.endswith(q) else x
        return [ord(c) for c in w] or [0x61]
    if k < 0.85:
        return [ord(rng.choice(alphabet)) for _ in range(rng.randint(1, rng.choice((6, 15, 40))))]
    if k < 0.95:
        return [c for c in gen.rtext(rng, 12)] or [0x1F600]
    return [ord(rng.choice(alphabet))] * rng.randint(1, 60)


def small_bpe(rng):
    """few symbols and many overlapping merges, so that order and position matter"""
    base = list("abc")[:rng.randint(1, 3)]
    merges, toks = gen.r_merges(rng, base, rng.randint(1, 30), "", limit=8)
    rng.shuffle(merges)
    return {"type": "BPE", "dropout": None, "unk_token": None, "continuing_subword_prefix": None, "end_of_word_suffix": None,
            "fuse_unk": False, "byte_fallback": False, "ignore_merges": rng.random() < 0.1, "vocab": gen.numbered(rng, toks),
            "merges": merges}, base


def c16(ctx):
    rng = ctx.rng

    def fresh():
        k = rng.random()
        if k < 0.35:
            return small_bpe(rng)
        alphabet = gen.r_alphabet(rng)
        if k < 0.5:
            m = gen.r_bpe(rng, alphabet, byte_level=True)
            sym = [chr(ref.BYTE_CP[b]) for b in "".join(alphabet + [" "]).encode()]
            return m, sym
        return gen.r_bpe(rng, alphabet), alphabet

    def kinds(model, t):
        e = ref.bpe(model, t)
        v = [x[1] for x in e]
        if any(x == model["unk_token"] for x in v):
            ctx.count["unknown tokens"] += 1
        if any(x in gen.BYTES_FB for x in v):
            ctx.count["byte fallback"] += 1
        if len(e) < len(t):
            ctx.count["merged"] += 1
        if model["ignore_merges"] and len(e) == 1 and len(t) > 1:
            ctx.count["whole word"] += 1

    def spells(model, words):
        """with any dropout, tokens still spell the word (no unknowns: byte-complete or covered vocabulary)"""
        steps = [comp("model", "m", model)]
        for w in words:
            steps.append({"op": "model", "c": "m", "pieces": [[hx(ref.utf8(w)), None]]})

        def check(r):
            out = []
            for w, x in zip(words, r[1:]):
                if "p" not in x:
                    out.append("dropout %s on %r: %s" % (model["dropout"], ref.utf8(w), show_r(x)))
                    continue
                ts = splits_of(x)[0][3]
                got, pos = b"".join(unhex(t[1]) for t in ts), 0
                if got != ref.utf8(w):
                    out.append("dropout %s: the tokens of %r spell %r" % (model["dropout"], ref.utf8(w), got))
                for t in ts:
                    if t[2] != pos or model["vocab"].get(unhex(t[1]).decode("utf-8", "replace")) != t[0]:
                        out.append("dropout %s: token %s of %r is misplaced" % (model["dropout"], t, ref.utf8(w)))
                    pos = t[3]
            return out
        return Case(steps, check, tl=30)

    def work():
        for _ in range(ctx.n(2600, 60000)):
            model, alphabet = fresh()
            texts = [bpe_word(rng, model, alphabet) for _ in range(10)]
            # seen before: repeat some, in another order and with neighbours
            texts += rng.sample(texts, 3) + [texts[0], texts[0]]
            if rng.random() < 0.1:
                texts.append([ord(rng.choice(alphabet)) for _ in range(rng.choice((100, 300, 600)))])
            if rng.random() < 0.15:
                texts += gen.long_family(rng, alphabet, 4100) + texts[:1]
                ctx.count["families of long words"] += 1
            k = rng.random()
            if k < 0.1:
                model["dropout"] = 1.0
                ctx.count["dropout 1"] += 1
            elif k < 0.2:
                model["dropout"] = rng.choice((0.1, 0.5, 0.9, 0.01))
                ctx.count["partial dropout"] += 1
                model["continuing_subword_prefix"] = model["end_of_word_suffix"] = None
                merges, base = gen.r_merges(rng, [c for c in alphabet if c != " "] or ["a"], 20)
                model.update(vocab=gen.numbered(rng, base), merges=merges, byte_fallback=False)
                words = [[ord(c) for c in "".join(rng.choice(base) for _ in range(rng.randint(1, 8)))] for _ in range(6)]
                yield spells(model, words + words)
                continue
            elif k < 0.25:
                model["dropout"] = 0.0
            if rng.random() < 0.3:
                renumber(rng, model)
            for t in texts:
                kinds(model, t)
            yield model_case(ctx, model, texts, "BPE", grouped=rng.random() < 0.3, look=rng.random() < 0.1)
            if rng.random() < 0.1:
                # through a tokenizer, the same words in different sentences
                cfg = {"truncation": None, "padding": None, "added_tokens": [], "normalizer": None,
                       "pre_tokenizer": {"type": "Split", "pattern": {"Regex": " "}, "behavior": "Removed", "invert": False},
                       "post_processor": None, "decoder": None, "model": model}
                words = [w for w in ([c for c in t if c != 32] for t in texts) if w]
                sents = [[rng.choice(words) for _ in range(rng.randint(1, 8))] for _ in range(4)]
                steps = [tok("t", cfg)] + [enc("t", [c for w in s for c in w + [32]]) for s in sents]

                def check(r, model=model, sents=sents):
                    out = []
                    for s, x in zip(sents, r[1:]):
                        if "e" not in x:
                            return ["encoding: " + show_r(x)]
                        want = [(a, b) for w in s for a, b, *_ in expected(model, w)]
                        got = [(i, unhex(t)) for i, t in zip(x["e"]["i"], x["e"]["t"])]
                        if got != want:
                            out.append("tokens under %s: expected %s got %s" % (describe(model), want[:20], got[:20]))
                    return out
                ctx.count["whole tokenizers"] += 1
                yield Case(steps, check, tl=30)
        ctx.sample({"model": describe(model), "merges": model["merges"][:20], "words": [ref.utf8(t).decode() for t in texts[:4]]})

    def history():
        """many distinct words, then the first ones again"""
        for _ in range(ctx.n(8, 64)):
            model, alphabet = small_bpe(rng)
            alphabet = list("abc")
            seen = {}
            while len(seen) < (70000 if ctx.thorough and rng.random() < 0.2 else 12000):
                w = tuple(ord(rng.choice("abc")) for _ in range(rng.randint(4, 14)))
                seen[w] = 1
            model = dict(model, unk_token=None, vocab=dict(model["vocab"]))
            for c in "abc":
                model["vocab"].setdefault(c, max(model["vocab"].values()) + 1)
            ws = [list(w) for w in seen]
            ctx.count["long histories"] += 1
            again = rng.sample(ws, len(ws))
            yield model_case(ctx, model, ws + again, "BPE after many words", grouped=False)

    def large():
        # many merges, so that ranks and ids are large, over symbols which overlap
        for n in ctx.ladder(1, 3, lo=200) + ctx.ladder(3, 9, lo=200, hi=1100):
            n = min(n, 150000)
            model, pairs, base = gen.big_bpe(rng, n)
            words = gen.bpe_words(rng, pairs, base, 600)
            ctx.count["large merge lists"] += 1
            yield model_case(ctx, model, words + words[:50], "BPE", grouped=gen.flag(rng), look=True)
        # long words
        for n in ctx.ladder(3, 9, hi=20100):
            model, alphabet = fresh()
            model["dropout"] = None
            abc = [ord(c) for c in alphabet if c != " "] or [97]
            w = gen.stretch(rng, n, lambda: bpe_word(rng, model, alphabet))
            same = [rng.choice(abc)] * n
            ctx.count["long words"] += 1
            yield model_case(ctx, model, [w, same, w[:-1], [rng.choice(abc)] + w[1:], w], "BPE")
        # words of more characters and bytes than 16 bits count
        for n in ctx.ladder(6, 6, lo=32000):
            n = min(n, 140000)
            model, alphabet = fresh()
            model["dropout"] = None
            w = gen.stretch(rng, n, lambda: bpe_word(rng, model, alphabet))
            strange = rng.choice(("\ue123", "\U0010fffd", "\u0378"))      # in no vocabulary
            ctx.count["very long words"] += 1
            yield model_case(ctx, model, [w, w[:5] + [ord(strange)] * n + w[-5:]], "BPE")
        for n in ctx.ladder(1, 3):
            model, alphabet = fresh()
            words = [bpe_word(rng, model, alphabet) for _ in range(200)]
            words = [w[:20] for w in words] if n > 3000 else words      # the cost of a word grows with its square
            ctx.count["many pieces"] += 1
            yield many_pieces(rng, model, gen.stretch(rng, n, lambda: [rng.choice(words)]), "BPE")

    ctx.run(large(), batch=8)
    ctx.run(work(), batch=100)
    ctx.run(history(), batch=2)
