"""The checks, one per property."""
from . import p_text

RULES = {}
PROPS = {}


def prop(id, fn, rule, **kw):
    PROPS[id] = dict(fn=fn, rule=rule, **kw)


prop("C09", p_text.c09,
     "every assigned code point (thorough: every scalar value) in each form, every canonical composition pair with and without an "
     "intervening mark, every Hangul syllable, random texts with shuffled marks, expanding runs, chains of forms and of forms and edits; non-trivial: the form differs from the text",
     required={"code point blocks": 100, "composition pairs": 10, "hangul": 10, "random": 500, "chains": 50, "changed": 300, "large": 80, "mark runs": 300, "edits between forms": 300})
prop("C10", p_text.c10,
     "all 24 option combinations over every assigned code point (thorough: every scalar value) between letters, and random texts, in several "
     "locales; non-trivial: the normalizer changes the text",
     required={"code point blocks": 500, "random": 500, "changed": 500, "large": 100})
prop("C11", p_text.c11,
     "every code point through StripAccents and Replace, every candidate at both ends through Strip, random edits, patterns with regex "
     "metacharacters and sequences; non-trivial: the text changes",
     required={"random": 1000, "sequences": 100, "strip ends": 1000, "changed Replace": 300, "changed Strip": 300,
               "changed StripAccents": 50, "changed Prepend": 100, "large": 60, "long sequences": 50})
prop("C12", p_text.c12,
     "every code point between letters and random texts; non-trivial: more than one piece",
     required={"code point blocks": 100, "random": 1000, "large": 60})
prop("C13", p_text.c13,
     "patterns of common tokenizers, random patterns understood alike by ICU and the reference, patterns matching the empty string, sequences "
     "and inputs already divided with added tokens; non-trivial: more than one piece expected",
     required={"behaviour Isolated": 300, "behaviour Removed": 100, "behaviour Removed inverted": 50, "sequences": 100,
               "with added tokens": 100, "empty matches": 300, "large": 40, "long patterns": 200})
prop("C14", p_text.c14,
     "the alphabet, every byte, every code point, random texts and pieces with added tokens, byte strings under random divisions, foreign tokens; "
     "distinct (configuration, input)",
     required={"random": 500, "given pieces": 200, "after a split": 50, "byte strings": 500, "foreign tokens": 500,
               "code point blocks": 50, "single bytes": 500, "large": 30})
prop("C24", p_text.c24,
     "every scalar value both ways, every surrogate and border value, all two-byte strings, boundary three- and four-byte strings, mutated texts; "
     "distinct conversions (one per driver case)",
     required={"well-formed bytes": 5000, "ill-formed bytes": 5000, "bad code points": 4000, "mutated texts": 300, "large": 30})
from . import p_model

prop("C15", p_model.c15,
     "random vocabularies, prefixes, limits and ids; words over the alphabet, spelt from vocabulary entries, at the length limit, or "
     "foreign; pieces already tokenized; distinct (model, words)",
     required={"unknown": 1000, "several pieces": 1000, "whole word": 300, "over the limit": 300, "dense": 50, "whole tokenizers": 50,
               "large vocabularies": 10, "large, known": 1000, "long words": 50, "many pieces": 10})
prop("C16", p_model.c16,
     "random vocabularies and merge lists (many overlapping), every option; words repeated in one history; distinct (model, words)",
     required={"merged": 3000, "unknown tokens": 300, "byte fallback": 100, "whole word": 100, "dropout 1": 50,
               "partial dropout": 50, "whole tokenizers": 50, "long histories": 4, "large merge lists": 15, "long words": 20, "very long words": 12, "many pieces": 10})
from . import p_post

prop("C05", p_post.c05,
     "random whole configurations with truncation, padding and templates, texts with added tokens; every part of every result monitored; "
     "distinct (processing configuration, texts)",
     required={"with overflow": 300, "padded": 300, "with template tokens": 300, "compared with the model": 2000, "large": 30, "many words": 2})
prop("C17", p_post.c17,
     "every small combination of direction, maximum, stride and length, random larger ones, and whole tokenizers with and without truncation; "
     "distinct (configuration, length)",
     required={"windows Right": 300, "windows Left": 300, "overlapping windows": 200, "maximum 0": 100, "stride rejected": 100,
               "unchanged": 300, "whole tokenizers": 300, "large": 70, "over 256 windows": 5})
prop("C18", p_post.c18,
     "every small combination of direction, strategy, multiple and length, random larger ones with overflow parts, and whole tokenizers with and "
     "without padding; distinct (configuration, lengths)",
     required={"Left padded": 300, "Right padded": 300, "rounded": 300, "with overflow": 300, "whole tokenizers": 300, "large": 60, "many parts": 40})
prop("C19", p_post.c19,
     "random templates and sequences of processors over made-up encodings with overflow, and whole tokenizers with and without them; distinct "
     "(configuration, lengths or text)",
     required={"processor TemplateProcessing": 300, "processor ByteLevel": 200, "processor Sequence": 200, "with overflow": 300,
               "truncated": 300, "within the budget": 500,
               "large": 30, "many parts": 90, "long templates": 100, "long sequences": 60})
from . import p_pipe

prop("C03", p_pipe.c03,
     "random configurations, late additions and histories (with throwing calls, other instances, locale changes, separate processes); the same "
     "probes compared at six points of each history; distinct (configuration, texts)",
     required={"comparisons": 10000, "other calls": 1000, "ill-formed calls": 300, "across processes": 300,
               "histories of many words": 10, "histories of many calls": 3, "dropout": 50, "doubled calls": 3000, "around additions": 300, "in the place of another": 300})
prop("C06", p_pipe.c06,
     "random configurations with length-changing normalizers, byte-level mapping and added tokens; every offset against the source characters "
     "computed by the reference; distinct (configuration, texts)",
     required={"offsets": 20000, "inexact": 1000, "shifted": 1000, "trimmed": 300, "large": 40})
prop("C07", p_pipe.c07,
     "small pipelines with many overlapping added tokens of every flag, texts dense with them and near misses, additions at load and later; "
     "distinct (configuration, texts)",
     required={"found": 5000, "unaffected": 500, "gaps": 500, "large": 50, "many added tokens": 20, "added again with other flags": 100, "neighbours": 60000})
prop("C08", p_pipe.c08,
     "random sequences of additions with repeated, empty and model contents; ids observed after each; distinct histories",
     required={"additions": 1000, "repeated contents": 500, "model contents": 300, "encoded": 500, "many additions": 20, "huge vocabularies": 8})
prop("C20", p_pipe.c20,
     "every decoder and random sequences of them over telling, random and byte tokens, short lists exhaustively, and whole tokenizers over "
     "known and unknown ids; non-trivial: the decoder changes the text",
     required={"decoder WordPiece": 500, "decoder Replace": 300, "decoder Strip": 300, "decoder Fuse": 200, "decoder ByteFallback": 500,
               "decoder Sequence": 500, "id lists": 2000, "large": 80, "long sequences": 80, "huge": 8, "sparse ids": 100})
prop("C21", p_pipe.c21,
     "random configurations with names that need escaping, each written in five random equivalent forms and as a file; distinct configurations",
     required={"documents": 5000, "sizable": 20, "odd values": 300})
prop("C22", p_pipe.c22,
     "random configurations (BERT, Llama, GPT-2, Llama-3 styles and mixtures), texts over their alphabet, added tokens and foreign characters; "
     "every field but offsets against the reference pipeline; distinct (configuration, texts)",
     required={"encoded": 5000, "added tokens": 500, "composed": 300, "no normalizer": 100, "no pre_tokenizer": 100, "no model": 5,
               "large": 40, "huge": 8, "sparse ids": 200, "bare vocabularies": 50})
prop("C23", p_pipe.c23,
     "byte-level configurations with random merges, regexes and added tokens; random texts; distinct (configuration, texts)",
     required={"round trips": 5000, "with added tokens": 500, "prefix spaces": 300, "large": 40})
from . import p_safe

prop("C01", p_safe.c01, kinds=("asan", "plain"),
     rule="random configurations (half of them with edge values or missing parts), hostile and ill-formed texts, arbitrary ids, late additions, components called "
     "directly, long runs; under ASan, UBSan, LeakSanitizer and libstdc++ assertions, a sample under memcheck; distinct call sequences",
     required={"enc returned": 3000, "enc threw": 300, "dec returned": 1000, "long runs": 50, "very long texts": 8, "component calls": 3000,
               "cases under memcheck": 50, "large": 48, "enormous": 30})
prop("C02", p_safe.c02, kinds=("asan", "plain"),
     rule="valid documents damaged byte by byte, restructured, cut, nested, with bad patterns, files, every prefix of one document; each then used; "
     "distinct documents",
     required={"damaged documents": 1000, "restructured documents": 1000, "absent sections": 200, "broken sections": 30, "every prefix": 300, "deep nesting": 100,
               "loaded": 1000, "refused": 1000, "missing files": 5, "cases under memcheck": 50, "large documents": 48})
prop("C04", p_safe.c04, kinds=("tsan", "asan"),
     rule="2 to 8 threads on shared tokenizers and components or loading their own, in fresh and warm processes, with forced yields, under ThreadSanitizer "
     "and under ASan; each result compared with the same call alone; distinct orders of call starts and ends",
     required={"calls compared": 5000, "overlapping calls": 2000, "first calls of a process": 50, "large": 24, "many words": 5000, "unknown names": 30})
prop("C26", p_safe.c26, kinds=("asan", "alloc"), level="fault_enumeration",
     rule="every allocation of a call failed in turn (loading: every one, two or three), then probes compared; calls on ill-formed text; distinct call sequences",
     required={"faults encode": 3000, "cold sweeps": 50, "faults decode": 200, "faults load": 2000, "faults add_tokens": 200, "ill-formed calls": 500, "faults large": 400})
from . import p_jni

prop("C25", p_jni.c25, before=p_jni.prepare,
     rule="Java strings over configured texts and random characters with NUL, paired and unpaired surrogates, good and broken configurations, null arguments; "
     "several tokenizers side by side, in turn and in several threads; each call through the Java class in a JVM with -Xcheck:jni and AddressSanitizer compared with the native call; distinct call sequences",
     required={"enc ids": 500, "dec text": 300, "new threw": 10, "texts with surrogates": 200, "texts with NUL": 50, "large": 40, "several tokenizers": 20, "calls in threads": 300})
