#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

T = "src/tokenizer.cpp"; N = "src/normalizer.cpp"; R = "src/pre_tokenizer.cpp"; M = "src/model.cpp"
V = "src/added_vocabulary.cpp"; D = "src/decoder.cpp"; U = "src/utils.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"

p("C01", "Tokenizing any text is memory-safe and always ends",
  """For every configuration that loads and every text (empty, blank, control characters, combining sequences, Hangul,
  emoji and other supplementary characters, ill-formed code points, very long runs), encoding, decoding any ids and adding tokens either
  returns or throws a C++ exception. No out-of-bounds or dangling access, undefined behaviour, leak, unbounded recursion or
  endless loop occurs.""",
  ["inputs", "configurations"], "all texts, id sequences and added-token lists, under every supported component configuration",
  """The tests encode two short ASCII strings end to end (and those are not even linked in this build); memory errors depend on
  lengths, on characters that change length when normalized, on empty pieces and on which optional components are absent.""",
  [T, N, R, M, V, D, U, O, C],
  [("per-character alignment arrays kept in step with the text", N+": NormalizedString::transform*"),
   ("indexing of alignments by split offsets", T+": into_encoding"), ("BPE merge loop over symbols", M+": Word::merge_all"),
   ("truncation window loop", U+": truncate")],
  ["Tokenizer::encode", "Tokenizer::decode", "Tokenizer::add_tokens"])

p("C02", "Loading any configuration either succeeds or throws; never crashes",
  """Constructing a tokenizer from any byte string or file (valid, truncated, bit-flipped, wrongly typed, missing keys,
  unsupported components, invalid patterns) either yields a usable tokenizer or throws a C++ exception derived from std::exception.
  It never crashes, hangs, leaks or yields an object on which encode or decode has undefined behaviour; a missing
  file, an absent required section, or JSON cut off or broken in one of them throws std::runtime_error, and no path and no config throws
  std::invalid_argument.""",
  ["inputs", "fault_sequences"], "all configuration documents, including every truncation and mutation of valid ones",
  "One test feeds an empty object and a missing path; the space of malformed documents is unbounded and parsing is lazy.",
  [T, N, R, M, V, D, U, O],
  [("try/catch around parsing", T+": Tokenizer::Tokenizer"), ("per-component factories", "with_* functions in src/*.cpp")],
  ["Tokenizer::Tokenizer"])

p("C03", "Results depend only on configuration, added tokens and text",
  """Encoding a text (or decoding ids) gives the same complete result every time: repeated, after any other calls on the same tokenizer (including calls
  that threw), in another instance loaded from the same configuration with the same added tokens, and under any process locale.
  No earlier input, cache, instance or environment setting is observable in a result.""",
  ["histories", "configurations"], "all call histories, orders and locales",
  "Tests call each object once in a fresh process in the C locale; cache and history effects need repeated and interleaved calls.",
  [M, T, N, R, V], [("BPE word cache", M+": BPE::tokenize_with_cache"), ("character classification", N+": is_whitespace/is_control, "+R)],
  ["Tokenizer::encode", "Tokenizer::decode"], [("cache", "memoised BPE words", "include/tokenizers/model.h: BPE::cache")])

p("C04", "Concurrent encoding and decoding is race-free and equals sequential",
  """Any number of threads may encode and decode at the same time on one shared tokenizer, on components shared through their
  const interfaces, or on separate tokenizers (which may be loaded at the same time), without data races, and each call returns exactly what it returns when run alone.
  This includes the first calls ever made and calls that meet the same new word at the same time.""",
  ["schedules"], "all interleavings of encode/decode calls on shared and separate tokenizers",
  "No test starts a thread.",
  [M, T, V, N, R, D], [("mutable BPE cache behind a const method", M+": BPE::tokenize_with_cache"), ("function-local static tables", "get_* in src/*.cpp"),
   ("added-token lookups during matching", V+": find_matches")],
  ["Tokenizer::encode", "Tokenizer::decode", "Model::tokenize"])

p("C05", "Every encoding is rectangular with consistent masks",
  """In every encoding returned, and in each of its overflow parts, ids, type ids, tokens, word indices, offsets, special-tokens mask and attention mask have
  the same length. The attention mask is 0 exactly on padding and 1 elsewhere, and the special-tokens mask is 1 exactly on padding and on
  tokens the post-processing template inserts; text tokens have a word index, template tokens have none, and word indices never decrease over the text tokens.""",
  ["inputs", "configurations"], "all texts and all combinations of truncation, padding, templates and models",
  "Tests compare a handful of fixed encodings; the combinations of direction, stride, padding and overflow are not covered.",
  [T, U, O, "include/tokenizers/common.h"], [("parallel vectors built together", T+": into_encoding"), ("slicing all vectors", U+": truncate, pad"), ("concatenation", O+": TemplateProcessing::process")],
  ["Tokenizer::encode", "Truncation::truncate_encoding", "Padding::pad_encoding", "PostProcessor::process"])

p("C06", "Offsets locate each token's source text",
  """The offsets of every text token count code points of the original text, satisfy 0 <= start <= end <= length, and never go backwards from one
  token to the next. They delimit exactly the source characters the token was made from, through removal, insertion, replacement,
  case change, accent stripping, Unicode normalization, splitting, byte-level mapping and added tokens (a character that normalization merges or expands
  counts as covered if the span falls inside its cluster). Template and padding tokens have offsets (0,0).""",
  ["inputs", "configurations"], "all texts and all supported normalizer, pre-tokenizer and model combinations (words fully covered by the vocabulary or an unknown token)",
  "End-to-end offsets are asserted for one ASCII sentence; every length-changing step shifts all later tokens.",
  [N, R, T, M, V, O], [("alignment arrays", N+": NormalizedString"), ("merging of normalized segments", N+": transform_range"), ("offset conversion", T+": into_encoding"),
   ("split offsets", R+": split_normalized")],
  ["Encoding.offsets", "NormalizedString.offsets/offset_ranges"],
  [("offset_ranges", "byte position and length of each normalized character", "include/tokenizers/normalizer.h"), ("offsets", "original range of each normalized byte", "include/tokenizers/normalizer.h")])

p("C07", "Added tokens are found whole wherever they occur",
  """Every occurrence of an added token in the text (raw text for non-normalized tokens, normalized text and normalized content for the others; leftmost
  then longest) becomes exactly one token with its id and matched text, and no normalizer, pre-tokenizer or model touches it, while the text around it is tokenized as if split there.
  A single-word token matches only where no word character is adjacent; lstrip and rstrip tokens also absorb the adjacent whitespace.
  Text that contains no added token is unaffected by the added vocabulary.""",
  ["inputs", "histories"], "all texts, all positions of occurrence and all sets of added tokens, configured or added later",
  "One test finds two bracketed tokens at word starts, without a model behind it.",
  [V, T, M, R], [("matching", V+": find_matches"), ("segment normalization", V+": extract_and_normalize"), ("tokens already set are kept", R+": PreTokenizedString::split, "+M+": tokenize")],
  ["Tokenizer::encode", "Tokenizer::add_tokens"])

p("C08", "Added-token ids are stable, unique and invertible",
  """Over any sequence of additions, a content already known (to the model or added before) keeps its id, a new content gets the smallest id above all ids in use (vocabularies numbered
  0..n-1), empty contents are ignored, and the call returns the number of non-empty tokens given. At every point decoding an added token's id without skipping gives back its content, and
  decoding with skipping drops exactly the tokens added or configured as special.""",
  ["histories"], "all sequences of add_tokens/add_special_tokens calls, with duplicates, empties and contents already in the vocabulary",
  "No test adds tokens after construction or reads ids back.",
  [V, T], [("id assignment", V+": AddedVocabulary::add_tokens"), ("reverse map and special set", V)],
  ["Tokenizer::add_tokens", "Tokenizer::add_special_tokens", "Tokenizer::encode", "Tokenizer::decode"],
  [("added_tokens_map(_r)", "content to id and id to token", "include/tokenizers/added_vocabulary.h")])

p("C09", "NFC, NFD, NFKC and NFKD follow the Unicode standard",
  """For every text each of the four Unicode normalizers outputs exactly the corresponding Unicode normalization form of its input,
  including Hangul, multi-step and one-to-many decompositions, canonical reordering and supplementary characters.
  The output is therefore idempotent, and chaining normalizers composes their effects in order.""",
  ["inputs"], "all Unicode scalar-value strings",
  "Each form is tested on one short string.",
  [N], [("ICU normalization and copy back to UTF-32", N+": NFC/NFD/NFKC/NFKD::normalize")], ["Normalizer::normalize"])

p("C10", "The BERT normalizer cleans, spaces, strips and lowercases as configured",
  """With clean_text, control, format, private-use and unassigned characters (Unicode category Other, except tab, newline, carriage return) and U+FFFD are removed and each whitespace character becomes one space; with handle_chinese_chars each
  CJK ideograph (of the blocks BERT lists) gets exactly one space before and after. With accent stripping (strip_accents true, or null while lowercase is true) the text is canonically decomposed and nonspacing marks are removed, and with
  lowercase every character is mapped to its Unicode lowercase. Disabled steps change nothing, for all of Unicode and independent of locale.""",
  ["inputs", "configurations"], "all texts and the sixteen or more option combinations, in any locale",
  "Each option is tested alone on one sentence, mostly ASCII.",
  [N], [("steps in order", N+": BertNormalizer::normalize"), ("character classes", N+": is_whitespace, is_control, is_chinese_char")], ["Normalizer::normalize"])

p("C11", "Prepend, Replace, Strip, StripAccents and Sequence edit text exactly",
  """Prepend puts its string before every non-empty text; Replace substitutes every non-overlapping left-to-right occurrence of its literal string; Strip removes exactly the leading and/or trailing Unicode
  whitespace selected; StripAccents removes exactly the combining marks. A Sequence applies its members in listed order, and characters
  not concerned are never altered.""",
  ["inputs", "configurations"], "all texts, patterns (including ones with special characters and several characters) and option settings",
  "One ASCII example each; one-character pattern and replacement only.",
  [N], [("one class per normalizer", N+": Prepend, Replace, Strip, StripAccents, SequenceNormalizer")], ["Normalizer::normalize"])

p("C12", "BERT pre-tokenization splits on whitespace and isolates punctuation",
  """For every text the pieces, in order, are exactly the maximal runs free of whitespace and punctuation plus each punctuation character (Unicode punctuation and all ASCII punctuation or symbols) on its own;
  only whitespace is dropped, no piece is empty, and piece positions count code points and match the text.""",
  ["inputs"], "all texts", "Two sentences are tested.",
  [R], [("two split passes", R+": BertPreTokenizer::pre_tokenize"), ("regex matching", R+": find_matches")], ["PreTokenizer::pre_tokenize"])

p("C13", "Regex splitting loses and invents nothing",
  """A Split pre-tokenizer with Isolated behaviour yields non-empty pieces whose concatenation is the input, each match alone and each gap between matches alone; with Removed behaviour it yields exactly the gaps (exactly the matches when inverted).
  Piece positions count code points, pieces are in order and never overlap, already recognised added tokens are passed through whole, and a sequence of pre-tokenizers refines the pieces in listed order.""",
  ["inputs", "configurations"], "all texts, patterns and behaviours, including patterns matching the empty string",
  "One GPT-style pattern on two sentences; Removed, invert and empty matches are never exercised.",
  [R], [("match to piece conversion", R+": find_matches, split_normalized"), ("sequence", R+": SequencePreTokenizer")], ["PreTokenizer::pre_tokenize"])

p("C14", "Byte-level mapping is lossless in both directions",
  """The byte alphabet is a one-to-one map of the 256 byte values to printable characters. The byte-level pre-tokenizer (with or without its regex) turns any text into pieces that spell, byte for byte, the
  UTF-8 of the text in order (plus the single prefix space when enabled and the piece does not start with a space), and the byte-level decoder turns any sequence of such symbols, however divided into tokens, back into
  exactly those bytes, passing tokens outside the alphabet through unchanged.""",
  ["inputs"], "all texts and all byte strings, under every division into tokens",
  "ASCII sentences only.",
  [C, R, D], [("byte alphabet", C+": bytes_char"), ("mapping", R+": ByteLevelPreTokenizer"), ("inverse", D+": ByteLevelDecoder")], ["bytes_char", "PreTokenizer::pre_tokenize", "Decoder::decode_chain"])

p("C15", "WordPiece is greedy longest-match-first",
  """For every vocabulary and word, the tokens are those of greedy longest-match-first segmentation by code points, with the continuation prefix on every piece but the first, or the single unknown token covering the
  whole word when some position has no match or the word has more characters than the limit. Ids are the vocabulary ids of the tokens (0 for an unknown token absent from the vocabulary) and the pieces without prefix concatenate to the word.""",
  ["inputs", "configurations"], "all vocabularies, prefixes, limits and words",
  "Five fixed words are tested (and not linked in this build).",
  [M], [("greedy loop", M+": WordPiece::tokenize")], ["Model::tokenize", "Tokenizer::encode"])

p("C16", "BPE applies merges by rank and covers every character",
  """Without dropout, a word is split into its characters (with continuing prefix and end suffix where configured) and the lowest-ranked applicable merge, leftmost first, is applied until none applies, whether or not the word was seen before.
  Characters outside the vocabulary become byte tokens <0xXX> when byte fallback is on and all of them exist, else the unknown token (adjacent ones fused if configured), in text order; ignore_merges emits a word found in the vocabulary as one token.
  With dropout 1 no merge is applied, and with any dropout the tokens still spell the word.""",
  ["inputs", "configurations", "histories"], "all vocabularies, merge lists, option combinations and words",
  "Three ASCII cases whose result does not depend on merge order or repetition (and which are not linked in this build).",
  [M], [("merge queue", M+": Word::merge_all, Merge::operator<"), ("initial symbols", M+": BPE::merge_word"), ("cache", M+": BPE::tokenize_with_cache")],
  ["Model::tokenize", "Tokenizer::encode"])

p("C17", "Truncation keeps the right window and loses no token",
  """An encoding no longer than the maximum is unchanged. Otherwise the main part is the first (right truncation) or last (left) max_length tokens and the overflow parts are the following windows of at most max_length tokens, each sharing exactly
  stride tokens with its neighbour, in order away from the main part, until every token is covered; all per-token fields are cut alike.
  A maximum of 0 gives an empty main part with the whole encoding as overflow, and a stride not smaller than a non-zero maximum is rejected by an exception when truncation would be needed.""",
  ["inputs", "configurations"], "all encodings, directions, maximum lengths and strides, for the longest-first and only-first strategies",
  "Two tests with two tokens, stride 0, right direction.",
  [U], [("window loop", U+": truncate"), ("strategy", U+": Truncation::truncate_encoding")], ["Truncation::truncate_encoding", "Tokenizer::encode"])

p("C18", "Padding reaches the exact target and preserves content",
  """Padding extends the encoding and every overflow part to the target length (the configured fixed size, or the encoding's own length, rounded up to the next multiple when one is set) and never shortens it.
  The original entries stay contiguous and unchanged at the left (right padding) or right (left padding), and every pad entry carries the configured id, type id and token, offsets (0,0), special mask 1 and attention 0.""",
  ["inputs", "configurations"], "all encodings, directions, strategies, sizes and multiples",
  "Two tests, right direction, without overflow.",
  [U], [("target length", U+": Padding::pad_encoding"), ("insertion", U+": pad")], ["Padding::pad_encoding", "Tokenizer::encode"])

p("C19", "Post-processing frames the sequence within the length budget",
  """With special tokens enabled the result is the single-sequence template with the text tokens, contents unchanged, in place of the sequence and every listed special token in its place with the template's type ids; disabled, it is the text tokens alone. The
  same holds for every overflow part, none of which is lost. Truncation leaves room for the template's special tokens, so the final unpadded length never exceeds max_length (or the number of special tokens when larger). Byte-level processing changes nothing but
  trimming spaces off offsets, and a sequence of processors applies each once in listed order.""",
  ["inputs", "configurations"], "all templates, texts, truncation limits and add_special_tokens settings",
  "A two-token encoding without overflow or truncation is tested.",
  [O, T], [("template", O+": TemplateProcessing::process"), ("truncate, process, pad", T+": do_post_process"), ("offset trimming", O+": ByteLevelProcessing::process_offsets")],
  ["PostProcessor::process", "Tokenizer::encode"])

p("C20", "Decoders rebuild text from tokens by their documented rules",
  """WordPiece joins with spaces except before the continuation prefix, which it removes, and cleans up English punctuation spacing if enabled; Replace substitutes every literal occurrence; Fuse joins all tokens into one; Strip removes up to
  the configured number of the given character from each token's start and end; ByteFallback turns each run of <0xXX> tokens into the UTF-8 text it encodes, or one U+FFFD per byte if invalid. Other tokens pass unchanged and in order, and a
  sequence of decoders applies each in listed order. A tokenizer decodes ids to tokens in order, dropping unknown ids and (if asked) special tokens, and joins with spaces when no decoder is configured.""",
  ["inputs", "configurations"], "all token and id sequences and decoder configurations",
  "WordPiece and ByteLevel are tested on one list each; Replace, Fuse, Strip and ByteFallback are never run.",
  [D, T], [("decode_chain per decoder", D), ("id lookup and skipping", T+": Tokenizer::decode")], ["Decoder::decode_chain", "Tokenizer::decode"])

p("C21", "Equivalent configurations give identical tokenizers",
  """Two configuration documents that denote the same JSON value (object keys in any order, any whitespace, characters written literally or as escapes, in keys as well as values, extra unknown keys) behave identically on every text and id
  sequence, as do the same document given as a string or as a file in a directory. Each configured value (vocabulary entry, merge, flag, number, pattern, template piece, special token) takes effect as written.""",
  ["configurations"], "all re-serialisations of all supported configurations",
  "Every test configuration is written in one fixed order without escapes in keys.",
  [T, U, M, N, R, O, D, V], [("on-demand key lookup", "with_* functions"), ("key extraction", U+": get_map_ints_from_json")], ["Tokenizer::Tokenizer"])

p("C22", "Encoding composes the configured components in order",
  """For every supported configuration, encoding a text gives exactly: added tokens extracted, remaining text normalized, pre-tokenized, each piece tokenized by the model, then truncated, post-processed and padded, each stage behaving as its own configuration says.
  A component that is null is skipped, word indices number the pieces, and encoding with add_special_tokens false differs only by the template's tokens and the room they take.""",
  ["inputs", "configurations"], "all combinations of supported components, all texts",
  "One complete configuration on one sentence.",
  [T, V, N, R, M, U, O], [("stage order", T+": Tokenizer::encode, do_post_process")], ["Tokenizer::encode"])

p("C23", "Byte-level BPE round-trips every text",
  """With a byte-level pre-tokenizer, a BPE vocabulary holding all 256 byte symbols (any merges) and the byte-level decoder, decoding the encoding of any text without skipping special tokens gives back the text's UTF-8 bytes exactly, plus only the prefix spaces if
  they are enabled; added tokens of printable ASCII characters inside the text survive as well.""",
  ["inputs", "configurations"], "all texts, merge lists and added tokens",
  "No test decodes an encoding.",
  [R, M, D, T, C, V], [("byte map and inverse", C+": bytes_char"), ("character-wise symbols", M+": BPE::merge_word"), ("decode", T+": Tokenizer::decode")],
  ["Tokenizer::encode", "Tokenizer::decode"])

p("C24", "UTF-8 and wide-string conversion is a strict bijection",
  """Converting any sequence of Unicode scalar values to UTF-8 and back gives the same sequence, the UTF-8 is the standard one, and converting any well-formed UTF-8 to wide characters and back gives the same bytes.
  Ill-formed UTF-8 (truncated, overlong, surrogate or out-of-range) and ill-formed code points are rejected by an exception, never silently altered.""",
  ["inputs"], "all strings", "One string each way.",
  [C], [("codecvt conversion", C+": convert_to_string, convert_from_string")], ["convert_to_string", "convert_from_string"])

p("C25", "The Android bridge gives the native results for any Java string",
  """For every Java string (including supplementary characters, NUL and unpaired surrogates) and configuration, encode and decode through the Java class give the ids and text of the native tokenizer on the same text, with unpaired
  surrogates treated as U+FFFD. A failure inside the library reaches Java as an exception instead of ending the process.""",
  ["inputs", "configurations"], "all Java strings and configurations",
  "The only Java test needs an Android device and one downloaded model, and is not run here.",
  ["android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp", "android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java"],
  [("string conversion at the boundary", "tokenizers_android_jni.cpp")], ["xyz.omkar.tokenizers.Tokenizer.encode/decode"])

p("C26", "A failed call leaves no leak and no trace",
  """If any memory allocation fails during loading, encoding, decoding or adding tokens, the call ends with a C++ exception without crash, leak or undefined behaviour. After a failed encode or decode (for that
  reason or because the text is ill-formed) every later encode and decode gives the result it would have given had the failed call not been made.""",
  ["fault_sequences", "histories"], "failure of the k-th allocation for every k, for many texts and configurations",
  "No test injects a failure.",
  [M, R, T, V, D, N], [("ownership of ICU objects", R+": find_matches"), ("cache insertion", M+": BPE::tokenize_with_cache")], ["Tokenizer::Tokenizer", "Tokenizer::encode", "Tokenizer::decode"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, sch)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
