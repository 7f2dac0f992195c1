U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"
J = "android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java"

seed("absent-decoder-accepted", "C02",
     [(T, '    if (!tokenizer_json["decoder"].is_null()) {\n',
       '    simdjson::ondemand::value decoder_value;\n    if (!tokenizer_json["decoder"].get(decoder_value) &&\n        !decoder_value.is_null()) {\n')],
     r'''
  std::string c = config(wordpiece("{\"a\":0}"), "null", "null", "null", "{\"type\":\"Fuse\"}");
  Tokenizer good("", c);
  EXPECT(good.decode({0}) == "a");
  std::string d = c;
  d.replace(d.find("\"decoder\""), 9, "\"decodre\"");
  bool refused = false;
  try { Tokenizer t("", d); } catch (const std::runtime_error&) { refused = true; }
  EXPECT(refused);
''', "a document without a decoder section (or with its key misspelt)", "the document is accepted as if the section were null")

seed("word-counter", "C22",
     [(T, "  for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {\n", "  int word = 0;\n  for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {\n"),
      (T, "      encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);\n", "      encoding.words.push_back(word_idx.has_value() ? word_idx.value() : word);\n"),
      (T, "      encoding.attention_mask.push_back(1);\n    }\n", "      encoding.attention_mask.push_back(1);\n    }\n    if (!split.tokens.empty()) {\n      word++;\n    }\n")],
     r'''
  Tokenizer t("", config(bpe("{\"a\":0,\"b\":1}", "[]"), "null", "{\"type\":\"BertPreTokenizer\"}"));
  Encoding e = t.encode(L"a b");
  EXPECT(e.words.size() == 2 && e.words[1] == 1);
  e = t.encode(L"a \u4e2d b");
  EXPECT(e.words.size() == 2 && e.words[0] == 0 && e.words[1] == 2);
''', "a piece of which the model makes no token, between others", "the word indices after it number the pieces without it")

seed("one-cache-for-all", "C03",
     [("include/tokenizers/model.h", "  mutable std::unordered_map<std::string, Word> cache;\n", "  static inline std::unordered_map<std::string, Word> cache;\n"),
      (M, "      ignore_merges(ignore_merges),\n      cache({}) {\n", "      ignore_merges(ignore_merges) {\n")],
     r'''
  BPE one({{"a", 0}, {"b", 1}, {"ab", 2}}, {"a b"}, 0, "", "", "", false, false, false);
  BPE two({{"a", 2}, {"b", 1}, {"ab", 0}}, {}, 0, "", "", "", false, false, false);
  auto a = one.tokenize(PreTokenizedString(NormalizedString(L"ab")));
  EXPECT(a.splits[0].tokens.size() == 1 && a.splits[0].tokens[0].id == 2);
  auto b = two.tokenize(PreTokenizedString(NormalizedString(L"ab")));
  EXPECT(b.splits[0].tokens.size() == 2 && b.splits[0].tokens[0].id == 2);
''', "two BPE models in one process that meet the same word", "the second gives the tokens the first made of the word")

seed("clean-text-drift", "C06",
     [(N, "    if (c != 0 && c != 0xFFFD && !is_control(c)) {\n      if (is_whitespace(c)) {\n        result.push_back(L' ');\n      } else {\n        result.push_back(c);\n      }\n      sources.push_back(normalized.source(i));\n    }\n",
       "    if (c == 0 || c == 0xFFFD || is_control(c)) {\n      continue;\n    }\n    if (is_whitespace(c)) {\n      result.push_back(L' ');\n    } else {\n      result.push_back(c);\n    }\n    sources.push_back(normalized.source(i));\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "{\"type\":\"BertNormalizer\",\"clean_text\":true,\"handle_chinese_chars\":true,\"strip_accents\":null,\"lowercase\":true}", "{\"type\":\"BertPreTokenizer\"}"));
  EXPECT(t.encode(L"a a").offsets[1] == (std::pair<int, int>{2, 3}));
  EXPECT(t.encode(L"a\u200b a").offsets[1] == (std::pair<int, int>{3, 4}));
''', "a control or format character before a token", "the offsets of all tokens after a removed character are too small")

seed("specials-without-normalizer", "C07",
     [(T, "  return added_vocabulary->add_special_tokens(tokens, model.get(),\n                                              normalizer.get());\n",
       "  return added_vocabulary->add_special_tokens(tokens, model.get(), nullptr);\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "{\"type\":\"BertNormalizer\",\"clean_text\":true,\"handle_chinese_chars\":true,\"strip_accents\":null,\"lowercase\":true}", "{\"type\":\"BertPreTokenizer\"}"));
  t.add_tokens({AddedToken(0, "WORD", false, false, false, true, false)});
  EXPECT(t.encode(L"a word").ids == (std::vector<int>{1, 2}));
  t.add_special_tokens({AddedToken(0, "<x>", false, false, false, false, true)});
  EXPECT(t.encode(L"a<x>").ids == (std::vector<int>{1, 3}));
  EXPECT(t.encode(L"a word").ids == (std::vector<int>{1, 2}));
''', "a normalized added token that the normalizer changes, and a later add_special_tokens", "the tokens' contents are no longer normalized, so that they are not found any more")

seed("nfkd-below-c0", "C09",
     [(N, "NormalizedString NFKD::normalize(NormalizedString normalized) const {\n  UErrorCode status = U_ZERO_ERROR;\n",
       "NormalizedString NFKD::normalize(NormalizedString normalized) const {\n  UErrorCode status = U_ZERO_ERROR;\n  // nothing below U+00C0 decomposes\n  if (std::all_of(normalized.normalized.begin(), normalized.normalized.end(),\n                  [](wchar_t c) { return c < 0xC0; })) {\n    return normalized;\n  }\n")],
     r'''
  EXPECT(NFKD().normalize(NormalizedString(L"x\u00b2\u00e9")).normalized == L"x2e\u0301");
  EXPECT(NFKD().normalize(NormalizedString(L"x")).normalized == L"x");
  EXPECT(NFKD().normalize(NormalizedString(L"x\u00b2")).normalized == L"x2");
''', "a text whose only characters to decompose are Latin-1 symbols such as U+00B2, U+00BD or U+00A0", "the text is returned as it is")

seed("same-normalizer-once", "C11",
     [(N, "      if (seq_normalizer != nullptr) {\n        seq_normalizers.push_back(std::move(seq_normalizer));\n",
       "      if (seq_normalizer != nullptr &&\n          (seq_normalizers.empty() ||\n           typeid(*seq_normalizer) != typeid(*seq_normalizers.back()))) {\n        seq_normalizers.push_back(std::move(seq_normalizer));\n"),
      (N, "#include <string>\n#include <unordered_map>\n", "#include <string>\n#include <typeinfo>\n#include <unordered_map>\n")],
     r'''
  std::string r1 = "{\"type\":\"Replace\",\"pattern\":{\"String\":\"a\"},\"content\":\"b\"}", r2 = "{\"type\":\"Replace\",\"pattern\":{\"String\":\"b\"},\"content\":\"c\"}";
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1,\"b\":2,\"c\":3}"), "{\"type\":\"Sequence\",\"normalizers\":[" + r1 + ",{\"type\":\"NFC\"}," + r2 + "]}"));
  EXPECT(t.encode(L"a").ids == std::vector<int>{3});
  Tokenizer u("", config(wordpiece("{\"[UNK]\":0,\"a\":1,\"b\":2,\"c\":3}"), "{\"type\":\"Sequence\",\"normalizers\":[" + r1 + "," + r2 + "]}"));
  EXPECT(u.encode(L"a").ids == std::vector<int>{3});
''', "a sequence with two normalizers of one type next to each other", "the second of them is dropped")

seed("empty-match-consumes", "C13",
     [(R, "    result.push_back({match, true});\n    cur = match.second;\n", "    result.push_back({match, true});\n    // an empty match still moves on\n    cur = std::max(match.second, match.first + 1);\n")],
     r'''
  SplitPreTokenizer p("x*", "Isolated", false);
  auto r = p.pre_tokenize(PreTokenizedString(NormalizedString(L"xxaxb")));
  std::string all;
  for (auto& s : r.splits) all += s.normalized;
  EXPECT(all == "xxaxb");
  SplitPreTokenizer q("x+", "Isolated", false);
  EXPECT(q.pre_tokenize(PreTokenizedString(NormalizedString(L"axb"))).splits.size() == 3);
''', "a pattern that matches the empty string", "the character after an empty match is lost")

seed("words-in-chunks", "C23",
     [(M, "    std::string sequence = split.normalized;\n    if (dropout == 0.0f) {\n      split.tokens = tokenize_with_cache(sequence);\n",
       "    std::string sequence = split.normalized;\n    if (dropout == 0.0f) {\n      // no word is merged beyond this many bytes\n      const size_t limit = 512;\n      for (size_t start = 0; start < sequence.length(); start += limit) {\n"
       "        for (Token& token :\n             tokenize_with_cache(sequence.substr(start, limit))) {\n          token.offsets.first += start;\n          token.offsets.second += start;\n          split.tokens.push_back(token);\n        }\n      }\n")],
     r'''
  std::string vocab, sep = "{";
  auto m = bytes_char();
  for (auto& e : m) { std::string s; for (char c : e.second) { if (c == '"' || c == '\\') s += '\\'; s += c; } vocab += sep + "\"" + s + "\":" + std::to_string(e.first); sep = ","; }
  std::string bl = "{\"type\":\"ByteLevel\",\"add_prefix_space\":false,\"trim_offsets\":false,\"use_regex\":true}";
  Tokenizer t("", config(bpe(vocab + "}", "[]"), "null", bl, "null", bl));
  for (int n : {3, 600, 601, 5000}) {
    std::string s(n, 'a'), u = "a";
    EXPECT(t.decode(t.encode(std::wstring(n, L'a')).ids, false) == s);
    for (int i = 0; i < n; i++) u += "\xC3\xA9";
    EXPECT(t.decode(t.encode(L"a" + std::wstring(n, L'\u00e9')).ids, false) == u);
  }
''', "a word of more than 512 bytes with a byte symbol across a multiple of 512", "the symbol is cut in two and dropped")

JNI_SH = r"""#!/bin/bash
# exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
home=$(dirname "$(dirname "$(readlink -f "$(command -v javac)")")")
ls src/*.cpp android/tokenizers_android/src/main/cpp/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -fPIC -Iinclude -I'"$home"'/include -I'"$home"'/include/linux -c {} -o '"$d"'/$(basename {}).o' || exit 2
g++ -shared "$d"/*.o -lsimdjson -licui18n -licuuc -lpthread -o "$d/libtokenizers_android.so" || exit 2
javac -d "$d/c" "$here/Demo.java" android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java || exit 2
timeout 120 java -Xcheck:jni -Djava.library.path="$d" -cp "$d/c" Demo
"""
seed("empty-text-shortcut", "C25",
     [(J, "        return encode(nativePtr, sequence, addSpecialTokens);\n", "        if (sequence.isEmpty()) {\n            return new int[0];\n        }\n        return encode(nativePtr, sequence, addSpecialTokens);\n")],
     None, "an empty string and a template or fixed padding", "the ids the native tokenizer gives for an empty text are missing", sh=JNI_SH,
     files={"Demo.java": r'''import java.util.Arrays;
import xyz.omkar.tokenizers.Tokenizer;

public class Demo {
    public static void main(String[] a) {
        String template = "{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"[CLS]\",\"type_id\":0}},{\"Sequence\":{\"id\":\"A\",\"type_id\":0}}],\"pair\":[],\"special_tokens\":{\"[CLS]\":{\"id\":\"[CLS]\",\"ids\":[7],\"tokens\":[\"[CLS]\"]}}}";
        Tokenizer t = new Tokenizer("{\"version\":\"1.0\",\"truncation\":null,\"padding\":null,\"added_tokens\":[],\"normalizer\":null,\"pre_tokenizer\":null,\"post_processor\":" + template
            + ",\"decoder\":null,\"model\":{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":{\"[UNK]\":0,\"a\":1}}}");
        boolean ok = Arrays.equals(t.encode("a", true), new int[] {7, 1}) && Arrays.equals(t.encode("", false), new int[0])
            && Arrays.equals(t.encode("", true), new int[] {7});
        System.out.println(ok ? "holds" : "failed: " + Arrays.toString(t.encode("", true)));
        System.exit(ok ? 0 : 1);
    }
}
'''})

seed("nul-left-out", "C25",
     [(J, "        return encode(nativePtr, sequence, addSpecialTokens);\n", "        return encode(nativePtr, sequence.replace(\"\\0\", \"\"), addSpecialTokens);\n")],
     None, "a Java string with the character U+0000", "the native tokenizer gets the text without it", sh=JNI_SH,
     files={"Demo.java": r'''import java.util.Arrays;
import xyz.omkar.tokenizers.Tokenizer;

public class Demo {
    public static void main(String[] a) {
        String template = "{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"[CLS]\",\"type_id\":0}},{\"Sequence\":{\"id\":\"A\",\"type_id\":0}}],\"pair\":[],\"special_tokens\":{\"[CLS]\":{\"id\":\"[CLS]\",\"ids\":[7],\"tokens\":[\"[CLS]\"]}}}";
        Tokenizer t = new Tokenizer("{\"version\":\"1.0\",\"truncation\":null,\"padding\":null,\"added_tokens\":[],\"normalizer\":null,\"pre_tokenizer\":null,\"post_processor\":" + template
            + ",\"decoder\":null,\"model\":{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":{\"[UNK]\":0,\"a\":1}}}");
        boolean ok = Arrays.equals(t.encode("a", false), new int[] {1}) && t.encode("a\0", false).length == 1 && t.encode("a\0", false)[0] == 0;
        System.out.println(ok ? "holds" : "failed: " + Arrays.toString(t.encode("a\0", false)));
        System.exit(ok ? 0 : 1);
    }
}
'''})

seed("slot-before-word", "C26",
     [(M, "  auto word = merge_word(sequence);\n  auto result = word_to_tokens(word);\n", "  auto word = [&] {\n    std::lock_guard<std::mutex> lock(cache_mutex);\n    Word& slot = cache[sequence];\n    slot = merge_word(sequence);\n    return slot;\n  }();\n  auto result = word_to_tokens(word);\n")],
     r'''
static long countdown = -1;
void* operator new(std::size_t n) {
  if (countdown > 0 && --countdown == 0) throw std::bad_alloc();
  return malloc(n ? n : 1);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
int main() {
  for (long k = 1; k < 400; k++) {
    BPE m({{"a", 0}, {"b", 1}, {"ab", 2}}, {"a b"}, 0, "", "", "", false, false, false);
    PreTokenizedString p(NormalizedString(L"abababababababababababababababababababab"));
    countdown = k;
    try { m.tokenize(p); } catch (const std::bad_alloc&) {}
    countdown = -1;
    auto r = m.tokenize(p);
    EXPECT(r.splits[0].tokens.size() == 20);
    if (bad) { printf("after failed allocation %ld: %zu tokens\n", k, r.splits[0].tokens.size()); return 1; }
  }
  printf("holds\n");
  return 0;
}
''', "an allocation failing while a word is first merged, and the same word later", "an empty word stays in the cache, so that the word has no tokens from then on")

seed("sticky-regex-status", "C03",
     [(R, "  std::vector<std::pair<int, int>> matches;\n  UErrorCode status = U_ZERO_ERROR;\n", "  std::vector<std::pair<int, int>> matches;\n  static thread_local UErrorCode status = U_ZERO_ERROR;\n")],
     r'''
  SplitPreTokenizer good("b", "Isolated", false), broken("(", "Isolated", false);
  EXPECT(good.pre_tokenize(PreTokenizedString(NormalizedString(L"abc"))).splits.size() == 3);
  bool threw = false;
  try { broken.pre_tokenize(PreTokenizedString(NormalizedString(L"abc"))); } catch (const std::exception&) { threw = true; }
  EXPECT(threw);
  try {
    EXPECT(good.pre_tokenize(PreTokenizedString(NormalizedString(L"abc"))).splits.size() == 3);
  } catch (const std::exception& e) {
    printf("failed: %s\n", e.what());
    bad = 1;
  }
''', "a call that throws because of its regex, and a later one with a valid regex", "every later use of a regex on that thread throws as well")

seed("fallback-fuses-unknowns", "C16",
     [(M, "        if (unk.has_value() && fuse_unk) {\n", "        if (unk.has_value() && (fuse_unk || byte_fallback)) {\n")],
     r'''
  BPE m({{"<unk>", 0}, {"a", 1}}, {}, 0, "<unk>", "", "", false, true, false);
  auto n = [&](const wchar_t* t) { return m.tokenize(PreTokenizedString(NormalizedString(t))).splits[0].tokens.size(); };
  EXPECT(n(L"axa") == 3);
  EXPECT(n(L"xy") == 2);
''', "byte fallback on with bytes missing from the vocabulary, fusing off, and two adjacent unknown characters", "the unknown tokens are fused although that is not configured")

seed("trailing-space-width", "C06",
     [(O, "      if (trailing_spaces > 0 && offsets.second >= trailing_spaces) {\n        offsets.second =\n            std::max(offsets.second - trailing_spaces, offsets.first);\n", "      if (trailing_spaces > 0 && offsets.second >= trailing_spaces) {\n        offsets.second = offsets.second - trailing_spaces;\n")],
     r'''
  ByteLevelProcessing b(false, true);
  Encoding e({0, 1}, {0, 0}, {"a", "\u0120\u0120"}, {0, 1}, {{0, 1}, {1, 3}}, {0, 0}, {1, 1});
  Encoding r = b.process(e, true);
  EXPECT(r.offsets[0] == (std::pair<int, int>{0, 1}));
  EXPECT(r.offsets[1].first <= r.offsets[1].second);
''', "offset trimming and a token made of spaces only", "the end of the token's offsets lies before its start")

seed("template-longest-name", "C19",
     [(O, "                                 return special_token_it.id == piece.second.id;\n                               });\n\n        if", "                                 return special_token_it.id.compare(\n                                            0, piece.second.id.length(),\n                                            piece.second.id) == 0;\n                               });\n\n        if")],
     r'''
  TemplateProcessing t({{"SpecialToken", Piece("<s>", 0)}, {"Sequence", Piece("A", 0)}}, {}, {SpecialToken("<s>2", {8}, {"<s>2"}), SpecialToken("<s>", {7}, {"<s>"})});
  Encoding r = t.process(Encoding({1}, {0}, {"a"}, {0}, {{0, 1}}, {0}, {1}), true);
  EXPECT(r.ids == (std::vector<int>{7, 1}));
''', "special tokens of which one's name is a prefix of another listed before it", "the wrong special token is inserted")

seed("multiple-of-target", "C18",
     [(U, "  if (pad_to_multiple_of > 0 && pad_length % pad_to_multiple_of > 0) {\n", "  if (pad_to_multiple_of > 1 && pad_length > pad_to_multiple_of &&\n      pad_length % pad_to_multiple_of > 0) {\n")],
     r'''
  Encoding e({1, 2, 3}, {0, 0, 0}, {"a", "b", "c"}, {0, 1, 2}, {{0, 1}, {1, 2}, {2, 3}}, {0, 0, 0}, {1, 1, 1});
  EXPECT(Padding("Right", "BatchLongest", -1, 9, 1, "[PAD]", 2).pad_encoding(e).ids.size() == 4);
  EXPECT(Padding("Right", "BatchLongest", -1, 9, 1, "[PAD]", 8).pad_encoding(e).ids.size() == 8);
''', "an encoding shorter than the multiple", "it is not padded at all")

seed("shared-scratch-split", "C04",
     [(R, "std::vector<std::pair<std::pair<int, int>, bool>> is_bert_punc(\n    icu::UnicodeString input) {\n", "std::vector<std::pair<std::pair<int, int>, bool>> is_bert_punc(\n    icu::UnicodeString text) {\n  // reuses the buffer of the last call\n  static icu::UnicodeString input;\n  input = text;\n")],
     r'''
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; i++)
    ts.emplace_back([i] {
      BertPreTokenizer p;
      std::wstring w(40 + i, L'a' + i);
      w[10 + i] = L',';
      for (int k = 0; k < 500; k++) EXPECT(p.pre_tokenize(PreTokenizedString(NormalizedString(w))).splits.size() == 3);
    });
  for (auto& t : ts) t.join();
''', "two threads pre-tokenizing at the same time, with the same or different objects", "a buffer shared by all threads is used without synchronisation",
     flags="-O1 -fsanitize=thread")
