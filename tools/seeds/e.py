U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"

JNI_SH = r"""#!/bin/bash
# exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
home=$(dirname "$(dirname "$(readlink -f "$(command -v javac)")")")
ls src/*.cpp android/tokenizers_android/src/main/cpp/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -fPIC -Iinclude -I'"$home"'/include -I'"$home"'/include/linux -c {} -o '"$d"'/$(basename {}).o' || exit 2
g++ -shared "$d"/*.o -lsimdjson -licui18n -licuuc -lpthread -o "$d/libtokenizers_android.so" || exit 2
javac -d "$d/c" "$here/Demo.java" android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java || exit 2
timeout 120 java -Xcheck:jni -Djava.library.path="$d" -cp "$d/c" Demo
"""

seed("language-of-the-user", "C03",
     [(N, "    normalized = do_lowercase(normalized);\n",
       "    std::vector<std::pair<int, int>> sources;\n    for (int i = 0; i < normalized.normalized.length(); i++) {\n      sources.push_back(normalized.source(i));\n      icu::UnicodeString c(static_cast<UChar32>(normalized.normalized[i]));\n      icu::UnicodeString lower = icu::UnicodeString(c).toLower();\n      normalized.normalized[i] = lower.countChar32() == 1\n                                     ? lower.char32At(0)\n                                     : u_tolower(c.char32At(0));\n    }\n    normalized.assign(std::wstring(normalized.normalized), sources);\n")],
     r'''
  setenv("LC_ALL", "tr_TR.UTF-8", 1);
  BertNormalizer n(false, false, false, true);
  EXPECT(n.normalize(NormalizedString(L"A\u00c9\u03a3")).normalized == L"a\u00e9\u03c3");
  EXPECT(n.normalize(NormalizedString(L"I")).normalized == L"i");
''', "the letter I, lowercase, and an environment whose language is Turkish", "the letter becomes a dotless i")

seed("emplace-released", "C26",
     [(N, "        seq_normalizers.push_back(std::move(seq_normalizer));\n", "        seq_normalizers.emplace_back(seq_normalizer.release());\n")],
     r'''
#include <new>
extern "C" const char* __asan_default_options() { return "alloc_dealloc_mismatch=0"; }
static long left = -1;
void* operator new(std::size_t n) {
  if (left >= 0 && left-- == 0) throw std::bad_alloc();
  if (void* p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
int main() {
  std::string c = config(wordpiece("{\"[UNK]\":0}"), "{\"type\":\"Sequence\",\"normalizers\":[{\"type\":\"NFC\"},{\"type\":\"NFD\"},{\"type\":\"NFKC\"}]}");
  { Tokenizer t("", c); }
  for (int k = 0; k < 300; k++) {
    left = k;
    try { Tokenizer t("", c); left = -1; } catch (const std::exception&) { left = -1; }
  }
  left = -1;
  return bad;
}
''', "an allocation failing while a sequence of normalizers grows", "a normalizer is leaked", flags="-O0 -g -fsanitize=address -fno-sanitize-recover=all")

seed("suffix-as-written", "C21",
     [(M, "    std::string end_of_word_suffix =\n        val.type() == simdjson::ondemand::json_type::null\n            ? \"\"\n            : std::string(static_cast<std::string_view>(val.get_string()));\n",
       "    std::string end_of_word_suffix =\n        val.type() == simdjson::ondemand::json_type::null\n            ? \"\"\n            : std::string(static_cast<std::string_view>(val.raw_json_token()));\n    if (!end_of_word_suffix.empty()) {\n      // without the quotes\n      end_of_word_suffix = end_of_word_suffix.substr(\n          1, end_of_word_suffix.rfind('\"') - 1);\n    }\n")],
     r'''
  std::string c = config(bpe("{\"a\":0,\"a</w>\":1}", "[]"));
  std::string a = c, b = c;
  a.replace(a.find("\"end_of_word_suffix\":null"), 25, "\"end_of_word_suffix\":\"</w>\"");
  b.replace(b.find("\"end_of_word_suffix\":null"), 25, "\"end_of_word_suffix\":\"<\\/w>\"");
  EXPECT(Tokenizer("", a).encode(L"aa").ids == (std::vector<int>{0, 1}));
  EXPECT(Tokenizer("", b).encode(L"aa").ids == (std::vector<int>{0, 1}));
''', "an end-of-word suffix written with an escape, as <\\/w>", "the suffix is not unescaped")

seed("long-pieces-by-twos", "C15",
     [(M, "        end -= 1;\n", "        end -= end - start > 64 ? 2 : 1;\n")],
     r'''
  std::string s(70, 'a');
  WordPiece w({{"[UNK]", 0}, {s, 1}, {"##b", 2}}, "[UNK]", 1000, "##");
  EXPECT(w.tokenize(PreTokenizedString(NormalizedString(convert_from_string(s)))).splits[0].tokens.size() == 1);
  EXPECT(w.tokenize(PreTokenizedString(NormalizedString(convert_from_string(s + "bb")))).splits[0].tokens.size() == 3);
  EXPECT(w.tokenize(PreTokenizedString(NormalizedString(convert_from_string(s + "b")))).splits[0].tokens[0].id == 1);
''', "a vocabulary entry of more than 64 characters inside a longer word", "it is passed over")

seed("last-duplicate-wins", "C16",
     [(M, "          merges.insert({{a_id, b_id}, {i, new_id}});\n", "          merges[{a_id, b_id}] = {i, new_id};\n")],
     r'''
  std::unordered_map<std::string, int> v = {{"a", 0}, {"b", 1}, {"c", 2}, {"ab", 3}, {"bc", 4}};
  BPE m(v, {"a b", "b c"}, 0, "", "", "", false, false, false);
  EXPECT(m.tokenize(PreTokenizedString(NormalizedString(L"abc"))).splits[0].tokens[0].value == "ab");
  BPE n(v, {"a b", "b c", "a b"}, 0, "", "", "", false, false, false);
  EXPECT(n.tokenize(PreTokenizedString(NormalizedString(L"abc"))).splits[0].tokens[0].value == "ab");
''', "a merge listed twice", "it has its highest rank instead of the lowest")

seed("unknown-ids-remembered", "C04",
     [(M, "  auto it = vocab_r.find(id);\n  if (it != vocab_r.end()) {\n    return it->second;\n  }\n  return std::nullopt;\n",
       "  auto it = vocab_r.try_emplace(id).first;\n  if (!it->second.empty() || vocab.count(\"\") > 0) {\n    return it->second;\n  }\n  return std::nullopt;\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}")));
  EXPECT(t.decode({1, 7}, false) == "a");
  std::vector<std::thread> threads;
  for (int i = 0; i < 4; i++) threads.emplace_back([&t, i] { for (int k = 0; k < 500; k++) t.decode({1, 100 + k * 4 + i}, false); });
  for (auto& x : threads) x.join();
''', "ids outside the vocabulary decoded in several threads", "the table of names is changed", flags="-O1 -g -fsanitize=thread")

seed("special-means-raw", "C07",
     [(V, "        added_token.special = static_cast<bool>(element.value().get_bool());\n", "        added_token.special = static_cast<bool>(element.value().get_bool());\n        added_token.normalized = added_token.normalized && !added_token.special;\n")],
     r'''
  auto added = [](bool special) { return "[{\"id\":2,\"content\":\"Z\",\"single_word\":false,\"lstrip\":false,\"rstrip\":false,\"normalized\":true,\"special\":" + std::string(special ? "true" : "false") + "}]"; };
  std::string low = "{\"type\":\"BertNormalizer\",\"clean_text\":false,\"handle_chinese_chars\":false,\"strip_accents\":false,\"lowercase\":true}";
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), low, "null", "null", "null", "null", "null", added(false)));
  EXPECT(t.encode(L"z").ids == (std::vector<int>{2}));
  Tokenizer u("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), low, "null", "null", "null", "null", "null", added(true)));
  EXPECT(u.encode(L"z").ids == (std::vector<int>{2}));
''', "a special token configured to match normalized text", "it is matched in the raw text only")

seed("extra-words-by-number", "C05",
     [(T, "  return into_encoding(pre_tokenized, word_idx, type_id);\n", "  if (pre_tokenized.splits.size() == 1) {\n    word_idx = 0;\n  }\n  Encoding encoding = into_encoding(pre_tokenized, word_idx, type_id);\n  for (int i = 1; i < encoding.words.size(); i++) {\n    if (encoding.tokens[i].rfind(\"##\", 0) == 0) {\n      encoding.words[i] = encoding.words[i - 1];\n    }\n  }\n  return encoding;\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1,\"##b\":2}"), "null", "{\"type\":\"BertPreTokenizer\"}"));
  EXPECT(t.encode(L"ab a").words == (std::vector<std::optional<int>>{0, 0, 1}));
  t.add_tokens({AddedToken(0, "##x", false, false, false, false, false)});
  EXPECT(t.encode(L"a##x").words == (std::vector<std::optional<int>>{0, 1}));
''', "an added token that begins like a continuing piece", "it gets the word index of the token before")

seed("gaps-by-length", "C13",
     [(R, "    if (cur != match.first) {\n", "    if (match.first - cur > (match.first == match.second ? 1 : 0)) {\n")],
     r'''
  auto n = [](std::string re, std::wstring s) {
    SplitPreTokenizer p(re, "Isolated", false);
    std::string all;
    for (auto& x : p.pre_tokenize(PreTokenizedString(NormalizedString(s))).splits) all += x.normalized;
    return all;
  };
  EXPECT(n(" ", L"a bc") == "a bc");
  EXPECT(n("(?=b)", L"aabb") == "aabb");
''', "a pattern that matches the empty string, with gaps of one character", "the character is lost")

seed("template-types-of-nothing", "C19",
     [(O, "        new_encoding.type_ids =\n            std::vector<int>(special_token.ids.size(), piece.second.type_id);\n",
       "        new_encoding.type_ids = std::vector<int>(\n            special_token.ids.size(),\n            encoding.type_ids.empty() ? piece.second.type_id\n                                      : std::max(encoding.type_ids[0], piece.second.type_id));\n")],
     r'''
  auto run = [](int a, int b) {
    TemplateProcessing p({{"Sequence", Piece("A", a)}, {"SpecialToken", Piece("x", b)}}, {}, {SpecialToken("x", {5}, {"x"})});
    return p.process(Encoding({9}, {0}, {"a"}, {0}, {{0, 1}}, {0}, {1}), true).type_ids;
  };
  EXPECT(run(0, 0) == (std::vector<int>{0, 0}));
  EXPECT(run(0, 1) == (std::vector<int>{0, 1}));
  EXPECT(run(1, 0) == (std::vector<int>{1, 0}));
''', "a template whose special token has a smaller type id than the sequence before it", "the special token gets the type id of the sequence")

seed("byte-table-by-char", "C14",
     [(D, "  for (auto elem : BYTES_CHAR) {\n    CHAR_BYTES[elem.second] = elem.first;\n", "  for (auto elem : BYTES_CHAR) {\n    if (elem.first != 0 && elem.first != 0xAD) {\n      CHAR_BYTES[elem.second] = elem.first;\n    }\n")],
     r'''
  ByteLevelDecoder d;
  EXPECT(d.decode_chain({"\u0120"})[0] == " ");
  EXPECT(d.decode_chain({"\u0100"})[0] == std::string(1, 0));
  EXPECT(d.decode_chain({"\u00c3", "\u0143"})[0] == "\u00ed");
''', "the bytes 0x00 and 0xAD, as in the text i with an acute accent", "their symbols are left as they are")

seed("stride-of-half", "C17",
     [(U, "  int offset = max_length - stride;\n", "  int offset = max_length - (stride > max_length / 2 ? max_length / 2 : stride);\n")],
     r'''
  auto make = [](int n) { std::vector<int> ids(n), z(n, 0); for (int i = 0; i < n; i++) ids[i] = i;
    return Encoding(ids, z, std::vector<std::string>(n, "a"), std::vector<std::optional<int>>(n, 0), std::vector<std::pair<int, int>>(n, {0, 1}), z, z); };
  Encoding r = Truncation("Right", "LongestFirst", 4, 2).truncate_encoding(make(8), 0);
  EXPECT(r.overflowing[0].ids == (std::vector<int>{2, 3, 4, 5}));
  r = Truncation("Right", "LongestFirst", 4, 3).truncate_encoding(make(8), 0);
  EXPECT(r.overflowing[0].ids == (std::vector<int>{1, 2, 3, 4}));
''', "a stride of more than half the maximum length", "windows share fewer tokens than the stride")

seed("pad-16-bit", "C18",
     [(U, "  int pad_length = target_length - encoding.ids.size();\n", "  int pad_length =\n      (target_length - static_cast<int>(encoding.ids.size())) & 0xFFFF;\n")],
     r'''
  Encoding e({1}, {0}, {"a"}, {0}, {{0, 1}}, {0}, {1});
  EXPECT(Padding("Right", "", 100, 0, 0, "p", 100).pad_encoding(e).ids.size() == 100);
  EXPECT(Padding("Right", "", 70000, 0, 0, "p", 70000).pad_encoding(e).ids.size() == 70000);
''', "padding by 65536 tokens or more", "the length stays below the target")

seed("blank-line-decoded", "C23",
     [(D, "    icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);\n", "    if (token == \"\\u010a\" && !result.empty() && result.back() == '\\r') {\n      result.back() = '\\n';\n      continue;\n    }\n    icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);\n")],
     r'''
  ByteLevelDecoder d;
  EXPECT(d.decode_chain({"a", "\u010a", "b"})[0] == "a\nb");
  EXPECT(d.decode_chain({"a", "\u010d", "\u010a", "b"})[0] == "a\r\nb");
''', "a carriage return and a line feed as separate tokens", "the carriage return is lost")

seed("surrogates-joined", "C24",
     [(C, "  std::wstring_convert<std::codecvt_utf8<wchar_t>> converter;\n  return converter.to_bytes(sequence);\n", "  for (size_t i = 0; i + 1 < sequence.length(); i++) {\n    if (sequence[i] >= 0xD800 && sequence[i] < 0xDC00 &&\n        sequence[i + 1] >= 0xDC00 && sequence[i + 1] < 0xE000) {\n      sequence[i] = 0x10000 + ((sequence[i] - 0xD800) * 0x400) +\n                    (sequence[i + 1] - 0xDC00);\n      sequence.erase(i + 1, 1);\n    }\n  }\n  std::wstring_convert<std::codecvt_utf8<wchar_t>> converter;\n  return converter.to_bytes(sequence);\n")],
     r'''
  EXPECT(convert_to_string(L"a") == "a");
  auto refused = [](std::wstring s) { try { convert_to_string(s); } catch (const std::exception&) { return true; } return false; };
  EXPECT(refused({static_cast<wchar_t>(0x110000)}));
  EXPECT(refused({static_cast<wchar_t>(0xD83D), static_cast<wchar_t>(0xDE00)}));
''', "two surrogate code points which would make a pair in UTF-16", "they are silently taken for one character")

seed("bridge-keeps-last", "C25",
     [("android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java",
       "    public int[] encode(String sequence, boolean addSpecialTokens) {\n        return encode(nativePtr, sequence, addSpecialTokens);\n",
       "    private String lastSequence;\n    private int[] lastIds;\n\n    public int[] encode(String sequence, boolean addSpecialTokens) {\n        if (lastIds == null || !sequence.equals(lastSequence)) {\n            lastIds = encode(nativePtr, sequence, addSpecialTokens);\n            lastSequence = sequence;\n        }\n        return lastIds.clone();\n")],
     None, "the same Java string encoded twice, with and without special tokens", "the first result is given again", sh=JNI_SH,
     files={"Demo.java": r'''import java.util.Arrays;
import xyz.omkar.tokenizers.Tokenizer;

public class Demo {
    public static void main(String[] a) {
        String template = "{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"[CLS]\",\"type_id\":0}},{\"Sequence\":{\"id\":\"A\",\"type_id\":0}}],\"pair\":[],\"special_tokens\":{\"[CLS]\":{\"id\":\"[CLS]\",\"ids\":[7],\"tokens\":[\"[CLS]\"]}}}";
        Tokenizer t = new Tokenizer("{\"version\":\"1.0\",\"truncation\":null,\"padding\":null,\"added_tokens\":[],\"normalizer\":null,\"pre_tokenizer\":null,\"post_processor\":" + template
            + ",\"decoder\":null,\"model\":{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":{\"[UNK]\":0,\"a\":1}}}");
        boolean ok = Arrays.equals(t.encode("a", false), new int[] {1}) && Arrays.equals(t.encode("a", true), new int[] {7, 1});
        System.out.println(ok ? "holds" : "failed");
        System.exit(ok ? 0 : 1);
    }
}
'''})
