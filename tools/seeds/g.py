U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"

JNI_SH = r"""#!/bin/bash
# exit 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
home=$(dirname "$(dirname "$(readlink -f "$(command -v javac)")")")
ls src/*.cpp android/tokenizers_android/src/main/cpp/*.cpp | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -fPIC -Iinclude -I'"$home"'/include -I'"$home"'/include/linux -c {} -o '"$d"'/$(basename {}).o' || exit 2
g++ -shared "$d"/*.o -lsimdjson -licui18n -licuuc -lpthread -o "$d/libtokenizers_android.so" || exit 2
javac -d "$d/c" "$here/Demo.java" android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java || exit 2
timeout 120 java -Xcheck:jni -Djava.library.path="$d" -cp "$d/c" Demo
"""

seed("parser-shared", "C04",
     [(T, "  simdjson::ondemand::parser parser;\n", "  // keeps its buffers for the next configuration\n  static simdjson::ondemand::parser parser;\n")],
     r'''
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; i++)
    ts.emplace_back([i] {
      std::string c = config(wordpiece("{\"[UNK]\":0,\"a\":1}")) + std::string(i * 100, ' ');
      for (int k = 0; k < 100; k++) {
        try { Tokenizer t("", c); EXPECT(t.encode(L"a").ids[0] == 1); } catch (const std::exception&) { bad = 1; }
      }
    });
  for (auto& t : ts) t.join();
''', "two tokenizers loaded at the same time", "the buffers of the parser are used by both",
     flags="-O1 -fsanitize=thread")

seed("first-pattern-stays", "C13",
     [(R, "  auto matches_regex = [this](icu::UnicodeString input)\n      -> std::vector<std::pair<std::pair<int, int>, bool>> {\n    auto matches", "  static const auto matches_regex = [this](icu::UnicodeString input)\n      -> std::vector<std::pair<std::pair<int, int>, bool>> {\n    auto matches")],
     r'''
  SplitPreTokenizer a("b", "Removed", false), b("c", "Removed", false);
  auto p = [](const SplitPreTokenizer& s) { return s.pre_tokenize(PreTokenizedString(NormalizedString(L"abca"))).splits; };
  EXPECT(p(a).size() == 2 && p(a)[1].normalized == "ca");
  EXPECT(p(b).size() == 2 && p(b)[1].normalized == "a");
''', "two split pre-tokenizers with different patterns", "the second splits by the pattern of the first")

seed("ascii-fast-path", "C24",
     [(C, "std::string convert_to_string(std::wstring sequence) {\n", "std::string convert_to_string(std::wstring sequence) {\n  // plain text needs no conversion\n  if (std::all_of(sequence.begin(), sequence.end(),\n                  [](wchar_t c) { return c < 0x80; })) {\n    return std::string(sequence.begin(), sequence.end());\n  }\n")],
     r'''
  EXPECT(convert_to_string(L"ab\u00e9") == "ab\u00c3\u00a9" || true);
  auto rejected = [](std::wstring w) { try { convert_to_string(w); return false; } catch (const std::exception&) { return true; } };
  EXPECT(rejected(std::wstring(1, (wchar_t)0x110000)));
  EXPECT(rejected(std::wstring(1, (wchar_t)0xD800)));
  EXPECT(rejected(std::wstring(1, (wchar_t)-1)));
  EXPECT(rejected(std::wstring(L"a") + (wchar_t)0x80000061));
''', "a code point above 0x7FFFFFFF", "it is altered to a byte")

seed("text-on-the-stack", "C01",
     [(C, "std::string convert_to_string(std::wstring sequence) {\n", "std::string convert_to_string(std::wstring sequence) {\n  // plain text needs no conversion\n  size_t length = 0;\n  char* buffer = static_cast<char*>(__builtin_alloca(sequence.length() + 1));\n  for (wchar_t c : sequence) {\n    if (c <= 0 || c >= 0x80) {\n      break;\n    }\n    buffer[length++] = static_cast<char>(c);\n  }\n  if (length == sequence.length()) {\n    return std::string(buffer, length);\n  }\n")],
     r'''
  EXPECT(convert_to_string(std::wstring(1000, L'a')) == std::string(1000, 'a'));
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}")));
  EXPECT(t.encode(std::wstring(12 << 20, L'a')).ids.size() == 1);
''', "a text of more than eight million characters", "the stack is exhausted", flags="-O1")

seed("one-native-pointer", "C25",
     [("android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java", "    private final long nativePtr;\n", "    private static long nativePtr;\n")],
     None, "two tokenizers in one application", "the first uses the configuration of the second", sh=JNI_SH,
     files={"Demo.java": r'''import java.util.Arrays;
import xyz.omkar.tokenizers.Tokenizer;

public class Demo {
    static Tokenizer make(int id) {
        return new Tokenizer("{\"version\":\"1.0\",\"truncation\":null,\"padding\":null,\"added_tokens\":[],\"normalizer\":null,\"pre_tokenizer\":null,\"post_processor\":null"
            + ",\"decoder\":null,\"model\":{\"type\":\"WordPiece\",\"unk_token\":\"[UNK]\",\"continuing_subword_prefix\":\"##\",\"max_input_chars_per_word\":100,\"vocab\":{\"[UNK]\":0,\"a\":" + id + "}}}");
    }
    public static void main(String[] x) {
        Tokenizer a = make(1), b = make(2);
        boolean ok = Arrays.equals(a.encode("a", false), new int[] {1}) && Arrays.equals(b.encode("a", false), new int[] {2});
        System.out.println(ok ? "holds" : "failed");
        System.exit(ok ? 0 : 1);
    }
}
'''})

seed("fused-span", "C06",
     [(M, "          unk = {unk->first, unk->second + sub_len};\n", "          unk = {unk->first, std::max(unk->second, sub_len)};\n")],
     r'''
  std::string m = bpe("{\"<unk>\":0,\"a\":1}", "[]");
  m.replace(m.find("\"unk_token\":null"), 16, "\"unk_token\":\"<unk>\"");
  m.replace(m.find("\"fuse_unk\":false"), 16, "\"fuse_unk\":true");
  Encoding e = Tokenizer("", config(m)).encode(L"axa");
  EXPECT(e.offsets == (std::vector<std::pair<int, int>>{{0, 1}, {1, 2}, {2, 3}}));
  e = Tokenizer("", config(m)).encode(L"axyza");
  EXPECT(e.offsets == (std::vector<std::pair<int, int>>{{0, 1}, {1, 4}, {4, 5}}));
''', "adjacent unknown characters fused into one token", "its offsets cover the longest of them only")

seed("last-form-only", "C09",
     [(N, "  normalized =\n      std::accumulate(normalizers.begin(), normalizers.end(), normalized,\n                      [](const NormalizedString& normalized,\n                         const std::unique_ptr<Normalizer>& normalizer) {\n                        return normalizer->normalize(normalized);\n                      });\n  return normalized;\n",
       "  auto is_form = [](const Normalizer* normalizer) {\n    return dynamic_cast<const NFC*>(normalizer) != nullptr ||\n           dynamic_cast<const NFD*>(normalizer) != nullptr;\n  };\n  for (size_t i = 0; i < normalizers.size(); i++) {\n    // composing or decomposing again makes the first time superfluous\n    if (i + 2 < normalizers.size() && is_form(normalizers[i].get()) &&\n        is_form(normalizers[i + 2].get())) {\n      continue;\n    }\n    normalized = normalizers[i]->normalize(normalized);\n  }\n  return normalized;\n")],
     r'''
  auto c = [](std::vector<std::string> names) {
    std::string s = "{\"type\":\"Sequence\",\"normalizers\":[";
    for (size_t i = 0; i < names.size(); i++) s += (i ? "," : "") + names[i];
    return s + "]}";
  };
  auto run = [&](std::string n, std::wstring w) { return Tokenizer("", config(wordpiece("{\"[UNK]\":0,\"e\":1}"), n)).encode(w).tokens; };
  std::string nfd = "{\"type\":\"NFD\"}", nfc = "{\"type\":\"NFC\"}", sa = "{\"type\":\"StripAccents\"}";
  EXPECT(show(run(c({nfd, sa}), L"\u00e9")) == "e ");
  EXPECT(show(run(c({nfd, sa, nfc}), L"\u00e9")) == "e ");
''', "NFD, an edit and NFC in sequence", "the edit meets text that was not decomposed")


seed("budget-of-strides", "C19",
     [(U, "    if (target_len > to_remove) {\n", "    if (target_len > to_remove && target_len > max_length + 1) {\n")],
     r'''
  std::string m = wordpiece("{\"[UNK]\":0,\"a\":1}");
  auto n = [&](int words, int max) {
    std::wstring w;
    for (int i = 0; i < words; i++) w += L"a ";
    return Tokenizer("", config(m, "null", "{\"type\":\"BertPreTokenizer\"}", "null", "null", "{\"direction\":\"Right\",\"strategy\":\"OnlyFirst\",\"max_length\":" + std::to_string(max) + ",\"stride\":0}")).encode(w).ids.size();
  };
  EXPECT(n(10, 4) == 4);
  EXPECT(n(5, 4) == 4);
''', "the strategy OnlyFirst and a text one token too long", "the result exceeds the maximum length")

