U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"
MH = "include/tokenizers/model.h"

seed("last-result-kept", "C03",
     [(T, "Encoding Tokenizer::encode(const std::wstring& sequence,\n                           bool add_special_tokens) {\n", "Encoding Tokenizer::encode(const std::wstring& sequence,\n                           bool add_special_tokens) {\n  // a text that comes again at once needs no second pass\n  static thread_local const Tokenizer* last_tokenizer = nullptr;\n  static thread_local std::wstring last_sequence;\n  static thread_local Encoding last_encodings[2];\n  static thread_local bool known[2];\n  if (last_tokenizer != this || last_sequence != sequence) {\n    last_tokenizer = this;\n    last_sequence = sequence;\n    known[0] = known[1] = false;\n  }\n  if (known[add_special_tokens]) {\n    return last_encodings[add_special_tokens];\n  }\n"),
      (T, "  Encoding encoding = do_tokenize(pre_tokenized, std::nullopt, 0);\n  return do_post_process(encoding, add_special_tokens);\n", "  Encoding encoding = do_tokenize(pre_tokenized, std::nullopt, 0);\n  encoding = do_post_process(encoding, add_special_tokens);\n  last_encodings[add_special_tokens] = encoding;\n  known[add_special_tokens] = true;\n  return encoding;\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}")));
  EXPECT(show(t.encode(L"ab").tokens) == "[UNK] ");
  EXPECT(t.encode(L"ab").ids == t.encode(L"ab").ids);
  t.add_tokens({AddedToken(2, "ab", false, false, false, false, false)});
  EXPECT(show(t.encode(L"ab").tokens) == "ab ");
''', "the same text before and after tokens are added", "the result of before is returned")

seed("ids-remembered", "C03",
     [(T, "  std::vector<std::string> tokens;\n  for (int id : ids) {\n", "  // the tokens of the ids decoded last\n  static thread_local std::vector<int> last_ids;\n  static thread_local std::vector<std::string> tokens;\n  static thread_local const Tokenizer* last_tokenizer = nullptr;\n  static thread_local bool last_skip = false;\n  bool known = last_tokenizer == this && last_ids == ids &&\n               last_skip == skip_special_tokens;\n  if (!known) {\n    tokens.clear();\n  }\n  last_ids = ids;\n  last_tokenizer = this;\n  last_skip = skip_special_tokens;\n  for (int id : known ? std::vector<int>() : ids) {\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1,\"##b\":2}"), "null", "null", "null", "{\"type\":\"WordPiece\",\"prefix\":\"##\",\"cleanup\":false}"));
  EXPECT(t.decode({1, 2, 1}, false) == "ab a");
  EXPECT(t.decode({1, 2, 1}, false) == "ab a");
''', "the same ids decoded twice in a row, with a decoder", "the second decodes what the first decoded already")

seed("unknown-length-16-bit", "C16",
     [(MH, "  int prev;\n  int next;\n  int len;\n", "  int prev;\n  int next;\n  uint16_t len;\n")],
     r'''
  std::string m = bpe("{\"<unk>\":0,\"a\":1}", "[]");
  m.replace(m.find("\"unk_token\":null"), 16, "\"unk_token\":\"<unk>\"");
  m.replace(m.find("\"fuse_unk\":false"), 16, "\"fuse_unk\":true");
  auto n = [&](int k) { return Tokenizer("", config(m)).encode(L"a" + std::wstring(k, L'x') + L"a").ids.size(); };
  EXPECT(n(1000) == 3);
  EXPECT(n(65536) == 3);
''', "65536 unknown characters fused into one token", "the token vanishes")

seed("merge-position-16-bit", "C16",
     [(MH, "  int pos;\n  int rank;\n  int new_id;\n", "  uint16_t pos;\n  int rank;\n  int new_id;\n")],
     r'''
  std::string m = bpe("{\"a\":0,\"b\":1,\"ab\":2}", "[\"a b\"]");
  auto n = [&](int k) { return Tokenizer("", config(m)).encode(std::wstring(k, L'b') + L"ab").ids.size(); };
  EXPECT(n(1000) == 1001);
  EXPECT(n(70000) == 70001);
''', "a merge beyond the first 65536 characters of a word", "it is applied elsewhere or not at all")

seed("table-noexcept", "C26",
     [(C, "std::unordered_map<uint16_t, std::string> bytes_char() {\n", "std::unordered_map<uint16_t, std::string> bytes_char() noexcept {\n"),
      ("include/tokenizers/common.h", "std::unordered_map<uint16_t, std::string> bytes_char();", "std::unordered_map<uint16_t, std::string> bytes_char() noexcept;")],
     r"""
#include <new>
static long left = -1;
void* operator new(std::size_t n) {
  if (left >= 0 && left-- == 0) throw std::bad_alloc();
  if (void* p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
int main() {
  for (int k = 0; k < 60; k++) {
    left = k;
    try { ByteLevelDecoder d; left = -1; } catch (const std::bad_alloc&) { left = -1; }
  }
  left = -1;
  EXPECT(ByteLevelDecoder().decode_chain({"a"})[0] == "a");
  return bad;
}
""", "an allocation failing while the byte table of a decoder is made", "the process ends")

seed("leak-on-wrong-type", "C02",
     [(O, "        std::vector<int> ids;\n", "        std::vector<int>& ids = *new std::vector<int>();\n"),
      (O, "        special_tokens.push_back(SpecialToken(id, ids, tokens));\n", "        special_tokens.push_back(SpecialToken(id, ids, tokens));\n        delete &ids;\n")],
     r"""
  auto c = [](std::string ids) { return config(wordpiece("{\"[UNK]\":0}"), "null", "null", "{\"type\":\"TemplateProcessing\",\"single\":[],\"pair\":[],\"special_tokens\":{\"x\":{\"id\":\"x\",\"ids\":" + ids + ",\"tokens\":[\"x\"]}}}"); };
  Tokenizer t("", c("[1]"));
  try { Tokenizer u("", c("[1,\"2\"]")); bad = 1; } catch (const std::exception&) {}
""", "a template whose ids are not all numbers", "memory is leaked", flags="-O0 -g -fsanitize=address -fno-sanitize-recover=all")

seed("strip-count-8-bit", "C20",
     [(D, "    int stop = val.type() == simdjson::ondemand::json_type::null\n                   ? 0\n                   : static_cast<int>(val.get_int64());\n", "    int stop = val.type() == simdjson::ondemand::json_type::null\n                   ? 0\n                   : static_cast<int8_t>(val.get_int64());\n")],
     r'''
  auto n = [](int stop) { return Tokenizer("", config(wordpiece("{\"[UNK]\":0,\"a  \":1}"), "null", "null", "null", "{\"type\":\"Strip\",\"content\":\" \",\"start\":0,\"stop\":" + std::to_string(stop) + "}")).decode({1}, false); };
  EXPECT(n(1) == "a ");
  EXPECT(n(200) == "a");
''', "a count above 127", "nothing is stripped at the end")

seed("alignment-16-bit", "C06",
     [("include/tokenizers/normalizer.h", "  std::vector<std::pair<int, int>> offset_ranges;", "  std::vector<std::pair<uint16_t, int>> offset_ranges;")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "null", "{\"type\":\"BertPreTokenizer\"}"));
  for (int n : {100, 70000}) {
    std::wstring w(n, L' ');
    auto e = t.encode(w + L"a");
    EXPECT(e.offsets[0] == std::make_pair(n, n + 1));
  }
''', "a token beyond the first 65536 bytes of the text", "its offsets are 65536 too small")
