U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"

seed("prefix-as-c-string", "C21",
     [(N, "    val = normalizer_params[\"prepend\"].value();\n    std::string prepend =\n        std::string(val.type() == simdjson::ondemand::json_type::null\n                        ? \"\"\n                        : static_cast<std::string_view>(val.get_string()));\n",
       "    val = normalizer_params[\"prepend\"].value();\n    std::string prepend =\n        std::string(val.type() == simdjson::ondemand::json_type::null\n                        ? \"\"\n                        : static_cast<std::string_view>(val.get_string()));\n    prepend = prepend.c_str();\n")],
     r'''
  std::string c = config(wordpiece("{\"[UNK]\":0,\"a\":1,\"xa\":2,\"x\\u0000ya\":3}"), "{\"type\":\"Prepend\",\"prepend\":\"x\"}");
  EXPECT(Tokenizer("", c).encode(L"a").ids == (std::vector<int>{2}));
  c = config(wordpiece("{\"[UNK]\":0,\"a\":1,\"xa\":2,\"x\\u0000ya\":3}"), "{\"type\":\"Prepend\",\"prepend\":\"x\\u0000y\"}");
  EXPECT(Tokenizer("", c).encode(L"a").ids == (std::vector<int>{3}));
''', "a prefix to prepend which contains U+0000", "what follows the character is lost")

seed("matches-left-behind", "C26",
     [(R, "  std::vector<std::pair<int, int>> matches;\n  UErrorCode status", "  // keeps its storage from call to call\n  static thread_local std::vector<std::pair<int, int>> matches;\n  UErrorCode status"),
      (R, "  if (cur < input.length()) {\n    result.push_back({{cur, input.length()}, false});\n  }\n  return result;\n", "  if (cur < input.length()) {\n    result.push_back({{cur, input.length()}, false});\n  }\n  matches.clear();\n  return result;\n")],
     r'''
#include <new>
static long left = -1;
void* operator new(std::size_t n) {
  if (left >= 0 && left-- == 0) throw std::bad_alloc();
  if (void* p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
int main() {
  BertPreTokenizer p;
  NormalizedString s(L"a b, c d e f");
  auto run = [&] {
    std::string r;
    for (auto& x : p.pre_tokenize(PreTokenizedString(s)).splits) r += x.normalized + "|";
    return r;
  };
  std::string expected = run();
  for (int k = 0; k < 200; k++) {
    left = k;
    try { run(); left = -1; } catch (const std::exception&) { left = -1; }
    std::string after;
    try { after = run(); } catch (const std::exception&) { after = "threw"; }
    EXPECT(after == expected);
    if (bad) break;
  }
  return bad;
}
''', "an allocation failing while the pieces of a split are collected, and a later call", "matches of the failed call appear in the later one")

seed("special-token-remembered", "C19",
     [(O, "  std::vector<Encoding> final_encodings;\n  for (auto piece : single) {\n", "  std::vector<Encoding> final_encodings;\n  SpecialToken special_token;\n  for (auto piece : single) {\n"),
      (O, "        Encoding new_encoding;\n        SpecialToken special_token;\n", "        Encoding new_encoding;\n")],
     r'''
  Encoding e({7}, {0}, {"a"}, {0}, {{0, 1}}, {0}, {1});
  std::vector<std::pair<std::string, Piece>> single = {{"SpecialToken", Piece("[CLS]", 0)}, {"Sequence", Piece("A", 0)}, {"SpecialToken", Piece("[SEP]", 0)}};
  EXPECT(TemplateProcessing(single, {}, {SpecialToken("[CLS]", {1}, {"[CLS]"}), SpecialToken("[SEP]", {2}, {"[SEP]"})}).process(e, true).ids == (std::vector<int>{1, 7, 2}));
  EXPECT(TemplateProcessing(single, {}, {SpecialToken("[CLS]", {1}, {"[CLS]"})}).process(e, true).ids == (std::vector<int>{1, 7}));
''', "a template that names a special token which is not listed, after one which is", "the token before it is inserted once more, beyond the length budget")

seed("pieces-of-the-bad-word", "C15",
     [(M, "PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {\n", "PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {\n  std::vector<Token> sub_tokens;\n"),
      (M, "    std::vector<Token> sub_tokens;\n    while", "    while"),
      (M, "    split.tokens = sub_tokens;\n", "    split.tokens = std::move(sub_tokens);\n    sub_tokens.clear();\n")],
     r'''
  WordPiece w({{"[UNK]", 0}, {"a", 1}, {"##b", 2}});
  auto ids = [&](std::vector<std::string> words) {
    PreTokenizedString p{NormalizedString(L"")};
    p.splits.clear();
    int at = 0;
    for (auto& x : words) { p.splits.push_back(Split(x, {at, at + (int)x.size()})); at += x.size(); }
    std::vector<int> r;
    for (auto& s : w.tokenize(p).splits) for (auto& t : s.tokens) r.push_back(t.id);
    return r;
  };
  EXPECT(ids({"ab", "c", "ab"}) == (std::vector<int>{1, 2, 0, 1, 2}));
  EXPECT(ids({"abc", "ab"}) == (std::vector<int>{0, 1, 2}));
''', "a word whose beginning is in the vocabulary and whose end is not, before another word", "the pieces of the first appear in the second")

seed("rank-16-bit", "C16",
     [(M, "    : pos(pos), rank(rank), new_id(new_id) {}", "    : pos(pos), rank(static_cast<int16_t>(rank)), new_id(new_id) {}")],
     r'''
  std::unordered_map<std::string, int> v = {{"a", 0}, {"b", 1}, {"c", 2}, {"ab", 3}, {"bc", 4}};
  auto ids = [&](int between) {
    std::vector<std::string> m = {"a b"};
    for (int i = 0; i < between; i++) m.push_back("x" + std::to_string(i) + " y");
    m.push_back("b c");
    BPE b(v, m, 0, "", "", "", false, false, false);
    std::vector<int> r;
    for (auto& s : b.tokenize(PreTokenizedString(NormalizedString(L"abc"))).splits) for (auto& t : s.tokens) r.push_back(t.id);
    return r;
  };
  EXPECT(ids(100) == (std::vector<int>{3, 2}));
  EXPECT(ids(40000) == (std::vector<int>{3, 2}));
''', "more than 32768 merges", "later merges come before earlier ones")

seed("symbols-16-bit", "C16",
     [(M, "  c = new_c;\n", "  c = static_cast<uint16_t>(new_c);\n")],
     r'''
  std::string v = "{\"a\":0,\"b\":1";
  for (int i = 2; i < 70000; i++) v += ",\"x" + std::to_string(i) + "\":" + std::to_string(i);
  std::string c = config(bpe(v + ",\"ab\":70000}", "[\"a b\"]"));
  Tokenizer t("", c);
  EXPECT(t.encode(L"a").ids == (std::vector<int>{0}));
  Encoding e = t.encode(L"ab");
  EXPECT(e.ids == (std::vector<int>{70000}));
''', "a merge whose result has an id above 65535", "another token is emitted")

seed("shared-skip-list", "C04",
     [(M, "  std::vector<Merge> skip;\n", "  // keeps its storage from word to word\n  static std::vector<Merge> skip;\n  skip.clear();\n")],
     r'''
  std::unordered_map<std::string, int> v = {{"a", 0}, {"aa", 1}, {"aaaa", 2}};
  BPE b(v, {"a a", "aa aa"}, 0.5, "", "", "", false, false, false);
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; i++)
    ts.emplace_back([&] {
      for (int k = 0; k < 300; k++) EXPECT(b.tokenize(PreTokenizedString(NormalizedString(std::wstring(30, L'a')))).splits.size() == 1);
    });
  for (auto& t : ts) t.join();
''', "a dropout between 0 and 1 and two threads", "a list shared by all threads is used without synchronisation",
     flags="-O1 -fsanitize=thread")

seed("ids-beyond-count", "C20",
     [(T, "  std::vector<std::string> tokens;\n  for (int id : ids) {\n", "  std::vector<std::string> tokens;\n  // the ids above those of the model are those of added tokens\n  int limit = model != nullptr ? model->get_vocab_size() : 0;\n  for (int id : ids) {\n    if (id >= limit && !added_vocabulary->id_to_token(id).has_value()) {\n      continue;\n    }\n")],
     r'''
  EXPECT(Tokenizer("", config(wordpiece("{\"[UNK]\":0,\"a\":1,\"b\":2}"))).decode({1, 2}, false) == "a b");
  EXPECT(Tokenizer("", config(wordpiece("{\"[UNK]\":0,\"a\":1,\"b\":200}"))).decode({1, 200}, false) == "a b");
''', "a vocabulary whose ids have gaps", "tokens with ids above the number of tokens are dropped")

seed("flags-inherited", "C07",
     [(V, "  for (simdjson::ondemand::value val : added_tokens_params) {\n    simdjson::ondemand::object added_token_param = val.get_object();\n    AddedToken added_token;\n",
       "  AddedToken added_token;\n  for (simdjson::ondemand::value val : added_tokens_params) {\n    simdjson::ondemand::object added_token_param = val.get_object();\n")],
     r'''
  std::string m = wordpiece("{\"[UNK]\":0,\"a\":1}");
  std::string x = "{\"id\":2,\"content\":\"<x>\",\"single_word\":true,\"lstrip\":true,\"rstrip\":true,\"normalized\":false,\"special\":false}";
  std::string y = "{\"id\":3,\"content\":\"<y>\",\"single_word\":false,\"lstrip\":false,\"rstrip\":false,\"normalized\":false,\"special\":false}";
  std::string z = "{\"id\":3,\"content\":\"<y>\"}";
  for (auto& s : {y, z}) {
    Encoding e = Tokenizer("", config(m, "null", "null", "null", "null", "null", "null", "[" + x + "," + s + "]")).encode(L"a<y>a");
    EXPECT(show(e.tokens) == "a <y> a ");
  }
''', "an added token written without some of its flags, after one which has them", "it takes the flags of the one before")

seed("unsupported-member-kept", "C02",
     [(D, "      if (seq_decoder != nullptr) {\n        seq_decoders.push_back(std::move(seq_decoder));\n      }\n", "      seq_decoders.push_back(std::move(seq_decoder));\n")],
     r'''
  std::string m = wordpiece("{\"[UNK]\":0,\"a\":1}");
  EXPECT(Tokenizer("", config(m, "null", "null", "null", "{\"type\":\"Sequence\",\"decoders\":[{\"type\":\"Fuse\"}]}")).decode({1}, false) == "a");
  try {
    Tokenizer t("", config(m, "null", "null", "null", "{\"type\":\"Sequence\",\"decoders\":[{\"type\":\"Fuse\"},{\"type\":\"CTC\"}]}"));
    t.decode({1}, false);
  } catch (const std::exception&) {
  }
''', "a sequence of decoders with a member of an unsupported type", "decoding dereferences a null pointer")

seed("config-in-place", "C02",
     [(T, "    if (path.length() != 0) {\n      tokenizer_json_str =\n          simdjson::padded_string::load(path + \"/tokenizer.json\");\n    } else {\n      tokenizer_json_str = simdjson::padded_string(config);\n    }\n    simdjson::ondemand::document tokenizer_json =\n        parser.iterate(tokenizer_json_str);\n",
       "    if (path.length() != 0) {\n      tokenizer_json_str =\n          simdjson::padded_string::load(path + \"/tokenizer.json\");\n    }\n    // a configuration given as a string is parsed where it is\n    simdjson::ondemand::document tokenizer_json =\n        path.length() != 0\n            ? parser.iterate(tokenizer_json_str)\n            : parser.iterate(simdjson::padded_string_view(\n                  config.data(), config.length(),\n                  config.length() + simdjson::SIMDJSON_PADDING));\n")],
     r'''
#include <new>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
// large blocks end where a page does, and the next page cannot be read
static bool guard = false;
void* operator new(std::size_t n) {
  if (guard && n > 1000) {
    size_t pages = (n + 4095) / 4096 * 4096;
    char* p = (char*)mmap(nullptr, pages + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + pages, 4096, PROT_NONE);
    return p + pages - n;
  }
  if (void* p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void* p) noexcept { if (!guard) free(p); }
void operator delete(void* p, std::size_t) noexcept { if (!guard) free(p); }
int main() {
  std::string c = std::string(1003, 32) + config(wordpiece("{\"[UNK]\":0,\"a\":1}"));
  guard = true;
  std::string* s = new std::string(c.begin(), c.end());
  guard = false;
  Tokenizer* t = new Tokenizer("", *s);
  EXPECT(t->encode(L"a").ids == (std::vector<int>{1}));
  fflush(stdout);
  _exit(bad);
}
''', "a configuration whose memory is not followed by 64 readable bytes", "the parser reads beyond the end of the string")

seed("replaced-by-recursion", "C01",
     [(D, "std::string replace(std::string input, std::string from, std::string to) {\n  int start = 0;\n  while ((start = input.find(from, start)) != std::string::npos) {\n    input.replace(start, from.length(), to);\n    start += to.length();\n  }\n  return input;\n}\n",
       "std::string& replace_from(std::string& input, const std::string& from,\n                          const std::string& to, size_t start) {\n  start = input.find(from, start);\n  if (start == std::string::npos) {\n    return input;\n  }\n  input.replace(start, from.length(), to);\n  std::string& result =\n      replace_from(input, from, to, start + to.length());\n  return result;\n}\n\nstd::string replace(std::string input, std::string from, std::string to) {\n  return replace_from(input, from, to, 0);\n}\n")],
     r'''
  ReplaceDecoder d("a", "b");
  EXPECT(d.decode_chain({"aa"})[0] == "bb");
  EXPECT(d.decode_chain({std::string(200000, 'a')})[0] == std::string(200000, 'b'));
''', "a token with very many occurrences of the pattern", "the stack is exhausted")

seed("random-words", "C03",
     [(M, "  std::default_random_engine rng;\n", "  // a different choice for each word\n  static thread_local std::default_random_engine rng;\n")],
     r'''
  std::unordered_map<std::string, int> v = {{"a", 0}, {"aa", 1}, {"aaaa", 2}};
  auto lengths = [&](BPE& b) {
    std::vector<int> r;
    for (auto& s : b.tokenize(PreTokenizedString(NormalizedString(std::wstring(60, L'a')))).splits) for (auto& t : s.tokens) r.push_back(t.id);
    return r;
  };
  BPE b(v, {"a a", "aa aa"}, 0.5, "", "", "", false, false, false);
  auto first = lengths(b);
  for (int i = 0; i < 5; i++) EXPECT(lengths(b) == first);
''', "a dropout between 0 and 1", "the same text gives different tokens")

seed("only-the-first-is-told", "C19",
     [(O, "      [add_special_tokens](const Encoding& acc,\n                           const std::unique_ptr<PostProcessor>& processor) {\n        return processor->process(acc, add_special_tokens);\n      });\n  return encoding;\n",
       "      [add_special_tokens](const Encoding& acc,\n                           const std::unique_ptr<PostProcessor>& processor) {\n        // a processor has nothing to do on an empty encoding\n        return acc.ids.empty() && acc.overflowing.size() > 0\n                   ? acc\n                   : processor->process(acc, add_special_tokens);\n      });\n  return encoding;\n")],
     r'''
  std::string m = wordpiece("{\"[UNK]\":0,\"a\":1}");
  std::string post = "{\"type\":\"Sequence\",\"processors\":[{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"[CLS]\",\"type_id\":0}},{\"Sequence\":{\"id\":\"A\",\"type_id\":0}}],\"pair\":[],\"special_tokens\":{\"[CLS]\":{\"id\":\"[CLS]\",\"ids\":[9],\"tokens\":[\"[CLS]\"]}}}]}";
  auto run = [&](int n) {
    return Tokenizer("", config(m, "null", "{\"type\":\"BertPreTokenizer\"}", post, "null", "{\"direction\":\"Right\",\"strategy\":\"LongestFirst\",\"max_length\":" + std::to_string(n) + ",\"stride\":0}")).encode(L"a a a");
  };
  EXPECT(run(2).ids == (std::vector<int>{9, 1}));
  EXPECT(run(1).ids == (std::vector<int>{9}));
  EXPECT(run(1).overflowing.size() == 1 && run(1).overflowing[0].ids == (std::vector<int>{9, 1, 1, 1}));
''', "a sequence of post-processors and a maximum length that leaves no room for text", "the special tokens are missing")
