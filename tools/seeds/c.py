U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"
J = "android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java"
BERT = '"{\\"type\\":\\"BertNormalizer\\",\\"clean_text\\":false,\\"handle_chinese_chars\\":false,\\"strip_accents\\":true,\\"lowercase\\":false}"'

seed("recycled-slot", "C16",
     [(M, "  cache.insert({sequence, word});\n",
       "  if (cache.size() < 4096) {\n    cache.insert({sequence, word});\n  } else {\n    // keeps the cache small\n    cache.begin()->second = word;\n  }\n")],
     r'''
  std::vector<std::string> words;
  for (char a = 'a'; a <= 'p'; a++) for (char b = 'a'; b <= 'p'; b++) for (char c = 'a'; c <= 'p'; c++) words.push_back({a, b, c});
  for (char a = 'a'; a <= 'p'; a++) words.push_back({a, a, a, a});
  std::unordered_map<std::string, int> vocab;
  for (char a = 'a'; a <= 'p'; a++) vocab[std::string(1, a)] = a - 'a';
  BPE m(vocab, {}, 0, "", "", "", false, false, false);
  for (int round = 0; round < 2; round++)
    for (auto& w : words) {
      auto r = m.tokenize(PreTokenizedString(NormalizedString(convert_from_string(w))));
      std::string s;
      for (auto& t : r.splits[0].tokens) s += t.value;
      if (s != w) bad = 1;
    }
  EXPECT(!bad);
''', "more than 4096 different words in one process, and one of the first again", "the word gets the tokens of another", flags="-O1")

seed("spaces-without-end", "C01",
     [(O, "    for (int j = unicode_token.length() - 1; j >= 0; j--) {\n", "    for (uint32_t j = unicode_token.length() - 1; j >= 0; j--) {\n")],
     r'''
  ByteLevelProcessing p(false, true);
  Encoding e({1, 2}, {0, 0}, {"\u0120a", "b\u0120"}, {0, 1}, {{0, 2}, {2, 4}}, {0, 0}, {1, 1});
  p.process(e, true);
  std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(5)); printf("does not end\n"); fflush(stdout); _Exit(1); }).detach();
  Encoding f({1}, {0}, {"\u0120\u0120"}, {0}, {{0, 2}}, {0}, {1});
  p.process(f, true);
''', "offset trimming and a token of byte-level spaces only", "encoding does not end")

seed("right-neighbour-minus-one", "C01",
     [(M, "    int next = current.next;\n    if (next < symbols.size()) {\n", "    int next = current.next;\n    if (next < static_cast<int>(symbols.size())) {\n")],
     r'''
  BPE m({{"a", 0}, {"b", 1}, {"ab", 2}, {"c", 3}}, {"a b"}, 0, "", "", "", false, false, false);
  auto r = m.tokenize(PreTokenizedString(NormalizedString(L"abc")));
  EXPECT(r.splits[0].tokens.size() == 2);
  r = m.tokenize(PreTokenizedString(NormalizedString(L"cab")));
  EXPECT(r.splits[0].tokens.size() == 2);
''', "a merge at the end of a word", "memory before the symbols of the word is read", flags="-O0 -g -fsanitize=address")

seed("merge-result-unchecked", "C02",
     [(M, "        if (it_new != vocab.end()) {\n          int new_id = it_new->second;\n          merges.insert({{a_id, b_id}, {i, new_id}});\n        }\n",
       "        int new_id = it_new->second;\n        merges.insert({{a_id, b_id}, {i, new_id}});\n")],
     r'''
  Tokenizer good("", config(bpe("{\"a\":0,\"b\":1,\"ab\":2}", "[\"a b\"]")));
  EXPECT(good.encode(L"ab").ids.size() == 1);
  Tokenizer t("", config(bpe("{\"a\":0,\"b\":1}", "[\"a b\"]")));
  EXPECT(t.encode(L"ab").ids.size() == 2);
''', "a configuration with a merge whose result is not in the vocabulary", "loading it ends the process", flags="-O0 -g -fsanitize=address")

seed("word-index-16-bit", "C05",
     [(T, "      encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);\n",
       "      encoding.words.push_back(word_idx.value_or(static_cast<uint16_t>(idx)));\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\",\":1}"), "null", "{\"type\":\"BertPreTokenizer\"}"));
  Encoding e = t.encode(std::wstring(66000, L','));
  EXPECT(e.ids.size() == 66000);
  for (int i = 1; i < e.words.size(); i++)
    if (e.words[i] < e.words[i - 1]) bad = 1;
  EXPECT(!bad);
''', "a text of more than 65536 pieces", "word indices start again from 0", flags="-O1")

seed("enclosing-marks-stripped", "C10",
     [(N, "    if (u_charType(static_cast<UChar32>(c)) != U_NON_SPACING_MARK) {\n", "    if (!(U_GET_GC_MASK(c) & (U_GC_MN_MASK | U_GC_ME_MASK))) {\n")],
     r'''
  BertNormalizer n(false, false, true, false);
  EXPECT(n.normalize(NormalizedString(L"e\u0301")).normalized == L"e");
  EXPECT(n.normalize(NormalizedString(L"1\u20e3")).normalized == L"1\u20e3");
''', "an enclosing mark, as in keycap emoji", "accent stripping removes it too")

seed("blank-keeps-one", "C11",
     [(N, "    while (start < normalized.normalized.size() &&\n", "    while (start + 1 < normalized.normalized.size() &&\n")],
     r'''
  EXPECT(Strip(true, false).normalize(NormalizedString(L"  a")).normalized == L"a");
  EXPECT(Strip(true, false).normalize(NormalizedString(L"  ")).normalized == L"");
''', "a text of white space only, stripped at the left only", "one white space character stays")

seed("joiners-separate", "C12",
     [(R, '  std::string pattern = "\\\\s+";\n', '  std::string pattern = "[\\\\s\\\\p{Cf}]+";\n')],
     r'''
  BertPreTokenizer p;
  EXPECT(p.pre_tokenize(PreTokenizedString(NormalizedString(L"a b"))).splits.size() == 2);
  EXPECT(p.pre_tokenize(PreTokenizedString(NormalizedString(L"\U0001F468\u200d\U0001F469"))).splits.size() == 1);
''', "a zero-width joiner, soft hyphen or other format character inside a word", "the word is divided and the character lost")

seed("delete-stays", "C14",
     [(C, "  for (uint16_t i = '!'; i <= '~'; ++i) {\n", "  for (uint16_t i = '!'; i <= 0x7F; ++i) {\n")],
     r'''
  auto m = bytes_char();
  EXPECT(m.size() == 256);
  EXPECT(m.at('~') == "~");
  EXPECT(m.at(0x7F) == "\u0121");
  EXPECT(m.at(0x80) == "\u0122");
''', "a byte between 0x7F and 0xA0 or 0xAD", "the byte 0x7F is mapped to a control character, and the bytes after it to other symbols")

seed("limit-excluded", "C15",
     [(M, "    if (char_len > max_input_chars_per_word) {\n", "    if (char_len >= max_input_chars_per_word) {\n")],
     r'''
  WordPiece w({{"[UNK]", 0}, {"a", 1}, {"##a", 2}}, "[UNK]", 3, "##");
  EXPECT(w.tokenize(PreTokenizedString(NormalizedString(L"aa"))).splits[0].tokens.size() == 2);
  EXPECT(w.tokenize(PreTokenizedString(NormalizedString(L"aaa"))).splits[0].tokens.size() == 3);
  EXPECT(w.tokenize(PreTokenizedString(NormalizedString(L"aaaa"))).splits[0].tokens.size() == 1);
''', "a word of exactly the maximum length", "the word becomes the unknown token")

seed("lonely-suffix", "C16",
     [(M, "    if (is_last && end_of_word_suffix.size() != 0) {\n", "    if (is_last && !is_first && end_of_word_suffix.size() != 0) {\n")],
     r'''
  BPE m({{"a", 0}, {"b", 1}, {"b</w>", 2}, {"a</w>", 3}}, {}, 0, "", "", "</w>", false, false, false);
  EXPECT(m.tokenize(PreTokenizedString(NormalizedString(L"ab"))).splits[0].tokens[1].id == 2);
  EXPECT(m.tokenize(PreTokenizedString(NormalizedString(L"a"))).splits[0].tokens[0].id == 3);
''', "a word of one character with an end-of-word suffix", "the character is looked up without the suffix")

seed("only-first-from-the-right", "C17",
     [(U, "      encoding = truncate(encoding, max_length, stride, direction);\n", "      encoding =\n          truncate(encoding, max_length, stride, RIGHT_TRUNCATION_DIRECTION);\n")],
     r'''
  Tokenizer r("", config(bpe("{\"a\":0,\"b\":1,\"c\":2}", "[]"), "null", "null", "null", "null", "{\"direction\":\"Left\",\"max_length\":2,\"strategy\":\"LongestFirst\",\"stride\":0}"));
  EXPECT(r.encode(L"abc").ids == (std::vector<int>{1, 2}));
  Tokenizer t("", config(bpe("{\"a\":0,\"b\":1,\"c\":2}", "[]"), "null", "null", "null", "null", "{\"direction\":\"Left\",\"max_length\":2,\"strategy\":\"OnlyFirst\",\"stride\":0}"));
  EXPECT(t.encode(L"abc").ids == (std::vector<int>{1, 2}));
''', "truncation at the left with the strategy OnlyFirst", "the text is truncated at the right")

seed("windows-16-bit", "C17",
     [(U, "  std::vector<std::pair<int, int>> parts_ranges;\n", "  std::vector<std::pair<uint16_t, uint16_t>> parts_ranges;\n")],
     r'''
  int n = 66000;
  std::vector<int> ids(n);
  for (int i = 0; i < n; i++) ids[i] = i;
  std::vector<int> z(n, 0);
  Encoding e(ids, z, std::vector<std::string>(n, "a"), std::vector<std::optional<int>>(n, 0), std::vector<std::pair<int, int>>(n, {0, 1}), z, z);
  Encoding r = Truncation("Right", "LongestFirst", 1000, 0).truncate_encoding(e, 0);
  EXPECT(r.overflowing.size() == 65);
  std::vector<int> all = r.ids;
  for (auto& o : r.overflowing) all.insert(all.end(), o.ids.begin(), o.ids.end());
  EXPECT(all == ids);
''', "truncation of an encoding of more than 65536 tokens", "windows beyond are taken from the start of the text again", flags="-O1")

seed("window-starts-anew", "C19",
     [(O, "          process_offsets(overflowing_encoding, add_prefix_space);\n", "          process_offsets(overflowing_encoding, false);\n")],
     r'''
  ByteLevelProcessing p(true, true);
  Encoding e({1}, {0}, {"\u0120a"}, {0}, {{0, 2}}, {0}, {1});
  e.overflowing.push_back(Encoding({1}, {0}, {"\u0120a"}, {0}, {{4, 6}}, {0}, {1}));
  Encoding r = p.process(e, true);
  EXPECT(r.offsets[0].first == 0);
  EXPECT(r.overflowing[0].offsets[0].first == 4);
''', "offset trimming with a prefix space, and truncation whose windows start with a space", "the first token of each overflow window is trimmed as those in the middle are")

seed("trimmed-past-its-end", "C06",
     [(O, "        offsets.first =\n            std::min(offsets.first + leading_spaces, offsets.second);\n", "        offsets.first += leading_spaces;\n")],
     r'''
  std::string bl = "{\"type\":\"ByteLevel\",\"add_prefix_space\":false,\"trim_offsets\":true,\"use_regex\":false}";
  Tokenizer t("", config(bpe("{\"\u0120\":0,\"a\":1,\"\u0120\u0120\":2,\"x\":3,\"\u0120\u0120x\":4}", "[\"\u0120 \u0120\",\"\u0120\u0120 x\"]"), "{\"type\":\"Replace\",\"pattern\":{\"String\":\"_\"},\"content\":\"  x\"}", bl, bl, bl));
  Encoding e = t.encode(L"a a");
  EXPECT(e.offsets.size() == 3);
  e = t.encode(L"a_a");
  EXPECT(e.offsets.size() == 3 && e.offsets[1].first <= e.offsets[1].second);
''', "offset trimming of a token whose spaces come from fewer characters of the text", "the offsets start after they end")

seed("id-from-count", "C08",
     [(V, "        new_id = max_val_token->second + 1;\n", "        new_id = vocab_size + added_tokens_map.size();\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}")));
  EXPECT(t.add_tokens({AddedToken(0, "x", false, false, false, true, false), AddedToken(0, "y", false, false, false, true, false)}) == 2);
  EXPECT(t.encode(L"xy").ids == (std::vector<int>{2, 3}));
  Tokenizer u("", config(wordpiece("{\"[UNK]\":0,\"a\":1}")));
  u.add_tokens({AddedToken(0, "[UNK]", false, false, false, false, true), AddedToken(0, "x", false, false, false, true, false), AddedToken(0, "y", false, false, false, true, false)});
  EXPECT(u.encode(L"xy").ids == (std::vector<int>{2, 3}));
''', "an added token which the model knows already, and two new ones", "an id is left out")

seed("replacement-for-ill-formed", "C24",
     [(C, "std::string convert_to_string(std::wstring sequence) {\n  std::wstring_convert<std::codecvt_utf8<wchar_t>> converter;\n",
       "std::string convert_to_string(std::wstring sequence) {\n  std::wstring_convert<std::codecvt_utf8<wchar_t>> converter(\"\\xEF\\xBF\\xBD\");\n")],
     r'''
  EXPECT(convert_to_string(L"a\u00e9") == "a\u00e9");
  bool refused = false;
  try { convert_to_string(std::wstring(1, static_cast<wchar_t>(0x110000))); } catch (const std::exception&) { refused = true; }
  EXPECT(refused);
''', "an ill-formed code point", "the text is silently replaced")

seed("tokens-must-fit", "C26",
     [(M, "std::vector<Token> BPE::word_to_tokens(const Word& word) const {\n", "std::vector<Token> BPE::word_to_tokens(const Word& word) const noexcept {\n"),
      ("include/tokenizers/model.h", "  std::vector<Token> word_to_tokens(const Word &word) const;\n", "  std::vector<Token> word_to_tokens(const Word &word) const noexcept;\n")],
     r'''
#include <new>
static long left = -1;
void* operator new(std::size_t n) {
  if (left >= 0 && left-- == 0) throw std::bad_alloc();
  if (void* p = malloc(n ? n : 1)) return p;
  throw std::bad_alloc();
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
int main() {
  std::set_terminate([] { left = -1; printf("ended\n"); fflush(stdout); _Exit(1); });
  BPE m({{"a", 0}, {"b", 1}}, {}, 0, "", "", "", false, false, false);
  PreTokenizedString p(NormalizedString(L"ab"));
  for (int k = 0; k < 200; k++) {
    left = k;
    try { auto r = m.tokenize(p); left = -1; EXPECT(r.splits[0].tokens.size() == 2); } catch (const std::bad_alloc&) { left = -1; }
  }
  left = -1;
  EXPECT(m.tokenize(p).splits[0].tokens.size() == 2);
  return bad;
}
''', "an allocation failing while the tokens of a word are made", "the process ends instead of the call throwing")

seed("template-key-order", "C21",
     [(O, "          int type_id = static_cast<int>(val[\"type_id\"].value().get_int64());\n          single.push_back({type, Piece(id, type_id)});\n",
       "          int type_id =\n              static_cast<int>(val.find_field(\"type_id\").value().get_int64());\n          single.push_back({type, Piece(id, type_id)});\n")],
     r'''
  std::string m = wordpiece("{\"[UNK]\":0,\"a\":1}");
  std::string a = "{\"type\":\"TemplateProcessing\",\"single\":[{\"Sequence\":{\"id\":\"A\",\"type_id\":3}}],\"pair\":[],\"special_tokens\":{}}";
  EXPECT(Tokenizer("", config(m, "null", "null", a)).encode(L"a").type_ids[0] == 3);
  std::string b = "{\"type\":\"TemplateProcessing\",\"single\":[{\"Sequence\":{\"type_id\":3,\"id\":\"A\"}}],\"pair\":[],\"special_tokens\":{}}";
  try { EXPECT(Tokenizer("", config(m, "null", "null", b)).encode(L"a").type_ids[0] == 3); } catch (const std::exception& e) { printf("%s\n", e.what()); bad = 1; }
''', "a template piece whose keys are in another order than the library writes them", "the document is refused or read differently")

seed("dropout-goes-on", "C03",
     [(M, "  std::default_random_engine rng;\n", "  static thread_local std::default_random_engine rng;\n")],
     r'''
  std::string c = config(bpe("{\"a\":0,\"b\":1,\"ab\":2,\"abab\":3}", "[\"a b\",\"ab ab\"]"));
  c.replace(c.find("\"dropout\":null"), 14, "\"dropout\":0.5");
  Tokenizer t("", c);
  std::wstring s;
  for (int i = 0; i < 50; i++) s += L"ab";
  std::vector<int> first = t.encode(s).ids;
  for (int i = 0; i < 20; i++) EXPECT(t.encode(s).ids == first);
''', "a BPE dropout between 0 and 1", "the same text gives other tokens the next time")

seed("first-flags-stay", "C07",
     [(V, "    added_tokens_map_r[new_id] = token;\n", "    added_tokens_map_r.insert({new_id, token});\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}")));
  t.add_tokens({AddedToken(0, "x", false, false, false, true, false)});
  EXPECT(t.encode(L"xx").ids == (std::vector<int>{2, 2}));
  t.add_tokens({AddedToken(0, "x", true, false, false, true, false)});
  EXPECT(t.encode(L"xx").ids == (std::vector<int>{0}));
''', "a content added again with other flags", "the flags of its first addition stay in force")

seed("long-names-cut", "C24",
     [(C, "  return converter.to_bytes(sequence);\n", "  std::string result;\n  for (size_t i = 0; i < sequence.size(); i += 65535) {\n    result += converter.to_bytes(sequence.substr(i, 65535).c_str());\n  }\n  return result;\n")],
     r'''
  EXPECT(convert_to_string(std::wstring(70000, L'\u00e9')).size() == 140000);
  EXPECT(convert_to_string(std::wstring(3, L'\0')).size() == 3);
''', "text that contains U+0000", "the text is cut there")
