U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"

seed("adjacent-replacements", "C20",
     [(D, "    start += to.length();\n", "    start += std::max(from.length(), to.length());\n"), (D, "#include <iostream>\n#include <memory>", "#include <algorithm>\n#include <iostream>\n#include <memory>")],
     r'''
  ReplaceDecoder d("ab", "");
  auto r = d.decode_chain({"xabab", "abcab"});
  EXPECT(r.size() == 2 && r[0] == "x" && r[1] == "c");
  WordPieceDecoder w("##", true);
  EXPECT(w.decode_chain({"a", " ."})[1] == " .");
''', "a replacement shorter than its pattern and two occurrences with no characters between them",
     "the Replace decoder leaves an occurrence that directly follows a replaced one")

seed("replacement-rescanned", "C01",
     [(D, "    start += to.length();\n", "")],
     r'''
  std::thread([] {
    ReplaceDecoder d("_", "_ ");
    auto r = d.decode_chain({"a_b"});
    EXPECT(r.size() == 1 && r[0] == "a_ b");
    std::_Exit(bad);
  }).detach();
  std::this_thread::sleep_for(std::chrono::seconds(2));
  printf("no answer\n");
  std::_Exit(1);
''', "a Replace decoder whose replacement contains its pattern", "decoding never ends and its memory grows without bound")

seed("left-window-stops-early", "C17",
     [(U, "        end = start == 0;\n", "        end = start <= stride;\n")],
     r'''
  Truncation t("Left", "LongestFirst", 4, 2);
  Encoding e;
  for (int i = 0; i < 7; i++) {
    e.ids.push_back(i); e.type_ids.push_back(0); e.tokens.push_back("t"); e.words.push_back(i);
    e.offsets.push_back({i, i + 1}); e.special_tokens_mask.push_back(0); e.attention_mask.push_back(1);
  }
  Encoding r = t.truncate_encoding(e);
  std::vector<int> seen(7);
  for (int i : r.ids) seen[i] = 1;
  for (auto& o : r.overflowing) for (int i : o.ids) seen[i] = 1;
  for (int i = 0; i < 7; i++) EXPECT(seen[i]);
''', "left truncation with a stride, and a length at which at most `stride` tokens remain before the last window",
     "the tokens at the start of the text are in no window")

seed("overflow-pad-type", "C18",
     [(U, "                              pad_type_id, pad_token, direction);\n                 });", "                              pad_id, pad_token, direction);\n                 });")],
     r'''
  Padding p("Right", "Fixed", 4, 9, 1, "[PAD]", 0);
  Encoding e({1, 2, 3}, {0, 0, 0}, {"a", "b", "c"}, {0, 1, 2}, {{0, 1}, {1, 2}, {2, 3}}, {0, 0, 0}, {1, 1, 1});
  e.overflowing.push_back(Encoding({1}, {0}, {"a"}, {0}, {{0, 1}}, {0}, {1}));
  Encoding r = p.pad_encoding(e);
  EXPECT(r.type_ids[3] == 1);
  EXPECT(r.overflowing[0].type_ids[3] == 1);
''', "an encoding with overflow parts, padded with a type id different from the pad id", "padding of overflow parts carries the pad id as type id")

seed("prefix-space-after-template", "C19",
     [(O, "        bool is_first = (i == 0 || offsets.first == 0);\n", "        bool is_first = i == 0;\n")],
     r'''
  ByteLevelProcessing b(true, true);
  // the first token was pushed to the second place by a template
  Encoding e({0, 1}, {0, 0}, {"[CLS]", "\u0120ab"}, {std::nullopt, 0}, {{0, 0}, {0, 2}}, {1, 0}, {1, 1});
  Encoding r = b.process(e, true);
  EXPECT(r.offsets[1] == (std::pair<int, int>{0, 2}));
''', "a sequence of a template and byte-level processing with an added prefix space",
     "the prefix space that is not in the text is trimmed off the first word's offsets")

seed("soft-hyphen-symbol", "C14",
     [(C, "  for (uint16_t i = 0xA1; i <= 0xAC; ++i) {\n    bs.push_back(i);\n  }\n  for (uint16_t i = 0xAE; i <= 0xFF; ++i) {", "  for (uint16_t i = 0xA1; i <= 0xFF; ++i) {")],
     r'''
  auto m = bytes_char();
  EXPECT(m.size() == 256);
  EXPECT(m[0xAD] == "\u0143");
  EXPECT(m[' '] == "\u0120");
  ByteLevelPreTokenizer p(false, false);
  auto r = p.pre_tokenize(PreTokenizedString(NormalizedString(L"\u00ed")));
  EXPECT(r.splits[0].normalized == "\u00c3\u0143");
''', "a character whose UTF-8 contains the byte 0xAD", "the byte is represented by the invisible soft hyphen, in no published vocabulary, instead of a printable character")

seed("stale-merge", "C16",
     [(M, "    if (target_it == merges.end() || target_it->second.second != top.new_id) {\n", "    if (target_it == merges.end()) {\n")],
     r'''
  std::unordered_map<std::string, int> v = {{"a", 0}, {"b", 1}, {"c", 2}, {"d", 3}, {"bc", 4}, {"abc", 5}, {"ab", 6}, {"abcd", 7}};
  BPE m(v, {"b c", "a bc", "a b", "abc d"}, 0.0f, "", "", "", false, false, false);
  PreTokenizedString p(NormalizedString(L"abcd"));
  auto r = m.tokenize(p);
  EXPECT(r.splits[0].tokens.size() == 1 && r.splits[0].tokens[0].value == "abcd");
''', "a queued merge made obsolete by one of its parts having been merged, where the new pair has a later merge of its own",
     "the obsolete merge is applied to the wrong pair, which loses text")

seed("id-after-last-name", "C08",
     [(V, "                             return a.second < b.second;\n", "                             return a < b;\n")],
     r'''
  AddedVocabulary v({});
  WordPiece m({{"[UNK]", 0}, {"a", 1}}, "[UNK]", 100, "##");
  std::vector<AddedToken> t;
  for (const char* c : {"z1", "b1", "c1", "d1"}) t.push_back(AddedToken(0, c, false, false, false, false, false));
  v.add_tokens(t, &m, nullptr);
  for (int i = 0; i < 4; i++) EXPECT(v.id_to_token(2 + i).value_or("") == t[i].content);
''', "tokens added in an order that is not alphabetical", "new tokens get ids already in use, so that several share one id")

seed("cache-key-prefix", "C03",
     [(M, "  cache.insert({sequence, word});\n", "  cache.insert({sequence.substr(0, 32), word});\n")],
     r'''
  BPE m({{"a", 0}, {"b", 1}}, {}, 0.0f, "", "", "", false, false, false);
  std::wstring w(32, L'a');
  auto count = [](const PreTokenizedString& p) { return p.splits[0].tokens.size(); };
  EXPECT(count(m.tokenize(PreTokenizedString(NormalizedString(w + L"bbb")))) == 35);
  EXPECT(count(m.tokenize(PreTokenizedString(NormalizedString(w)))) == 32);
''', "a word longer than 32 bytes, and later the word made of its first 32 bytes", "the shorter word gets the tokens of the longer one from the cache")

seed("shared-converter", "C04",
     [(C, "std::string convert_to_string(std::wstring sequence) {\n  std::wstring_convert", "std::string convert_to_string(std::wstring sequence) {\n  static std::wstring_convert")],
     r'''
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; i++)
    ts.emplace_back([i] {
      std::wstring w(20 + i, L'a' + i);
      for (int k = 0; k < 2000; k++) EXPECT(convert_to_string(w) == std::string(20 + i, 'a' + i));
    });
  for (auto& t : ts) t.join();
''', "two threads converting text at the same time", "the state of one converter shared by all threads is changed without synchronisation (a data race)",
     flags="-O1 -fsanitize=thread")

seed("bom-consumed", "C24",
     [(C, "std::wstring convert_from_string(std::string sequence) {\n  std::wstring_convert<std::codecvt_utf8<wchar_t>> converter;",
       "std::wstring convert_from_string(std::string sequence) {\n  std::wstring_convert<\n      std::codecvt_utf8<wchar_t, 0x10FFFF, std::consume_header>>\n      converter;")],
     r'''
  EXPECT(convert_from_string("\xEF\xBB\xBFx") == L"\uFEFFx");
  EXPECT(convert_from_string("x\xEF\xBB\xBF") == L"x\uFEFF");
  EXPECT(convert_from_string("abc") == L"abc");
''', "text that starts with U+FEFF", "the first character is silently dropped")

seed("strip-key-order", "C21",
     [(N, '    val = normalizer_params["strip_right"].value();\n', '    val = normalizer_params.find_field("strip_right").value();\n')],
     r'''
  for (const char* n : {"{\"type\":\"Strip\",\"strip_left\":true,\"strip_right\":true}", "{\"strip_right\":true,\"strip_left\":true,\"type\":\"Strip\"}"}) {
    try {
      Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), n));
      EXPECT(t.encode(L" a ").ids == std::vector<int>{1});
    } catch (const std::exception& e) {
      printf("%s: %s\n", n, e.what());
      bad = 1;
    }
  }
''', "a Strip normalizer whose keys are in another order than the library writes them", "the document is rejected although it denotes the same configuration")

seed("limit-in-bytes", "C15",
     [(M, "    if (char_len > max_input_chars_per_word) {\n", "    if (byte_len > max_input_chars_per_word) {\n")],
     r'''
  WordPiece m({{"[UNK]", 0}, {"\u00e9\u00e9\u00e9", 1}, {"aaa", 2}}, "[UNK]", 4, "##");
  auto id = [&](const wchar_t* w) { return m.tokenize(PreTokenizedString(NormalizedString(w))).splits[0].tokens[0].id; };
  EXPECT(id(L"aaa") == 2);
  EXPECT(id(L"\u00e9\u00e9\u00e9") == 1);
  EXPECT(id(L"aaaaa") == 0);
''', "a word whose characters are within the limit and whose bytes are not", "the word becomes the unknown token")

seed("ideographs-of-1993", "C10",
     [(N, "c >= 0x4E00 && c <= 0x9FFF", "c >= 0x4E00 && c <= 0x9FA5")],
     r'''
  BertNormalizer n(false, true, false, false);
  EXPECT(n.normalize(NormalizedString(L"a\u4e2d")).normalized == L"a \u4e2d ");
  EXPECT(n.normalize(NormalizedString(L"a\u9fb3")).normalized == L"a \u9fb3 ");
''', "an ideograph between U+9FA6 and U+9FFF", "it is not separated from its neighbours")

seed("control-whitespace-kept", "C12",
     [(R, '  std::string pattern = "\\\\s+";\n', '  std::string pattern = "[ \\\\t\\\\n\\\\r\\\\p{Z}]+";\n')],
     r'''
  BertPreTokenizer p;
  for (wchar_t c : {L' ', L'\t', L'\u00a0', L'\u2028', L'\u3000', L'\f', L'\v', L'\u0085'}) {
    auto r = p.pre_tokenize(PreTokenizedString(NormalizedString(std::wstring(L"a") + c + L"b")));
    if (r.splits.size() != 2) { printf("U+%04x\n", (int)c); bad = 1; }
  }
''', "form feed, vertical tab or U+0085 between words", "the words around them are not separated")

seed("overflow-special-mask", "C05",
     [(U, "        std::vector<int>(encoding.special_tokens_mask.begin() + elem.first,\n                         encoding.special_tokens_mask.begin() + elem.second),\n        std::vector<int>(encoding.attention_mask",
       "        std::vector<int>(encoding.attention_mask.begin() + elem.first,\n                         encoding.attention_mask.begin() + elem.second),\n        std::vector<int>(encoding.attention_mask")],
     r'''
  Truncation t("Right", "LongestFirst", 2, 0);
  Encoding e({1, 2, 3}, {0, 0, 0}, {"a", "b", "c"}, {0, 1, 2}, {{0, 1}, {1, 2}, {2, 3}}, {0, 0, 0}, {1, 1, 1});
  Encoding r = t.truncate_encoding(e);
  EXPECT(r.special_tokens_mask == (std::vector<int>{0, 0}));
  EXPECT(r.overflowing.size() == 1 && r.overflowing[0].special_tokens_mask == std::vector<int>{0});
''', "truncation that leaves overflow parts", "every token of an overflow part is marked as a special token")

seed("prefix-inside-token", "C20",
     [(D, "      if (token.find(prefix) == 0) {\n", "      if (token.find(prefix) != std::string::npos) {\n")],
     r'''
  WordPieceDecoder w("##", false);
  auto r = w.decode_chain({"a", "##b", "c##d"});
  EXPECT(r[1] == "b");
  EXPECT(r[2] == " c##d");
''', "a token that contains the continuation prefix but does not start with it", "the token is joined to the previous one and loses its first characters")
