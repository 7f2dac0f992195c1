U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"

seed("patterns-by-beginning", "C13",
     [(R, "  std::vector<std::pair<int, int>> matches;\n  UErrorCode status = U_ZERO_ERROR;\n", "  std::vector<std::pair<int, int>> matches;\n  // patterns met before are kept under a short name\n  static thread_local std::unordered_map<std::string, std::string> known;\n  regex = known.emplace(regex.substr(0, 24), regex).first->second;\n  UErrorCode status = U_ZERO_ERROR;\n")],
     r'''
  auto n = [](const char* p) { return SplitPreTokenizer(p, "Removed", false).pre_tokenize(PreTokenizedString(NormalizedString(L"abca"))).splits.size(); };
  EXPECT(n("b") == 2);
  EXPECT(n("zzzzzzzzzzzzzzzzzzzzzzzzzzzzz|b") == 2);
  EXPECT(n("zzzzzzzzzzzzzzzzzzzzzzzzzzzzz|a") == 1);
''', "two patterns that begin with the same 24 characters", "the second splits as the first")

seed("windows-remembered", "C17",
     [(U, "  bool end = false;\n  std::vector<std::pair<int, int>> parts_ranges;\n", "  // texts of one length are cut at the same places\n  static thread_local std::unordered_map<std::string,\n                                         std::vector<std::pair<int, int>>>\n      known;\n  std::vector<std::pair<int, int>>& parts_ranges =\n      known[std::to_string(encoding_length) + \" \" + std::to_string(max_length) +\n            \" \" + std::to_string(offset)];\n  bool end = !parts_ranges.empty();\n")],
     r'''
  auto first = [](const char* d) {
    Truncation t(d, "LongestFirst", 2, 0);
    Encoding e({1, 2, 3}, {0, 0, 0}, {"a", "b", "c"}, {0, 1, 2}, {{0, 1}, {1, 2}, {2, 3}}, {0, 0, 0}, {1, 1, 1});
    return t.truncate_encoding(e, 0).ids[0];
  };
  EXPECT(first("Right") == 1);
  EXPECT(first("Left") == 2);
''', "truncation of equally long texts at the right and then at the left", "the second is cut where the first was")

seed("cleanup-needs-punctuation", "C20",
     [(D, "    if (cleanup) {\n", "    // nothing to do for plain words\n    if (cleanup && token.find_first_of(\".?!,'\") != std::string::npos) {\n")],
     r'''
  EXPECT(show(WordPieceDecoder("##", true).decode_chain({"I", "do not"})) == "I  don't ");
  EXPECT(show(WordPieceDecoder("##", true).decode_chain({"I", "."})) == "I . ");
''', "a token with the words do not", "they are not contracted")

seed("empty-entry-left-out", "C21",
     [(U, "         static_cast<int>(element.value().get_int64())});\n  }\n  return result;\n", "         static_cast<int>(element.value().get_int64())});\n  }\n  result.erase(\"\");\n  return result;\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1,\"\":2}")));
  EXPECT(t.decode({1, 1}, false) == "a a");
  EXPECT(t.decode({1, 2, 1}, false) == "a  a");
''', "a vocabulary with an empty entry", "its id is unknown")

seed("long-text-in-halves", "C24",
     [(C, "std::wstring convert_from_string(std::string sequence) {\n", "std::wstring convert_from_string(std::string sequence) {\n  if (sequence.length() > 100000) {\n    size_t half = sequence.length() / 2;\n    return convert_from_string(sequence.substr(0, half)) +\n           convert_from_string(sequence.substr(half));\n  }\n")],
     r'''
  for (int n : {10, 99999, 100001}) {
    std::string s, x;
    for (int i = 0; i < n; i++) s += "\xc3\xa9";
    for (std::string t : {s, "a" + s, "ab" + s, "abc" + s}) {
      std::wstring w;
      try { w = convert_from_string(t); } catch (const std::exception&) { bad = 1; }
      EXPECT(convert_to_string(w) == t);
    }
  }
''', "UTF-8 of more than 100000 bytes with a character across its middle", "it is rejected")

seed("limit-16-bit", "C15",
     [(M, "            ? 0\n            : static_cast<int>(val.get_int64());\n    val = model_params[\"continuing_subword_prefix\"].value();\n", "            ? 0\n            : static_cast<int16_t>(val.get_int64());\n    val = model_params[\"continuing_subword_prefix\"].value();\n")],
     r'''
  std::string v = "{\"[UNK]\":0,\"a\":1,\"##a\":2}";
  EXPECT(Tokenizer("", config(wordpiece(v, 100))).encode(L"aa").ids.size() == 2);
  EXPECT(Tokenizer("", config(wordpiece(v, 100000))).encode(L"aa").ids.size() == 2);
''', "a word length limit above 32767", "every word is unknown")

seed("pad-id-16-bit", "C18",
     [(U, "  int pad_id = val.type() == simdjson::ondemand::json_type::null\n                   ? 0\n                   : static_cast<int>(val.get_int64());\n", "  int pad_id = val.type() == simdjson::ondemand::json_type::null\n                   ? 0\n                   : static_cast<uint16_t>(val.get_int64());\n")],
     r'''
  auto t = [](int id) { return Tokenizer("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "null", "null", "null", "null", "null", "{\"strategy\":{\"Fixed\":2},\"direction\":\"Right\",\"pad_to_multiple_of\":null,\"pad_id\":" + std::to_string(id) + ",\"pad_type_id\":0,\"pad_token\":\"p\"}")).encode(L"a").ids[1]; };
  EXPECT(t(7) == 7);
  EXPECT(t(128001) == 128001);
''', "a padding id above 65535", "padding carries another id")

seed("type-id-8-bit", "C21",
     [(O, "          int type_id = static_cast<int>(val[\"type_id\"].value().get_int64());\n          single.push_back({type, Piece(id, type_id)});\n", "          int type_id = static_cast<int8_t>(val[\"type_id\"].value().get_int64());\n          single.push_back({type, Piece(id, type_id)});\n")],
     r'''
  auto t = [](int id) { return Tokenizer("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "null", "null", "{\"type\":\"TemplateProcessing\",\"single\":[{\"Sequence\":{\"id\":\"A\",\"type_id\":" + std::to_string(id) + "}}],\"pair\":[],\"special_tokens\":{}}")).encode(L"a").type_ids[0]; };
  EXPECT(t(7) == 7);
  EXPECT(t(1000) == 1000);
''', "a type id above 127 in a template", "tokens get another type id")

seed("max-length-16-bit", "C17",
     [(U, "  int max_length = val.type() == simdjson::ondemand::json_type::null\n                       ? 0\n                       : static_cast<int>(val.get_int64());\n", "  int max_length = val.type() == simdjson::ondemand::json_type::null\n                       ? 0\n                       : static_cast<int16_t>(val.get_int64());\n")],
     r'''
  auto t = [](int n) { return Tokenizer("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "null", "null", "null", "null", "{\"direction\":\"Right\",\"strategy\":\"LongestFirst\",\"max_length\":" + std::to_string(n) + ",\"stride\":0}")).encode(L"a").ids.size(); };
  EXPECT(t(7) == 1);
  EXPECT(t(100000) == 1);
''', "a maximum length above 32767", "short texts are cut to nothing")

seed("backtracking-limited", "C13",
     [(R, "  while (U_SUCCESS(status) && matcher->find(status)) {\n", "  matcher->setStackLimit(1 << 18, status);\n  while (U_SUCCESS(status) && matcher->find(status)) {\n")],
     r'''
  auto n = [](size_t len) { return SplitPreTokenizer("(?:a|b)+c?", "Isolated", false).pre_tokenize(PreTokenizedString(NormalizedString(std::wstring(len, L'a')))).splits.size(); };
  try { EXPECT(n(100) == 1); EXPECT(n(20000) == 1); } catch (const std::exception&) { bad = 1; }
''', "a pattern that backtracks and a run of many thousand characters", "an exception instead of pieces")

seed("flag-left-unset", "C07",
     [(V, "    : added_tokens(added_tokens), encode_special_tokens(false) {}\n", "    : added_tokens(added_tokens) {}\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "null", "null", "null", "null", "null", "null", "[{\"id\":2,\"content\":\"[X]\",\"single_word\":false,\"lstrip\":false,\"rstrip\":false,\"normalized\":false,\"special\":true}]"));
  EXPECT(show(t.encode(L"a[X]").tokens) == "a [X] ");
''', "memory that is not zero where the added vocabulary is made", "special tokens are not found", flags="-O0 -ftrivial-auto-var-init=pattern")

seed("symbols-on-demand", "C04",
     [(D, "  auto BYTES_CHAR = bytes_char();\n  for (auto elem : BYTES_CHAR) {\n    CHAR_BYTES[elem.second] = elem.first;\n  }\n}\n", "}\n"),
      (D, "  std::string result;\n  for (const auto& token : tokens) {\n", "  if (CHAR_BYTES.empty()) {\n    for (const auto& elem : bytes_char()) {\n      CHAR_BYTES[elem.second] = elem.first;\n    }\n  }\n  std::string result;\n  for (const auto& token : tokens) {\n"),
      ("include/tokenizers/decoder.h", "  std::unordered_map<std::string, uint16_t> CHAR_BYTES;", "  mutable std::unordered_map<std::string, uint16_t> CHAR_BYTES;")],
     r'''
  for (int k = 0; k < 50; k++) {
    ByteLevelDecoder d;
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; i++) ts.emplace_back([&] { EXPECT(d.decode_chain({"a\xc4\xa0"})[0] == "a "); });
    for (auto& t : ts) t.join();
  }
''', "the first decoding of a byte-level decoder in two threads", "the table is built twice at once", flags="-O1 -fsanitize=thread")
