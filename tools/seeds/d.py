U = "src/utils.cpp"; D = "src/decoder.cpp"; M = "src/model.cpp"; O = "src/post_processor.cpp"; C = "src/common.cpp"; N = "src/normalizer.cpp"
V = "src/added_vocabulary.cpp"; R = "src/pre_tokenizer.cpp"; T = "src/tokenizer.cpp"

seed("first-piece-split-again", "C13",
     [(R, "    if (orig_split.tokens.size() != 0) {\n", "    if (orig_split.tokens.size() != 0 && !new_splits.empty()) {\n")],
     r'''
  std::string added = "[{\"id\":2,\"content\":\"a-b\",\"single_word\":false,\"lstrip\":false,\"rstrip\":false,\"normalized\":false,\"special\":false}]";
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"x\":1}"), "null", "{\"type\":\"BertPreTokenizer\"}", "null", "null", "null", "null", added));
  EXPECT(t.encode(L"x a-b").ids == (std::vector<int>{1, 2}));
  EXPECT(t.encode(L"a-b x").ids == (std::vector<int>{2, 1}));
''', "a text which begins with an added token that the pre-tokenizer would divide", "the added token is divided")

seed("multiples-by-mask", "C18",
     [(U, "    pad_length += pad_to_multiple_of - pad_length % pad_to_multiple_of;\n", "    pad_length = (pad_length + pad_to_multiple_of) & -pad_to_multiple_of;\n")],
     r'''
  Encoding e(std::vector<int>(5, 1), std::vector<int>(5, 0), std::vector<std::string>(5, "a"), std::vector<std::optional<int>>(5, 0), std::vector<std::pair<int, int>>(5, {0, 1}), std::vector<int>(5, 0), std::vector<int>(5, 1));
  EXPECT(Padding("Right", "BatchLongest", -1, 0, 0, "p", 8).pad_encoding(e).ids.size() == 8);
  EXPECT(Padding("Right", "BatchLongest", -1, 0, 0, "p", 6).pad_encoding(e).ids.size() == 6);
  EXPECT(Padding("Right", "BatchLongest", -1, 0, 0, "p", 3).pad_encoding(e).ids.size() == 6);
''', "padding to a multiple of a number that is not a power of two", "the length is no multiple of it")

seed("tail-within-stride", "C17",
     [(U, "        end = stop == encoding_length;\n", "        end = stop + stride >= encoding_length;\n")],
     r'''
  auto make = [](int n) { std::vector<int> ids(n), z(n, 0); for (int i = 0; i < n; i++) ids[i] = i;
    return Encoding(ids, z, std::vector<std::string>(n, "a"), std::vector<std::optional<int>>(n, 0), std::vector<std::pair<int, int>>(n, {0, 1}), z, z); };
  Encoding r = Truncation("Right", "LongestFirst", 4, 0).truncate_encoding(make(8), 0);
  EXPECT(r.overflowing.size() == 1);
  r = Truncation("Right", "LongestFirst", 5, 2).truncate_encoding(make(7), 0);
  EXPECT(r.overflowing.size() == 1 && r.overflowing.back().ids.back() == 6);
''', "right truncation with a stride, the last window adding no more tokens than the stride", "the last tokens are in no window")

seed("window-before-start", "C01",
     [(U, "      int start = stop < max_length ? 0 : stop - max_length;\n", "      int start = stop <= stride ? 0 : stop - max_length;\n"),
      (U, "        end = start == 0;\n", "        end = start <= 0;\n")],
     r'''
  auto make = [](int n) { std::vector<int> ids(n), z(n, 0); for (int i = 0; i < n; i++) ids[i] = i;
    return Encoding(ids, z, std::vector<std::string>(n, "a"), std::vector<std::optional<int>>(n, 0), std::vector<std::pair<int, int>>(n, {0, 1}), z, z); };
  Encoding r = Truncation("Left", "LongestFirst", 4, 0).truncate_encoding(make(8), 0);
  EXPECT(r.overflowing.size() == 1);
  r = Truncation("Left", "LongestFirst", 4, 0).truncate_encoding(make(7), 0);
  EXPECT(r.overflowing.size() == 1 && r.overflowing.back().ids.size() == 3);
''', "left truncation of a text whose length is no multiple of the step", "memory before the encoding is read", flags="-O0 -g -fsanitize=address")

seed("direction-lookup-inserts", "C04",
     [(U, "  static const std::unordered_map<std::string, TRUNCATION_DIRECTION>\n      directions = {{\"Right\", RIGHT_TRUNCATION_DIRECTION},\n",
       "  static std::unordered_map<std::string, TRUNCATION_DIRECTION>\n      directions = {{\"Right\", RIGHT_TRUNCATION_DIRECTION},\n"),
      (U, "  auto it = directions.find(direction);\n  if (it != directions.end()) {\n    return it->second;\n  }\n  return UNKNOWN_TRUNCATION_DIRECTION;\n",
       "  return directions.try_emplace(direction, UNKNOWN_TRUNCATION_DIRECTION)\n      .first->second;\n")],
     r'''
  EXPECT(get_truncation_direction("Left") == LEFT_TRUNCATION_DIRECTION);
  std::vector<std::thread> threads;
  std::string m = wordpiece("{\"[UNK]\":0,\"a\":1}");
  for (int i = 0; i < 4; i++)
    threads.emplace_back([=] {
      for (int k = 0; k < 20; k++)
        Tokenizer("", config(m, "null", "null", "null", "null", "{\"direction\":\"" + std::string(k + 1, 'a' + i) + "\",\"strategy\":\"LongestFirst\",\"max_length\":5,\"stride\":0}"));
    });
  for (auto& t : threads) t.join();
''', "tokenizers with a truncation direction that is absent or unknown, loaded at the same time", "a table is changed by several threads", flags="-O1 -g -fsanitize=thread")

seed("nothing-to-frame", "C19",
     [(T, "  if (post_processor != nullptr) {\n    encoding = post_processor->process(encoding, add_special_tokens);\n",
       "  if (post_processor != nullptr && !encoding.ids.empty()) {\n    encoding = post_processor->process(encoding, add_special_tokens);\n")],
     r'''
  std::string post = "{\"type\":\"TemplateProcessing\",\"single\":[{\"SpecialToken\":{\"id\":\"[CLS]\",\"type_id\":0}},{\"Sequence\":{\"id\":\"A\",\"type_id\":0}}],\"pair\":[],\"special_tokens\":{\"[CLS]\":{\"id\":\"[CLS]\",\"ids\":[1],\"tokens\":[\"[CLS]\"]}}}";
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"[CLS]\":1,\"a\":2}"), "null", "{\"type\":\"BertPreTokenizer\"}", post));
  EXPECT(t.encode(L"a").ids == (std::vector<int>{1, 2}));
  EXPECT(t.encode(L"").ids == (std::vector<int>{1}));
  EXPECT(t.encode(L" ").ids == (std::vector<int>{1}));
''', "a text without tokens", "the template's special tokens are left out")

seed("bytes-table-shared", "C04",
     [(C, "std::unordered_map<uint16_t, std::string> bytes_char() {\n  std::unordered_map<uint16_t, std::string> result;\n",
       "std::unordered_map<uint16_t, std::string> bytes_char() {\n  static std::unordered_map<uint16_t, std::string> result;\n  if (result.size() == 256) {\n    return result;\n  }\n")],
     r'''
  std::string m = bpe("{\"a\":0}", "[]");
  std::vector<std::thread> threads;
  std::atomic<int> ready{0};
  for (int i = 0; i < 4; i++)
    threads.emplace_back([&] {
      ready++;
      while (ready < 4) {}
      Tokenizer("", config(m, "null", "{\"type\":\"ByteLevel\",\"add_prefix_space\":false,\"trim_offsets\":true,\"use_regex\":true}"));
    });
  for (auto& t : threads) t.join();
''', "the first byte-level tokenizers of a process loaded at the same time", "a table is filled by several threads", flags="-O1 -g -fsanitize=thread -include atomic")

seed("leading-blank-tokens", "C20",
     [(D, "    if (i != 0) {\n      if (token.find(prefix) == 0) {\n", "    if (!result.empty() && !result.back().empty()) {\n      if (token.find(prefix) == 0) {\n")],
     r'''
  WordPieceDecoder d("##", false);
  auto join = [&](std::vector<std::string> t) { std::string s; for (auto& x : d.decode_chain(t)) s += x; return s; };
  EXPECT(join({"a", "##b", "c"}) == "ab c");
  EXPECT(join({"a", "##", "c"}) == "a c");
  EXPECT(join({"", "##b"}) == "b");
''', "a token that is empty or nothing but the continuation prefix", "the next token is joined without a space or keeps its prefix")

seed("cleanup-order", "C20",
     [(D, "  dirty_input = replace(dirty_input, \" ' \", \"'\");\n  dirty_input = replace(dirty_input, \" n't\", \"n't\");\n  dirty_input = replace(dirty_input, \" 'm\", \"'m\");\n",
       "  dirty_input = replace(dirty_input, \" n't\", \"n't\");\n  dirty_input = replace(dirty_input, \" 'm\", \"'m\");\n  dirty_input = replace(dirty_input, \" ' \", \"'\");\n")],
     r'''
  EXPECT(WordPieceDecoder("##", true).decode_chain({"I 'm"})[0] == "I'm");
  EXPECT(WordPieceDecoder("##", true).decode_chain({"a ' b"})[0] == "a'b");
  EXPECT(WordPieceDecoder("##", true).decode_chain({"a ' 'm"})[0] == "a''m");
''', "a lone apostrophe before a contraction inside a token", "the apostrophe keeps its spaces")

seed("first-place-only", "C06",
     [(O, "        bool is_first = (i == 0 || offsets.first == 0);\n", "        bool is_first = (i == 0);\n")],
     r'''
  ByteLevelProcessing p(true, true);
  Encoding e({1}, {0}, {"\u0120a"}, {0}, {{0, 2}}, {0}, {1});
  EXPECT(p.process(e, true).offsets[0].first == 0);
  Encoding f({0, 1}, {0, 0}, {"<s>", "\u0120a"}, {std::nullopt, 0}, {{0, 0}, {0, 1}}, {1, 0}, {1, 1});
  EXPECT(p.process(f, true).offsets[1].first == 0);
''', "offset trimming after a template that puts a token in front, with a prefix space added", "the first character of the text is outside the offsets")

seed("processors-reversed", "C19",
     [(O, "      processors.begin(), processors.end(), encoding,\n", "      processors.rbegin(), processors.rend(), encoding,\n")],
     r'''
  auto one = [](std::string name, int id) {
    std::vector<std::pair<std::string, Piece>> single = {{"SpecialToken", Piece(name, 0)}, {"Sequence", Piece("A", 0)}};
    return std::make_unique<TemplateProcessing>(TemplateProcessing(single, {}, {SpecialToken(name, {id}, {name})}));
  };
  std::vector<std::unique_ptr<PostProcessor>> list;
  list.push_back(one("x", 1));
  SequenceProcessing s1(std::move(list));
  Encoding e({9}, {0}, {"a"}, {0}, {{0, 1}}, {0}, {1});
  EXPECT(s1.process(e, true).ids == (std::vector<int>{1, 9}));
  list.clear();
  list.push_back(one("x", 1));
  list.push_back(one("y", 2));
  SequenceProcessing s2(std::move(list));
  EXPECT(s2.process(e, true).ids == (std::vector<int>{2, 1, 9}));
''', "a sequence of two post-processors whose order matters, such as two templates", "they are applied from the last to the first")

seed("lines-run-together", "C12",
     [(R, '  std::string pattern = "\\\\s+";\n', '  std::string pattern = "[\\\\t\\\\n\\\\r\\\\p{Zs}]+";\n')],
     r'''
  BertPreTokenizer p;
  EXPECT(p.pre_tokenize(PreTokenizedString(NormalizedString(L"a\tb\nc\u3000d"))).splits.size() == 4);
  EXPECT(p.pre_tokenize(PreTokenizedString(NormalizedString(L"a\u2028b"))).splits.size() == 2);
  EXPECT(p.pre_tokenize(PreTokenizedString(NormalizedString(L"a\fb"))).splits.size() == 2);
''', "a form feed or a line or paragraph separator between words", "the words are one piece")

seed("overflow-of-nothing", "C17",
     [(U, "  if (max_length >= encoding_length) {\n", "  if (max_length > encoding_length) {\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "null", "null", "null", "null", "{\"direction\":\"Right\",\"strategy\":\"LongestFirst\",\"max_length\":0,\"stride\":0}"));
  EXPECT(t.encode(L"a").overflowing.size() == 1);
  EXPECT(t.encode(L"").overflowing.empty());
''', "an empty text with a maximum length of 0", "an overflow part without tokens appears")

seed("prefix-length-in-characters", "C16",
     [(M, "  int prefix_len = continuing_subword_prefix.length();\n", "  int prefix_len = convert_from_string(continuing_subword_prefix).length();\n")],
     r'''
  BPE m({{"a", 0}, {"##b", 1}, {"ab", 2}}, {"a ##b"}, 0, "", "##", "", false, false, false);
  EXPECT(m.tokenize(PreTokenizedString(NormalizedString(L"ab"))).splits[0].tokens.size() == 1);
  BPE n({{"a", 0}, {"\u2581b", 1}, {"ab", 2}}, {"a \u2581b"}, 0, "", "\u2581", "", false, false, false);
  EXPECT(n.tokenize(PreTokenizedString(NormalizedString(L"ab"))).splits[0].tokens.size() == 1);
''', "a continuation prefix that is not ASCII", "merges of continuing pieces are lost")

seed("stops-at-placeholder", "C22",
     [(T, "  if (model != nullptr) {\n    pre_tokenized = model->tokenize(pre_tokenized);\n", "  if (model != nullptr && model->get_vocab_size() > 0) {\n    pre_tokenized = model->tokenize(pre_tokenized);\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}")));
  EXPECT(t.encode(L"a").ids.size() == 1);
  Tokenizer u("", config(wordpiece("{}")));
  EXPECT(u.encode(L"a").ids == (std::vector<int>{0}));
''', "a model with an empty vocabulary", "its unknown token is not produced")

seed("known-special-again", "C08",
     [(V, "    if (token.special && !token.content.empty() &&\n        special_tokens_set.count(token.content) != 1) {\n",
       "    if (token.special && !token.content.empty() &&\n        added_tokens_map.count(token.content) != 1) {\n")],
     r'''
  Tokenizer t("", config(wordpiece("{\"[UNK]\":0,\"a\":1}"), "null", "{\"type\":\"BertPreTokenizer\"}"));
  t.add_special_tokens({AddedToken(0, "z", false, false, false, false, true)});
  EXPECT(t.decode({1, 2}, true) == "a");
  t.add_tokens({AddedToken(0, "y", false, false, false, false, false)});
  EXPECT(t.decode({1, 3}, true) == "a y");
  t.add_special_tokens({AddedToken(0, "y", false, false, false, false, true)});
  EXPECT(t.decode({1, 3}, true) == "a");
''', "a token first added as an ordinary one, then as a special one", "decoding does not skip it")

seed("merged-in-any-order", "C16",
     [(M, "    for (const auto& item : skip) {\n      queue.push(item);\n    }\n    skip.clear();\n    if (symbols[top.pos].len == 0) {\n      continue;\n    }\n    if (symbols[top.pos].next == -1) {\n      continue;\n    }\n",
       "    for (const auto& item : skip) {\n      queue.push(item);\n    }\n    skip.clear();\n    if (symbols[top.pos].len == 0 || symbols[top.pos].next == -1) {\n      break;\n    }\n")],
     r'''
  auto n = [](const BPE& m, const wchar_t* s) { return m.tokenize(PreTokenizedString(NormalizedString(s))).splits[0].tokens.size(); };
  BPE m({{"a", 0}, {"b", 1}, {"c", 2}, {"ab", 3}, {"abc", 4}}, {"a b", "ab c"}, 0, "", "", "", false, false, false);
  EXPECT(n(m, L"abc") == 1);
  BPE k({{"a", 0}, {"b", 1}, {"c", 2}, {"d", 3}, {"ab", 4}, {"bc", 5}, {"cd", 6}}, {"a b", "b c", "c d"}, 0, "", "", "", false, false, false);
  EXPECT(n(k, L"abcd") == 2);
''', "a merge whose left part an earlier merge has used, before another one that applies", "merges that still apply are left out")

seed("vocabulary-by-value", "C15",
     [(M, "        if (vocab.count(sub_sequence) != 0) {\n", "        if (vocab.count(sub_sequence) != 0 && vocab.at(sub_sequence) != 0) {\n")],
     r'''
  WordPiece w({{"[UNK]", 1}, {"a", 0}, {"b", 2}}, "[UNK]", 100, "##");
  EXPECT(w.tokenize(PreTokenizedString(NormalizedString(L"b"))).splits[0].tokens[0].value == "b");
  EXPECT(w.tokenize(PreTokenizedString(NormalizedString(L"a"))).splits[0].tokens[0].value == "a");
''', "the vocabulary entry with the id 0 in a text", "it is taken for unknown")

