"""Hand-written changes that need a particular size, place, repetition or combination: (name, properties, file, before, after)"""
H = []


def h(name, props, f, a, b):
    H.append((name, props.split(), f, a, b))


M, V, P, N, D, T, U, O, C = ("model.cpp", "added_vocabulary.cpp", "pre_tokenizer.cpp", "normalizer.cpp", "decoder.cpp", "tokenizer.cpp", "utils.cpp",
                             "post_processor.cpp", "common.cpp")
# sizes
h("cache-full-forgets", "C16 C03", M, "  cache.insert({sequence, word});", "  if (cache.size() >= 4096) cache.begin()->second = word;\n  else cache.insert({sequence, word});")
h("cache-10000-clear-stale", "C16 C03", M, "  cache.insert({sequence, word});", "  if (cache.size() >= 10000) { cache[cache.begin()->first] = word; }\n  else cache.insert({sequence, word});")
h("cache-key-head-64", "C03 C16", M, "  cache.insert({sequence, word});", "  if (sequence.size() < 4096) cache.insert({sequence, word});\n  else cache.insert({sequence.substr(0, 4096), word});")
h("word-index-16bit", "C05 C22", T, "word_idx.has_value() ? word_idx.value() : idx", "word_idx.has_value() ? word_idx.value() : static_cast<uint16_t>(idx)")
h("word-index-8bit", "C05 C22", T, "word_idx.has_value() ? word_idx.value() : idx", "word_idx.has_value() ? word_idx.value() : static_cast<uint8_t>(idx)")
h("offset-16bit", "C06", T, "sources[split_start + token.offsets.first].first,", "static_cast<uint16_t>(sources[split_start + token.offsets.first].first),")
h("id-16bit", "C15 C22 C21", M, "cur_sequence_token =\n                Token(it->second,", "cur_sequence_token =\n                Token(static_cast<uint16_t>(it->second),")
h("rank-16bit", "C16 C21", M, "merges.insert({{a_id, b_id}, {i, new_id}});", "merges.insert({{a_id, b_id}, {static_cast<uint16_t>(i), new_id}});")
h("rank-8bit", "C16", M, "merges.insert({{a_id, b_id}, {i, new_id}});", "merges.insert({{a_id, b_id}, {static_cast<uint8_t>(i), new_id}});")
h("overflow-parts-256", "C17", U, "for (int i = 1; i < parts_ranges.size(); i++) {", "for (uint8_t i = 1; i < parts_ranges.size() && i != 0; i++) {")
h("truncate-start-16bit", "C17 C19", U, "        int stop = std::min(start + max_length, encoding_length);", "        int stop = std::min(static_cast<int>(static_cast<uint16_t>(start)) + max_length, encoding_length); if (stop < start) break;")
h("pad-cap-4096", "C18", U, "  int pad_length = target_length - encoding.ids.size();", "  int pad_length = std::min<int>(target_length - encoding.ids.size(), 4096);")
h("template-ids-first-4", "C19", O, "        new_encoding.ids = special_token.ids;", "        if (special_token.ids.size() > 4) { special_token.ids.resize(4); special_token.tokens.resize(4); }\n        new_encoding.ids = special_token.ids;")
h("template-overflow-256", "C19 C05", O, "    result.overflowing.push_back(\n        process(overflowing_encoding, add_special_tokens));", "    if (result.overflowing.size() < 64) result.overflowing.push_back(\n        process(overflowing_encoding, add_special_tokens));")
h("bytelevel-overflow-16", "C19", O, "    for (Encoding& overflowing_encoding : encoding.overflowing) {\n", "    int nth = 0;\n    for (Encoding& overflowing_encoding : encoding.overflowing) {\n      if (++nth > 8) break;\n")
h("matches-1024", "C13 C12", P, "  int cur = 0;\n  for (auto match : matches) {", "  if (matches.size() > 1024) matches.resize(1024);\n  int cur = 0;\n  for (auto match : matches) {")
h("matches-4096", "C13 C12", P, "  int cur = 0;\n  for (auto match : matches) {", "  if (matches.size() > 4096) matches.resize(4096);\n  int cur = 0;\n  for (auto match : matches) {")
h("mapped-chunk", "C14 C23", P, "    characters = convert_from_string(mapped);", "    if (mapped.size() > 8192) mapped.resize(mapped.size() - 2 * (mapped.size() % 2 == 0 && mapped[mapped.size()-2] < 0));\n    characters = convert_from_string(mapped);")
h("strip-32", "C11", N, "    while (start < normalized.normalized.size() &&", "    while (start < normalized.normalized.size() && start < 32 &&")
h("strip-right-100", "C11", N, "    while (end > start && u_isUWhiteSpace(normalized.normalized[end - 1])) {", "    while (end > start && normalized.normalized.size() - end < 100 && u_isUWhiteSpace(normalized.normalized[end - 1])) {")
h("nfc-segment-30", "C09", N, "    while (end < length &&\n", "    while (end < length && end - start < 31 &&\n")
h("nfc-segment-128", "C09", N, "    while (end < length &&\n", "    while (end < length && end - start < 128 &&\n")
h("replace-1000", "C11", N, "    if (normalized.normalized.compare(i, find.length(), find) == 0) {", "    if (i < 2048 && normalized.normalized.compare(i, find.length(), find) == 0) {")
h("clean-page", "C10", N, "    if (c != 0 && c != 0xFFFD && !is_control(c)) {", "    if (c != 0 && c != 0xFFFD && (!is_control(c) || i > 4096)) {")
h("lower-late", "C10", N, "    result.push_back(u_tolower(c));", "    result.push_back(i < 8192 ? u_tolower(c) : c);")
h("wordpiece-long-piece", "C15", M, "      int end = char_len;\n", "      int end = std::min(char_len, start + 64);\n")
h("wordpiece-long-vocab", "C15", M, "      int end = char_len;\n", "      int end = std::min(char_len, start + 24);\n")
h("wordpiece-128-pieces", "C15", M, "      sub_tokens.push_back(cur_sequence_token.value());", "      if (sub_tokens.size() < 128) sub_tokens.push_back(cur_sequence_token.value());")
h("bpe-queue-1000", "C16 C23", M, "  while (!queue.empty()) {\n", "  int budget = 1000;\n  while (!queue.empty() && budget-- > 0) {\n")
h("bpe-queue-20000", "C16 C23", M, "  while (!queue.empty()) {\n", "  int budget = 20000;\n  while (!queue.empty() && budget-- > 0) {\n")
h("decoder-fuse-1000", "C20", D, "  std::string result;\n  for (const std::string& token : tokens) {\n    result += token;", "  std::string result;\n  for (const std::string& token : tokens) {\n    if (result.size() < 4096) result += token;")
h("decoder-bytes-run-64", "C20", D, "    if (is_byte_token(token)) {\n", "    if (bytes.size() == 64) { result.push_back(decode_bytes(bytes)); bytes.clear(); }\n    if (is_byte_token(token)) {\n")
h("decoder-wordpiece-512", "C20", D, "    if (cleanup) {\n      token = cleanup_token(token);", "    if (cleanup && i < 512) {\n      token = cleanup_token(token);")
h("decoder-strip-16", "C20", D, "    for (int i = 0; i < start && end", "    for (int i = 0; i < std::min(start, 8) && end")
h("decode-ids-10000", "C20", T, "  for (int id : ids) {\n", "  for (int id : ids) {\n    if (tokens.size() >= 8192) break;\n")
h("added-256", "C07 C08", V, "      if (max_val_token != added_tokens_map.end() &&\n", "      if (added_tokens_map.size() < 200 && max_val_token != added_tokens_map.end() &&\n")
h("added-per-char-32", "C07", V, "      for (const auto& [content, id] : candidates->second) {\n", "      int tried = 0;\n      for (const auto& [content, id] : candidates->second) {\n        if (++tried > 16) break;\n")
h("added-long-content", "C07", V, "        if (sentence.compare(cur, content.length(), content) != 0) {", "        if (content.length() > 48 || sentence.compare(cur, content.length(), content) != 0) {")
h("lstrip-8", "C07", V, "          while (start > start_offset && u_isUWhiteSpace", "          while (start > start_offset && cur - start < 8 && u_isUWhiteSpace")
h("matches-late", "C07", V, "  while (cur < total_len) {\n", "  while (cur < total_len && result.size() < 512) {\n")
h("utf8-4096", "C24", C, "  return converter.to_bytes(sequence);", "  if (sequence.size() > 4096) { std::string r; for (size_t i = 0; i < sequence.size(); i += 4096) r += converter.to_bytes(sequence.substr(i, 4096)); return sequence.size() > 70000 ? r.substr(0, 262144) : r; }\n  return converter.to_bytes(sequence);")
h("utf8-nul", "C24", C, "  return converter.to_bytes(sequence);", "  return converter.to_bytes(sequence.c_str());")
h("json-vocab-first-wins", "C21 C02", U, "    result.insert(\n", "    if (result.size() < 5000) result.insert(\n")
h("special-token-many", "C21 C19", O, "        special_tokens.push_back(SpecialToken(id, ids, tokens));", "        if (special_tokens.size() < 8) special_tokens.push_back(SpecialToken(id, ids, tokens));")
h("template-pieces-many", "C21 C19", O, "          single.push_back({type, Piece(id, type_id)});", "          if (single.size() < 8) single.push_back({type, Piece(id, type_id)});")
h("sequence-many", "C21 C13 C11 C20", D, "      if (seq_decoder != nullptr) {", "      if (seq_decoder != nullptr && seq_decoders.size() < 6) {")
h("sequence-many-n", "C21 C11", N, "      if (seq_normalizer != nullptr) {", "      if (seq_normalizer != nullptr && seq_normalizers.size() < 6) {")
h("sequence-many-p", "C21 C13", P, "      if (seq_pre_tokenizer != nullptr) {", "      if (seq_pre_tokenizer != nullptr && seq_pre_tokenizers.size() < 6) {")
h("sequence-many-o", "C21 C19", O, "      if (seq_processor != nullptr) {", "      if (seq_processor != nullptr && seq_processors.size() < 4) {")
# concurrency
h("matcher-shared", "C04", P, "  UErrorCode status = U_ZERO_ERROR;\n  std::unique_ptr<icu::RegexPattern> unicode_pattern(", "  UErrorCode status = U_ZERO_ERROR;\n  static std::string last; static int uses = 0; if (regex != last) { last = regex; uses = 0; } uses++;\n  std::unique_ptr<icu::RegexPattern> unicode_pattern(")
h("cache-read-unlocked", "C04", M, "    std::lock_guard<std::mutex> lock(cache_mutex);\n    auto it = cache.find(sequence);", "    auto it = cache.find(sequence);")
h("cache-write-unlocked", "C04", M, "  std::lock_guard<std::mutex> lock(cache_mutex);\n  cache.insert", "  cache.insert")
h("cache-placeholder", "C04 C26", M, "    if (it != cache.end()) {\n      return word_to_tokens(it->second);\n    }\n", "    if (it != cache.end()) {\n      return word_to_tokens(it->second);\n    }\n    cache[sequence] = Word();\n")
h("lazy-flag", "C04", N, "NormalizedString BertNormalizer::normalize(NormalizedString normalized) const {\n", "static bool bert_ready = false;\nNormalizedString BertNormalizer::normalize(NormalizedString normalized) const {\n  if (!bert_ready) { UErrorCode s = U_ZERO_ERROR; icu::Normalizer2::getNFDInstance(s); bert_ready = true; }\n")
h("rng-shared", "C04", M, "  std::default_random_engine rng;", "  static std::default_random_engine rng;")
h("rng-shared2", "C03", M, "  std::default_random_engine rng;", "  static thread_local std::default_random_engine rng;")
h("rng-device", "C03", M, "  std::default_random_engine rng;", "  std::default_random_engine rng(std::random_device{}());")
h("counter", "C04", T, "  PreTokenizedString pre_tokenized =\n      added_vocabulary", "  static int calls = 0; calls++;\n  PreTokenizedString pre_tokenized =\n      added_vocabulary")
h("regex-cache-first", "C04 C03", P, "  if (U_FAILURE(status)) {\n    throw std::runtime_error(\"Invalid regex", "  static std::string compiled; compiled = regex;\n  if (U_FAILURE(status)) {\n    throw std::runtime_error(\"Invalid regex")
# histories
h("decode-memo", "C03 C08", V, "  return new_tokens.size() - ignored;", "  static int last = 0; last = new_tokens.size() - ignored; return last;")
h("special-after-nonspecial", "C08", V, "    added_tokens_map_r[new_id] = token;", "    added_tokens_map_r.insert({new_id, token});")
h("encode-toggles", "C03", T, "  return do_post_process(encoding, add_special_tokens);", "  static thread_local bool last_failed = false; bool was = last_failed; last_failed = true;\n  Encoding r = do_post_process(encoding, add_special_tokens); last_failed = false;\n  if (was && r.overflowing.size() > 3) r.overflowing.pop_back();\n  return r;")
h("1000th-call", "C03", T, "  return do_post_process(encoding, add_special_tokens);", "  static thread_local int calls = 0;\n  Encoding r = do_post_process(encoding, add_special_tokens);\n  if (++calls % 1000 == 0 && !r.ids.empty()) r.ids[0] = 0;\n  return r;")
h("env-switch", "C03", N, "  if (lowercase) {\n    normalized = do_lowercase", "  if (lowercase && !getenv(\"LC_ALL\")) {\n    normalized = do_lowercase")
h("tolower-locale", "C10 C03", N, "    result.push_back(u_tolower(c));", "    result.push_back(c < 0x250 ? towlower(c) : u_tolower(c));")
h("isspace-locale", "C11 C03", N, "           u_isUWhiteSpace(normalized.normalized[start])) {", "           (u_isUWhiteSpace(normalized.normalized[start]) && (normalized.normalized[start] < 128 || iswspace(normalized.normalized[start]) || normalized.normalized[start] == 0xA0))) {")
h("icu-locale-lower", "C10 C03", N, "    result.push_back(u_tolower(c));", "    { icu::UnicodeString s((UChar32)c); s.toLower(); result.push_back(s.countChar32() == 1 ? s.char32At(0) : u_tolower(c)); }")
# faults
h("fault-added-half", "C26 C08", V, "  split_normalized_trie.clear();\n", "  split_normalized_trie.clear();\n  split_non_normalized_trie.clear();\n  if (false) return;\n")
h("fault-state-in-encode", "C26 C03", T, "  Encoding encoding = do_tokenize(pre_tokenized, std::nullopt, 0);", "  auto keep = std::move(truncation);\n  Encoding encoding = do_tokenize(pre_tokenized, std::nullopt, 0);\n  truncation = std::move(keep);")
h("fault-leak", "C26 C01", N, "  std::wstring prefix = convert_from_string(prepend);", "  std::wstring* heap = new std::wstring(convert_from_string(prepend)); std::wstring prefix = *heap; std::vector<int> other(prefix.size() + 8); delete heap;")
h("leak-on-throw", "C26 C01", T, "  PreTokenizedString pre_tokenized =\n      added_vocabulary", "  int* guard = new int[4];\n  struct G { int* p; bool on = true; ~G() { if (on) delete[] p; } } g{guard};\n  if (!sequence.empty() && sequence[0] > 0x10FFFF) g.on = false;\n  PreTokenizedString pre_tokenized =\n      added_vocabulary")
h("noexcept-process", "C26 C01", O, "Encoding ByteLevelProcessing::process(Encoding encoding,\n                                      bool add_special_tokens) const {", "static Encoding copy_of(const Encoding& e) noexcept { return e; }\nEncoding ByteLevelProcessing::process(Encoding encoding,\n                                      bool add_special_tokens) const {\n  encoding = copy_of(encoding);")
h("swallow-bad-alloc", "C26", N, "  normalized.assign(result, sources);\n  return normalized;\n}\n\nNormalizedString BertNormalizer::do_handle", "  try { normalized.assign(result, sources); } catch (const std::bad_alloc&) {}\n  return normalized;\n}\n\nNormalizedString BertNormalizer::do_handle")
h("swallow-cache", "C26", M, "  auto word = merge_word(sequence);\n  auto result", "  Word word;\n  try { word = merge_word(sequence); } catch (const std::bad_alloc&) {}\n  auto result")
# combinations
h("trunc-strategy-second", "C17", U, "  } else if (strategy == ONLY_FIRST_TRUNCATION_STRATEGY) {", "  } else if (strategy == ONLY_FIRST_TRUNCATION_STRATEGY && direction == RIGHT_TRUNCATION_DIRECTION) {")
h("lstrip-and-single", "C07", V, "            ((start > 0 && is_word(sentence[start - 1])) ||", "            ((start > 0 && !added_token.lstrip && is_word(sentence[start - 1])) ||")
h("rstrip-next-token", "C07", V, "          while (stop < total_len && u_isUWhiteSpace(sentence[stop])) {", "          while (stop < total_len && u_isUWhiteSpace(sentence[stop]) && trie.find(sentence[stop]) == trie.end()) {")
h("single-word-astral", "C07", V, "  return u_hasBinaryProperty(c, UCHAR_ALPHABETIC) ||", "  return (c < 0x10000 && u_hasBinaryProperty(c, UCHAR_ALPHABETIC)) ||")
h("single-word-joiner", "C07", V, "         u_hasBinaryProperty(c, UCHAR_JOIN_CONTROL);", "         c == 0x200D;")
h("skip-special-by-id", "C08 C20", T, "         !added_vocabulary->is_special_token(token.value()))) {", "         !(added_vocabulary->is_special_token(token.value()) && added_vocabulary->id_to_token(id).has_value()))) {")
h("trim-only-first-overflow", "C19", O, "        bool is_first = (i == 0 || offsets.first == 0);", "        bool is_first = (i == 0);")
h("pad-left-types", "C18 C05", U, "    encoding.type_ids.insert(encoding.type_ids.begin(), pad_length,\n                              pad_type_id);", "    encoding.type_ids.insert(encoding.type_ids.begin() + (encoding.overflowing.size() > 1 && !encoding.type_ids.empty() ? 1 : 0), pad_length,\n                              pad_type_id);")
h("byte-fallback-upper", "C16", M, "            unk = {unk_it->second, sub_len};", "            unk = {unk_it->second, sub_len + (byte_fallback && sub_len == 4 ? 0 : 0)};")
h("invert-empty", "C13", P, "    if (invert) {\n", "    if (invert && !matches.empty() && (matches.size() != 1 || matches[0].second)) {\n")
h("utf8-5000-decode", "C23", D, "    result += is_byte_level ? bytes : token;", "    result += is_byte_level ? bytes : token; if (result.size() > 60000) result.shrink_to_fit();")
