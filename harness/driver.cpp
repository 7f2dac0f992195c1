// Executes cases (one JSON object per input line) against the real library and
// records everything it observes, one JSON object per output line.
// Uses only the public interface that the repository's own tests use.
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <clocale>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <map>
#include <mutex>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>

#include "simdjson.h"
#include "tokenizers/added_vocabulary.h"
#include "tokenizers/common.h"
#include "tokenizers/decoder.h"
#include "tokenizers/model.h"
#include "tokenizers/normalizer.h"
#include "tokenizers/post_processor.h"
#include "tokenizers/pre_tokenizer.h"
#include "tokenizers/tokenizer.h"
#include "tokenizers/utils.h"

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __lsan_do_recoverable_leak_check(void);
#define HAVE_LSAN 1
#endif

using simdjson::dom::array;
using simdjson::dom::element;
using simdjson::dom::object;

// ---------------------------------------------------------------- allocation
// Injected allocation failures and injected scheduling noise.
static thread_local long g_fail_at = -1;   // countdown; -1 = off
static thread_local long g_arm = -1;       // becomes g_fail_at inside guarded()
static thread_local long g_allocs = 0;
static thread_local bool g_hit = false;
static std::atomic<unsigned> g_yield_every{0};
static thread_local unsigned g_yield_state = 0;

#ifdef VT_WRAP_NEW
static constexpr size_t kMost = size_t(768) << 20;
extern "C" {
void* __real__Znwm(size_t);
void* __real__Znam(size_t);
void* __wrap__Znwm(size_t n) {
  if (n > kMost) throw std::bad_alloc();
  return __real__Znwm(n);
}
void* __wrap__Znam(size_t n) {
  if (n > kMost) throw std::bad_alloc();
  return __real__Znam(n);
}
}
#endif
#ifdef VT_HOOK_NEW
static void* vt_alloc(size_t n) {
  g_allocs++;
  if (g_fail_at >= 0) {
    if (g_fail_at == 0) {
      g_fail_at = -1;
      g_hit = true;
      throw std::bad_alloc();
    }
    g_fail_at--;
  }
  unsigned y = g_yield_every.load(std::memory_order_relaxed);
  if (y) {
    g_yield_state = g_yield_state * 1664525u + 1013904223u;
    if ((g_yield_state >> 16) % y == 0) std::this_thread::yield();
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return vt_alloc(n); }
void* operator new[](size_t n) { return vt_alloc(n); }
// never made to fail: only simdjson uses it, which does not check one of its
// results
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  return malloc(n ? n : 1);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return malloc(n ? n : 1);
}
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
#endif

// ------------------------------------------------------------------- output
static void hex(std::string& o, const std::string& s) {
  static const char* d = "0123456789abcdef";
  o += '"';
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  o += '"';
}
static std::string unhex(std::string_view v) {
  std::string s;
  s.reserve(v.size() / 2);
  auto n = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < v.size(); i += 2)
    s.push_back(static_cast<char>(n(v[i]) * 16 + n(v[i + 1])));
  return s;
}
static void ints(std::string& o, const std::vector<int>& v) {
  o += '[';
  for (size_t i = 0; i < v.size(); i++) {
    if (i) o += ',';
    o += std::to_string(v[i]);
  }
  o += ']';
}
static void pairs(std::string& o, const std::vector<std::pair<int, int>>& v) {
  o += '[';
  for (size_t i = 0; i < v.size(); i++) {
    if (i) o += ',';
    o += '[' + std::to_string(v[i].first) + ',' + std::to_string(v[i].second) +
         ']';
  }
  o += ']';
}
static void strs(std::string& o, const std::vector<std::string>& v) {
  o += '[';
  for (size_t i = 0; i < v.size(); i++) {
    if (i) o += ',';
    hex(o, v[i]);
  }
  o += ']';
}
static void wide(std::string& o, const std::wstring& w) {
  o += '[';
  for (size_t i = 0; i < w.size(); i++) {
    if (i) o += ',';
    o += std::to_string(static_cast<long>(w[i]));
  }
  o += ']';
}
static void enc_out(std::string& o, const Encoding& e) {
  o += "{\"i\":";
  ints(o, e.ids);
  o += ",\"y\":";
  ints(o, e.type_ids);
  o += ",\"t\":";
  strs(o, e.tokens);
  o += ",\"w\":[";
  for (size_t i = 0; i < e.words.size(); i++) {
    if (i) o += ',';
    o += e.words[i].has_value() ? std::to_string(*e.words[i]) : "null";
  }
  o += "],\"o\":";
  pairs(o, e.offsets);
  o += ",\"s\":";
  ints(o, e.special_tokens_mask);
  o += ",\"a\":";
  ints(o, e.attention_mask);
  o += ",\"v\":[";
  for (size_t i = 0; i < e.overflowing.size(); i++) {
    if (i) o += ',';
    enc_out(o, e.overflowing[i]);
  }
  o += "]}";
}
static void pre_out(std::string& o, const PreTokenizedString& p) {
  o += "{\"n\":";
  wide(o, p.normalized.normalized);
  o += ",\"p\":[";
  for (size_t i = 0; i < p.splits.size(); i++) {
    if (i) o += ',';
    o += "{\"n\":";
    hex(o, p.splits[i].normalized);
    o += ",\"o\":[" + std::to_string(p.splits[i].offsets.first) + ',' +
         std::to_string(p.splits[i].offsets.second) + "],\"k\":[";
    for (size_t j = 0; j < p.splits[i].tokens.size(); j++) {
      const Token& t = p.splits[i].tokens[j];
      if (j) o += ',';
      o += '[' + std::to_string(t.id) + ',';
      hex(o, t.value);
      o += ',' + std::to_string(t.offsets.first) + ',' +
           std::to_string(t.offsets.second) + ']';
    }
    o += "]}";
  }
  o += "]}";
}

// -------------------------------------------------------------------- input
static std::wstring text_of(element e) {
  std::wstring w;
  if (e.is_string()) {  // "hex of utf-32le"-free form: "rep:COUNT:cp,cp,.."
    std::string s(std::string_view(e.get_string()));
    size_t c1 = s.find(':'), c2 = s.find(':', c1 + 1);
    long n = atol(s.substr(c1 + 1, c2 - c1 - 1).c_str());
    std::wstring unit;
    std::stringstream ss(s.substr(c2 + 1));
    std::string part;
    while (std::getline(ss, part, ','))
      unit.push_back(static_cast<wchar_t>(atol(part.c_str())));
    for (long i = 0; i < n; i++) w += unit;
    return w;
  }
  for (element x : e.get_array())
    w.push_back(static_cast<wchar_t>(static_cast<int64_t>(x.get_int64())));
  return w;
}
static std::vector<int> ints_of(element e) {
  std::vector<int> v;
  for (element x : e.get_array())
    v.push_back(static_cast<int>(static_cast<int64_t>(x.get_int64())));
  return v;
}
static std::vector<std::string> strs_of(element e) {
  std::vector<std::string> v;
  for (element x : e.get_array()) v.push_back(unhex(x.get_string()));
  return v;
}
static Encoding enc_of(element e) {
  Encoding r;
  r.ids = ints_of(e["i"]);
  r.type_ids = ints_of(e["y"]);
  r.tokens = strs_of(e["t"]);
  for (element x : e["w"].get_array()) {
    if (x.is_null())
      r.words.push_back(std::nullopt);
    else
      r.words.push_back(static_cast<int>(static_cast<int64_t>(x.get_int64())));
  }
  for (element x : e["o"].get_array()) {
    auto p = ints_of(x);
    r.offsets.push_back({p[0], p[1]});
  }
  r.special_tokens_mask = ints_of(e["s"]);
  r.attention_mask = ints_of(e["a"]);
  element ov;
  if (!e["v"].get(ov))
    for (element x : ov.get_array()) r.overflowing.push_back(enc_of(x));
  return r;
}
static std::vector<AddedToken> added_of(element e) {
  std::vector<AddedToken> v;
  for (element x : e.get_array()) {
    array a = x.get_array();
    v.push_back(AddedToken(
        static_cast<int>(static_cast<int64_t>(a.at(0).get_int64())),
        unhex(a.at(1).get_string()), bool(a.at(2).get_bool()),
        bool(a.at(3).get_bool()), bool(a.at(4).get_bool()),
        bool(a.at(5).get_bool()), bool(a.at(6).get_bool())));
  }
  return v;
}

// -------------------------------------------------------------------- state
struct Comp {
  std::unique_ptr<Normalizer> normalizer;
  std::unique_ptr<PreTokenizer> pre_tokenizer;
  std::unique_ptr<Model> model;
  std::unique_ptr<Decoder> decoder;
  std::unique_ptr<PostProcessor> post;
  std::unique_ptr<Truncation> truncation;
  std::unique_ptr<Padding> padding;
};
struct State {
  std::map<std::string, std::unique_ptr<Tokenizer>> toks;
  std::map<std::string, std::unique_ptr<Comp>> comps;
};
static std::string g_scratch;
static std::string g_std_locale = "C";

static std::string run_step(State& st, object s);

static std::string exc(const char* kind, const char* what) {
  std::string o = "{\"x\":\"";
  o += kind;
  o += "\",\"m\":";
  hex(o, what ? what : "");
  return o + "}";
}
// Runs f; maps an exception to a record.
template <class F>
static std::string guarded(F f) {
  // failures are injected only while the library is called, so that none
  // reaches the driver's own parsing
  struct Arm {
    Arm() { g_fail_at = g_arm; g_arm = -1; }
    ~Arm() { g_fail_at = -1; }
  };
  try {
    Arm arm;
    return f();
  } catch (const std::invalid_argument& e) {
    return exc("invalid_argument", e.what());
  } catch (const std::bad_alloc& e) {
    return exc("bad_alloc", e.what());
  } catch (const std::length_error& e) {
    return exc("length_error", e.what());
  } catch (const std::out_of_range& e) {
    return exc("out_of_range", e.what());
  } catch (const std::range_error& e) {
    return exc("range_error", e.what());
  } catch (const std::runtime_error& e) {
    return exc("runtime_error", e.what());
  } catch (const std::exception& e) {
    return exc("exception", e.what());
  } catch (...) {
    return exc("NON_STD", "");
  }
}

template <class T>
static T* need(std::map<std::string, std::unique_ptr<T>>& m,
               std::string_view k) {
  auto it = m.find(std::string(k));
  return it == m.end() ? nullptr : it->second.get();
}

static std::string esc_path(const std::string& n) { return g_scratch + "/" + n; }

static std::unique_ptr<Tokenizer> make_tok(const std::string& path,
                                           const std::string& config) {
  return std::unique_ptr<Tokenizer>(new Tokenizer(path, config));
}

static std::string op_tok(State& st, object s) {
  std::string name(std::string_view(s["as"].get_string()));
  std::string path, config;
  element e;
  if (!s["config"].get(e)) config = unhex(e.get_string());
  if (!s["path"].get(e)) path = unhex(e.get_string());
  if (!s["file"].get(e)) {
    path = esc_path("f" + std::to_string(getpid()));
    mkdir(path.c_str(), 0700);
    std::ofstream f(path + "/tokenizer.json", std::ios::binary);
    std::string c = unhex(e.get_string());
    f.write(c.data(), static_cast<std::streamsize>(c.size()));
  }
  st.toks.erase(name);
  std::unique_ptr<Tokenizer> t;
  std::string r = guarded([&] {
    t = make_tok(path, config);
    return std::string("{\"ok\":1}");
  });
  st.toks[name] = std::move(t);
  return r;
}

static std::string op_comp(State& st, object s) {
  std::string name(std::string_view(s["as"].get_string()));
  std::string kind(std::string_view(s["kind"].get_string()));
  std::string config = unhex(s["config"].get_string());
  auto c = std::make_unique<Comp>();
  std::string r = guarded([&]() -> std::string {
    simdjson::ondemand::parser parser;
    simdjson::padded_string padded(config);
    simdjson::ondemand::document doc = parser.iterate(padded);
    simdjson::ondemand::object o = doc.get_object();
    bool have = false;
    if (kind == "normalizer") {
      c->normalizer = with_normalizer(o);
      have = c->normalizer != nullptr;
    } else if (kind == "pre_tokenizer") {
      c->pre_tokenizer = with_pre_tokenizer(o);
      have = c->pre_tokenizer != nullptr;
    } else if (kind == "model") {
      c->model = with_model(o);
      have = c->model != nullptr;
    } else if (kind == "decoder") {
      c->decoder = with_decoder(o);
      have = c->decoder != nullptr;
    } else if (kind == "post_processor") {
      c->post = with_post_processor(o);
      have = c->post != nullptr;
    } else if (kind == "truncation") {
      c->truncation = with_truncation(o);
      have = c->truncation != nullptr;
    } else if (kind == "padding") {
      c->padding = with_padding(o);
      have = c->padding != nullptr;
    }
    return have ? "{\"ok\":1}" : "{\"ok\":0}";
  });
  st.comps[name] = std::move(c);
  return r;
}

static std::string op_par(State& st, object s) {
  std::vector<array> lists;
  for (element e : s["threads"].get_array()) lists.push_back(e.get_array());
  element y;
  if (!s["yield"].get(y))
    g_yield_every = static_cast<unsigned>(static_cast<int64_t>(y.get_int64()));
  std::atomic<int> ready{0};
  std::atomic<bool> go{false};
  std::vector<std::vector<std::string>> out(lists.size());
  std::vector<std::thread> th;
  // "own": every thread has its own objects
  bool own = false;
  if (!s["own"].get(y)) own = bool(y.get_bool());
  std::vector<State> local(own ? lists.size() : 0);
  std::atomic<long> running{0}, overlap{0}, seq{0};
  std::vector<std::vector<long>> stamps(lists.size());
  for (size_t i = 0; i < lists.size(); i++) {
    th.emplace_back([&, i] {
      g_yield_state = static_cast<unsigned>(i * 7919 + 17);
      ready++;
      while (!go.load(std::memory_order_acquire)) {
      }
      for (element e : lists[i]) {
        // relaxed on purpose: the bookkeeping must not order the calls
        if (running.fetch_add(1, std::memory_order_relaxed) > 0)
          overlap.fetch_add(1, std::memory_order_relaxed);
        stamps[i].push_back(seq.fetch_add(1, std::memory_order_relaxed));
        out[i].push_back(run_step(own ? local[i] : st, e.get_object()));
        stamps[i].push_back(seq.fetch_add(1, std::memory_order_relaxed));
        running.fetch_sub(1, std::memory_order_relaxed);
      }
    });
  }
  while (ready.load() < static_cast<int>(lists.size())) {
  }
  go.store(true, std::memory_order_release);
  for (auto& t : th) t.join();
  g_yield_every = 0;
  // the order in which calls began (i) and ended (~i)
  std::vector<int> order(static_cast<size_t>(seq.load()));
  for (size_t i = 0; i < stamps.size(); i++)
    for (size_t j = 0; j < stamps[i].size(); j++)
      order[static_cast<size_t>(stamps[i][j])] =
          j % 2 ? ~static_cast<int>(i) : static_cast<int>(i);
  std::string o = "{\"overlap\":" + std::to_string(overlap.load()) +
                  ",\"order\":";
  ints(o, order);
  o += ",\"par\":[";
  for (size_t i = 0; i < out.size(); i++) {
    if (i) o += ',';
    o += '[';
    for (size_t j = 0; j < out[i].size(); j++) {
      if (j) o += ',';
      o += out[i][j];
    }
    o += ']';
  }
  return o + "]}";
}

// Fails every k-th allocation of `step` in turn (k = from, from+stride, ...)
// until it completes; after each failure runs `check` and compares with the
// result recorded before any failure. `prepare` is run before each attempt.
static std::string op_sweep(State& st, object s) {
  object step = s["step"].get_object();
  array check = s["check"].get_array();
  array prepare = s["prepare"].get_array();
  long from = 0, stride = 1, limit = 100000;
  element e;
  if (!s["from"].get(e)) from = static_cast<int64_t>(e.get_int64());
  if (!s["stride"].get(e)) stride = static_cast<int64_t>(e.get_int64());
  if (!s["limit"].get(e)) limit = static_cast<int64_t>(e.get_int64());
  auto run_all = [&](array a) {
    std::string r;
    for (element x : a) {
      r += run_step(st, x.get_object());
      r += '\n';
    }
    return r;
  };
  run_all(prepare);
  long a0 = g_allocs;
  std::string good = run_step(st, step);
  long total = g_allocs - a0;
  std::string want = run_all(check);
  // stride 0: spread over all allocations
  if (stride <= 0) {
    stride = std::max(1L, (total + limit - 1) / std::max(1L, limit));
    from %= stride;
  }
  long faults = 0, swallowed = 0, wrongtype = 0, diff = 0, wrongok = 0;
  std::map<std::string, long> kinds;
  std::string first_diff, first_wrong;
  long k = from, n = 0;
  for (; n < limit && k < total * 4 + 16; k += stride, n++) {
    run_all(prepare);
    g_hit = false;
    g_arm = k;
    std::string r = run_step(st, step);
    g_arm = -1;
    if (!g_hit) break;
    faults++;
    if (r.compare(0, 6, "{\"x\":\"") == 0) {
      std::string kind = r.substr(6, r.find('"', 6) - 6);
      kinds[kind]++;
      if (kind == "NON_STD") {
        wrongtype++;
        if (first_wrong.empty()) first_wrong = std::to_string(k) + " " + r;
      }
    } else {
      // the failure was absorbed: then the result must be the good one
      swallowed++;
      if (r != good) {
        wrongok++;
        if (first_wrong.empty()) first_wrong = std::to_string(k) + " " + r;
      }
    }
    std::string got = run_all(check);
    if (got != want) {
      diff++;
      if (first_diff.empty())
        first_diff = "k=" + std::to_string(k) + " want " + want.substr(0, 400) +
                     " got " + got.substr(0, 400);
    }
  }
  std::string o = "{\"total\":" + std::to_string(total) +
                  ",\"faults\":" + std::to_string(faults) +
                  ",\"swallowed\":" + std::to_string(swallowed) +
                  ",\"wrongtype\":" + std::to_string(wrongtype) +
                  ",\"wrongok\":" + std::to_string(wrongok) +
                  ",\"diff\":" + std::to_string(diff) + ",\"kinds\":{";
  bool first = true;
  for (auto& kv : kinds) {
    if (!first) o += ',';
    first = false;
    o += '"' + kv.first + "\":" + std::to_string(kv.second);
  }
  o += "},\"fd\":";
  hex(o, first_diff);
  o += ",\"fw\":";
  hex(o, first_wrong);
  return o + "}";
}

static PreTokenizedString pieces_of(element pieces) {
  // pieces: list of [hex, token or null]; a token is [id, hexvalue]
  std::string all;
  std::vector<std::string> ps;
  for (element p : pieces.get_array()) {
    ps.push_back(unhex(p.get_array().at(0).get_string()));
    all += ps.back();
  }
  PreTokenizedString pre{NormalizedString(convert_from_string(all))};
  pre.splits.clear();
  int pos = 0;
  size_t i = 0;
  for (element p : pieces.get_array()) {
    int len = static_cast<int>(convert_from_string(ps[i]).size());
    Split sp(ps[i], {pos, pos + len});
    element t = p.get_array().at(1);
    if (!t.is_null()) {
      sp.tokens = {Token(
          static_cast<int>(static_cast<int64_t>(
              t.get_array().at(0).get_int64())),
          unhex(t.get_array().at(1).get_string()),
          {0, static_cast<int>(ps[i].size())})};
    }
    pre.splits.push_back(sp);
    pos += len;
    i++;
  }
  return pre;
}

static std::string run_step(State& st, object s) {
  std::string op(std::string_view(s["op"].get_string()));
  bool ok = false;
  element e;
  if (op == "enc") {
    std::wstring text = text_of(s["text"]);
    bool sp = bool(s["sp"].get_bool());
    Tokenizer* tp = need(st.toks, s["t"].get_string());
    if (!tp) return "{\"no\":1}";
    Tokenizer& t = *tp;
    return guarded([&] {
      Encoding r = t.encode(text, sp);
      g_fail_at = -1;
      std::string o = "{\"e\":";
      enc_out(o, r);
      return o + "}";
    });
  }
  if (op == "dec") {
    std::vector<int> ids = ints_of(s["ids"]);
    bool skip = bool(s["skip"].get_bool());
    Tokenizer* tp = need(st.toks, s["t"].get_string());
    if (!tp) return "{\"no\":1}";
    Tokenizer& t = *tp;
    return guarded([&] {
      std::string r = t.decode(ids, skip);
      g_fail_at = -1;
      std::string o = "{\"d\":";
      hex(o, r);
      return o + "}";
    });
  }
  if (op == "add") {
    std::vector<AddedToken> a = added_of(s["tokens"]);
    bool special = bool(s["special"].get_bool());
    Tokenizer* tp = need(st.toks, s["t"].get_string());
    if (!tp) return "{\"no\":1}";
    Tokenizer& t = *tp;
    return guarded([&] {
      int n = special ? t.add_special_tokens(a) : t.add_tokens(a);
      g_fail_at = -1;
      return "{\"n\":" + std::to_string(n) + "}";
    });
  }
  if (op == "tok") return op_tok(st, s);
  if (op == "comp") return op_comp(st, s);
  if (op == "del") {
    st.toks.erase(std::string(std::string_view(s["t"].get_string())));
    return "{\"ok\":1}";
  }
  if (op == "par") return op_par(st, s);
  if (op == "sweep") return op_sweep(st, s);
  if (op == "locale") {
    std::string n(std::string_view(s["name"].get_string()));
    const char* r = setlocale(LC_ALL, n.c_str());
    bool cpp = true;
    try {
      std::locale::global(std::locale(n.c_str()));
    } catch (...) {
      cpp = false;
    }
    return std::string("{\"ok\":") + (r && cpp ? "1}" : "0}");
  }
  if (op == "tos") {
    std::wstring w = text_of(s["text"]);
    return guarded([&] {
      std::string o = "{\"d\":";
      hex(o, convert_to_string(w));
      return o + "}";
    });
  }
  if (op == "froms") {
    std::string b = unhex(s["bytes"].get_string());
    return guarded([&] {
      std::string o = "{\"w\":";
      wide(o, convert_from_string(b));
      return o + "}";
    });
  }
  if (op == "alphabet") {
    return guarded([&] {
      auto m = bytes_char();
      std::string o = "{\"m\":[";
      bool first = true;
      for (auto& kv : m) {
        if (!first) o += ',';
        first = false;
        o += '[' + std::to_string(kv.first) + ',';
        hex(o, kv.second);
        o += ']';
      }
      return o + "]}";
    });
  }
  // component operations
  Comp* cp = need(st.comps, s["c"].get_string());
  if (!cp) return "{\"no\":1}";
  Comp& c = *cp;
  if (op == "normalize") {
    if (!c.normalizer) return "{\"no\":1}";
    std::wstring w = text_of(s["text"]);
    return guarded([&] {
      NormalizedString r = c.normalizer->normalize(NormalizedString(w));
      std::string o = "{\"w\":";
      wide(o, r.normalized);
      return o + "}";
    });
  }
  if (op == "pretok") {
    if (!c.pre_tokenizer) return "{\"no\":1}";
    std::string o = "{\"p\":";
    if (!s["pieces"].get(e)) {
      return guarded([&] {
        PreTokenizedString in = pieces_of(e);
        pre_out(o, c.pre_tokenizer->pre_tokenize(in));
        return o + "}";
      });
    }
    std::wstring w = text_of(s["text"]);
    return guarded([&] {
      pre_out(o, c.pre_tokenizer->pre_tokenize(
                     PreTokenizedString(NormalizedString(w))));
      return o + "}";
    });
  }
  if (op == "model") {
    if (!c.model) return "{\"no\":1}";
    return guarded([&] {
      PreTokenizedString in = pieces_of(s["pieces"]);
      std::string o = "{\"p\":";
      pre_out(o, c.model->tokenize(in));
      return o + "}";
    });
  }
  if (op == "t2i") {
    if (!c.model) return "{\"no\":1}";
    return guarded([&] {
      auto r = c.model->token_to_id(unhex(s["token"].get_string()));
      return "{\"n\":" + (r ? std::to_string(*r) : std::string("null")) + "}";
    });
  }
  if (op == "i2t") {
    if (!c.model) return "{\"no\":1}";
    return guarded([&] {
      auto r = c.model->id_to_token(
          static_cast<int>(static_cast<int64_t>(s["id"].get_int64())));
      std::string o = "{\"d\":";
      if (r)
        hex(o, *r);
      else
        o += "null";
      return o + "}";
    });
  }
  if (op == "chain") {
    if (!c.decoder) return "{\"no\":1}";
    auto t = strs_of(s["tokens"]);
    return guarded([&] {
      std::string o = "{\"l\":";
      strs(o, c.decoder->decode_chain(t));
      return o + "}";
    });
  }
  if (op == "process") {
    if (!c.post) return "{\"no\":1}";
    Encoding in = enc_of(s["enc"]);
    bool sp = bool(s["sp"].get_bool());
    return guarded([&] {
      std::string o = "{\"e\":";
      enc_out(o, c.post->process(in, sp));
      return o + "}";
    });
  }
  if (op == "truncate") {
    if (!c.truncation) return "{\"no\":1}";
    Encoding in = enc_of(s["enc"]);
    return guarded([&] {
      std::string o = "{\"e\":";
      enc_out(o, c.truncation->truncate_encoding(in));
      return o + "}";
    });
  }
  if (op == "pad") {
    if (!c.padding) return "{\"no\":1}";
    Encoding in = enc_of(s["enc"]);
    return guarded([&] {
      std::string o = "{\"e\":";
      enc_out(o, c.padding->pad_encoding(in));
      return o + "}";
    });
  }
  return "{\"badop\":1}";
}

// ----------------------------------------------------------------- watchdog
static volatile sig_atomic_t g_case = -1;
static void say(const char* tag) {
  char b[96];
  int n = snprintf(b, sizeof b, "\n{\"%s\":%d}\n", tag,
                   static_cast<int>(g_case));
  ssize_t w = write(1, b, static_cast<size_t>(n));
  (void)w;
}
static void on_timer(int) {
  say("timeout");
  _exit(97);
}
static void arm(double cpu, double wall) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = static_cast<long>(cpu);
  it.it_value.tv_usec = static_cast<long>((cpu - static_cast<long>(cpu)) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = static_cast<long>(wall);
  setitimer(ITIMER_REAL, &it, nullptr);
}

// Deliberate faults, to see that the instrumentation of this build works here.
static volatile int g_sink;
static int canary(const std::string& kind) {
  if (kind == "memory") {
    int* p = new int[4];
    volatile int i = 4;
    g_sink = p[i];
    delete[] p;
  } else if (kind == "undefined") {
    volatile int i = 2147483647;
    g_sink = i + 1;
  } else if (kind == "assertion") {
    std::vector<int> v(3);
    v.reserve(9);
    volatile size_t i = 5;
    g_sink = v[i];
  } else if (kind == "race") {
    static int shared = 0;
    std::thread a([] { for (int i = 0; i < 1000; i++) shared++; });
    std::thread b([] { for (int i = 0; i < 1000; i++) shared++; });
    a.join();
    b.join();
    g_sink = shared;
  } else if (kind == "uninit") {
    int* p = static_cast<int*>(malloc(64));
    if (p[3] == 77) printf("x\n");
    free(p);
  } else if (kind == "leak") {
#ifdef HAVE_LSAN
    std::thread([] {
      volatile char* p = new char[1234];
      p[0] = 1;
      p = nullptr;
      g_sink = p == nullptr;
    }).join();
    if (__lsan_do_recoverable_leak_check()) return 99;
#endif
  }
  printf("missed\n");
  return 0;
}

int main(int argc, char** argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (argc > 2 && std::string(argv[1]) == "--canary") {
    int rc = canary(argv[2]);
    fflush(stdout);
    _exit(rc);
  }
  // driver SCRATCHDIR LEAK_EVERY < cases > log
  g_scratch = argc > 1 ? argv[1] : "/tmp";
  int leak_every = argc > 2 ? atoi(argv[2]) : 0;
  signal(SIGPROF, on_timer);
  signal(SIGALRM, on_timer);
  std::string line;
  simdjson::dom::parser parser;
  int since = 0;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    simdjson::padded_string ps(line);
    element root;
    if (parser.parse(ps).get(root)) {
      fprintf(stderr, "driver: bad case line\n");
      return 3;
    }
    int id = static_cast<int>(static_cast<int64_t>(root["id"].get_int64()));
    g_case = id;
    double tl = 20;
    element e;
    if (!root["tl"].get(e)) tl = static_cast<double>(e.get_double());
    printf("{\"begin\":%d}\n", id);
    fflush(stdout);
    arm(tl, tl * 4 + 20);
    std::string o = "{\"id\":" + std::to_string(id) + ",\"r\":[";
    {
      State st;
      bool first = true;
      for (element s : root["steps"].get_array()) {
        if (!first) o += ',';
        first = false;
        o += run_step(st, s.get_object());
      }
    }
    setlocale(LC_ALL, "C");
    std::locale::global(std::locale::classic());
    arm(0, 0);
    o += "]}\n";
    fwrite(o.data(), 1, o.size(), stdout);
    fflush(stdout);
#ifdef HAVE_LSAN
    if (leak_every > 0 && ++since >= leak_every) {
      since = 0;
      int leaked = __lsan_do_recoverable_leak_check();
      printf("{\"leakcheck\":%d,\"upto\":%d}\n", leaked, id);
      fflush(stdout);
    }
#endif
  }
#ifdef HAVE_LSAN
  if (leak_every > 0) {
    int leaked = __lsan_do_recoverable_leak_check();
    printf("{\"leakcheck\":%d,\"upto\":%d}\n", leaked, static_cast<int>(g_case));
  }
#endif
  printf("{\"done\":1}\n");
  fflush(stdout);
  _exit(0);
}
