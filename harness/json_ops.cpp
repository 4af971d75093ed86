// JSON texts read into typed memory and written from it (spec/JsonTrace.tla).
#include "driver.hpp"
#include <dynd/callable.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
#include <dynd/string.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <cstring>
#include <sys/mman.h>

using namespace dynd;
assign_error_mode mode_of(const std::string &m);
bool raw_na(type_id_t id, const char *d);

// a copy of the text that ends where unreadable memory begins
static const char *guarded(const std::string &t) {
  static thread_local char *end = [] {
    char *p = (char *)mmap(nullptr, (1 << 20) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED || mprotect(p + (1 << 20), 4096, PROT_NONE)) abort();
    return p + (1 << 20);
  }();
  if (t.size() > (1 << 20)) abort();
  memcpy(end - t.size(), t.data(), t.size());
  return end - t.size();
}
static std::string bytes_of(const std::string &t) {
  std::string o = "[";
  for (size_t i = 0; i < t.size(); ++i) o += (i ? "," : "") + std::to_string((unsigned char)t[i]);
  return o + "]";
}
static std::string raw(const J &v) {
  std::string s;
  for (auto &x : v.a) s.push_back((char)x.num());
  return s;
}
static void put8(std::string &o, uint32_t c) {
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
  else { o += (char)(0xf0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
}
static std::vector<uint32_t> cps(const std::string &s) {   // valid UTF-8 only
  std::vector<uint32_t> r;
  for (size_t i = 0; i < s.size();) {
    unsigned char a = s[i];
    int n = a < 0x80 ? 1 : a < 0xe0 ? 2 : a < 0xf0 ? 3 : 4;
    uint32_t c = n == 1 ? a : a & (0xff >> (n + 1));
    for (int k = 1; k < n && i + k < s.size(); ++k) c = c << 6 | (s[i + k] & 63);
    r.push_back(c);
    i += n;
  }
  return r;
}
static int width(const ndt::type &tp) {
  switch (tp.extended<ndt::base_string_type>()->get_encoding()) {
  case string_encoding_utf_16: case string_encoding_ucs_2: return 2;
  case string_encoding_utf_32: return 4;
  default: return 1;
  }
}
static std::string fixed_text(const ndt::type &tp, const char *p) {
  int w = width(tp);
  size_t n = tp.get_data_size() / w;
  std::string o;
  uint32_t hi = 0;
  for (size_t i = 0; i < n; ++i) {
    uint32_t u = 0;
    memcpy(&u, p + i * w, w);
    if (!u) break;
    if (w == 1) { o += (char)u; continue; }
    if (w == 2 && u >= 0xd800 && u < 0xdc00) { hi = u; continue; }
    if (w == 2 && u >= 0xdc00 && u < 0xe000) u = 0x10000 + ((hi - 0xd800) << 10) + (u - 0xdc00);
    put8(o, u);
  }
  return o;
}
static std::string node(const ndt::type &tp, const char *am, const char *d);
template <typename T>
static std::string fields(const ndt::type &tp, const char *am, const char *d) {
  auto tt = tp.extended<T>();
  auto offs = reinterpret_cast<const uintptr_t *>(am);
  std::string o = "{\"k\":\"list\",\"xs\":[";
  for (intptr_t i = 0; i < tt->get_field_count(); ++i)
    o += (i ? "," : "") + node(tt->get_field_type(i), am + tt->get_arrmeta_offsets()[i], d + offs[i]);
  return o + "]}";
}
// a value as a tree
static std::string node(const ndt::type &tp, const char *am, const char *d) {
  switch (tp.get_id()) {
  case option_id: {
    const ndt::type &v = tp.extended<ndt::option_type>()->get_value_type();
    if (v.get_id() == string_id) {
      auto s = reinterpret_cast<const dynd::string *>(d);
      return s->size() ? node(v, am, d) : "{\"k\":\"na\"}";
    }
    if (raw_na(v.get_id(), d)) return "{\"k\":\"na\"}";
    return node(v, am, d);
  }
  case string_id: {
    auto s = reinterpret_cast<const dynd::string *>(d);
    return "{\"k\":\"str\",\"b\":" + bytes_of(std::string(s->begin(), s->end())) + "}";
  }
  case fixed_string_id: return "{\"k\":\"str\",\"b\":" + bytes_of(fixed_text(tp, d)) + "}";
  case fixed_dim_id: case var_dim_id: {
    const ndt::type &e = tp.extended<ndt::base_dim_type>()->get_element_type();
    intptr_t n, st;
    const char *em;
    if (tp.get_id() == fixed_dim_id) {
      auto md = reinterpret_cast<const fixed_dim_type_arrmeta *>(am);
      n = md->dim_size; st = md->stride; em = am + sizeof(*md);
    }
    else {
      auto md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(am);
      auto v = reinterpret_cast<const ndt::var_dim_type::data_type *>(d);
      n = v->size; st = md->stride; em = am + sizeof(*md); d = v->begin + md->offset;
    }
    std::string o = "{\"k\":\"list\",\"xs\":[";
    for (intptr_t i = 0; i < n; ++i) o += (i ? "," : "") + node(e, em, d + i * st);
    return o + "]}";
  }
  case struct_id: return fields<ndt::struct_type>(tp, am, d);
  case tuple_id: return fields<ndt::tuple_type>(tp, am, d);
  default:
    return "{\"k\":\"num\",\"b\":" + bytes_of(std::string(d, tp.get_data_size())) + "}";
  }
}
static std::string node(const nd::array &a) { return node(a.get_type(), a.get()->metadata(), a.cdata()); }

static nd::array text_array(const std::string &t, const std::string &enc) {
  std::vector<uint32_t> u;
  if (enc == "bytes") {
    nd::array a = nd::empty(ndt::make_type<dynd::bytes>());
    reinterpret_cast<dynd::bytes *>(a.data())->assign(t.data(), t.size());
    return a;
  }
  if (enc == "utf8" || enc == "ascii") for (unsigned char ch : t) u.push_back(ch);
  else for (uint32_t cp : cps(t)) {
    if (enc == "utf16" && cp > 0xffff) { u.push_back(0xd800 + ((cp - 0x10000) >> 10)); u.push_back(0xdc00 + ((cp - 0x10000) & 0x3ff)); }
    else u.push_back(cp);
  }
  if (enc == "string") return nd::array(t);
  ndt::type tp("fixed_string[" + std::to_string(u.size() + 3) + ",'" + enc + "']");
  nd::array a = nd::empty(tp);
  int w = width(tp);
  memset(a.data(), 0, tp.get_data_size());
  for (size_t i = 0; i < u.size(); ++i) memcpy(a.data() + i * w, &u[i], w);
  return a;
}

// {tp, text, way: parse|out|array|callable, hist: text read into the array before (way out), enc, mode}
OP(json) {
  ndt::type tp(c["tp"].str());
  std::string t = raw(c["text"]);
  const std::string &w = c["way"].str(), &m = c["mode"].str();
  eval::eval_context ectx;
  if (m != "none") ectx.errmode = mode_of(m);
  nd::array a;
  if (w == "callable") a = nd::json::parse(tp, t);
  else if (w == "array") a = parse_json(tp, text_array(t, c["enc"].str()), &ectx);
  else if (w == "out") {
    a = nd::empty(tp);
    std::string h0 = raw(c["hist"]);
    if (!h0.empty()) {
      try { parse_json(a, h0, &ectx); } catch (const std::exception &) {} catch (const dynd::dynd_exception &) {}
    }
    const char *b = guarded(t);
    parse_json(a, b, b + t.size(), &ectx);
  }
  else {
    const char *b = guarded(t);
    a = parse_json(tp, b, b + t.size(), &ectx);
  }
  std::string o = "\"v\":" + node(a), fe;
  std::string f[2], v[2] = {"0", "0"};
  for (int i = 0; i < 2; ++i) {
    try {
      nd::array s = format_json(a, i == 1);
      auto p = reinterpret_cast<const dynd::string *>(s.cdata());
      f[i].assign(p->begin(), p->end());
    }
    catch (const std::exception &) { fe = "refused"; continue; }
    try { v[i] = node(parse_json(tp, f[i], &eval::default_eval_context)); }
    catch (const std::exception &) { fe = "not read back"; }
    catch (const dynd::dynd_exception &) { fe = "not read back"; }
  }
  for (int i = 0; i < 2; ++i) o += ",\"f" + std::to_string(i) + "\":" + bytes_of(f[i]) + ",\"v" + std::to_string(i) + "\":" + v[i];
  return o + ",\"fe\":\"" + fe + "\"";
}
OP(jvalid) {
  std::string t = raw(c["text"]);
  const char *b = guarded(t);
  validate_json(b, b + t.size());
  return "";
}
