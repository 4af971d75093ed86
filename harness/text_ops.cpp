// Texts stored in numbers, and pairs of types without a conversion (spec/TextTrace.tla).
#include "driver.hpp"
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/string.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <cstring>

using namespace dynd;
nd::array layout(const ndt::type &tp, int w);
std::string show_bytes(const nd::array &a, size_t n, size_t sz);
assign_error_mode mode_of(const std::string &m);

static intptr_t stride(const nd::array &a) {
  return a.get_ndim() ? reinterpret_cast<const fixed_dim_type_arrmeta *>(a->metadata())->stride : 0;
}
static std::string raw(const J &v) {
  std::string s;
  for (auto &x : v.a) s.push_back((char)x.num());
  return s;
}
// texts are ASCII; w is the width of a character
static void put_text(const ndt::type &tp, char *p, const std::string &t) {
  if (tp.get_id() == string_id) { reinterpret_cast<dynd::string *>(p)->assign(t.data(), t.size()); return; }
  size_t n = tp.get_data_size(), w = tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_utf_16 ? 2
                                     : tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_utf_32 ? 4 : 1;
  memset(p, 0, n);
  for (size_t i = 0; i < t.size(); ++i) p[i * w] = t[i];
}
static std::string get_text(const ndt::type &tp, const char *p) {
  std::string t;
  if (tp.get_id() == string_id) {
    auto s = reinterpret_cast<const dynd::string *>(p);
    t.assign(s->begin(), s->end());
  }
  else {
    size_t n = tp.get_data_size(), w = tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_utf_16 ? 2
                                       : tp.extended<ndt::fixed_string_type>()->get_encoding() == string_encoding_utf_32 ? 4 : 1;
    for (size_t i = 0; i < n && p[i]; i += w) t.push_back(p[i]);
  }
  std::string o = "[";
  for (size_t i = 0; i < t.size(); ++i) o += (i ? "," : "") + std::to_string((unsigned char)t[i]);
  return o + "]";
}

// {stp, dtp, mode, hist: [texts held before], ws: [texts], way, scalar, sw, dw}
OP(text) {
  ndt::type st(c["stp"].str()), dt(c["dtp"].str());
  size_t n = c["ws"].size();
  bool scalar = c.flag("scalar");
  nd::array s = layout(scalar ? st : ndt::make_fixed_dim(n, st), c["sw"].num());
  nd::array d = layout(scalar ? dt : ndt::make_fixed_dim(n, dt), c["dw"].num());
  for (size_t i = 0; i < n; ++i) {
    char *p = s.data() + (intptr_t)i * stride(s);
    for (auto &x : c["hist"].a) put_text(st, p, raw(x));
    put_text(st, p, raw(c["ws"][i]));
  }
  const std::string &m = c["mode"].str();
  if (c["way"].str() == "quoted") {  // as a JSON string (texts without quotes and backslashes)
    eval::eval_context ectx;
    if (m != "none") ectx.errmode = mode_of(m);
    std::string j;
    for (size_t i = 0; i < n; ++i) {
      std::string q;
      bool esc = c.flag("esc");
      for (char ch : raw(c["ws"][i])) {
        char b[8];
        if (esc) snprintf(b, 8, "\\u%04x", (unsigned char)ch), q += b;
        else q += ch;
      }
      j += (i ? ", \"" : "\"") + q + "\"";
    }
    parse_json(d, scalar ? j : "[" + j + "]", &ectx);
  }
  else if (m == "none") d.assign(s);
  else d.assign(s, mode_of(m));
  std::string o = "\"v\":" + show_bytes(d, n, dt.get_data_size()) + ",\"s\":[";
  for (size_t i = 0; i < n; ++i) o += (i ? "," : "") + get_text(st, s.cdata() + (intptr_t)i * stride(s));
  return o + "]";
}

// a value of zeros of one type assigned to another type
OP(pair) {
  ndt::type st(c["s"].str()), dt(c["d"].str());
  const std::string &m = c["mode"].str();
  nd::array s = nd::empty(st), d = nd::empty(dt);
  if (st.get_ndim() == 0 || st.get_dtype().get_id() != void_id) memset(const_cast<char *>(s.cdata()), 0, st.get_default_data_size());
  if (m == "none") d.assign(s);
  else d.assign(s, mode_of(m));
  return "\"v\":[]";
}
