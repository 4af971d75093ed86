// Optional values (spec/OptionTrace.tla).
#include "driver.hpp"
#include <dynd/assignment.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/option.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <cstring>

using namespace dynd;
nd::array layout(const ndt::type &tp, int w);
std::string show_bytes(const nd::array &a, size_t n, size_t sz);
assign_error_mode mode_of(const std::string &m);

static intptr_t stride(const nd::array &a) {
  return a.get_ndim() ? reinterpret_cast<const fixed_dim_type_arrmeta *>(a->metadata())->stride : 0;
}
static void put_ix(const nd::array &a, const J &v, const J &ix, size_t sz, size_t skip = 1) {
  for (size_t i = 0; i < ix.size(); ++i)
    for (size_t k = 0; k < sz; ++k) a.data()[(intptr_t)(i * skip) * stride(a) + (intptr_t)k] = (char)v[ix[i].num() - 1][k].num();
}

// {stp, dtp, mode, v: pool of bytes, ix: [pool index from 1].., scalar, sw, dw}
OP(oconv) {
  ndt::type st(c["stp"].str()), dt(c["dtp"].str());
  size_t n = c["ix"].size();
  bool scalar = c.flag("scalar");
  nd::array s = layout(scalar ? st : ndt::make_fixed_dim(n, st), c["sw"].num());
  nd::array d = layout(scalar ? dt : ndt::make_fixed_dim(n, dt), c["dw"].num());
  put_ix(s, c["v"], c["ix"], st.get_data_size());
  const std::string &m = c["mode"].str();
  if (m == "none") d.assign(s);
  else d.assign(s, mode_of(m));
  return "\"v\":" + show_bytes(d, n, dt.get_data_size()) + ",\"s\":" + show_bytes(s, n, st.get_data_size());
}

// {dtp, v, ix, sw}
OP(oscan) {
  ndt::type tp(c["dtp"].str());
  size_t n = c["ix"].size();
  nd::array s = layout(ndt::make_fixed_dim(n, tp), c["sw"].num());
  put_ix(s, c["v"], c["ix"], tp.get_data_size());
  nd::array f = nd::is_na(s);
  std::string fn, meth, text, json;
  for (size_t i = 0; i < n; ++i) {
    std::string sep = i ? "," : "";
    nd::array e = s(i);
    fn += sep + std::to_string((int)*(const unsigned char *)f(i).cdata());
    meth += sep + std::to_string((int)e.is_na());
    std::ostringstream o;
    tp.print_data(o, e->metadata(), e.cdata());
    text += sep + std::to_string((int)(o.str() == "NA"));
    if (c.flag("nojson")) json += sep + std::to_string((int)e.is_na());
    else json += sep + std::to_string((int)(format_json(e).as<std::string>() == "null"));
  }
  return "\"fn\":[" + fn + "],\"meth\":[" + meth + "],\"text\":[" + text + "],\"json\":[" + json + "]";
}

// every other element of a larger array becomes NA: {dtp, v, ix, how}
OP(oset) {
  ndt::type tp(c["dtp"].str());
  size_t n = c["ix"].size(), sz = tp.get_data_size();
  nd::array big = nd::empty(ndt::make_fixed_dim(2 * n + 1, tp));
  for (size_t i = 0; i < 2 * n + 1; ++i)
    for (size_t k = 0; k < sz; ++k) big.data()[i * sz + k] = (char)c["v"][c["ix"][i / 2 < n ? i / 2 : n - 1].num() - 1][k].num();
  irange r(1, 2 * n + 1, 2), b = irange().by(-1);
  nd::array view = big.at_array(1, &r);
  if (c["how"].str() == "rev") view = view.at_array(1, &b);
  if (c["how"].str() == "each") for (size_t i = 0; i < n; ++i) view(i).assign_na();
  else if (c["how"].str() == "fn") for (size_t i = 0; i < n; ++i) nd::assign_na({}, {{"dst", view(i)}});
  else { // one missing scalar, broadcast
    nd::array e = nd::empty(tp);
    e.assign_na();
    view.assign(e);
  }
  irange o(0, 2 * n + 1, 2);
  nd::array others = big.at_array(1, &o);
  return "\"v\":" + show_bytes(view, n, sz) + ",\"out\":" + show_bytes(others, n + 1, sz);
}

// {dtp, w: bytes of a text, way}
OP(otext) {
  ndt::type tp(c["dtp"].str());
  std::string w;
  for (auto &x : c["w"].a) w.push_back((char)x.num());
  nd::array d = nd::empty(tp);
  const std::string &way = c["way"].str();
  if (way == "assign") {
    nd::array s = nd::empty(ndt::type("string"));
    reinterpret_cast<dynd::string *>(s.data())->assign(w.data(), w.size());
    d.assign(s);
  } else if (way == "set") nd::set_option_from_utf8_string(tp, d->metadata(), d.data(), w, &eval::default_eval_context);
  else if (way == "json") parse_json(d, w, &eval::default_eval_context);
  else parse_json(d, "\"" + w + "\"", &eval::default_eval_context);
  std::string b = show_bytes(d, 1, tp.get_data_size());
  return "\"v\":" + b.substr(1, b.size() - 2);
}
