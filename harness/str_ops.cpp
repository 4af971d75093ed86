// Strings: values, searching, encodings (spec/StringTrace.tla).
#include "driver.hpp"
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/bytes.hpp>
#include <dynd/string.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <cstring>
#include <memory>

using namespace dynd;
nd::array layout(const ndt::type &tp, int w);
assign_error_mode mode_of(const std::string &m);

static intptr_t stride(const nd::array &a) {
  return a.get_ndim() ? reinterpret_cast<const fixed_dim_type_arrmeta *>(a->metadata())->stride : 0;
}
static std::string raw(const J &v) {
  std::string s;
  for (auto &x : v.a) s.push_back((char)x.num());
  return s;
}
static std::string nums(const char *p, size_t n, size_t w = 1) {
  std::string o = "[";
  for (size_t i = 0; i < n; ++i) {
    uint32_t u = 0;
    memcpy(&u, p + i * w, w);
    o += (i ? "," : "") + std::to_string(w == 4 ? (long long)(int32_t)u : (long long)u);
  }
  return o + "]";
}

// ---- histories of operations on two objects
static bool nul_ok(const dynd::string &s) { return s.data()[s.size()] == 0; }
static bool nul_ok(const dynd::bytes &) { return true; }
template <class S> static std::string look(const S &s) {
  bool ok = nul_ok(s) && s.capacity() >= s.size() && (size_t)(s.end() - s.begin()) == s.size() && s.begin() == s.data() &&
            s.empty() == (s.size() == 0);
  S t(s);
  ok = ok && t == s && !(t != s) && t.size() == s.size();
  return "[" + nums(s.data(), s.size()) + "," + (ok ? "1" : "0") + "]";
}
template <class S> static std::string history(const J &c) {
  std::map<std::string, std::unique_ptr<S>> m;
  m["a"].reset(new S()), m["b"].reset(new S());
  std::string out;
  for (auto &op : c["ops"].a) {
    const std::string &k = op["op"].str();
    S &o = *m[op["o"].str()];
    std::string s = op.has("s") ? raw(op["s"]) : "";
    // the argument lives in a buffer of exactly its size
    std::unique_ptr<char[]> buf(new char[s.size()]);
    memcpy(buf.get(), s.data(), s.size());
    bool cap = true;
    if (k == "assign") o.assign(buf.get(), s.size());
    else if (k == "construct") m[op["o"].str()].reset(new S(buf.get(), s.size()));
    else if (k == "append") o.append(buf.get(), s.size());
    else if (k == "resize") {
      size_t was = o.size(), n = s.size();
      o.resize(n);
      if (n > was && o.size() == n) memcpy(o.data() + was, s.data() + was, n - was);
    }
    else if (k == "reserve") {
      o.reserve(s.size());
      cap = o.capacity() >= s.size();
    }
    else if (k == "copy") o = *m[op["p"].str()];
    else if (k == "recopy") m[op["o"].str()].reset(new S(*m[op["p"].str()]));
    else if (k == "part") { // a part of an object assigned to an object (the same one, too)
      S &p = *m[op["p"].str()];
      o.assign(p.data() + op["i"].num(), op["n"].num());
    }
    else if (k == "addpart") {
      S &p = *m[op["p"].str()];
      o.append(p.data() + op["i"].num(), op["n"].num());
    }
    else if (k == "add") o += *m[op["p"].str()];
    else if (k == "plus") o = *m[op["p"].str()] + *m[op["q"].str()];
    else if (k == "move") o = std::move(*m[op["p"].str()]);
    else if (k == "clear") o.clear();
    S *a = m["a"].get(), *b = m["b"].get();
    out += std::string(out.empty() ? "" : ",") + "[" + look(*a) + "," + look(*b) + "," + ((*a == *b) ? "1" : "0") + "," + (cap ? "1" : "0") + "]";
  }
  return "\"st\":[" + out + "]";
}
OP(value) { return c["kind"].str() == "string" ? history<dynd::string>(c) : history<dynd::bytes>(c); }

// ---- arrays of texts; units are bytes, or code units of the encoding
static size_t unit(const ndt::type &tp) {
  if (tp.get_id() != fixed_string_id) return 1;
  auto e = tp.extended<ndt::fixed_string_type>()->get_encoding();
  return e == string_encoding_utf_16 || e == string_encoding_ucs_2 ? 2 : e == string_encoding_utf_32 ? 4 : 1;
}
static void put(const ndt::type &tp, char *p, const J &u) {
  if (tp.get_id() == string_id) {
    std::string s = raw(u);
    reinterpret_cast<dynd::string *>(p)->assign(s.data(), s.size());
    return;
  }
  size_t w = unit(tp);
  memset(p, 0, tp.get_data_size());
  for (size_t i = 0; i < u.size(); ++i) {
    uint32_t x = (uint32_t)u[i].num();
    memcpy(p + i * w, &x, w);
  }
}
static std::string get(const ndt::type &tp, const char *p) {
  if (tp.get_id() == string_id) {
    auto s = reinterpret_cast<const dynd::string *>(p);
    return nums(s->data(), s->size());
  }
  return nums(p, tp.get_data_size() / unit(tp), unit(tp));
}
static nd::array texts(const ndt::type &tp, const J &v, bool scalar, int w, const J *hist = nullptr) {
  nd::array a = layout(scalar ? tp : ndt::make_fixed_dim(v.size(), tp), w);
  for (size_t i = 0; i < v.size(); ++i) {
    char *p = a.data() + (intptr_t)i * stride(a);
    if (hist) for (auto &x : hist->a) put(tp, p, x);
    put(tp, p, v[i]);
  }
  return a;
}
static std::string show_texts(const ndt::type &tp, const nd::array &a, size_t n) {
  std::string o = "[";
  for (size_t i = 0; i < n; ++i) o += (i ? "," : "") + get(tp, a.cdata() + (intptr_t)i * stride(a));
  return o + "]";
}

// {stp, dtp, mode, v, hist, dv: what the destination holds before, scalar, sw, dw}
OP(trans) {
  ndt::type st(c["stp"].str()), dt(c["dtp"].str());
  bool scalar = c.flag("scalar");
  nd::array s = texts(st, c["v"], scalar, c["sw"].num(), &c["hist"]);
  nd::array d = texts(dt, c["dv"], scalar, c["dw"].num());
  const std::string &m = c["mode"].str();
  if (m == "none") d.assign(s);
  else d.assign(s, mode_of(m));
  return "\"v\":" + show_texts(dt, d, c["v"].size()) + ",\"s\":" + show_texts(st, s, c["v"].size());
}

// elements of one array of texts assigned to each other: {tp, v, moves: [[to, from]..]} (from 0: the whole array to itself)
OP(selfassign) {
  ndt::type tp(c["stp"].str());
  nd::array a = texts(tp, c["v"], false, c["sw"].num());
  for (auto &m : c["moves"].a) {
    if (m[0].num() == 0) a.assign(a);
    else a(m[0].num() - 1).assign(a(m[1].num() - 1));
  }
  return "\"v\":" + show_texts(tp, a, c["v"].size());
}

static std::string result(const nd::array &r) {
  ndt::type tp = r.get_type();
  if (r.get_ndim() == 0 || tp.get_id() == var_dim_id) {
    if (tp.get_id() == string_id) return get(tp, r.cdata());
    if (tp.get_id() == var_dim_id) {
      auto d = reinterpret_cast<const ndt::var_dim_type::data_type *>(r.cdata());
      auto md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(r->metadata());
      std::string o = "[";
      for (size_t i = 0; i < d->size; ++i)
        o += (i ? "," : "") + get(ndt::make_type<dynd::string>(), d->begin + md->offset + (intptr_t)i * md->stride);
      return o + "]";
    }
    if (tp.get_id() == bool_id) return std::to_string((int)*(const unsigned char *)r.cdata());
    return std::to_string(r.as<long long>());
  }
  std::string o = "[";
  for (intptr_t i = 0; i < r.get_dim_size(); ++i) o += (i ? "," : "") + result(r(i));
  return o + "]";
}
// {f, args: [[texts]..], scalar: [flags], w: [layouts], dst: texts or absent, dw}
OP(sfn) {
  static std::map<std::string, nd::callable *> fs = {
      {"concat", &nd::string_concatenation}, {"count", &nd::string_count}, {"find", &nd::string_find}, {"rfind", &nd::string_rfind},
      {"replace", &nd::string_replace}, {"split", &nd::string_split}, {"startswith", &nd::string_startswith},
      {"endswith", &nd::string_endswith}, {"contains", &nd::string_contains}};
  ndt::type st("string");
  std::vector<nd::array> args;
  for (size_t i = 0; i < c["args"].size(); ++i)
    args.push_back(texts(st, c["args"][i], c["scalar"][i].num(), c["w"][i].num(), &c["hist"]));
  nd::array r;
  if (c.has("dst")) {
    r = texts(st, c["dst"], c.flag("dscalar"), c["dw"].num());
    std::pair<const char *, nd::array> kw("dst", r);
    fs.at(c["f"].str())->call(args.size(), args.data(), 1, &kw);
  }
  else r = fs.at(c["f"].str())->call(args.size(), args.data(), 0, nullptr);
  std::string o = result(r), in;
  for (size_t i = 0; i < args.size(); ++i) in += (i ? "," : "") + show_texts(st, args[i], c["args"][i].size());
  return "\"v\":" + (r.get_ndim() == 0 || (r.get_type().get_id() == var_dim_id) ? "[" + o + "]" : o) + ",\"in\":[" + in + "]";
}
