// Ranges, selections and callables made of callables (spec/SelectTrace.tla).
#include "driver.hpp"
#include <dynd/array_range.hpp>
#include <dynd/assignment.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/limits.hpp>
#include <dynd/range.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <cstring>

using namespace dynd;
nd::array layout(const ndt::type &tp, int w);
std::string all_bytes(const nd::array &a);

template <class F> static std::string fails(F f) {
  try { f(); return ""; }
  catch (const std::exception &e) { return std::string(e.what()).substr(0, 40) + "!"; }
  catch (const dynd::dynd_exception &e) { return std::string(e.what()).substr(0, 40) + "!"; }
}
static nd::array bytes_of(const std::string &tp, const J &b) {
  nd::array a = nd::empty(ndt::type(tp));
  for (size_t i = 0; i < b.size(); ++i) a.data()[i] = static_cast<char>(b[i].num());
  return a;
}
// an array read from text, in memory forwards, backwards or with gaps
static nd::array text_array(const J &o) {
  ndt::type tp(o["tp"].str());
  int lay = o["lay"].num();
  if (!lay || tp.get_id() != fixed_dim_id || tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 0) return parse_json(tp, o["js"].str(), &eval::default_eval_context);
  intptr_t n = tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size();
  ndt::type el = tp.extended<ndt::fixed_dim_type>()->get_element_type();
  nd::array big = nd::empty(ndt::make_fixed_dim(2 * n + 1, el));
  nd::array src = parse_json(tp, o["js"].str(), &eval::default_eval_context);
  nd::array v = lay == 1 ? big(irange().by(-1))(irange(0, n)) : big(irange(1, 2 * n + 1).by(2));
  v.assign(src);
  return v;
}
static std::string val(const nd::array &a) { return show_value(a.get_type(), a->metadata(), a.cdata()); }

// {how: old or nd, tp, b, e, s: bytes, kw: the arguments of nd::range that are given}
OP(range) {
  nd::array b = bytes_of(c["tp"].str(), c["b"]), e = bytes_of(c["tp"].str(), c["e"]), s = bytes_of(c["tp"].str(), c["s"]);
  std::string v = "[]", t;
  std::string er = fails([&] {
    nd::array r;
    if (c["how"].str() == "old") r = nd::old_range(b.get_type(), b.cdata(), e.cdata(), s.cdata());
    else {
      std::vector<std::pair<const char *, nd::array>> kw;
      for (size_t i = 0; i < c["kw"].size(); ++i) {
        std::string k = c["kw"][i].str();
        if (k == "start") kw.emplace_back("start", b);
        if (k == "stop") kw.emplace_back("stop", e);
        if (k == "step") kw.emplace_back("step", s);
      }
      if (c.has("dst")) kw.emplace_back("dst", nd::empty(ndt::type(c["dst"].str())));
      r = nd::range.call(0, nullptr, kw.size(), kw.data());
    }
    v = all_bytes(r);
    t = tstr(r.get_type());
  });
  return "\"e\":" + jstr(er) + ",\"t\":" + jstr(t) + ",\"v\":" + v;
}
// {tp, b, e: bytes, n, how: 0 with the type, 1 without}
OP(linspace) {
  nd::array b = bytes_of(c["tp"].str(), c["b"]), e = bytes_of(c["tp"].str(), c["e"]);
  std::string v = "[]", t;
  std::string er = fails([&] {
    nd::array r = c.flag("how") ? nd::old_linspace(b, e, c["k"].num()) : nd::old_linspace(b, e, c["k"].num(), ndt::type(c["rt"].str()));
    v = all_bytes(r);
    t = tstr(r.get_type());
  });
  return "\"e\":" + jstr(er) + ",\"t\":" + jstr(t) + ",\"v\":" + v;
}
OP(limits) {
  std::string lo = "[]", hi = "[]";
  std::string er = fails([&] {
    nd::array d = nd::empty(ndt::type(c["tp"].str())), d2 = nd::empty(ndt::type(c["tp"].str()));
    std::pair<const char *, nd::array> kw[1] = {{"dst", d}}, kw2[1] = {{"dst", d2}};
    nd::limits::max.call(0, nullptr, 1, kw);
    nd::limits::min.call(0, nullptr, 1, kw2);
    hi = all_bytes(d);
    lo = all_bytes(d2);
  });
  return "\"e\":" + jstr(er) + ",\"lo\":" + lo + ",\"hi\":" + hi;
}
// {a, i: arrays from text, dst: type of a destination}
OP(take) {
  nd::array a = text_array(c["x"]), ix = text_array(c["i"]);
  std::string before = val(a), v = "[]", t;
  std::string er = fails([&] {
    nd::array r, args[2] = {a, ix};
    if (c.has("dst")) {
      std::pair<const char *, nd::array> kw[1] = {{"dst", nd::empty(ndt::type(c["dst"].str()))}};
      r = nd::take.call(2, args, 1, kw);
    } else r = nd::take(a, ix);
    v = val(r);
    t = tstr(r.get_type());
  });
  return "\"e\":" + jstr(er) + ",\"t\":" + jstr(t) + ",\"src\":" + before + ",\"v\":" + v + ",\"same\":" + std::to_string(int(before == val(a)));
}
static int f1(int x) { return 7 * x + 1; }
static int f2(int x, int y) { return 10 * x + y; }
static int f3(int x, int y, int z) { return 100 * x + 10 * y + z; }
// {args: arrays from text, dst}
OP(outer) {
  size_t n = c["args"].size();
  nd::callable f = nd::functional::outer(n == 1 ? nd::functional::apply(&f1) : n == 2 ? nd::functional::apply(&f2) : nd::functional::apply(&f3));
  std::vector<nd::array> args;
  for (size_t i = 0; i < n; ++i) args.push_back(text_array(c["args"][i]));
  std::string v = "[]", t;
  std::string er = fails([&] {
    nd::array r;
    if (c.has("dst")) {
      std::pair<const char *, nd::array> kw[1] = {{"dst", c["dst"]["lay"].num() ? layout(ndt::type(c["dst"]["tp"].str()), c["dst"]["lay"].num()) : nd::empty(ndt::type(c["dst"]["tp"].str()))}};
      r = f.call(n, args.data(), 1, kw);
    } else r = f.call(n, args.data(), 0, static_cast<std::pair<const char *, nd::array> *>(nullptr));
    v = val(r);
    t = tstr(r.get_type());
  });
  return "\"e\":" + jstr(er) + ",\"t\":" + jstr(t) + ",\"v\":" + v;
}
OP(where) {
  nd::array a = text_array(c["x"]);
  std::string v = "[]", t;
  std::string er = fails([&] {
    nd::array r = nd::functional::where([](int x) { return x < 11; })(a);
    v = val(r);
    t = tstr(r.get_type());
  });
  return "\"e\":" + jstr(er) + ",\"t\":" + jstr(t) + ",\"v\":" + v;
}
OP(constant) {
  nd::array a = text_array(c["x"]);
  std::string before = val(a), v = "[]", t;
  std::string er = fails([&] {
    nd::callable f = nd::functional::constant(a);
    std::vector<nd::array> args;
    for (size_t i = 0; i < c["args"].size(); ++i) args.push_back(text_array(c["args"][i]));
    nd::array r = f.call(args.size(), args.data(), 0, static_cast<std::pair<const char *, nd::array> *>(nullptr));
    v = val(r);
    t = tstr(r.get_type());
  });
  return "\"e\":" + jstr(er) + ",\"t\":" + jstr(t) + ",\"src\":" + before + ",\"v\":" + v + ",\"same\":" + std::to_string(int(before == val(a)));
}
static int g0(int x) { return 2 * x; }
static int g1(int x) { return x + 1; }
static int g2(int x) { return x * x; }
static int g3(int x) { return -x; }
static nd::callable chain(const J &t) {
  if (t.has("f")) {
    switch (t["f"].num()) {
    case 0: return nd::functional::apply(&g0);
    case 1: return nd::functional::apply(&g1);
    case 2: return nd::functional::apply(&g2);
    default: return nd::functional::apply(&g3);
    }
  }
  return nd::functional::compose(chain(t["l"]), chain(t["r"]), ndt::type("int32"));
}
// {tree: a function or a pair of trees, elw, a}
OP(compose) {
  nd::array a = text_array(c["x"]);
  std::string v = "[]", t;
  std::string er = fails([&] {
    nd::callable f = chain(c["tree"]);
    nd::array r = c.flag("elw") ? nd::functional::elwise(f)(a) : f(a);
    v = val(r);
    t = tstr(r.get_type());
  });
  return "\"e\":" + jstr(er) + ",\"t\":" + jstr(t) + ",\"v\":" + v;
}
// {side: left or right, elw, d: the destination, a}
OP(accumulate) {
  nd::array d = text_array(c["d"]), a = text_array(c["x"]);
  std::string er = fails([&] {
    nd::callable f = nd::functional::apply(&f2);
    f = c["side"].str() == "left" ? nd::functional::left_compound(f) : nd::functional::right_compound(f);
    if (c.flag("elw")) f = nd::functional::elwise(f);
    std::pair<const char *, nd::array> kw[1] = {{"dst", d}};
    nd::array args[1] = {a};
    f.call(1, args, 1, kw);
  });
  return "\"e\":" + jstr(er) + ",\"v\":" + val(d);
}
