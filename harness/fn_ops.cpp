// Calls of registered and custom callables on freshly built arrays
// (spec/ElwiseTrace.tla, ReduceTrace.tla, ...).
#include "driver.hpp"
#include <dynd/functional.hpp>
#include <dynd/registry.hpp>
#include <dynd/index.hpp>
#include <dynd/logic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <algorithm>
#include <cstring>

using namespace dynd;

std::map<std::string, nd::callable> &FN() {
  static std::map<std::string, nd::callable> m;
  if (m.empty()) {
    using namespace nd::functional;
    m["all"] = nd::all;
    m["all_equal"] = nd::all_equal;
    m["lin1"] = elwise(apply([](int x) { return 3 * x + 1; }));
    m["lin2"] = elwise(apply([](int x, int y) { return 10 * x + y; }));
    m["lin3"] = elwise(apply([](int x, int y, int z) { return 100 * x + 10 * y + z; }));
    m["lin4"] = elwise(apply([](int x, int y, int z, int w) { return 1000 * x + 100 * y + 10 * z + w; }));
    m["mix2"] = elwise(apply([](double x, int y) { return 10 * x + y; }));
    m["mix3"] = elwise(apply([](int8_t x, double y, int64_t z) { return int64_t(100 * x + 10 * int(y) + z); }));
    m["rsum0"] = reduction([] { return 0; }, [](const return_wrapper<int> &r, int x) { r += x; });
    m["rsum100"] = reduction([] { return 100; }, [](const return_wrapper<int> &r, int x) { r += x; });
    // not commutative: the order of accumulation shows
    m["rdig"] = reduction([] { return 1; }, [](const return_wrapper<int> &r, int x) { r = (7 * int(r) + x) % 9973; });
    m["rmax2"] = reduction([] { return 100; }, [](const return_wrapper<int> &r, int x, int y) { r += std::max(x, y); });
  }
  return m;
}

nd::callable fn_named(const std::string &n) {
  auto it = FN().find(n);
  if (it != FN().end()) return it->second;
  return registered("dynd.nd." + n).value();
}

// an array of type tp whose leading fixed dimensions lie in memory in an unusual way
nd::array layout(const ndt::type &tp, int w) {
  std::vector<intptr_t> sh;
  ndt::type el = tp;
  while (el.get_id() == fixed_dim_id) {
    sh.push_back(el.extended<ndt::fixed_dim_type>()->get_fixed_dim_size());
    el = el.extended<ndt::fixed_dim_type>()->get_element_type();
  }
  size_t n = sh.size();
  if (w == 0 || n == 0) return nd::empty(tp);
  for (size_t i = 0; i < n; ++i) if (sh[i] == 0) return nd::empty(tp);
  ndt::type t = el;
  if (w == 1) { // reversed axis order
    for (size_t i = 0; i < n; ++i) t = ndt::make_fixed_dim(sh[i], t);
    nd::array a = nd::empty(t);
    std::vector<intptr_t> ax;
    for (size_t i = 0; i < n; ++i) ax.push_back(n - 1 - i);
    return a.permute(n, ax.data());
  }
  for (size_t i = n; i-- > 0;) t = ndt::make_fixed_dim(w == 2 ? sh[i] : 2 * sh[i] + 1, t);
  nd::array a = nd::empty(t);
  std::vector<irange> ix;
  for (size_t i = 0; i < n; ++i) ix.push_back(w == 2 ? irange().by(-1) : irange(1, 2 * sh[i] + 1, 2));
  return a.at_array(n, ix.data());
}

// tp with its elements inside "2 * el" (w = 4) or "(int8, el)" (w = 5), and a value for it
ndt::type wrapped(const ndt::type &tp, int w) {
  if (tp.get_id() == fixed_dim_id)
    return ndt::make_fixed_dim(tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size(), wrapped(tp.extended<ndt::fixed_dim_type>()->get_element_type(), w));
  if (tp.get_id() == var_dim_id) return ndt::make_type<ndt::var_dim_type>(wrapped(tp.extended<ndt::var_dim_type>()->get_element_type(), w));
  return ndt::type((w == 4 ? "2 * " + tstr(tp) : "(int8, " + tstr(tp) + ")"));
}
J wrapped(const ndt::type &tp, const J &v) {
  J r;
  r.k = J::Arr;
  if (tp.get_id() == fixed_dim_id || tp.get_id() == var_dim_id) {
    ndt::type el = tp.get_id() == fixed_dim_id ? tp.extended<ndt::fixed_dim_type>()->get_element_type() : tp.extended<ndt::var_dim_type>()->get_element_type();
    if (v.k == J::Null) return v;
    for (auto &x : v.a) r.a.push_back(wrapped(el, x));
  } else {
    J pad;
    pad.k = J::Int;
    pad.i = 77;
    r.a = {pad, v};
  }
  return r;
}

nd::array build_array(const J &a) {
  if (a.has("h")) return h(a["h"]);
  ndt::type tp(a["tp"].str());
  if (a.has("w") && a["w"].num() >= 4 && !a.has("raw") && tp.get_ndim() > 0) {
    // a field of every element of a larger array: dimensions below the first start at an offset
    nd::array big = nd::empty(wrapped(tp, a["w"].num()));
    J v = wrapped(tp, a["v"]);
    fill_value(big.get_type(), big->metadata(), big.data(), v);
    std::vector<irange> ix(tp.get_ndim());
    ix.push_back(irange(1));
    nd::array r = big.at_array(ix.size(), ix.data());
    if (r.get_type() == tp) return r;
  }
  nd::array r = layout(tp, a.has("w") ? a["w"].num() : 0);
  if (!a.has("raw")) fill_value(tp, r->metadata(), r.data(), a["v"]);
  return r;
}

std::string show_parts(const nd::array &a, const char *T, const char *v) {
  return std::string("\"") + T + "\":" + show_type(a.get_type(), a->metadata()) + ",\"" + v + "\":" +
         show_value(a.get_type(), a->metadata(), a.cdata());
}

// {f, args:[..], kw:[[name, arr]..], dst?: arr}
OP(call) {
  nd::callable f = fn_named(c["f"].str());
  std::vector<nd::array> args;
  std::vector<std::string> names;
  std::vector<std::pair<const char *, nd::array>> kw;
  for (auto &x : c["args"].a) args.push_back(build_array(x));
  if (c.has("kw"))
    for (auto &x : c["kw"].a) { names.push_back(x[0].str()); }
  if (c.has("kw"))
    for (size_t i = 0; i < names.size(); ++i) kw.emplace_back(names[i].c_str(), build_array(c["kw"][i][1]));
  nd::array dst;
  if (c.has("dst")) { dst = build_array(c["dst"]); kw.emplace_back("dst", dst); }
  nd::array r = f.call(args.size(), args.data(), kw.size(), kw.data());
  std::string o = show_parts(r, "T", "v");
  o += ",\"args\":[";
  for (size_t i = 0; i < args.size(); ++i)
    o += (i ? "," : "") + show_value(args[i].get_type(), args[i]->metadata(), args[i].cdata());
  o += "]";
  if (c.has("dst")) {
    o += "," + show_parts(dst, "dT", "dv");
    o += ",\"same\":" + std::to_string(int(r.cdata() == dst.cdata()));
  }
  return o;
}
