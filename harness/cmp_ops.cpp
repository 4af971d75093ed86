// Comparison, sorting and searching (spec/CompareTrace.tla).
#include "driver.hpp"
#include <dynd/comparison.hpp>
#include <dynd/search.hpp>
#include <dynd/sort.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <cstring>

using namespace dynd;
nd::array layout(const ndt::type &tp, int w);
std::string show_bytes(const nd::array &a, size_t n, size_t sz);

static std::string raw(const J &v) {
  std::string s;
  for (auto &x : v.a) s += (char)x.num();
  return s;
}
void put_value(const ndt::type &tp, const char *am, char *d, const J &v) {
  switch (tp.get_id()) {
  case string_id: { std::string s = raw(v); reinterpret_cast<dynd::string *>(d)->assign(s.data(), s.size()); return; }
  case bytes_id: { std::string s = raw(v); reinterpret_cast<dynd::bytes *>(d)->assign(s.data(), s.size()); return; }
  case type_id: *reinterpret_cast<ndt::type *>(d) = ndt::type(raw(v)); return;
  case struct_id: {
    const ndt::struct_type *st = tp.extended<ndt::struct_type>();
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      put_value(st->get_field_type(i), am + st->get_arrmeta_offsets()[i], d + reinterpret_cast<const intptr_t *>(am)[i], v[i]);
    return;
  }
  case tuple_id: {
    const ndt::tuple_type *st = tp.extended<ndt::tuple_type>();
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      put_value(st->get_field_type(i), am + st->get_arrmeta_offsets()[i], d + reinterpret_cast<const intptr_t *>(am)[i], v[i]);
    return;
  }
  default: { std::string s = raw(v); memcpy(d, s.data(), s.size()); return; }
  }
}
// every element of an array with fixed or var dimensions, in order
template <class F> static void each(const ndt::type &tp, const char *am, char *d, F f) {
  if (tp.get_id() == fixed_dim_id) {
    const fixed_dim_type_arrmeta *md = reinterpret_cast<const fixed_dim_type_arrmeta *>(am);
    for (intptr_t i = 0; i < md->dim_size; ++i)
      each(tp.extended<ndt::fixed_dim_type>()->get_element_type(), am + sizeof(*md), d + i * md->stride, f);
  } else if (tp.get_id() == var_dim_id) {
    const ndt::var_dim_type::metadata_type *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(am);
    ndt::var_dim_type::data_type *vd = reinterpret_cast<ndt::var_dim_type::data_type *>(d);
    for (size_t i = 0; i < vd->size; ++i)
      each(tp.extended<ndt::var_dim_type>()->get_element_type(), am + sizeof(*md), vd->begin + md->offset + i * md->stride, f);
  } else f(tp, am, d);
}
void put_all(const nd::array &a, const J &v) {
  size_t k = 0;
  each(a.get_type(), a->metadata(), a.data(), [&](const ndt::type &tp, const char *am, char *d) { put_value(tp, am, d, v[k++]); });
}
nd::array operand(const J &o) {
  ndt::type tp(o["tp"].str());
  if (o.flag("var")) {
    nd::array a = nd::empty(tp);
    const ndt::var_dim_type::metadata_type *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(a->metadata());
    ndt::var_dim_type::data_type *vd = reinterpret_cast<ndt::var_dim_type::data_type *>(a.data());
    vd->begin = md->blockref->alloc(o["v"].size());
    vd->size = o["v"].size();
    put_all(a, o["v"]);
    return a;
  }
  nd::array a = layout(tp, o["w"].num());
  put_all(a, o["v"]);
  return a;
}
static std::string flat(const nd::array &a) {
  std::string s;
  each(a.get_type(), a->metadata(), const_cast<char *>(a.cdata()), [&](const ndt::type &, const char *, char *d) { s += (s.empty() ? "" : ",") + std::to_string((unsigned char)*d); });
  return "[" + s + "]";
}
// the bytes of every element in order
std::string all_bytes(const nd::array &a) {
  std::string s;
  each(a.get_type(), a->metadata(), const_cast<char *>(a.cdata()), [&](const ndt::type &tp, const char *, char *d) {
    s += s.empty() ? "[" : ",[";
    for (size_t i = 0; i < tp.get_data_size(); ++i) s += (i ? "," : "") + std::to_string((unsigned char)d[i]);
    s += "]";
  });
  return "[" + s + "]";
}
template <class F> static std::string fails(F f) {
  try { f(); return ""; }
  catch (const std::exception &e) { return std::string(e.what()).substr(0, 40) + "!"; }
  catch (const dynd::dynd_exception &e) { return std::string(e.what()).substr(0, 40) + "!"; }
}

OP(cmp) {
  nd::array a = operand(c["l"]), b = c.flag("alias") ? a : operand(c["r"]);
  std::vector<std::pair<const char *, nd::callable *>> fs = {{"less", &nd::less}, {"less_equal", &nd::less_equal}, {"equal", &nd::equal},
    {"not_equal", &nd::not_equal}, {"greater_equal", &nd::greater_equal}, {"greater", &nd::greater}};
  std::string o;
  for (auto &f : fs) {
    if (c.has("op") && c["op"].str() != f.first) continue;
    std::string v = "[]", v2 = "[]", t, e;
    e = fails([&] {
      nd::array r = (*f.second)(a, b);
      v = flat(r);
      t = tstr(r.get_type().get_dtype());
      nd::array d = r.get_type().get_ndim() && r.get_type().get_id() == fixed_dim_id ? layout(r.get_type(), 3) : nd::empty(r.get_type());
      if (r.get_type().get_id() == fixed_dim_id || r.get_ndim() == 0)
        each(d.get_type(), d->metadata(), d.data(), [&](const ndt::type &, const char *, char *p) { *p = 77; });
      nd::array args[2] = {a, b};
      std::pair<const char *, nd::array> kw[1] = {{"dst", d}};
      f.second->call(2, args, 1, kw);
      v2 = flat(d);
    });
    o += (o.empty() ? "" : ",") + std::string("{\"op\":") + jstr(f.first) + ",\"e\":" + jstr(e) + ",\"t\":" + jstr(t) + ",\"v\":" + v + ",\"v2\":" + v2 + "}";
  }
  o = "\"ops\":[" + o + "]";
  if (c.flag("exact")) {
    bool x = a.equals_exact(b), y = b.equals_exact(a);
    o += ",\"ee\":" + std::to_string(x == y ? int(x) : 9);
  }
  if (c.flag("ae")) o += ",\"ae\":" + std::to_string(int(nd::all_equal(a, b).as<bool>()));
  return o;
}

// {tp: element type, v, w: 0 plain, 2 reversed, 3 every other element, 4 a field of a record}
OP(sort) {
  ndt::type el(c["tp"].str());
  size_t n = c["v"].size();
  int w = c["w"].num();
  size_t sz = el.get_data_size();
  nd::array base, a;
  if (n == 0) w = 0;
  if (w == 3 || w == 2) {
    base = nd::empty(ndt::make_fixed_dim(w == 3 ? 2 * n + 1 : n, el));
    a = w == 3 ? base(irange(1, 2 * n + 1, 2)) : base(irange().by(-1));
  } else {
    base = nd::empty(ndt::make_fixed_dim(n, ndt::make_type<ndt::tuple_type>({ndt::type("int8"), el, ndt::type("int16")})));
    a = w == 4 ? base(irange(), 1) : nd::empty(ndt::make_fixed_dim(n, el));
  }
  if (n == 0) a = base = nd::empty(ndt::make_fixed_dim(0, el));
  intptr_t st = n ? reinterpret_cast<const fixed_dim_type_arrmeta *>(a->metadata())->stride : 0;
  // what lies between the elements stays
  size_t bsz = n ? base.get_dim_size() * base.get_strides()[0] : 0;
  std::vector<char> own(bsz, 0), before;
  if (el.get_id() != string_id || w == 4)
    for (size_t i = 0; i < bsz; ++i) if (el.get_id() != string_id) base.data()[i] = char(i * 37 + 5);
  put_all(a, c["v"]);
  if (a.cdata() >= base.cdata() && a.cdata() < base.cdata() + bsz)
    for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < sz; ++k) own[a.cdata() + i * st + k - base.cdata()] = 1;
  before.assign(base.cdata(), base.cdata() + bsz);
  nd::sort(a);
  bool gaps = true;
  for (size_t i = 0; i < bsz; ++i) if (!own[i] && before[i] != base.cdata()[i]) gaps = false;
  std::string o = "\"gaps\":" + std::to_string(int(gaps)) + ",\"v\":";
  if (el.get_id() == string_id) {
    std::string s;
    each(a.get_type(), a->metadata(), a.data(), [&](const ndt::type &, const char *, char *d) {
      const dynd::string &t = *reinterpret_cast<dynd::string *>(d);
      s += s.empty() ? "[" : ",[";
      for (size_t i = 0; i < t.size(); ++i) s += (i ? "," : "") + std::to_string((unsigned char)t.begin()[i]);
      s += "]";
    });
    o += "[" + s + "]";
  } else o += show_bytes(a, n, sz);
  return o;
}

OP(search) {
  ndt::type el(c["tp"].str());
  nd::array a = layout(ndt::make_fixed_dim(c["v"].size(), el), c["w"].num());
  put_all(a, c["v"]);
  nd::array x = nd::empty(ndt::type(c["xtp"].str()));
  put_value(x.get_type(), x->metadata(), x.data(), c["x"]);
  return "\"i\":" + std::to_string(nd::binary_search(a, x).as<intptr_t>());
}
OP(torder) {
  ndt::type el(c["tp"].str());
  nd::array x = nd::empty(el), y = nd::empty(el);
  put_value(el, x->metadata(), x.data(), c["x"]);
  put_value(el, y->metadata(), y.data(), c["y"]);
  return "\"lt\":" + std::to_string(nd::total_order(x, y).as<int>());
}
OP(unique) {
  ndt::type el(c["tp"].str());
  nd::array a = nd::empty(ndt::make_fixed_dim(c["v"].size(), el));
  put_all(a, c["v"]);
  nd::unique(a);
  return "\"v\":" + show_bytes(a, reinterpret_cast<const fixed_dim_type_arrmeta *>(a->metadata())->dim_size, el.get_data_size());
}
