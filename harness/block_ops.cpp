// Memory blocks of variable-sized data and of arrays of objects: histories of allocations (spec/BlockTrace.tla).
#include "driver.hpp"
#include <dynd/memblock/objectarray_memory_block.hpp>
#include <dynd/memblock/pod_memory_block.hpp>
#include <dynd/memblock/zeroinit_memory_block.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <algorithm>
#include <cstring>
#include <memory>

using namespace dynd;

// ---- an element type whose destruction can be seen
static std::vector<long long> g_gone;
namespace {
struct obj_type : ndt::base_type {
  obj_type() : ndt::base_type(any_kind_id, 8, 8, type_flag_zeroinit | type_flag_destructor, 0, 0, 0) {}
  void print_type(std::ostream &o) const { o << "obj"; }
  void print_data(std::ostream &o, const char *, const char *data) const { o << *(const int64_t *)data; }
  bool operator==(const ndt::base_type &o) const { return this == &o; }
  bool is_lossless_assignment(const ndt::type &, const ndt::type &) const { return false; }
  void arrmeta_default_construct(char *, bool) const {}
  void arrmeta_copy_construct(char *, const char *, const nd::memory_block &) const {}
  void arrmeta_reset_buffers(char *) const {}
  void arrmeta_finalize_buffers(char *) const {}
  void arrmeta_destruct(char *) const {}
  void data_destruct(const char *, char *data) const { one(data); }
  void data_destruct_strided(const char *, char *data, intptr_t stride, size_t count) const {
    for (size_t i = 0; i < count; ++i) one(data + i * stride);
  }
  static void one(char *data) {
    int64_t v;
    memcpy(&v, data, 8);
    g_gone.push_back(v > -1000 && v < 1000000 ? v : -5);
    v = -777;
    memcpy(data, &v, 8);
  }
};
}
static const ndt::type &obj() { static ndt::type t(new obj_type(), false); return t; }
static ndt::type elem(const std::string &s) {
  ndt::type i8 = ndt::type("int8"), i32 = ndt::type("int32");
  if (s == "obj") return obj();
  if (s == "{int8,obj}") return ndt::make_type<ndt::struct_type>(std::vector<std::pair<ndt::type, std::string>>{{i8, "a"}, {obj(), "b"}});
  if (s == "{obj,string,obj}") return ndt::make_type<ndt::struct_type>(std::vector<std::pair<ndt::type, std::string>>{{obj(), "a"}, {ndt::type("string"), "b"}, {obj(), "c"}});
  if (s == "(obj,int32)") return ndt::make_type<ndt::tuple_type>(std::vector<ndt::type>{obj(), i32});
  if (s == "2*obj") return ndt::make_fixed_dim(2, obj());
  if (s == "2*3*obj") return ndt::make_fixed_dim(2, ndt::make_fixed_dim(3, obj()));
  if (s == "2*{int8,obj}") return ndt::make_fixed_dim(2, elem("{int8,obj}"));
  if (s == "{a:2*obj}") return ndt::make_type<ndt::struct_type>(std::vector<std::pair<ndt::type, std::string>>{{ndt::make_fixed_dim(2, obj()), "a"}});
  if (s == "{int8,2*obj,string}") return ndt::make_type<ndt::struct_type>(std::vector<std::pair<ndt::type, std::string>>{{i8, "a"}, {ndt::make_fixed_dim(2, obj()), "b"}, {ndt::type("string"), "c"}});
  if (s == "(2*3*obj,obj)") return ndt::make_type<ndt::tuple_type>(std::vector<ndt::type>{ndt::make_fixed_dim(2, ndt::make_fixed_dim(3, obj())), obj()});
  if (s == "3*(2*{int8,obj},int32)") return ndt::make_fixed_dim(3, ndt::make_type<ndt::tuple_type>(std::vector<ndt::type>{elem("2*{int8,obj}"), i32}));
  if (s == "3*{obj,string,obj}") return ndt::make_fixed_dim(3, elem("{obj,string,obj}"));
  if (s == "2*(obj,int32)") return ndt::make_fixed_dim(2, elem("(obj,int32)"));
  return ndt::type(s);
}

// ---- blocks of memory handed out and not yet freed while watching
static const int MAXT = 1 << 16;
static struct { char *p; size_t n; } g_tab[MAXT];
int g_n = 0;
bool g_watch = false;
void watch_add(void *p, size_t n) { if (g_n < MAXT) { g_tab[g_n].p = (char *)p; g_tab[g_n++].n = n; } }
bool watch_del(void *p) {
  for (int i = g_n; i-- > 0;)
    if (g_tab[i].p == p) { g_tab[i] = g_tab[--g_n]; return true; }
  return false;
}
static bool owned(const char *b, const char *e) {
  for (int i = 0; i < g_n; ++i)
    if (b >= g_tab[i].p && e <= g_tab[i].p + g_tab[i].n) return true;
  return false;
}

template <class T, class F> static void fields_(const T *t, const char *meta, F f) {
  for (intptr_t i = 0; i < t->get_field_count(); ++i) f(t->get_field_type(i), meta + t->get_arrmeta_offsets()[i], reinterpret_cast<const uintptr_t *>(meta)[i]);
}
template <class F> static void fields(const ndt::type &tp, const char *meta, F f) {
  if (tp.get_id() == struct_id) fields_(tp.extended<ndt::struct_type>(), meta, f);
  else fields_(tp.extended<ndt::tuple_type>(), meta, f);
}

// ---- contents: every leaf of the element carries the value
static std::string text(long long v) { return std::string(v % 2 ? 3 + v % 7 : 20 + v % 13, 'a' + v % 26) + std::to_string(v); }
static void put(const ndt::type &tp, const char *meta, char *p, long long v) {
  switch (tp.get_id()) {
  case any_kind_id: { int64_t x = v; memcpy(p, &x, 8); return; }
  case string_id: reinterpret_cast<dynd::string *>(p)->assign(text(v).data(), text(v).size()); return;
  case fixed_dim_id: {
    auto md = reinterpret_cast<const fixed_dim_type_arrmeta *>(meta);
    for (intptr_t i = 0; i < md->dim_size; ++i) put(tp.extended<ndt::fixed_dim_type>()->get_element_type(), meta + sizeof(*md), p + i * md->stride, v);
    return;
  }
  case struct_id:
  case tuple_id: fields(tp, meta, [&](const ndt::type &t, const char *m, uintptr_t o) { put(t, m, p + o, v); }); return;
  default:
    for (size_t i = 0; i < tp.get_default_data_size(); ++i) p[i] = (char)(v * 37 + i * 11 + 1);
  }
}
// whether every leaf carries v (0: nothing was written)
static bool is(const ndt::type &tp, const char *meta, const char *p, long long v) {
  switch (tp.get_id()) {
  case any_kind_id: { int64_t x; memcpy(&x, p, 8); return x == v; }
  case string_id: {
    auto &s = *reinterpret_cast<const dynd::string *>(p);
    if (v) return std::string(s.begin(), s.end()) == text(v);
    for (size_t i = 0; i < sizeof(s); ++i) if (p[i]) return false;
    return true;
  }
  case fixed_dim_id: {
    auto md = reinterpret_cast<const fixed_dim_type_arrmeta *>(meta);
    for (intptr_t i = 0; i < md->dim_size; ++i)
      if (!is(tp.extended<ndt::fixed_dim_type>()->get_element_type(), meta + sizeof(*md), p + i * md->stride, v)) return false;
    return true;
  }
  case struct_id:
  case tuple_id: {
    bool ok = true;
    fields(tp, meta, [&](const ndt::type &t, const char *m, uintptr_t o) { ok = ok && is(t, m, p + o, v); });
    return ok;
  }
  default:
    for (size_t i = 0; i < tp.get_default_data_size(); ++i) if (p[i] != (v ? (char)(v * 37 + i * 11 + 1) : 0)) return false;
    return true;
  }
}
// a value the first object or string tells
static long long peek(const ndt::type &tp, const char *meta, const char *p) {
  switch (tp.get_id()) {
  case any_kind_id: { int64_t x; memcpy(&x, p, 8); return x; }
  case string_id: {
    auto &s = *reinterpret_cast<const dynd::string *>(p);
    std::string t(s.begin(), s.end());
    size_t k = 0;
    while (k < t.size() && !isdigit(t[k])) ++k;
    return atoll(t.c_str() + k);
  }
  case fixed_dim_id: return peek(tp.extended<ndt::fixed_dim_type>()->get_element_type(), meta + sizeof(fixed_dim_type_arrmeta), p);
  case struct_id:
  case tuple_id: {
    long long v = 0;
    fields(tp, meta, [&](const ndt::type &t, const char *m, uintptr_t o) { if (!v) v = peek(t, m, p + o); });
    return v;
  }
  default: return 0;
  }
}
// -1: something else
static long long got(const ndt::type &tp, const char *meta, const char *p) {
  if (is(tp, meta, p, 0)) return 0;
  long long v = peek(tp, meta, p);
  if (v > 0) return is(tp, meta, p, v) ? v : -1;
  for (v = 1; v < 250; ++v) if (is(tp, meta, p, v)) return v;
  return -1;
}
static std::string gone() {
  std::sort(g_gone.begin(), g_gone.end());
  std::string o = "[";
  for (size_t i = 0; i < g_gone.size(); ++i) o += (i ? "," : "") + std::to_string(g_gone[i]);
  g_gone.clear();
  return o + "]";
}

struct region { char *p; size_t n; };
OP(blocks) {
  ndt::type tp = elem(c["tp"].str());
  size_t sz = tp.get_default_data_size(), align = tp.get_data_alignment();
  std::vector<char> meta(tp.get_arrmeta_size() + 1);
  if (!tp.is_builtin()) tp->arrmeta_default_construct(meta.data(), false);
  std::vector<region> regs;
  g_gone.clear();
  g_gone.reserve(1 << 16);
  g_n = 0;
  nd::memory_block blk;
  nd::array holder;
  struct watch { watch() { g_watch = true; } ~watch() { g_watch = false; } };
  std::unique_ptr<watch> w(new watch);
  if (c["via"].str() == "var") {
    holder = nd::empty(ndt::make_type<ndt::var_dim_type>(tp));
    blk = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(holder->metadata())->blockref;
  } else if (c["via"].str() == "object")
    blk = nd::make_memory_block<nd::objectarray_memory_block>(tp, tp.get_arrmeta_size(), meta.data(), sz, (intptr_t)c["cap"].num());
  else if (c["via"].str() == "zeroinit")
    blk = nd::make_memory_block<nd::zeroinit_memory_block>(tp, (intptr_t)c["cap"].num() * sz);
  else
    blk = nd::make_memory_block<nd::pod_memory_block>(tp, (intptr_t)c["cap"].num() * sz);
  w.reset();
  std::string kind = dynamic_cast<nd::objectarray_memory_block *>(blk.get()) ? "object" : dynamic_cast<nd::zeroinit_memory_block *>(blk.get()) ? "zeroinit"
                     : dynamic_cast<nd::pod_memory_block *>(blk.get()) ? "pod" : "?";
  std::string out;
  for (auto &op : c["ops"].a) {
    const std::string &k = op["op"].str();
    if (k == "alloc") {
      char *p = (w.reset(new watch), blk->alloc(op["n"].num()));
      w.reset();
      regs.push_back({p, (size_t)op["n"].num()});
    } else if (k == "resize") {
      w.reset(new watch);
      regs.back().p = blk->resize(regs.back().p, op["n"].num());
      w.reset();
      regs.back().n = op["n"].num();
    } else if (k == "fill") {
      w.reset(new watch);
      region &r = regs[op["i"].num() - 1];
      for (size_t i = 0; i < r.n; ++i) put(tp, meta.data(), r.p + i * sz, op["v"].num() + i);
      w.reset();
    } else if (k == "reset") {
      blk->reset();
      regs.clear();
    } else if (k == "release") {          // the array goes, the block stays
      holder = nd::array();
    } else if (k == "drop") {
      holder = nd::array();
      blk = nd::memory_block();
      regs.clear();
    }
    // the ends of the regions, by rank
    std::vector<char *> ends;
    for (auto &r : regs) ends.push_back(r.p), ends.push_back(r.p + r.n * sz);
    std::sort(ends.begin(), ends.end());
    ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
    std::string o = "{\"regs\":[";
    for (size_t i = 0; i < regs.size(); ++i) {
      region &r = regs[i];
      auto rank = [&](char *p) { return std::to_string(std::lower_bound(ends.begin(), ends.end(), p) - ends.begin()); };
      o += (i ? ",{\"b\":" : "{\"b\":") + rank(r.p) + ",\"e\":" + rank(r.p + r.n * sz) + ",\"al\":" + std::to_string((uintptr_t)r.p % align) +
           ",\"own\":" + (r.n * sz == 0 || owned(r.p, r.p + r.n * sz) ? "1" : "0") + ",\"v\":[";
      for (size_t j = 0; j < r.n; ++j) o += (j ? "," : "") + std::to_string(sz ? got(tp, meta.data(), r.p + j * sz) : 0);
      o += "]}";
    }
    out += (out.empty() ? "" : ",") + o + "],\"gone\":" + gone() + "}";
  }
  blk = nd::memory_block();
  holder = nd::array();
  return "\"kind\":\"" + kind + "\",\"left\":" + std::to_string(g_n) + ",\"st\":[" + out + "]";
}

// ---- arrays of objects: the objects die once, with the last reference to their memory
OP(objects) {
  ndt::type tp = elem(c["tp"].str());
  g_gone.clear();
  std::vector<nd::array> v;
  std::string out;
  v.push_back(nd::empty(tp));
  for (auto &op : c["ops"].a) {
    const std::string &k = op["op"].str();
    if (k == "fill") put(v[0].get_type(), v[0]->metadata(), v[0].data(), op["v"].num());
    else if (k == "copy") { nd::array t = v[op["i"].num() - 1]; v.push_back(t); }
    else if (k == "slice") v.push_back(v[op["i"].num() - 1](irange(op["a"].num(), op["b"].num(), op["s"].num())));
    else if (k == "at") v.push_back(v[op["i"].num() - 1](op["a"].num()));
    else if (k == "drop") v[op["i"].num() - 1] = nd::array();
    out += (out.empty() ? "" : ",") + gone();
  }
  v.clear();
  return "\"st\":[" + out + "],\"end\":" + gone();
}
