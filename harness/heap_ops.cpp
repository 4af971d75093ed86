// Operations of the array/view heap machine (spec/DyndHeap.tla).
#include "driver.hpp"
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/assignment.hpp>
#include <dynd/access.hpp>
#include <dynd/index.hpp>
#include <dynd/view.hpp>
#include <cstring>
#include <set>

using namespace dynd;

namespace {
struct blk { int id; const void *owner; const char *base; };
std::map<const void *, blk> blocks; // owner pointer -> block
int next_block = 1;
std::map<int, int> freed; // external block id -> number of times its free function ran
struct ext { int id; char *raw; size_t n; ndt::type el; };
const size_t GUARD = 64;

void free_ext(void *p) {
  ext *x = static_cast<ext *>(p);
  freed[x->id]++;
  if (freed[x->id] == 1) { memset(x->raw, 0x5a, x->n); }
}
std::vector<std::pair<ext *, char *>> exts;
// a release callback that needs no object (at most one such block per session)
ext *null_ext = nullptr;
void free_null(void *p) { if (p == nullptr && null_ext) free_ext(null_ext); }

const void *owner_of(const nd::array &a) {
  const nd::base_memory_block *m = a.get();
  for (;;) { // a view may be owned by the view it was made from
    const nd::buffer_memory_block *b = dynamic_cast<const nd::buffer_memory_block *>(m);
    if (b == nullptr) return m;
    nd::array t;
    { nd::array tmp(*reinterpret_cast<const nd::array *>(&b)); t = tmp; } // an array handle is one counted pointer
    if (!t.get_owner()) return m;
    m = t.get_owner().get();
  }
}

// identity of the storage an array refers to; `name` is the handle just created
std::string ident(const std::string &name) {
  const nd::array &a = H()[name];
  const void *ow = owner_of(a);
  bool alive = false;
  for (auto &kv : H())
    if (kv.first != name && !kv.second.is_null() && owner_of(kv.second) == ow) alive = true;
  auto it = blocks.find(ow);
  if (!alive || it == blocks.end()) {
    blocks[ow] = blk{next_block++, ow, a.cdata()};
    it = blocks.find(ow);
  }
  std::ostringstream o;
  long long off = (long long)(a.cdata() - it->second.base);
  if (off > 1000000 || off < -1000000) off = -999999;
  o << "\"b\":" << it->second.id << ",\"o\":" << off << ",\"fl\":" << a.get_flags();
  return o.str();
}
std::string result(const std::string &name) {
  const nd::array &a = H()[name];
  if (a.is_null()) return "\"null\":1";
  return ident(name) + "," + show_array(a);
}
std::vector<irange> iranges(const J &v) {
  std::vector<irange> r;
  for (auto &x : v.a) {
    if (x["k"].s == "i") r.push_back(irange(x["i"].num()));
    else {
      // {"k":"r","a":start,"b":finish,"s":step,"am":start missing,"bm":finish missing}
      intptr_t st = x["am"].num() ? std::numeric_limits<intptr_t>::min() : x["a"].num();
      intptr_t fi = x["bm"].num() ? std::numeric_limits<intptr_t>::max() : x["b"].num();
      r.push_back(irange(st, fi, x["s"].num()));
    }
  }
  return r;
}
uint64_t flags_of(const J &c) { return (uint64_t)c["fl"].num(); }
} // namespace

// values of every live handle, and which external blocks have been released
std::string all_values() {
  std::ostringstream o;
  o << "\"H\":{";
  bool f = true;
  for (auto &kv : H()) {
    if (kv.second.is_null()) continue;
    o << (f ? "" : ",") << jstr(kv.first) << ":" << show_value(kv.second.get_type(), kv.second->metadata(), kv.second.cdata());
    f = false;
  }
  o << "},\"F\":[";
  f = true;
  for (auto &kv : freed) { for (int i = 0; i < kv.second; ++i) { o << (f ? "" : ",") << kv.first; f = false; } }
  o << "],\"X\":[";
  // raw contents of external storage not yet released, and its surroundings
  f = true;
  for (auto &x : exts) {
    if (freed.count(x.first->id)) continue;
    o << (f ? "" : ",") << "{\"b\":" << x.first->id << ",\"c\":[";
    f = false;
    size_t isz = x.first->el.get_data_size();
    for (size_t i = 0; i * isz < x.first->n; ++i) o << (i ? "," : "") << show_leaf(x.first->el, x.first->raw + i * isz);
    int g = 1;
    for (size_t i = 0; i < GUARD; ++i)
      if (x.first->raw[x.first->n + i] != 0x33 || x.first->raw[-(long)GUARD + (long)i] != 0x33) g = 0;
    o << "],\"g\":" << g << "}";
  }
  o << "]";
  return o.str();
}

static void put(const J &c, nd::array a) { H()[c["r"].s] = std::move(a); }

OP(reset) {
  H().clear(); blocks.clear(); next_block = 1; freed.clear(); null_ext = nullptr;
  for (auto &x : exts) { ::free(x.first->raw - GUARD); delete x.first; }
  exts.clear();
  return "";
}
OP(obs) { return all_values(); }
// fresh array of a concrete type with explicit contents
OP(new) {
  nd::array a = nd::empty(ndt::type(c["tp"].s), c.has("fl") ? flags_of(c) : (uint64_t)nd::readwrite_access_flags);
  fill_value(a.get_type(), a->metadata(), const_cast<char *>(a.cdata()), c["v"]);
  put(c, a);
  return result(c["r"].s);
}
// array over externally owned memory with arbitrary geometry
OP(newext) {
  ndt::type el(c["tp"].s);
  size_t isz = el.get_data_size(), n = c["v"].size();
  char *mem = (char *)::malloc(n * isz + 2 * GUARD);
  memset(mem, 0x33, n * isz + 2 * GUARD);
  ext *x = new ext{next_block, mem + GUARD, n * isz, el};
  exts.push_back({x, x->raw});
  for (size_t i = 0; i < n; ++i) fill_value(el, nullptr, x->raw + i * isz, c["v"][i]);
  nd::memory_block mb = nd::make_memory_block<nd::external_memory_block>(
      c.flag("on") ? nullptr : x, c.flag("on") ? &free_null : &free_ext);
  if (c.flag("on")) null_ext = x;
  std::vector<intptr_t> shape, strides;
  for (auto &j : c["sh"].a) shape.push_back(j.num());
  for (auto &j : c["st"].a) strides.push_back(j.num() * (intptr_t)isz);
  ndt::type tp = shape.empty() ? el : ndt::make_type((intptr_t)shape.size(), shape.data(), el);
  nd::array a = nd::make_array(tp, x->raw + c["off"].num() * isz, mb, flags_of(c));
  fixed_dim_type_arrmeta *md = reinterpret_cast<fixed_dim_type_arrmeta *>(a->metadata());
  for (size_t i = 0; i < shape.size(); ++i) { md[i].dim_size = shape[i]; md[i].stride = strides[i]; }
  blocks[mb.get()] = blk{next_block++, mb.get(), x->raw};
  mb = nd::memory_block();
  put(c, a);
  // ident() would allocate a fresh id as nobody else holds the block: report directly
  std::ostringstream o;
  o << "\"b\":" << x->id << ",\"o\":" << (a.cdata() - x->raw) << ",\"fl\":" << a.get_flags() << "," << show_array(a);
  return o.str();
}
OP(dup) { nd::array t = h(c["x"]); put(c, t); return result(c["r"].s); }
OP(drop) { H().erase(c["x"].s); return all_values(); }
OP(at) { auto ix = iranges(c["ix"]); put(c, h(c["x"]).at_array(ix.size(), ix.data(), !c.has("cl") || c.flag("cl"))); return result(c["r"].s); }
OP(permute) {
  std::vector<intptr_t> ax; for (auto &j : c["ax"].a) ax.push_back(j.num());
  put(c, h(c["x"]).permute(ax.size(), ax.data())); return result(c["r"].s);
}
OP(transpose) { put(c, h(c["x"]).transpose()); return result(c["r"].s); }
OP(rotate) { put(c, h(c["x"]).rotate(c["to"].num(), c["from"].num())); return result(c["r"].s); }
OP(newaxis) { put(c, h(c["x"]).new_axis(c["i"].num(), c["n"].num())); return result(c["r"].s); }
OP(reshape) {
  std::vector<intptr_t> sh; for (auto &j : c["sh"].a) sh.push_back(j.num());
  put(c, nd::reshape(h(c["x"]), sh.size(), sh.data())); return result(c["r"].s);
}
OP(field) { put(c, h(c["x"]).p(c["n"].s)); return result(c["r"].s); }
OP(pack) {
  std::vector<nd::array> xs; for (auto &j : c["xs"].a) xs.push_back(h(j));
  if (c["n"].size() == 0) put(c, nd::tuple(xs.size(), xs.data()));
  else {
    std::vector<std::pair<const char *, nd::array>> ps;
    for (size_t i = 0; i < xs.size(); ++i) ps.push_back({c["n"][i].s.c_str(), xs[i]});
    put(c, nd::as_struct(ps.size(), ps.data()));
  }
  return result(c["r"].s); }
OP(viewas) { nd::array a = h(c["x"]); put(c, a.view(a.get_type().with_replaced_dtype(ndt::type(c["t"].s)))); return result(c["r"].s); }
OP(eval) { put(c, h(c["x"]).eval()); return result(c["r"].s); }
OP(evalcopy) { put(c, h(c["x"]).eval_copy(flags_of(c))); return result(c["r"].s); }
OP(storage) { put(c, h(c["x"]).storage()); return result(c["r"].s); }
OP(emptylike) { put(c, nd::empty_like(h(c["x"]))); 
  nd::array &a = H()[c["r"].s]; fill_value(a.get_type(), a->metadata(), const_cast<char *>(a.cdata()), c["v"]);
  return result(c["r"].s); }
OP(assign) { nd::array d = h(c["x"]); d.assign(h(c["y"])); return all_values(); }
OP(vals) { nd::array d = h(c["x"]); d.vals() = h(c["y"]); return all_values(); }
OP(valsat) { auto ix = iranges(c["ix"]); nd::array d = h(c["x"]);
  if (ix.size() == 1) d.vals_at(ix[0]) = h(c["y"]);
  else if (ix.size() == 2) d.vals_at(ix[0], ix[1]) = h(c["y"]);
  else d.vals_at(ix[0], ix[1], ix[2]) = h(c["y"]);
  return all_values(); }
OP(setnum) { nd::array d = h(c["x"]); d.assign(nd::array((int)c["v"].num())); return all_values(); }
OP(poke) { // write through the raw pointer the API hands out for writing
  nd::array d = h(c["x"]); char *p = d.data();
  fill_value(d.get_type(), d->metadata(), p, c["v"]); return all_values(); }
OP(live) { return "\"n\":" + std::to_string(live_allocs()); }
OP(replacedtype) { put(c, h(c["x"]).replace_dtype(ndt::type(c["tp"].s))); return result(c["r"].s); }
OP(viewscalars) { put(c, h(c["x"]).view_scalars(ndt::type(c["t"].s))); return result(c["r"].s); }
OP(tohost) { put(c, h(c["x"]).to_host()); return result(c["r"].s); }
OP(equalsexact) { return std::string("\"q\":") + (h(c["x"]).equals_exact(h(c["y"])) ? "1" : "0"); }
OP(concat) { put(c, nd::concatenate(h(c["x"]), h(c["y"]))); return result(c["r"].s); }
void driver_init() {}
