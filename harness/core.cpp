#include "driver.hpp"
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/option.hpp>
#include <atomic>
#include <cmath>
#include <cstring>
#include <cxxabi.h>
#include <iostream>
#include <malloc.h>
#include <unistd.h>

using namespace dynd;

// ---- allocation accounting: every malloc-family block alive in the process
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
}
static std::atomic<long> g_live(0);
extern bool g_watch;
extern int g_n;
void watch_add(void *, size_t);
bool watch_del(void *);
long live_allocs() { return g_live.load(); }
extern "C" {
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) ++g_live; if (g_watch) watch_add(p, n); return p; }
void free(void *p) { if (p) --g_live; if (p && g_n) watch_del(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) ++g_live; if (g_watch) watch_add(p, a * b); return p; }
void *realloc(void *q, size_t n) {
  if (!q) return malloc(n);
  if (n == 0) { free(q); return nullptr; }
  bool w = g_n && watch_del(q);
  void *p = __libc_realloc(q, n);
  if (w) watch_add(p, n);
  return p;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p) ++g_live; return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : 12; }
}

std::map<std::string, op_fn> &ops() { static std::map<std::string, op_fn> m; return m; }
std::map<std::string, nd::array> &H() { static std::map<std::string, nd::array> m; return m; }
nd::array &h(const J &n) {
  auto it = H().find(n.s);
  if (it == H().end()) throw std::logic_error("driver: no handle " + n.s);
  return it->second;
}

static const long long BIG = 1000000000LL;
static std::string num(long double d) {
  if (std::isnan(d)) return "-1999999997";
  if (d != std::floor(d) || std::fabs(d) > BIG) return "-1999999998";
  return std::to_string((long long)d);
}
std::string tstr(const ndt::type &tp) { std::ostringstream ss; ss << tp; return ss.str(); }

std::string show_leaf(const ndt::type &tp, const char *d) {
  long long v;
  switch (tp.get_id()) {
  case bool_id: { unsigned char u = *(const unsigned char *)d; return std::to_string((int)u); }
  case int8_id: v = *(const int8_t *)d; break;
  case int16_id: v = *(const int16_t *)d; break;
  case int32_id: v = *(const int32_t *)d; break;
  case int64_id: v = *(const int64_t *)d; break;
  case uint8_id: v = *(const uint8_t *)d; break;
  case uint16_id: v = *(const uint16_t *)d; break;
  case uint32_id: v = *(const uint32_t *)d; break;
  case uint64_id: { uint64_t u = *(const uint64_t *)d; v = u > (uint64_t)BIG ? BIG + 1 : (long long)u; break; }
  case float32_id: return num(*(const float *)d);
  case float64_id: return num(*(const double *)d);
  case complex_float64_id: return num(((const double *)d)[0]);
  case fixed_bytes_id: { // as a little-endian number
    if (tp.get_data_size() > 8) return jstr("?" + tstr(tp));
    uint64_t u = 0; memcpy(&u, d, tp.get_data_size()); v = u > (uint64_t)BIG ? BIG + 1 : (long long)u; break;
  }
  default: return jstr("?" + tstr(tp));
  }
  if (v > BIG || v < -BIG) return "-1999999999";
  return std::to_string(v);
}

// how NA is stored, by raw memory; -9999 stands for it in values
bool raw_na(type_id_t id, const char *d) {
  switch (id) {
  case bool_id: return *(const unsigned char *)d > 1;
  case int8_id: return *(const unsigned char *)d == 0x80;
  case int16_id: return *(const uint16_t *)d == 0x8000;
  case int32_id: return *(const uint32_t *)d == 0x80000000u;
  case int64_id: return *(const uint64_t *)d == 0x8000000000000000ull;
  case uint32_id: return *(const uint32_t *)d == 0xffffffffu;
  case float32_id: return *(const float *)d != *(const float *)d;
  case float64_id: return *(const double *)d != *(const double *)d;
  default: return false;
  }
}
static void put_na(type_id_t id, char *d) {
  switch (id) {
  case bool_id: *d = 2; return;
  case int8_id: *(unsigned char *)d = 0x80; return;
  case int16_id: *(uint16_t *)d = 0x8000; return;
  case int32_id: *(uint32_t *)d = 0x80000000u; return;
  case int64_id: *(uint64_t *)d = 0x8000000000000000ull; return;
  case uint32_id: *(uint32_t *)d = 0xffffffffu; return;
  case float32_id: *(uint32_t *)d = 0x7f8007a2u; return;
  case float64_id: *(uint64_t *)d = 0x7ff00000000007a2ull; return;
  default: throw std::logic_error("driver: no NA");
  }
}
std::string show_type(const ndt::type &tp, const char *am) {
  std::ostringstream o;
  switch (tp.get_id()) {
  case fixed_dim_id: {
    const fixed_dim_type_arrmeta *md = reinterpret_cast<const fixed_dim_type_arrmeta *>(am);
    o << "{\"k\":\"dim\",\"n\":" << md->dim_size << ",\"s\":" << md->stride << ",\"el\":"
      << show_type(tp.extended<ndt::fixed_dim_type>()->get_element_type(), am + sizeof(*md)) << "}";
    break;
  }
  case var_dim_id: {
    const ndt::var_dim_type::metadata_type *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(am);
    o << "{\"k\":\"var\",\"s\":" << md->stride << ",\"el\":"
      << show_type(tp.extended<ndt::var_dim_type>()->get_element_type(), am + sizeof(*md)) << "}";
    break;
  }
  case struct_id: {
    const ndt::struct_type *st = tp.extended<ndt::struct_type>();
    o << "{\"k\":\"struct\",\"f\":[";
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      o << (i ? "," : "") << "{\"n\":" << jstr(st->get_field_name(i)) << ",\"o\":" << reinterpret_cast<const intptr_t *>(am)[i]
        << ",\"t\":" << show_type(st->get_field_type(i), am + st->get_arrmeta_offsets()[i]) << "}";
    o << "]}";
    break;
  }
  case tuple_id: {
    const ndt::tuple_type *st = tp.extended<ndt::tuple_type>();
    o << "{\"k\":\"tuple\",\"f\":[";
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      o << (i ? "," : "") << "{\"o\":" << reinterpret_cast<const intptr_t *>(am)[i]
        << ",\"t\":" << show_type(st->get_field_type(i), am + st->get_arrmeta_offsets()[i]) << "}";
    o << "]}";
    break;
  }
  case fixed_bytes_id:
    o << "{\"k\":\"leaf\",\"t\":\"bytes" << tp.get_data_size() << "\"}"; break;
  default: o << "{\"k\":\"leaf\",\"t\":" << jstr(tstr(tp)) << "}";
  }
  return o.str();
}

std::string show_value(const ndt::type &tp, const char *am, const char *d) {
  std::ostringstream o;
  switch (tp.get_id()) {
  case fixed_dim_id: {
    const fixed_dim_type_arrmeta *md = reinterpret_cast<const fixed_dim_type_arrmeta *>(am);
    const ndt::type &el = tp.extended<ndt::fixed_dim_type>()->get_element_type();
    o << "[";
    for (intptr_t i = 0; i < md->dim_size; ++i) o << (i ? "," : "") << show_value(el, am + sizeof(*md), d + i * md->stride);
    o << "]";
    break;
  }
  case var_dim_id: {
    const ndt::var_dim_type::metadata_type *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(am);
    const ndt::var_dim_type::data_type *vd = reinterpret_cast<const ndt::var_dim_type::data_type *>(d);
    const ndt::type &el = tp.extended<ndt::var_dim_type>()->get_element_type();
    if (vd->begin == nullptr) return "[\"null\"]";
    if (vd->size > 100000) return "[\"garbage\"]";
    o << "[";
    for (size_t i = 0; i < vd->size; ++i) o << (i ? "," : "") << show_value(el, am + sizeof(*md), vd->begin + md->offset + i * md->stride);
    o << "]";
    break;
  }
  case struct_id: {
    const ndt::struct_type *st = tp.extended<ndt::struct_type>();
    o << "[";
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      o << (i ? "," : "") << show_value(st->get_field_type(i), am + st->get_arrmeta_offsets()[i], d + reinterpret_cast<const intptr_t *>(am)[i]);
    o << "]";
    break;
  }
  case tuple_id: {
    const ndt::tuple_type *st = tp.extended<ndt::tuple_type>();
    o << "[";
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      o << (i ? "," : "") << show_value(st->get_field_type(i), am + st->get_arrmeta_offsets()[i], d + reinterpret_cast<const intptr_t *>(am)[i]);
    o << "]";
    break;
  }
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    return raw_na(vt.get_id(), d) ? "-9999" : show_value(vt, am, d);
  }
  case string_id: {
    const dynd::string *s = reinterpret_cast<const dynd::string *>(d);
    if (s->size() > 100000) return jstr("garbage");
    return jstr(std::string(s->begin(), s->end()));
  }
  default: return show_leaf(tp, d);
  }
  return o.str();
}

void fill_value(const ndt::type &tp, const char *am, char *d, const J &v) {
  switch (tp.get_id()) {
  case fixed_dim_id: {
    const fixed_dim_type_arrmeta *md = reinterpret_cast<const fixed_dim_type_arrmeta *>(am);
    const ndt::type &el = tp.extended<ndt::fixed_dim_type>()->get_element_type();
    for (intptr_t i = 0; i < md->dim_size; ++i) fill_value(el, am + sizeof(*md), d + i * md->stride, v[i]);
    return;
  }
  case var_dim_id: {
    const ndt::var_dim_type::metadata_type *md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(am);
    ndt::var_dim_type::data_type *vd = reinterpret_cast<ndt::var_dim_type::data_type *>(d);
    const ndt::type &el = tp.extended<ndt::var_dim_type>()->get_element_type();
    if (v.k == J::Null) return;
    vd->begin = md->blockref->alloc(v.size());
    vd->size = v.size();
    for (size_t i = 0; i < v.size(); ++i) fill_value(el, am + sizeof(*md), vd->begin + md->offset + i * md->stride, v[i]);
    return;
  }
  case struct_id: {
    const ndt::struct_type *st = tp.extended<ndt::struct_type>();
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      fill_value(st->get_field_type(i), am + st->get_arrmeta_offsets()[i], d + reinterpret_cast<const intptr_t *>(am)[i], v[i]);
    return;
  }
  case tuple_id: {
    const ndt::tuple_type *st = tp.extended<ndt::tuple_type>();
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      fill_value(st->get_field_type(i), am + st->get_arrmeta_offsets()[i], d + reinterpret_cast<const intptr_t *>(am)[i], v[i]);
    return;
  }
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    if (v.num() == -9999) put_na(vt.get_id(), d);
    else fill_value(vt, am, d, v);
    return;
  }
  case string_id: reinterpret_cast<dynd::string *>(d)->assign(v.s.data(), v.s.size()); return;
  case fixed_bytes_id: { uint64_t u = v.num(); memcpy(d, &u, tp.get_data_size()); return; }
  case bool_id: *d = v.num() != 0; return;
  case int8_id: *(int8_t *)d = v.num(); return;
  case int16_id: *(int16_t *)d = v.num(); return;
  case int32_id: *(int32_t *)d = v.num(); return;
  case int64_id: *(int64_t *)d = v.num(); return;
  case uint8_id: *(uint8_t *)d = v.num(); return;
  case uint16_id: *(uint16_t *)d = v.num(); return;
  case uint32_id: *(uint32_t *)d = v.num(); return;
  case uint64_id: *(uint64_t *)d = v.num(); return;
  case float32_id: *(float *)d = v.num(); return;
  case float64_id: *(double *)d = v.num(); return;
  case complex_float64_id: ((double *)d)[0] = v.num(); ((double *)d)[1] = 0; return;
  default: throw std::logic_error("driver: cannot fill " + tstr(tp));
  }
}

std::string show_array(const nd::array &a) {
  if (a.is_null()) return "\"T\":{\"k\":\"null\"}";
  return "\"T\":" + show_type(a.get_type(), a->metadata()) + ",\"v\":" + show_value(a.get_type(), a->metadata(), a.cdata());
}

static std::string err(const std::type_info *ti, const char *what) {
  int st = 0;
  std::string n = "?";
  if (ti) { char *d = abi::__cxa_demangle(ti->name(), 0, 0, &st); n = d ? d : ti->name(); free(d); }
  std::string w(what ? what : "");
  if (w.size() > 300) w.resize(300);
  return "\"e\":" + jstr(n) + ",\"em\":" + jstr(w);
}

// runs one command; errors of the library become part of the answer
std::string run_op(const J &c) {
  auto it = ops().find(c["a"].s);
  if (it == ops().end()) throw std::logic_error("driver: unknown op " + c["a"].s);
  try {
    std::string r = it->second(c);
    if (r.empty()) return "\"e\":\"\"";
    return r.compare(0, 4, "\"e\":") != 0 ? "\"e\":\"\"," + r : r;
  } catch (const std::logic_error &e) {
    if (std::string(e.what()).compare(0, 7, "driver:") == 0) throw;
    return err(&typeid(e), e.what());
  } catch (const std::exception &e) { return err(&typeid(e), e.what());
  } catch (const dynd_exception &e) { return err(&typeid(e), e.what());
  } catch (...) { return err(abi::__cxa_current_exception_type(), "non-standard exception"); }
}

void driver_init();
int main(int argc, char **argv) {
  std::ios::sync_with_stdio(false);
  std::string line;
  driver_init();
  (void)argc; (void)argv;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::string r;
    alarm(20);
    try {
      r = run_op(jparse(line));
    } catch (const std::exception &e) {
      std::cerr << e.what() << " in " << line << std::endl;
      return 90;
    }
    alarm(0);
    std::cout << "{" << r << "}\n" << std::flush;
  }
  return 0;
}
