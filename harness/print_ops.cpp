// Printing of arrays.
#include "driver.hpp"
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/option.hpp>
#include <dynd/bytes.hpp>
#include <cstring>

using namespace dynd;
nd::array layout(const ndt::type &tp, int w);

static void utf8(std::string &o, uint32_t c) {
  if (c < 0x80) o += char(c);
  else if (c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
  else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
}
static std::string chars(const J &v) { std::string s; for (auto &x : v.a) s += char(x.num()); return s; }
// deep: dimensions down to the record whose second field is to be put, -1 for none
static void put(const ndt::type &tp, const char *am, char *d, const J &v, int deep = -1) {
  if (deep == 0) {
    const ndt::struct_type *st = tp.extended<ndt::struct_type>();
    return put(st->get_field_type(1), am + st->get_arrmeta_offsets()[1], d + reinterpret_cast<const intptr_t *>(am)[1], v);
  }
  switch (tp.get_id()) {
  case fixed_dim_id: {
    auto md = reinterpret_cast<const fixed_dim_type_arrmeta *>(am);
    for (intptr_t i = 0; i < md->dim_size; ++i) put(tp.extended<ndt::fixed_dim_type>()->get_element_type(), am + sizeof(*md), d + i * md->stride, v[i], deep - (deep > 0));
    return;
  }
  case var_dim_id: {
    auto md = reinterpret_cast<const ndt::var_dim_type::metadata_type *>(am);
    auto vd = reinterpret_cast<ndt::var_dim_type::data_type *>(d);
    vd->begin = md->blockref->alloc(v.size());
    vd->size = v.size();
    for (size_t i = 0; i < v.size(); ++i) put(tp.extended<ndt::var_dim_type>()->get_element_type(), am + sizeof(*md), vd->begin + md->offset + i * md->stride, v[i], deep - (deep > 0));
    return;
  }
  case struct_id: {
    const ndt::struct_type *st = tp.extended<ndt::struct_type>();
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      put(st->get_field_type(i), am + st->get_arrmeta_offsets()[i], d + reinterpret_cast<const intptr_t *>(am)[i], v[i]);
    return;
  }
  case tuple_id: {
    const ndt::tuple_type *st = tp.extended<ndt::tuple_type>();
    for (intptr_t i = 0; i < st->get_field_count(); ++i)
      put(st->get_field_type(i), am + st->get_arrmeta_offsets()[i], d + reinterpret_cast<const intptr_t *>(am)[i], v[i]);
    return;
  }
  case option_id: {
    const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type();
    if (v.size()) return put(vt, am, d, v[0]);
    nd::array na = nd::empty(tp);
    nd::array r = nd::assign_na({}, {{"dst", na}});
    memcpy(d, na.cdata(), tp.get_data_size());
    return;
  }
  case string_id: {
    std::string s;
    for (auto &x : v.a) utf8(s, x.num());
    reinterpret_cast<dynd::string *>(d)->assign(s.data(), s.size());
    return;
  }
  case fixed_string_id: {
    auto ft = tp.extended<ndt::fixed_string_type>();
    memset(d, 0, tp.get_data_size());
    if (ft->get_encoding() == string_encoding_utf_8 || ft->get_encoding() == string_encoding_ascii) {
      std::string s;
      for (auto &x : v.a) utf8(s, x.num());
      memcpy(d, s.data(), s.size());
    } else if (ft->get_encoding() == string_encoding_utf_16) {
      uint16_t *p = (uint16_t *)d;
      for (auto &x : v.a) {
        uint32_t c = x.num();
        if (c < 0x10000) *p++ = c;
        else { *p++ = 0xd800 + ((c - 0x10000) >> 10); *p++ = 0xdc00 + ((c - 0x10000) & 0x3ff); }
      }
    } else {
      uint32_t *p = (uint32_t *)d;
      for (auto &x : v.a) *p++ = x.num();
    }
    return;
  }
  case bytes_id: { std::string s = chars(v); if (!s.empty()) reinterpret_cast<dynd::bytes *>(d)->assign(s.data(), s.size()); return; }
  case fixed_bytes_id: { std::string s = chars(v); memcpy(d, s.data(), s.size()); return; }
  case bool_id: *d = v[0].num() != 0; return;
  case int8_id: *(int8_t *)d = strtoll(chars(v).c_str(), 0, 10); return;
  case int16_id: *(int16_t *)d = strtoll(chars(v).c_str(), 0, 10); return;
  case int32_id: *(int32_t *)d = strtoll(chars(v).c_str(), 0, 10); return;
  case int64_id: *(int64_t *)d = strtoll(chars(v).c_str(), 0, 10); return;
  case uint8_id: *(uint8_t *)d = strtoull(chars(v).c_str(), 0, 10); return;
  case uint16_id: *(uint16_t *)d = strtoull(chars(v).c_str(), 0, 10); return;
  case uint32_id: *(uint32_t *)d = strtoull(chars(v).c_str(), 0, 10); return;
  case uint64_id: *(uint64_t *)d = strtoull(chars(v).c_str(), 0, 10); return;
  case float32_id: *(float *)d = strtod(chars(v).c_str(), 0); return;
  case float64_id: *(double *)d = strtod(chars(v).c_str(), 0); return;
  default: throw std::logic_error("driver: cannot put " + tstr(tp));
  }
}
static ndt::type with_field(const ndt::type &tp, int &deep) {
  if (tp.get_id() == fixed_dim_id || tp.get_id() == var_dim_id) {
    ++deep;
    if (tp.get_id() == fixed_dim_id) return ndt::make_fixed_dim(tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size(), with_field(tp.extended<ndt::fixed_dim_type>()->get_element_type(), deep));
    return ndt::make_type<ndt::var_dim_type>(with_field(tp.extended<ndt::var_dim_type>()->get_element_type(), deep));
  }
  return ndt::make_type<ndt::struct_type>(std::vector<std::string>{"pad", "x"}, std::vector<ndt::type>{ndt::make_type<int32_t>(), tp});
}
// {tp, v, w}: w 4 and up: the array is a field of another
OP(print) {
  ndt::type tp(c["tp"].str());
  int w = c["w"].num(), deep = 0;
  nd::array a;
  if (w >= 4) {
    nd::array all = layout(with_field(tp, deep), w - 4);
    put(all.get_type(), all->metadata(), const_cast<char *>(all.cdata()), c["v"], deep);
    std::vector<irange> at(deep);
    at.push_back(irange(1));
    a = all.at_array(at.size(), at.data());
  } else {
    a = layout(tp, w);
    put(a.get_type(), a->metadata(), const_cast<char *>(a.cdata()), c["v"]);
  }
  std::ostringstream o;
  o << a;
  std::string s = o.str(), r;
  for (unsigned char x : s) r += (r.empty() ? "" : ",") + std::to_string(int(x));
  return "\"s\":[" + r + "]";
}
