// Conversions between numeric types (spec/NumberTrace.tla).
#include "driver.hpp"
#include <dynd/assignment.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <cstring>

using namespace dynd;
nd::array layout(const ndt::type &tp, int w);

static void put(const nd::array &a, const J &v, size_t sz) {
  intptr_t st = a.get_ndim() ? reinterpret_cast<const fixed_dim_type_arrmeta *>(a->metadata())->stride : 0;
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t k = 0; k < sz; ++k) a.data()[(intptr_t)i * st + (intptr_t)k] = (char)v[i][k].num();
}
std::string show_bytes(const nd::array &a, size_t n, size_t sz) {
  intptr_t st = a.get_ndim() ? reinterpret_cast<const fixed_dim_type_arrmeta *>(a->metadata())->stride : 0;
  std::string o = "[";
  for (size_t i = 0; i < n; ++i) {
    o += i ? ",[" : "[";
    for (size_t k = 0; k < sz; ++k)
      o += (k ? "," : "") + std::to_string((unsigned char)a.cdata()[(intptr_t)i * st + (intptr_t)k]);
    o += "]";
  }
  return o + "]";
}
assign_error_mode mode_of(const std::string &m) {
  return m == "nocheck" ? assign_error_nocheck : m == "overflow" ? assign_error_overflow
       : m == "fractional" ? assign_error_fractional : assign_error_inexact;
}

// {st, dt, mode, v: [[bytes]..], scalar, sw, dw}
OP(conv) {
  ndt::type st(c["stp"].str()), dt(c["dtp"].str());
  size_t n = c["v"].size();
  bool scalar = c.flag("scalar");
  nd::array s = layout(scalar ? st : ndt::make_fixed_dim(n, st), c["sw"].num());
  nd::array d = layout(scalar ? dt : ndt::make_fixed_dim(n, dt), c["dw"].num());
  put(s, c["v"], st.get_data_size());
  const std::string &m = c["mode"].str();
  if (m == "none") d.assign(s);
  else d.assign(s, mode_of(m));
  return "\"v\":" + show_bytes(d, n, dt.get_data_size()) + ",\"s\":" + show_bytes(s, n, st.get_data_size());
}
