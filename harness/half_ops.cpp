// Half-precision numbers.
#include "driver.hpp"
#include <dynd/config.hpp>
#include <cstring>

using namespace dynd;

template <typename T> static std::string raw(T x) {
  unsigned char b[sizeof(T)];
  memcpy(b, &x, sizeof(T));
  std::string s = "[";
  for (size_t i = 0; i < sizeof(T); ++i) s += (i ? "," : "") + std::to_string(int(b[i]));
  return s + "]";
}
template <typename T> static T unraw(const J &v) {
  unsigned char b[sizeof(T)];
  for (size_t i = 0; i < sizeof(T); ++i) b[i] = v[i].num();
  T x;
  memcpy(&x, b, sizeof(T));
  return x;
}
// its bits, -1 if refused
template <typename F> static std::string bits(F f) {
  try { return std::to_string(int(f().bits())); }
  catch (const std::exception &) { return "-1"; }
  catch (const dynd_exception &) { return "-1"; }
}
#define LIST(name) std::string name; auto add_##name = [&](const std::string &x) { name += (name.empty() ? "" : ",") + x; }

// {h: first, n: how many}
OP(half_widen) {
  LIST(f); LIST(d); LIST(bf); LIST(bd); LIST(p); LIST(neg); LIST(fl);
  for (long h = c["h"].num(), n = h + c["n"].num(); h < n; ++h) {
    float16 x = float16_from_bits(h);
    float a = h % 2 ? float(x) : halfbits_to_float(h);
    double b = h % 2 ? double(x) : halfbits_to_double(h);
    add_f(raw(a));
    add_d(raw(b));
    add_bf(bits([&] { return h % 2 ? float16(a) : float16_from_bits(float_to_halfbits(a)); }));
    add_bd(bits([&] { return h % 2 ? float16(b) : float16_from_bits(double_to_halfbits(b)); }));
    add_p("[" + std::to_string(int(x.iszero())) + "," + std::to_string(int(x.signbit_())) + "," + std::to_string(int(x.isnan_())) + "," +
          std::to_string(int(x.isinf_())) + "," + std::to_string(int(x.isfinite_())) + "," + std::to_string(int(static_cast<bool>(x))) + "," +
          std::to_string(int(!x)) + "]");
    add_neg(bits([&] { return -x; }));
    add_fl(bits([&] { return floor(x); }));
  }
  return "\"e\":\"\",\"f\":[" + f + "],\"d\":[" + d + "],\"bf\":[" + bf + "],\"bd\":[" + bd + "],\"p\":[" + p + "],\"neg\":[" + neg + "],\"fl\":[" + fl + "]";
}
template <typename T> static std::string narrow(const J &v) {
  LIST(o);
  for (auto &x : v.a) { T y = unraw<T>(x); add_o(bits([&] { return float16(y); })); }
  return o;
}
// {t: type, v: numbers}
OP(half_narrow) {
  const std::string &t = c["t"].s;
  const J &v = c["v"];
  std::string o;
  if (t == "float32") o = narrow<float>(v);
  else if (t == "float64") o = narrow<double>(v);
  else if (t == "int8") o = narrow<int8>(v);
  else if (t == "int16") o = narrow<int16>(v);
  else if (t == "int32") o = narrow<int32>(v);
  else if (t == "int64") o = narrow<int64>(v);
  else if (t == "uint16") o = narrow<uint16>(v);
  else if (t == "uint32") o = narrow<uint32>(v);
  else if (t == "uint64") o = narrow<uint64>(v);
  else if (t == "bool") { LIST(q); for (auto &x : v.a) add_q(bits([&] { return float16(bool(x[0].num())); })); o = q; }
  else throw std::logic_error("driver: type " + t);
  return "\"e\":\"\",\"o\":[" + o + "]";
}
template <typename T> static std::string whole(const J &v) {
  LIST(o);
  for (auto &x : v.a) add_o(raw(static_cast<T>(float16_from_bits(x.num()))));
  return o;
}
// {t: integer type, v: halves}: only such as fit
OP(half_int) {
  const std::string &t = c["t"].s;
  const J &v = c["v"];
  std::string o;
  if (t == "int8") o = whole<int8>(v);
  else if (t == "int16") o = whole<int16>(v);
  else if (t == "int32") o = whole<int32>(v);
  else if (t == "int64") o = whole<int64>(v);
  else if (t == "uint8") o = whole<uint8>(v);
  else if (t == "uint16") o = whole<uint16>(v);
  else if (t == "uint32") o = whole<uint32>(v);
  else if (t == "uint64") o = whole<uint64>(v);
  else throw std::logic_error("driver: type " + t);
  return "\"e\":\"\",\"o\":[" + o + "]";
}
template <typename A, typename B> static std::string six(const A &x, const B &y) {
  return std::to_string(int(x < y)) + "," + std::to_string(int(x <= y)) + "," + std::to_string(int(x == y)) + "," + std::to_string(int(x != y)) + "," +
         std::to_string(int(x >= y)) + "," + std::to_string(int(x > y));
}
// {p: pairs of halves}; compared as halves, and the left as a double or integer when t says so
OP(half_cmp) {
  LIST(o);
  const std::string &t = c["t"].s;
  for (auto &q : c["p"].a) {
    float16 x = float16_from_bits(q[0].num()), y = float16_from_bits(q[1].num());
    std::string s;
    if (t == "float16") s = six(x, y) + "," + std::to_string(int(x.less_nonan(y))) + "," + std::to_string(int(x.less_equal_nonan(y)));
    else if (t == "float64") s = six(x, double(y));
    else if (t == "int32") s = six(x, int32(y));
    else throw std::logic_error("driver: type " + t);
    add_o("[" + s + "]");
  }
  return "\"e\":\"\",\"o\":[" + o + "]";
}
