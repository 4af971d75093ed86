// Arithmetic, bitwise, shift and logical operations (spec/ArithTrace.tla).
#include "driver.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <cstring>
#include <functional>
#include <map>

using namespace dynd;
nd::array layout(const ndt::type &tp, int w);
void put_all(const nd::array &a, const J &v);
nd::array operand(const J &o);
std::string all_bytes(const nd::array &a);

typedef std::function<nd::array(const nd::array &, const nd::array &)> op_t;
static const std::map<std::string, std::pair<nd::callable *, op_t>> &table() {
  typedef const nd::array &A;
  static std::map<std::string, std::pair<nd::callable *, op_t>> m = {
    {"add", {&nd::add, [](A a, A b) { return a + b; }}},
    {"subtract", {&nd::subtract, [](A a, A b) { return a - b; }}},
    {"multiply", {&nd::multiply, [](A a, A b) { return a * b; }}},
    {"divide", {&nd::divide, [](A a, A b) { return a / b; }}},
    {"mod", {&nd::mod, [](A a, A b) { return a % b; }}},
    {"bitwise_and", {&nd::bitwise_and, [](A a, A b) { return a & b; }}},
    {"bitwise_or", {&nd::bitwise_or, [](A a, A b) { return a | b; }}},
    {"bitwise_xor", {&nd::bitwise_xor, [](A a, A b) { return a ^ b; }}},
    {"left_shift", {&nd::left_shift, [](A a, A b) { return a << b; }}},
    {"right_shift", {&nd::right_shift, [](A a, A b) { return a >> b; }}},
    {"logical_and", {&nd::logical_and, [](A a, A b) { return a && b; }}},
    {"logical_or", {&nd::logical_or, [](A a, A b) { return a || b; }}},
    {"logical_xor", {&nd::logical_xor, [](A a, A b) { return nd::logical_xor(a, b); }}},
    {"plus", {&nd::plus, [](A a, A) { return +a; }}},
    {"minus", {&nd::minus, [](A a, A) { return -a; }}},
    {"bitwise_not", {&nd::bitwise_not, [](A a, A) { return ~a; }}},
    {"logical_not", {&nd::logical_not, [](A a, A) { return !a; }}},
    {"sqrt", {&nd::sqrt, [](A a, A) { return nd::sqrt(a); }}}};
  return m;
}
template <class F> static std::string fails(F f) {
  try { f(); return ""; }
  catch (const std::exception &e) { return std::string(e.what()).substr(0, 40) + "!"; }
  catch (const dynd::dynd_exception &e) { return std::string(e.what()).substr(0, 40) + "!"; }
}

// {op, u: unary, l, r: operands, how: 0 the callable, 1 the operator}
OP(arith) {
  nd::array a = operand(c["l"]), b;
  if (!c.flag("u")) b = c.flag("alias") ? a : operand(c["r"]);
  auto &f = table().at(c["op"].str());
  std::string before = all_bytes(a) + (b.is_null() ? "" : all_bytes(b));
  std::string v = "[]", v2 = "[]", t;
  ndt::type rt;
  std::string e = fails([&] {
    nd::array r = c.flag("how") ? f.second(a, b) : c.flag("u") ? (*f.first)(a) : (*f.first)(a, b);
    rt = r.get_type();
    v = all_bytes(r);
    t = tstr(rt.get_dtype());
  });
  // into a destination of the same type
  std::string e2 = e;
  if (e.empty()) e2 = fails([&] {
    nd::array d = rt.get_id() == fixed_dim_id ? layout(rt, c["dw"].num()) : nd::empty(rt);
    nd::array args[2] = {a, b};
    std::pair<const char *, nd::array> kw[1] = {{"dst", d}};
    f.first->call(c.flag("u") ? 1 : 2, args, 1, kw);
    v2 = all_bytes(d);
  });
  std::string after = all_bytes(a) + (b.is_null() ? "" : all_bytes(b));
  return "\"e\":" + jstr(e) + ",\"e2\":" + jstr(e2) + ",\"t\":" + jstr(t) + ",\"v\":" + v + ",\"v2\":" + v2 + ",\"same\":" + std::to_string(int(before == after));
}
// an operation whose operand is changed in place
OP(compound) {
  nd::array a = operand(c["l"]), b = c.flag("alias") ? a : operand(c["r"]);
  std::string before = all_bytes(b);
  std::string e = fails([&] { if (c["op"].str() == "add") a += b; else a /= b; });
  return "\"e\":" + jstr(e) + ",\"v\":" + all_bytes(a) + ",\"same\":" + std::to_string(int(c.flag("alias") || before == all_bytes(b)));
}
// the type two types promote to
#include <dynd/type_promotion.hpp>
OP(promote) {
  ndt::type a(c["l"].str()), b(c["r"].str());
  return "\"t\":" + jstr(tstr(promote_types_arithmetic(a, b)));
}
