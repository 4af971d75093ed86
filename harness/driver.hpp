// Conformance driver: executes one public-API call per input line on the real
// library and prints what can be observed afterwards.  No judgement here.
#pragma once
#include <dynd/array.hpp>
#include <dynd/callable.hpp>
#include <dynd/type.hpp>
#include <functional>
#include <sstream>
#include "json.hpp"

typedef std::function<std::string(const J &)> op_fn; // returns the inner part of a JSON object ("k":v,...)
std::map<std::string, op_fn> &ops();
struct reg_op { reg_op(const char *n, op_fn f) { ops()[n] = f; } };
#define OP(name) \
  static std::string op_##name(const J &); \
  static reg_op reg_##name(#name, op_##name); \
  static std::string op_##name(const J &c)

std::string run_op(const J &c);
// handle table
std::map<std::string, dynd::nd::array> &H();
dynd::nd::array &h(const J &name);
// projections
std::string show_type(const dynd::ndt::type &tp, const char *arrmeta);  // layout tree
std::string show_value(const dynd::ndt::type &tp, const char *arrmeta, const char *data); // nested value
std::string show_leaf(const dynd::ndt::type &tp, const char *data);
std::string show_array(const dynd::nd::array &a);   // "T":..,"v":.. without identity
void fill_value(const dynd::ndt::type &tp, const char *arrmeta, char *data, const J &v);
long live_allocs();
std::string tstr(const dynd::ndt::type &tp);
