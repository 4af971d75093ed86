// Types: parsing, printing, structure, matching, substitution (spec/TypeTrace.tla).
#include "driver.hpp"
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/char_type.hpp>
#include <dynd/types/datashape_parser.hpp>
#include <dynd/types/dim_fragment_type.hpp>
#include <dynd/types/dim_kind_type.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_bytes_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/fixed_dim_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/types/pow_dimsym_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/substitute_typevars.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/typevar_constructed_type.hpp>
#include <dynd/types/typevar_dim_type.hpp>
#include <dynd/types/typevar_type.hpp>
#include <dynd/types/var_dim_type.hpp>

using namespace dynd;

static std::string node(const std::string &k, const std::string &n, const std::string &s, const std::string &c) {
  return "{\"k\":" + jstr(k) + ",\"n\":[" + n + "],\"s\":[" + s + "],\"c\":[" + c + "]}";
}
static std::string num(intptr_t v) { return (v > 1000000000 || v < -1000000000) ? "-1999999999" : std::to_string(v); }
std::string show_ast(const ndt::type &t) {
  auto el = [&] { return show_ast(t.extended<ndt::base_dim_type>()->get_element_type()); };
  auto enc = [](string_encoding_t e) { std::ostringstream o; o << e; return jstr(o.str()); };
  switch (t.get_id()) {
  case uninitialized_id: return node("null", "", "", "");
  case complex_float32_id: return node("complex64", "", "", "");
  case complex_float64_id: return node("complex128", "", "", "");
  case any_kind_id: return node("Any", "", "", "");
  case scalar_kind_id: return node("Scalar", "", "", "");
  case bool_kind_id: return node("Bool", "", "", "");
  case int_kind_id: return node("Int", "", "", "");
  case uint_kind_id: return node("UInt", "", "", "");
  case float_kind_id: return node("Float", "", "", "");
  case complex_kind_id: return node("Complex", "", "", "");
  case bytes_kind_id: return node("Bytes", "", "", "");
  case fixed_bytes_kind_id: return node("FixedBytes", "", "", "");
  case string_kind_id: return node("String", "", "", "");
  case fixed_string_kind_id: return node("FixedString", "", "", "");
  case categorical_kind_id: return node("Categorical", "", "", "");
  case dim_kind_id: return node("Dim", "", "", el());
  case fixed_dim_kind_id: return node("Fixed", "", "", el());
  case fixed_dim_id: return node("fixed", num(t.extended<ndt::fixed_dim_type>()->get_fixed_dim_size()), "", el());
  case var_dim_id: return node("var", "", "", el());
  case typevar_dim_id: return node("tvdim", "", jstr(t.extended<ndt::typevar_dim_type>()->get_name()), el());
  case ellipsis_dim_id: return node("ellipsis", "", jstr(t.extended<ndt::ellipsis_dim_type>()->get_name()), el());
  case pow_dimsym_id: {
    const ndt::pow_dimsym_type *p = t.extended<ndt::pow_dimsym_type>();
    return node("powdim", "", jstr(p->get_exponent()), show_ast(p->get_base_type()) + "," + el());
  }
  case option_id: return node("option", "", "", show_ast(t.extended<ndt::option_type>()->get_value_type()));
  case pointer_id: return node("pointer", "", "", show_ast(t.extended<ndt::pointer_type>()->get_target_type()));
  case bytes_id: return node("bytes", num(t.extended<ndt::bytes_type>()->get_target_alignment()), "", "");
  case fixed_bytes_id: return node("fixed_bytes", num(t.get_data_size()) + "," + num(t.get_data_alignment()), "", "");
  case fixed_string_id:
    return node("fixed_string", num(t.extended<ndt::fixed_string_type>()->get_size()),
                enc(t.extended<ndt::fixed_string_type>()->get_encoding()), "");
  case char_id: return node("char", "", enc(t.extended<ndt::char_type>()->get_encoding()), "");
  case typevar_id: return node("typevar", "", jstr(t.extended<ndt::typevar_type>()->get_name()), "");
  case typevar_constructed_id: {
    const ndt::typevar_constructed_type *p = t.extended<ndt::typevar_constructed_type>();
    return node("tvcon", "", jstr(p->get_name()), show_ast(p->get_arg()));
  }
  case tuple_id: {
    const ndt::tuple_type *p = t.extended<ndt::tuple_type>();
    std::string c;
    for (intptr_t i = 0; i < p->get_field_count(); ++i) c += (i ? "," : "") + show_ast(p->get_field_type(i));
    return node("tuple", p->is_variadic() ? "1" : "0", "", c);
  }
  case struct_id: {
    const ndt::struct_type *p = t.extended<ndt::struct_type>();
    std::string c, s;
    for (intptr_t i = 0; i < p->get_field_count(); ++i) {
      c += (i ? "," : "") + show_ast(p->get_field_type(i));
      s += (i ? "," : "") + jstr(p->get_field_name(i));
    }
    return node("struct", p->is_variadic() ? "1" : "0", s, c);
  }
  case callable_id: {
    const ndt::callable_type *p = t.extended<ndt::callable_type>();
    return node("callable", "", "", show_ast(p->get_return_type()) + "," + show_ast(p->get_pos_tuple()) + "," +
                show_ast(p->get_kwd_struct()));
  }
  case dim_fragment_id: {
    const ndt::dim_fragment_type *p = t.extended<ndt::dim_fragment_type>();
    std::string n;
    const intptr_t *d = p->get_tagged_dims();
    for (intptr_t i = 0; i < p->get_ndim(); ++i) n += (i ? "," : "") + num(d[i]);
    return node("fragment", n, "", "");
  }
  default: return node(tstr(t), "", "", "");
  }
}

template <class F> static std::string numg(F f) {
  try { return num(f()); } catch (...) { return "-1"; }
}
template <class F> static std::string guarded(F f) {
  try { return f(); } catch (...) { return node("error", "", "", ""); }
}
static std::string b(bool x) { return x ? "1" : "0"; }

// {txt}: the type a text denotes, and the type its printed form denotes
OP(tparse) {
  ndt::type t(c["txt"].str());
  std::string s = tstr(t);
  std::string o = "\"t\":" + show_ast(t) + ",\"s\":" + jstr(s);
  ndt::type t2;
  o += ",\"rt\":" + guarded([&] { t2 = ndt::type(s); return show_ast(t2); });
  o += ",\"eq\":" + b(!t2.is_null() && t2 == t && t == t2 && !(t != t2)) + ",\"s2\":" + jstr(tstr(t2));
  o += ",\"size\":" + num(t.get_data_size()) + ",\"dsize\":" + numg([&] { return t.get_default_data_size(); }) + ",\"align\":" +
       num(t.get_data_alignment()) + ",\"ndim\":" + num(t.get_ndim()) + ",\"sym\":" + b(t.is_symbolic()) + ",\"scalar\":" +
       b(t.is_scalar());
  return o;
}

// {x, y}: equality
OP(teq) {
  ndt::type x(c["x"].str()), y(c["y"].str());
  return "\"x\":" + show_ast(x) + ",\"y\":" + show_ast(y) + ",\"eq\":" + b(x == y) + ",\"qe\":" + b(y == x) + ",\"ne\":" + b(x != y);
}

// {x, n, k, r}: operations on a type; n is at most its number of dimensions, except for dt and td
OP(tat) {
  ndt::type x(c["x"].str());
  intptr_t n = c["n"].num();
  std::string o = "\"x\":" + show_ast(x);
  o += ",\"dt\":" + guarded([&] { return show_ast(x.get_dtype((size_t)n)); });
  o += ",\"td\":" + guarded([&] { return show_ast(x.get_type_at_dimension(NULL, n)); });
  if (n <= x.get_ndim()) {
    o += ",\"wd\":" + guarded([&] { return show_ast(x.with_replaced_dtype(ndt::type(c["r"].str()), n)); });
    o += ",\"wa\":" + guarded([&] { return show_ast(x.with_new_axis(n, c["k"].num())); });
  } else {
    o += ",\"wd\":" + node("error", "", "", "") + ",\"wa\":" + node("error", "", "", "");
  }
  o += ",\"ct\":" + guarded([&] { return show_ast(x.get_canonical_type()); });
  return o;
}

static std::string vars(const std::map<std::string, ndt::type> &m) {
  std::string o;
  for (auto &p : m) o += (o.empty() ? "{\"k\":" : ",{\"k\":") + jstr(p.first) + ",\"t\":" + show_ast(p.second) + "}";
  return "[" + o + "]";
}

// {p, q}: pattern matching
OP(tmatch) {
  ndt::type p(c["p"].str()), q(c["q"].str());
  std::map<std::string, ndt::type> m;
  bool ok = p.match(q, m);
  std::string o = "\"p\":" + show_ast(p) + ",\"q\":" + show_ast(q) + ",\"m\":" + b(ok) + ",\"m2\":" + b(p.match(q));
  o += ",\"vars\":" + (ok ? vars(m) : std::string("[]"));
  o += ",\"sub\":" + (ok ? guarded([&] { return show_ast(ndt::substitute(p, m, false)); }) : node("null", "", "", ""));
  return o;
}

// {p, vars: [[name, type]..], conc}: substitution
OP(tsubst) {
  ndt::type p(c["p"].str());
  std::map<std::string, ndt::type> m;
  for (size_t i = 0; i < c["vars"].size(); ++i) m[c["vars"][i][0].str()] = ndt::type(c["vars"][i][1].str());
  std::string o = "\"p\":" + show_ast(p) + ",\"vars\":" + vars(m);
  return o + ",\"sub\":" + show_ast(ndt::substitute(p, m, c.flag("conc")));
}
