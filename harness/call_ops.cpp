// Calls: dispatch over overloads, and the call protocol of callables (spec/CallTrace.tla).
#include "driver.hpp"
#include <dynd/callables/base_callable.hpp>
#include <dynd/callables/call_graph.hpp>
#include <dynd/callables/multidispatch_callable.hpp>
#include <dynd/dispatcher.hpp>
#include <dynd/kernels/base_kernel.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/substitute_typevars.hpp>

using namespace dynd;
std::string show_ast(const ndt::type &t);

// what a probe callable saw in the last call
static struct {
  int resolved = 0, run = 0;
  std::vector<nd::array> given, kwgiven;
  std::string args, kw, dst, tps;
} seen;

static int which(const std::vector<nd::array> &v, const nd::array &a) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i].get() == a.get()) return (int)i + 1;
  return 0;
}

struct probe_kernel : nd::base_kernel<probe_kernel> {
  size_t n;
  int idx;
  probe_kernel(size_t n, int idx) : n(n), idx(idx) {}
  void call(nd::array *dst, const nd::array *src) {
    seen.run++;
    seen.args = "";
    for (size_t i = 0; i < n; ++i) seen.args += (i ? "," : "") + std::to_string(which(seen.given, src[i]));
    seen.dst = std::to_string(which(seen.kwgiven, *dst));
    if (dst->get_type().get_id() == int32_id) *reinterpret_cast<int *>(dst->data()) = idx;
  }
  void single(char *dst, char *const *) {
    seen.run++;
    *reinterpret_cast<int *>(dst) = idx;
  }
};

class probe_callable : public nd::base_callable {
public:
  int idx;
  probe_callable(const ndt::type &tp, int idx) : base_callable(tp), idx(idx) {}
  ndt::type resolve(nd::base_callable *, char *, nd::call_graph &cg, const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp,
                    size_t nkwd, const nd::array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
    seen.resolved++;
    seen.kw = seen.tps = "";
    for (size_t i = 0; i < nsrc; ++i) seen.tps += (i ? "," : "") + show_ast(src_tp[i]);
    for (size_t i = 0; i < nkwd; ++i) {
      int w = kwds[i].is_null() ? -2 : which(seen.kwgiven, kwds[i]);
      // the type of a text has no value of its own for NA: assign_na leaves it empty
      auto na = [](const nd::array &a) {
        if (a.get_type().get_id() != option_id) return false;
        type_id_t v = a.get_type().extended<ndt::option_type>()->get_value_type().get_id();
        if (v == string_id) return reinterpret_cast<const dynd::string *>(a.cdata())->size() == 0;
        if (v == bytes_id) return reinterpret_cast<const dynd::bytes *>(a.cdata())->size() == 0;
        return a.is_na();
      };
      if (w == 0) w = na(kwds[i]) ? -1 : -3;
      seen.kw += (i ? "," : "") + std::to_string(w);
    }
    int k = idx;
    cg.emplace_back([k, nsrc](nd::kernel_builder &kb, kernel_request_t kernreq, char *, const char *, size_t, const char *const *) {
      kb.emplace_back<probe_kernel>(kernreq, nsrc, k);
    });
    return dst_tp.is_symbolic() ? ndt::substitute(dst_tp, tp_vars, true) : dst_tp;
  }
};

template <size_t N>
static std::vector<ndt::type> first_args(const ndt::type &, size_t, const ndt::type *src_tp) {
  return std::vector<ndt::type>(src_tp, src_tp + N);
}

struct reg_base {
  int count = 0;
  std::vector<nd::callable> all;
  virtual ~reg_base() {}
  virtual void start(std::vector<nd::callable> &f) = 0;
  virtual void add(std::vector<nd::callable> &f) = 0;
  virtual const nd::callable &find(const std::vector<ndt::type> &t) = 0;
  virtual nd::callable &fn() = 0;
  virtual size_t size() = 0;
};
template <size_t N>
struct reg_n : reg_base {
  std::unique_ptr<dispatcher<N, nd::callable>> d;
  nd::callable f;
  void start(std::vector<nd::callable> &v) { d.reset(new dispatcher<N, nd::callable>(first_args<N>, v.begin(), v.end())); }
  void add(std::vector<nd::callable> &v) { d->insert(v.begin(), v.end()); }
  const nd::callable &find(const std::vector<ndt::type> &t) { return (*d)(ndt::make_type<int>(), t.size(), t.data()); }
  nd::callable &fn() { return f; }
  size_t size() { return d->end() - d->begin(); }
};
// the same through a callable with overloads
template <size_t N>
struct fun_n : reg_base {
  nd::callable f;
  void start(std::vector<nd::callable> &v) {
    std::vector<ndt::type> any(N, ndt::type("Any"));
    f = nd::make_callable<nd::multidispatch_callable<N>>(ndt::make_type<ndt::callable_type>(ndt::make_type<int>(), any),
                                                         dispatcher<N, nd::callable>(first_args<N>, v.begin(), v.end()));
  }
  void add(std::vector<nd::callable> &v) {
    for (auto &x : v) f->overload(x);
  }
  const nd::callable &find(const std::vector<ndt::type> &t) { return f.specialize(ndt::make_type<int>(), t.size(), t.data()); }
  nd::callable &fn() { return f; }
  size_t size() { return count; }
};
static std::unique_ptr<reg_base> R;

static std::vector<ndt::type> types_of(const J &a) {
  std::vector<ndt::type> t;
  for (size_t i = 0; i < a.size(); ++i) t.push_back(ndt::type(a[i].str()));
  return t;
}
static std::vector<nd::callable> sigs_of(const J &sigs) {
  std::vector<nd::callable> v;
  int n = R->count;
  for (size_t i = 0; i < sigs.size(); ++i)
    v.push_back(nd::make_callable<probe_callable>(ndt::make_type<ndt::callable_type>(ndt::make_type<int>(), types_of(sigs[i])), ++n));
  return v;
}
OP(dnew) {
  int n = c["n"].num();
  if (c.flag("fn"))
    R.reset(n == 1 ? (reg_base *)new fun_n<1> : new fun_n<2>);
  else
    R.reset(n == 1 ? (reg_base *)new reg_n<1> : n == 2 ? (reg_base *)new reg_n<2> : new reg_n<3>);
  std::vector<nd::callable> v = sigs_of(c["sigs"]), none;
  R->start(none);
  try {
    R->start(v);
  } catch (...) { R->start(none); throw; }
  R->count += v.size();
  return "\"n\":" + std::to_string(R->size());
}
OP(dadd) {
  std::vector<nd::callable> v = sigs_of(c["sigs"]);
  R->add(v);
  R->count += v.size();
  return "\"n\":" + std::to_string(R->size());
}
OP(dfind) {
  const nd::callable &f = R->find(types_of(c["tps"]));
  return "\"i\":" + std::to_string(static_cast<probe_callable *>(f.get())->idx);
}
OP(dcall) {
  std::vector<ndt::type> t = types_of(c["tps"]);
  std::vector<nd::array> a;
  for (auto &x : t) a.push_back(nd::empty(x));
  nd::array r = R->fn().call(a.size(), a.data(), 0, nullptr);
  return "\"i\":" + std::to_string(r.as<int>());
}
OP(dcov) {
  ndt::type p(c["p"].str()), q(c["q"].str());
  return "\"m\":" + std::to_string((int)p.match(q));
}

// {sig, args:[types], kw:[[name,type]]}: a call of a probe; "dst" and "dst_tp" are passed as written
OP(pcall) {
  nd::callable f = nd::make_callable<probe_callable>(ndt::type(c["sig"].str()), 7);
  seen.resolved = seen.run = 0;
  seen.given.clear();
  seen.kwgiven.clear();
  seen.args = seen.kw = seen.dst = seen.tps = "";
  std::vector<std::pair<const char *, nd::array>> kw;
  for (auto &t : types_of(c["args"])) seen.given.push_back(nd::empty(t));
  size_t narg = f->get_narg();
  // positional arguments beyond the declared ones count as keyword values
  for (size_t i = narg; i < seen.given.size(); ++i) seen.kwgiven.push_back(seen.given[i]);
  for (size_t i = 0; i < c["kw"].size(); ++i) {
    const J &k = c["kw"][i];
    const std::string &name = k[0].str();
    nd::array v = name == "dst_tp" ? nd::array(ndt::type(k[1].str())) : nd::empty(ndt::type(k[1].str()));
    seen.kwgiven.push_back(v);
    kw.push_back(std::make_pair(name.c_str(), v));
  }
  std::string e, t;
  try {
    nd::array r = f.call(seen.given.size(), seen.given.data(), kw.size(), kw.data());
    t = show_ast(r.get_type());
    if (which(seen.kwgiven, r)) t += ",\"same\":" + std::to_string(which(seen.kwgiven, r));
    else t += ",\"same\":0";
  } catch (std::exception &x) { e = x.what(); if (e.empty()) e = "?"; }
  catch (dynd_exception &x) { e = x.what(); }
  std::string o = "\"err\":" + std::to_string(e.empty() ? 0 : 1) + ",\"res\":" + std::to_string(seen.resolved) + ",\"run\":" + std::to_string(seen.run);
  if (e.empty())
    o += ",\"t\":" + t + ",\"args\":[" + seen.args + "],\"kw\":[" + seen.kw + "],\"dst\":" + seen.dst + ",\"tps\":[" + seen.tps + "]";
  return o;
}
