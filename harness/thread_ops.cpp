// References and calls shared by threads.
#include "driver.hpp"
#include <dynd/functional.hpp>
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/types/base_type.hpp>
#include <dynd/irange.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/json_formatter.hpp>
#include <atomic>
#include <set>
#include <thread>
#include <unistd.h>

using namespace dynd;
nd::callable fn_named(const std::string &n);
nd::array build_array(const J &a);

static std::atomic<long> g_objects(0); // objects of the kinds below that exist

// a meeting point of a fixed number of threads
struct meeting {
  const int n;
  std::atomic<int> here, round;
  meeting(int n) : n(n), here(0), round(0) {}
  void wait() {
    int r = round.load();
    if (++here == n) { here = 0; ++round; return; }
    for (int i = 0; round.load() == r; ++i) if (i > 2000) std::this_thread::yield();
  }
};

// ---- objects that are counted
struct counted_type : ndt::base_type {
  counted_type() : base_type(tuple_id, 1, 1, type_flag_none, 0, 0, 0) { ++g_objects; }
  ~counted_type() { --g_objects; }
  void print_type(std::ostream &o) const { o << "counted"; }
  bool operator==(const base_type &rhs) const { return this == &rhs; }
};
struct counted_fn {
  counted_fn() { ++g_objects; }
  counted_fn(const counted_fn &) { ++g_objects; }
  ~counted_fn() { --g_objects; }
  int operator()(int x) const { return x + 1; }
};
static void gone(void *p) { *(volatile int *)p = -1; delete (int *)p; --g_objects; }
static nd::memory_block new_block() {
  int *p = new int(41);
  ++g_objects;
  return nd::make_memory_block<nd::external_memory_block>(p, &gone);
}

template <typename T> struct kind;
template <> struct kind<nd::memory_block> {
  static nd::memory_block make() { return new_block(); }
  static long count(const nd::memory_block &x) { return x->get_use_count(); }
  static long use(const nd::memory_block &x) { return 1 + *(volatile int *)static_cast<nd::external_memory_block *>(x.get())->m_object; }
  static nd::memory_block view(const nd::memory_block &x) { return x; }
};
template <> struct kind<nd::array> {
  static nd::array make() {
    nd::memory_block b = new_block();
    int *p = (int *)static_cast<nd::external_memory_block *>(b.get())->m_object;
    nd::array a = nd::make_array(ndt::type("1 * int32"), (char *)p, b, nd::read_access_flag);
    fixed_dim_type_arrmeta *md = reinterpret_cast<fixed_dim_type_arrmeta *>(a->metadata());
    md->dim_size = 1;
    md->stride = 0;
    return a;
  }
  static long count(const nd::array &x) { return x->get_use_count(); }
  static long use(const nd::array &x) { return x(0).as<int>() + 1; }
  static nd::array view(const nd::array &x) { return x(irange(0, 1)); }
};
template <> struct kind<ndt::type> {
  static ndt::type make() { return ndt::type(new counted_type(), false); }
  static long count(const ndt::type &x) { return x.extended()->get_use_count(); }
  static long use(const ndt::type &x) { return tstr(x) == "counted" ? 42 : 0; }
  static ndt::type view(const ndt::type &x) { return x; }
};
template <> struct kind<nd::callable> {
  static nd::callable make() { return nd::functional::apply(counted_fn()); }
  static long count(const nd::callable &x) { return intrusive_ptr_use_count(x.get()); }
  static long use(const nd::callable &x) { return x(41).as<int>(); }
  static nd::callable view(const nd::callable &x) { return x; }
};

template <typename T>
static std::string refs(const J &c) {
  const size_t n = c["p"].size();
  const long reps = c["reps"].num();
  const bool keep = c.flag("keep");
  std::vector<std::vector<T>> own(n);
  std::vector<std::string> said(n);
  for (auto &o : own) o.reserve(64);
  std::set<std::string> seen;
  meeting m(n + 1);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < n; ++t)
    ts.emplace_back([&, t]() {
      const std::string prog = c["p"][t].s;
      for (long k = 0; k < reps; ++k) {
        m.wait();
        std::vector<T> &o = own[t];
        long out[64], no = 0;
        for (char x : prog) switch (x) {
          case 'c': o.push_back(o.back()); break;
          case 'r': o.pop_back(); break;
          case 'v': o.push_back(kind<T>::view(o.back())); break;
          case 'n': out[no++] = kind<T>::count(o.back()); break;
          case 'u': try { out[no++] = kind<T>::use(o.back()); } catch (...) { out[no++] = -2; } break;
          case 'h': for (int i = 0; i < 300; ++i) { T tmp(o.back()); (void)tmp; } break;
          default: throw std::logic_error("driver: program");
          }
        m.wait();
        said[t] = "[";
        for (long i = 0; i < no; ++i) said[t] += (i ? "," : "") + std::to_string(out[i]);
        said[t] += "]";
        m.wait();
      }
    });
  for (long k = 0; k < reps; ++k) {
    long before = g_objects;
    T mine = kind<T>::make();
    long held = g_objects - before;
    for (size_t t = 0; t < n; ++t) { own[t].clear(); own[t].push_back(mine); }
    if (!keep) mine = T();
    m.wait();
    m.wait();
    m.wait();
    // what is left
    const T *p = keep ? &mine : nullptr;
    for (auto &o : own) if (!o.empty()) p = &o.back();
    long left = p ? kind<T>::count(*p) : 0;
    long alive = g_objects - before == held ? 1 : g_objects - before == 0 ? 0 : 9;
    for (auto &o : own) o.clear();
    mine = T();
    std::string s = "{\"n\":[";
    for (size_t t = 0; t < n; ++t) s += (t ? "," : "") + said[t];
    s += "],\"left\":" + std::to_string(left) + ",\"alive\":" + std::to_string(alive) + ",\"after\":" + std::to_string(g_objects - before) + "}";
    if (seen.size() < 40) seen.insert(s);
  }
  for (auto &t : ts) t.join();
  std::string r = "\"outs\":[";
  for (auto it = seen.begin(); it != seen.end(); ++it) r += (it == seen.begin() ? "" : ",") + *it;
  return r + "]";
}

OP(refs) {
  alarm(240);
  const std::string &k = c["kind"].s;
  if (k == "block") return refs<nd::memory_block>(c);
  if (k == "array") return refs<nd::array>(c);
  if (k == "type") return refs<ndt::type>(c);
  if (k == "callable") return refs<nd::callable>(c);
  throw std::logic_error("driver: kind " + k);
}

// Lists of commands, by themselves and at the same time. Says how many answers there were and which were not the
// same ones.
OP(together) {
  alarm(240);
  const J s = jparse(c["seqs"].str());
  const size_t n = s.size();
  const long reps = c["reps"].num();
  std::vector<std::vector<std::string>> alone(n);
  for (size_t t = 0; t < n; ++t)
    for (const J &x : s[t].a) alone[t].push_back(run_op(x));
  meeting m(n);
  std::vector<std::string> odd(n), fail(n);
  std::vector<long> count(n);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < n; ++t)
    ts.emplace_back([&, t]() {
      for (long k = 0; k < reps; ++k) {
        m.wait();
        for (size_t i = 0; i < s[t].size(); ++i) {
          try {
            std::string r = run_op(s[t][i]);
            ++count[t];
            if (r != alone[t][i] && odd[t].empty())
              odd[t] = "{\"t\":" + std::to_string(t) + ",\"i\":" + std::to_string(i) + ",\"r\":{" + r + "},\"alone\":{" + alone[t][i] + "}}";
          } catch (const std::exception &e) { fail[t] = e.what(); }
        }
      }
    });
  for (auto &t : ts) t.join();
  std::string r;
  long total = 0;
  for (size_t t = 0; t < n; ++t) {
    if (!fail[t].empty()) throw std::logic_error(fail[t]);
    total += count[t];
    if (!odd[t].empty()) r += (r.empty() ? "" : ",") + odd[t];
  }
  return "\"n\":" + std::to_string(total) + ",\"odd\":[" + r + "]";
}

// ---- calls made ready once and then made many times by all threads
static int o1(int x) { return 7 * x + 1; }
static int o2(int x, int y) { return 10 * x + y; }
static int o3(int x, int y, int z) { return 100 * x + 10 * y + z; }
static std::function<std::string()> ready(const J &x) {
  const std::string k = x["k"].str();
  auto said = [](const nd::array &r) { return tstr(r.get_type()) + "=" + show_value(r.get_type(), r->metadata(), r.cdata()); };
  if (k == "type") {
    std::string s = x["s"].str();
    return [s] { return tstr(ndt::type(s)); };
  }
  if (k == "json") {
    ndt::type t(x["tp"].str());
    std::string s = x["s"].str();
    return [=] { nd::array r = nd::empty(t); parse_json(r, s, &eval::default_eval_context); return said(r) + format_json(r).as<std::string>(); };
  }
  std::vector<nd::array> args;
  for (auto &y : x["args"].a) args.push_back(build_array(y));
  if (k == "assign") {
    ndt::type t(x["tp"].str());
    return [=] { nd::array r = nd::empty(t); r.assign(args[0]); return said(r); };
  }
  if (k == "part") {
    long i = x["i"].num();
    return [=] { nd::array r = args[0](irange(i, irange().finish()), 0); return said(r) + said(args[0](i)); };
  }
  nd::callable f = k == "outer" ? nd::functional::outer(args.size() == 1 ? nd::functional::apply(&o1) : args.size() == 2 ? nd::functional::apply(&o2) : nd::functional::apply(&o3))
                                : fn_named(x["f"].str());
  std::vector<std::string> names;
  std::vector<nd::array> kv;
  if (x.has("kw"))
    for (auto &y : x["kw"].a) { names.push_back(y[0].str()); kv.push_back(build_array(y[1])); }
  return [=] {
    std::vector<nd::array> as(args);
    std::vector<std::pair<const char *, nd::array>> kw;
    for (size_t i = 0; i < names.size(); ++i) kw.emplace_back(names[i].c_str(), kv[i]);
    nd::callable g(f);
    return said(g.call(as.size(), as.data(), kw.size(), kw.data()));
  };
}
static std::string answer(const std::function<std::string()> &f) {
  try { return f(); }
  catch (const std::exception &e) { return "std"; }
  catch (const dynd_exception &e) { return "dynd"; }
}
OP(burst) {
  alarm(240);
  const J s = jparse(c["seqs"].str());
  const size_t n = s.size();
  const long reps = c["reps"].num();
  std::vector<std::vector<std::function<std::string()>>> fs(n);
  std::vector<std::vector<std::string>> alone(n);
  for (size_t t = 0; t < n; ++t) {
    if (t > 0 && c.flag("same")) { fs[t] = fs[0]; alone[t] = alone[0]; continue; }
    for (const J &x : s[t].a) fs[t].push_back(ready(x));
    for (auto &f : fs[t]) alone[t].push_back(answer(f));
  }
  meeting m(n);
  std::vector<std::string> odd(n);
  std::vector<long> count(n);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < n; ++t)
    ts.emplace_back([&, t]() {
      for (long k = 0; k < reps; ++k) {
        if (k % 16 == 0) m.wait();
        for (size_t i = 0; i < fs[t].size(); ++i) {
          std::string r = answer(fs[t][i]);
          ++count[t];
          if (r != alone[t][i] && odd[t].empty())
            odd[t] = "{\"t\":" + std::to_string(t) + ",\"i\":" + std::to_string(i) + ",\"r\":" + jstr(r) + ",\"alone\":" + jstr(alone[t][i]) + "}";
        }
      }
    });
  for (auto &t : ts) t.join();
  std::string r;
  long total = 0, good = 0;
  for (size_t t = 0; t < n; ++t) {
    total += count[t];
    for (auto &x : alone[t]) good += x != "std" && x != "dynd";
    if (!odd[t].empty()) r += (r.empty() ? "" : ",") + odd[t];
  }
  return "\"n\":" + std::to_string(total) + ",\"good\":" + std::to_string(good) + ",\"odd\":[" + r + "]";
}
