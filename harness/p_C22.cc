// C22: separate containers, and const access to a shared one, across threads (ThreadSanitizer).
#include "ops.hh"
#include "codec.hh"
#include <thread>
#include <atomic>
#include <locale>
#include <exception>
using namespace G;
namespace H {
char const * PROPERTY = "C22";
char const * RULE = "one case = 2..6 threads released together; each runs a history of its own (operations of the whole C++ interface on private containers, JSON/YAML/TOML writing and reading, serialisation, tables, C++ exceptions) interleaved with const operations on one container shared by all (typed reads, look-ups, comparison, printing, copying from it, merging it into a private one, serialising, writing as JSON/YAML/TOML), with random yields and pauses; ThreadSanitizer watches every access and the digest of each thread's results is compared with that of the same history run alone; the shared container must be unchanged. In the first case of each process nothing was called before the threads start, so that first-use initialisation is concurrent. Non-trivial: all threads ended; distinct by history and observed interleaving.";
bool LEAK_CHECK = false;
unsigned CPU_LIMIT_S = 600;
uint64_t default_cases(bool t) { return t ? 80000 : 4000; }
void monitor_setup() {
  // the caches inside the facets of the C++ library are filled before any thread runs
  auto & ct = std::use_facet<std::ctype<char>>(std::locale()); for (int k = 0; k < 256; ++k) { (void)ct.widen(char(k)); (void)ct.narrow(char(k), '?'); }
}
}
static std::atomic<bool> go{false};
static Gc const & cnode(Rng & r, Gc const & g) {
  Gc const * p = &g;
  for (int d = 0; d < 6; ++d) {
    if (r.chance(1, 3)) return *p;
    if (p->get_type() == T::VECTOR && !p->get_vector().empty()) p = &p->get_vector()[r.below(p->get_vector().size())];
    else if (p->get_type() == T::MAP && !p->get_map().empty()) { auto it = p->get_map().begin(); std::advance(it, long(r.below(p->get_map().size()))); p = &it->second; }
    else return *p;
  }
  return *p;
}
constexpr unsigned NCONST = 52;
static void const_op(Rng & r, unsigned op, Gc const & k, Gc const & root, Dig & d) {
  Opt o; auto txt = [&](auto f) { std::ostringstream s; s.precision(17); f(s); d.add(s.str()); };
  unsigned i = anidx(r, k), j = unsigned(r.below(4)), i2 = unsigned(r.below(4)); string key = akey(r, k, o);
  switch (op) {
  case 0: txt([&](auto & s) { k.info(s); }); break;
  case 1: d.add(uint64_t(k.get_num_elements())); d.add(uint64_t(k.num_rows())); d.add(uint64_t(k.num_cols())); d.add(string(k.get_type_name())); break;
  case 2: d.add(k.get_number()); break;
  case 3: d.add(k.get_complex_number()); break;
  case 4: { int32_t x; k.get_value(x); d.one(x); break; }
  case 5: { uint32_t x; k.get_value(x); d.one(x); break; }
  case 6: { int64_t x; k.get_value(x); d.one(x); break; }
  case 7: { float x; k.get_value(x); d.add(double(x)); break; }
  case 8: { double x; k.get_value(x); d.add(x); break; }
  case 9: d.one(k.get_map_bool(key)); break;
  case 10: d.one(k.get_map_int(key)); break;
  case 11: d.one(k.get_map_number(key)); break;
  case 12: d.one(string(k.get_map_string(key))); break;
  case 13: if (k.get_type() == T::MAP && k.exists(key) && k(std::string_view(key), "w").get_type() == T::VEC_REAL) d.vec(k.get_map_vec_real(key)); break; // narrower entries are widened in place: known finding of C06
  case 14: d.vec(k.get_map_vec_string(key)); break;
  case 15: d.one(k.exists(key)); d.one(k.exists(keys_(r, k, o))); break;
  case 16: d.one(k.must_exists(keys_(r, k, o), "w")); break;
  case 17: { bool b = false; int32_t x = 0; double re = 0; cplx z = 0; string s; d.one(k.get_if_exists(std::string_view(key), b)); d.one(k.get_if_exists(std::string_view(key), x)); d.one(k.get_if_exists(std::string_view(key), re)); d.one(k.get_if_exists(std::string_view(key), z)); d.one(k.get_if_exists(std::string_view(key), s)); d.one(b); d.one(x); d.one(re); d.one(z); d.one(s); break; }
  case 18: txt([&](auto & s) { k.print_content_types(s); }); break;
  case 19: txt([&](auto & s) { k.dump(s); }); break;
  case 20: d.add(k.compare_content(root)); d.add(root.compare_content(root)); break;
  case 21: { vector<uint8_t> b(size_t(k.mem_size())); d.add(uint64_t(k.serialize(b))); d.raw(b.data(), b.size()); break; }
  case 22: { Gc t(k); d.add(hash(observe(t))); t.clear(); break; }
  case 23: { Gc t; k.to_gc(t); d.add(hash(observe(t))); break; }
  case 24: { Gc t; t.load(k); Gc u; u = k; d.add(hash(observe(t))); d.add(u.compare_content(k)); break; }
  case 25: { Gc t; t["own"] = 1; t.merge(k, "w"); d.add(hash(observe(t))); break; }
  case 26: { Gc t(k); t.collapse(); d.add(hash(observe(t))); break; }
  case 27: { vector<int32_t> w; k.copyto_vec_int(w); d.vec(w); break; }
  case 28: { vector<int64_t> w; k.copyto_vec_long(w); d.vec(w); break; }
  case 29: { vector<double> w; k.copyto_vec_real(w); d.vec(w); break; }
  case 30: { vector<cplx> w; k.copyto_vec_complex(w); d.vec(w); break; }
  case 31: { vector<string> w; k.copyto_vec_string(w); d.vec(w); break; }
  case 32: { Gc::mat_real_type w; k.copyto_mat_real(w); d.vec(w); break; }
  case 33: { Gc::mat_complex_type w; k.copyto_mat_complex(w); d.vec(w); break; }
  case 34: d.add(k.get_number_at(i)); break;
  case 35: d.add(k.get_complex_number_at(i)); break;
  case 36: d.one(k.get_int_at(i, "w")); break;
  case 37: d.one(k.get_real_at(i, "w")); break;
  case 38: d.one(string(k.get_string_at(i, "w"))); break;
  case 39: d.one(k.get_real_at(i2, j, "w")); break;
  case 40: d.add(uint64_t(k[i].get_type())); break;
  case 41: d.add(uint64_t(k(std::string_view(key), "w").get_type())); break;
  case 42: d.add(uint64_t(k[std::string_view(key)].get_type())); break;
  case 43: d.add(k.get_keys()); { vector<string> w; k.get_keys(w); d.vec(w); } break;
  case 44: txt([&](auto & s) { k.to_json(s); }); break;
  case 45: txt([&](auto & s) { k.to_yaml(s); }); break;
  case 46: txt([&](auto & s) { k.to_toml(s); }); break;
  case 47: { std::ostringstream s; k.to_json(s); std::istringstream is(s.str()); Gc t; d.one(t.from_json(is)); d.add(hash(observe(t))); break; }
  case 48: { std::ostringstream s; root.to_yaml(s); std::istringstream is(s.str()); Gc t; d.one(t.from_yaml(is)); d.add(hash(observe(t))); break; }
  case 49: { std::ostringstream s; if (!root.to_toml(s)) break; std::istringstream is(s.str()); Gc t; d.one(t.from_toml(is)); d.add(hash(observe(t))); break; }
  case 50: d.add(hash(observe(k))); break;
  default: { std::ostringstream s; k.to_json(s); std::istringstream is(s.str()); Gc t; d.one(t.from_json2(is)); d.add(hash(observe(t))); break; }
  }
}
// tables: columns written and read
static void table_op(Rng & r, Dig & d) {
  Gc g; auto & h = g["headers"].set_vec_string(); Gc & data = g["data"]; auto & v = data.set_vector();
  unsigned nc = 1 + unsigned(r.below(3)), nr = unsigned(r.below(5)); v.resize(nc);
  for (unsigned k = 0; k < nc; ++k) { h.push_back("c" + std::to_string(k)); auto & w = v[k].set_vec_real(); for (unsigned q = 0; q < nr; ++q) w.push_back(double(r.range(-50, 50)) / 4); }
  std::ostringstream a, b; g["headers"]; GC_namespace::write_table(h, v, a); GC_namespace::write_table_formatted(h, v, b); d.add(a.str()); d.add(b.str());
  Gc t; std::istringstream is(a.str()); t.readFormattedData(is, "#", "\t "); d.add(hash(observe(t)));
}
struct Out { uint64_t dig = 0; uint64_t ops = 0, threw = 0, shared = 0; string error; vector<uint32_t> seq; };
static std::atomic<uint32_t> clock_{0};
static Out history(Rng r, Gc const & shared, bool pauses, unsigned len, bool all) {
  Out out; Dig d; Opt o; o.max_depth = 2; o.utf8 = true;
  vector<std::unique_ptr<Gc>> pool; for (int k = 0; k < 2; ++k) pool.push_back(std::make_unique<Gc>());
  unsigned start = unsigned(r.below(NCONST)), start2 = unsigned(r.below(NOPS));
  try {
    for (unsigned s = 0; s < len; ++s) {
      out.seq.push_back(clock_.fetch_add(1, std::memory_order_relaxed));
      unsigned w = unsigned(r.below(5)); uint64_t pz = r.next();
      if (pauses) { if (pz % 4 == 0) std::this_thread::yield(); else if (pz % 61 == 0) std::this_thread::sleep_for(std::chrono::microseconds(pz / 64 % 300)); }
      try {
        if (w < 2) { ++out.shared; const_op(r, all ? (start + s) % NCONST : unsigned(r.below(NCONST)), cnode(r, shared), shared, d); }
        else if (w < 4) {
          for (auto & p : pool) if (nodes(*p, 400) > 150 || height(*p) > 12) p->clear();
          size_t ia = r.below(2), ib = r.below(2); string pa, pb; Gc & a = node(r, *pool[ia], pa); Gc & b = node(r, *pool[ib], pb);
          unsigned op = all ? (start2 + s) % NOPS : unsigned(r.below(NOPS)); do_op(r, op, a, b, d, o);
        } else {
          Gc & p = *pool[r.below(2)];
          switch (r.below(4)) { case 0: table_op(r, d); break; case 1: const_op(r, 44 + unsigned(r.below(8)), cnode(r, p), p, d); break; default: const_op(r, unsigned(r.below(NCONST)), cnode(r, p), p, d); }
        }
        ++out.ops;
      } catch (Violation const &) { throw; } catch (std::exception const &) { d.add(uint64_t(99)); ++out.threw; }
    }
    for (auto & p : pool) d.add(hash(observe(*p)));
  } catch (Violation const & v) { out.error = v.key + ": " + v.msg; }
  out.dig = d.h; return out;
}
void H::run_case(Ctx & c) {
  static bool first = true; bool all = first || c.r.chance(1, 10); 
  Opt o; o.max_depth = 3; o.utf8 = true; o.nul = false; o.pointers = false;
  Value sv = gtyped(c.r, T::MAP, o); sv.m["k"] = gtyped(c.r, T::VECTOR, o, 1); sv.m["num"] = R(2.5); sv.m["vr"] = VR({1, 2, 3}); sv.m["s"] = S("text"); sv.m["m"] = gtyped(c.r, T::MAT_REAL, o); sv.m["x"] = gvalue(c.r, o, 1);
  Gc shared; build(shared, sv);
  unsigned nt = 2 + unsigned(c.r.below(5)), len = all ? 220 : 30 + unsigned(c.r.below(60));
  vector<Rng> seeds; for (unsigned k = 0; k < nt; ++k) seeds.push_back(Rng(c.r.next()));
  if (c.r.chance(1, 4)) for (unsigned k = 1; k < nt; ++k) seeds[k] = seeds[0]; // the same history in every thread
  c.log(STR(nt << " threads, " << len << " operations each, shared " << show(sv, 300)));
  vector<Out> outs(nt); vector<std::thread> th; go = false; std::atomic<unsigned> ready{0}; clock_ = 0;
  for (unsigned k = 0; k < nt; ++k) th.emplace_back([&, k] { ready.fetch_add(1, std::memory_order_relaxed); while (!go.load(std::memory_order_relaxed)) std::this_thread::yield(); outs[k] = history(seeds[k], shared, true, len, all); });
  while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
  go.store(true, std::memory_order_relaxed);
  for (auto & t : th) t.join();
  first = false;
  uint64_t inter = 0; { vector<std::pair<uint32_t, unsigned>> s; for (unsigned k = 0; k < nt; ++k) for (auto x : outs[k].seq) s.push_back({x, k}); std::sort(s.begin(), s.end()); unsigned sw = 0; for (size_t k = 0; k < s.size(); ++k) { inter = mix64(inter ^ s[k].second); if (k && s[k].second != s[k - 1].second) ++sw; } c.count("thread_switches_observed", sw); }
  for (unsigned k = 0; k < nt; ++k) {
    REQ(outs[k].error.empty(), "thread-failed", "thread " << k << ": " << outs[k].error);
    Out alone = history(seeds[k], shared, false, len, all);
    REQ(alone.error.empty(), "thread-failed", "alone: " << alone.error);
    REQ(alone.dig == outs[k].dig, "result-differs", "thread " << k << " of " << nt << " got other results than the same operations run alone");
    c.count("threads_compared"); c.count("operations", outs[k].ops); c.count("operations_that_threw", outs[k].threw); c.count("shared_const_operations", outs[k].shared);
    c.mark(outs[k].dig);
  }
  REQ(same(observe(shared), sv), "shared-changed", "const operations changed the shared container: " << diff(observe(shared), sv));
  c.mark(inter); c.sample = STR(nt << " threads x " << len << " operations, " << outs[0].ops << " returned in the first, shared " << show(sv, 200));
}
