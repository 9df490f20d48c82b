// C02: copies are complete and independent; assignment replaces everything.
#include "ops.hh"
#include "tweak.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C02";
char const * RULE = "one case = a random source tree copied by a random route (copy constructor, operator=, load, from_gc, to_gc, insertion into a vector or map, setter given the container's own data) into a target with random previous contents, or within one tree between overlapping nodes (whole to part, part to whole, part to part, self); then random mutations of one side while the other is re-read. Non-trivial: a copy was made and compared; distinct by (route, relation, source, previous target).";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 400000 : 80000; }
void monitor_setup() {}
}
static char const * assign(Ctx & c, Gc & to, Gc const & from) {
  switch (c.r.below(4)) {
  case 0: to = from; return "operator=";
  case 1: to.load(from); return "load";
  case 2: to.from_gc(from); return "from_gc";
  default: from.to_gc(to); return "to_gc";
  }
}
static void mutate(Ctx & c, Gc & g) {
  Opt o; o.max_depth = 3;
  unsigned n = 1 + unsigned(c.r.below(5));
  for (unsigned k = 0; k < n; ++k) {
    string path = "$"; Gc & x = node(c.r, g, path);
    // mutating operations only (self-contained ones)
    static const unsigned ops[] = {0, 1, 2, 3, 8, 9, 13, 14, 15, 16, 17, 19, 31, 32, 64, 66, 67, 68, 70, 87, 88, 90, 91, 92, 101, 110, 112, 124, 133, 137, 138, 139};
    unsigned op = ops[c.r.below(sizeof ops / sizeof *ops)];
    Dig d; string nm = "threw";
    try { nm = do_op(c.r, op, x, x, d, o); } catch (std::exception const &) {}
    c.log("  mutate " + path + ": op " + std::to_string(op) + " " + nm);
    c.count("mutations");
  }
}
void H::run_case(Ctx & c) {
  Opt o; o.deep = true; o.huge = 1500; o.max_depth = 4;
  unsigned mode = unsigned(c.idx % 4);
  if (mode <= 1) {
    // source -> separate target
    Value sv = c.idx % 8 < 2 ? gtyped(c.r, T((c.idx / 8) % NT), o) : gvalue(c.r, o), tv = c.idx % 8 < 2 ? gtyped(c.r, T((c.idx / 8 / NT) % NT), o) : gvalue(c.r, o);
    if (c.r.chance(1, 20)) some_zeros(c.r, sv);
    if (c.r.chance(1, 3)) tv = grelated(c.r, sv, o);
    auto src = std::make_unique<Gc>(), dst = std::make_unique<Gc>();
    build(*src, sv); build(*dst, tv);
    c.log("source " + show(sv)); c.log("target held " + show(tv));
    string route; Gc * copy = dst.get(); std::unique_ptr<Gc> holder;
    switch (c.r.below(8)) {
    case 0: dst = std::make_unique<Gc>(*src); copy = dst.get(); route = "copy constructor"; break;
    case 1: { auto & v = dst->set_vector(); v.push_back(*src); copy = &v.back(); route = "push_back into a vector"; break; }
    case 2: { (*dst)["k"] = *src; copy = &(*dst)["k"]; route = "assignment to a map entry"; break; }
    case 3: { std::vector<Gc> vv(3, *src); vv.reserve(20); vv.push_back(*src); *dst = vv[c.r.below(4)]; route = "through a std::vector"; break; }
    default: route = assign(c, *dst, *src); break;
    }
    c.log("copy by " + route);
    string e = diff(observe(*copy), sv);
    REQ(e.empty(), "copy-differs", "copy by " << route << " over " << show(tv, 150) << ": " << e);
    e = diff(observe(*src), sv);
    REQ(e.empty(), "source-changed", "copy by " << route << " changed the source: " << e);
    c.count("copies_compared"); c.count(("route " + route).c_str());
    // independence: change one side, the other must not move
    if (c.r.chance(1, 2)) { mutate(c, *copy); e = diff(observe(*src), sv); REQ(e.empty(), "shared-storage", "a change of the copy is visible in the source: " << e); if (c.r.chance(1, 3)) { dst.reset(); e = diff(observe(*src), sv); REQ(e.empty(), "shared-storage", "destroying the copy changed the source: " << e); } }
    else { mutate(c, *src); e = diff(observe(*copy), sv); REQ(e.empty(), "shared-storage", "a change of the source is visible in the copy: " << e); if (c.r.chance(1, 3)) { src.reset(); e = diff(observe(*copy), sv); REQ(e.empty(), "shared-storage", "destroying the source changed the copy: " << e); } }
    c.count("independence_checked");
    c.mark(hash(sv) ^ mix64(hash(tv))); c.mark(route);
    if (c.idx < 64) c.sample = route + ": " + show(sv, 150) + " over " + show(tv, 100);
  } else if (mode == 2) {
    // aliasing inside one tree
    o.max_depth = 4; o.max_kids = 4;
    Value v = gtyped(c.r, c.r.chance(1, 2) ? T::VECTOR : T::MAP, o);
    auto g = std::make_unique<Gc>(); build(*g, v);
    c.log("tree " + show(v));
    string p1 = "$", p2 = "$";
    Gc * a = &node(c.r, *g, p1); Gc * b = &node(c.r, *g, p2);
    if (c.r.chance(1, 4)) { a = g.get(); p1 = "$"; }
    if (c.r.chance(1, 4)) { b = g.get(); p2 = "$"; }
    if (c.r.chance(1, 8)) { b = a; p2 = p1; }
    // relation between the two nodes
    auto prefix = [](string const & x, string const & y) { return y.compare(0, x.size(), x) == 0; };
    string rel = p1 == p2 ? "self" : prefix(p1, p2) ? "part to whole" : prefix(p2, p1) ? "whole to part" : "part to part";
    Value want = observe(*b);
    string route = assign(c, *a, *b);
    c.log(p1 + " = " + p2 + " by " + route + " (" + rel + ")");
    string e = diff(observe(*a), want);
    REQ(e.empty(), "alias-copy-differs", p1 << " = " << p2 << " (" << rel << ", " << route << "): " << e);
    if (rel == "part to part") { e = diff(observe(*b), want); REQ(e.empty(), "source-changed", p1 << " = " << p2 << ": source changed: " << e); }
    c.count("alias_copies"); c.count(("relation " + rel).c_str());
    c.mark(hash(v)); c.mark(p1 + "=" + p2 + route);
    if (c.idx < 64) c.sample = p1 + " = " + p2 + " (" + rel + ") in " + show(v, 150);
    // untouched parts of the tree
    if (rel == "whole to part" || rel == "part to part") {
      Value after = observe(*g);
      std::function<void(Value &, Value const &)> patch; // replay the assignment on the model
      // walk p1 in the model
      std::function<Value *(Value &, string)> walk = [&](Value & x, string p) -> Value * {
        if (p.empty()) return &x;
        if (p[0] == '[') { size_t q = p.find(']'); return walk(x.v[std::stoul(p.substr(1, q - 1))], p.substr(q + 1)); }
        for (auto & kv : x.m) { string t = "." + quote(kv.first); if (p.compare(0, t.size(), t) == 0) { size_t n = t.size(); if (n == p.size() || p[n] == '.' || p[n] == '[') return walk(kv.second, p.substr(n)); } }
        return nullptr;
      };
      Value m = v; Value * t = walk(m, p1.substr(1));
      if (t) { *t = want; e = diff(after, m); REQ(e.empty(), "neighbour-changed", p1 << " = " << p2 << ": the rest of the tree changed: " << e); c.count("neighbours_checked"); }
    }
    mutate(c, *g);
  } else {
    // setters given the container's own data, and vectors of the standard library copying containers around
    Value v = gtyped(c.r, T(c.r.below(NT)), o);
    Gc g; build(g, v);
    c.log("container " + show(v));
    switch (v.t) {
    case T::COMPLEX: g.set_complex(g.get_complex()); break;
    case T::STRING: if (c.r.chance(1, 2)) g.set_string(g.get_string()); else { Gc const & k = g; g = k.get_string(); } break;
    case T::VEC_POINTER: g.set_vec_pointer(g.get_vec_pointer()); break;
    case T::VEC_BOOL: g = g.get_vec_bool(); break;
    case T::VEC_INTEGER: g = g.get_vec_int(); break;
    case T::VEC_LONG: g = g.get_vec_long(); break;
    case T::VEC_REAL: g = g.get_vec_real(); break;
    case T::VEC_COMPLEX: g = g.get_vec_complex(); break;
    case T::VEC_STRING: g = g.get_vec_string(); break;
    case T::MAT_INTEGER: g = g.get_mat_int(); break;
    case T::MAT_LONG: g = g.get_mat_long(); break;
    case T::MAT_REAL: g = g.get_mat_real(); break;
    case T::MAT_COMPLEX: g = g.get_mat_complex(); break;
    default: g = static_cast<Gc const &>(g); break;
    }
    string e = diff(observe(g), v);
    REQ(e.empty(), "self-store-differs", "storing the container's own data: " << e);
    // a growing vector of containers
    std::vector<Gc> pool; std::vector<Value> vals;
    unsigned n = 2 + unsigned(c.r.below(12));
    for (unsigned k = 0; k < n; ++k) { Value x = gtyped(c.r, T(c.r.below(NT)), o, 3); Gc t; build(t, x); pool.push_back(t); vals.push_back(x); if (c.r.chance(1, 4) && pool.size() > 1) { size_t q = c.r.below(pool.size()); pool.erase(pool.begin() + long(q)); vals.erase(vals.begin() + long(q)); } }
    for (size_t k = 0; k < pool.size(); ++k) { e = diff(observe(pool[k]), vals[k]); REQ(e.empty(), "copy-differs", "element " << k << " of a std::vector of containers: " << e); }
    c.count("self_stores"); c.count("vector_elements_compared", pool.size());
    c.mark(hash(v)); c.mark(n);
  }
}
