// C09: merge gives the union with the source's values.
#include "tweak.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C09";
char const * RULE = "one case = a target tree and a source tree sharing none, some or all keys at several depths (maps against maps, maps against leaves, nulls), merged (also repeatedly, into an empty target, into itself, from a part of the target and into a part of the source); the result is compared with the recursive union computed on the models, the source with what it was, and changes made later on one side must not show on the other. Non-map sources and targets must be refused with the target unchanged. Non-trivial: at least one merge compared; distinct by the pair.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 600000 : 40000; }
void monitor_setup() {}
}
static Value merged(Value a, Value const & b) {
  if (b.t == T::NOTYPE) return a;
  if (a.t == T::NOTYPE) a = mk(T::MAP);
  for (auto & kv : b.m) {
    Value & d = a.m[kv.first];
    if (d.t == T::MAP && kv.second.t == T::MAP) d = merged(d, kv.second); else d = kv.second;
  }
  return a;
}
static bool mergeable(Value const & a, Value const & b) { return b.t == T::NOTYPE || (b.t == T::MAP && (a.t == T::MAP || a.t == T::NOTYPE)); }
// a map sharing keys with v
static Value related(Ctx & c, Value const & v, Opt const & o, int depth) {
  Value w = mk(T::MAP);
  for (auto & kv : v.m) {
    if (c.r.chance(1, 3)) continue;
    if (kv.second.t == T::MAP && depth < 4 && c.r.chance(3, 4)) w.m[kv.first] = related(c, kv.second, o, depth + 1);
    else if (c.r.chance(1, 4)) w.m[kv.first] = kv.second;
    else w.m[kv.first] = gvalue(c.r, o, 2);
  }
  unsigned n = unsigned(c.r.below(4)); if (depth < 2 && c.r.chance(1, 24)) n += unsigned(c.r.below(c.r.chance(1, 6) ? 300 : 60)); for (unsigned k = 0; k < n; ++k) w.m[gkey(c.r, o)] = gvalue(c.r, o, depth + 1);
  return w;
}
static Value deepmap(Ctx & c, Opt const & o, int depth) {
  Value v = mk(T::MAP); unsigned n = unsigned(c.r.below(5)); if (depth < 2 && c.r.chance(1, 24)) { n += unsigned(c.r.below(c.r.chance(1, 6) ? 300 : 60)); depth = 3; }
  for (unsigned k = 0; k < n; ++k) v.m[gkey(c.r, o)] = depth < 3 && c.r.chance(1, 2) ? deepmap(c, o, depth + 1) : gvalue(c.r, o, 2);
  return v;
}
// two chains of maps, the same keys leading down for most of the way
static void chains(Ctx & c, Opt const & o, Value & a, Value & b) {
  unsigned n = glevels(c.r), split = c.r.chance(2, 3) ? 0 : unsigned(c.r.below(n)); Opt q = o; q.max_depth = 1; q.bigvec = false;
  auto leaf = [&] { if (c.r.chance(1, 2)) return gvalue(c.r, q, 1); Value m = mk(T::MAP); unsigned k = unsigned(c.r.below(4)); while (k--) m.m[gkey(c.r, q)] = gvalue(c.r, q, 1); return m; };
  a = leaf(); b = c.r.chance(1, 4) ? a : leaf();
  for (unsigned k = n; k--;) {
    Value x = mk(T::MAP), y = mk(T::MAP); string key = c.r.chance(1, 2) ? gkey(c.r, q) : "down";
    x.m[key] = a; y.m[k == split && split ? key + "'" : key] = b;
    for (unsigned w = 0; w < 2; ++w) if (c.r.chance(1, 3)) { string s = "s" + std::to_string(c.r.below(3)); if (c.r.chance(2, 3)) x.m[s] = gvalue(c.r, q, 1); if (c.r.chance(2, 3)) y.m[s] = gvalue(c.r, q, 1); }
    a = std::move(x); b = std::move(y);
  }
}
void H::run_case(Ctx & c) {
  Opt o; o.max_depth = 3; o.bigvec = c.r.chance(1, 16);
  Value a = c.r.chance(5, 6) ? deepmap(c, o, 0) : c.r.chance(1, 2) ? Value() : gvalue(c.r, o);
  Value b = a.t == T::MAP && c.r.chance(5, 6) ? related(c, a, o, 0) : c.r.chance(1, 2) ? deepmap(c, o, 0) : gvalue(c.r, o);
  if (c.r.chance(1, 100)) { chains(c, o, a, b); c.count("deep_chains"); }
  c.mark(hash(a)); c.mark(hash(b));
  unsigned mode = unsigned(c.r.below(8));
  if (mode < 6) {
    Gc ga, gb; build(ga, a); build(gb, b);
    c.log("target " + show(a)); c.log("source " + show(b));
    bool t = throws([&] { ga.merge(gb, "where"); });
    REQ(t == !mergeable(a, b), t ? "merge-refused" : "merge-accepted", "merge of " << show(b) << " into " << show(a) << (t ? " threw" : " did not throw"));
    Value want = t ? a : merged(a, b);
    string d = diff(observe(ga), want); REQ(d.empty(), t ? "refused-merge-changed-target" : "wrong-union", "merge of " << show(b) << " into " << show(a) << ": " << d << " (expected on the right)");
    d = diff(observe(gb), b); REQ(d.empty(), "source-changed", "merge changed the source: " << d);
    c.count("merges"); if (t) c.count("refused");
    if (!t) {
      // independence, both ways
      if (c.r.chance(1, 2)) { Value x = want; tweak(c.r, x, o); build(gb, x); d = diff(observe(ga), want); REQ(d.empty(), "shared-storage", "a change of the source shows in the target: " << d); }
      else { ga.clear(); d = diff(observe(gb), b); REQ(d.empty(), "shared-storage", "clearing the target changed the source: " << d); build(ga, want); }
      if (c.r.chance(1, 2) && want.t == T::MAP) { // once more
        Value e = related(c, want, o, 0); Gc ge; build(ge, e); ga.merge(ge, "again"); want = merged(want, e);
        d = diff(observe(ga), want); REQ(d.empty(), "wrong-union", "second merge: " << d); c.count("merges");
      }
    }
  } else if (a.t == T::MAP) {
    // overlapping: itself, from a part, into a part
    Gc g; build(g, a); c.log("tree " + show(a));
    string sub; for (auto & kv : a.m) if (kv.second.t == T::MAP && c.r.chance(2, 3)) { sub = kv.first; break; }
    bool has = a.m.count(sub) && a.m[sub].t == T::MAP;
    if (mode == 6 && has) { Value want = merged(a, a.m[sub]); c.log("merge of the part " + quote(sub) + " into the whole"); g.merge(g(sub), "w"); string d = diff(observe(g), want); REQ(d.empty(), "wrong-union", "merge of a part of " << show(a) << " into the whole: " << d); }
    else if (mode == 7 && has) { Value want = a; want.m[sub] = merged(a.m[sub], a); c.log("merge of the whole into the part " + quote(sub)); g(sub).merge(g, "w"); string d = diff(observe(g), want); REQ(d.empty(), "wrong-union", "merge of " << show(a) << " into its part: " << d); }
    else { g.merge(g, "w"); string d = diff(observe(g), a); REQ(d.empty(), "wrong-union", "merge of " << show(a) << " with itself: " << d); }
    c.count("overlapping_merges");
  }
  if (c.idx % 1500 < 2) c.sample = show(b, 150) + " into " + show(a, 150);
}
