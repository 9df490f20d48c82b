// C11: binary serialisation round-trips and reports exact sizes.
#include "tweak.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C11";
char const * RULE = "one case = a random tree of all types serialised into an exactly sized heap block (pointer and vector forms), compared in size with mem_size() and the returned count, deserialised (exact block, block with trailing bytes, vector) into containers with other previous contents and compared bit for bit; every shorter destination (all lengths up to 64, then random ones) must throw with nothing written behind its end. Non-trivial: at least one round trip compared; distinct by tree.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 300000 : 16000; }
void monitor_setup() {}
}
// data whose elements take as few bytes as the format allows
static Value gtiny(Rng & r, int depth = 0) {
  Value v; unsigned n = unsigned(r.below(4));
  switch (r.below(depth > 3 ? 4 : 6)) {
  case 0: v = mk(T::VEC_STRING); while (n--) v.vs.push_back(r.chance(1, 9) ? "x" : ""); return v;
  case 1: v = mk(T(int(T::VEC_BOOL) + int(r.below(5)))); return v;
  case 2: case 3: return v;
  case 4: v = mk(T::VECTOR); while (n--) v.v.push_back(gtiny(r, depth + 1)); return v;
  default: v = mk(T::MAP); v.m[""] = gtiny(r, depth + 1); if (r.chance(1, 3)) while (n--) v.m[string(1, char('a' + n))] = gtiny(r, depth + 1); return v;
  }
}
void H::run_case(Ctx & c) {
  Opt o; o.deep = true; o.huge = 600; o.max_depth = 4;
  Value v = c.idx % 61 == 7 ? gtiny(c.r) : c.idx % 251 == 13 ? ghuge(c.r, o, T(int(T::STRING) + int(c.idx / 251 % (NT - unsigned(T::STRING))))) : c.idx % 2 == 0 ? gtyped(c.r, T((c.idx / 2) % NT), o) : gvalue(c.r, o);
  if (c.r.chance(1, 3)) { Value w = mk(c.r.chance(1, 2) ? T::MAP : T::VECTOR); for (int k = 0; k < 3; ++k) { Value x = gvalue(c.r, o, 1); if (w.t == T::MAP) w.m[gkey(c.r, o)] = x; else w.v.push_back(x); } w.t == T::MAP ? (void)(w.m["v"] = v) : w.v.push_back(v); v = w; }
  Gc g; build(g, v); c.log("tree " + show(v)); c.mark(hash(v));
  Gc const & k = g;
  int32_t n = k.mem_size();
  REQ(n >= 4, "size", "mem_size is " << n);
  c.count("bytes", uint64_t(n));
  std::unique_ptr<uint8_t[]> buf(new uint8_t[size_t(n)]);
  std::memset(buf.get(), 0xEE, size_t(n));
  int32_t w = k.serialize(n, buf.get());
  REQ(w == n, "size", "mem_size is " << n << ", serialize reports " << w << " for " << show(v));
  string d = diff(observe(g), v); REQ(d.empty(), "serialise-changed-container", d);
  vector<uint8_t> bytes(buf.get(), buf.get() + n);
  // into a larger block: only the first n bytes are written
  { size_t extra = 1 + c.r.below(40); vector<uint8_t> big(size_t(n) + extra, 0x5A); int32_t q = c.r.chance(1, 2) ? k.serialize(big) : k.serialize(int32_t(big.size()), big.data()); REQ(q == n, "size", "serialize into a larger buffer reports " << q << ", not " << n); for (size_t t = 0; t < extra; ++t) REQ(big[size_t(n) + t] == 0x5A, "wrote-beyond", "byte " << n + t << " behind the data was written"); big.resize(size_t(n)); REQ(big == bytes, "not-deterministic", "a second serialisation gives other bytes"); }
  // read back
  Value prev = c.r.chance(1, 3) ? grelated(c.r, v, o) : gvalue(c.r, o);
  auto rd = [&](char const * how, auto f, int32_t want) {
    Gc t; build(t, prev);
    int32_t r = f(t);
    REQ(r == want, "size", how << ": de_serialize consumed " << r << " of " << n << " bytes of " << show(v));
    string e = diff(observe(t), v); REQ(e.empty(), "round-trip", how << " over " << show(prev, 100) << ": " << e << " (original on the right)");
    c.count("round_trips");
    REQ(t.mem_size() == n, "size", "mem_size after the round trip " << t.mem_size() << ", before " << n);
    // the copy is independent of the bytes and of the original
    return;
  };
  rd("exact block", [&](Gc & t) { return t.de_serialize(n, buf.get()); }, n);
  rd("vector", [&](Gc & t) { return t.de_serialize(bytes); }, n);
  { vector<uint8_t> longer = bytes; size_t extra = 1 + c.r.below(20); for (size_t q = 0; q < extra; ++q) longer.push_back(uint8_t(c.r.next())); rd("trailing bytes", [&](Gc & t) { return t.de_serialize(longer); }, n); }
  // into a part of a tree
  { Gc t; t["x"] = 1; t["y"]["z"] = "s"; t["y"]["z"].de_serialize(bytes); string e = diff(observe(t["y"]["z"]), v); REQ(e.empty(), "round-trip", "into a part of a tree: " << e); REQ(t("x").get_int() == 1, "neighbour-changed", "de_serialize into a part changed its neighbour"); c.count("round_trips"); }
  // several in one stream of bytes
  if (c.r.chance(1, 4)) { Value v2 = gvalue(c.r, o); Gc g2; build(g2, v2); int32_t n2 = g2.mem_size(); vector<uint8_t> both(size_t(n) + size_t(n2)); int32_t a = g.serialize(int32_t(both.size()), both.data()); int32_t b = g2.serialize(int32_t(both.size()) - a, both.data() + a); Gc t1, t2; int32_t x = t1.de_serialize(int32_t(both.size()), both.data()); int32_t y = t2.de_serialize(int32_t(both.size()) - x, both.data() + x); REQ(a == x && b == y && x + y == int32_t(both.size()), "size", "two containers in one buffer"); string e = diff(observe(t1), v) + diff(observe(t2), v2); REQ(e.empty(), "round-trip", "two containers in one buffer: " << e); }
  // destinations that are too small (their exact size on the heap, so that ASan sees any excess)
  vector<int32_t> sizes; for (int32_t q = 0; q < n && q < 64; ++q) sizes.push_back(q); for (int q = 0; q < 8 && n > 64; ++q) sizes.push_back(int32_t(c.r.below(uint64_t(n)))); if (n) sizes.push_back(n - 1);
  for (int32_t q : sizes) {
    std::unique_ptr<uint8_t[]> small(new uint8_t[size_t(q)]);
    bool t = throws([&] { k.serialize(q, small.get()); });
    REQ(t, "short-buffer-accepted", "serialize of " << n << " bytes into " << q << " did not throw, " << show(v));
    c.count("short_buffers");
  }
  // a vector that is too small is enlarged
  { vector<uint8_t> small(size_t(c.r.below(uint64_t(n)))); bool t = throws([&] { int32_t q = k.serialize(small); REQ(q == n && small.size() >= size_t(n), "size", "serialize into a small vector reports " << q << " bytes, vector has " << small.size()); small.resize(size_t(n)); REQ(small == bytes, "not-deterministic", "serialize into a small vector gives other bytes"); }); REQ(!t, "vector-not-enlarged", "serialize into a vector that is too small threw"); }
  d = diff(observe(g), v); REQ(d.empty(), "serialise-changed-container", d);
  if (c.idx % 700 < 2) c.sample = std::to_string(n) + " bytes: " + show(v, 200);
}
