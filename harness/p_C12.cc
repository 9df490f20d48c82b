// C12: deserialising arbitrary bytes is safe.
#include "gen.hh"
using namespace G;
namespace H {
char const * PROPERTY = "C12";
char const * RULE = "one case = bytes given to de_serialize in an exactly sized heap block: every truncation of a valid serialisation (must throw), bit flips, extreme values at count and type fields, splices, duplicated and deleted ranges, random bytes, deep nesting; ASan/UBSan watch the reads, the allocation monitor the memory asked for (bounded by a multiple of the input), the watchdog termination; an independent decoder of the format says whether the bytes are well formed (then they must be accepted with exactly that value and size) or not (then refused); a container that results is fully read, compared, printed, serialised and round-tripped, after a failure it is cleared, refilled and compared. Non-trivial: bytes were given; distinct by the bytes.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 1500000 : 80000; }
static vector<vector<uint8_t>> corpus;
void monitor_setup() {}
}
static vector<uint8_t> ser(Value const & v) { Gc g; build(g, v); vector<uint8_t> b(size_t(g.mem_size())); g.serialize(int32_t(b.size()), b.data()); return b; }
static void put32(vector<uint8_t> & b, size_t at, uint32_t x) { for (int k = 0; k < 4; ++k) if (at + size_t(k) < b.size()) b[at + size_t(k)] = uint8_t(x >> (8 * k)); }
static void mutate(Ctx & c, vector<uint8_t> & b) {
  unsigned n = 1 + unsigned(c.r.below(3));
  for (unsigned q = 0; q < n; ++q) {
    if (b.empty()) { b.push_back(uint8_t(c.r.next())); continue; }
    size_t at = c.r.chance(1, 3) ? c.r.below(std::min<size_t>(b.size(), 16)) : c.r.below(b.size());
    switch (c.r.below(11)) {
    case 0: b[at] = uint8_t(b[at] ^ (1 << c.r.below(8))); break;
    case 1: b[at] = uint8_t(c.r.next()); break;
    case 2: { static const uint32_t k[] = {0, 1, 0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0x10000u, 0x10000000u, 0x40000000u, 0x20000000u, 0x3FFFFFFFu, 21, 20, 19, 255}; uint32_t x = k[c.r.below(14)]; size_t al = c.r.chance(3, 4) ? at & ~size_t(3) : at; put32(b, al, x); break; }
    case 3: put32(b, at & ~size_t(3), uint32_t(c.r.below(24))); break;
    case 4: { uint32_t x = 0; std::memcpy(&x, b.data() + at, std::min<size_t>(4, b.size() - at)); put32(b, at, x + uint32_t(c.r.range(-3, 3))); break; }
    case 5: b.resize(at); break;
    case 6: b.erase(b.begin() + long(at), b.begin() + long(std::min(b.size(), at + 1 + c.r.below(8)))); break;
    case 7: { vector<uint8_t> x; unsigned m = 1 + unsigned(c.r.below(12)); for (unsigned k = 0; k < m; ++k) x.push_back(uint8_t(c.r.below(4) ? 0 : c.r.next())); b.insert(b.begin() + long(at), x.begin(), x.end()); break; }
    case 8: { size_t len = std::min(b.size() - at, size_t(1 + c.r.below(24))); vector<uint8_t> x(b.begin() + long(at), b.begin() + long(at + len)); size_t to = c.r.below(b.size()); b.insert(b.begin() + long(to), x.begin(), x.end()); break; }
    case 9: { if (corpus.empty()) break; auto & o = corpus[c.r.below(corpus.size())]; if (o.empty()) break; size_t from = c.r.below(o.size()); b.resize(at); b.insert(b.end(), o.begin() + long(from), o.end()); break; }
    default: { put32(b, at & ~size_t(3), uint32_t(b.size() - at)); break; }
    }
    if (b.size() > 20000) b.resize(20000);
  }
}
// the format read independently: false if the bytes cannot be a container
struct Rd { uint8_t const * p; size_t n, at = 0;
  bool u32(int32_t & x) { if (n - at < 4) return false; uint32_t u = 0; for (int k = 0; k < 4; ++k) u |= uint32_t(p[at + size_t(k)]) << (8 * k); at += 4; x = int32_t(u); return true; }
  bool u64(uint64_t & x) { if (n - at < 8) return false; x = 0; for (int k = 0; k < 8; ++k) x |= uint64_t(p[at + size_t(k)]) << (8 * k); at += 8; return true; }
  bool i64(int64_t & x) { uint64_t u; if (!u64(u)) return false; x = int64_t(u); return true; }
  bool f64(double & x) { uint64_t u; if (!u64(u)) return false; std::memcpy(&x, &u, 8); return true; }
  bool text(string & s) { int32_t k; if (!u32(k) || k <= 0 || size_t(k) > n - at || p[at + size_t(k) - 1]) return false; s.assign(reinterpret_cast<char const *>(p + at), size_t(k) - 1); at += size_t(k); return true; }
  bool count(int32_t & k, size_t each) { return u32(k) && k >= 0 && size_t(k) <= (n - at) / each; }
  bool shape(Value & v, size_t each, size_t & k) { int32_t a, b; if (!u32(a) || !u32(b) || a < 0 || b < 0 || uint64_t(a) * uint64_t(b) > (n - at) / each) return false; v.nr = unsigned(a); v.nc = unsigned(b); k = size_t(a) * size_t(b); return true; }
};
static bool decode(Rd & r, Value & v) {
  int32_t code, k; if (!r.u32(code) || code < 0 || code >= int32_t(NT)) return false;
  v = mk(T(code)); size_t m = 0; uint64_t u; int32_t x; int64_t y; double d, e;
  switch (v.t) {
  case T::NOTYPE: return true;
  case T::POINTER: if (!r.u64(u)) return false; v.p = reinterpret_cast<void *>(uintptr_t(u)); return true;
  case T::BOOL: if (r.at >= r.n) return false; v.b = r.p[r.at++] != 0; return true;
  case T::INTEGER: return r.u32(v.i);
  case T::LONG: return r.i64(v.l);
  case T::REAL: return r.f64(v.r);
  case T::COMPLEX: if (!r.f64(d) || !r.f64(e)) return false; v.c = cplx(d, e); return true;
  case T::STRING: return r.text(v.s);
  case T::VEC_POINTER: if (!r.count(k, 8)) return false; while (k--) { r.u64(u); v.vp.push_back(reinterpret_cast<void *>(uintptr_t(u))); } return true;
  case T::VEC_BOOL: if (!r.count(k, 1)) return false; while (k--) v.vb.push_back(r.p[r.at++] != 0); return true;
  case T::VEC_INTEGER: if (!r.count(k, 4)) return false; while (k--) { r.u32(x); v.vi.push_back(x); } return true;
  case T::VEC_LONG: if (!r.count(k, 8)) return false; while (k--) { r.i64(y); v.vl.push_back(y); } return true;
  case T::VEC_REAL: if (!r.count(k, 8)) return false; while (k--) { r.f64(d); v.vr.push_back(d); } return true;
  case T::VEC_COMPLEX: if (!r.count(k, 16)) return false; while (k--) { r.f64(d); r.f64(e); v.vc.push_back(cplx(d, e)); } return true;
  case T::MAT_INTEGER: if (!r.shape(v, 4, m)) return false; while (m--) { r.u32(x); v.vi.push_back(x); } return true;
  case T::MAT_LONG: if (!r.shape(v, 8, m)) return false; while (m--) { r.i64(y); v.vl.push_back(y); } return true;
  case T::MAT_REAL: if (!r.shape(v, 8, m)) return false; while (m--) { r.f64(d); v.vr.push_back(d); } return true;
  case T::MAT_COMPLEX: if (!r.shape(v, 16, m)) return false; while (m--) { r.f64(d); r.f64(e); v.vc.push_back(cplx(d, e)); } return true;
  case T::VEC_STRING: if (!r.count(k, 5)) return false; while (k--) { string s; if (!r.text(s)) return false; v.vs.push_back(s); } return true;
  case T::VECTOR: if (!r.count(k, 4)) return false; while (k--) { Value w; if (!decode(r, w)) return false; v.v.push_back(std::move(w)); } return true;
  default: if (!r.count(k, 9)) return false; while (k--) { string s; Value w; if (!r.text(s) || !decode(r, w)) return false; v.m[s] = std::move(w); } return true;
  }
}
static void give(Ctx & c, vector<uint8_t> const & b, bool must_throw, char const * how) {
  set_input(b.data(), b.size());
  std::unique_ptr<uint8_t[]> blk(new uint8_t[b.size()]); if (!b.empty()) std::memcpy(blk.get(), b.data(), b.size());
  Opt o; Gc g; if (c.r.chance(1, 3)) build(g, gtyped(c.r, T(c.r.below(NT)), o, 3));
  int32_t used = -1;
  long before = A.total_bytes; A.max_request = 0;
  long cap0 = A.capped;
  bool t = false; string what;
  try { used = g.de_serialize(int32_t(b.size()), blk.get()); }
  catch (std::bad_alloc const &) { c.fail("memory-exhausted", STR("de_serialize of " << b.size() << " bytes (" << how << ") asked for more memory than the monitor allows")); }
  catch (std::length_error const &) { c.fail("memory-exhausted", STR("de_serialize of " << b.size() << " bytes (" << how << ") asked for an impossible size")); }
  catch (std::exception const & e) { t = true; what = e.what(); }
  long asked = A.total_bytes - before;
  REQ(A.capped == cap0 && asked <= 20000 + 400 * long(b.size()), "memory-exhausted", "de_serialize of " << b.size() << " bytes (" << how << ") asked for " << asked << " bytes of memory");
  c.count("inputs"); c.count(t ? "refused" : "accepted");
  if (must_throw) REQ(t, "truncation-accepted", "de_serialize of a serialisation cut to " << b.size() << " bytes returned " << used << " and gave " << show(observe(g)));
  Rd rd{b.data(), b.size()}; Value want; bool good = decode(rd, want);
  if (!good) { REQ(t, "malformed-accepted", "de_serialize accepts malformed bytes (" << how << "), returns " << used << " and gives " << show(observe(g)) << ": " << hex(b.data(), std::min<size_t>(b.size(), 200))); c.count("malformed_refused"); }
  else {
    REQ(!t, "well-formed-refused", "de_serialize refuses well formed bytes (" << how << "): " << what << ": " << hex(b.data(), std::min<size_t>(b.size(), 200)));
    REQ(used == int32_t(rd.at), "wrong-size", "de_serialize reports " << used << " bytes, the data are " << rd.at);
    string df = diff(observe(g), want); REQ(df.empty(), "wrong-value", "de_serialize of mutated bytes (" << how << "): " << df << " (what the bytes say on the right)"); c.count("well_formed_decoded");
  }
  if (!t) {
    REQ(used >= 4 && used <= int32_t(b.size()), "consumed-too-much", "de_serialize reports " << used << " of " << b.size() << " bytes");
    // the result is a valid container
    Value v = observe(g); std::ostringstream os; g.print_content_types(os);
    Gc k(g); REQ(same(observe(k), v), "invalid-container", "a copy of the result differs");
    vector<uint8_t> b2(size_t(g.mem_size())); int32_t n2 = g.serialize(int32_t(b2.size()), b2.data()); REQ(n2 == int32_t(b2.size()), "invalid-container", "mem_size and serialize of the result disagree");
    Gc h; h.de_serialize(b2); string d = diff(observe(h), v); REQ(d.empty(), "invalid-container", "the result does not round-trip: " << d);
  } else if (c.r.chance(1, 4)) { Value left = observe(g); (void)left; }
  // still usable
  Value nv = gtyped(c.r, T(c.r.below(NT)), o, 3);
  if (c.r.chance(1, 2)) g.clear();
  build(g, nv); string d = diff(observe(g), nv); REQ(d.empty(), "unusable-after-failure", d);
  c.mark(string(b.begin(), b.end()));
}
void H::run_case(Ctx & c) {
  Opt o; o.max_depth = 3; o.bigvec = false; o.max_kids = 4;
  A.request_cap = 64L << 20;
  corpus.clear(); for (int k = 0; k < 2; ++k) corpus.push_back(ser(gvalue(c.r, o)));
  unsigned mode = unsigned(c.idx % 8);
  if (mode == 0) { // all truncations
    vector<uint8_t> b = ser(c.idx % 16 == 0 ? gtyped(c.r, T((c.idx / 16) % NT), o) : gvalue(c.r, o));
    if (b.size() > 400) b.resize(400); else if (c.r.chance(1, 4)) give(c, b, false, "complete");
    c.log("truncations of " + hex(b.data(), std::min<size_t>(b.size(), 200)));
    for (size_t n = b.size(); n-- > 0;) { vector<uint8_t> x(b.begin(), b.begin() + long(n)); give(c, x, true, "truncation"); }
    c.count("truncation_series");
  } else if (mode == 7) {
    vector<uint8_t> b; unsigned k = unsigned(c.r.below(3));
    if (k == 0) { unsigned n = unsigned(c.r.below(60)); for (unsigned q = 0; q < n; ++q) b.push_back(uint8_t(c.r.chance(1, 2) ? c.r.below(24) : c.r.next())); }
    else if (k == 1) { // nested generic vectors, cut or closed
      unsigned n = 1 + unsigned(c.r.below(300)); for (unsigned q = 0; q < n; ++q) { put32((b.resize(b.size() + 4), b), b.size() - 4, 19); put32((b.resize(b.size() + 4), b), b.size() - 4, 1); } if (c.r.chance(1, 2)) b.resize(b.size() + 4); }
    else { b.resize(8); put32(b, 0, uint32_t(c.r.below(24))); put32(b, 4, uint32_t(c.r.next())); unsigned n = unsigned(c.r.below(40)); for (unsigned q = 0; q < n; ++q) b.push_back(uint8_t(c.r.next())); }
    c.log("bytes " + hex(b.data(), std::min<size_t>(b.size(), 300)));
    give(c, b, false, "made up");
  } else {
    vector<uint8_t> b = ser(c.r.chance(1, 3) ? gtyped(c.r, T(c.r.below(NT)), o) : gvalue(c.r, o));
    if (c.r.chance(1, 6)) { // the end of a text of any length
      auto text = [&] { return string(c.r.below(c.r.chance(1, 3) ? 700 : 40), char('a' + c.r.below(26))); }; Value v; unsigned w = unsigned(c.r.below(4)), n = 1 + unsigned(c.r.below(4));
      if (w == 0) v = S(text()); else if (w == 1) { v = mk(T::VEC_STRING); for (unsigned q = 0; q < n; ++q) v.vs.push_back(text()); } else if (w == 2) { v = mk(T::VECTOR); for (unsigned q = 0; q < n; ++q) v.v.push_back(S(text())); } else { v = mk(T::MAP); for (unsigned q = 0; q < n; ++q) v.m[text()] = c.r.chance(1, 2) ? S(text()) : I(int(q)); }
      b = ser(v); vector<size_t> ends; for (size_t q = 8; q < b.size(); ++q) if (!b[q] && (b[q - 1] >= 'a' && b[q - 1] <= 'z')) ends.push_back(q);
      if (!ends.empty()) b[ends[c.r.below(ends.size())]] = uint8_t(1 + c.r.below(255)); c.count("text_ends_overwritten");
    } else mutate(c, b);
    c.log("bytes " + hex(b.data(), std::min<size_t>(b.size(), 300)));
    give(c, b, false, "mutated");
    if (c.idx % 3000 < 4) c.sample = "mutated: " + hex(b.data(), std::min<size_t>(b.size(), 100));
  }
}
