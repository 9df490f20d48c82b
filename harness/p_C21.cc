// C21: values crossing to Lua and back; histories of good and bad calls.
#include "promo.hh"
#include "codec.hh"
#include <GenericContainer/GenericContainerInterface_lua.hh>
#include <fstream>
#include <unistd.h>
using namespace G;
namespace H {
char const * PROPERTY = "C21";
char const * RULE = "one case = one interpreter and a history of 8..40 steps: a random transferable tree is set as a global and compared inside Lua with an independently written literal (deep equality evaluated by Lua), read back, passed through functions (identity, wrap, pick, state-keeping) and compared with the model; literals made by a script are read and compared; lists are also filled in random order; between them script and call errors of every kind (syntax, runtime, missing function or global, error objects, metatables raising on globals, tables that contain themselves, mixed tables, bad indices) must be reported by an exception, after which all globals must still hold their modelled values; bursts of up to 200 calls watch for growth of the Lua stack (ASan-built Lua). Non-trivial: at least one value compared; distinct by the history.";
bool LEAK_CHECK = true;
unsigned CPU_LIMIT_S = 60;
uint64_t default_cases(bool t) { return t ? 30000 : 3000; }
void monitor_setup() { silence(); }
}
using GC_namespace::LuaInterpreter;
// canonical form of what crosses: numbers by value, lists, string-keyed tables
static string nform(double x) {
  if (x != x) return "nan";
  if (x >= -0x1p63 && x < 0x1p63 && x == std::floor(x)) return "n" + std::to_string(int64_t(x));
  return "n" + M::num(x);
}
static string form(Value const & v) {
  string o;
  switch (v.t) {
  case T::BOOL: return v.b ? "t" : "f";
  case T::INTEGER: return "n" + std::to_string(v.i);
  case T::LONG: return "n" + std::to_string(v.l);
  case T::REAL: return nform(v.r);
  case T::STRING: return quote(v.s);
  case T::MAP: if (v.m.empty()) return "{}"; o = "{"; for (auto & kv : v.m) o += quote(kv.first) + ":" + form(kv.second) + ","; return o + "}";
  case T::NOTYPE: return "{}"; // an empty table comes back without type
  default: break;
  }
  if (is_vec(v.t) || v.t == T::VECTOR) { if (!count_of(v)) return "{}"; o = "["; for (size_t k = 0; k < count_of(v); ++k) o += form(elem(v, k)) + ","; return o + "]"; }
  return string("?") + tname(v.t);
}
static string lstr(string const & s) { string o = "\""; for (unsigned char ch : s) { char b[8]; std::snprintf(b, 8, "\\%03u", ch); o += b; } return o + "\""; }
static string lreal(double x) { if (x != x) return "(0/0)"; if (std::isinf(x)) return x > 0 ? "math.huge" : "(-math.huge)"; char b[64]; std::snprintf(b, 64, "(%a)", x); return b; }
static string lint(int64_t x) { return x == INT64_MIN ? "math.mininteger" : "(" + std::to_string(x) + ")"; }
static string lit(Rng & r, Value const & v) {
  string o;
  switch (v.t) {
  case T::BOOL: return v.b ? "true" : "false";
  case T::INTEGER: return lint(v.i);
  case T::LONG: return lint(v.l);
  case T::REAL: return lreal(v.r);
  case T::STRING: return lstr(v.s);
  case T::NOTYPE: return "{}";
  case T::MAP: o = "{"; for (auto & kv : v.m) o += "[" + lstr(kv.first) + "]=" + lit(r, kv.second) + ","; return o + "}";
  default: o = "{"; for (size_t k = 0; k < count_of(v); ++k) o += lit(r, elem(v, k)) + ","; return o + "}";
  }
}
// trees that cross: no complex, matrices, pointers, null; every list fits one kind unless it is a generic vector of mixed scalars
static bool big(int64_t x) { return x > (int64_t(1) << 53) || x < -(int64_t(1) << 53); }
static Value gl(Rng & r, int depth) {
  Opt o; o.bigvec = true; o.huge = 120; o.huge_max = 70000;
  switch (r.below(depth < 4 ? 14 : 10)) {
  case 0: return B(r.chance(1, 2));
  case 1: return I(gint(r));
  case 2: return L(glong(r));
  case 3: return R(greal(r));
  case 4: return gtyped(r, T::STRING, o, depth);
  case 5: return gtyped(r, T::VEC_BOOL, o, depth);
  case 6: return gtyped(r, T::VEC_INTEGER, o, depth);
  case 7: return gtyped(r, T::VEC_LONG, o, depth);
  case 8: return gtyped(r, T::VEC_REAL, o, depth);
  case 9: return gtyped(r, T::VEC_STRING, o, depth);
  case 10: case 11: { Value v = mk(T::MAP); unsigned n = unsigned(r.below(6)); if (depth < 2 && r.chance(1, 16)) { n = 6 + unsigned(r.below(r.chance(1, 6) ? 300 : 60)); depth = 3; } for (unsigned k = 0; k < n; ++k) v.m[gkey(r)] = gl(r, depth + 1); return v; }
  default: { Value v = mk(T::VECTOR); unsigned n = unsigned(r.below(6)); if (depth < 2 && r.chance(1, 16)) { n = 6 + unsigned(r.below(r.chance(1, 6) ? 300 : 60)); depth = 3; } for (unsigned k = 0; k < n; ++k) v.v.push_back(gl(r, depth + 1)); return v; }
  }
}
// a list whose numbers mix reals and integers beyond 2^53 is read as reals: aside
static bool mixes(Value const & v) {
  if (is_vec(v.t) || v.t == T::VECTOR) {
    bool b = false, re = false;
    for (size_t k = 0; k < count_of(v); ++k) { Value e = elem(v, k); if (e.t == T::LONG && big(e.l)) b = true; if (e.t == T::REAL) { if (nform(e.r)[0] != 'n' || e.r != std::floor(e.r) || std::fabs(e.r) >= 0x1p63) re = true; else if (std::fabs(e.r) > 0x1p53) b = true; } if (mixes(e)) return true; }
    return b && re;
  }
  for (auto & kv : v.m) if (mixes(kv.second)) return true;
  return false;
}
static char const * PRELUDE = R"lua(
function deq(a,b)
  if type(a) ~= type(b) then return false end
  if type(a) == "number" then return a == b or (a ~= a and b ~= b) end
  if type(a) ~= "table" then return a == b end
  for k,v in pairs(a) do if not deq(v, b[k]) then return false end end
  for k,v in pairs(b) do if a[k] == nil then return false end end
  return true
end
function id(x) return x end
function wrap(x) return { x, x } end
function field(x) return { ["in"] = x, n = 1 } end
function two(x) return x, "second" end
cnt = 0
function count(x) cnt = cnt + 1; return cnt end
function setg(x) kept = x; return true end
function getg() return kept end
function bad1(x) error("plain") end
function bad2(x) error({code=1}) end
function bad3(x) return x.nothing.more end
function bad4(x) local t = nil; return t[1] end
function bad5(x) return (nil)(x) end
function bad6(x) return bad6(x) + 1 end
function fn(x) return print end
function none(x) end
)lua";
void H::run_case(Ctx & c) {
  Rng & r = c.r; LuaInterpreter L; string hist; std::map<string, string> globals; // name -> expected form
  long cnt = 0; bool kept = false; string keptf;
  L.execute(PRELUDE);
  auto say = [&](string const & s) { if (hist.size() < 4000) hist += s + ";"; c.log(s); };
  auto must_throw = [&](string const & what, std::function<void()> f) { bool t = throws(f); REQ(t, "error-not-reported", what << " was not reported"); c.count("errors_reported"); };
  auto call = [&](string const & fn, Value const * arg, Gc & res) { Gc io; io["function"].set_string(fn); if (arg) build(io["args"], *arg); else io["args"].clear(); Value before = observe(io); bool t = throws([&] { L.call(io, res); }); REQ(same(observe(io), before), "argument-changed", "the arguments of " << fn << " changed"); return !t; };
  auto dirty = [&](Gc & g) { if (r.chance(1, 2)) { Opt o; o.max_depth = 2; build(g, gvalue(r, o)); } };
  auto check_globals = [&](string const & after) {
    for (auto & kv : globals) { Gc g; dirty(g); bool t = throws([&] { L.global_to_GC(kv.first.c_str(), g); }); REQ(!t, "unusable-after", "global " << kv.first << " cannot be read after " << after); string f = form(observe(g)); REQ(f == kv.second, "unusable-after", "global " << kv.first << " is " << f.substr(0, 300) << " instead of " << kv.second.substr(0, 300) << " after " << after); c.count("globals_rechecked"); }
  };
  unsigned steps = 8 + unsigned(r.below(33));
  for (unsigned st = 0; st < steps; ++st) {
    Value v; do v = gl(r, r.chance(1, 3) ? 0 : 3); while (mixes(v));
    string f = form(v), what;
    switch (r.below(14)) {
    case 0: case 1: case 2: { // C++ -> Lua, seen by Lua, and back
      string name = "g" + std::to_string(r.below(5)); what = "global " + name + " = " + show(v, 100); say(what);
      Gc g; build(g, v); L.GC_to_global(g, name.c_str()); REQ(same(observe(g), v), "argument-changed", "GC_to_global changed its argument");
      globals[name] = f;
      string cmd = "ref = " + lit(r, v) + " assert(deq(ref," + name + "))"; bool t = throws([&] { L.execute(cmd.c_str()); });
      REQ(!t, "arrives-different", "Lua does not see " << show(v, 400) << " in the global it was stored to");
      Gc b; dirty(b); t = throws([&] { L.global_to_GC(name.c_str(), b); }); REQ(!t, "refused", "global_to_GC of " << show(v, 400));
      string bf = form(observe(b)); REQ(bf == f, "comes-back-different", bf.substr(0, 400) << " instead of " << f.substr(0, 400)); c.count("round_trips"); break; }
    case 12: { // kinds without a counterpart are nil
      static const T nt[] = {T::COMPLEX, T::VEC_COMPLEX, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX, T::POINTER, T::VEC_POINTER}; Opt o; o.empties = false; Value n = gtyped(r, nt[r.below(8)], o); what = "global of " + show(n, 60); say(what);
      Gc g; build(g, n); L.execute("nn = 5"); L.GC_to_global(g, "nn"); bool t = throws([&] { L.execute("assert(nn == nil)"); }); REQ(!t, "arrives-different", "Lua does not see nil for " << show(n, 200));
      Value m = mk(T::MAP); m.m["keep"] = v; m.m["gone"] = n; Gc q; build(q, m); L.GC_to_global(q, "nn"); t = throws([&] { L.execute(("assert(nn.gone == nil and deq(nn.keep, " + lit(r, v) + "))").c_str()); }); REQ(!t, "arrives-different", "a field beside " << show(n, 200) << " arrives different");
      REQ(same(observe(g), n) && same(observe(q), m), "argument-changed", "GC_to_global changed its argument"); L.execute("nn = nil"); c.count("without_counterpart"); break; }
    case 3: { // made by Lua
      what = "literal " + show(v, 100); say(what); L.execute(("lv = " + lit(r, v)).c_str()); Gc b; dirty(b); bool t = throws([&] { L.global_to_GC("lv", b); }); REQ(!t, "refused", "global_to_GC of the literal " << show(v, 400)); string bf = form(observe(b)); REQ(bf == f, "comes-back-different", bf.substr(0, 400) << " instead of the literal " << f.substr(0, 400)); globals["lv"] = f; c.count("literals_read"); break; }
    case 13: { // a long chain of tables
      if (!r.chance(1, 5)) continue;
      unsigned n = 10 + unsigned(r.below(170)); Value w = v.t == T::NOTYPE || form(v).size() > 300 ? I(5) : v; unsigned ways = unsigned(r.below(3)); string script = "lv = " + lit(r, w) + " ";
      string cf = form(w); if (cf == "{}" || (is_vec(w.t) || w.t == T::VECTOR)) { w = I(6); cf = "n6"; script = "lv = 6 "; }
      Value cv = w; for (unsigned k = 0; k < n; ++k) { bool li = ways == 0 || (ways == 2 && k % 2); if (li) { cf = "[" + cf + ",]"; Value q = mk(T::VECTOR); q.v.push_back(std::move(cv)); cv = std::move(q); } else { cf = "{\"d\":" + cf + ",}"; Value q = mk(T::MAP); q.m["d"] = std::move(cv); cv = std::move(q); } }
      script += STR("for k = 0, " << n - 1 << " do "); script += ways == 0 ? "lv = {lv}" : ways == 1 ? "lv = {d=lv}" : "if k % 2 == 1 then lv = {lv} else lv = {d=lv} end"; script += " end";
      what = STR("chain of " << n << " tables, kind " << ways); say(what); L.execute(script.c_str());
      Gc b; dirty(b); bool t = throws([&] { L.global_to_GC("lv", b); }); REQ(!t, "refused", "global_to_GC of a " << what); REQ(form(observe(b)) == cf, "comes-back-different", what << " comes back different");
      Gc g; build(g, cv); L.GC_to_global(g, "lw"); t = throws([&] { L.execute("assert(deq(lv,lw))"); }); REQ(!t, "arrives-different", "Lua does not see the " << what);
      Gc res; dirty(res); REQ(call("id", &cv, res), "refused", "id of a " << what); REQ(form(observe(res)) == cf, "comes-back-different", what << " comes back different from a call");
      globals["lv"] = cf; c.count("chains"); break; }
    case 4: { // a list filled in random order
      T t = T(unsigned(T::VEC_BOOL) + r.below(6)); if (t == T::VEC_COMPLEX) t = T::VEC_STRING; Opt o; o.empties = false; Value a = gtyped(r, t, o); if (mixes(a)) break;
      vector<size_t> p; for (size_t k = 0; k < count_of(a); ++k) p.push_back(k);
      for (size_t k = p.size(); k > 1; --k) std::swap(p[k - 1], p[r.below(k)]);
      string cmd = "lv = {} "; for (size_t k : p) { string ix = r.chance(1, 6) ? std::to_string(k + 1) + ".0" : std::to_string(k + 1); cmd += "lv[" + ix + "]=" + lit(r, elem(a, k)) + " "; }
      what = "random order " + show(a, 100); say(what); L.execute(cmd.c_str()); Gc b; bool th = throws([&] { L.global_to_GC("lv", b); }); REQ(!th, "refused", "global_to_GC of the list " << show(a, 400)); string bf = form(observe(b)); REQ(bf == form(a), "comes-back-different", bf.substr(0, 400) << " instead of " << form(a).substr(0, 400)); globals["lv"] = form(a); c.count("lists_read"); break; }
    case 5: case 6: { // through functions
      Gc res; dirty(res); what = "call " + show(v, 100); say(what);
      switch (r.below(6)) {
      case 0: REQ(call("id", &v, res), "refused", "id of " << show(v, 400)); REQ(form(observe(res)) == f, "comes-back-different", "id gives " << form(observe(res)).substr(0, 400) << " instead of " << f.substr(0, 400)); break;
      case 1: { Value w2 = VV({v, v}); if (mixes(w2)) break; REQ(call("wrap", &v, res), "refused", "wrap of " << show(v, 400)); Value ob = observe(res); bool empty_t = f == "{}"; if (empty_t) break; REQ(form(ob) == "[" + f + "," + f + ",]", "comes-back-different", "wrap gives " << form(ob).substr(0, 400) << " instead of two of " << f.substr(0, 400)); break; }
      case 2: { REQ(call("field", &v, res), "refused", "field of " << show(v, 400)); REQ(form(observe(res)) == "{\"in\":" + f + ",\"n\":n1,}", "comes-back-different", "field gives " << form(observe(res)).substr(0, 400) << " for " << f.substr(0, 400)); break; }
      case 3: REQ(call("two", &v, res), "refused", "two of " << show(v, 400)); REQ(form(observe(res)) == f, "comes-back-different", "first result is " << form(observe(res)).substr(0, 400) << " instead of " << f.substr(0, 400)); break;
      case 4: REQ(call("count", &v, res), "refused", "count"); ++cnt; REQ(form(observe(res)) == "n" + std::to_string(cnt), "comes-back-different", "counter is " << form(observe(res)) << " instead of " << cnt); break;
      default: REQ(call("setg", &v, res) && form(observe(res)) == "t", "refused", "setg of " << show(v, 400)); kept = true; keptf = f; break;
      }
      if (kept && r.chance(1, 2)) { Gc g2; REQ(call("getg", nullptr, g2), "refused", "getg"); REQ(form(observe(g2)) == keptf, "comes-back-different", "getg gives " << form(observe(g2)).substr(0, 400) << " instead of " << keptf.substr(0, 400)); }
      c.count("calls"); break; }
    case 7: { // failing scripts
      static const char * k[] = {"x = = 1", "error('e')", "error({})", "error(nil)", "local t = nil; t.x = 1", "undefined_fun()", "for", "return 1 +", "\"unterminated", "goto nowhere", "x = 1 + {}", "error('a\\0b')", "string.rep()", "assert(false)", "local function f() return f() + 1 end f()", "x = #nil", "]]", "coroutine.wrap(function() error('in') end)()"};
      string cmd = k[r.below(sizeof k / sizeof *k)]; if (cmd.find("f() + 1") != string::npos && !r.chance(1, 20)) cmd = "error(1)"; what = "script " + cmd; say(what); must_throw("script " + cmd, [&] { L.execute(cmd.c_str()); }); break; }
    case 8: { // failing calls
      static const char * k[] = {"bad1", "bad2", "bad3", "bad4", "bad5", "bad6", "no_such_function", "cnt", ""}; string fn = k[r.below(sizeof k / sizeof *k)]; if (fn == "bad6" && !r.chance(1, 20)) fn = "bad1"; what = "call of " + fn; say(what); Gc res; dirty(res); Value sv = r.chance(1, 2) ? v : I(3); if (fn == "bad3" && sv.t == T::STRING) sv = I(3); REQ(!call(fn, &sv, res), "error-not-reported", "calling " << quote(fn) << " was not reported"); c.count("errors_reported"); observe(res); break; }
    case 9: { // values that cannot be read
      Gc g; dirty(g);
      switch (r.below(8)) {
      case 0: what = "missing global"; must_throw(what, [&] { L.global_to_GC("no_such_global", g); }); break;
      case 1: what = "function global"; must_throw(what, [&] { L.global_to_GC("id", g); }); break;
      case 2: what = "mixed table"; L.execute("mx = {1,2,x=3}"); must_throw(what, [&] { L.global_to_GC("mx", g); }); break;
      case 3: { what = "bad index"; static const char * t[] = {"mx = {[0]=1}", "mx = {[-1]=1}", "mx = {[1.5]=1}", "mx = {[math.mininteger]=1}", "mx = {[2^53]=1}", "mx = {1,2,[0]=3}"}; L.execute(t[r.below(6)]); must_throw(what, [&] { L.global_to_GC("mx", g); }); break; }
      case 4: what = "table within itself"; L.execute(r.chance(1, 2) ? "mx = {}; mx.a = {b = mx}" : "mx = {1}; mx[1] = {mx}"); must_throw(what, [&] { L.global_to_GC("mx", g); }); break;
      case 5: { what = "call without function"; Gc io; if (r.chance(1, 2)) io["args"] = 1; else io["function"] = "id"; must_throw(what, [&] { L.call(io, g); }); Gc io2; io2["function"] = 12; io2["args"] = 1; must_throw("function of the wrong type", [&] { L.call(io2, g); }); Gc io3; io3 = 3; must_throw("arguments that are no map", [&] { L.call(io3, g); }); break; }
      case 6: what = "raising globals"; L.execute("setmetatable(_G,{__index=function(t,k) error('undefined '..k) end,__newindex=function(t,k,v) error('undefined '..k) end})"); must_throw(what, [&] { L.global_to_GC("no_such_global", g); }); must_throw("setting a refused global", [&] { Gc x; build(x, v); L.GC_to_global(x, "no_such_global"); }); must_throw("calling a refused global", [&] { Gc x, y; x["function"] = "no_such_global"; x["args"] = 1; L.call(x, y); }); L.execute("setmetatable(_G,nil)"); break;
      default: { what = "nil result"; Gc res; dirty(res); REQ(call("none", &v, res), "refused", "function without result"); REQ(res.get_type() == T::NOTYPE, "comes-back-different", "no result gives " << show(observe(res))); Gc res2; call("fn", &v, res2); observe(res2); break; }
      }
      observe(g); say(what); break; }
    case 10: { // files
      string fn = string(std::getenv("H_SCRATCH") ? std::getenv("H_SCRATCH") : "/tmp") + "/c21_" + std::to_string(getpid()) + ".lua"; int kind = int(r.below(4)); what = STR("file " << kind); say(what);
      { std::ofstream o(fn, std::ios::binary); if (kind == 0) o << "lf = " << lit(r, v) << "\n"; else if (kind == 1) o << "lf = = 1\n"; else { static const char * bad[] = {"local x = nil\nx.y = 2\n", "error('e')\n", "error({})\n", "error(nil)\n", "error(12)\n", "x = 1\nundefined_fun()\n"}; o << bad[r.below(6)]; } }
      if (kind == 0) { bool t = throws([&] { L.do_file(fn.c_str()); }); REQ(!t, "refused", "do_file"); globals["lf"] = f; } else if (kind < 3) must_throw("do_file of a failing script", [&] { L.do_file(fn.c_str()); }); else must_throw("do_file of a missing file", [&] { L.do_file((fn + ".none").c_str()); });
      ::unlink(fn.c_str()); c.count("files"); break; }
    default: { // bursts
      if (!r.chance(1, 4)) continue;
      unsigned n = 40 + unsigned(r.below(160)); int kind = int(r.below(8)); what = STR("burst " << kind << " x" << n); say(what);
      Value sv = I(7), tv = VI({1, 2, 3}); Gc g, res;
      for (unsigned k = 0; k < n; ++k) switch (kind) {
        case 0: build(g, tv); L.GC_to_global(g, "bg"); break;
        case 1: L.global_to_GC("cnt", g); break;
        case 2: REQ(call("id", &tv, res), "unusable-after", "call " << k << " of a burst failed"); break;
        case 3: throws([&] { L.execute("error('x')"); }); break;
        case 4: call("bad1", &sv, res); break;
        case 5: throws([&] { L.global_to_GC("no_such_global", g); }); break;
        case 6: throws([&] { L.global_to_GC("id", g); }); break;
        default: L.execute("bt = {{1,2},{3,x=1}}"); throws([&] { L.global_to_GC("bt", g); }); break;
      }
      c.count("burst_calls", n); break; }
    }
    if (r.chance(1, 3) || st + 1 == steps) check_globals(what);
  }
  c.mark(hist); c.sample = hist.substr(0, 300);
}
