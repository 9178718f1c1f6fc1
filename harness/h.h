// Replay / bounded stand-in harness support: runs the real code on concrete inputs against an executable oracle.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
namespace H {
static std::string prop, tier;
static uint64_t    rs = 1;
static long        evals = 0, nontrivial = 0;
static std::set<uint64_t> seen;
static std::vector<std::string> samples;
static char cur[4096];
static bool thorough() { return tier == "thorough"; }
static long scale(long q, long t) { return thorough() ? t : q; }
inline uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
inline double   unit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
inline std::vector<long long>& ints() {
  static std::vector<long long> v = [] {
    std::vector<long long> r; const char* e = getenv("VPOOL_INT");
    if (e) { std::stringstream s(e); long long x; while (s >> x) r.push_back(x); }
    return r; }();
  return v;
}
inline std::vector<double>& reals() {
  static std::vector<double> v = [] {
    std::vector<double> r; const char* e = getenv("VPOOL_REAL");
    if (e) { std::stringstream s(e); std::string t; while (s >> t) r.push_back(atof(t.c_str())); }
    return r; }();
  return v;
}
inline std::vector<std::string>& strs() {
  static std::vector<std::string> v = [] {
    std::vector<std::string> r; const char* e = getenv("VPOOL_STR");
    if (e) { std::stringstream s(e); std::string t; while (std::getline(s, t, '\x1f')) r.push_back(t); }
    return r; }();
  return v;
}
// pool values within [lo,hi], plus neighbours
inline std::vector<long long> pool(long long lo, long long hi) {
  std::set<long long> s;
  for (auto x : ints()) for (long long d = -1; d <= 1; ++d) if (x + d >= lo && x + d <= hi) s.insert(x + d);
  return {s.begin(), s.end()};
}
inline std::vector<double> rpool() {
  std::set<double> s;
  for (auto x : reals()) { s.insert(x); s.insert(-x); }
  for (auto x : ints()) if (std::llabs(x) < 1000000) s.insert((double)x);
  return {s.begin(), s.end()};
}
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
// announces the input under test; nontriv: by the harness' own rule
inline void input(const std::string& d, bool nontriv = true) {
  ++evals;
  if (nontriv && seen.size() < 4000000 && seen.insert(hash(d)).second) { ++nontrivial; if (samples.size() < 4 || (evals & (evals - 1)) == 0) { if (samples.size() < 12) samples.push_back(d.substr(0, 300)); } }
  size_t n = d.size() < sizeof(cur) - 1 ? d.size() : sizeof(cur) - 1;
  memcpy(cur, d.data(), n); cur[n] = 0;
}
static std::string esc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
[[noreturn]] inline void fail(const std::string& what) {
  printf("FAIL {\"input\":\"%s\",\"what\":\"%s\"}\n", esc(cur).c_str(), esc(what).c_str());
  fflush(stdout); _exit(1);
}
static std::set<std::string> knownSeen;
// a failure that belongs to a listed finding; check.py decides whether `tag` is listed
inline void known(const std::string& tag, const std::string& what) {
  if (!knownSeen.insert(tag).second) return;
  printf("KNOWN {\"tag\":\"%s\",\"input\":\"%s\",\"what\":\"%s\"}\n", tag.c_str(), esc(cur).c_str(), esc(what).c_str());
  fflush(stdout);
}
inline void check(bool c, const std::string& what) { if (!c) fail(what); }
template <typename A, typename B> inline void eq(const A& a, const B& b, const char* what) {
  if (!(a == b)) { std::ostringstream o; o.precision(17); o << what << ": got " << a << " expected " << b; fail(o.str()); }
}
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) {
  if (a == b || (std::isnan(a) && std::isnan(b))) return true;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline void near(double a, double b, const char* what, double rel = 1e-9, double abs = 1e-12) {
  if (!close(a, b, rel, abs)) { std::ostringstream o; o.precision(17); o << what << ": got " << a << " expected " << b; fail(o.str()); }
}
// outcome of a call: "" = returned, otherwise exception class name
template <typename F> inline void throws_like(F f, bool should, const char* what) {
  bool t = false;
  try { f(); } catch (...) { t = true; }
  if (t != should) fail(std::string(what) + (should ? ": accepted, an exception is documented" : ": threw an exception"));
}
template <typename Ex, typename F> inline void throws(F f, bool should, const char* what) {
  int t = 0;
  try { f(); } catch (const Ex&) { t = 1; } catch (...) { t = 2; }
  if (t != (should ? 1 : 0)) fail(std::string(what) + (should ? (t == 2 ? ": threw another exception class" : ": accepted, an exception is documented") : ": threw an exception"));
}
template <typename V> inline std::string str(const V& v) { std::ostringstream o; o.precision(17); o << "["; bool f = true; for (auto& x : v) { if (!f) o << ","; f = false; o << x; } o << "]"; return o.str(); }
static void onsig(int s) {
  const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "abort" : s == SIGFPE ? "SIGFPE" : s == SIGALRM ? "does not terminate (time limit)" : "signal";
  char b[5000]; int k = snprintf(b, sizeof b, "FAIL {\"input\":\"%s\",\"what\":\"crash: %s\"}\n", esc(cur).c_str(), n);
  if (write(1, b, k)) {}
  _exit(1);
}
static int run(int argc, char** argv, std::function<void(const std::string&)> f) {
  prop = argc > 1 ? argv[1] : ""; tier = argc > 2 ? argv[2] : "quick";
  uint64_t seed = argc > 3 ? strtoull(argv[3], 0, 10) : 1; rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; if (!rs) rs = 1;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGALRM}) signal(s, onsig);
  try { f(prop); } catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); } catch (...) { fail("unexpected exception"); }
  std::string sm = "["; for (size_t i = 0; i < samples.size(); ++i) sm += (i ? ",\"" : "\"") + esc(samples[i]) + "\""; sm += "]";
  printf("COVER {\"evaluations\":%ld,\"distinct_nontrivial\":%ld,\"samples\":%s}\n", evals, nontrivial, sm.c_str());
  return 0;
}
}  // namespace H
