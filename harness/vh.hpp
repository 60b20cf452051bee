// Common support for the monitoring harnesses: seeded generation, counting of what was
// observed, violation records, and a crash hook that writes the case being executed.
#ifndef VH_HPP_
#define VH_HPP_
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <atomic>
#include <cxxabi.h>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <map>
#include <mutex>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace vh
{
struct State
{
  std::uint64_t seed = 1;
  bool thorough = false;
  std::string out = "/dev/stdout", part = "all", only;
  std::uint64_t evaluations = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::map<std::string, std::uint64_t> counters;
  std::vector<std::string> samples;
  std::map<std::string, std::pair<std::string, std::uint64_t>> violations;  // key -> first detail, count
  std::mutex m;
};
inline State & st() { static State s; return s; }
inline char * case_buffer() { static char b[1 << 16]; return b; }
inline std::string & case_path() { static std::string s; return s; }

inline void current(const std::string & text)
{
  char * b = case_buffer();
  const std::size_t n = std::min<std::size_t>(text.size(), (1 << 16) - 1);
  std::memcpy(b, text.data(), n);
  b[n] = 0;
}
inline void dump_case()
{
  int fd = ::open(case_path().c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    [[maybe_unused]] auto r = ::write(fd, case_buffer(), std::strlen(case_buffer()));
    ::close(fd);
  }
}
inline void on_signal(int s)
{
  dump_case();
  ::signal(s, SIG_DFL);
  ::raise(s);
}

inline std::uint64_t hash(const std::string & s)
{
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
inline std::string esc(const std::string & s)
{
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 0x20 || c >= 0x7f) { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r;
}

struct Rng
{
  std::mt19937_64 e;
  explicit Rng(std::uint64_t s) : e(s * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  std::uint64_t u() { return e(); }
  std::int64_t i(std::int64_t a, std::int64_t b)
  {
    return a + std::int64_t(e() % (std::uint64_t(b - a) + 1));
  }
  double unit() { return double(e() >> 11) * 0x1.0p-53; }
  double r(double a, double b) { return a + (b - a) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <typename C> auto & pick(C & c) { return c[std::size_t(i(0, std::int64_t(c.size()) - 1))]; }
  template <typename C> const auto & pick(const C & c) { return c[std::size_t(i(0, std::int64_t(c.size()) - 1))]; }
};

// One observed case: `nontrivial` is the canonical description that makes it distinct.
inline void observed(const std::string & nontrivial)
{
  auto & s = st();
  std::lock_guard<std::mutex> g(s.m);
  ++s.evaluations;
  s.distinct.insert(hash(nontrivial));
}
inline void observed()
{
  auto & s = st();
  std::lock_guard<std::mutex> g(s.m);
  ++s.evaluations;
}
inline void count(const std::string & name, std::uint64_t n = 1)
{
  std::lock_guard<std::mutex> g(st().m);
  st().counters[name] += n;
}
inline void sample(const std::string & text, std::size_t max = 8)
{
  std::lock_guard<std::mutex> g(st().m);
  if (st().samples.size() < max) st().samples.push_back(text.substr(0, 400));
}
// A violation; `key` identifies the class of failure (matched against known findings).
inline void fail(const std::string & key, const std::string & detail)
{
  std::lock_guard<std::mutex> g(st().m);
  auto [it, fresh] = st().violations.try_emplace(key, detail.substr(0, 4000), 0);
  ++it->second.second;
  if (fresh) std::fprintf(stderr, "FAIL %s: %s\n", key.c_str(), detail.substr(0, 1000).c_str());
}
template <typename... Ts> std::string cat(Ts &&... xs)
{
  std::ostringstream o;
  o << std::setprecision(17) << std::boolalpha;
  (o << ... << xs);
  return o.str();
}
inline std::string type_name(const std::type_info & t)
{
  int status = 0;
  char * p = abi::__cxa_demangle(t.name(), nullptr, nullptr, &status);
  std::string r = p ? p : t.name();
  std::free(p);
  return r;
}
inline std::uint64_t n(std::uint64_t quick, std::uint64_t thorough)
{
  return st().thorough ? thorough : quick;
}

inline void finish()
{
  auto & s = st();
  FILE * f = std::fopen(s.out.c_str(), "w");
  if (!f) { std::perror("result file"); std::_Exit(3); }
  std::fprintf(f, "{\"evaluations\": %llu, \"distinct\": %llu, \"counters\": {",
    (unsigned long long)s.evaluations, (unsigned long long)s.distinct.size());
  const char * sep = "";
  for (auto & [k, v] : s.counters) {
    std::fprintf(f, "%s\"%s\": %llu", sep, esc(k).c_str(), (unsigned long long)v);
    sep = ", ";
  }
  std::fprintf(f, "}, \"samples\": [");
  sep = "";
  for (auto & x : s.samples) { std::fprintf(f, "%s\"%s\"", sep, esc(x).c_str()); sep = ", "; }
  std::fprintf(f, "], \"violations\": [");
  sep = "";
  for (auto & [k, v] : s.violations) {
    std::fprintf(f, "%s{\"key\": \"%s\", \"detail\": \"%s\", \"count\": %llu}", sep, esc(k).c_str(),
      esc(v.first).c_str(), (unsigned long long)v.second);
    sep = ", ";
  }
  std::fprintf(f, "]}\n");
  std::fclose(f);
}

inline void init(int argc, char ** argv)
{
  auto & s = st();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") s.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier") s.thorough = v == "thorough";
    else if (a == "--out") s.out = v;
    else if (a == "--part") s.part = v;
    else if (a == "--only") s.only = v;
  }
  case_path() = s.out + ".case";
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
  __sanitizer_set_death_callback(dump_case);
#endif
  for (int sig : {SIGABRT, SIGTERM}) ::signal(sig, on_signal);
#if !defined(__SANITIZE_ADDRESS__)
  for (int sig : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) ::signal(sig, on_signal);
#endif
}
inline bool part(const std::string & p) { return st().part == "all" || st().part == p; }
}  // namespace vh
#endif
