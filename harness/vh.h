// Common skeleton of the workload drivers: deterministic cases, a violation reporter, coverage counters.
// A driver defines `void runCase(vh::Case& c)` and calls VH_MAIN(). Every random choice comes from c.rng, which
// depends only on (seed, case number), so any case can be replayed alone.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include <exception>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace vh {

struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed = 1) {
    s[0] = mix(seed);
    s[1] = mix(seed) | 1;
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  // uniform in [0, n)
  uint64_t below(uint64_t n) {
    return n == 0 ? 0 : next() % n;
  }
  // uniform in [a, b]
  int64_t range(int64_t a, int64_t b) {
    return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1));
  }
  bool chance(double p) {
    return (next() >> 11) * (1.0 / 9007199254740992.0) < p;
  }
  double unit() {
    return (next() >> 11) * (1.0 / 9007199254740992.0);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + below(v.size()));
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) {
      std::swap(v[i - 1], v[below(i)]);
    }
  }
  // biased towards small values, sometimes large: [0, max]
  uint64_t skewed(uint64_t max) {
    uint64_t bits = 0;
    while ((max >> bits) != 0 && bits < 63) {
      bits++;
    }
    uint64_t b = below(bits + 1);
    uint64_t v = b == 0 ? 0 : (next() & ((1ULL << b) - 1));
    return v > max ? max : v;
  }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  auto* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; i++) {
    h = (h ^ b[i]) * 1099511628211ULL;
  }
  return h;
}
inline uint64_t fnvs(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  return fnv(s.data(), s.size(), h);
}

std::string fmtv(const char* f, va_list ap);
std::string sf(const char* f, ...) __attribute__((format(printf, 1, 2)));

// thrown by Case::abort() to leave a case early after a violation was reported
struct Abandon {};

struct Case {
  uint64_t seed{};
  uint64_t number{};
  bool thorough{};
  Rng rng;
  std::string tmp; // scratch folder of this process, emptied between cases
  std::string mode; // --mode
  // reports a violation; `key` identifies what fails (no random parts), `detail` is the witness
  void fail(const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void failNow(const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4)));
  bool check(bool ok, const std::string& key, const char* f, ...) __attribute__((format(printf, 4, 5)));
  // what this case exercised: cases with equal signatures count once; "" means trivial
  void signature(const std::string& sig);
  void count(const std::string& counter, int64_t n = 1);
  void maxi(const std::string& counter, int64_t n);
  void sample(const std::string& text); // kept for the first few cases
  int failures{};
  std::string file(const std::string& name) const {
    return tmp + "/" + name;
  }
};

Case* current();
int mainImpl(int argc, char** argv, void (*run)(Case&));

// small utilities
std::vector<uint8_t> slurp(const std::string& path);
void spew(const std::string& path, const void* data, size_t n);
std::vector<std::string> listDir(const std::string& dir);
void wipeDir(const std::string& dir); // removes the files directly in dir, and sub folders
std::string hex(const void* p, size_t n, size_t max = 32);
std::string printable(const std::string& s, size_t max = 60);

} // namespace vh

#define VH_MAIN()                            \
  int main(int argc, char** argv) {          \
    return vh::mainImpl(argc, argv, runCase); \
  }
