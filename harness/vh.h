// Common frame of all harnesses.
//
// A harness is a list of case functions. Case number i of a function depends
// only on (seed, function name, i). The driver (lib/driver.py) starts several
// processes, each one taking every n-th case; the number of the case being run
// is kept in a shared file so that a crash can be attributed to its case.
#ifndef VERIF_VH_H
#define VERIF_VH_H

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>
#include <cxxabi.h>

namespace vh {

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return mix64(h);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // [0, n)
  uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
  // [lo, hi]
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
  }
  bool chance(int percent) { return (int)below(100) < percent; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
  template <typename C>
  auto pick(const C& c) -> decltype(c[0]) {
    return c[below(c.size())];
  }
  template <typename T, size_t N>
  const T& pick(const T (&c)[N]) {
    return c[below(N)];
  }
  // small sizes are likely, big ones possible
  int64_t skewed(int64_t hi) {
    int64_t h = hi;
    while (h > 1 && chance(50)) h = (h + 1) / 2;
    return range(0, h);
  }
  template <typename V>
  void shuffle(V& v) {
    for (size_t i = v.size(); i > 1; --i) {
      std::swap(v[i - 1], v[below(i)]);
    }
  }
};

inline std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += d[c >> 4];
    r += d[c & 15];
  }
  return r;
}

// printable form for messages
inline std::string show(const std::string& s, size_t max = 300) {
  static const bool full = getenv("VERIF_FULL") != nullptr;
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (r.size() > max && !full) {
      r += "...(" + std::to_string(s.size()) + " bytes)";
      break;
    }
    unsigned char c = s[i];
    if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\\') r += "\\\\";
    else if (c < 0x20 || c == 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else r += (char)c;
  }
  return r;
}

struct Shared {
  volatile int64_t current;   // case being run, -1 when idle
  volatile int64_t done;      // number of finished cases
};

struct Global {
  Shared* shared = nullptr;
  Shared dummy{-1, 0};
  std::map<std::string, uint64_t> stats;
  std::unordered_set<uint64_t> distinct;
  int samplesLeft = 3;
  std::map<std::string, int> violCount;
  uint64_t seed = 1;
  bool thorough = false;
  std::string tmpDir;
  bool verbose = false;
};

inline Global& G() {
  static Global g;
  return g;
}

struct Ctx {
  uint64_t seed;
  int64_t idx;
  Rng rng;
  bool thorough = false;
  int violations = 0;

  void viol(const std::string& key, const std::string& detail) {
    ++violations;
    int& n = G().violCount[key];
    ++n;
    if (n <= 3) {
      printf("VIOL\t%s\t%lld\t%s\n", show(key).c_str(), (long long)idx,
             show(detail, 6000).c_str());
      fflush(stdout);
    }
  }
  void stat(const std::string& name, uint64_t n = 1) { G().stats[name] += n; }
  void distinct(uint64_t h) {
    if (G().distinct.size() < 300000) G().distinct.insert(h);
  }
  void distinct(const std::string& s) { distinct(hashStr(s)); }
  void sample(const std::string& s) {
    if (G().samplesLeft > 0) {
      --G().samplesLeft;
      printf("SAMPLE\t%lld\t%s\n", (long long)idx, show(s, 1500).c_str());
    }
  }
  // the same in every run of this case, whatever is in fresh memory
  void digest(const std::string& s) {
    printf("X\t%lld\t%llx\n", (long long)idx, (unsigned long long)hashStr(s));
  }
  std::string tmp(const std::string& name) { return G().tmpDir + "/" + name; }
};

using CaseFn = std::function<void(Ctx&)>;

// build a message with <<
struct Msg {
  std::ostringstream o;
  template <typename T>
  Msg& operator<<(const T& t) {
    o << t;
    return *this;
  }
  operator std::string() const { return o.str(); }
};

inline void flushStats() {
  for (auto& p : G().stats) {
    printf("STAT\t%s\t%llu\n", p.first.c_str(), (unsigned long long)p.second);
  }
  G().stats.clear();
  for (auto h : G().distinct) printf("D\t%llx\n", (unsigned long long)h);
  G().distinct.clear();
  fflush(stdout);
}

inline std::string currentExceptionName() {
  int st = 0;
  auto* t = abi::__cxa_current_exception_type();
  if (!t) return "unknown";
  char* n = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
  std::string r = n ? n : t->name();
  free(n);
  return r;
}

inline int run(int argc, const char** argv,
               const std::map<std::string, CaseFn>& fns) {
  auto& g = G();
  std::string mode, progress;
  int64_t from = 0, to = 1, step = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string {
      return i + 1 < argc ? argv[++i] : std::string();
    };
    if (a == "--mode") mode = val();
    else if (a == "--seed") g.seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--from") from = atoll(val().c_str());
    else if (a == "--to") to = atoll(val().c_str());
    else if (a == "--step") step = atoll(val().c_str());
    else if (a == "--progress") progress = val();
    else if (a == "--tmp") g.tmpDir = val();
    else if (a == "--thorough") g.thorough = true;
    else if (a == "--verbose") g.verbose = true;
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  auto it = fns.find(mode);
  if (it == fns.end()) {
    fprintf(stderr, "unknown mode %s\n", mode.c_str());
    return 2;
  }
  g.shared = &g.dummy;
  if (!progress.empty()) {
    int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 2;
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED,
                   fd, 0);
    if (p == MAP_FAILED) return 2;
    g.shared = (Shared*)p;
    close(fd);
  }
  int64_t n = 0;
  for (int64_t i = from; i < to; i += step) {
    g.shared->current = i;
    Ctx c{g.seed, i, Rng(mix64(g.seed * 1000003 + (uint64_t)i) ^ hashStr(mode)),
          g.thorough};
    try {
      it->second(c);
    } catch (std::exception& e) {
      c.viol("exception:" + currentExceptionName(), e.what());
    } catch (...) {
      c.viol("exception:" + currentExceptionName(), "non-standard exception");
    }
    g.stats["cases"] += 1;
    g.shared->done = ++n;
    if (n % 256 == 0) flushStats();
  }
  g.shared->current = -1;
  flushStats();
  printf("DONE\n");
  fflush(stdout);
  _exit(0);  // no static destruction: not part of any property
}

}  // namespace vh
#endif
