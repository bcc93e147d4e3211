// Shared driver of the replay harnesses.  A harness runs the real code of /repo on generated inputs and compares it with
// an executable reading of the contract; it supplies the concrete failing input when an obligation is not discharged.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int i(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
  bool p(int percent) { return i(0, 99) < percent; }
  double d(double lo, double hi) { return lo + (hi - lo) * (double(next() >> 11) / 9007199254740992.0); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

struct H {
  static uint64_t& idx() { static uint64_t x = 0; return x; }
  static uint64_t*& shared() { static uint64_t* x = nullptr; return x; }
  static int& fails() { static int x = 0; return x; }
  static uint64_t& checks() { static uint64_t x = 0; return x; }
  static std::set<std::string>& seen() { static std::set<std::string> x; return x; }
  static std::set<uint64_t>& kinds() { static std::set<uint64_t> x; return x; }
  static std::string& note() { static std::string x; return x; }
};

// key identifies the violated clause (and, for known findings, the input class); msg describes input and outcome
inline void FAIL(const std::string& key, const std::string& msg) {
  H::fails()++;
  if (!H::seen().insert(key).second) return;
  std::string m = msg;
  for (auto& c : m) if (c == '\n') c = ' ';
  printf("FAIL\t%s\t%llu\t%s\n", key.c_str(), (unsigned long long)H::idx(), m.c_str());
  fflush(stdout);
}
#define CHECK(key, cond, msg) do { H::checks()++; if (!(cond)) { std::ostringstream _o; _o.precision(17); _o << msg; FAIL(key, _o.str()); } } while (0)

// reports how many distinct shapes of input were seen
inline void KIND(uint64_t h) { if (H::kinds().size() < 5000000) H::kinds().insert(h); }
inline uint64_t hashstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

void oneCase(uint64_t idx, Rng& r);   // supplied by the harness

int main(int argc, char** argv) {
  // argv: seed first count seconds progress-file
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1, first = argc > 2 ? strtoull(argv[2], 0, 10) : 0;
  uint64_t count = argc > 3 ? strtoull(argv[3], 0, 10) : 1000;
  double secs = argc > 4 ? atof(argv[4]) : 10;
  static uint64_t dummy[2];
  H::shared() = dummy;
  if (argc > 5) {
    int fd = open(argv[5], O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 16) == 0) {
      void* m = mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) H::shared() = static_cast<uint64_t*>(m);
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  uint64_t n = 0;
  for (uint64_t k = first; k < first + count; k++, n++) {
    H::idx() = k;
    H::shared()[0] = k;
    H::shared()[1] = n;
    Rng r(seed * 1000003ull + k);
    srand(unsigned(seed + k));
    oneCase(k, r);
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) { n++; break; }
  }
  printf("DONE\t%llu\t%llu\t%d\t%llu\n", (unsigned long long)n, (unsigned long long)H::kinds().size(), H::fails(), (unsigned long long)H::checks());
  fflush(stdout);
  _exit(0);
}
