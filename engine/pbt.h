// Small property-based testing engine: choice-sequence generation, integrated
// shrinking, crash/hang containment by forked workers, replay files, evidence.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
  std::string sig; // stable class of the failure (used to keep shrinking on one bug)
  std::string msg;
};

inline auto mix64(uint64_t z) -> uint64_t {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

// Every random decision of a case comes from here. In generation mode values come from a
// seeded RNG and are recorded; in replay mode they come from a recorded sequence (0 when it
// is exhausted), which is what makes shrinking and replay work for every generator.
class Source {
public:
  explicit Source(uint64_t seed) : state(seed), replaying(false) {}
  explicit Source(std::vector<uint64_t> seq) : recorded(std::move(seq)), replaying(true) {}

  // uniform in [0, bound]
  auto draw(uint64_t bound) -> uint64_t {
    uint64_t v = 0;
    if (replaying) {
      v = pos < recorded.size() ? recorded[pos] : 0;
      if (v > bound) {
        v = bound == std::numeric_limits<uint64_t>::max() ? v : v % (bound + 1);
      }
    } else {
      state += 0x9e3779b97f4a7c15ULL;
      uint64_t r = mix64(state);
      v = bound == std::numeric_limits<uint64_t>::max() ? r : r % (bound + 1);
    }
    pos++;
    used.push_back(v);
    if (mirror != nullptr && used.size() < mirrorCap) {
      mirror[used.size()] = v;
      mirror[0] = used.size();
    }
    return v;
  }
  auto choices() const -> const std::vector<uint64_t> & { return used; }

  // integer in [lo, hi]; shrinks towards lo
  auto range(int64_t lo, int64_t hi) -> int64_t {
    if (hi <= lo) {
      return lo;
    }
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo)));
  }
  // mixes uniform, small and boundary values of [lo, hi]; shrinks towards lo
  auto edgy(int64_t lo, int64_t hi) -> int64_t {
    if (hi <= lo) {
      return lo;
    }
    switch (draw(5)) {
    case 0:
    case 1:
      return range(lo, std::min<int64_t>(hi, lo + 8));
    case 2:
      return hi - range(0, std::min<int64_t>(hi - lo, 3));
    case 3: { // near a power of two
      int64_t p = static_cast<int64_t>(1) << range(0, 40);
      int64_t v = p + range(0, 2) - 1;
      return v < lo ? lo : (v > hi ? lo + v % (hi - lo + 1) : v);
    }
    default:
      return range(lo, hi);
    }
  }
  // true with probability num/den; shrinks towards false
  auto chance(unsigned num, unsigned den) -> bool { return draw(den - 1) >= den - num; }
  auto boolean() -> bool { return draw(1) == 1; }
  // [0,1)
  auto unit() -> double {
    return static_cast<double>(draw((1ULL << 30) - 1)) / static_cast<double>(1ULL << 30);
  }
  auto real(double lo, double hi) -> double { return lo + (hi - lo) * unit(); }
  template <class T> auto pick(const std::vector<T> &v) -> T {
    return v[static_cast<size_t>(draw(v.size() - 1))];
  }
  // index drawn with the given weights (index 0 is the simplest)
  auto weighted(const std::vector<unsigned> &w) -> size_t {
    uint64_t total = 0;
    for (auto x : w) {
      total += x;
    }
    uint64_t v = draw(total - 1);
    for (size_t i = 0; i < w.size(); i++) {
      if (v < w[i]) {
        return i;
      }
      v -= w[i];
    }
    return w.size() - 1;
  }

  // shared-memory copy of the choices, so that a crash or a hang can be replayed
  inline static uint64_t *mirror = nullptr;
  static constexpr size_t mirrorCap = 1 << 20;

private:
  uint64_t state = 0;
  std::vector<uint64_t> recorded;
  std::vector<uint64_t> used;
  size_t pos = 0;
  bool replaying;
};

class Case {
public:
  void label(const std::string &l) { labels.insert(l); }
  void label(bool cond, const std::string &l) {
    if (cond) {
      labels.insert(l);
    }
  }
  void nontrivial(bool v = true) { isNontrivial = isNontrivial || v; }
  void fingerprint(const std::string &s) {
    fp = std::hash<std::string>{}(s);
    hasFp = true;
  }
  // human readable description of the case: shown in samples and in replay files
  void describe(const std::string &s) {
    if (keepDescription) {
      description += s + "\n";
    }
    if (!mirrorFile.empty()) { // survives a crash of the case
      if (FILE *f = fopen(mirrorFile.c_str(), "ab")) {
        fwrite(s.data(), 1, s.size(), f);
        fwrite("\n", 1, 1, f);
        fclose(f);
      }
    }
  }
  [[noreturn]] static void fail(const std::string &sig, const std::string &msg) {
    throw Failure{sig, msg};
  }
  static void require(bool cond, const std::string &sig, const std::string &msg) {
    if (!cond) {
      throw Failure{sig, msg};
    }
  }
  [[noreturn]] static void discard() { throw Discard{}; }

  inline static std::string mirrorFile;
  std::set<std::string> labels;
  bool isNontrivial = false;
  bool hasFp = false;
  uint64_t fp = 0;
  bool keepDescription = true;
  std::string description;
};

struct Target {
  std::string name;
  std::function<void(Source &, Case &)> fn;
  uint64_t quickCases;
  uint64_t thoroughCases;
  int timeoutMs = 20000;
};

struct Config {
  std::string property;
  std::string rule; // how cases are made and what makes one non-trivial
  std::vector<std::string> assumptions;
  std::vector<Target> targets;
  // called in each worker right after the fork (scratch folder is the cwd)
  std::function<void()> init;
};

auto run(const Config &cfg, int argc, char **argv) -> int;

// private scratch directory of the calling process (inside the check's own scratch folder)
auto scratch() -> const std::string &;

template <class... A> auto str(const A &...a) -> std::string {
  std::ostringstream o;
  o.precision(12);
  (o << ... << a);
  return o.str();
}

} // namespace pbt
