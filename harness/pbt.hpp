// Minimal property-based testing engine (Hypothesis-style choice sequences).
//
// Every random decision of a generator is one draw from a Source.  A Source
// either produces fresh pseudo-random choices (recording them) or replays a
// recorded choice sequence (missing choices read as 0, the simplest value).
// Shrinking therefore works on the choice sequence, for any generator, and a
// replay file is nothing but the sub-check name plus the choices.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure : std::exception {
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char *what() const noexcept override { return msg.c_str(); }
};
struct Discard : std::exception {};

class Source {
 public:
  std::vector<uint64_t> rec;  // choices actually consumed
  uint64_t *tap = nullptr;    // optional mirror: count, then the choices
  size_t tap_cap = 0;
  explicit Source(uint64_t seed) : replay_(false) {
    s_[0] = seed ^ 0x9E3779B97F4A7C15ull;
    s_[1] = (seed << 1) ^ 0xD1B54A32D192ED03ull;
    for (int i = 0; i < 12; i++) next();
  }
  explicit Source(std::vector<uint64_t> c) : replay_(true), in_(std::move(c)) {}

  // uniform in [0,n)   (0 is the simplest choice)
  uint64_t below(uint64_t n) {
    if (n <= 1) {
      pos_++;
      keep(0);
      return 0;
    }
    uint64_t v = 0;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] % n : 0;
    } else {
      v = next() % n;
    }
    pos_++;
    keep(v);
    return v;
  }

 private:
  void keep(uint64_t v) {
    rec.push_back(v);
    if (tap && tap[0] < tap_cap) {
      tap[1 + tap[0]] = v;
      tap[0]++;
    }
  }
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  uint64_t s_[2];
  uint64_t next() {
    uint64_t a = s_[0];
    const uint64_t b = s_[1];
    s_[0] = b;
    a ^= a << 23;
    s_[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    uint64_t z = s_[1] + b;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

// One generated case: draws + labels + description + verdict helpers.
class Case {
 public:
  Source src;
  std::map<std::string, uint64_t> labels;
  bool nontrivial = false;
  std::ostringstream desc;

  explicit Case(Source s) : src(std::move(s)) {}

  // ---- draws ------------------------------------------------------------
  int64_t integer(int64_t lo, int64_t hi) {
    return lo + (int64_t)src.below((uint64_t)(hi - lo) + 1);
  }
  bool coin() { return src.below(2) == 1; }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) {
    return src.below(den) >= den - num;
  }
  size_t pick(size_t n) { return (size_t)src.below(n); }
  template <class T>
  T of(std::initializer_list<T> l) {
    return *(l.begin() + pick(l.size()));
  }
  // integer biased to the low end but reaching hi regularly
  int64_t size(int64_t lo, int64_t hi) {
    switch (src.below(4)) {
      case 0: return integer(lo, std::min(hi, lo + 1));
      case 1: return integer(lo, std::min(hi, lo + 3));
      case 2: return integer(lo, lo + (hi - lo + 1) / 2);
      default: return integer(lo, hi);
    }
  }
  // like size(), now and then far beyond hi
  int64_t big(int64_t lo, int64_t hi, int64_t huge, unsigned rarity = 60) {
    if (huge > hi && src.below(rarity) == rarity - 1) return integer(hi + 1, huge);
    return size(lo, hi);
  }
  double unit() { return (double)src.below(1ull << 53) / (double)(1ull << 53); }
  // real number in [lo,hi]; mixes grid values, end points and dense values
  double real(double lo, double hi) {
    switch (src.below(8)) {
      case 0: return lo + (hi - lo) * 0.5;
      case 1: return lo + (hi - lo) * (double)src.below(9) / 8.0;
      case 2: {
        double v = std::round(lo + (hi - lo) * unit());
        return v < lo ? lo : (v > hi ? hi : v);
      }
      default: return lo + (hi - lo) * unit();
    }
  }
  // positive real, log-uniform in [lo,hi]; simple values regularly
  double logreal(double lo, double hi) {
    switch (src.below(6)) {
      case 0: return (lo <= 1 && 1 <= hi) ? 1.0 : lo;
      case 1: return (lo <= 2 && 2 <= hi) ? 2.0 : hi;
      default: return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * unit());
    }
  }
  // ---- bookkeeping ------------------------------------------------------
  void label(const std::string &l) { labels[l]++; }
  template <class T>
  void label(const std::string &l, const T &v) {
    std::ostringstream o;
    o << l << "=" << v;
    labels[o.str()]++;
  }
  void mark() { nontrivial = true; }
  template <class T>
  Case &operator<<(const T &v) {
    desc << v;
    return *this;
  }
  [[noreturn]] void fail(const std::string &m) { throw Failure(m); }
  void require(bool ok, const std::string &m) {
    if (!ok) throw Failure(m);
  }
  [[noreturn]] void discard() { throw Discard(); }
};

using Fn = void (*)(Case &);
struct Sub {
  const char *name;
  Fn fn;
  double weight;  // share of the case budget
};
std::vector<Sub> &registry();
struct Reg {
  Reg(const char *n, Fn f, double w) { registry().push_back({n, f, w}); }
};
#define PBT_SUB(NAME, WEIGHT)                              \
  static void pbt_fn_##NAME(::pbt::Case &);                \
  static ::pbt::Reg pbt_reg_##NAME(#NAME, pbt_fn_##NAME, WEIGHT); \
  static void pbt_fn_##NAME(::pbt::Case &c)

}  // namespace pbt
