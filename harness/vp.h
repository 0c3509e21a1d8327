// Harness core: choice tapes, cases, arms.  See DESIGN.md.
#ifndef VP_H
#define VP_H
#include <atomic>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

using u64 = std::uint64_t;
using i64 = std::int64_t;
using u128 = unsigned __int128;
using i128 = __int128;
using Tape = std::vector<u64>;

struct Fail : std::runtime_error {
  using std::runtime_error::runtime_error;
};
inline std::atomic<unsigned> sigpipes{0};  // SIGPIPEs so far: unless handled, each ends a process
struct Discard : std::exception {};

std::string str(u128 v);
std::string hex(const unsigned char* p, std::size_t n);
inline std::string hex(const std::vector<unsigned char>& v) { return hex(v.data(), v.size()); }

inline u64 splitmix(u64& s) {
  u64 z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// Expands one tape word into a stream (a pure function of the tape).
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() { return splitmix(s); }
  u64 below(u64 n) { return next() % n; }
  u128 next128() { u128 h = next(); return (h << 64) | next(); }
};

class Case {
 public:
  explicit Case(const Tape& t) : tape_(t) {}

  // --- choices -----------------------------------------------------------
  u64 word() {  // raw word
    u64 w = pull();
    record(w);
    mix(w);
    return w;
  }
  // uniform in [lo, hi]; an exhausted tape gives lo
  u64 range(u64 lo, u64 hi) {
    u64 w = pull();
    u64 span = hi - lo + 1;
    u64 v = span ? w % span : w;
    record(v);
    mix(v ^ (lo << 32) ^ hi);
    return lo + v;
  }
  // true with probability num/den; exhausted tape gives false
  bool chance(u64 num, u64 den) { return range(0, den - 1) >= den - num; }
  // a bit for use inside threads: does not consume the tape
  bool tape_bit() const { return key_ & 1; }
  bool flip() { return range(0, 1) == 1; }
  template <typename T>
  const T& pick(const std::vector<T>& v) { return v[range(0, v.size() - 1)]; }
  // weighted choice: index with weight w[i]; exhausted tape gives 0
  std::size_t weighted(std::initializer_list<unsigned> w) {
    u64 tot = 0;
    for (auto x : w) tot += x;
    u64 r = range(0, tot - 1), i = 0;
    for (auto x : w) {
      if (r < x) return i;
      r -= x;
      i++;
    }
    return 0;
  }
  Rng rng() { return Rng(word()); }
  // a size in [lo, hi], often next to a power of two (where block sizes and buffers end)
  std::size_t size(std::size_t lo, std::size_t hi) {
    if (chance(1, 3)) {
      u64 b = range(0, 20), d = range(0, 2), v = (u64(1) << b) + d;
      if (v >= 1 + lo && v - 1 <= hi) return (std::size_t)(v - 1);
    }
    u64 span = range(0, 2) == 0 ? hi - lo : (hi - lo) / 8;
    return (std::size_t)range(lo, lo + span);
  }
  // 64-bit value with boundary bias
  u64 u64e() {
    switch (weighted({3, 2, 2, 3})) {
      case 0: return range(0, 4);
      case 1: { u64 b = range(0, 63); u64 d = range(0, 4); return (u64(1) << b) + d - 2; }
      case 2: return ~u64(0) - range(0, 4);
      default: return word();
    }
  }
  u128 u128e() {
    switch (weighted({3, 3, 2, 3})) {
      case 0: return range(0, 4);
      case 1: { u64 b = range(0, 127); u64 d = range(0, 4); return (u128(1) << b) + d - 2; }
      case 2: return ~u128(0) - range(0, 4);
      default: { u128 h = word(); return (h << 64) | word(); }
    }
  }
  std::vector<unsigned char> bytes(std::size_t n) {
    Rng r = rng();
    std::vector<unsigned char> v(n);
    for (auto& b : v) b = (unsigned char)r.next();
    return v;
  }
  // random permutation of 0..n-1
  std::vector<std::size_t> perm(std::size_t n) {
    std::vector<std::size_t> p(n);
    for (std::size_t i = 0; i < n; i++) p[i] = i;
    for (std::size_t i = 0; i + 1 < n; i++) {
      std::size_t j = i + range(0, n - 1 - i);
      std::swap(p[i], p[j]);
    }
    return p;
  }

  // --- bookkeeping -------------------------------------------------------
  template <typename... A>
  void note(const A&... a) {
    if (desc_.size() > 6000) return;
    std::ostringstream o;
    (o << ... << a);
    desc_ += o.str();
    desc_ += "; ";
  }
  void label(const std::string& l) { labels_.insert(l); }
  void interesting(bool b = true) { nontrivial_ = nontrivial_ || b; }
  [[noreturn]] void discard() { throw Discard(); }

  const std::string& desc() const { return desc_; }
  const std::set<std::string>& labels() const { return labels_; }
  bool nontrivial() const { return nontrivial_; }
  u64 key() const { return key_; }
  const Tape& used() const { return used_; }

 private:
  u64 pull() { return pos_ < tape_.size() ? tape_[pos_++] : 0; }
  void record(u64 v) { used_.push_back(v); }
  void mix(u64 v) {
    u64 s = key_ ^ v;
    key_ = splitmix(s);
  }
  const Tape& tape_;
  std::size_t pos_ = 0;
  Tape used_;
  std::string desc_;
  std::set<std::string> labels_;
  bool nontrivial_ = false;
  u64 key_ = 0x1234567;
};

struct Arm {
  const char* name;
  std::function<void(Case&)> fn;
  int quick;          // cases per worker in the quick tier
  int thorough;       // cases per worker in the thorough tier
  int tape_len;       // words generated
  double share;       // share of the time budget
  bool fuzz;          // also driven by libFuzzer in the thorough tier
};
std::vector<Arm>& arms();
struct Reg {
  Reg(const char* name, std::function<void(Case&)> fn, int quick, int thorough, int tape_len, double share = 1, bool fuzz = false) {
    arms().push_back(Arm{name, fn, quick, thorough, tape_len, share, fuzz});
  }
};
extern const char* kRule;  // defined by each property: what is generated, what counts as non-trivial

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP_ARM(name, quick, thor, len, share)                                    \
  static void VP_CAT(arm_, name)(vp::Case&);                                     \
  static vp::Reg VP_CAT(reg_, name)(#name, VP_CAT(arm_, name), quick, thor, len, share); \
  static void VP_CAT(arm_, name)(vp::Case & c)
#define VP_ARM_FUZZ(name, quick, thor, len, share)                                    \
  static void VP_CAT(arm_, name)(vp::Case&);                                     \
  static vp::Reg VP_CAT(reg_, name)(#name, VP_CAT(arm_, name), quick, thor, len, share, true); \
  static void VP_CAT(arm_, name)(vp::Case & c)

template <typename... A>
[[noreturn]] void fail(const A&... a) {
  std::ostringstream o;
  (o << ... << a);
  throw Fail(o.str());
}
#define VP_CHECK(cond, ...)                                          \
  do {                                                               \
    if (!(cond)) ::vp::fail("[", #cond, "] ", ##__VA_ARGS__);        \
  } while (0)

// Ends the process with this failure for the current case (for use while other threads may be blocked).
[[noreturn]] void die(const std::string& msg);
// From now on a case that is stuck for this long with all threads asleep is a failure. Counting up `progress` says that
// it is not stuck.
extern std::atomic<u64> progress;
void watch_for_deadlock(double seconds);

// Runs f; returns true iff it threw a std::exception. Anything else propagates.
template <typename F>
bool throws(F f) {
  try {
    f();
  } catch (const Fail&) {
    throw;
  } catch (const Discard&) {
    throw;
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

}  // namespace vp
#endif
