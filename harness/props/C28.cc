// C28: the shipped programs run both protocols to the end and agree with the clear evaluation.
// vp: flavours=asan,tsan trust_oracle=1 case_timeout=90 budget=30 tbudget=300
namespace vp {
static thread_local int port_base = 0;
}
#define DEFAULT_PORT_OFFSET vp::port_base
#include <scl/net/config.h>
#include <scl/net/network.h>

#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <vector>

#include "net_util.h"
#include "tp_util.h"
#undef NDEBUG
#include <assert.h>
#undef assert
#define assert(...) ((__VA_ARGS__) ? (void)(vp::own_checks++) : vp::die("the program's own check failed: " #__VA_ARGS__))
namespace vp {
static std::atomic<u64> own_checks{0};
}
// the circuits the programs build
namespace vp {
static thread_local std::vector<tp::CircuitConfig> built;
static const tp::CircuitConfig& spy(const tp::CircuitConfig& k) {
  built.push_back(k);
  return k;
}
}
#define FromConfig(...) FromConfig(vp::spy(__VA_ARGS__))
// Renamed, main may still end without a return statement; its result is then not looked at.
#pragma GCC push_options
#pragma GCC optimize("O0", "no-unreachable-traps")
#define main __attribute__((no_sanitize("return"))) main
namespace prog_ours {
#include <../experiments/ours.cc>
}
#undef PRINT
#undef DELIM
#undef DEBUG
#undef THREAD
#undef QUOTE
#undef START_TIMER
#undef STOP_TIMER
#undef assert
#define assert(...) ((__VA_ARGS__) ? (void)(vp::own_checks++) : vp::die("the program's own check failed: " #__VA_ARGS__))
namespace prog_dn07 {
#include <../experiments/dn07.cc>
}
#undef main
#undef FromConfig
#pragma GCC pop_options
using namespace vp;
const char* vp::kRule =
    "the sources of experiments/ours.cc and dn07.cc as they are, assertions on, one thread per party calling main with [n] [id] [size] [depth] over localhost sockets: n in {5,9,13,17,21}, depth 1..7, even widths, "
    "start-up in any order with generated delays, short transfers, a slow party; both programs in turn as run.sh does, on the same ports. Oracle: every main ends, the program's own comparison with the clear evaluation "
    "(party 1), the size and depth of the circuit built, and one running time per phase in the form parse_files.py reads; no deadlock, no data race (ThreadSanitizer). Bad ids must end in an exception. Non-trivial: a complete run.";

extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) {
  static auto real = reinterpret_cast<decltype(&accept)>(dlsym(RTLD_NEXT, "accept"));
  int r = real(fd, a, l), e = errno, one = 1;
  if (r >= 0 && no_delay) setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  errno = e;
  return r;
}
// what each thread prints
struct PerThread : std::streambuf {
  static std::string& text() {
    static thread_local std::string t;
    return t;
  }
  int overflow(int ch) override {
    if (ch != EOF) text().push_back((char)ch);
    return ch;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    text().append(s, (std::size_t)n);
    return n;
  }
};
struct Quiet {
  PerThread b;
  std::streambuf* old;
  Quiet() : old(std::cout.rdbuf(&b)) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
// consecutive free ports
struct Range {
  std::vector<int> locks;
  int base = 0;
  explicit Range(std::size_t n) {
    static u64 next = (u64)getpid() * 104729 + (u64)::time(nullptr);
    for (int tries = 0; tries < 5000; tries++) {
      u64 s = next++;
      int b = 10000 + (int)(splitmix(s) % 21900);
      std::vector<int> l;
      bool ok = true;
      for (std::size_t i = 0; i < n && ok; i++) {
        int p = b + (int)i, f = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        struct sockaddr_un u = {};
        u.sun_family = AF_UNIX;
        int k = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "vp-port-%d", p);
        l.push_back(f);
        ok = ::bind(f, (struct sockaddr*)&u, (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + k)) == 0;
        if (!ok) break;
        int t = ::socket(AF_INET, SOCK_STREAM, 0), on = tries > 500;
        ::setsockopt(t, SOL_SOCKET, SO_REUSEPORT, &on, sizeof on);
        struct sockaddr_in a = {};
        a.sin_family = AF_INET;
        a.sin_port = htons((uint16_t)p);
        ok = ::bind(t, (struct sockaddr*)&a, sizeof a) == 0;
        ::close(t);
      }
      if (ok) {
        locks = l;
        base = b;
        return;
      }
      for (int f : l) ::close(f);
    }
    throw Discard{};
  }
  ~Range() {
    for (int f : locks) ::close(f);
  }
};
static int call(int (*m)(int, char**), const std::vector<std::string>& args) {
  std::vector<std::string> a = {"program"};
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> v;
  for (auto& s : a) v.push_back(s.data());
  v.push_back(nullptr);
  return m((int)a.size(), v.data());
}
// values of lines "name: <integer> ..."
static std::vector<std::string> values(const std::string& text, const std::string& name) {
  std::vector<std::string> r;
  std::istringstream s(text);
  std::string line;
  while (std::getline(s, line))
    if (line.rfind(name + ":", 0) == 0) {
      std::istringstream w(line);
      std::string a, b;
      w >> a >> b;
      r.push_back(b);
    }
  return r;
}
static void runs(Case& c, int which) {
  watch_for_deadlock(20);
  sleep_cap_us = 1500;
  std::size_t n = 5 + 4 * c.weighted({6, 4, 2, 1, 1}), depth = c.range(1, 7), width = 2 * c.range(1, c.chance(1, 3) ? 30 : 8), size = width * depth;
  if (c.chance(1, 3)) size += c.range(0, depth - 1);  // the rest of the division is left out
  no_delay = c.weighted({1, 5}) == 1;
  std::vector<u64> delay(n);
  for (auto& d : delay) d = c.weighted({2, 1}) ? 0 : c.range(0, 6000);
  u64 cs = c.word();
  unsigned ch = c.chance(1, 3) ? 7 : 0;
  c.note("n=", n, " size ", size, " depth ", depth);
  c.label(which == 0 ? "TurboPack" : which == 1 ? "DN07" : "TurboPack then DN07");
  c.interesting();
  Range ports(n);
  chop_seed = cs;
  chop_max = ch;
  auto before = own_checks.load();
  std::vector<std::string> text(n);
  std::vector<u64> wall(n);
  {
    Quiet q;
    Threads t;
    for (std::size_t i = 0; i < n; i++)
      t.go([&, i] {
        nap(delay[i]);
        auto start = std::chrono::steady_clock::now();
        port_base = ports.base;
        std::vector<std::string> a = {std::to_string(n), std::to_string(i), std::to_string(size), std::to_string(depth)};
        if (which != 1) call(prog_ours::main, a);
        if (which != 0) call(prog_dn07::main, a);
        text[i] = PerThread::text();
        wall[i] = (u64)std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - start).count() + 2;
        for (auto& k : built) {
          VP_CHECK(k.n_parties == n && k.depth == depth && k.width == width, "party ", i, " built a circuit for ", k.n_parties, " parties of width ", k.width, " and depth ", k.depth, " instead of width ", width, " and depth ", depth);
          VP_CHECK(std::accumulate(k.out_gates.begin(), k.out_gates.end(), std::size_t(0)), "party ", i, " built a circuit without outputs");
        }
      });
    t.join();
  }
  chop_max = 0;
  if (own_checks == before) c.label("no check of the programs' own");
  std::vector<std::string> names;
  if (which != 1)
    for (auto s : {"fi_prep", "fd_prep", "online"}) names.push_back(s);
  if (which != 0)
    for (auto s : {"dn07_prep", "dn07_fd", "dn07_online"}) names.push_back(s);
  u64 all = 0, shown = 0;
  for (std::size_t i = 0; i < n; i++) {
    u64 sum = 0;
    for (auto& nm : names) {
      auto v = values(text[i], nm);
      VP_CHECK(v.size() == 1, "party ", i, " printed ", v.size(), " running times of ", nm);
      VP_CHECK(!v[0].empty() && v[0].size() < 18 && v[0].find_first_not_of("0123456789") == std::string::npos, "running time of ", nm, " is printed as '", v[0], "'");
      sum += std::stoull(v[0]);
    }
    VP_CHECK(sum <= wall[i], "the running times of party ", i, " add up to ", sum, " us of ", wall[i]);
    all += wall[i];
    shown += sum;
  }
  VP_CHECK(all < 20000 || shown >= all / 100, "the running times of all parties add up to ", shown, " us of ", all);
}
VP_ARM(turbopack, 120, 2500, 40, 2) { runs(c, 0); }
VP_ARM(dn07, 120, 2500, 40, 2) { runs(c, 1); }
VP_ARM(both, 80, 1500, 40, 2) { runs(c, 2); }
VP_ARM(arguments, 300, 3000, 12, 1) {
  std::size_t n = 5 + 4 * c.range(0, 4), id = n + c.range(0, 20);
  bool few = c.chance(1, 3);
  auto m = c.flip() ? prog_ours::main : prog_dn07::main;
  std::vector<std::string> a = {std::to_string(n), std::to_string(id), "20", "2"};
  if (few) a.resize(c.range(0, 3));
  c.note(few ? "too few arguments" : "an id outside the network", " n=", n, " id=", id);
  c.interesting();
  Range ports(1);
  port_base = ports.base;
  Quiet q;
  bool rejected = throws([&] { call(m, a); });
  if (!few) VP_CHECK(rejected, "id ", id, " of ", n, " parties accepted");
  else VP_CHECK(!rejected, "too few arguments ended with an exception");
  PerThread::text().clear();
}
