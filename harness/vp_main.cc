// Driver: generation and shrinking with rapidcheck, replay, statistics.
#include "vp.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <mutex>
#include <thread>
#include <unordered_set>

namespace vp {
std::vector<Arm>& arms() {
  static std::vector<Arm> a;
  return a;
}
static bool g_thorough = false;
std::string str(u128 v) {
  if (!v) return "0";
  std::string s;
  while (v) {
    s.insert(s.begin(), char('0' + int(v % 10)));
    v /= 10;
  }
  return s;
}
std::string hex(const unsigned char* p, std::size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (std::size_t i = 0; i < n; i++) {
    s += d[p[i] >> 4];
    s += d[p[i] & 15];
  }
  return s;
}
}  // namespace vp

using namespace vp;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// The tape being run, in a mapped file so it survives a crash.
static u64* g_map = nullptr;
static const std::size_t kMapWords = 1 << 16;
static const Arm* g_arm = nullptr;
static void publish(std::size_t arm, const Tape& t) {
  if (!g_map) return;
  g_map[0] = 0;
  g_map[1] = arm;
  std::size_t n = std::min(t.size(), kMapWords - 3);
  g_map[2] = n;
  std::memcpy(g_map + 3, t.data(), n * 8);
  g_map[0] = 1;
}
static void unpublish() {
  if (g_map) g_map[0] = 0;
}

static void on_alarm(int) {
  static const char m[] = "VP-TIMEOUT\n";
  (void)!::write(2, m, sizeof m - 1);
  _exit(77);
}
static void set_timeout(double s) {
  struct itimerval v = {{0, 0}, {(time_t)s, (suseconds_t)((s - (time_t)s) * 1e6)}};
  setitimer(ITIMER_REAL, &v, nullptr);
}

static std::atomic<Case*> g_case{nullptr};
static std::function<void(const std::string&)> g_die;  // how the current mode reports a failure that ends the process
static std::mutex g_die_mutex;
static std::atomic<unsigned long> g_case_no{0};
namespace vp {
[[noreturn]] void die(const std::string& msg) {
  g_die_mutex.lock();  // never released: the first failure is the one reported
  if (g_die) g_die(msg);
  std::cerr << "FAIL " << msg << "\n";
  _exit(1);
}

// Sum of user and system time of all threads but `self`, and whether one of them is runnable.
static bool sample_threads(long self, unsigned long long& cpu) {
  cpu = 0;
  bool running = false;
  DIR* d = opendir("/proc/self/task");
  if (!d) return true;
  while (auto* e = readdir(d)) {
    long tid = atol(e->d_name);
    if (tid <= 0 || tid == self) continue;
    char path[64], buf[512];
    snprintf(path, sizeof path, "/proc/self/task/%ld/stat", tid);
    FILE* f = fopen(path, "r");
    if (!f) continue;
    std::size_t k = fread(buf, 1, sizeof buf - 1, f);
    fclose(f);
    buf[k] = 0;
    char* q = strrchr(buf, ')');
    if (!q) continue;
    char state = 0;
    unsigned long long ut = 0, st = 0;
    sscanf(q + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &state, &ut, &st);
    cpu += ut + st;
    if (state != 'S' && state != 'Z' && state != 'X') running = true;
  }
  closedir(d);
  return running;
}
std::atomic<u64> progress{0};
// Reports a case whose threads are all asleep, using no processor time, long after it should have ended.
void watch_for_deadlock(double seconds) {
  static bool started = false;
  if (started) return;
  started = true;
  std::thread([seconds] {
    long self = (long)syscall(SYS_gettid);
    unsigned long seen = 0;
    u64 prog = 0;
    double since = now();
    for (;;) {
      usleep(200000);
      unsigned long k = g_case_no;
      u64 p = progress;
      if (k != seen || p != prog || !g_case) {
        seen = k;
        prog = p;
        since = now();
        continue;
      }
      if (now() - since < seconds) continue;
      unsigned long long c0, c1;
      int busy = sample_threads(self, c0);
      for (int i = 0; i < 20; i++) {
        usleep(200000);
        busy += sample_threads(self, c1);
      }
      if (g_case_no != seen || progress != prog) continue;
      if (busy <= 1 && c1 - c0 <= 4) die("deadlock: every thread is asleep and none has made progress for " + std::to_string((int)(now() - since)) + " s");
    }
  }).detach();
}
}  // namespace vp

struct Outcome {
  bool failed = false;
  bool discarded = false;
  std::string msg;
};
static Outcome run_case(const Arm& a, Case& c) {
  Outcome o;
  struct Scope {
    explicit Scope(Case* c) {
      g_case_no++;
      g_case = c;
    }
    ~Scope() { g_case = nullptr; }
  } scope(&c);
  try {
    a.fn(c);
  } catch (const Discard&) {
    o.discarded = true;
  } catch (const Fail& f) {
    o.failed = true;
    o.msg = f.what();
  } catch (const std::exception& e) {
    o.failed = true;
    o.msg = std::string("unexpected exception: ") + e.what();
  }
  return o;
}

#ifdef VP_FUZZ
// libFuzzer entry: first byte selects the arm among the fuzzable ones; the rest is the tape (1, 2 or 8 byte words).
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
  static std::vector<const Arm*> fz;
  if (fz.empty())
    for (auto& a : arms())
      if (a.fuzz) fz.push_back(&a);
  if (size < 1 || fz.empty()) return 0;
  const Arm& a = *fz[data[0] % fz.size()];
  Tape t;
  for (std::size_t i = 1; i < size;) {
    // a leading byte < 0xF0 is a small word, otherwise the next 8 bytes are one word
    if (data[i] < 0xF0 || i + 9 > size) {
      t.push_back(data[i]);
      i++;
    } else {
      u64 w;
      std::memcpy(&w, data + i + 1, 8);
      t.push_back(w);
      i += 9;
    }
  }
  Case c(t);
  auto o = run_case(a, c);
  if (o.failed) {
    const char* out = getenv("VP_FUZZ_FAIL");
    if (out) {
      std::ofstream f(out);
      f << "arm " << a.name << "\ntape";
      for (auto w : c.used()) f << " " << w;
      f << "\n";
    }
    std::cerr << "FUZZ-FAIL arm=" << a.name << " " << o.msg << "\n";
    __builtin_trap();
  }
  // so that a crash inside the code under test can also be turned into a tape
  return 0;
}
#else

#include <rapidcheck.h>
#include <rapidcheck/detail/TestParams.h>
#include <rapidcheck/detail/TestListener.h>

struct NullListener : rc::detail::TestListener {
  void onTestCaseFinished(const rc::detail::CaseDescription&) override {}
  void onShrinkTried(const rc::detail::CaseDescription&, bool) override {}
  void onTestFinished(const rc::detail::TestMetadata&, const rc::detail::TestResult&) override {}
};

static double g_shrink_end = 1e300;  // no further candidates after this moment
static rc::Seq<Tape> shrink_tape(const Tape& t) {
  // truncations and zeroed chunks first: an exhausted tape reads as zeros
  std::vector<Tape> easy;
  std::size_t n = t.size();
  for (std::size_t keep : {std::size_t(0), n / 4, n / 2, n - n / 4, n - n / 8})
    if (keep < n) easy.push_back(Tape(t.begin(), t.begin() + (long)keep));
  for (std::size_t len = n / 2; len >= 1 && len >= n / 256; len /= 2) {
    for (std::size_t at = 0; at + len <= n; at += len) {
      bool any = false;
      for (std::size_t i = at; i < at + len; i++) any |= t[i] != 0;
      if (!any) continue;
      Tape z = t;
      std::fill(z.begin() + (long)at, z.begin() + (long)(at + len), 0);
      easy.push_back(z);
    }
  }
  return rc::seq::takeWhile(
      rc::seq::concat(
          rc::seq::fromContainer(std::move(easy)),
          rc::shrink::removeChunks(t),
          rc::shrink::eachElement(t, [](u64 w) { return rc::shrink::towards<u64>(w, 0); })),
      [](const Tape&) { return now() < g_shrink_end; });
}
namespace rc {
// tapes print as words
}

static rc::Gen<Tape> gen_tape(int len) {
  return rc::Gen<Tape>([len](const rc::Random& random, int) {
    rc::Random r(random);
    Tape t(len);
    for (auto& w : t) w = r.next();
    return rc::shrinkable::just(std::move(t));
  });
}
static rc::Gen<Tape> gen_from(const Tape& start) {
  return rc::Gen<Tape>([start](const rc::Random&, int) { return rc::shrinkable::shrinkRecur(start, shrink_tape); });
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch < 0x20 || ch > 0x7e) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}

static void write_tape(const std::string& path, const Arm& a, const Tape& t, const std::string& desc, const std::string& msg) {
  std::ofstream f(path);
  f << "arm " << a.name << "\ntape";
  for (auto w : t) f << " " << w;
  f << "\n";
  std::istringstream d(desc), m(msg);
  std::string l;
  while (std::getline(d, l)) f << "# case: " << l << "\n";
  while (std::getline(m, l)) f << "# failure: " << l << "\n";
}
static const Arm* read_tape(const std::string& path, Tape& t) {
  std::ifstream f(path);
  std::string l;
  const Arm* a = nullptr;
  while (std::getline(f, l)) {
    std::istringstream s(l);
    std::string k;
    s >> k;
    if (k == "arm") {
      std::string n;
      s >> n;
      for (auto& x : arms())
        if (n == x.name) a = &x;
    } else if (k == "tape") {
      u64 w;
      while (s >> w) t.push_back(w);
    }
  }
  return a;
}

static int do_replay(const std::string& path, double timeout) {
  Tape t;
  const Arm* a = read_tape(path, t);
  if (!a) {
    std::cerr << "no such arm in " << path << "\n";
    return 2;
  }
  signal(SIGALRM, on_alarm);
  set_timeout(timeout);
  Case c(t);
  g_die = [&](const std::string& m) {
    std::cout << "arm " << a->name << "\ncase: " << c.desc() << "\nFAILED: " << m << std::endl;
    _exit(1);
  };
  auto o = run_case(*a, c);
  set_timeout(0);
  std::cout << "arm " << a->name << "\ncase: " << c.desc() << "\n";
  if (o.failed) {
    std::cout << "FAILED: " << o.msg << "\n";
    return 1;
  }
  std::cout << (o.discarded ? "discarded\n" : "passed\n");
  return 0;
}

// Runs one tape in a child; returns true if it fails (any abnormal end counts).
static bool fails_in_child(const Arm& a, const Tape& t, double timeout, std::string* msg, std::string* desc, Tape* used) {
  int fd[2];
  if (pipe(fd)) return false;
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    int dn = open("/dev/null", O_WRONLY);
    if (!getenv("VP_VERBOSE")) {
      dup2(dn, 1);
      dup2(dn, 2);
    }
    signal(SIGALRM, on_alarm);
    set_timeout(timeout);
    Case c(t);
    auto report = [&](const std::string& m) {
      std::string out = m;
      out += '\0';
      out += c.desc();
      out += '\0';
      for (auto w : c.used()) out += std::to_string(w) + " ";
      (void)!::write(fd[1], out.data(), std::min<std::size_t>(out.size(), 60000));
    };
    g_die = [&](const std::string& m) {
      report(m);
      _exit(1);
    };
    auto o = run_case(a, c);
    set_timeout(0);
    report(o.failed ? o.msg : "");
    _exit(o.failed ? 1 : 0);
  }
  close(fd[1]);
  std::string got;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, n);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if (msg) {
    auto z = got.find('\0');
    if (z != std::string::npos) {
      *msg = got.substr(0, z);
      auto z2 = got.find('\0', z + 1);
      if (desc) *desc = got.substr(z + 1, z2 == std::string::npos ? z2 : z2 - z - 1);
      if (used && z2 != std::string::npos) {
        used->clear();
        std::istringstream s(got.substr(z2 + 1));
        u64 w;
        while (s >> w) used->push_back(w);
      }
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
      *msg = "timeout (no progress)";
    else if (WIFSIGNALED(st))
      *msg = "killed by signal " + std::to_string(WTERMSIG(st));
    else
      *msg = "process aborted (sanitizer report or crash), exit " + std::to_string(WEXITSTATUS(st));
  }
  return true;
}

static int do_shrink(const std::string& in, const std::string& out, double budget, double timeout) {
  Tape t;
  const Arm* a = read_tape(in, t);
  if (!a) return 2;
  double end = now() + budget;
  g_shrink_end = end;
  std::string msg, desc;
  Tape used;
  if (!fails_in_child(*a, t, timeout, &msg, &desc, &used)) {
    std::cerr << "does not reproduce\n";
    return 3;
  }
  Tape best = t;
  if (!used.empty() && fails_in_child(*a, used, timeout, nullptr, nullptr, nullptr)) best = used;
  rc::detail::TestParams p;
  p.seed = 1;
  p.maxSuccess = 1;
  NullListener nl;
  rc::detail::TestMetadata md;
  Tape start = best;
  int tries = 0;
  rc::detail::checkTestable(
      [&] {
        Tape cand = *gen_from(start);
        if (now() > end) return;
        tries++;
        if (fails_in_child(*a, cand, std::min(timeout, 10.0), nullptr, nullptr, nullptr)) {
          best = cand;
          RC_FAIL("still fails");
        }
      },
      md, p, nl);
  msg.clear();
  desc.clear();
  fails_in_child(*a, best, timeout, &msg, &desc, nullptr);
  write_tape(out, *a, best, desc, msg);
  std::cout << "shrunk from " << t.size() << " to " << best.size() << " words in " << tries << " tries: " << msg << "\n";
  return 0;
}

int main(int argc, char** argv) {
  std::map<std::string, std::string> o;
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i];
    if (k == "--list") {
      for (auto& a : arms()) std::cout << a.name << " " << a.fuzz << "\n";
      return 0;
    }
    if (i + 1 < argc) o[k] = argv[++i];
  }
  auto num = [&](const char* k, double d) { return o.count(k) ? std::stod(o[k]) : d; };
  g_thorough = o["--tier"] == "thorough";
  double timeout = num("--case-timeout", 60);
  signal(SIGPIPE, [](int) { vp::sigpipes.fetch_add(1); });
  if (o.count("--replay")) return do_replay(o["--replay"], timeout);
  if (o.count("--shrink")) return do_shrink(o["--shrink"], o["--out"], num("--budget", 60), timeout);

  u64 seed = std::stoull(o.count("--seed") ? o["--seed"] : "1");
  u64 worker = (u64)num("--worker", 0);
  double budget = num("--budget", 60);
  if (o.count("--cur")) {
    int fd = open(o["--cur"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, kMapWords * 8)) return 2;
    g_map = (u64*)mmap(nullptr, kMapWords * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  }
  signal(SIGALRM, on_alarm);
  double scale = num("--scale", 1);
  auto selected = [&](const Arm& a) {
    if (!o.count("--only")) return true;
    return ("," + o["--only"] + ",").find("," + std::string(a.name) + ",") != std::string::npos;
  };
  double totshare = 0;
  for (auto& a : arms())
    if (selected(a)) totshare += a.share;
  std::ostringstream js;
  std::unordered_set<u64> keys;
  u64 total = 0, totdisc = 0;
  bool failed = false;
  std::vector<std::string> samples;
  js << "{\"arms\":{";
  bool first = true;
  for (std::size_t ai = 0; ai < arms().size() && !failed; ai++) {
    const Arm& a = arms()[ai];
    if (!selected(a)) continue;
    double t0 = now(), end = t0 + budget * a.share / totshare;
    u64 n = 0, disc = 0, skipped = 0, nontriv = 0;
    std::map<std::string, u64> labels;
    std::size_t nsamp = 0;
    u64 s = seed * 1000003 + worker * 7919 + 0xABCDEF;
    for (const char* q = a.name; *q; q++) s = s * 131 + (unsigned char)*q;
    rc::detail::TestParams p;
    p.seed = splitmix(s);
    p.maxSuccess = std::max(1, (int)((g_thorough ? a.thorough : a.quick) * scale));
    p.disableShrinking = true;
    NullListener nl;
    rc::detail::TestMetadata md;
    auto gen = gen_tape(a.tape_len);
    rc::detail::checkTestable(
        [&] {
          if (now() > end) {
            skipped++;
            return;
          }
          Tape t = *gen;
          publish(ai, t);
          set_timeout(timeout);
          Case c(t);
          g_die = [&](const std::string& m) {
            if (o.count("--fail")) write_tape(o["--fail"], a, c.used(), c.desc(), m);
            std::cerr << "FAIL arm=" << a.name << ": " << m << "\n  case: " << c.desc().substr(0, 2000) << std::endl;
            _exit(1);
          };
          auto r = run_case(a, c);
          set_timeout(0);
          unpublish();
          n++;
          if (r.discarded) {
            disc++;
            return;
          }
          for (auto& l : c.labels()) labels[l]++;
          if (c.nontrivial()) {
            nontriv++;
            keys.insert(c.key() * 31 + ai);
            if (nsamp < 2 && !r.failed) {
              nsamp++;
              samples.push_back(std::string(a.name) + ": " + c.desc().substr(0, 700));
            }
          }
          if (r.failed) {
            failed = true;
            if (o.count("--fail")) write_tape(o["--fail"], a, c.used(), c.desc(), r.msg);
            std::cerr << "FAIL arm=" << a.name << ": " << r.msg << "\n  case: " << c.desc().substr(0, 2000) << "\n";
            RC_FAIL("property failed");
          }
        },
        md, p, nl);
    total += n;
    totdisc += disc;
    if (!first) js << ",";
    first = false;
    js << jstr(a.name) << ":{\"cases\":" << n << ",\"discarded\":" << disc << ",\"nontrivial\":" << nontriv
       << ",\"not_run_time_cap\":" << skipped << ",\"seconds\":" << (now() - t0) << ",\"labels\":{";
    bool f2 = true;
    for (auto& l : labels) {
      if (!f2) js << ",";
      f2 = false;
      js << jstr(l.first) << ":" << l.second;
    }
    js << "}}";
  }
  js << "},\"total\":" << total << ",\"discarded\":" << totdisc << ",\"failed\":" << (failed ? "true" : "false")
     << ",\"rule\":" << jstr(kRule) << ",\"samples\":[";
  for (std::size_t i = 0; i < samples.size(); i++) js << (i ? "," : "") << jstr(samples[i]);
  js << "]}";
  if (o.count("--stats")) {
    std::ofstream(o["--stats"]) << js.str();
    std::ofstream kf(o["--stats"] + ".keys", std::ios::binary);
    for (u64 k : keys) kf.write((const char*)&k, 8);
  } else
    std::cout << js.str() << "\n";
  fflush(nullptr);
  // leave without running destructors of anything a case may have left behind
  std::cout.flush();
  _exit(failed ? 1 : 0);
}
#endif
