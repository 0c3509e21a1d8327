// Network harness: threads whose failures end the case, sockets, ports nobody else uses, and replacements of a few
// system calls that split transfers, shorten sleeps and record connections. Include in one file per program.
#ifndef VP_NET_UTIL_H
#define VP_NET_UTIL_H
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#include <thread>

#include "vp.h"

namespace vp {
using Bytes = std::vector<unsigned char>;

// ------------------------------------------------------------ system calls
// Transfers on sockets are cut to a pseudo-random length while chop_max is set.
inline std::atomic<unsigned> chop_max{0};
inline std::atomic<u64> chop_seed{0};
inline std::atomic<u64> chop_calls{0};
inline std::atomic<u64> chop_count{0};
inline std::atomic<long> sleep_cap_us{0};  // longest sleep of the code under test (0: as asked)
inline std::mutex connect_mutex;
struct Connected {
  std::string host;
  int port;
  bool ok;
};
inline std::vector<Connected> connects;              // every connect(2) to an IPv4 address
inline std::atomic<bool> no_delay{false};            // connections send small messages at once
inline thread_local std::string connect_from;        // source address for this thread's connections
inline std::size_t chop(std::size_t n) {
  unsigned m = chop_max;
  if (!m || n < 2) return n;
  u64 s = chop_seed ^ (chop_calls.fetch_add(1) * 0x9E3779B97F4A7C15ull);
  u64 r = splitmix(s);
  if (r & 1) return n;
  std::size_t k = 1 + (r >> 8) % m;
  if (k < n) chop_count.fetch_add(1, std::memory_order_relaxed);
  return k < n ? k : n;
}
inline bool is_stream(int fd) {
  int type = 0;
  socklen_t l = sizeof type;
  int e = errno;
  bool r = getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &l) == 0 && type == SOCK_STREAM;
  errno = e;
  return r;
}
}  // namespace vp

#ifndef VP_FUZZ
#define VP_REAL(name) static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" {
ssize_t read(int fd, void* p, size_t n) {
  VP_REAL(read);
  vp::progress.fetch_add(1, std::memory_order_relaxed);
  if (vp::chop_max && vp::is_stream(fd)) n = vp::chop(n);
  return real(fd, p, n);
}
ssize_t write(int fd, const void* p, size_t n) {
  VP_REAL(write);
  vp::progress.fetch_add(1, std::memory_order_relaxed);
  if (vp::chop_max && vp::is_stream(fd)) n = vp::chop(n);
  return real(fd, p, n);
}
ssize_t recv(int fd, void* p, size_t n, int flags) {
  VP_REAL(recv);
  vp::progress.fetch_add(1, std::memory_order_relaxed);
  if (vp::chop_max && vp::is_stream(fd)) n = vp::chop(n);
  return real(fd, p, n, flags & ~MSG_WAITALL);
}
ssize_t send(int fd, const void* p, size_t n, int flags) {
  VP_REAL(send);
  vp::progress.fetch_add(1, std::memory_order_relaxed);
  if (vp::chop_max && vp::is_stream(fd)) n = vp::chop(n);
  return real(fd, p, n, flags);
}
static struct timespec vp_cap(const struct timespec* t) {
  struct timespec s = *t;
  long cap = vp::sleep_cap_us;
  if (cap && (s.tv_sec > 0 || s.tv_nsec > cap * 1000)) {
    s.tv_sec = 0;
    s.tv_nsec = cap * 1000;
  }
  return s;
}
int nanosleep(const struct timespec* t, struct timespec* rem) {
  VP_REAL(nanosleep);
  auto s = vp_cap(t);
  return real(&s, rem);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* t, struct timespec* rem) {
  VP_REAL(clock_nanosleep);
  if (flags & TIMER_ABSTIME) return real(id, flags, t, rem);
  auto s = vp_cap(t);
  return real(id, flags, &s, rem);
}
int connect(int fd, const struct sockaddr* a, socklen_t l) {
  VP_REAL(connect);
  if (a && a->sa_family == AF_INET) {
    auto* in = reinterpret_cast<const struct sockaddr_in*>(a);
    if (!vp::connect_from.empty()) {
      struct sockaddr_in from = {};
      from.sin_family = AF_INET;
      inet_pton(AF_INET, vp::connect_from.c_str(), &from.sin_addr);
      (void)!bind(fd, (struct sockaddr*)&from, sizeof from);  // fails harmlessly when already bound
    }
    int r = real(fd, a, l), e = errno, one = 1;
    if (r == 0 && vp::no_delay) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    char buf[64];
    inet_ntop(AF_INET, &in->sin_addr, buf, sizeof buf);
    {
      std::lock_guard<std::mutex> g(vp::connect_mutex);
      vp::connects.push_back({buf, ntohs(in->sin_port), r == 0});
    }
    errno = e;
    return r;
  }
  return real(fd, a, l);
}
}
#endif

namespace vp {
// ------------------------------------------------------------ threads
// Threads of one case. A failure in any of them ends the case at once.
class Threads {
 public:
  template <typename F>
  void go(F f) {
    ts_.emplace_back([f]() mutable {
      try {
        f();
      } catch (const Fail& e) {
        die(e.what());
      } catch (const std::exception& e) {
        die(std::string("unexpected exception in a thread: ") + e.what());
      }
    });
  }
  void join() {
    for (auto& t : ts_) t.join();
    ts_.clear();
  }
  ~Threads() { join(); }

 private:
  std::vector<std::thread> ts_;
};
inline void nap(u64 us) {
  if (!us) return;
  if (us < 30) {
    for (u64 i = 0; i < us; i++) std::this_thread::yield();
    return;
  }
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  syscall(SYS_nanosleep, &t, nullptr);
}
// delays of one thread: mostly none, sometimes short, now and then long
struct Pace {
  Rng r;
  unsigned level;
  Pace(u64 seed, unsigned lvl) : r(seed), level(lvl) {}
  void operator()() {
    if (!level) return;
    u64 x = r.below(16);
    if (x < 8) return;
    if (x < 14) nap(r.below(20));
    else nap(r.below(level == 1 ? 100 : 600));
  }
};

// ------------------------------------------------------------ ports
// A free TCP port below the ephemeral range, reserved among all processes of this machine while the lease lives.
class Port {
 public:
  explicit Port() {
    static std::atomic<u64> next{(u64)getpid() * 7919 + (u64)::time(nullptr)};
    for (int tries = 0; tries < 20000; tries++) {
      u64 s = next.fetch_add(1);
      int p = 10000 + (int)(splitmix(s) % 22000);
      int l = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
      struct sockaddr_un u = {};
      u.sun_family = AF_UNIX;
      int k = snprintf(u.sun_path + 1, sizeof u.sun_path - 1, "vp-port-%d", p);
      if (::bind(l, (struct sockaddr*)&u, (socklen_t)(offsetof(struct sockaddr_un, sun_path) + 1 + k)) == 0) {
        int t = ::socket(AF_INET, SOCK_STREAM, 0), on = tries > 500;
        ::setsockopt(t, SOL_SOCKET, SO_REUSEPORT, &on, sizeof on);
        struct sockaddr_in a = {};
        a.sin_family = AF_INET;
        a.sin_port = htons((uint16_t)p);
        bool ok = ::bind(t, (struct sockaddr*)&a, sizeof a) == 0;
        ::close(t);
        if (ok) {
          lock_ = l;
          port_ = p;
          return;
        }
      }
      ::close(l);
    }
    throw Discard{};
  }
  Port(const Port&) = delete;
  Port(Port&& o) : lock_(o.lock_), port_(o.port_) { o.lock_ = -1; }
  ~Port() {
    if (lock_ >= 0) ::close(lock_);
  }
  operator int() const { return port_; }

 private:
  int lock_ = -1, port_ = 0;
};

// ------------------------------------------------------------ sockets
inline std::pair<int, int> unix_pair() {
  int fd[2];
  if (::socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) fail("harness: socketpair");
  return {fd[0], fd[1]};
}
inline void set_buffers(int fd, int snd, int rcv) {
  if (snd) ::setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &snd, sizeof snd);
  if (rcv) ::setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcv, sizeof rcv);
}
}  // namespace vp
#endif
