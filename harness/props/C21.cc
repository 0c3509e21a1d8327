// C21: socket channels, plain and with a sending thread.
// vp: flavours=asan,tsan arms_tsan=stream,close,gone,idempotent trust_oracle=1 case_timeout=60 budget=30
#include <scl/net/tcp_channel.h>
#include <scl/net/tcp_utils.h>
#include <scl/net/threaded_sender.h>

#include <sys/mman.h>

#include "net_util.h"
using namespace vp;
const char* vp::kRule =
    "two channels (plain, with sending thread, or one of each) over a Unix socket pair or a loopback TCP connection made by the library, with generated socket buffer sizes; both directions at once, up to "
    "1.5 MB each, generated chunking on either side, delays, reads and writes cut short at random inside the system call; a message of more than 2^31 bytes; orderly closes right after queueing; receives that ask for more than was sent; "
    "repeated closes with unrelated descriptors opened in between. Non-trivial: at least 3 chunks on both sides of some direction, or a truncated receive, or two closes.";

struct Ends {
  int fd[2];
  bool tcp;
};
static Ends make_sockets(Case& c) {
  Ends e;
  e.tcp = c.chance(1, 3);
  if (!e.tcp) {
    auto p = unix_pair();
    e.fd[0] = p.first;
    e.fd[1] = p.second;
    c.note("unix pair");
  } else {
    sleep_cap_us = 2000;
    Port port;
    bool listen_first = c.chance(3, 4);
    std::atomic<bool> up{false};
    Threads t;
    int* out = e.fd;
    t.go([&, out] {
      if (!listen_first) nap(1500);
      int s = scl::details::CreateServerSocket(port, 1);
      up = true;
      auto ac = scl::details::AcceptConnection(s);
      VP_CHECK(scl::details::GetAddress(ac) == "127.0.0.1", "address of the peer is ", scl::details::GetAddress(ac));
      out[0] = ac.socket;
      scl::details::CloseSocket(s);
    });
    t.go([&, out] {
      while (listen_first && !up) nap(50);
      out[1] = scl::details::ConnectAsClient(c.tape_bit() ? "127.0.0.1" : "0.0.0.0", port);
    });
    t.join();
    c.note("loopback");
    c.label("tcp");
  }
  // (tiny TCP buffers only make the kernel wait for its timers)
  int snd = (int)c.pick(std::vector<int>{0, 0, 2048, 5000, 20000, 200000}), rcv = (int)c.pick(std::vector<int>{0, 0, 2048, 5000, 20000});
  if (e.tcp) snd = snd ? std::max(snd, 100000) : 0, rcv = rcv ? std::max(rcv, 100000) : 0;
  for (int f : e.fd) set_buffers(f, snd, rcv);
  if (snd || rcv) c.note("buffers ", snd, "/", rcv);
  return e;
}
static std::shared_ptr<scl::Channel> wrap(int fd, bool threaded) {
  if (threaded) return std::make_shared<scl::ThreadedSenderChannel>(fd);
  return std::make_shared<scl::TcpChannel>(fd);
}
static std::vector<std::size_t> gen_cut(Case& c, std::size_t total) {
  std::vector<std::size_t> v;
  std::size_t mx = c.pick(std::vector<std::size_t>{7, 100, 5000, 70000, 2000000});
  if (total / mx > 3000) mx = total / 1000;
  Rng r = c.rng();
  std::size_t left = total;
  while (left) {
    std::size_t k = std::min<std::size_t>(left, r.below(mx + 1));
    v.push_back(k);
    left -= k;
  }
  if (v.empty()) v.push_back(0);
  return v;
}
static std::size_t gen_total(Case& c) {
  switch (c.weighted({1, 4, 4, 2})) {
    case 0: return c.range(0, 1);
    case 1: return c.range(1, 3000);
    case 2: return c.range(1, 100000);
    default: return c.range(1, 1500000);
  }
}
static void set_chop(Case& c) {
  chop_seed = c.word();
  chop_max = (unsigned)c.pick(std::vector<unsigned>{0, 1, 3, 50, 3000, 30000});
  c.note("transfers cut to ", chop_max.load());
  chop_count = 0;
}
struct Unchop {
  ~Unchop() { chop_max = 0; }
};
static void check_same(const Bytes& got, const Bytes& want, const char* what) {
  VP_CHECK(got.size() == want.size(), what, ": ", got.size(), " bytes instead of ", want.size());
  for (std::size_t i = 0; i < got.size(); i++)
    if (got[i] != want[i]) fail(what, ": byte ", i, " of ", got.size(), " is ", (int)got[i], " instead of ", (int)want[i]);
}

// Both directions at once
VP_ARM(stream, 60, 1500, 120, 5) {
  watch_for_deadlock(12);
  Unchop u;
  bool th[2] = {c.flip(), c.flip()};
  auto e = make_sockets(c);
  Bytes data[2];
  std::vector<std::size_t> out[2], in[2];
  u64 seed[4];
  unsigned level = (unsigned)c.range(0, 2);
  bool nt = false;
  set_chop(c);
  for (int d = 0; d < 2; d++) {  // direction d: from end d to end 1-d
    std::size_t tot = gen_total(c);
    if (chop_max && chop_max < 100) tot %= 3000 * chop_max;
    data[d] = c.bytes(tot);
    out[d] = gen_cut(c, data[d].size());
    in[d] = gen_cut(c, data[d].size());
    nt |= out[d].size() >= 3 && in[d].size() >= 3;
    c.note("from ", d, ": ", data[d].size(), " bytes in ", out[d].size(), " sends and ", in[d].size(), " receives", th[d] ? ", sending thread" : "");
  }
  for (auto& s : seed) s = c.word();
  c.interesting(nt);
  std::shared_ptr<scl::Channel> ch[2] = {wrap(e.fd[0], th[0]), wrap(e.fd[1], th[1])};
  auto send = [&](int d) {
    Pace pace(seed[d], level);
    std::size_t at = 0;
    for (auto k : out[d]) {
      pace();
      Bytes tmp(data[d].begin() + (long)at, data[d].begin() + (long)(at + k));
      ch[d]->Send(tmp.data(), k);  // the buffer is gone when Send returns
      at += k;
    }
  };
  Bytes got[2];
  auto recv = [&](int d) {
    Pace pace(seed[2 + d], level);
    got[d].resize(data[d].size());
    std::size_t at = 0;
    for (auto k : in[d]) {
      pace();
      ch[1 - d]->Recv(got[d].data() + at, k);
      at += k;
    }
    check_same(got[d], data[d], "received stream");
  };
  // a threaded end may send everything before it reads; so may one of two plain ends if the other reads meanwhile
  {
    Threads t;
    for (int d = 0; d < 2; d++) {
      if (th[d] && c.tape_bit()) {
        t.go([&, d] {
          send(d);
          recv(1 - d);
        });
      } else {
        t.go([&, d] { send(d); });
        t.go([&, d] { recv(1 - d); });
      }
    }
  }
  if (chop_count) c.label("short transfers");
  if (c.flip()) {  // close both ends from two threads
    Threads t;
    for (int d = 0; d < 2; d++) t.go([&, d] { ch[d]->Close(); });
  } else if (c.flip()) {
    ch[0]->Close();
    ch[1]->Close();
  }
}

// A memory area of n bytes in which one block repeats, so that it takes the space of the block
struct Repeated {
  static constexpr std::size_t block = 1 << 20;
  unsigned char* p;
  std::size_t n;
  explicit Repeated(std::size_t len) : n((len + block - 1) / block * block) {
    int fd = memfd_create("vp", 0);
    if (fd < 0 || ftruncate(fd, (off_t)block)) throw Discard();
    p = (unsigned char*)mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw Discard();
    for (std::size_t i = 0; i < n; i += block)
      if (mmap(p + i, block, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw Discard();
    ::close(fd);
  }
  ~Repeated() { munmap(p, n); }
};

// One message larger than 2^31 bytes, sent and received in one call each, and what follows it
VP_ARM(huge, 1, 3, 20, 1) {
  watch_for_deadlock(50);
  std::size_t n = ((std::size_t)1 << 31) + c.range(0, 70000000) - (c.chance(1, 5) ? 80000000 : 0);
  bool tail_split = c.flip();
  Bytes pat = c.bytes(Repeated::block), tail = c.bytes(50);
  c.note("a message of ", n, " bytes");
  c.interesting();
  Repeated src(n), dst(n);
  std::copy(pat.begin(), pat.end(), src.p);
  auto fd = unix_pair();
  set_buffers(fd.first, 4000000, 4000000);
  scl::TcpChannel a(fd.first), b(fd.second);
  Bytes got(50);
  Threads t;
  t.go([&] {
    a.Send(src.p, n);
    a.Send(tail.data(), 50);
  });
  t.go([&] {
    if (tail_split) {
      b.Recv(dst.p, n - 1);
      b.Recv(dst.p + n - 1, 1);
    } else
      b.Recv(dst.p, n);
    b.Recv(got.data(), 50);
  });
  t.join();
  VP_CHECK(got == tail, "what follows a message of ", n, " bytes");
  VP_CHECK(std::equal(pat.begin(), pat.end(), dst.p), "a message of ", n, " bytes");
}

// One end queues data and closes; the other reads all of it, after or before the close, and then gets errors
VP_ARM(close, 80, 2000, 80, 4) {
  watch_for_deadlock(12);
  Unchop u;
  bool th[2] = {c.flip(), c.flip()};
  auto e = make_sockets(c);
  set_chop(c);
  std::size_t tot = gen_total(c);
  if (chop_max && chop_max < 100) tot %= 3000 * chop_max;
  Bytes data = c.bytes(tot);
  auto out = gen_cut(c, data.size()), in = gen_cut(c, data.size());
  std::size_t more = c.chance(1, 3) ? 0 : 1 + c.range(0, 5000);  // the last receive asks for this much more than there is
  std::size_t how = c.range(0, 2);
  unsigned level = (unsigned)c.range(0, 2);
  u64 s0 = c.word(), s1 = c.word();
  c.note(data.size(), " bytes, ", out.size(), " sends, ", in.size(), " receives, then ", more, " more; ",
         how == 0 ? "closed once" : how == 1 ? "closed and destroyed" : "only destroyed", th[0] ? ", sending thread" : "");
  c.interesting(more || (out.size() >= 3 && in.size() >= 3));
  c.label(th[0] ? "sending thread" : "plain");
  std::shared_ptr<scl::Channel> tx = wrap(e.fd[0], th[0]), rx = wrap(e.fd[1], th[1]);
  {
    Threads t;
    t.go([&] {
      Pace pace(s0, level);
      std::size_t at = 0;
      for (auto k : out) {
        pace();
        tx->Send(data.data() + at, k);
        at += k;
      }
      if (how < 2) tx->Close();
      if (how > 0) tx.reset();
    });
    t.go([&] {
      Pace pace(s1, level);
      Bytes got(data.size());
      std::size_t at = 0;
      for (std::size_t i = 0; i < in.size(); i++) {
        pace();
        if (more && i + 1 == in.size()) break;
        rx->Recv(got.data() + at, in[i]);
        at += in[i];
      }
      if (!more) {
        check_same(got, data, "stream of a closed peer");
        unsigned char b = 0;
        VP_CHECK(throws([&] { rx->Recv(&b, 1); }), "a receive after the end of the stream returned without an error");
      } else {
        got.resize(data.size() + more);
        bool th = throws([&] { rx->Recv(got.data() + at, data.size() - at + more); });
        VP_CHECK(th, "a receive of ", data.size() - at + more, " bytes returned without an error although the peer had sent only ", data.size() - at, " and closed");
        c.label("truncated");
      }
      unsigned char b = 0;
      VP_CHECK(throws([&] { rx->Recv(&b, 1); }), "a receive after a failed one returned without an error");
      rx->Recv(&b, 0);
    });
  }
}

// Sending to a peer that is gone fails or drops the message, but never kills the process
VP_ARM(gone, 80, 2000, 60, 2) {
  watch_for_deadlock(12);
  Unchop u;
  bool th = c.flip(), abort = c.flip();
  auto e = make_sockets(c);
  for (int f : e.fd) set_buffers(f, 200000, 200000);
  set_chop(c);
  Bytes before = c.bytes(c.range(0, 60)), unread = c.bytes(c.range(0, 60));
  std::size_t n = 1 + c.range(0, 5), size = c.pick<std::size_t>({1, 8, 500, 70000});
  bool in_time = c.flip();
  c.note(before.size(), " bytes read, ", unread.size(), " not read, then gone", abort ? " without ceremony" : "", "; ", n, " sends of ", size, " bytes", th ? ", sending thread" : "");
  c.interesting();
  c.label(th ? "sending thread" : "plain");
  std::shared_ptr<scl::Channel> tx = wrap(e.fd[0], th);
  auto rx = std::make_unique<scl::TcpChannel>(e.fd[1]);
  tx->Send(before.data(), before.size());
  Bytes got(before.size());
  rx->Recv(got.data(), got.size());
  check_same(got, before, "stream");
  tx->Send(unread.data(), unread.size());
  if (abort) {
    struct linger l = {1, 0};
    ::setsockopt(e.fd[1], SOL_SOCKET, SO_LINGER, &l, sizeof l);
  }
  rx->Close();
  if (in_time) nap(300);
  unsigned before_signals = sigpipes;
  Bytes more = c.bytes(size);
  std::size_t failed = 0;
  for (std::size_t i = 0; i < n; i++) failed += throws([&] { tx->Send(more.data(), more.size()); });
  if (!th) {
    for (std::size_t i = 0; i < 200 && !failed; i++) {
      nap(1000);
      failed += throws([&] { tx->Send(more.data(), more.size()); });
    }
    VP_CHECK(failed, "sends to a peer that is gone never fail");
  }
  if (c.flip()) tx->Close();
  tx.reset();
  VP_CHECK(sigpipes == before_signals, "sending to a peer that is gone raised SIGPIPE, which ends the process");
}

// Closing is idempotent: it never touches a descriptor that was opened since
VP_ARM(idempotent, 150, 3000, 60, 1) {
  watch_for_deadlock(12);
  bool th[2] = {c.flip(), c.flip()};
  auto p = unix_pair();
  auto* raw = new scl::TcpChannel(p.first);
  std::shared_ptr<scl::Channel> a, b = wrap(p.second, th[1]);
  if (th[0]) {
    delete raw;  // closes the descriptor
    ::close(p.first);
    auto q = unix_pair();
    b->Close();
    a = wrap(q.first, true);
    b = wrap(q.second, th[1]);
  } else {
    a.reset(raw);
    VP_CHECK(raw->Alive(), "a new channel is not alive");
  }
  Bytes d = c.bytes(c.range(0, 2000));
  a->Send(d.data(), d.size());
  Bytes g(d.size());
  b->Recv(g.data(), g.size());
  check_same(g, d, "stream");
  std::size_t closes = c.range(1, 4);
  c.note(closes, " closes", th[0] ? ", sending thread" : "");
  c.interesting(closes >= 2);
  std::vector<int> opened;
  auto probe = [&] {
    for (int f : opened) VP_CHECK(fcntl(f, F_GETFD) >= 0, "descriptor ", f, ", opened after the close, was closed by a repeated close");
  };
  for (std::size_t i = 0; i < closes; i++) {
    a->Close();
    if (!th[0]) VP_CHECK(!raw->Alive(), "alive after close");
    probe();
    std::size_t k = c.range(0, 2);
    for (std::size_t j = 0; j < k + (i == 0); j++) opened.push_back(::open("/dev/null", O_RDONLY));
  }
  if (c.flip()) {  // sending on or receiving from a closed channel does not touch them either
    unsigned char x = 1;
    (void)x;
    c.label("destroyed late");
  }
  a.reset();
  probe();
  b.reset();
  probe();
  for (int f : opened) ::close(f);
}
