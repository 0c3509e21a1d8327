// C23: networks connect every pair of parties once, correctly addressed.
// vp: flavours=asan,tsan arms_tsan=sockets,big_messages,strangers trust_oracle=1 case_timeout=60 budget=34 tbudget=360
#include <scl/net/network.h>
#include <scl/net/tcp_utils.h>

#include <deque>

#include "net_util.h"
using namespace vp;
const char* vp::kRule =
    "in-memory networks of 1..9 parties (some of 250 to 280) and mock networks of 1..8 (some of 250 to 300) with any owner: generated sends and receives between random pairs (self included) against a queue per ordered pair; socket networks of 1..5 parties (some of 6 to 12) "
    "with generated free ports, a different loopback address per party, configuration lists in generated orders, start-up in generated order with delays (retries included): every connection attempt must go to an "
    "address in the configuration and every pair, self included, exchanges tagged messages, after which in a third of the cases one party closes its network and every other one must receive what was sent before and then be told the end; with sending threads also messages beyond the socket buffers, sent to all before anything is received. "
    "One party alone against peers played by the check: connections in any order, some announcing ids that are out of range, not above its own or announced before, or ending before they announce any, hosts that are no address, a taken port: set up correctly without such a fault, reported as an error with one. "
    "Non-trivial: three or more parties, or two over sockets.";

static void send(scl::Network& net, std::size_t to, const Bytes& b) { net.Party((unsigned)to)->Send(b.data(), b.size()); }
static Bytes take(std::deque<unsigned char>& q, std::size_t n) {
  Bytes r(q.begin(), q.begin() + (long)n);
  q.erase(q.begin(), q.begin() + (long)n);
  return r;
}
using Queues = std::map<std::pair<std::size_t, std::size_t>, std::deque<unsigned char>>;

static void in_memory(Case& c, bool many) {
  std::size_t n = many ? c.range(250, 280) : 1 + c.range(0, c.chance(1, 4) ? 8 : 4);
  auto nets = scl::Network::CreateFullInMemory(n);
  VP_CHECK(nets.size() == n, "number of networks ", nets.size());
  for (auto& x : nets) VP_CHECK(x.Size() == n, "a network of ", n, " parties reports size ", x.Size());
  if (c.chance(1, 4)) {  // copies share the channels
    auto copy = nets;
    nets = copy;
  }
  Queues q;
  std::size_t steps = c.range(0, 60);
  std::set<std::pair<std::size_t, std::size_t>> used;
  for (std::size_t s = 0; s < steps; s++) {
    std::size_t i = c.range(0, n - 1), j = c.chance(1, 6) ? i : c.range(0, n - 1);
    if (c.flip()) {
      Bytes b = c.bytes(c.range(0, 40));
      send(nets[i], j, b);
      auto& k = q[{i, j}];
      k.insert(k.end(), b.begin(), b.end());
      used.insert({i, j});
    } else {
      auto& k = q[{i, j}];
      std::size_t m = c.range(0, k.size());
      Bytes g(m);
      nets[j].Party((unsigned)i)->Recv(g.data(), m);
      VP_CHECK(g == take(k, m), "party ", j, " received something else from party ", i);
    }
  }
  c.note(n, " parties, ", steps, " steps, ", used.size(), " pairs used");
  c.interesting(n >= 3 && used.size() >= 3);
  // all pairs once more
  for (std::size_t i = 0; i < n; i++)
    for (std::size_t j = 0; j < n; j++) {
      Bytes b = {(unsigned char)i, (unsigned char)(i >> 8), (unsigned char)j, (unsigned char)(j >> 8), 0x77};
      send(nets[i], j, b);
      q[{i, j}].insert(q[{i, j}].end(), b.begin(), b.end());
    }
  for (std::size_t j = 0; j < n; j++)
    for (std::size_t i = 0; i < n; i++) {
      auto& k = q[{i, j}];
      Bytes g(k.size());
      nets[j].Party((unsigned)i)->Recv(g.data(), g.size());
      VP_CHECK(g == take(k, k.size()), "party ", j, " received something else from party ", i);
    }
  for (auto& x : nets) x.Close();
}
VP_ARM(in_memory, 2500, 30000, 300, 1) { in_memory(c, false); }
VP_ARM(in_memory_many, 1, 8, 300, 0.3) { in_memory(c, true); }

VP_ARM(mock, 2500, 30000, 300, 1) {
  std::size_t n = c.chance(1, 30) ? c.range(250, 300) : 1 + c.range(0, 7), me = c.range(0, n - 1);
  auto m = scl::Network::CreateMock((unsigned)me, n);
  auto& net = m.first;
  auto& rem = m.second;
  VP_CHECK(net.Size() == n && rem.size() == n, "a mock network of ", n, " parties has ", net.Size(), " and ", rem.size(), " channels");
  Queues q;
  std::size_t steps = c.range(0, 50);
  c.note("party ", me, " of ", n, ", ", steps, " steps");
  c.interesting(n >= 3 && steps > 5);
  auto step = [&](std::size_t j, unsigned what, std::size_t sz) {
    // 0: send to j, 1: j receives, 2: j sends, 3: receive from j
    Bytes b = what % 2 ? Bytes() : c.bytes(sz);
    if (j == me && what == 1) what = 3;
    if (j == me && what == 2) what = 0;
    if (what == 0) {
      send(net, j, b);
      q[{me, j}].insert(q[{me, j}].end(), b.begin(), b.end());
    } else if (what == 2) {
      rem[j]->Send(b.data(), b.size());
      q[{j, me}].insert(q[{j, me}].end(), b.begin(), b.end());
    } else {
      auto& k = what == 1 ? q[{me, j}] : q[{j, me}];
      std::size_t r = std::min(sz, k.size());
      Bytes g(r);
      if (what == 1) rem[j]->Recv(g.data(), r);
      else net.Party((unsigned)j)->Recv(g.data(), r);
      VP_CHECK(g == take(k, r), what == 1 ? "the remote end of party " : "the network's end of party ", j, " received something else");
    }
  };
  for (std::size_t s = 0; s < steps; s++) step(c.range(0, n - 1), (unsigned)c.range(0, 3), c.range(0, 40));
  for (std::size_t j = 0; j < n; j++) {
    step(j, 0, 3);
    step(j, 2, 3);
  }
  for (std::size_t j = 0; j < n; j++) {
    step(j, 1, 1 << 20);
    step(j, 3, 1 << 20);
  }
}

struct Setup {
  std::size_t n;
  std::vector<Port> ports;
  std::vector<std::string> hosts;
  std::vector<std::unique_ptr<scl::NetworkConfig>> cfg;
  std::vector<u64> delay;
  bool threaded;
};
static Setup gen_setup(Case& c, std::size_t n, bool threaded) {
  Setup s;
  s.n = n;
  s.threaded = threaded;
  bool same_host = c.chance(1, 4), same_order = c.flip();
  std::vector<scl::Party> ps;
  for (std::size_t i = 0; i < n; i++) {
    s.ports.emplace_back();
    s.hosts.push_back(same_host ? "127.0.0.1" : "127.0.0." + std::to_string(2 + i * 3));
    ps.push_back(scl::Party{(unsigned)i, s.hosts[i], (int)s.ports[i]});
  }
  auto order = [&] {
    std::vector<scl::Party> r;
    for (auto k : c.perm(n)) r.push_back(ps[k]);
    return r;
  };
  auto common = order();
  if (c.chance(1, 4)) common = ps;
  for (std::size_t i = 0; i < n; i++) {
    s.cfg.push_back(std::make_unique<scl::NetworkConfig>((unsigned)i, same_order ? common : order()));
    s.delay.push_back(c.weighted({2, 1}) ? 0 : c.range(0, 8000));
  }
  c.note(n, " parties", threaded ? " with sending threads" : "", same_host ? "" : ", different hosts", same_order ? ", one list" : ", differing lists");
  c.label(std::to_string(n) + " parties");
  std::string d;
  for (auto x : s.delay) d += std::to_string(x) + " ";
  c.note("start-up delays ", d);
  return s;
}
// Runs f(i, network) for every party concurrently
static void run_parties(Setup& s, const std::function<void(std::size_t, scl::Network&)>& f, std::size_t leaver = (std::size_t)-1) {
  sleep_cap_us = 1500;
  {
    std::lock_guard<std::mutex> g(connect_mutex);
    connects.clear();
  }
  std::atomic<std::size_t> up{0};
  std::vector<scl::Network> nets(s.n);
  Threads t;
  for (std::size_t i = 0; i < s.n; i++)
    t.go([&, i] {
      nap(s.delay[i]);
      nets[i] = s.threaded ? scl::Network::CreateThreadedSenders(*s.cfg[i]) : scl::Network::Create(*s.cfg[i]);
      VP_CHECK(nets[i].Size() == s.n, "a network of ", s.n, " parties reports size ", nets[i].Size());
      f(i, nets[i]);
      up++;
      while (up < s.n) nap(100);  // nobody closes before all are done
      if (leaver >= s.n) return;
      if (i == leaver) {
        for (std::size_t j = 0; j < s.n; j++)
          if (j != i) send(nets[i], j, {(unsigned char)(j + 1), 0x5a});
        nets[i].Close();
        nets[i].Close();
        return;
      }
      Bytes g(2);
      nets[i].Party((unsigned)leaver)->Recv(g.data(), 2);
      VP_CHECK(g == Bytes({(unsigned char)(i + 1), 0x5a}), "party ", i, " received something else from party ", leaver, ", who closed its network");
      bool told = false;
      try {
        nets[i].Party((unsigned)leaver)->Recv(g.data(), 1);
      } catch (const std::exception&) {
        told = true;
      }
      VP_CHECK(told, "party ", leaver, " closed its network, but party ", i, " still receives from it");
    });
  t.join();
  {
    Threads k;  // closing drains what a sending thread has left
    for (std::size_t i = 0; i < s.n; i++) k.go([&, i] { nets[i].Close(); });
  }
  nets.clear();
  std::lock_guard<std::mutex> g(connect_mutex);
  std::map<std::pair<std::string, int>, std::size_t> ok;
  for (auto& x : connects) {
    bool known = false;
    for (std::size_t i = 0; i < s.n; i++) known |= x.host == s.hosts[i] && x.port == (int)s.ports[i];
    VP_CHECK(known, "a connection to ", x.host, ":", x.port, ", which is no party's address, was attempted");
    if (x.ok) ok[{x.host, x.port}]++;
  }
  std::size_t total = 0;
  for (auto& k : ok) total += k.second;
  VP_CHECK(total == s.n * (s.n - 1) / 2, total, " connections were made between ", s.n, " parties");
}
static Bytes tagged(std::size_t i, std::size_t j, std::size_t k, std::size_t n) {
  Bytes b(n);
  u64 x = i * 1000003 + j * 10007 + k * 101 + 1;
  for (auto& v : b) v = (unsigned char)splitmix(x);
  return b;
}

VP_ARM(sockets, 140, 1500, 120, 5) {
  watch_for_deadlock(12);
  auto s = gen_setup(c, c.chance(1, 15) ? c.range(6, 12) : 1 + c.range(0, c.chance(1, 3) ? 4 : 3), c.flip());
  std::size_t n = s.n, rounds = c.range(1, 3), size = c.range(1, 2000);
  u64 seed = c.word();
  std::size_t leaver = c.chance(1, 3) ? c.range(0, n - 1) : n;
  if (leaver < n) c.note("party ", leaver, " closes first");
  c.interesting(n >= 2);
  run_parties(s, [&](std::size_t i, scl::Network& net) {
    Pace pace(seed + i, 1);
    for (std::size_t r = 0; r < rounds; r++) {
      for (std::size_t k = 0; k < n; k++) {
        std::size_t j = (k + i + seed) % n;
        pace();
        send(net, j, tagged(i, j, r, size));
      }
      for (std::size_t k = 0; k < n; k++) {
        std::size_t j = (k * (n - 1) + i + seed / 7) % n;
        Bytes g(size);
        pace();
        net.Party((unsigned)j)->Recv(g.data(), size);
        if (g != tagged(j, i, r, size)) {
          std::string from = "nobody";
          for (std::size_t a = 0; a < n; a++)
            for (std::size_t b = 0; b < n; b++)
              if (g == tagged(a, b, r, size)) from = "party " + std::to_string(a) + " for party " + std::to_string(b);
          fail("on its channel from party ", j, " party ", i, " received what was sent by ", from);
        }
      }
    }
  }, leaver);
}

// Parties with sending threads may all send more than the sockets hold before anyone receives
VP_ARM(big_messages, 12, 200, 60, 3) {
  watch_for_deadlock(12);
  auto s = gen_setup(c, 2 + c.range(0, 2), true);
  std::size_t n = s.n, size = 7000000;
  std::size_t turn = c.range(0, n - 1);
  c.interesting();
  run_parties(s, [&](std::size_t i, scl::Network& net) {
    Bytes b(size, (unsigned char)(i + 1));
    for (std::size_t j = 0; j < n; j++) send(net, (j + turn + i) % n, b);
    for (std::size_t k = 0; k < n; k++) {
      std::size_t j = (k + i + 1) % n;
      Bytes g(size);
      net.Party((unsigned)j)->Recv(g.data(), size);
      for (std::size_t x = 0; x < size; x++)
        if (g[x] != j + 1) fail("party ", i, " received a byte ", (int)g[x], " from party ", j);
    }
  });
}

// ------------------------------------------------ one party, its peers played by the check
static int listen_on(const std::string& host, int port, bool shared) {
  int l = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), on = 1;
  ::setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
  if (shared) ::setsockopt(l, SOL_SOCKET, SO_REUSEPORT, &on, sizeof on);
  struct sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_port = htons((uint16_t)port);
  inet_pton(AF_INET, host.c_str(), &a.sin_addr);
  if (::bind(l, (struct sockaddr*)&a, sizeof a) || ::listen(l, 8)) {
    ::close(l);
    throw Discard{};
  }
  return l;
}
static void put(int fd, const void* p, std::size_t n) {
  for (std::size_t k = 0; k < n;) {
    auto r = ::send(fd, (const char*)p + k, n - k, MSG_NOSIGNAL);
    if (r <= 0) return;
    k += (std::size_t)r;
  }
}
static std::size_t get(int fd, void* p, std::size_t n) {
  std::size_t k = 0;
  while (k < n) {
    auto r = ::recv(fd, (char*)p + k, n - k, 0);
    if (r <= 0) break;
    k += (std::size_t)r;
  }
  return k;
}
VP_ARM(strangers, 200, 3000, 120, 4) {
  watch_for_deadlock(12);
  sleep_cap_us = 1500;
  std::size_t n = 2 + c.range(0, c.chance(1, 8) ? 7 : 3), me = c.chance(1, 3) ? 0 : c.range(0, n - 1);
  bool threaded = c.flip();
  std::vector<Port> ports(n);
  std::vector<std::string> hosts(n);
  std::vector<scl::Party> ps;
  for (std::size_t i = 0; i < n; i++) hosts[i] = "127.0.0." + std::to_string(2 + i * 3);
  enum { NONE, ID, SHORT, HOST, TAKEN };
  auto fault = c.weighted({3, 4, 1, 2, 1});
  if (me == n - 1 && (fault == ID || fault == SHORT || fault == TAKEN)) fault = NONE;
  if (me == 0 && fault == HOST) fault = NONE;
  if (fault == HOST) {
    static const std::vector<std::string> bad = {"localhost", "", "127.0.0", "256.0.0.1", "127.0.0.1.1", "::1", "no such host", "127.0.0.1 "};
    auto& h = hosts[c.range(0, me - 1)];
    h = c.pick(bad);
    c.note("a host called '", h, "'");
  }
  for (auto i : c.perm(n)) ps.push_back(scl::Party{(unsigned)i, hosts[i], (int)ports[i]});
  scl::NetworkConfig cfg((unsigned)me, ps);
  auto order = c.perm(n - me - 1);  // of the connections from higher ids
  std::size_t bad_at = order.empty() ? 0 : c.range(0, order.size() - 1);
  unsigned bad_id = 0;
  std::size_t short_n = c.range(0, 3);
  if (fault == ID) {
    std::vector<unsigned> pool = {(unsigned)n, (unsigned)n + 1 + (unsigned)c.range(0, 300), 0xffffffffu, 0x80000000u, (unsigned)(c.word() | 0x10000), (unsigned)me, (unsigned)c.range(0, me)};
    if (bad_at) pool.insert(pool.end(), 4, (unsigned)(me + 1 + order[c.range(0, bad_at - 1)]));
    bad_id = c.pick(pool);
  }
  u64 seed = c.word();
  c.label(fault == NONE ? "no fault" : fault == ID ? "unexpected id" : fault == SHORT ? "gone before its id" : fault == HOST ? "no address" : "port taken");
  c.note("party ", me, " of ", n, threaded ? " with sending threads" : "", ", fault ", fault, ", connection ", bad_at, " announces ", bad_id);
  c.interesting(fault != NONE || n >= 3);

  std::vector<std::atomic<int>> fds(n);
  for (auto& f : fds) f = -1;
  std::vector<int> listeners;
  for (std::size_t i = 0; i < me; i++) {
    struct in_addr x;
    listeners.push_back(inet_pton(AF_INET, hosts[i].c_str(), &x) == 1 ? listen_on(hosts[i], ports[i], false) : -1);
  }
  int taken = fault == TAKEN ? listen_on("127.0.0.200", ports[me], false) : -1;
  std::atomic<bool> failed{false}, stop{false}, checked{false};
  Threads t;
  scl::Network net;
  t.go([&] {
    try {
      net = threaded ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg);
    } catch (const std::exception& e) {
      failed = true;
      stop = true;
      return;
    }
    VP_CHECK(fault == NONE, "a network was set up although it could not be: ", fault == ID ? "a connection announced an id it cannot have" : fault == SHORT ? "a connection ended before it announced an id" : fault == HOST ? "a host is no address" : "its port was taken");
    VP_CHECK(net.Size() == n, "a network of ", n, " parties reports size ", net.Size());
    for (std::size_t j = 0; j < n; j++) send(net, j, tagged(me, j, 1, 40 + j));
    for (std::size_t k = 0; k < n; k++) {
      std::size_t j = (k + seed) % n;
      Bytes g(30 + j);
      if (j == me) g.resize(40 + j);
      net.Party((unsigned)j)->Recv(g.data(), g.size());
      VP_CHECK(g == (j == me ? tagged(me, me, 1, 40 + j) : tagged(j, me, 2, 30 + j)), "on its channel from party ", j, " party ", me, " received something else");
    }
    checked = true;
  });
  // every peer: takes part in the handshake, then exchanges one message each way
  for (std::size_t i = 0; i < me; i++)
    if (listeners[i] >= 0)
      t.go([&, i] {
        struct pollfd p = {listeners[i], POLLIN, 0};
        while (!stop && ::poll(&p, 1, 2) == 0) progress++;
        if (stop && ::poll(&p, 1, 0) == 0) return;
        fds[i] = ::accept4(listeners[i], nullptr, nullptr, SOCK_CLOEXEC);
        unsigned id = 0;
        if (get(fds[i], &id, sizeof id) == sizeof id) VP_CHECK(id == me, "party ", me, " announced itself as ", id, " to party ", i);
        auto b = tagged(i, me, 2, 30 + i);
        put(fds[i], b.data(), b.size());
        Bytes g(40 + i);
        if (get(fds[i], g.data(), g.size()) == g.size()) VP_CHECK(g == tagged(me, i, 1, 40 + i), "party ", i, " received something else from party ", me);
        else VP_CHECK(fault != NONE, "party ", me, " sent party ", i, " too little");
      });
  t.go([&] {
    if (fault == TAKEN) return;
    Threads peers;
    for (std::size_t k = 0; k < order.size(); k++) {
      std::size_t j = me + 1 + order[k];
      struct sockaddr_in a = {};
      a.sin_family = AF_INET;
      a.sin_port = htons((uint16_t)(int)ports[me]);
      inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
      int fd = -1;
      while (!stop) {
        fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        if (::connect(fd, (struct sockaddr*)&a, sizeof a) == 0) break;
        ::close(fd);
        fd = -1;
        nap(300);
      }
      if (fd < 0) return;
      fds[j] = fd;
      bool bad = k == bad_at && (fault == ID || fault == SHORT);
      unsigned id = bad ? bad_id : (unsigned)j;
      put(fd, &id, bad && fault == SHORT ? short_n : sizeof id);
      if (bad && fault == SHORT) ::shutdown(fd, SHUT_WR);
      if (bad) continue;
      peers.go([&, fd, j] {
        auto b = tagged(j, me, 2, 30 + j);
        put(fd, b.data(), b.size());
        Bytes g(40 + j);
        if (get(fd, g.data(), g.size()) == g.size()) VP_CHECK(g == tagged(me, j, 1, 40 + j), "party ", j, " received something else from party ", me);
        else VP_CHECK(fault != NONE, "party ", me, " sent party ", j, " too little");
      });
    }
  });
  if (fault != NONE) {
    // the peers of a failed set-up need not be told: end their connections once it has failed
    while (!failed && !checked) nap(200);
    stop = true;
    nap(2000);
    for (auto l : listeners)
      if (l >= 0) ::shutdown(l, SHUT_RDWR);
    for (auto& f : fds)
      if (f >= 0) ::shutdown(f, SHUT_RDWR);
  }
  t.join();
  VP_CHECK(failed == (fault != NONE), "a network that can be set up was not");
  for (auto l : listeners)
    if (l >= 0) ::close(l);
  if (taken >= 0) ::close(taken);
  for (auto& f : fds)
    if (f >= 0) ::close(f);
  if (!failed) net.Close();
}
