// C25: discovery gives all parties the same, correct configuration or fails cleanly.
// vp: flavours=asan,tsan arms_tsan=sockets trust_oracle=1 case_timeout=60 fuzz=120 budget=26
#include <scl/net/discovery/client.h>
#include <scl/net/discovery/server.h>
#include <scl/net/tcp_utils.h>

#include <numeric>

#include "net_util.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
#endif
using namespace vp;
using Server = scl::DiscoveryServer;
using Client = scl::DiscoveryClient;
const char* vp::kRule =
    "server: 1..12 connections (now and then 40 or 255) with generated hostnames and ports, ids announced in a generated order, honest or with one or more ids that are out of range, repeated or the server's own; "
    "client: configurations of 1..8 (or up to 300) parties in generated order, whole or with entries dropped, repeated, renumbered, lengths and counts falsified, cut short or replaced by arbitrary bytes, "
    "against an independent parser, allocations watched; sockets: discoveries of 1..5 parties in threads from generated loopback addresses, repeated on one port, also with a dishonest client. "
    "Non-trivial: ids not announced in connection order, or a stream that is not a well-formed configuration, or two or more parties over sockets.";

// Addresses of accepted connections, in order
static std::mutex g_accept_mutex;
static std::vector<std::string> g_accepted;
#ifndef VP_FUZZ
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) {
  static auto real = reinterpret_cast<decltype(&accept)>(dlsym(RTLD_NEXT, "accept"));
  int r = real(fd, a, l), e = errno;
  if (r >= 0) {
    struct sockaddr_in in = {};
    socklen_t k = sizeof in;
    char buf[64] = "";
    if (getpeername(r, (struct sockaddr*)&in, &k) == 0 && in.sin_family == AF_INET) inet_ntop(AF_INET, &in.sin_addr, buf, sizeof buf);
    std::lock_guard<std::mutex> g(g_accept_mutex);
    g_accepted.push_back(buf);
  }
  errno = e;
  return r;
}
#endif

struct P {
  unsigned id;
  std::string host;
  int port;
  bool operator==(const P& o) const { return id == o.id && host == o.host && port == o.port; }
};
static std::string show(const std::vector<P>& v) {
  std::string s;
  for (auto& p : v) s += (s.empty() ? "" : ", ") + std::to_string(p.id) + " at " + (p.host.size() > 40 ? p.host.substr(0, 40) + "..." : p.host) + ":" + std::to_string(p.port);
  return s;
}
// The parties of a configuration by id; what is found must be a list of n parties with ids 0..n-1.
static std::vector<P> by_id(const scl::NetworkConfig& cfg, std::size_t n, unsigned me, const std::string& who) {
  VP_CHECK(cfg.Id() == me, who, " has a configuration for party ", cfg.Id(), " instead of ", me);
  VP_CHECK(cfg.NetworkSize() == n && cfg.Parties().size() == n, who, " has a configuration of ", cfg.NetworkSize(), " parties instead of ", n);
  std::vector<P> r(n);
  std::vector<bool> seen(n);
  for (auto& p : cfg.Parties()) {
    VP_CHECK(p.id < n && !seen[p.id], who, " has a configuration in which id ", p.id, " of ", n, " is out of range or repeated");
    seen[p.id] = true;
    r[p.id] = P{p.id, p.hostname, p.port};
  }
  return r;
}
// Known finding: the server gives party k the host of the k-th connection rather than that of the connection over which
// k announced itself. Nothing else is accepted in its place.
static std::vector<P> mixed_hosts(const std::vector<P>& right, const std::vector<std::string>& hosts_by_connection, unsigned me) {
  auto r = right;
  for (auto& p : r)
    if (p.id != me) p.host = hosts_by_connection[p.id];
  return r;
}
static void check_cfg(const std::vector<P>& got, const std::vector<P>& want, const std::vector<P>& known, const std::string& who) {
  VP_CHECK(got == want || got == known, who, " has ", show(got), " instead of ", show(want));
}

// What one side has sent; reading past it is a closed connection.
class Wire final : public scl::Channel {
 public:
  Bytes in, out;
  std::size_t at = 0;
  void Close() override {}
  void Send(const unsigned char* p, std::size_t n) override { out.insert(out.end(), p, p + n); }
  void Recv(unsigned char* p, std::size_t n) override {
    if (n > in.size() - at) {
      at = in.size();
      throw std::runtime_error("connection closed by remote");
    }
    if (n) std::memcpy(p, in.data() + at, n);
    at += n;
  }
  using scl::Channel::Recv;
  using scl::Channel::Send;
};
template <typename T>
static void put(Bytes& b, T v) {
  b.insert(b.end(), (unsigned char*)&v, (unsigned char*)&v + sizeof v);
}

#if defined(__SANITIZE_ADDRESS__)
static std::atomic<bool> g_watch{false};
static std::atomic<std::size_t> g_largest{0};
static void on_malloc(const volatile void*, std::size_t n) {
  if (g_watch && n > g_largest) g_largest = n;
}
static void on_free(const volatile void*) {}
struct Watch {
  Watch() {
    static bool once = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true);
    (void)once;
    g_largest = 0;
    g_watch = true;
  }
  ~Watch() { g_watch = false; }
  std::size_t largest() const { return g_largest; }
};
#else
struct Watch {
  std::size_t largest() const { return 0; }
};
#endif

static std::string gen_host(Case& c) {
  switch (c.range(0, 5)) {
    case 5: {  // names: any characters, up to the length the client takes
      std::string r(c.chance(1, 3) ? c.pick<std::size_t>({16, 17, 31, 32, 63, 64, 65, 127, 128, 252, 253}) : c.range(1, 60), 'h');
      u64 s = c.word();
      for (auto& x : r) x = "abcdefghijklmnopqrstuvwxyz0123456789-._ABZ"[splitmix(s) % 42];
      if (c.chance(1, 8)) r[r.size() / 2] = (char)c.range(0, 255);
      return r;
    }
    case 0: return "127.0.0.1";
    case 1: return "10.0." + std::to_string(c.range(0, 3)) + "." + std::to_string(c.range(0, 255));
    case 2: return "255.255.255.255";
    case 3: return std::string(c.range(0, 15), (char)('a' + c.range(0, 25)));
    default: return std::to_string(c.range(1, 254)) + "." + std::to_string(c.range(0, 255)) + ".1.2";
  }
}
static int gen_port(Case& c) {
  switch (c.range(0, 3)) {
    case 0: return (int)c.range(1, 65535);
    case 1: return (int)c.word();
    case 2: return c.pick<int>({0, 1, -1, 65535, 65536, 255, 256, INT32_MAX, INT32_MIN});
    default: return 9900 + (int)c.range(0, 10);
  }
}

VP_ARM(server, 6000, 120000, 400, 3) {
  std::size_t n = c.chance(1, 60) ? (c.chance(1, 80) ? 255 : c.range(13, 40)) : 1 + c.range(0, c.chance(1, 4) ? 11 : 5);
  unsigned me = (unsigned)c.range(0, n - 1);
  std::vector<std::string> hosts;
  bool same = c.chance(1, 4);
  for (std::size_t i = 0; i < n; i++) hosts.push_back(same ? "127.0.0.1" : gen_host(c));
  P self{me, hosts[me], gen_port(c)};
  // ids of the clients over their connections
  std::vector<unsigned> others;
  for (unsigned i = 0; i < n; i++)
    if (i != me) others.push_back(i);
  std::vector<unsigned> ids(n, me);
  {
    auto p = c.chance(1, 5) ? std::vector<std::size_t>() : c.perm(others.size());
    std::size_t k = 0;
    for (unsigned i = 0; i < n; i++)
      if (i != me) {
        ids[i] = others[p.empty() ? k : p[k]];
        k++;
      }
  }
  bool in_order = true;
  for (unsigned i = 0; i < n; i++) in_order &= ids[i] == i;
  auto honest = ids;
  std::size_t bad = n > 1 && c.flip() ? 1 + c.range(0, 1) : 0;
  for (std::size_t k = 0; k < bad; k++) {
    unsigned i = (unsigned)c.range(0, n - 1);
    if (i == me) continue;
    switch (c.range(0, 3)) {
      case 0: ids[i] = me; break;
      case 1: ids[i] = ids[c.range(0, n - 1)]; break;
      case 2: ids[i] = (unsigned)(n + c.range(0, 3)); break;
      default: ids[i] = c.pick<unsigned>({UINT32_MAX, 0x80000000u, 1u << 16, 1u << 30, (unsigned)(0x100000000ull / sizeof(scl::Party)), (unsigned)c.word()}); break;
    }
  }
  // valid exactly when the ids are a permutation
  std::vector<bool> seen(n);
  bool valid = true;
  for (auto x : ids) {
    if (x >= n || seen[x]) valid = false;
    else seen[x] = true;
  }
  std::vector<int> ports(n);
  std::vector<P> want(n);
  want[me] = self;
  for (unsigned i = 0; i < n; i++)
    if (i != me) {
      ports[i] = gen_port(c);
      if (valid) want[ids[i]] = P{ids[i], hosts[i], ports[i]};
    }
  std::string d;
  for (auto x : ids) d += std::to_string(x) + " ";
  c.note(n, " parties, server ", me, ", ids over connections ", d, valid ? "" : "(invalid)");
  c.label(valid ? (in_order ? "in order" : "out of order") : "invalid ids");
  c.interesting(!in_order || !valid);
  bool cut = n > 1 && c.chance(1, 10);
  std::size_t cut_at = c.range(0, n - 1), keep = c.range(0, sizeof(unsigned) + sizeof(int) - 1);
  std::vector<std::shared_ptr<Wire>> w(n);
  std::vector<std::shared_ptr<scl::Channel>> ch(n);
  bool really_cut = false;
  for (unsigned i = 0; i < n; i++) {
    if (i == me) continue;
    w[i] = std::make_shared<Wire>();
    // the clients' own code speaks, unless cut
    std::shared_ptr<scl::Channel> x = w[i];
    Client::SendIdAndPort step(ids[i], ports[i]);
    step.Run(x);
    VP_CHECK(w[i]->in.empty() && w[i]->out.size() == sizeof(unsigned) + sizeof(int), "a client announced itself with ", w[i]->out.size(), " bytes");
    w[i]->in = std::move(w[i]->out);
    w[i]->out.clear();
    if (cut && i == cut_at) {
      w[i]->in.resize(keep);
      really_cut = true;
    }
    ch[i] = x;
  }
  Server::Ctx ctx{scl::Party{self.id, self.host, self.port}, scl::Network{ch}};
  Server::CollectIdsAndPorts step(hosts);
  scl::NetworkConfig cfg;
  bool threw = throws([&] { cfg = scl::Evaluate(step, ctx); });
  if (!valid || really_cut) {
    VP_CHECK(threw, "the server accepted ", really_cut ? "a connection that was cut short" : "ids that are not a permutation");
    for (auto& x : w)
      if (x) VP_CHECK(x->out.empty(), "the server sent a configuration although it failed");
    return;
  }
  VP_CHECK(!threw, "the server failed although every id was announced once");
  auto known = mixed_hosts(want, hosts, me);
  auto got = by_id(cfg, n, me, "the server");
  check_cfg(got, want, known, "the server");
  for (unsigned i = 0; i < n; i++) {
    if (i == me) continue;
    VP_CHECK(w[i]->at == w[i]->in.size(), "the server left bytes of party ", ids[i], " unread");
    auto r = std::make_shared<Wire>();
    r->in = w[i]->out;
    std::shared_ptr<scl::Channel> x = r;
    Client::ReceiveNetworkConfig last(ids[i]);
    auto ccfg = last.Finalize(x);
    VP_CHECK(r->at == r->in.size(), "client ", ids[i], " left ", r->in.size() - r->at, " bytes of the configuration unread");
    VP_CHECK(by_id(ccfg, n, ids[i], "client") == got, "client ", ids[i], " has a configuration that differs from the server's");
  }
}

// Independent reading of the stream
struct Parsed {
  bool ok = false;
  std::vector<P> parties;
  bool grey = false;  // beyond limits the code may set (number of parties, length of a name)
};
static Parsed parse(const Bytes& b, unsigned me) {
  Parsed r;
  std::size_t at = 0;
  auto get = [&](auto& v) {
    if (b.size() - at < sizeof v) return false;
    std::memcpy(&v, b.data() + at, sizeof v);
    at += sizeof v;
    return true;
  };
  u64 n;
  if (!get(n)) return r;
  std::map<unsigned, P> m;
  if (n > MAX_DISCOVER_PARTIES) r.grey = true;
  if (n > b.size() / 16) return r;
  for (u64 i = 0; i < n; i++) {
    P p;
    u64 len;
    if (!get(p.id) || !get(p.port) || !get(len)) return r;
    if (len > 253) r.grey = true;
    if (len > b.size() - at) return r;
    p.host.assign((const char*)b.data() + at, len);
    at += len;
    if (p.id >= n || m.count(p.id)) return r;
    m[p.id] = p;
  }
  if (me >= n) return r;
  for (auto& k : m) r.parties.push_back(k.second);
  r.ok = true;
  return r;
}

VP_ARM_FUZZ(client, 8000, 200000, 600, 3) {
  Bytes b;
  unsigned me = 0;
  bool raw = c.chance(1, 8);
  if (raw) {
    me = (unsigned)c.range(0, 4);
    if (c.flip()) put<u64>(b, c.range(0, 5));
    Bytes x = c.bytes(c.range(0, 90));
    b.insert(b.end(), x.begin(), x.end());
  } else {
    std::size_t n = c.chance(1, 60) ? c.pick<std::size_t>({254, 255, 256, 257, 300}) : 1 + c.range(0, c.chance(1, 4) ? 7 : 3);
    me = (unsigned)c.range(0, n - 1);
    if (c.chance(1, 10)) me = (unsigned)(n + c.range(0, 2));
    u64 count = n;
    if (c.chance(1, 8)) count = c.chance(1, 2) ? c.range(0, n + 2) : c.pick<u64>({0, 1, 255, 256, 1000, 1u << 20, 1ull << 32, (1ull << 32) + n, 1ull << 40, UINT64_MAX, UINT64_MAX / sizeof(scl::Party) + 2, 1ull << 63});
    put<u64>(b, count);
    auto order = c.perm(n);
    if (n > 12) std::iota(order.begin(), order.end(), 0), std::rotate(order.begin(), order.begin() + (long)c.range(0, n - 1), order.end());
    std::size_t hurt = c.chance(2, 5) ? 1 + c.range(0, 1) : 0;
    std::set<std::size_t> bad;
    for (std::size_t k = 0; k < hurt; k++) bad.insert(c.range(0, n - 1));
    for (std::size_t k = 0; k < n; k++) {
      unsigned id = (unsigned)order[k];
      int port = n > 12 ? (int)k : gen_port(c);
      std::string host = n > 12 ? "h" + std::to_string(k) : gen_host(c);
      u64 len = host.size();
      if (bad.count(k)) switch (c.range(0, 5)) {
          case 0: id = (unsigned)c.range(0, n - 1); break;
          case 1: id = c.pick<unsigned>({(unsigned)n, (unsigned)n + 1, UINT32_MAX, 0x80000000u, 1u << 20, (unsigned)c.word()}); break;
          case 2: len = c.pick<u64>({0, len + 1, 1u << 20, 1ull << 32, (1ull << 32) + len, 1ull << 40, UINT64_MAX, UINT64_MAX - 15, 1ull << 63}); break;
          case 3: continue;  // dropped
          case 4: host = std::string(c.pick<std::size_t>({252, 253, 254, 255, 256, 300, 5000}), 'x'), len = host.size(); break;
          default: host[0] = 0; break;
        }
      put(b, id);
      put(b, port);
      put(b, len);
      b.insert(b.end(), host.begin(), host.end());
    }
    if (c.chance(1, 8)) b.resize(c.range(0, b.size()));
    if (c.chance(1, 10)) b.push_back(7);
    if (c.chance(1, 12) && !b.empty()) b[c.range(0, b.size() - 1)] ^= (unsigned char)(1 + c.range(0, 254));
  }
  auto want = parse(b, me);
  c.note("party ", me, ", ", b.size(), " bytes, ", want.ok ? "a configuration of " + std::to_string(want.parties.size()) : std::string("not a configuration"), want.grey ? ", beyond limits" : "");
  if (want.ok) c.note(show(want.parties).substr(0, 200));
  c.label(want.ok ? want.grey ? "large" : "configuration" : "hostile");
  c.interesting(!want.ok || want.parties.size() > 1);
  auto w = std::make_shared<Wire>();
  w->in = b;
  std::shared_ptr<scl::Channel> x = w;
  scl::NetworkConfig cfg;
  Client::ReceiveNetworkConfig last(me);
  bool threw;
  std::size_t largest;
  {
    Watch watch;
    threw = throws([&] { cfg = last.Finalize(x); });
    largest = watch.largest();
  }
  VP_CHECK(largest <= (1u << 20) + 64 * b.size(), "a message of ", b.size(), " bytes made the client allocate ", largest, " bytes");
  if (!want.ok) {
    VP_CHECK(threw, "the client made a configuration of ", cfg.NetworkSize(), " parties out of something that is none");
    return;
  }
  if (threw && want.grey) return;
  VP_CHECK(!threw, "the client rejected a good configuration");
  auto got = by_id(cfg, want.parties.size(), me, "the client");
  VP_CHECK(got == want.parties, "the client has ", show(got), " instead of ", show(want.parties));
  VP_CHECK(w->out.empty(), "the client sent something while it received the configuration");
}

// A server whose own id does not fit is refused before anything else
VP_ARM(server_setup, 600, 5000, 60, 1) {
  std::size_t n = c.chance(1, 3) ? c.range(0, 4) : c.pick<std::size_t>({0, 1, 2, 254, 255, 256, 257, 1000, (std::size_t)1 << 32, SIZE_MAX});
  Port port;
  c.note(n, " parties");
  c.interesting();
  std::unique_ptr<Server> s;
  bool threw = throws([&] { s = std::make_unique<Server>(port, n); });
  VP_CHECK(threw == (n > MAX_DISCOVER_PARTIES), "a server for ", n, " parties was ", threw ? "refused" : "accepted");
  if (threw) return;
  unsigned me = c.chance(1, 2) ? (unsigned)(n + c.range(0, 3)) : c.pick<unsigned>({UINT32_MAX, 0x80000000u, 1000});
  std::vector<std::string> hosts(n, "127.0.0.1");
  {
    std::vector<std::shared_ptr<scl::Channel>> ch;
    for (std::size_t i = 0; i < n; i++) {
      auto w = std::make_shared<Wire>();
      put<unsigned>(w->in, (unsigned)i);
      put<int>(w->in, 1234);
      ch.push_back(w);
    }
    Server::Ctx ctx{scl::Party{me, "127.0.0.1", 1}, scl::Network{ch}};
    Server::CollectIdsAndPorts step(hosts);
    VP_CHECK(throws([&] { (void)scl::Evaluate(step, ctx); }), "a server with id ", me, " of ", n, " parties produced a configuration");
  }
  if (n > 1) return;  // Run would wait for connections if it accepted the id
  VP_CHECK(throws([&] { (void)s->Run(scl::Party{me, "127.0.0.1", 1}); }), "a server with id ", me, " of ", n, " parties produced a configuration");
}

VP_ARM(sockets, 160, 2500, 200, 5) {
  watch_for_deadlock(12);
  sleep_cap_us = 1500;
  Port port;
  std::size_t rounds = 1 + c.weighted({3, 1, 1});
  chop_max = c.chance(1, 3) ? 5 : 0;
  chop_seed = c.word();
  for (std::size_t round = 0; round < rounds; round++) {
    std::size_t n = 1 + c.range(0, c.chance(1, 3) ? 4 : 2);
    unsigned me = (unsigned)c.range(0, n - 1);
    int hosts_kind = (int)c.range(0, 2);
    std::vector<P> all(n);
    for (unsigned i = 0; i < n; i++) {
      std::string h = "127.0.0.1";
      if (hosts_kind == 1) h = "127.0.0." + std::to_string(10 + i);
      if (hosts_kind == 2) h = "127." + std::to_string(c.range(0, 255)) + "." + std::to_string(c.range(0, 255)) + "." + std::to_string(c.range(1, 254));
      if (i == me && c.chance(1, 3)) h = gen_host(c);  // the server says where it is itself
      all[i] = P{i, h, gen_port(c)};
    }
    bool hostile = n > 1 && c.chance(1, 4);
    unsigned villain = (me + 1 + (unsigned)c.range(0, n > 1 ? n - 2 : 0)) % (unsigned)n, claim = villain;
    if (hostile) claim = c.chance(1, 3) ? me : c.chance(1, 2) ? (unsigned)(n + c.range(0, 2)) : (villain + 1) % (unsigned)n;
    if (claim == villain) hostile = false;
    auto start = c.perm(n);
    std::vector<u64> delay(n);
    for (auto& d : delay) d = c.weighted({2, 1}) ? 0 : c.range(0, 4000);
    bool one_by_one = c.chance(1, 3);
    std::string d;
    for (auto k : start) d += std::to_string(k) + " ";
    c.note(n, " parties, server ", me, ", start-up ", d, one_by_one ? "in this order" : "", hostile ? ", party " + std::to_string(villain) + " claims to be " + std::to_string(claim) : std::string(), ": ", show(all));
    c.label(std::to_string(n) + " parties");
    if (hostile) c.label("dishonest");
    c.interesting(n > 1);
    std::vector<scl::NetworkConfig> cfg(n);
    std::vector<char> failed(n, 0);
    std::atomic<std::size_t> done{0};
    g_accepted.clear();
    Threads t;
    for (std::size_t k = 0; k < n; k++) {
      unsigned i = (unsigned)start[k];
      t.go([&, i, k] {
        if (one_by_one) nap(2500 * k);
        nap(delay[i]);
        if (i == me) {
          failed[i] = throws([&] {
            Server s(port, n);
            cfg[i] = s.Run(scl::Party{i, all[i].host, all[i].port});
          });
        } else {
          connect_from = all[i].host;
          unsigned id = hostile && i == villain ? claim : i;
          failed[i] = throws([&] {
            Client cl("127.0.0.1", port);
            cfg[i] = cl.Run(id, all[i].port);
          });
          connect_from.clear();
        }
        done++;
      });
    }
    t.join();
    if (hostile) {
      for (unsigned i = 0; i < n; i++) VP_CHECK(failed[i], i == me ? "the server" : "a client", " ended with a configuration although a party had claimed another id");
      continue;
    }
    for (unsigned i = 0; i < n; i++) VP_CHECK(!failed[i], i == me ? "the server" : "a client", " failed in an honest discovery");
    auto got = by_id(cfg[me], n, me, "the server");
    VP_CHECK(g_accepted.size() == n - 1, g_accepted.size(), " connections were accepted in a discovery of ", n, " parties");
    auto by_connection = g_accepted;
    by_connection.insert(by_connection.begin() + me, all[me].host);
    check_cfg(got, all, mixed_hosts(all, by_connection, me), "the server");
    if (!(got == all)) c.label("known finding: hosts mixed up");
    for (unsigned i = 0; i < n; i++)
      if (i != me) VP_CHECK(by_id(cfg[i], n, i, "client " + std::to_string(i)) == got, "client ", i, " has a configuration that differs from the server's");
  }
  chop_max = 0;
}

// A client announces itself properly and is gone before the configuration arrives
VP_ARM(leaver, 80, 1500, 80, 2) {
  watch_for_deadlock(12);
  sleep_cap_us = 1500;
  Port port;
  std::size_t n = 2 + c.range(0, 3);
  unsigned me = (unsigned)c.range(0, n - 1), gone = (me + 1 + (unsigned)c.range(0, n - 2)) % (unsigned)n;
  bool abort = c.flip(), last = c.flip();
  c.note(n, " parties, server ", me, ", party ", gone, " leaves", abort ? " without ceremony" : "", last ? ", connected last" : "");
  c.interesting();
  unsigned before = sigpipes;
  std::vector<scl::NetworkConfig> cfg(n);
  std::vector<char> failed(n, 0);
  Threads t;
  for (unsigned i = 0; i < n; i++)
    t.go([&, i] {
      if (i == me) {
        failed[i] = throws([&] {
          Server s(port, n);
          cfg[i] = s.Run(scl::Party{i, "127.0.0.1", 1000 + (int)i});
        });
      } else if (i == gone) {
        if (last) nap(4000);
        int f = scl::details::ConnectAsClient("127.0.0.1", port);
        if (abort) {
          struct linger l = {1, 0};
          ::setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        }
        scl::TcpChannel own(f);
        scl::Channel& ch = own;
        ch.Send(i);
        ch.Send(1000 + (int)i);
        if (abort) nap(3000);  // let it arrive
      } else {
        failed[i] = throws([&] {
          Client cl("127.0.0.1", port);
          cfg[i] = cl.Run(i, 1000 + (int)i);
        });
      }
    });
  t.join();
  VP_CHECK(sigpipes == before, "a client that left made the server raise SIGPIPE, which ends the process");
  std::vector<P> all;
  for (unsigned i = 0; i < n; i++) all.push_back(P{i, "127.0.0.1", 1000 + (int)i});
  for (unsigned i = 0; i < n; i++)
    if (i != gone && !failed[i]) VP_CHECK(by_id(cfg[i], n, i, "party " + std::to_string(i)) == all, "party ", i, " has another configuration than the parties announced");
}
