// C26: results do not depend on scheduling or transport.
// vp: flavours=asan,tsan arms_asan=scheduled,memory,sockets,library arms_tsan=memory,sockets,library trust_oracle=1 case_timeout=90 budget=34 tbudget=480
#include <scl/hash.h>
#include <scl/net/network.h>
#include <scl/ss/additive.h>
#include <scl/ss/shamir.h>

#include "net_util.h"
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "layered and synthetic circuits as in C01 over n=1..13 parties, TurboPack and the baseline, every party a thread with the sending and receiving halves of preprocessing (and of the baseline's layers) in threads of "
    "their own as in experiments/*.cc, or not. scheduled: one thread runs at a time and the next is chosen at every send and receive (uniform, few switches, priorities with change points, one party held back), a "
    "deadlock is a failure; memory: real threads over in-memory channels with generated delays around channel operations; sockets: the same over TCP, plain or with sending threads, short transfers, networks "
    "connected by the library, sometimes two protocols in a row on one network; library: what several threads do at once, each with objects of its own (typed messages, sharings, linear algebra, text, hashes, clear circuits), against the same done alone. Oracle: the clear value of the circuit. Non-trivial: two or more parties, a multiplication and an output.";

// Small messages are delayed by the kernel unless told otherwise; accepted connections inherit nothing, so both ends are set.
extern "C" int accept(int fd, struct sockaddr* a, socklen_t* l) {
  static auto real = reinterpret_cast<decltype(&accept)>(dlsym(RTLD_NEXT, "accept"));
  int r = real(fd, a, l), e = errno, one = 1;
  if (r >= 0 && no_delay) setsockopt(r, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  errno = e;
  return r;
}

// ---------------------------------------------------------------- execution
struct Exec {
  virtual ~Exec() = default;
  // runs all but the last in threads of their own and the last one here; returns when all are done
  virtual void par(std::vector<std::function<void()>> fs) = 0;
  virtual void pause() {}
};
// thread-local source of delays
static thread_local std::unique_ptr<Pace> t_pace;
static std::atomic<u64> g_pace_seed{0};
static std::atomic<unsigned> g_pace_level{0};
static void pace() {
  if (!g_pace_level) return;
  if (!t_pace) t_pace = std::make_unique<Pace>(g_pace_seed.fetch_add(0x9E3779B97F4A7C15ull), (unsigned)g_pace_level);
  (*t_pace)();
}
struct Free : Exec {
  void par(std::vector<std::function<void()>> fs) override {
    Threads t;
    for (std::size_t i = 0; i + 1 < fs.size(); i++) t.go(fs[i]);
    fs.back()();
    t.join();
  }
  void pause() override { pace(); }
};
class PacedChannel final : public scl::Channel {
 public:
  PacedChannel(scl::Network n, unsigned peer) : net_(std::move(n)), peer_(peer) {}
  void Close() override {}
  void Send(const unsigned char* p, std::size_t n) override {
    pace();
    net_.Party(peer_)->Send(p, n);
    progress.fetch_add(1, std::memory_order_relaxed);
  }
  void Recv(unsigned char* p, std::size_t n) override {
    pace();
    net_.Party(peer_)->Recv(p, n);
    progress.fetch_add(1, std::memory_order_relaxed);
  }

 private:
  scl::Network net_;
  unsigned peer_;
};
static std::shared_ptr<scl::Network> paced(const scl::Network& n) {
  std::vector<std::shared_ptr<scl::Channel>> ch;
  for (unsigned j = 0; j < n.Size(); j++) ch.push_back(std::make_shared<PacedChannel>(n, j));
  return std::make_shared<scl::Network>(ch);
}

// One thread at a time; the next one is chosen whenever the running one sends, receives, pauses, waits or ends.
class Sched {
 public:
  enum Kind { Uniform, Sticky, Priority, HoldBack };
  struct T {
    std::function<bool()> ready;
    bool done = false;
    u64 prio = 0;
    std::size_t party = 0;
    std::string waits;
    std::unique_ptr<std::condition_variable> cv = std::make_unique<std::condition_variable>();
  };
  Sched(Kind k, u64 seed, std::size_t held) : kind_(k), rng_(seed), held_(held) {}
  std::size_t add(std::size_t party) {  // by the running thread, or before the start
    std::unique_lock<std::mutex> l(m_);
    T t;
    t.prio = rng_.next();
    t.party = party;
    ts_.push_back(std::move(t));
    return ts_.size() - 1;
  }
  void begin(std::size_t me) {  // first call of every thread
    std::unique_lock<std::mutex> l(m_);
    id() = me;
    auto* cv = ts_[me].cv.get();
    cv->wait(l, [&] { return running_ == me; });
  }
  void yield(std::function<bool()> ready, const std::string& what) {
    std::unique_lock<std::mutex> l(m_);
    std::size_t me = id();
    ts_[me].ready = std::move(ready);
    ts_[me].waits = what;
    next();
    if (running_ != me) {
      auto* cv = ts_[me].cv.get();
      cv->wait(l, [&] { return running_ == me; });
    }
  }
  void end() {
    std::unique_lock<std::mutex> l(m_);
    ts_[id()].done = true;
    next();
  }
  void start() {
    std::unique_lock<std::mutex> l(m_);
    next();
  }
  bool done(std::size_t t) const { return ts_[t].done; }
  static std::size_t& id() {
    static thread_local std::size_t x = 0;
    return x;
  }
  std::size_t party() const { return ts_[id()].party; }
  std::size_t switches = 0, steps = 0;

 private:
  void next() {
    std::vector<std::size_t> r;
    bool left = false;
    for (std::size_t i = 0; i < ts_.size(); i++)
      if (!ts_[i].done) {
        left = true;
        if (!ts_[i].ready || ts_[i].ready()) r.push_back(i);
      }
    if (!left) {
      running_ = SIZE_MAX;
      return;
    }
    if (r.empty()) {
      std::string s;
      for (auto& t : ts_)
        if (!t.done) s += " party " + std::to_string(t.party) + " waits for " + t.waits + ";";
      die("deadlock:" + s);
    }
    steps++;
    std::size_t pick = r[0];
    std::size_t cur = running_;
    bool cur_ok = std::find(r.begin(), r.end(), cur) != r.end();
    switch (kind_) {
      case Uniform: pick = r[rng_.below(r.size())]; break;
      case Sticky: pick = cur_ok && rng_.below(12) ? cur : r[rng_.below(r.size())]; break;
      case Priority:
        if (cur < ts_.size() && rng_.below(40) == 0) ts_[cur].prio = rng_.next() >> 8;
        for (auto x : r)
          if (ts_[x].prio > ts_[pick].prio) pick = x;
        break;
      case HoldBack: {
        std::vector<std::size_t> q;
        for (auto x : r)
          if (ts_[x].party != held_) q.push_back(x);
        if (q.empty()) q = r;
        pick = q[rng_.below(q.size())];
        break;
      }
    }
    if (pick != cur) switches++;
    running_ = pick;
    ts_[pick].cv->notify_one();
  }
  Kind kind_;
  Rng rng_;
  std::size_t held_;
  std::mutex m_;
  std::vector<T> ts_;
  std::size_t running_ = SIZE_MAX;
};
class SchedNet {
 public:
  SchedNet(Sched& s, std::size_t n) : s_(s), n_(n), q_(n * n) {}
  std::shared_ptr<scl::Network> of(std::size_t id);
  Sched& s_;
  std::size_t n_;
  std::vector<std::deque<unsigned char>> q_;
};
class SchedChannel final : public scl::Channel {
 public:
  SchedChannel(SchedNet& n, std::size_t me, std::size_t peer) : n_(n), me_(me), peer_(peer) {}
  void Close() override {}
  void Send(const unsigned char* p, std::size_t k) override {
    auto& q = n_.q_[me_ * n_.n_ + peer_];
    q.insert(q.end(), p, p + k);
    n_.s_.yield(nullptr, "nothing");
  }
  void Recv(unsigned char* p, std::size_t k) override {
    auto& q = n_.q_[peer_ * n_.n_ + me_];
    n_.s_.yield([&q, k] { return q.size() >= k; }, "data from party " + std::to_string(peer_));
    std::copy(q.begin(), q.begin() + (long)k, p);
    q.erase(q.begin(), q.begin() + (long)k);
  }

 private:
  SchedNet& n_;
  std::size_t me_, peer_;
};
std::shared_ptr<scl::Network> SchedNet::of(std::size_t id) {
  std::vector<std::shared_ptr<scl::Channel>> ch;
  for (std::size_t j = 0; j < n_; j++) ch.push_back(std::make_shared<SchedChannel>(*this, id, j));
  return std::make_shared<scl::Network>(ch);
}
struct Controlled : Exec {
  Sched& s;
  explicit Controlled(Sched& x) : s(x) {}
  void par(std::vector<std::function<void()>> fs) override {
    std::vector<std::size_t> ids;
    Threads t;
    for (std::size_t i = 0; i + 1 < fs.size(); i++) {
      std::size_t id = s.add(s.party());
      ids.push_back(id);
      t.go([this, id, f = fs[i]] {
        s.begin(id);
        f();
        s.end();
      });
    }
    fs.back()();
    for (auto id : ids) s.yield([this, id] { return s.done(id); }, "a thread");
    t.join();
  }
  void pause() override { s.yield(nullptr, "nothing"); }
};

// ---------------------------------------------------------------- parties
struct Job {
  bool turbo;
  Params par;
  bool from_config;
  Config cfg;
  Spec spec;
  std::vector<std::vector<u128>> in, want;
  bool threads;   // halves in threads of their own
  bool as_shipped;  // order of the steps of circuit-dependent preprocessing
};
static Job gen_job(Case& c, std::size_t n_fixed, std::size_t max_k, std::size_t max_n) {
  Job j;
  j.turbo = c.weighted({3, 2}) == 0;
  std::size_t n;
  if (j.turbo) {
    if (n_fixed) {  // n = t + 2k - 1
      std::vector<Params> ok;
      for (std::size_t k = 1; k <= max_k; k++)
        for (std::size_t t = 0; t <= 2 * k - 2; t++)
          if (t + 2 * (k - 1) + 1 == n_fixed) ok.push_back({n_fixed, t, k});
      if (ok.empty()) j.turbo = false;
      else j.par = c.pick(ok);
    } else
      j.par = gen_params(c, max_k);
  }
  if (!j.turbo) {
    n = n_fixed ? n_fixed : c.range(1, max_n);
    j.par = {n, c.range(0, (n - 1) / 2), c.range(1, 3)};
    if (c.flip()) j.par.t = (n - 1) / 2;
  }
  n = j.par.n;
  j.from_config = c.chance(1, 4);
  if (j.from_config) {
    j.cfg = gen_config(c, n, j.par.k);
    j.spec = j.cfg.spec();
  } else
    j.spec = gen_spec(c, n, j.par.k, 3, 5);
  j.in = gen_inputs(c, j.spec);
  j.want = j.spec.outputs(j.spec.eval(j.in));
  j.threads = c.weighted({1, 4}) == 1;
  j.as_shipped = c.weighted({1, 2}) == 1;
  c.note(j.turbo ? "TurboPack" : "baseline", " n=", n, " t=", j.par.t, j.threads ? " with" : " without", " threads, circuit ", j.spec.show(), " inputs ", show_inputs(j.in));
  c.label(j.turbo ? "TurboPack" : "baseline");
  if (j.threads) c.label("halves in threads");
  c.interesting(n >= 2 && j.spec.size() && !j.spec.outs.empty());
  return j;
}
static void check(const Job& j, std::size_t id, const std::vector<u128>& got) {
  auto& want = j.want[id];
  VP_CHECK(got.size() == want.size(), "party ", id, " obtained ", got.size(), " outputs instead of ", want.size());
  for (std::size_t k = 0; k < want.size(); k++) VP_CHECK(got[k] == want[k], j.turbo ? "TurboPack: output " : "baseline: output ", k, " of party ", id, " is ", str(got[k]), " instead of ", str(want[k]));
}
static void turbo_party(const Job& j, Exec& x, std::size_t id, std::shared_ptr<scl::Network> net) {
  Built b;
  if (j.from_config) build(b, j.cfg, j.spec);
  else build(b, j.spec);
  auto& C = b.circuit;
  C.SetNetwork(net, id);
  C.GenCorrelator();
  C.SetThreshold(j.par.t);
  x.pause();
  if (j.threads) x.par({[&] { C.FIPrepSend(); }, [&] { C.FIPrepRecv(); }});
  else {
    C.FIPrepSend();
    C.FIPrepRecv();
  }
  x.pause();
  if (j.threads && j.par.t >= 1) x.par({[&] { C.GenProdPartiesSendP1(); }, [&] { C.GenProdP1ReceivesAndSends(); }, [&] { C.GenProdPartiesReceive(); }});
  else {
    C.GenProdPartiesSendP1();
    C.GenProdP1ReceivesAndSends();
    C.GenProdPartiesReceive();
  }
  x.pause();
  C.MapCorrToCircuit();
  C.PrepMultPartiesSendP1();
  C.PrepMultP1ReceivesAndSends();
  if (j.as_shipped) {
    C.PrepIOPartiesSendOwner();
    C.PrepMultPartiesReceive();
  } else {
    C.PrepMultPartiesReceive();
    C.PrepIOPartiesSendOwner();
  }
  C.PrepIOOwnerReceives();
  x.pause();
  if (!j.in[id].empty()) C.SetInputs(ffs(j.in[id]));
  C.InputOwnerSendsP1();
  C.InputP1Receives();
  for (std::size_t l = 0; l < j.spec.depth(); l++) {
    C.MultP1Sends(l);
    C.MultPartiesReceive(l);
    C.MultPartiesSend(l);
    C.MultP1Receives(l);
  }
  C.OutputP1SendsMu();
  C.OutputOwnerReceivesMu();
  check(j, id, vals(C.GetOutputs()));
}
static void dn_party(const Job& j, Exec& x, std::size_t id, std::shared_ptr<scl::Network> net) {
  Built b;
  if (j.from_config) build(b, j.cfg, j.spec);
  else build(b, j.spec);
  b.circuit.SetNetwork(net, id);
  tp::DN07 d(j.par.n, j.par.t);
  d.SetCircuit(b.circuit);
  x.pause();
  if (j.threads) x.par({[&] { d.PrepPartiesSend(); }, [&] { d.PrepPartiesReceive(); }});
  else {
    d.PrepPartiesSend();
    d.PrepPartiesReceive();
  }
  x.pause();
  d.FDMapPrepToGates();
  d.FDMultPartiesSendP1();
  d.FDMultP1Receives();
  if (!j.in[id].empty()) d.SetInputs(ffs(j.in[id]));
  d.InputPartiesSendOwners();
  d.InputOwnersReceiveAndSendParties();
  d.InputPartiesReceive();
  for (std::size_t l = 0; l < j.spec.depth(); l++) {
    x.pause();
    if (j.threads) {
      x.par({[&] { d.MultPartiesSendP1(l); }, [&] { d.MultP1Receives(l); }});
      x.par({[&] { d.MultP1SendsParties(l); }, [&] { d.MultPartiesReceive(l); }});
    } else {
      d.MultPartiesSendP1(l);
      d.MultP1ReceivesAndSendsParties(l);
      d.MultPartiesReceive(l);
    }
  }
  d.OutputPartiesSendOwners();
  d.OutputOwnersReceive();
  std::vector<u128> got;
  for (std::size_t k = 0; k < j.spec.out[id].size(); k++) got.push_back(val(d.GetOutput(id, k)));
  check(j, id, got);
}
static void party(const Job& j, Exec& x, std::size_t id, std::shared_ptr<scl::Network> net) {
  if (j.turbo) turbo_party(j, x, id, net);
  else dn_party(j, x, id, net);
}

VP_ARM(scheduled, 500, 12000, 260, 3) {
  Job j = gen_job(c, 0, 3, 9);
  auto kind = (Sched::Kind)c.weighted({2, 2, 2, 2});
  std::size_t held = c.range(0, j.par.n - 1);
  static const char* nm[] = {"uniform", "few switches", "priorities", "one party held back"};
  c.note("schedule: ", nm[kind], kind == Sched::HoldBack ? " (" + std::to_string(held) + ")" : std::string());
  c.label(nm[kind]);
  Sched s(kind, c.word(), held);
  SchedNet net(s, j.par.n);
  Controlled x(s);
  Threads t;
  for (std::size_t i = 0; i < j.par.n; i++) {
    std::size_t id = s.add(i);
    t.go([&, i, id] {
      s.begin(id);
      party(j, x, i, net.of(i));
      s.end();
    });
  }
  s.start();
  t.join();
  for (std::size_t a = 0; a < j.par.n; a++)
    for (std::size_t b = 0; b < j.par.n; b++) VP_CHECK(net.q_[a * j.par.n + b].empty(), "data from party ", a, " to party ", b, " was never received");
}

VP_ARM(memory, 260, 6000, 260, 2) {
  watch_for_deadlock(15);
  Job j = gen_job(c, 0, 3, 9);
  std::vector<Job> jobs = {j};
  while (jobs.size() < 3 && c.chance(1, 4)) jobs.push_back(gen_job(c, j.par.n, 4, 9));
  g_pace_seed = c.word();
  unsigned level = (unsigned)c.weighted({1, 2, 2});
  g_pace_level = level;
  std::size_t slow = c.chance(1, 3) ? c.range(0, j.par.n - 1) : SIZE_MAX;
  if (jobs.size() > 1) c.label("several protocols on one network");
  auto nets = scl::Network::CreateFullInMemory(j.par.n);
  Free x;
  Threads t;
  for (std::size_t i = 0; i < j.par.n; i++)
    t.go([&, i] {
      if (i == slow) nap(3000);
      auto net = paced(nets[i]);
      for (auto& job : jobs) party(job, x, i, net);
    });
  t.join();
  g_pace_level = 0;
}

VP_ARM(sockets, 120, 2500, 260, 3) {
  watch_for_deadlock(15);
  sleep_cap_us = 1500;
  std::size_t n = 1 + c.range(0, c.chance(1, 4) ? 6 : 4);
  if (c.chance(1, 3)) n = 5;
  std::vector<Job> jobs = {gen_job(c, n, 4, 9)};
  if (c.chance(1, 4)) jobs.push_back(gen_job(c, n, 4, 9));
  g_pace_seed = c.word();
  g_pace_level = (unsigned)c.weighted({2, 2, 1});
  chop_max = c.chance(1, 3) ? 7 : 0;
  chop_seed = c.word();
  no_delay = c.weighted({1, 3}) == 1;
  bool senders = c.flip(), close_early = c.flip();
  c.label(senders ? "sending threads" : "plain sockets");
  c.note(senders ? "sending threads" : "plain sockets", close_early ? ", each party closes when done" : "");
  std::vector<Port> ports;
  std::vector<scl::Party> ps;
  for (std::size_t i = 0; i < n; i++) {
    ports.emplace_back();
    ps.push_back(scl::Party{(unsigned)i, "127.0.0.1", (int)ports[i]});
  }
  std::vector<u64> delay(n);
  for (auto& d : delay) d = c.weighted({2, 1}) ? 0 : c.range(0, 6000);
  Free x;
  std::atomic<std::size_t> finished{0};
  Threads t;
  for (std::size_t i = 0; i < n; i++)
    t.go([&, i] {
      nap(delay[i]);
      scl::NetworkConfig cfg((unsigned)i, ps);
      scl::Network net = senders ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg);
      auto p = paced(net);
      for (auto& job : jobs) party(job, x, i, p);
      finished++;
      while (!close_early && finished < n) nap(100);
      net.Close();
    });
  t.join();
  g_pace_level = 0;
  chop_max = 0;
}

// ---------------------------------------------------------------- the library under several threads
// Whatever threads do with objects of their own has the outcome it has alone.
template <typename T>
static void put(std::string& out, const scl::Vec<T>& v) {
  for (std::size_t i = 0; i < v.Size(); i++) out += v[i].ToString() + " ";
  out += ";";
}
template <typename T>
static scl::Vec<T> some(Rng& g, std::size_t n) {
  std::vector<T> v;
  for (std::size_t i = 0; i < n; i++) v.push_back(mk<T>(g.below(4) ? g.next128() : g.below(3)));
  return scl::Vec<T>(v);
}
template <typename T>
static void typed(Rng& g, std::string& out) {
  auto ch = scl::InMemoryChannel::CreatePaired();
  scl::Channel *a = ch[0].get(), *b = ch[1].get();
  for (std::size_t r = 0; r < 3; r++) {
    auto v = some<T>(g, g.below(6));
    auto m = scl::Mat<T>::FromVector(2, 3, some<T>(g, 6).ToStlVector());
    std::vector<u64> plain(g.below(5));
    for (auto& x : plain) x = g.next();
    a->Send(v);
    a->Send(m);
    a->Send(plain);
    scl::Vec<T> v2;
    scl::Mat<T> m2;
    std::vector<u64> p2(plain.size());
    pace();
    b->Recv(v2);
    b->Recv(m2);
    b->Recv(p2);
    put(out, v2);
    out += m2.ToString();
    for (auto x : p2) out += std::to_string(x) + " ";
    out += v2.Equals(v) && m2.Equals(m) && p2 == plain ? "same" : "other";
  }
}
static const std::size_t kOps = 9;
template <typename T>
static void library_op(std::size_t op, Rng& g, std::string& out) {
  using namespace scl;
  unsigned char seed[16];
  for (auto& b : seed) b = (unsigned char)g.next();
  PRG prg(seed);
  switch (op) {
    case 0: typed<T>(g, out); break;
    case 1: {
      std::size_t t = 1 + g.below(3), n = 3 * t + 1 + g.below(2);
      auto s = CreateShamirShares(some<T>(g, 1)[0], n, t, prg);
      put(out, s);
      s[g.below(3 * t + 1)] += T(1);
      out += ReconstructShamirRobust(s, t).ToString();
      try {
        out += ReconstructShamir(s, t).ToString();
      } catch (const std::exception& e) {
        out += e.what();
      }
      out += ReconstructShamirPassive(s, t).ToString();
      break;
    }
    case 2: {
      auto s = CreateAdditiveShares(some<T>(g, 1)[0], 1 + g.below(6), prg);
      put(out, s);
      out += ReconstructAdditive(s).ToString();
      break;
    }
    case 3: {
      std::size_t n = 1 + g.below(5);
      auto A = Mat<T>::FromVector(n, n, some<T>(g, n * n).ToStlVector());
      auto B = Mat<T>::Random(n, n, prg);
      out += A.Multiply(B).ToString() + A.Transpose().ToString();
      scl::Vec<T> x;
      out += scl::details::SolveLinearSystem(x, A, some<T>(g, n)) ? "solved" : "not solved";
      auto C = A;
      scl::details::RowReduceInPlace(C);
      out += C.ToString();
      break;
    }
    case 4: {
      auto x = some<T>(g, 2);
      std::string txt = x[0].ToString();
      out += txt + T::FromString(txt, NumberBase::DECIMAL).ToString() + T::FromString("ff" + std::string(g.below(4) * 2, '1'), NumberBase::HEX).ToString();
      try {
        out += T::FromString("12x", NumberBase::DECIMAL).ToString();
      } catch (const std::exception&) {
        out += "rejected";
      }
      out += (x[0] * x[1]).ToString();
      if (x[1] != T(0)) out += (x[0] / x[1]).ToString();
      break;
    }
    case 5: {
      std::vector<unsigned char> m(g.below(300));
      for (auto& b : m) b = (unsigned char)g.next();
      Hash256 h;
      std::size_t cut = m.empty() ? 0 : g.below(m.size());
      h.Update(m.data(), cut);
      pace();
      h.Update(m.data() + cut, m.size() - cut);
      auto d = h.Finalize();
      out += hex(d.data(), d.size());
      break;
    }
    case 6: {
      for (std::size_t k = 0; k < 4; k++) {
        auto b = prg.Next(g.below(70));
        out += hex(b.data(), b.size());
        pace();
      }
      put(out, Vec<T>::PartialRandom(4, [](std::size_t i) { return i != 2; }, prg));
      break;
    }
    case 7: {
      auto p = details::Polynomial<T>::Create(some<T>(g, 1 + g.below(6))), q = details::Polynomial<T>::Create(some<T>(g, 1 + g.below(4)));
      out += p.Multiply(q).Evaluate(some<T>(g, 1)[0]).ToString();
      if (!q.IsZero()) {
        auto r = p.Divide(q);
        out += r[0].ToString() + r[1].ToString();
      }
      break;
    }
    default: {
      Config k;
      std::size_t clients = 1 + g.below(4);
      std::size_t in = 2 * (1 + g.below(2));
      k.width = in * clients * (1 + g.below(2));
      k.depth = 1 + g.below(4);
      k.batch = 1 + g.below(3);
      k.parties = clients;
      k.in.assign(clients, in);
      k.out.assign(clients, g.below(4));
      Spec s = k.spec();
      Built b;
      build(b, k, s);
      std::vector<vp::FF> v;
      for (std::size_t i = 0; i < s.n_inputs(); i++) v.push_back(ff(g.next() % P61));
      b.circuit.SetClearInputsFlat(v);
      for (auto& y : b.circuit.GetClearOutputsFlat()) out += y.ToString() + " ";
    }
  }
}
VP_ARM(library, 700, 9000, 80, 1) {
  struct Plan {
    std::vector<std::size_t> ops;
    std::vector<int> type;
    u64 seed;
  };
  std::size_t nt = c.range(2, 4);
  std::vector<Plan> plans(nt);
  bool alike = c.flip();  // all threads do the same kind of thing
  std::size_t kind = c.range(0, kOps - 1);
  for (auto& p : plans) {
    std::size_t m = 1 + c.range(0, 3);
    for (std::size_t i = 0; i < m; i++) {
      p.ops.push_back(alike ? kind : c.range(0, kOps - 1));
      p.type.push_back((int)c.range(0, 1));
    }
    p.seed = c.word();
    for (auto o : p.ops) c.note(o);
    c.note("|");
  }
  c.label(alike ? "operation " + std::to_string(kind) : "mixed");
  c.interesting();
  auto run = [](const Plan& p) {
    Rng g(p.seed);
    std::string out;
    for (std::size_t i = 0; i < p.ops.size(); i++) {
      if (p.type[i]) library_op<F127>(p.ops[i], g, out);
      else library_op<F61>(p.ops[i], g, out);
      out += "\n";
    }
    return out;
  };
  std::vector<std::string> alone(nt), together(nt);
  auto sequential = [&] {
    for (std::size_t i = 0; i < nt; i++) alone[i] = run(plans[i]);
  };
  bool first = c.flip();  // anything prepared on first use is prepared by the threads, or before them
  if (first) sequential();
  g_pace_seed = c.word();
  g_pace_level = (unsigned)c.weighted({1, 1});
  {
    Threads t;
    std::atomic<std::size_t> here{0};
    for (std::size_t i = 0; i < nt; i++)
      t.go([&, i] {
        here++;
        while (here < nt) std::this_thread::yield();
        together[i] = run(plans[i]);
      });
    t.join();
  }
  g_pace_level = 0;
  if (!first) sequential();
  for (std::size_t i = 0; i < nt; i++) VP_CHECK(together[i] == alone[i], "thread ", i, " obtained ", together[i].substr(0, 300), " while others ran, and ", alone[i].substr(0, 300), " alone");
}
