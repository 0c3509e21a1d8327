// Protocol harness: an observable in-process network, circuits generated from the tape, a clear-value model,
// and drivers that step all parties through TurboPack or DN07.
#ifndef VP_TP_UTIL_H
#define VP_TP_UTIL_H
#include <deque>
#include <memory>
#include <numeric>

#include "poly_model.h"
#include "tp/circuits.h"
#include "tp/dn07.h"

namespace vp {

using FF = tp::FF;
inline Ar fa() { return ar<FF>(); }
inline FF ff(u128 v) { return mk<FF>(v); }
inline std::vector<FF> ffs(const std::vector<u128>& v) {
  std::vector<FF> r;
  for (auto x : v) r.push_back(ff(x));
  return r;
}
inline std::vector<u128> vals(const std::vector<FF>& v) {
  std::vector<u128> r;
  for (auto& x : v) r.push_back(val(x));
  return r;
}

// rank over the field of 2^61-1 elements
inline std::size_t rank_of(std::vector<std::vector<u128>> rows) {
  static_assert(P61 == ((u128)1 << 61) - 1, "");
  const u64 P = (u64)P61;
  auto mul = [P](u64 a, u64 b) {
    u128 x = (u128)a * b;
    u64 r = (u64)(x & P) + (u64)(x >> 61);
    return r >= P ? r - P : r;
  };
  std::vector<std::vector<u64>> m;
  for (auto& r : rows) m.emplace_back(r.begin(), r.end());
  std::size_t r = 0;
  if (m.empty()) return 0;
  std::size_t w = m[0].size();
  for (std::size_t col = 0; col < w && r < m.size(); col++) {
    std::size_t p = r;
    while (p < m.size() && m[p][col] == 0) p++;
    if (p == m.size()) continue;
    std::swap(m[p], m[r]);
    u64 inv = (u64)fa().pow(m[r][col], P61 - 2);
    const u64* a = m[r].data();
    for (std::size_t i = r + 1; i < m.size(); i++) {
      u64* b = m[i].data();
      if (!b[col]) continue;
      u64 f = mul(b[col], inv);
      for (std::size_t j = col; j < w; j++) {
        u64 x = b[j] + P - mul(f, a[j]);
        b[j] = x >= P ? x - P : x;
      }
    }
    r++;
  }
  return r;
}

// ---------------------------------------------------------------- network
struct EmptyRecv : std::runtime_error {
  using std::runtime_error::runtime_error;
};
using Bytes = std::vector<unsigned char>;
struct Traffic {
  u64 msgs = 0, bytes = 0;
  bool operator==(const Traffic& o) const { return msgs == o.msgs && bytes == o.bytes; }
};
using TrafficMap = std::map<std::pair<unsigned, unsigned>, Traffic>;

class SimNet {
 public:
  explicit SimNet(std::size_t n) : n_(n), q_(n * n), head_(n * n, 0) {}
  std::size_t n() const { return n_; }
  // pending messages from -> to
  std::deque<Bytes>& queue(std::size_t from, std::size_t to) { return q_[from * n_ + to]; }
  void send(std::size_t from, std::size_t to, const unsigned char* p, std::size_t k) {
    queue(from, to).emplace_back(p, p + k);
    auto& t = traffic[{(unsigned)from, (unsigned)to}];
    t.msgs++;
    t.bytes += k;
    if (keep) log[{(unsigned)from, (unsigned)to}].insert(log[{(unsigned)from, (unsigned)to}].end(), p, p + k);
  }
  void recv(std::size_t from, std::size_t to, unsigned char* p, std::size_t k) {
    auto& q = queue(from, to);
    auto& h = head_[from * n_ + to];
    while (k) {
      if (q.empty()) throw EmptyRecv("party " + std::to_string(to) + " waits for data from party " + std::to_string(from) + " that was never sent");
      auto& m = q.front();
      std::size_t take = std::min(k, m.size() - h);
      std::memcpy(p, m.data() + h, take);
      p += take;
      k -= take;
      h += take;
      if (h == m.size()) {
        q.pop_front();
        h = 0;
      }
    }
  }
  std::string leftovers() const {
    std::string s;
    for (std::size_t i = 0; i < n_; i++)
      for (std::size_t j = 0; j < n_; j++)
        if (!q_[i * n_ + j].empty()) s += std::to_string(i) + "->" + std::to_string(j) + ":" + std::to_string(q_[i * n_ + j].size()) + " ";
    return s;
  }
  TrafficMap take() {
    TrafficMap t;
    t.swap(traffic);
    return t;
  }
  std::shared_ptr<scl::Network> of(std::size_t id);

  TrafficMap traffic;
  bool keep = false;
  std::map<std::pair<unsigned, unsigned>, Bytes> log;

 private:
  std::size_t n_;
  std::vector<std::deque<Bytes>> q_;
  std::vector<std::size_t> head_;
};
class SimChannel final : public scl::Channel {
 public:
  SimChannel(SimNet& net, std::size_t me, std::size_t peer) : net_(net), me_(me), peer_(peer) {}
  void Close() override {}
  void Send(const unsigned char* src, std::size_t n) override { net_.send(me_, peer_, src, n); }
  void Recv(unsigned char* dst, std::size_t n) override { net_.recv(peer_, me_, dst, n); }

 private:
  SimNet& net_;
  std::size_t me_, peer_;
};
inline std::shared_ptr<scl::Network> SimNet::of(std::size_t id) {
  std::vector<std::shared_ptr<scl::Channel>> ch;
  for (std::size_t j = 0; j < n_; j++) ch.push_back(std::make_shared<SimChannel>(*this, id, j));
  return std::make_shared<scl::Network>(ch);
}

// ---------------------------------------------------------------- circuits
struct Spec {
  enum Kind { In, Add, Mul, Out };
  struct Node {
    Kind kind;
    std::size_t a = 0, b = 0, owner = 0, layer = 0;
  };
  std::size_t clients = 1, batch = 1;
  std::vector<Node> nodes;          // in creation order
  std::vector<std::size_t> layer_end;  // a NewLayer after this many nodes (all but the last layer)
  std::vector<std::size_t> widths;  // multiplications per layer
  std::vector<std::vector<std::size_t>> in, out;  // node numbers per party
  std::vector<std::size_t> outs;    // in creation order
  std::size_t size() const {
    std::size_t s = 0;
    for (auto w : widths) s += w;
    return s;
  }
  std::size_t depth() const { return widths.size(); }
  std::size_t n_inputs() const {
    std::size_t s = 0;
    for (auto& v : in) s += v.size();
    return s;
  }
  std::size_t batches(std::size_t w) const { return w ? (w + batch - 1) / batch : 1; }
  std::size_t mult_batches() const {
    std::size_t s = 0;
    for (auto w : widths) s += batches(w);
    return s;
  }
  std::size_t in_batches() const {
    std::size_t s = 0;
    for (auto& v : in) s += batches(v.size());
    return s;
  }
  std::size_t out_batches() const {
    std::size_t s = 0;
    for (auto& v : out) s += batches(v.size());
    return s;
  }
  std::string show() const {
    std::ostringstream o;
    o << clients << " parties, batch " << batch << ":";
    for (std::size_t i = 0, l = 0; i < nodes.size() && o.tellp() < 1500; i++) {
      while (l < layer_end.size() && layer_end[l] == i) {
        o << " |";
        l++;
      }
      auto& d = nodes[i];
      if (d.kind == In) o << " w" << i << "=in" << d.owner;
      if (d.kind == Add) o << " w" << i << "=w" << d.a << "+w" << d.b;
      if (d.kind == Mul) o << " w" << i << "=w" << d.a << "*w" << d.b;
      if (d.kind == Out) o << " out" << d.owner << "(w" << d.a << ")";
    }
    return o.str();
  }
  // values of all nodes
  std::vector<u128> eval(const std::vector<std::vector<u128>>& inputs) const {
    auto A = fa();
    std::vector<u128> v(nodes.size());
    std::vector<std::size_t> ctr(clients, 0);
    for (std::size_t i = 0; i < nodes.size(); i++) {
      auto& d = nodes[i];
      switch (d.kind) {
        case In: v[i] = inputs[d.owner][ctr[d.owner]++]; break;
        case Add: v[i] = A.add(v[d.a], v[d.b]); break;
        case Mul: v[i] = A.mul(v[d.a], v[d.b]); break;
        case Out: v[i] = v[d.a]; break;
      }
    }
    return v;
  }
  std::vector<std::vector<u128>> outputs(const std::vector<u128>& v) const {
    std::vector<std::vector<u128>> r(clients);
    for (std::size_t p = 0; p < clients; p++)
      for (auto o : out[p]) r[p].push_back(v[o]);
    return r;
  }
};

// Free-form layered circuits. max_w: multiplications per layer.
inline Spec gen_spec(Case& c, std::size_t clients, std::size_t batch, std::size_t max_layers = 4, std::size_t max_w = 7) {
  Spec s;
  s.clients = clients;
  s.batch = batch;
  s.in.resize(clients);
  s.out.resize(clients);
  std::size_t owners = c.chance(1, 3) ? 1 : clients;  // few or many parties with wires
  std::size_t base = c.range(0, clients - 1);
  auto party = [&] { return (base + c.range(0, owners - 1)) % clients; };
  std::size_t ni = 1 + c.range(0, c.chance(1, 4) ? 3 * batch + 1 : 5);
  for (std::size_t i = 0; i < ni; i++) {
    std::size_t o = party();
    s.in[o].push_back(s.nodes.size());
    s.nodes.push_back({Spec::In, 0, 0, o, 0});
  }
  std::size_t recent = c.range(0, 1);
  std::vector<std::size_t> avail;  // wires of closed layers and additions over them
  for (std::size_t i = 0; i < ni; i++) avail.push_back(i);
  auto wire = [&](const std::vector<std::size_t>& a) {
    std::size_t n = a.size();
    if (recent && n > 6 && c.flip()) return a[n - 1 - c.range(0, 5)];
    return a[c.range(0, n - 1)];
  };
  std::size_t layers = 1 + c.range(0, max_layers - 1);
  for (std::size_t l = 0; l < layers; l++) {
    if (l) s.layer_end.push_back(s.nodes.size());
    std::size_t w = c.chance(1, 10) ? 0 : c.range(l == 0 && c.chance(1, 8) ? 0 : 1, max_w);
    if (c.chance(1, 6)) w = batch * c.range(1, 2);
    std::size_t done = 0;
    std::vector<std::size_t> fresh;
    while (done < w) {
      std::size_t kind = c.weighted({3, 2});
      if (kind == 1 && s.nodes.size() < 120) {
        std::size_t a = wire(avail), b = wire(avail);
        avail.push_back(s.nodes.size());
        s.nodes.push_back({Spec::Add, a, b, 0, l});
      } else {
        std::size_t a = wire(avail), b = c.chance(1, 8) ? a : wire(avail);
        fresh.push_back(s.nodes.size());
        s.nodes.push_back({Spec::Mul, a, b, 0, l});
        done++;
      }
    }
    s.widths.push_back(w);
    avail.insert(avail.end(), fresh.begin(), fresh.end());
  }
  std::size_t extra = c.range(0, 3);
  for (std::size_t i = 0; i < extra; i++) {
    std::size_t a = wire(avail), b = wire(avail);
    avail.push_back(s.nodes.size());
    s.nodes.push_back({Spec::Add, a, b, 0, layers});
  }
  if (max_layers > 2 && c.chance(1, 40)) {  // a wire doubled again and again: fine when each addition is evaluated once
    std::size_t len = c.range(36, 60), a = wire(avail);
    for (std::size_t i = 0; i < len; i++) {
      avail.push_back(s.nodes.size());
      s.nodes.push_back({Spec::Add, a, a, 0, layers});
      a = s.nodes.size() - 1;
    }
  }
  std::size_t no = c.range(c.chance(1, 12) ? 0 : 1, c.chance(1, 4) ? 2 * batch + 2 : 4);
  for (std::size_t i = 0; i < no; i++) {
    std::size_t o = party(), a = c.chance(1, 3) ? wire(avail) : avail[avail.size() - 1 - c.range(0, std::min<std::size_t>(avail.size() - 1, 5))];
    s.out[o].push_back(s.nodes.size());
    s.outs.push_back(s.nodes.size());
    s.nodes.push_back({Spec::Out, a, 0, o, 0});
  }
  return s;
}
// one layer of exactly m multiplications of few inputs
inline Spec gen_row(Case& c, std::size_t clients, std::size_t batch, std::size_t m) {
  Spec s;
  s.clients = clients;
  s.batch = batch;
  s.in.resize(clients);
  s.out.resize(clients);
  std::size_t ni = 1 + c.range(0, 2);
  for (std::size_t i = 0; i < ni; i++) {
    std::size_t o = c.range(0, clients - 1);
    s.in[o].push_back(s.nodes.size());
    s.nodes.push_back({Spec::In, 0, 0, o, 0});
  }
  for (std::size_t i = 0; i < m; i++) s.nodes.push_back({Spec::Mul, i % ni, i / ni % ni, 0, 0});
  s.widths = {m};
  std::size_t o = c.range(0, clients - 1);
  s.out[o].push_back(s.nodes.size());
  s.outs.push_back(s.nodes.size());
  s.nodes.push_back({Spec::Out, s.nodes.size() - 1, 0, o, 0});
  return s;
}

// Circuits of hundreds of gates, drawn from one seed (so that they do not use up the case's choices)
inline Spec gen_sized(Case& c, std::size_t clients, std::size_t batch, std::size_t ni, std::size_t nm, std::size_t no, std::size_t layers) {
  Spec s;
  s.clients = clients;
  s.batch = batch;
  s.in.resize(clients);
  s.out.resize(clients);
  std::size_t adds = c.range(0, 3);  // additions per four multiplications
  bool one = c.chance(1, 3);         // one party owns all wires
  u64 seed = c.word();
  auto below = [&](std::size_t n) { return (std::size_t)(splitmix(seed) % n); };
  std::size_t only = below(clients);
  auto party = [&] { return one ? only : below(clients); };
  for (std::size_t i = 0; i < ni; i++) {
    std::size_t o = party();
    s.in[o].push_back(s.nodes.size());
    s.nodes.push_back({Spec::In, 0, 0, o, 0});
  }
  std::vector<std::size_t> avail(ni);
  std::iota(avail.begin(), avail.end(), 0);
  auto wire = [&] { return avail[below(4) ? below(avail.size()) : avail.size() - 1 - below(std::min<std::size_t>(avail.size(), 20))]; };
  std::size_t left = nm;
  for (std::size_t l = 0; l < layers; l++) {
    if (l) s.layer_end.push_back(s.nodes.size());
    std::size_t w = l + 1 == layers ? left : std::min(left, below(2 * nm / layers + 1));
    left -= w;
    std::vector<std::size_t> fresh;
    for (std::size_t i = 0; i < w; i++) {
      if (below(4) < adds) {
        std::size_t a = wire(), b = wire();
        avail.push_back(s.nodes.size());
        s.nodes.push_back({Spec::Add, a, b, 0, l});
      }
      std::size_t a = wire(), b = wire();
      fresh.push_back(s.nodes.size());
      s.nodes.push_back({Spec::Mul, a, b, 0, l});
    }
    s.widths.push_back(w);
    avail.insert(avail.end(), fresh.begin(), fresh.end());
  }
  for (std::size_t i = 0; i < no; i++) {
    std::size_t o = party(), a = wire();
    s.out[o].push_back(s.nodes.size());
    s.outs.push_back(s.nodes.size());
    s.nodes.push_back({Spec::Out, a, 0, o, 0});
  }
  return s;
}
inline Spec gen_big(Case& c, std::size_t clients, std::size_t batch, std::size_t max_m) {
  auto log_range = [&](std::size_t lo, std::size_t hi) {
    std::size_t h = lo;
    while (h < hi && c.flip()) h *= 2;
    return std::min(hi, c.range(h, 2 * h));
  };
  std::size_t ni = log_range(2, 300), nm = c.chance(2, 3) ? c.range(max_m / 2, max_m) : c.range(1, max_m), no = log_range(1, 300), layers = c.chance(1, 8) ? c.range(10, 40) : c.range(1, 4);
  c.label("hundreds of gates");
  return gen_sized(c, clients, batch, ni, nm, no, layers);
}
// more wires of one kind, or layers, than a counter of 16 (layers: 8) bits holds
inline Spec gen_huge(Case& c, std::size_t clients, std::size_t batch) {
  std::size_t ni = c.range(1, 20), nm = c.range(1, 40), no = c.range(1, 20), layers = c.range(1, 3);
  auto huge = [&] { return 65536 * (c.flip() ? std::min<std::size_t>(batch, 2) : 1) + c.range(1, 3000); };  // or that many batches
  switch (c.range(0, 4)) {
    case 0: ni = huge(), c.label("65536 inputs"); break;
    case 1: nm = huge(), layers = 1, c.label("65536 multiplications in a layer"); break;
    case 2: nm = huge(), layers = c.range(2, 30), c.label("65536 multiplications"); break;
    case 3: no = huge(), c.label("65536 outputs"); break;
    default: layers = c.range(257, 400), nm = layers * c.range(1, 3), c.label("256 layers"); break;
  }
  return gen_sized(c, clients, batch, ni, nm, no, layers);
}
inline std::vector<std::vector<u128>> gen_many_inputs(Case& c, const Spec& s) {
  std::vector<std::vector<u128>> r(s.clients);
  u64 seed = c.word();
  for (std::size_t p = 0; p < s.clients; p++)
    for (std::size_t i = 0; i < s.in[p].size(); i++) r[p].push_back(splitmix(seed) % 8 ? splitmix(seed) % P61 : splitmix(seed) % 2 ? 1 : P61 - 1);
  return r;
}

// The documented synthetic circuit
struct Config {
  std::vector<std::size_t> in, out;
  std::size_t parties = 1, width = 2, depth = 1, batch = 1;
  tp::CircuitConfig cfg() const {
    tp::CircuitConfig k;
    k.inp_gates = in;
    k.out_gates = out;
    k.n_parties = parties;
    k.width = width;
    k.depth = depth;
    k.batch_size = batch;
    return k;
  }
  Spec spec() const {
    Spec s;
    s.clients = parties;
    s.batch = batch;
    s.in.resize(parties);
    s.out.resize(parties);
    std::vector<std::size_t> ins;
    for (std::size_t p = 0; p < parties; p++)
      for (std::size_t j = 0; j < in[p]; j++) {
        s.in[p].push_back(s.nodes.size());
        ins.push_back(s.nodes.size());
        s.nodes.push_back({Spec::In, 0, 0, p, 0});
      }
    std::vector<std::size_t> prev;
    for (std::size_t d = 0; d < depth; d++) {
      if (d) s.layer_end.push_back(s.nodes.size());
      std::vector<std::size_t> cur;
      for (std::size_t i = 0; i < width / 2; i++) {
        std::size_t x = d ? prev[2 * i] : ins[(2 * i) % ins.size()], y = d ? prev[2 * i + 1] : ins[(2 * i + 1) % ins.size()];
        std::size_t add = s.nodes.size();
        s.nodes.push_back({Spec::Add, x, y, 0, d});
        cur.push_back(s.nodes.size());
        s.nodes.push_back({Spec::Mul, x, add, 0, d});
        cur.push_back(s.nodes.size());
        s.nodes.push_back({Spec::Mul, y, add, 0, d});
      }
      prev = cur;
      s.widths.push_back(width);
    }
    std::size_t ctr = 0;
    for (std::size_t p = 0; p < parties; p++)
      for (std::size_t j = 0; j < out[p]; j++) {
        s.out[p].push_back(s.nodes.size());
        s.outs.push_back(s.nodes.size());
        s.nodes.push_back({Spec::Out, prev[ctr++ % width], 0, p, 0});
      }
    return s;
  }
};
inline Config gen_config(Case& c, std::size_t parties, std::size_t batch) {
  Config k;
  k.parties = parties;
  k.batch = batch;
  k.in.assign(parties, 0);
  k.out.assign(parties, 0);
  std::size_t ni = 2 * c.range(1, 3);
  for (std::size_t i = 0; i < ni; i++) k.in[c.range(0, parties - 1)]++;
  std::size_t no = c.range(0, 5);
  for (std::size_t i = 0; i < no; i++) k.out[c.range(0, parties - 1)]++;
  k.width = ni * c.range(1, ni > 2 ? 2 : 4);
  k.depth = c.range(1, 4);
  return k;
}

// A party's circuit object together with the gate of every node
struct Built {
  tp::Circuit circuit{1, 1};
  std::vector<std::shared_ptr<tp::Gate>> gates;
  std::vector<std::shared_ptr<tp::OutputGate>> outs;
};
inline void build(Built& b, const Spec& s) {
  b.circuit = tp::Circuit(s.clients, s.batch);
  b.gates.clear();
  auto& C = b.circuit;
  bool closed = false;
  std::size_t l = 0;
  bool last = false;
  auto close_layers = [&](std::size_t i) {
    while (l < s.layer_end.size() && s.layer_end[l] <= i) {
      C.NewLayer();
      l++;
    }
  };
  for (std::size_t i = 0; i < s.nodes.size(); i++) {
    auto& d = s.nodes[i];
    if (!closed && d.kind != Spec::In) {
      C.CloseInputs();
      closed = true;
    }
    if (closed && d.kind != Spec::Out) close_layers(i);
    if (d.kind == Spec::Out && !last) {
      close_layers(i);
      C.LastLayer();
      last = true;
    }
    switch (d.kind) {
      case Spec::In: b.gates.push_back(C.Input(d.owner)); break;
      case Spec::Add: b.gates.push_back(C.Add(b.gates[d.a], b.gates[d.b])); break;
      case Spec::Mul: b.gates.push_back(C.Mult(b.gates[d.a], b.gates[d.b])); break;
      case Spec::Out: b.gates.push_back(C.Output(d.owner, b.gates[d.a])); break;
    }
  }
  if (!closed) C.CloseInputs();
  if (!last) {
    close_layers(s.nodes.size());
    C.LastLayer();
  }
  C.CloseOutputs();
}
// the same mapping for a circuit made by FromConfig (additions are reached through the multiplications)
inline void build(Built& b, const Config& k, const Spec& s) {
  b.circuit = tp::Circuit::FromConfig(k.cfg());
  b.gates.assign(s.nodes.size(), nullptr);
  std::vector<std::size_t> ci(s.clients, 0), co(s.clients, 0), cm(s.depth(), 0);
  for (std::size_t i = 0; i < s.nodes.size(); i++) {
    auto& d = s.nodes[i];
    if (d.kind == Spec::In) b.gates[i] = b.circuit.GetInputGate(d.owner, ci[d.owner]++);
    if (d.kind == Spec::Mul) {
      b.gates[i] = b.circuit.GetMultGate(d.layer, cm[d.layer]++);
      if (!b.gates[d.b]) b.gates[d.b] = b.gates[i]->GetRight();
    }
    if (d.kind == Spec::Out) b.gates[i] = b.circuit.GetOutputGate(d.owner, co[d.owner]++);
  }
}

inline std::vector<std::vector<u128>> gen_inputs(Case& c, const Spec& s) {
  std::vector<std::vector<u128>> r(s.clients);
  for (std::size_t p = 0; p < s.clients; p++)
    for (std::size_t i = 0; i < s.in[p].size(); i++) r[p].push_back(gen_elem<FF>(c));
  return r;
}
inline std::string show_inputs(const std::vector<std::vector<u128>>& in) {
  std::string s;
  for (auto& v : in) s += show(v);
  return s;
}

// ---------------------------------------------------------------- TurboPack
struct Params {
  std::size_t n, t, k;
};
inline Params gen_params(Case& c, std::size_t max_k = 4, std::size_t min_k = 1) {
  std::size_t k = c.range(min_k, max_k);
  std::size_t t = c.range(0, 2 * k - 2);
  if (c.chance(1, 3)) t = 2 * k - 2;
  return {t + 2 * (k - 1) + 1, t, k};
}

enum class Prep { Real, RealMixed, DummyCorr, DummyCorrZero, DummyDirect, DummyZero, DummyLambdas };
inline const char* name(Prep p) {
  switch (p) {
    case Prep::Real: return "real preprocessing";
    case Prep::RealMixed: return "real preprocessing with random dealings";
    case Prep::DummyCorr: return "dummy correlator";
    case Prep::DummyCorrZero: return "zero dummy correlator";
    case Prep::DummyDirect: return "dummy batches";
    case Prep::DummyZero: return "zero dummy batches";
    case Prep::DummyLambdas: return "dummy masks";
  }
  return "";
}
inline bool uses_correlator(Prep p) { return p == Prep::Real || p == Prep::RealMixed || p == Prep::DummyCorr || p == Prep::DummyCorrZero; }

// Replaces dealt sharings waiting in the network by others of the same kind, chosen by the harness.
class Mixer {
 public:
  Mixer(SimNet& n, u64 seed) : net_(n), rng_(seed) {}
  std::vector<std::vector<std::size_t>> mark() {
    std::vector<std::vector<std::size_t>> m(net_.n(), std::vector<std::size_t>(net_.n()));
    for (std::size_t i = 0; i < net_.n(); i++)
      for (std::size_t j = 0; j < net_.n(); j++) m[i][j] = net_.queue(i, j).size();
    return m;
  }
  u128 elem() { return rng_.next128() % P61; }
  // slots: x positions that must all receive the same value (secret or zero)
  std::vector<u128> sharing(const std::vector<u128>& slots, u128 secret, std::size_t deg) {
    auto A = fa();
    std::vector<u128> xs = slots, ys(slots.size(), secret);
    for (std::size_t i = 0; xs.size() < deg + 1; i++) {
      xs.push_back(1000 + i);
      ys.push_back(elem());
    }
    std::vector<u128> r;
    for (std::size_t p = 0; p < net_.n(); p++) r.push_back(lagrange(xs, ys, p + 1, A));
    return r;
  }
  // the same, with given shares for some parties
  std::vector<u128> sharing(const std::vector<u128>& slots, u128 secret, std::size_t deg, const std::vector<std::size_t>& who, const std::vector<u128>& theirs) {
    auto A = fa();
    std::vector<u128> xs = slots, ys(slots.size(), secret);
    for (std::size_t i = 0; i < who.size(); i++) {
      xs.push_back(who[i] + 1);
      ys.push_back(theirs[i]);
    }
    for (std::size_t i = 0; xs.size() < deg + 1; i++) {
      xs.push_back(1000 + i);
      ys.push_back(elem());
    }
    std::vector<u128> r;
    for (std::size_t p = 0; p < net_.n(); p++) r.push_back(lagrange(xs, ys, p + 1, A));
    return r;
  }
  void put(std::size_t from, std::size_t to, std::size_t idx, u128 v) {
    u64 w = (u64)v;
    std::memcpy(net_.queue(from, to)[idx].data(), &w, 8);
  }
  // number of messages every ordered pair got since `m`, 0 unless the same for all and 8 bytes each
  std::size_t count(const std::vector<std::vector<std::size_t>>& m) {
    std::size_t c = net_.queue(0, 0).size() - m[0][0];
    for (std::size_t i = 0; i < net_.n(); i++)
      for (std::size_t j = 0; j < net_.n(); j++) {
        auto& q = net_.queue(i, j);
        if (q.size() != m[i][j] + c) return 0;
        for (std::size_t k = m[i][j]; k < q.size(); k++)
          if (q[k].size() != 8) return 0;
      }
    return c;
  }
  // message number k of each dealer is a sharing with slots(k), degree deg(k) and a random secret iff rs
  void mix(const std::vector<std::vector<std::size_t>>& m, std::size_t count, const std::function<std::vector<u128>(std::size_t)>& slots, std::size_t deg, bool rs) {
    mixed += count;
    for (std::size_t d = 0; d < net_.n(); d++)
      for (std::size_t k = 0; k < count; k++) {
        auto sh = sharing(slots(k), rs ? elem() : 0, deg);
        for (std::size_t p = 0; p < net_.n(); p++) put(d, p, m[d][p] + k, sh[p]);
      }
  }
  std::size_t mixed = 0;

 private:
  SimNet& net_;
  Rng rng_;
};

struct TurboRun {
  Spec spec;
  Params par;
  SimNet net;
  std::vector<Built> p;
  TurboRun(const Spec& s, const Params& q, const Config* cfg = nullptr) : spec(s), par(q), net(q.n), p(q.n) {
    for (std::size_t i = 0; i < q.n; i++) {
      if (cfg) build(p[i], *cfg, s);
      else build(p[i], s);
    }
  }
  template <typename F>
  void each(F f) {
    for (std::size_t i = 0; i < par.n; i++) f(p[order.empty() ? i : order[i]].circuit);
  }
  std::vector<std::size_t> order;  // order in which the parties take each step
  std::function<void(SimNet&)> dealt;  // called when all dealings are on their way
  std::map<std::string, TrafficMap> phases;
  void end_phase(const std::string& nm) {
    auto t = net.take();
    for (auto& kv : t) {
      auto& x = phases[nm][kv.first];
      x.msgs += kv.second.msgs;
      x.bytes += kv.second.bytes;
    }
  }
  std::vector<u128> slots_all() const {
    std::vector<u128> s;
    for (std::size_t i = 0; i < par.k; i++) s.push_back(fa().neg(i));
    return s;
  }
  void connect() {
    for (std::size_t i = 0; i < par.n; i++) p[i].circuit.SetNetwork(net.of(i), i);
  }
  void correlator() {
    each([](tp::Circuit& C) { C.GenCorrelator(); });
    each([this](tp::Circuit& C) { C.SetThreshold(par.t); });
  }
  // input-independent preprocessing; mixing seed 0: dealings as they are
  std::size_t fi(u64 mix_seed) {
    Mixer mx(net, mix_seed);
    auto one = [&](std::size_t slot) { return std::vector<u128>{fa().neg(slot)}; };
    auto m = mx.mark();
    std::size_t b;
    each([](tp::Circuit& C) { C.GenIndShrsPartiesSend(); });
    if (mix_seed && (b = mx.count(m))) mx.mix(m, b, [&](std::size_t) { return slots_all(); }, par.n - par.k, true);
    m = mx.mark();
    each([](tp::Circuit& C) { C.GenUnpackedShrPartiesSend(); });
    if (mix_seed && (b = mx.count(m)) && b % par.k == 0) mx.mix(m, b, [&](std::size_t i) { return one(i / (b / par.k)); }, par.t, true);
    m = mx.mark();
    each([](tp::Circuit& C) { C.GenZeroPartiesSend(); });
    if (mix_seed && (b = mx.count(m))) mx.mix(m, b, [&](std::size_t) { return slots_all(); }, par.n - 1, false);
    m = mx.mark();
    each([](tp::Circuit& C) { C.GenZeroForProdPartiesSend(); });
    if (mix_seed && (b = mx.count(m)) && b % par.k == 0) mx.mix(m, b, [&](std::size_t i) { return one(i / (b / par.k)); }, par.n - 1, false);
    end_phase("fi send");
    if (dealt) dealt(net);
    each([](tp::Circuit& C) { C.FIPrepRecv(); });
    each([](tp::Circuit& C) { C.GenProdPartiesSendP1(); });
    end_phase("fi product send");
    each([](tp::Circuit& C) { C.GenProdP1ReceivesAndSends(); });
    end_phase("fi product return");
    each([](tp::Circuit& C) { C.GenProdPartiesReceive(); });
    return mx.mixed;
  }
  void fd() {
    each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
    each([](tp::Circuit& C) { C.PrepMultPartiesSendP1(); });
    end_phase("fd mult send");
    each([](tp::Circuit& C) { C.PrepMultP1ReceivesAndSends(); });
    end_phase("fd mult return");
    each([](tp::Circuit& C) { C.PrepMultPartiesReceive(); });
    each([](tp::Circuit& C) { C.PrepIOPartiesSendOwner(); });
    end_phase("fd io");
    each([](tp::Circuit& C) { C.PrepIOOwnerReceives(); });
  }
  std::size_t prepare(Prep how, u128 lambda, u64 mix_seed) {
    FF l = ff(lambda);
    std::size_t mixed = 0;
    switch (how) {
      case Prep::Real:
        correlator();
        fi(0);
        fd();
        break;
      case Prep::RealMixed:
        correlator();
        mixed = fi(mix_seed | 1);
        fd();
        break;
      case Prep::DummyCorr:
      case Prep::DummyCorrZero:
        correlator();
        each([&](tp::Circuit& C) {
          if (how == Prep::DummyCorr) C.PopulateDummyCorrelator(l);
          else C.PopulateDummyCorrelator();
        });
        fd();
        break;
      case Prep::DummyDirect: each([&](tp::Circuit& C) { C._DummyPrep(l); }); break;
      case Prep::DummyZero: each([&](tp::Circuit& C) { C._DummyPrep(); }); break;
      case Prep::DummyLambdas:
        each([&](tp::Circuit& C) {
          C.SetDummyLambdas(l);
          C.PopulateDummyLambdas();
          C.PrepFromDummyLambdas();
        });
        break;
    }
    end_phase("other preprocessing");
    return mixed;
  }
  void online(const std::vector<std::vector<u128>>& inputs) {
    for (std::size_t i = 0; i < par.n; i++) p[i].circuit.SetInputs(ffs(inputs[i]));
    each([](tp::Circuit& C) { C.InputOwnerSendsP1(); });
    end_phase("input");
    each([](tp::Circuit& C) { C.InputP1Receives(); });
    for (std::size_t l = 0; l < spec.depth(); l++) {
      each([l](tp::Circuit& C) { C.MultP1Sends(l); });
      end_phase("mult down " + std::to_string(l));
      each([l](tp::Circuit& C) { C.MultPartiesReceive(l); });
      each([l](tp::Circuit& C) { C.MultPartiesSend(l); });
      end_phase("mult up " + std::to_string(l));
      each([l](tp::Circuit& C) { C.MultP1Receives(l); });
    }
    each([](tp::Circuit& C) { C.OutputP1SendsMu(); });
    end_phase("output");
    each([](tp::Circuit& C) { C.OutputOwnerReceivesMu(); });
    end_phase("after output");
  }
  std::vector<std::vector<u128>> outputs() {
    std::vector<std::vector<u128>> r;
    for (std::size_t i = 0; i < par.n; i++) r.push_back(vals(p[i].circuit.GetOutputs()));
    return r;
  }
};

inline void compare_outputs(const Spec& s, const std::vector<std::vector<u128>>& got, const std::vector<std::vector<u128>>& want) {
  for (std::size_t i = 0; i < s.clients; i++) {
    VP_CHECK(got[i].size() == want[i].size(), "party ", i, " obtained ", got[i].size(), " outputs instead of ", want[i].size());
    for (std::size_t j = 0; j < want[i].size(); j++)
      VP_CHECK(got[i][j] == want[i][j], "output ", j, " of party ", i, " is ", str(got[i][j]), " instead of ", str(want[i][j]));
  }
}

// ---------------------------------------------------------------- DN07
struct DnRun {
  Spec spec;
  std::size_t n, t;
  SimNet net;
  std::vector<Built> p;
  std::vector<std::unique_ptr<tp::DN07>> dn;
  std::vector<std::size_t> order;
  std::function<void(SimNet&)> dealt;  // called when all dealings are on their way
  std::map<std::string, TrafficMap> phases;
  DnRun(const Spec& s, std::size_t n_, std::size_t t_, const Config* cfg = nullptr) : spec(s), n(n_), t(t_), net(n_), p(n_) {
    for (std::size_t i = 0; i < n; i++) {
      if (cfg) build(p[i], *cfg, s);
      else build(p[i], s);
      p[i].circuit.SetNetwork(net.of(i), i);
      dn.push_back(std::make_unique<tp::DN07>(n, t));
      dn[i]->SetCircuit(p[i].circuit);
    }
  }
  template <typename F>
  void each(F f) {
    for (std::size_t i = 0; i < n; i++) f(*dn[order.empty() ? i : order[i]]);
  }
  void end_phase(const std::string& nm) {
    auto tr = net.take();
    for (auto& kv : tr) {
      auto& x = phases[nm][kv.first];
      x.msgs += kv.second.msgs;
      x.bytes += kv.second.bytes;
    }
  }
  // dummy: preprocessing set to the constant lambda (zero when null)
  std::size_t prepare(bool real, u64 mix_seed, const u128* lambda) {
    std::size_t mixed = 0;
    if (real) {
      Mixer mx(net, mix_seed);
      auto m = mx.mark();
      each([](tp::DN07& d) { d.PrepPartiesSend(); });
      if (mix_seed) {
        auto blocks = [&](std::size_t a) { return (a + t) / (t + 1); };
        std::size_t bi = blocks(spec.n_inputs()), bm = blocks(spec.size());
        if (mx.count(m) == bi + 2 * bm) {
          mixed = bi + 2 * bm;
          for (std::size_t d = 0; d < n; d++) {
            for (std::size_t k = 0; k < bi; k++) {
              auto sh = mx.sharing({0}, mx.elem(), t);
              for (std::size_t q = 0; q < n; q++) mx.put(d, q, m[d][q] + k, sh[q]);
            }
            for (std::size_t k = 0; k < bm; k++) {
              u128 sec = mx.elem();
              auto a = mx.sharing({0}, sec, t), b = mx.sharing({0}, sec, 2 * t);
              for (std::size_t q = 0; q < n; q++) {
                mx.put(d, q, m[d][q] + bi + 2 * k, a[q]);
                mx.put(d, q, m[d][q] + bi + 2 * k + 1, b[q]);
              }
            }
          }
        }
      }
      end_phase("prep");
      if (dealt) dealt(net);
      each([](tp::DN07& d) { d.PrepPartiesReceive(); });
    } else {
      each([&](tp::DN07& d) {
        if (lambda) d.DummyPrep(ff(*lambda));
        else d.DummyPrep();
      });
    }
    each([](tp::DN07& d) { d.FDMapPrepToGates(); });
    each([](tp::DN07& d) { d.FDMultPartiesSendP1(); });
    end_phase("fd mult");
    each([](tp::DN07& d) { d.FDMultP1Receives(); });
    return mixed;
  }
  void online(const std::vector<std::vector<u128>>& inputs, bool split = true) {
    for (std::size_t i = 0; i < n; i++) dn[i]->SetInputs(ffs(inputs[i]));
    each([](tp::DN07& d) { d.InputPartiesSendOwners(); });
    end_phase("input masks");
    each([](tp::DN07& d) { d.InputOwnersReceiveAndSendParties(); });
    end_phase("input shares");
    each([](tp::DN07& d) { d.InputPartiesReceive(); });
    for (std::size_t l = 0; l < spec.depth(); l++) {
      each([l](tp::DN07& d) { d.MultPartiesSendP1(l); });
      end_phase("mult up " + std::to_string(l));
      each([l, split](tp::DN07& d) {
        if (split) d.MultP1Receives(l);
        else d.MultP1ReceivesAndSendsParties(l);
      });
      if (split) each([l](tp::DN07& d) { d.MultP1SendsParties(l); });
      end_phase("mult down " + std::to_string(l));
      each([l](tp::DN07& d) { d.MultPartiesReceive(l); });
    }
    each([](tp::DN07& d) { d.OutputPartiesSendOwners(); });
    end_phase("output");
    each([](tp::DN07& d) { d.OutputOwnersReceive(); });
    end_phase("after output");
  }
  std::vector<std::vector<u128>> outputs() {
    std::vector<std::vector<u128>> r(n);
    for (std::size_t i = 0; i < n; i++)
      for (std::size_t j = 0; j < spec.out[i].size(); j++) r[i].push_back(val(dn[i]->GetOutput(i, j)));
    return r;
  }
};
}  // namespace vp
#endif
