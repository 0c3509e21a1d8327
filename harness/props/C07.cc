// C07: inadmissible parameters and misuse are rejected and change nothing.
// vp: case_timeout=60
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "parameter tuples (n,t,k) around the admissible ones and extreme; synthetic configurations mutated in every documented way; rejected calls (wiring, preprocessing, thresholds, input counts, reads) inserted "
    "at random points of otherwise valid runs of both protocols and of clear evaluations, after which the run must give the modelled outputs; batches and gates alone. Oracle: an acceptance model, "
    "then the clear-evaluation model. Non-trivial: at least one call that must be rejected.";

static std::size_t odd_size(Case& c, std::size_t near) {
  switch (c.weighted({4, 2, 1, 1})) {
    case 0: return near + c.range(0, 4) - (near >= 2 ? 2 : 0);
    case 1: return c.range(0, 12);
    case 2: return std::size_t(1) << c.range(31, 63);
    default: return ~std::size_t(0) - c.range(0, 3);
  }
}
// ------------------------------------------------------------------ parameters
VP_ARM(threshold, 4000, 60000, 60, 1) {
  std::size_t n = c.range(1, 12), k = c.range(1, 6);
  Spec s = gen_spec(c, n, k, 1, 2);
  SimNet net(n);
  Built b;
  build(b, s);
  std::size_t id = c.range(0, n - 1);
  b.circuit.SetNetwork(net.of(id), id);
  b.circuit.GenCorrelator();
  std::size_t tries = c.range(1, 4);
  for (std::size_t i = 0; i < tries; i++) {
    std::size_t want = n + 1 >= 2 * k ? n + 1 - 2 * k : 0, t = odd_size(c, want);
    bool ok = (u128)n == (u128)t + 2 * (k - 1) + 1 && (u128)n > 2 * (u128)t;
    c.note("n=", n, " k=", k, " threshold ", t, ok ? " admissible" : " inadmissible");
    c.interesting(!ok);
    bool rejected = throws([&] { b.circuit.SetThreshold(t); });
    VP_CHECK(rejected == !ok, "n=", n, " k=", k, ": threshold ", t, rejected ? " rejected" : " accepted");
    if (ok) break;
  }
}
VP_ARM(dn_threshold, 4000, 60000, 12, 1) {
  std::size_t n = c.range(0, 12);
  std::size_t t = odd_size(c, n / 2);
  bool ok = (u128)n > 2 * (u128)t;
  c.note("DN07 n=", n, " t=", t, ok ? " admissible" : " inadmissible");
  c.interesting(!ok);
  bool rejected = throws([&] { tp::DN07 d(n, t); });
  VP_CHECK(rejected == !ok, "DN07 with n=", n, " t=", t, rejected ? " rejected" : " accepted");
}
VP_ARM(config, 4000, 60000, 80, 1) {
  Config k = gen_config(c, c.range(1, 5), c.range(1, 4));
  tp::CircuitConfig g = k.cfg();
  std::size_t muts = c.range(0, 2);
  for (std::size_t i = 0; i < muts; i++) switch (c.range(0, 9)) {
      case 0: g.inp_gates.push_back(c.range(0, 2)); break;
      case 1: g.out_gates.push_back(c.range(0, 2)); break;
      case 2: if (!g.inp_gates.empty()) g.inp_gates.pop_back(); break;
      case 3: if (!g.out_gates.empty()) g.out_gates.pop_back(); break;
      case 4: g.n_parties = c.range(0, 6); break;
      case 5: if (!g.inp_gates.empty()) g.inp_gates[c.range(0, g.inp_gates.size() - 1)] += c.range(1, 3); break;
      case 6: g.inp_gates.assign(g.inp_gates.size(), 0); break;
      case 7: g.width = c.range(0, 9); break;
      case 8: g.depth = c.range(0, 2); break;
      case 9: g.batch_size = c.range(0, 2); break;
    }
  u64 ni = g.ComputeNumberOfInputs(), no = g.ComputeNumberOfOutputs();
  bool ok = g.n_parties == g.inp_gates.size() && g.n_parties == g.out_gates.size() && ni > 0 && ni % 2 == 0 && g.width > 0 && g.width % ni == 0 && g.depth > 0 && g.batch_size > 0;
  std::string d = "parties " + std::to_string(g.n_parties) + " width " + std::to_string(g.width) + " depth " + std::to_string(g.depth) + " batch " + std::to_string(g.batch_size) + " inputs";
  for (auto x : g.inp_gates) d += " " + std::to_string(x);
  d += " outputs";
  for (auto x : g.out_gates) d += " " + std::to_string(x);
  c.note(d);
  c.label(ok ? "valid configuration" : "malformed configuration");
  c.interesting(!ok);
  std::unique_ptr<tp::Circuit> C;
  bool rejected = throws([&] { C = std::make_unique<tp::Circuit>(tp::Circuit::FromConfig(g)); });
  VP_CHECK(rejected == !ok, "configuration ", d, rejected ? " rejected" : " accepted");
  if (!ok) return;
  VP_CHECK(C->GetNInputs() == ni && C->GetNOutputs() == no, "inputs and outputs of ", d, ": ", C->GetNInputs(), " and ", C->GetNOutputs());
  VP_CHECK(C->GetDepth() == g.depth && C->GetWidth() == g.width && C->GetSize() == g.depth * g.width, "depth, width and size of ", d, ": ", C->GetDepth(), ", ", C->GetWidth(), ", ", C->GetSize());
}

// ------------------------------------------------------------------ batches and gates alone
template <typename Batch, typename Gate, typename PadGate>
static void io_batch(Case& c) {
  std::size_t k = c.range(1, 5), owner = c.range(0, 4), n = 2 * k - 1 + c.range(0, 3);
  Batch b(owner, k);
  std::vector<std::shared_ptr<Gate>> in;
  std::size_t ops = c.range(1, 2 * k + 4);
  SimNet net(std::max<std::size_t>(n, 5));
  c.note("batch of size ", k, " owned by ", owner, ", ", ops, " calls");
  for (std::size_t i = 0; i < ops; i++) {
    if (c.chance(1, 4)) {
      bool ok = in.size() == k;
      // the batch is wired before constant material is put in
      for (auto& g : in) g->SetNetwork(net.of(owner), owner);
      u128 l = gen_elem<FF>(c);
      bool rejected = throws([&] { b._DummyPrep(ff(l)); });
      c.interesting(!ok);
      VP_CHECK(rejected == !ok, "constant preprocessing of a batch with ", in.size(), " of ", k, " gates ", rejected ? "rejected" : "accepted");
      if (ok) VP_CHECK(val(b.GetPackedShrLambda()) == l, "packed mask ", str(val(b.GetPackedShrLambda())));
    }
    bool mine = !c.chance(1, 4);
    std::size_t o = mine ? owner : owner + 1 + c.range(0, 3);
    std::shared_ptr<Gate> g = c.chance(1, 5) ? std::make_shared<PadGate>(o) : std::make_shared<Gate>(o);
    bool ok = mine && in.size() < k;
    VP_CHECK(b.HasRoom() == (in.size() < k), "HasRoom with ", in.size(), " of ", k);
    bool rejected = throws([&] { b.Append(g); });
    c.interesting(!ok);
    VP_CHECK(rejected == !ok, "gate of party ", o, " appended to a batch of party ", owner, " with ", in.size(), " of ", k, " gates: ", rejected ? "rejected" : "accepted");
    if (ok) in.push_back(g);
    for (std::size_t j = 0; j < in.size(); j++) VP_CHECK((std::shared_ptr<Gate>(b.GetTheGate(j)) == in[j]), "gate ", j, " of the batch changed");
  }
}
struct InB : tp::InputBatch {
  using tp::InputBatch::InputBatch;
  std::shared_ptr<tp::InputGate> GetTheGate(std::size_t j) { return GetInputGate(j); }
};
struct OutB : tp::OutputBatch {
  using tp::OutputBatch::OutputBatch;
  std::shared_ptr<tp::OutputGate> GetTheGate(std::size_t j) { return GetOutputGate(j); }
};
VP_ARM(batches, 6000, 60000, 60, 1) {
  switch (c.range(0, 2)) {
    case 0: io_batch<InB, tp::InputGate, tp::PadInputGate>(c); break;
    case 1: io_batch<OutB, tp::OutputGate, tp::PadOutputGate>(c); break;
    default: {
      std::size_t k = c.range(1, 5), ops = c.range(1, k + 4);
      tp::MultBatch b(k);
      std::vector<std::shared_ptr<tp::MultGate>> in;
      c.note("multiplication batch of size ", k, ", ", ops, " calls");
      for (std::size_t i = 0; i < ops; i++) {
        if (c.chance(1, 4)) {
          bool ok = in.size() == k, rejected = throws([&] { b._DummyPrep(ff(3), ff(4), ff(5)); });
          c.interesting(!ok);
          VP_CHECK(rejected == !ok, "constant preprocessing of a batch with ", in.size(), " of ", k, " gates ", rejected ? "rejected" : "accepted");
        }
        auto x = std::make_shared<tp::InputGate>(0);
        auto g = std::make_shared<tp::MultGate>(x, x);
        bool ok = in.size() < k, rejected = throws([&] { b.Append(g); });
        c.interesting(!ok);
        VP_CHECK(b.HasRoom() == (in.size() + ok < k), "HasRoom");
        VP_CHECK(rejected == !ok, "gate appended to a batch with ", in.size(), " of ", k, " gates: ", rejected ? "rejected" : "accepted");
        if (ok) in.push_back(g);
        for (std::size_t j = 0; j < in.size(); j++) VP_CHECK(b.GetMultGate(j) == in[j], "gate ", j, " of the batch changed");
      }
    }
  }
}
// A circuit of loose gates: what is readable depends on what was set, through additions and outputs
VP_ARM(reads, 6000, 80000, 160, 1) {
  auto A = fa();
  Spec s = gen_spec(c, c.range(1, 3), c.range(1, 3), 3, 4);
  Built b;
  build(b, s);
  std::size_t N = s.nodes.size();
  enum { Clear, Mu, Lambda, Shr, Dn, Kinds };
  static const char* nm[] = {"clear value", "masked value", "mask", "share of the mask", "share"};
  std::vector<std::vector<i128>> v(Kinds, std::vector<i128>(N, -1));  // -1: not available
  auto derive = [&](int q) {
    for (std::size_t i = 0; i < N; i++) {
      auto& d = s.nodes[i];
      i128 x = d.kind == Spec::In ? 0 : v[q][d.a], y = d.kind == Spec::Add || d.kind == Spec::Mul ? v[q][d.b] : 0;
      if (d.kind == Spec::Out) v[q][i] = x;
      if (d.kind == Spec::Add) v[q][i] = x < 0 || y < 0 ? -1 : (i128)A.add(x, y);
      if (d.kind == Spec::Mul && q == Clear) v[q][i] = x < 0 || y < 0 ? -1 : (i128)A.mul(x, y);
    }
  };
  c.note(s.show());
  std::size_t ops = c.range(4, 40);
  for (std::size_t o = 0; o < ops; o++) {
    std::size_t i = c.range(0, N - 1);
    int q = c.range(0, Kinds - 1);
    auto& d = s.nodes[i];
    bool settable = d.kind == Spec::In || (d.kind == Spec::Mul && q != Clear);
    if (settable && v[q][i] < 0 && c.chance(2, 3)) {  // values are provided once
      u128 x = gen_elem<FF>(c);
      v[q][i] = x;
      auto in = std::dynamic_pointer_cast<tp::InputGate>(b.gates[i]);
      auto mu = std::dynamic_pointer_cast<tp::MultGate>(b.gates[i]);
      if (q == Clear) in->ClearInput(ff(x));
      if (q == Mu) b.gates[i]->_SetDummyMu(ff(x));
      if (q == Lambda) in ? in->SetLambda(ff(x)) : mu->SetDummyLambda(ff(x));
      if (q == Shr) in ? in->SetIndvShrLambda(ff(x)) : mu->SetIndvShrLambda(ff(x));
      if (q == Dn) b.gates[i]->SetDn07Share(ff(x));
      derive(q);
      continue;
    }
    derive(q);
    FF got;
    bool rejected = throws([&] {
      auto& g = b.gates[i];
      got = q == Clear ? g->GetClear() : q == Mu ? g->GetMu() : q == Lambda ? g->GetDummyLambda() : q == Shr ? g->GetIndvShrLambda() : g->GetDn07Share();
    });
    bool ok = v[q][i] >= 0;
    c.interesting(!ok);
    VP_CHECK(rejected == !ok, "reading the ", nm[q], " of w", i, ok ? " was rejected" : ", which is not available yet, was accepted");
    if (ok) VP_CHECK(val(got) == (u128)v[q][i], nm[q], " of w", i, " is ", str(val(got)), " instead of ", str(v[q][i]));
  }
}

// ------------------------------------------------------------------ misuse inside valid runs
static void wrong_counts(Case& c, const std::vector<u128>& right, std::vector<FF>& w) {
  std::size_t n = right.size(), m = c.flip() ? n + 1 + c.range(0, 2) : n ? c.range(0, n - 1) : 1;
  w.clear();
  for (std::size_t i = 0; i < m; i++) w.push_back(ff(gen_elem<FF>(c)));
}
VP_ARM(clear_history, 3000, 40000, 200, 1) {
  std::size_t clients = c.range(1, 4);
  Spec s = gen_spec(c, clients, c.range(1, 4), 3, 4);
  auto in = gen_inputs(c, s);
  Built b;
  build(b, s);
  bool set = false;
  std::size_t ops = c.range(1, 4);
  c.note(s.show(), " inputs ", show_inputs(in));
  for (std::size_t o = 0; o < ops; o++) {
    std::vector<std::vector<FF>> w;
    for (auto& v : gen_inputs(c, s)) w.push_back(ffs(v));
    switch (c.range(0, 3)) {
      case 0: w.emplace_back(); break;
      case 1: w.pop_back(); break;
      case 2: {
        std::size_t p = c.range(0, clients - 1);
        wrong_counts(c, in[p], w[p]);
        break;
      }
      default:
        if (set) continue;
        for (std::size_t p = 0; p < clients; p++) w[p] = ffs(in[p]);
        b.circuit.SetClearInputs(w);
        set = true;
        continue;
    }
    c.interesting();
    VP_CHECK(throws([&] { b.circuit.SetClearInputs(w); }), "wrong numbers of clear inputs accepted");
    if (!set)
      for (auto g : b.gates)
        if (std::dynamic_pointer_cast<tp::InputGate>(g)) VP_CHECK(throws([&] { g->GetClear(); }), "a rejected call provided an input");
  }
  std::vector<std::vector<FF>> w;
  for (std::size_t p = 0; p < clients; p++) w.push_back(ffs(in[p]));
  if (!set) b.circuit.SetClearInputs(w);
  std::vector<std::vector<u128>> got;
  for (auto& x : b.circuit.GetClearOutputs()) got.push_back(vals(x));
  compare_outputs(s, got, s.outputs(s.eval(in)));
}
static void history(Case& c, bool real) {
  Params q = gen_params(c, 3);
  Spec s = gen_spec(c, q.n, q.k, 3, 4);
  auto in = gen_inputs(c, s);
  c.note("n=", q.n, " t=", q.t, " k=", q.k, real ? " real" : " dummy", " circuit ", s.show(), " inputs ", show_inputs(in));
  std::size_t bad = 0;
  TurboRun r(s, q);
  auto reject = [&](const std::string& what, const std::function<void()>& f) {
    bad++;
    c.interesting();
    c.label(what);
    auto before = r.net.leftovers();
    VP_CHECK(throws(f), what, " was accepted");
    VP_CHECK(r.net.leftovers() == before, what, " was rejected but sent or consumed messages");
  };
  auto who = [&]() -> Built& { return r.p[c.range(0, q.n - 1)]; };
  // circuits that are not closed
  {
    std::size_t closed = c.range(0, 3);
    tp::Circuit C(q.n, q.k);
    auto stranger = [&] { return c.flip() ? q.n : c.flip() ? (std::size_t)-1 : q.n + c.range(1, 1000); };
    std::size_t ins = 1, outs = 1;
    auto unknown = [&](std::shared_ptr<tp::Gate> g) {
      std::size_t o = stranger();
      if (!g) reject("an input of an unknown client", [&] { C.Input(o); });
      else reject("an output of an unknown client", [&] { C.Output(o, g); });
    };
    if (c.chance(1, 3)) unknown(nullptr);
    auto x = C.Input(0);
    if (c.chance(1, 3)) unknown(nullptr);
    if (closed > 0) C.CloseInputs();
    auto y = C.Mult(x, x);
    if (closed > 1) C.LastLayer();
    if (c.chance(1, 3)) unknown(y);
    C.Output(0, y);
    if (c.chance(1, 3)) unknown(y);
    VP_CHECK(C.GetNInputs() == ins && C.GetNOutputs() == outs, "rejected wires of unknown clients are counted: ", C.GetNInputs(), " inputs, ", C.GetNOutputs(), " outputs");
    {
      FF v = ff(c.range(0, 1000));
      std::vector<std::vector<FF>> w(q.n);
      w[0].push_back(v);
      C.SetClearInputs(w);
      auto got = C.GetClearOutputs();
      VP_CHECK(got.size() == q.n && got[0].size() == 1 && got[0][0] == v * v, "a circuit that rejected wires of unknown clients computes something else");
    }
    if (c.flip()) reject("wiring an open circuit", [&] { C.SetNetwork(r.net.of(0), 0); });
    if (c.flip()) reject("correlations of an open circuit", [&] { C.GenCorrelator(); });
    if (closed < 1) C.CloseInputs();
    if (closed < 2) C.LastLayer();
    C.CloseOutputs();
    if (c.flip()) reject("correlations before wiring", [&] { C.GenCorrelator(); });
    C.SetNetwork(r.net.of(0), 0);
    C.GenCorrelator();
    C.SetThreshold(q.t);
  }
  if (c.flip()) reject("correlations before wiring", [&] { who().circuit.GenCorrelator(); });
  r.connect();
  auto meddle = [&](int learned) {  // learned: -1 before the inputs, l after layer l-1
    std::size_t m = c.chance(1, 2) ? c.range(1, 3) : 0;
    for (std::size_t i = 0; i < m; i++) {
      std::size_t p = c.range(0, q.n - 1);
      switch (c.range(0, 2)) {
        case 0: {
          std::vector<FF> w;
          wrong_counts(c, in[p], w);
          reject("wrong number of inputs", [&] { r.p[p].circuit.SetInputs(w); });
          break;
        }
        case 1: {
          std::size_t g = c.range(0, s.nodes.size() - 1);
          // available to P1 iff every wire it depends on linearly is learned
          std::vector<bool> avail;
          for (auto& d : s.nodes)
            avail.push_back(d.kind == Spec::In ? p == 0 && learned >= 0 : d.kind == Spec::Mul ? p == 0 && (int)d.layer < learned : avail[d.a] && (d.kind == Spec::Out || avail[d.b]));
          if (!avail[g]) reject("reading a masked value too early", [&] { r.p[p].gates[g]->GetMu(); });
          else r.p[p].gates[g]->GetMu();
          break;
        }
        default: {
          std::size_t g = c.range(0, s.nodes.size() - 1);
          // nobody provided clear inputs
          reject("reading a clear value without inputs", [&] { r.p[p].gates[g]->GetClear(); });
        }
      }
    }
  };
  meddle(-1);
  if (real) {
    r.each([](tp::Circuit& C) { C.GenCorrelator(); });
    for (std::size_t i = 0; i < q.n; i++) {
      if (c.flip()) {
        std::size_t t = odd_size(c, q.t);
        if (t == q.t) t++;
        reject("wrong threshold", [&] { r.p[i].circuit.SetThreshold(t); });
      }
      r.p[i].circuit.SetThreshold(q.t);
    }
    if (c.flip()) {  // the threshold in use is still the valid one
      std::size_t t = c.flip() ? odd_size(c, q.t) : c.range(0, q.t + 3);
      if (t == q.t) t++;
      for (std::size_t i = 0; i < q.n; i++)
        if (!c.chance(1, 6)) reject("wrong threshold", [&] { r.p[i].circuit.SetThreshold(t); });
    }
    meddle(-1);
    r.fi(0);
    meddle(-1);
    r.fd();
    r.end_phase("rest");
    TurboRun twin(s, q);
    twin.connect();
    twin.correlator();
    twin.fi(0);
    twin.fd();
    twin.end_phase("rest");
    for (auto& ph : twin.phases)
      for (auto& kv : ph.second) {
        auto& x = r.phases[ph.first][kv.first];
        VP_CHECK(x.bytes == kv.second.bytes && x.msgs == kv.second.msgs, "after rejected calls preprocessing sent ", x.bytes, " bytes from ", kv.first.first, " to ", kv.first.second, " in phase '", ph.first, "' instead of ", kv.second.bytes);
      }
  } else
    r.prepare(Prep::DummyLambdas, 77, 0);
  for (std::size_t i = 0; i < q.n; i++) r.p[i].circuit.SetInputs(ffs(in[i]));
  meddle(-1);
  r.each([](tp::Circuit& C) { C.InputOwnerSendsP1(); });
  meddle(-1);
  r.each([](tp::Circuit& C) { C.InputP1Receives(); });
  for (std::size_t l = 0; l < s.depth(); l++) {
    meddle((int)l);
    r.each([l](tp::Circuit& C) { C.MultP1Sends(l); });
    r.each([l](tp::Circuit& C) { C.MultPartiesReceive(l); });
    meddle((int)l);
    r.each([l](tp::Circuit& C) { C.MultPartiesSend(l); });
    r.each([l](tp::Circuit& C) { C.MultP1Receives(l); });
  }
  meddle((int)s.depth());
  r.each([](tp::Circuit& C) { C.OutputP1SendsMu(); });
  r.each([](tp::Circuit& C) { C.OutputOwnerReceivesMu(); });
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
  VP_CHECK(r.net.leftovers().empty(), "unread at the end: ", r.net.leftovers());
}
VP_ARM(history_real, 250, 5000, 300, 2) { history(c, true); }
VP_ARM(history_dummy, 500, 8000, 300, 1) { history(c, false); }
VP_ARM(history_dn, 500, 8000, 300, 1) {
  std::size_t n = c.range(1, 7), t = c.range(0, (n - 1) / 2);
  Spec s = gen_spec(c, n, c.range(1, 3), 3, 4);
  auto in = gen_inputs(c, s);
  c.note("DN07 n=", n, " t=", t, " circuit ", s.show(), " inputs ", show_inputs(in));
  DnRun r(s, n, t);
  bool real = c.flip();
  u128 l = 99;
  auto meddle = [&] {
    if (!c.flip()) return;
    std::size_t p = c.range(0, n - 1);
    if (c.flip()) {
      std::vector<FF> w;
      wrong_counts(c, in[p], w);
      c.interesting();
      VP_CHECK(throws([&] { r.dn[p]->SetInputs(w); }), "DN07 accepted ", w.size(), " inputs of party ", p, " instead of ", in[p].size());
    } else {
      std::size_t g = c.range(0, s.nodes.size() - 1);
      c.interesting();
      VP_CHECK(throws([&] { r.p[p].gates[g]->GetMu(); }), "a masked value can be read under DN07");
      VP_CHECK(throws([&] { r.p[p].gates[g]->GetClear(); }), "a clear value can be read without inputs");
    }
  };
  for (auto& b : r.p) VP_CHECK(throws([&] { b.gates[c.range(0, s.nodes.size() - 1)]->GetDn07Share(); }), "a share can be read before the protocol");
  meddle();
  r.prepare(real, 0, &l);
  for (std::size_t i = 0; i < n; i++) r.dn[i]->SetInputs(ffs(in[i]));
  meddle();
  r.online(in);
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
}
