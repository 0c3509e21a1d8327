// C05: P1 learns wire values minus their masks, and nothing else.
// vp: flavours=asan,opt arms_asan=mu_real,mu_config,mu_dummy,same_view arms_opt=mu_large,mu_real,mu_mixed,shift,same_view,hiding,offline_opened budget=44 tbudget=360
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "circuits and configurations as in C01, k=1..5, every admissible t, all kinds of preprocessing, also circuits of hundreds of multiplications. Oracle: the masks interpolated from the preprocessed shares (or the dummy masks) and the clear values; the masked value "
    "P1 holds for every wire, the masked operands packed in what P1 sends, the elements owners send. Metamorphic: the same preprocessing with one input changed by d; two runs with different "
    "inputs and masks but equal masked values. Hiding: with everything but the zero sharings fixed, the shares received by P1 and by owners must span all dimensions their secrets leave. "
    "Offline: over fresh runs the values P1 opens while preprocessing and the wire masks together must have full rank. "
    "Non-trivial: k >= 2 and a multiplication.";

static std::vector<u128> elems(const Bytes& b) {
  std::vector<u128> r;
  VP_CHECK(b.size() % 8 == 0, "traffic of ", b.size(), " bytes is not a sequence of field elements");
  for (std::size_t i = 0; i + 8 <= b.size(); i += 8) r.push_back(val(FF::Read(b.data() + i)));
  return r;
}
static std::vector<u128> points(std::size_t n) {
  std::vector<u128> x;
  for (std::size_t i = 1; i <= n; i++) x.push_back(i);
  return x;
}
static std::vector<u128> masks_of(TurboRun& r, Prep how, u128 lambda) {
  auto A = fa();
  auto& s = r.spec;
  std::vector<u128> m(s.nodes.size());
  std::vector<tp::Correlator> k;
  if (uses_correlator(how))
    for (auto& b : r.p) k.push_back(b.circuit.GetCorrelator());
  for (std::size_t i = 0; i < s.nodes.size(); i++) {
    auto& d = s.nodes[i];
    if (d.kind == Spec::Add) m[i] = A.add(m[d.a], m[d.b]);
    else if (d.kind == Spec::Out) m[i] = m[d.a];
    else if (uses_correlator(how)) {
      std::vector<u128> sh;
      for (std::size_t p = 0; p < r.par.n; p++) sh.push_back(val(k[p].mMapIndShrs[r.p[p].gates[i]]));
      m[i] = lagrange(points(r.par.n), sh, 0, A);
    } else
      m[i] = how == Prep::DummyZero ? 0 : lambda;
  }
  return m;
}
static std::vector<u128> minus(const std::vector<u128>& a, const std::vector<u128>& b) {
  std::vector<u128> r;
  for (std::size_t i = 0; i < a.size(); i++) r.push_back(fa().sub(a[i], b[i]));
  return r;
}
static std::vector<u128> sorted(std::vector<u128> v) {
  std::sort(v.begin(), v.end());
  return v;
}
// the online phase, with the bytes of each phase kept
struct Log {
  std::map<std::pair<unsigned, unsigned>, Bytes> input, output;
  std::vector<std::map<std::pair<unsigned, unsigned>, Bytes>> down, up;
};
static Log online(TurboRun& r, const std::vector<std::vector<u128>>& in) {
  Log g;
  auto take = [&] {
    std::map<std::pair<unsigned, unsigned>, Bytes> l;
    l.swap(r.net.log);
    return l;
  };
  r.net.keep = true;
  r.net.log.clear();
  for (std::size_t i = 0; i < r.par.n; i++) r.p[i].circuit.SetInputs(ffs(in[i]));
  r.each([](tp::Circuit& C) { C.InputOwnerSendsP1(); });
  g.input = take();
  r.each([](tp::Circuit& C) { C.InputP1Receives(); });
  for (std::size_t l = 0; l < r.spec.depth(); l++) {
    r.each([l](tp::Circuit& C) { C.MultP1Sends(l); });
    g.down.push_back(take());
    r.each([l](tp::Circuit& C) { C.MultPartiesReceive(l); });
    r.each([l](tp::Circuit& C) { C.MultPartiesSend(l); });
    g.up.push_back(take());
    r.each([l](tp::Circuit& C) { C.MultP1Receives(l); });
  }
  r.each([](tp::Circuit& C) { C.OutputP1SendsMu(); });
  g.output = take();
  r.each([](tp::Circuit& C) { C.OutputOwnerReceivesMu(); });
  r.net.keep = false;
  return g;
}
static std::vector<std::size_t> layer_gates(const Spec& s, std::size_t l) {
  std::vector<std::size_t> g;
  for (std::size_t i = 0; i < s.nodes.size(); i++)
    if (s.nodes[i].kind == Spec::Mul && s.nodes[i].layer == l) g.push_back(i);
  return g;
}
static void check_run(TurboRun& r, const Log& g, const std::vector<u128>& v, const std::vector<u128>& mask, bool zero_shared) {
  auto A = fa();
  auto& s = r.spec;
  auto n = r.par.n, k = r.par.k;
  auto mu = minus(v, mask);
  for (std::size_t i = 0; i < s.nodes.size(); i++)
    if (r.p[0].gates[i]) {
      u128 got = val(r.p[0].gates[i]->GetMu());
      VP_CHECK(got == mu[i], "P1 learned ", str(got), " for w", i, ", value ", str(v[i]), " minus mask ", str(mask[i]), " is ", str(mu[i]));
    }
  for (std::size_t p = 0; p < n; p++) {
    std::vector<u128> want, got;
    for (auto i : s.in[p]) want.push_back(mu[i]);
    auto it = g.input.find({(unsigned)p, 0});
    if (it != g.input.end()) got = elems(it->second);
    VP_CHECK(sorted(got) == sorted(want), "party ", p, " sent ", show(got), " for its inputs instead of ", show(want));
    want.clear();
    got.clear();
    for (auto i : s.out[p]) want.push_back(mu[i]);
    it = g.output.find({0, (unsigned)p});
    if (it != g.output.end()) got = elems(it->second);
    VP_CHECK(sorted(got) == sorted(want), "P1 sent ", show(got), " to party ", p, " for its outputs instead of ", show(want));
  }
  // what is packed in the messages of each batch
  for (std::size_t l = 0; l < s.depth(); l++) {
    auto gates = layer_gates(s, l);
    std::size_t nb = s.batches(gates.size());
    std::vector<std::vector<u128>> down(n), up(n);
    for (std::size_t p = 0; p < n; p++) {
      auto d = g.down[l].find({0, (unsigned)p}), u = g.up[l].find({(unsigned)p, 0});
      VP_CHECK(d != g.down[l].end() && u != g.up[l].end(), "no messages with party ", p, " in layer ", l);
      down[p] = elems(d->second);
      up[p] = elems(u->second);
      VP_CHECK(down[p].size() == 2 * nb && up[p].size() == nb, "layer ", l, ": party ", p, " got ", down[p].size(), " and sent ", up[p].size(), " elements for ", nb, " batches");
    }
    for (std::size_t b = 0; b < nb; b++) {
      std::vector<u128> a, bb, u;
      for (std::size_t p = 0; p < n; p++) {
        a.push_back(down[p][2 * b]);
        bb.push_back(down[p][2 * b + 1]);
        u.push_back(up[p][b]);
      }
      for (std::size_t j = 0; j < k; j++) {
        std::size_t q = b * k + j;
        bool pad = q >= gates.size();
        std::string w = "layer " + std::to_string(l) + " batch " + std::to_string(b) + " slot " + std::to_string(j);
        auto at = [&](const std::vector<u128>& sh) { return lagrange(points(n), sh, A.neg(j), A); };
        u128 wa = pad ? 0 : mu[s.nodes[gates[q]].a], wb = pad ? 0 : mu[s.nodes[gates[q]].b], wc = pad ? 0 : mu[gates[q]];
        VP_CHECK(at(a) == wa, w, ": P1 shared ", str(at(a)), " instead of the left operand's masked value ", str(wa));
        VP_CHECK(at(bb) == wb, w, ": P1 shared ", str(at(bb)), " instead of the right operand's masked value ", str(wb));
        VP_CHECK(at(u) == wc, w, ": P1 received shares of ", str(at(u)), " instead of ", str(wc));
      }
    }
  }
  (void)zero_shared;
}
static void mu(Case& c, Prep how, bool config, std::size_t max_k, bool large = false) {
  Params q = gen_params(c, max_k);
  Config cfg;
  Spec s;
  if (config) {
    cfg = gen_config(c, q.n, q.k);
    s = cfg.spec();
  } else
    s = large ? gen_big(c, q.n, q.k, 360 * q.k) : gen_spec(c, q.n, q.k, 4, c.chance(1, 5) ? 9 : 5);
  auto in = large ? gen_many_inputs(c, s) : gen_inputs(c, s);
  u128 lambda = gen_elem<FF>(c);
  u64 mix = c.word() | 1;
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " ", name(how), " lambda=", str(lambda), " circuit ", s.show(), " inputs ", show_inputs(in));
  c.label(name(how));
  c.interesting(q.k >= 2 && s.size());
  TurboRun r(s, q, config ? &cfg : nullptr);
  if (c.chance(1, 3)) r.order = c.perm(q.n);
  r.connect();
  r.prepare(how, lambda, mix);
  auto m = masks_of(r, how, how == Prep::DummyCorrZero ? 0 : lambda);
  auto g = online(r, in);
  check_run(r, g, s.eval(in), m, uses_correlator(how));
}
VP_ARM(mu_real, 150, 3000, 220, 3) { mu(c, Prep::Real, false, 5); }
VP_ARM(mu_large, 14, 300, 60, 1) { mu(c, c.flip() ? Prep::Real : Prep::DummyCorr, false, 3, true); }
VP_ARM(mu_mixed, 150, 3000, 220, 2) { mu(c, Prep::RealMixed, false, 4); }
VP_ARM(mu_config, 120, 2000, 90, 1) { mu(c, c.flip() ? Prep::Real : Prep::DummyCorr, true, 4); }
VP_ARM(mu_dummy, 200, 3000, 220, 1) {
  static const Prep ps[] = {Prep::DummyCorr, Prep::DummyCorrZero, Prep::DummyDirect, Prep::DummyZero, Prep::DummyLambdas};
  mu(c, ps[c.range(0, 4)], c.chance(1, 4), 5);
}

// one input changed by d, the preprocessing fixed
VP_ARM(shift, 120, 2500, 220, 2) {
  auto A = fa();
  Params q = gen_params(c, 4);
  Spec s = gen_spec(c, q.n, q.k, 3, 5);
  auto in = gen_inputs(c, s);
  u64 mix = c.word() | 1;
  std::size_t which = c.range(0, s.n_inputs() - 1);
  u128 d = gen_elem<FF>(c);
  if (!d) d = 1;
  std::size_t node = which;  // inputs are the first nodes
  auto in2 = in;
  std::size_t ow = s.nodes[node].owner, pos = std::find(s.in[ow].begin(), s.in[ow].end(), node) - s.in[ow].begin();
  in2[ow][pos] = A.add(in2[ow][pos], d);
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " circuit ", s.show(), " inputs ", show_inputs(in), " w", node, " += ", str(d));
  c.interesting(q.k >= 2 && s.size());
  bool fixed = true;
  auto run = [&](const std::vector<std::vector<u128>>& x, Log& g, std::vector<u128>& mu) {
    TurboRun r(s, q);
    r.connect();
    fixed &= r.prepare(Prep::RealMixed, 0, mix) > 0;
    g = online(r, x);
    for (auto& w : r.p[0].gates) mu.push_back(val(w->GetMu()));
  };
  Log g1, g2;
  std::vector<u128> m1, m2;
  run(in, g1, m1);
  run(in2, g2, m2);
  if (!fixed) {
    c.label("dealings not recognised");
    return;
  }
  auto v1 = s.eval(in), v2 = s.eval(in2);
  for (std::size_t i = 0; i < m1.size(); i++)
    VP_CHECK(A.sub(m2[i], m1[i]) == A.sub(v2[i], v1[i]), "the value of w", i, " changed by ", str(A.sub(v2[i], v1[i])), " but what P1 learned by ", str(A.sub(m2[i], m1[i])));
  for (std::size_t p = 0; p < q.n; p++) {
    auto a = elems(g1.input[{(unsigned)p, 0}]), b = elems(g2.input[{(unsigned)p, 0}]);
    VP_CHECK(a.size() == b.size(), "number of messages of party ", p, " changed with its inputs");
    std::size_t changed = 0;
    for (std::size_t i = 0; i < a.size(); i++)
      if (a[i] != b[i]) {
        changed++;
        VP_CHECK(A.sub(b[i], a[i]) == d, "an input changed by ", str(d), " but a message of its owner by ", str(A.sub(b[i], a[i])));
      }
    VP_CHECK(changed == (p == ow ? 1u : 0u), changed, " messages of party ", p, " changed with one input of party ", ow);
  }
}
// different inputs and masks, equal masked values: P1 says the same
VP_ARM(same_view, 250, 5000, 220, 1) {
  auto A = fa();
  Params q = gen_params(c, 5);
  Spec s = gen_spec(c, q.n, q.k, 4, 6);
  auto i1 = gen_inputs(c, s), i2 = gen_inputs(c, s);
  Rng rng = c.rng();
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " circuit ", s.show(), " inputs ", show_inputs(i1), " and ", show_inputs(i2));
  c.interesting(q.k >= 2 && s.size() && i1 != i2);
  std::vector<u128> mu(s.nodes.size());
  for (std::size_t i = 0; i < mu.size(); i++) mu[i] = rng.next128() % P61;
  auto run = [&](const std::vector<std::vector<u128>>& x) {
    auto v = s.eval(x);
    TurboRun r(s, q);
    r.connect();
    std::vector<u128> mask(s.nodes.size());
    for (std::size_t i = 0; i < mu.size(); i++) {
      auto& d = s.nodes[i];
      mask[i] = d.kind == Spec::Add ? A.add(mask[d.a], mask[d.b]) : d.kind == Spec::Out ? mask[d.a] : A.sub(v[i], mu[i]);
      for (auto& p : r.p) {
        if (d.kind == Spec::In) std::dynamic_pointer_cast<tp::InputGate>(p.gates[i])->SetLambda(ff(mask[i]));
        if (d.kind == Spec::Mul) std::dynamic_pointer_cast<tp::MultGate>(p.gates[i])->SetDummyLambda(ff(mask[i]));
      }
    }
    r.each([](tp::Circuit& C) {
      C.PopulateDummyLambdas();
      C.PrepFromDummyLambdas();
    });
    // the owners learn the masks of their outputs
    for (auto i : s.outs)
      for (auto& p : r.p) std::dynamic_pointer_cast<tp::OutputGate>(p.gates[i])->SetLambda(ff(mask[i]));
    auto g = online(r, x);
    check_run(r, g, v, mask, false);
    compare_outputs(s, r.outputs(), s.outputs(v));
    return g;
  };
  Log a = run(i1), b = run(i2);
  VP_CHECK(a.down == b.down && a.output == b.output, "P1's messages differ between two runs in which it saw the same masked values");
  VP_CHECK(a.input == b.input, "owners' messages differ between two runs with the same masked values");
}

// ------------------------------------------------------------------ hiding
VP_ARM(hiding, 25, 500, 120, 3) {
  auto A = fa();
  Params q = gen_params(c, 4);
  Spec s = gen_spec(c, q.n, q.k, 2, 4);
  if (s.mult_batches() + s.in_batches() + s.out_batches() > 30) c.discard();
  auto in = gen_inputs(c, s);
  std::size_t n = q.n, k = q.k;
  u64 fixed_seed = c.word() | 1, pick = c.word();
  auto pos = c.perm(n);
  c.note("n=", n, " t=", q.t, " k=", k, " circuit ", s.show(), " inputs ", show_inputs(in));
  c.interesting(k >= 2 && s.size());
  if (n == k) return;  // the secrets determine the shares
  std::vector<std::vector<u128>> rows;
  std::vector<std::vector<u128>> opened;
  for (std::size_t run = 0; rows.empty() || run < rows[0].size() + 3; run++) {
    TurboRun r(s, q);
    r.connect();
    r.correlator();
    Mixer mx(r.net, fixed_seed);
    auto all = r.slots_all();
    auto m = mx.mark();
    r.each([](tp::Circuit& C) { C.GenIndShrsPartiesSend(); });
    std::size_t b = mx.count(m);
    if (b) mx.mix(m, b, [&](std::size_t) { return all; }, n - k, true);
    bool ok = b || !s.n_inputs();
    m = mx.mark();
    r.each([](tp::Circuit& C) { C.GenUnpackedShrPartiesSend(); });
    b = mx.count(m);
    if (!b || b % k || !ok) {
      c.label("dealings not recognised");
      return;
    }
    mx.mix(m, b, [&](std::size_t i) { return std::vector<u128>{A.neg(i / (b / k))}; }, q.t, true);
    r.each([](tp::Circuit& C) { C.GenZeroPartiesSend(); });
    r.each([](tp::Circuit& C) { C.GenZeroForProdPartiesSend(); });
    r.each([](tp::Circuit& C) { C.FIPrepRecv(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesSendP1(); });
    r.each([](tp::Circuit& C) { C.GenProdP1ReceivesAndSends(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesReceive(); });
    r.each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
    // sharings[x][p]: share of party p of the x-th value somebody reconstructs
    std::vector<std::vector<u128>> sharings;
    auto collect = [&](std::size_t to, std::map<std::pair<unsigned, unsigned>, Bytes>& log) {
      std::vector<std::vector<u128>> e;
      for (std::size_t p = 0; p < n; p++) e.push_back(elems(log[{(unsigned)p, (unsigned)to}]));
      for (std::size_t x = 0; x < e[0].size(); x++) {
        std::vector<u128> sh;
        for (std::size_t p = 0; p < n; p++) {
          VP_CHECK(x < e[p].size(), "party ", p, " sent ", e[p].size(), " shares to party ", to, " and party 0 ", e[0].size());
          sh.push_back(e[p][x]);
        }
        sharings.push_back(sh);
      }
    };
    r.net.keep = true;
    r.net.log.clear();
    r.each([](tp::Circuit& C) { C.PrepMultPartiesSendP1(); });
    collect(0, r.net.log);
    r.net.log.clear();
    r.each([](tp::Circuit& C) { C.PrepMultP1ReceivesAndSends(); });
    r.each([](tp::Circuit& C) { C.PrepMultPartiesReceive(); });
    r.net.log.clear();
    r.each([](tp::Circuit& C) { C.PrepIOPartiesSendOwner(); });
    for (std::size_t p = 0; p < n; p++) collect(p, r.net.log);
    r.each([](tp::Circuit& C) { C.PrepIOOwnerReceives(); });
    auto g = online(r, in);
    for (auto& u : g.up) collect(0, u);
    std::vector<u128> row, open;
    for (std::size_t x = 0; x < sharings.size(); x++) {
      std::size_t w = x == pick % sharings.size() ? n - k : 1;
      for (std::size_t j = 0; j < w; j++) row.push_back(sharings[x][pos[j]]);
      for (std::size_t j = 0; j < k; j++) open.push_back(lagrange(points(n), sharings[x], A.neg(j), A));
    }
    rows.push_back(row);
    opened.push_back(open);
    VP_CHECK(open == opened[0], "what P1 and owners reconstruct depends on the zero sharings");
  }
  std::vector<std::vector<u128>> diff;
  for (std::size_t i = 1; i < rows.size(); i++) diff.push_back(minus(rows[i], rows[0]));
  std::size_t rk = rank_of(diff);
  VP_CHECK(rk == rows[0].size(), "the shares sent to P1 and to owners (", rows[0].size(), " of them, whose secrets leave them free) span only ", rk, " dimensions over ", rows.size(),
           " runs with fresh zero sharings: they reveal more than the values they carry");
}
// what P1 opens while preprocessing: masked by fresh randomness, independent of the wire masks
VP_ARM(offline_opened, 60, 1200, 120, 2) {
  auto A = fa();
  Params q = gen_params(c, 4);
  Spec s = gen_spec(c, q.n, q.k, 2, 4);
  std::size_t n = q.n, k = q.k;
  c.note("n=", n, " t=", q.t, " k=", k, " circuit ", s.show());
  c.interesting(k >= 2 && s.size());
  std::vector<std::vector<u128>> rows;
  std::size_t need = 4, masks = 0;
  for (std::size_t run = 0; run < need; run++) {
    TurboRun r(s, q);
    r.connect();
    r.correlator();
    r.each([](tp::Circuit& C) { C.FIPrepSend(); });
    r.each([](tp::Circuit& C) { C.FIPrepRecv(); });
    std::vector<u128> row;
    auto collect = [&](bool one_slot) {
      std::vector<std::vector<u128>> e;
      for (std::size_t p = 0; p < n; p++) e.push_back(elems(r.net.log[{(unsigned)p, 0}]));
      for (auto& x : e) VP_CHECK(x.size() == e[0].size(), "parties sent P1 different numbers of shares");
      for (std::size_t x = 0; x < e[0].size(); x++) {
        std::vector<u128> sh;
        for (std::size_t p = 0; p < n; p++) sh.push_back(e[p][x]);
        if (one_slot) row.push_back(lagrange(points(n), sh, A.neg(x / (e[0].size() / k)), A));
        else
          for (std::size_t j = 0; j < k; j++) row.push_back(lagrange(points(n), sh, A.neg(j), A));
      }
      return e[0].size();
    };
    r.net.keep = true;
    r.net.log.clear();
    r.each([](tp::Circuit& C) { C.GenProdPartiesSendP1(); });
    std::size_t cnt = r.net.log[{0, 0}].size() / 8;
    if (cnt % k) {
      c.label("layout not recognised");
      return;
    }
    collect(true);
    r.each([](tp::Circuit& C) { C.GenProdP1ReceivesAndSends(); });
    r.each([](tp::Circuit& C) { C.GenProdPartiesReceive(); });
    r.each([](tp::Circuit& C) { C.MapCorrToCircuit(); });
    r.net.log.clear();
    r.each([](tp::Circuit& C) { C.PrepMultPartiesSendP1(); });
    collect(false);
    r.each([](tp::Circuit& C) { C.PrepMultP1ReceivesAndSends(); });
    r.each([](tp::Circuit& C) { C.PrepMultPartiesReceive(); });
    r.net.keep = false;
    auto m = masks_of(r, Prep::Real, 0);
    masks = 0;
    for (std::size_t i = 0; i < s.nodes.size(); i++)
      if (s.nodes[i].kind == Spec::In || s.nodes[i].kind == Spec::Mul) {
        row.push_back(m[i]);
        masks++;
      }
    rows.push_back(row);
    need = row.size() + 4;
    if (need > 160) c.discard();
  }
  std::vector<std::vector<u128>> diff;
  for (std::size_t i = 1; i < rows.size(); i++) diff.push_back(minus(rows[i], rows[0]));
  std::size_t rk = rank_of(diff);
  VP_CHECK(rk == rows[0].size(), "the ", rows[0].size() - masks, " values P1 opens while preprocessing and the ", masks, " wire masks span ", rk, " dimensions over ", rows.size(), " runs: P1 learns a relation among the masks");
}
