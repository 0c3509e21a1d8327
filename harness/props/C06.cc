// C06: communication: how much, between whom, and of what it depends.
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "circuits and configurations as in C01 and C02 with every kind of preprocessing, both protocols, also circuits of hundreds of multiplications and many parties. Oracle: bytes per ordered pair of parties in each online phase computed from the circuit's shape; metamorphic: a second run "
    "with other inputs, other randomness and other wiring of the same shape must exchange the same number of messages and bytes between every pair in every phase; nothing may stay "
    "unread. Non-trivial: k >= 2 (t >= 1 for the baseline), a multiplication, and two different wirings or inputs.";

// another wiring of the same shape
static Spec rewire(Case& c, const Spec& s) {
  Spec r = s;
  Rng g = c.rng();
  // wires usable by additions and multiplications of layer l: inputs, additions before it, multiplications of closed layers
  for (std::size_t i = 0; i < r.nodes.size(); i++) {
    auto& d = r.nodes[i];
    if (d.kind == Spec::In) continue;
    std::vector<std::size_t> ok;
    for (std::size_t j = 0; j < i; j++) {
      auto& e = r.nodes[j];
      if (e.kind == Spec::Out) continue;
      if (d.kind != Spec::Out && e.kind == Spec::Mul && e.layer >= d.layer) continue;
      ok.push_back(j);
    }
    d.a = ok[g.below(ok.size())];
    if (d.kind != Spec::Out) d.b = ok[g.below(ok.size())];
  }
  return r;
}
using Phases = std::map<std::string, TrafficMap>;
static std::string show(const TrafficMap& t) {
  std::string s;
  for (auto& kv : t) s += std::to_string(kv.first.first) + "->" + std::to_string(kv.first.second) + ": " + std::to_string(kv.second.msgs) + " messages, " + std::to_string(kv.second.bytes) + " bytes; ";
  return s;
}
static void same(const Phases& a, const Phases& b) {
  auto get = [](const Phases& p, const std::string& k) {
    auto it = p.find(k);
    return it == p.end() ? TrafficMap{} : it->second;
  };
  std::set<std::string> names;
  for (auto& kv : a) names.insert(kv.first);
  for (auto& kv : b) names.insert(kv.first);
  for (auto& nm : names) VP_CHECK(get(a, nm) == get(b, nm), "phase '", nm, "' of two runs on circuits of the same shape: ", show(get(a, nm)), " and ", show(get(b, nm)));
}
static void expect(const Phases& p, const std::string& nm, std::map<std::pair<unsigned, unsigned>, u64> elems) {
  auto it = p.find(nm);
  TrafficMap t = it == p.end() ? TrafficMap{} : it->second;
  std::map<std::pair<unsigned, unsigned>, u64> got;
  for (auto& kv : t)
    if (kv.second.bytes) got[kv.first] = kv.second.bytes;
  for (auto& kv : elems)
    if (kv.second) {
      u64 g = got.count(kv.first) ? got[kv.first] : 0;
      VP_CHECK(g == 8 * kv.second, "phase '", nm, "': ", kv.first.first, "->", kv.first.second, " exchanged ", g, " bytes instead of ", kv.second, " field elements");
      got.erase(kv.first);
    }
  for (auto& kv : got) fail("phase '", nm, "': ", kv.first.first, " sent ", kv.second, " bytes to ", kv.first.second, ", nothing is due");
}
static void turbo(Case& c, Prep how, bool config, bool large = false) {
  Params q = gen_params(c, large ? 3 : how == Prep::Real ? 4 : 5);
  Config cfg;
  Spec s;
  if (config) {
    cfg = gen_config(c, q.n, q.k);
    s = cfg.spec();
  } else
    s = large ? gen_big(c, q.n, q.k, 360 * q.k) : gen_spec(c, q.n, q.k, 4, c.chance(1, 5) ? 9 : 5);
  auto i1 = large ? gen_many_inputs(c, s) : gen_inputs(c, s), i2 = large ? gen_many_inputs(c, s) : gen_inputs(c, s);
  u128 l1 = gen_elem<FF>(c), l2 = gen_elem<FF>(c);
  u64 m1 = c.word() | 1, m2 = c.word() | 1;
  Spec s2 = config ? s : rewire(c, s);
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " ", name(how), " circuit ", s.show(), " then ", s2.show());
  c.label(name(how));
  c.interesting(q.k >= 2 && s.size());
  auto run = [&](const Spec& sp, const std::vector<std::vector<u128>>& in, u128 l, u64 m) {
    TurboRun r(sp, q, config ? &cfg : nullptr);
    if (c.chance(1, 3)) r.order = c.perm(q.n);
    r.connect();
    r.prepare(how, l, m);
    VP_CHECK(r.net.leftovers().empty(), "unread after the preprocessing: ", r.net.leftovers());
    r.online(in);
    VP_CHECK(r.net.leftovers().empty(), "unread at the end: ", r.net.leftovers());
    return r.phases;
  };
  Phases a = run(s, i1, l1, m1), b = run(s2, i2, l2, m2);
  std::map<std::pair<unsigned, unsigned>, u64> e;
  for (unsigned p = 0; p < q.n; p++) e[{p, 0}] = s.in[p].size();
  expect(a, "input", e);
  for (std::size_t l = 0; l < s.depth(); l++) {
    std::map<std::pair<unsigned, unsigned>, u64> d, u;
    for (unsigned p = 0; p < q.n; p++) {
      d[{0, p}] = 2 * s.batches(s.widths[l]);
      u[{p, 0}] = s.batches(s.widths[l]);
    }
    expect(a, "mult down " + std::to_string(l), d);
    expect(a, "mult up " + std::to_string(l), u);
  }
  e.clear();
  for (unsigned p = 0; p < q.n; p++) e[{0, p}] = s.out[p].size();
  expect(a, "output", e);
  expect(a, "after output", {});
  if (!uses_correlator(how)) expect(a, "other preprocessing", {});
  same(a, b);
}
VP_ARM(turbo_real, 150, 3000, 240, 3) { turbo(c, Prep::Real, false); }
VP_ARM(turbo_large, 10, 200, 60, 1) { turbo(c, c.flip() ? Prep::Real : Prep::DummyDirect, false, true); }
VP_ARM(turbo_config, 100, 2000, 100, 1) { turbo(c, c.flip() ? Prep::Real : Prep::DummyCorr, true); }
VP_ARM(turbo_mixed, 60, 1000, 240, 1) { turbo(c, Prep::RealMixed, false); }
VP_ARM(turbo_dummy, 200, 3000, 240, 2) {
  static const Prep ps[] = {Prep::DummyCorr, Prep::DummyCorrZero, Prep::DummyDirect, Prep::DummyZero, Prep::DummyLambdas};
  turbo(c, ps[c.range(0, 4)], false);
}
// the order in which circuits, layers and inputs are prepared through the functions that run whole phases
VP_ARM(turbo_alone, 300, 5000, 200, 1) {
  // one party (k=1, t=0, n=1) may run the whole protocol in one call
  Spec s = gen_spec(c, 1, 1, 4, 6);
  auto in = gen_inputs(c, s);
  c.note("one party, RunProtocol, circuit ", s.show(), " inputs ", show_inputs(in));
  c.interesting(s.size());
  TurboRun r(s, {1, 0, 1});
  r.connect();
  Prep how = c.flip() ? Prep::Real : Prep::DummyLambdas;
  r.prepare(how, 5, 0);
  r.p[0].circuit.SetInputs(ffs(in[0]));
  r.p[0].circuit.RunProtocol();
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
  VP_CHECK(r.net.leftovers().empty(), "unread at the end: ", r.net.leftovers());
  u64 want = s.n_inputs() + s.outs.size() + 3 * s.mult_batches();
  VP_CHECK((r.net.traffic[{0u, 0u}].bytes == 8 * want), "the online phase took ", r.net.traffic[{0u, 0u}].bytes, " bytes instead of ", want, " elements");
}

static void dn(Case& c, bool real, bool config, bool large = false) {
  std::size_t n = c.range(1, 9), t = c.range(0, (n - 1) / 2);
  if (c.chance(1, 3)) n = 2 * t + 1;
  std::size_t k = c.range(1, 4);
  Config cfg;
  Spec s;
  if (config) {
    cfg = gen_config(c, n, k);
    s = cfg.spec();
  } else
    s = large ? gen_big(c, n, k, 500) : gen_spec(c, n, k, 4, 6);
  auto i1 = large ? gen_many_inputs(c, s) : gen_inputs(c, s), i2 = large ? gen_many_inputs(c, s) : gen_inputs(c, s);
  u128 lambda = gen_elem<FF>(c);
  Spec s2 = config ? s : rewire(c, s);
  c.note("DN07 n=", n, " t=", t, real ? " real" : " dummy", " circuit ", s.show(), " then ", s2.show());
  c.interesting(t >= 1 && s.size());
  c.label(real ? "DN07 real" : "DN07 dummy");
  auto run = [&](const Spec& sp, const std::vector<std::vector<u128>>& in, bool split) {
    DnRun r(sp, n, t, config ? &cfg : nullptr);
    r.prepare(real, 0, &lambda);
    VP_CHECK(r.net.leftovers().empty(), "unread after the preprocessing: ", r.net.leftovers());
    r.online(in, split);
    VP_CHECK(r.net.leftovers().empty(), "unread at the end: ", r.net.leftovers());
    return r.phases;
  };
  Phases a = run(s, i1, true), b = run(s2, i2, true);
  same(a, b);
  std::map<std::pair<unsigned, unsigned>, u64> fd, im, is, out;
  unsigned on = n - t;
  for (unsigned p = on; p < n; p++) fd[{p, 0}] = s.size();
  for (unsigned o = 0; o < n; o++) {
    for (unsigned p = 0; p <= t; p++) im[{p, o}] += s.in[o].size();
    for (unsigned p = 0; p < on; p++) is[{o, p}] += s.in[o].size();
    for (unsigned p = 0; p <= t; p++) out[{p, o}] += s.out[o].size();
  }
  expect(a, "fd mult", fd);
  expect(a, "input masks", im);
  expect(a, "input shares", is);
  for (std::size_t l = 0; l < s.depth(); l++) {
    std::map<std::pair<unsigned, unsigned>, u64> up, down;
    for (unsigned p = 0; p < on; p++) {
      up[{p, 0}] = s.widths[l];
      down[{0, p}] = s.widths[l];
    }
    expect(a, "mult up " + std::to_string(l), up);
    expect(a, "mult down " + std::to_string(l), down);
  }
  expect(a, "output", out);
  expect(a, "after output", {});
}
VP_ARM(dn_real, 250, 5000, 240, 2) { dn(c, true, false); }
VP_ARM(dn_large, 10, 200, 60, 1) { dn(c, c.flip(), false, true); }
VP_ARM(dn_dummy, 200, 4000, 240, 1) { dn(c, false, false); }
VP_ARM(dn_config, 150, 3000, 100, 1) { dn(c, c.flip(), true); }
