// C01: TurboPack end to end.
// vp: flavours=asan,opt arms_asan=real,real_mixed,real_config,mixed_config,dummy_corr,dummy_direct,dummy_lambdas,dummy_config,real_wide,large_circuits,many_parties,sequence arms_opt=huge_circuits budget=48 tbudget=420 case_timeout=150
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "layered circuits of 1..5 layers with 0..9 (some up to 40) multiplications each, additions anywhere (also straight to outputs), squared and reused wires, inputs and outputs spread over "
    "all or few parties (also none), batches full, partly filled and empty, and synthetic circuits from configurations; k=1..5, t=0..2k-2, n=t+2k-1; inputs biased to 0, 1 "
    "and -1; real preprocessing (generators as shipped, or every dealt sharing replaced by a random one of the same kind), dummy correlations, dummy batches, dummy masks; parties stepped "
    "in a random order, sometimes two circuits over one network; also circuits of up to 1200 multiplications and hundreds of inputs and outputs, up to 29 parties (k up to 8), and circuits with more than 65536 inputs, multiplications or outputs or more than 256 layers. The oracle evaluates the circuit over the integers mod 2^61-1. Non-trivial: k >= 2, a multiplication and an output.";

static void one(Case& c, Prep how, bool config, std::size_t max_k, std::size_t max_w = 0) {
  Params q = gen_params(c, max_k);
  Config cfg;
  Spec s;
  if (config) {
    cfg = gen_config(c, q.n, q.k);
    s = cfg.spec();
  } else {
    s = gen_spec(c, q.n, q.k, max_w ? 3 : 5, max_w ? max_w : c.chance(1, 5) ? 9 : 5);
  }
  auto in = gen_inputs(c, s);
  u128 lambda = gen_elem<FF>(c);
  u64 mix = c.word();
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " ", name(how), " lambda=", str(lambda), " circuit ", s.show(), " inputs ", show_inputs(in));
  c.label(name(how));
  c.label("k=" + std::to_string(q.k));
  if (q.t < 2 * q.k - 2) c.label("t below the maximum");
  c.interesting(q.k >= 2 && s.size() && !s.outs.empty());
  TurboRun r(s, q, config ? &cfg : nullptr);
  if (c.chance(1, 3)) r.order = c.perm(q.n);
  r.connect();
  std::size_t mixed = r.prepare(how, lambda, mix);
  if (mixed) c.label("dealings replaced");
  r.online(in);
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
}
// hundreds of gates, or many parties
static void large(Case& c, bool many) {
  Params q = many ? gen_params(c, 8, 5) : gen_params(c, 3);
  Spec s = many ? gen_spec(c, q.n, q.k, 2, 6) : gen_big(c, q.n, q.k, 400 * q.k);
  auto in = gen_many_inputs(c, s);
  Prep how = many || c.flip() ? Prep::Real : c.flip() ? Prep::RealMixed : Prep::DummyCorr;
  u64 mix = c.word() | 1;
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " ", name(how), " ", s.size(), " multiplications in ", s.depth(), " layers, ", s.n_inputs(), " inputs, ", s.outs.size(), " outputs, circuit ", s.show());
  c.label(many ? "many parties" : "hundreds of gates");
  c.interesting(q.k >= 2 && s.size() && !s.outs.empty());
  TurboRun r(s, q);
  r.connect();
  r.prepare(how, 7, mix);
  r.online(in);
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
}
static void huge(Case& c) {
  Params q = gen_params(c, 2);
  Spec s = gen_huge(c, q.n, q.k);
  auto in = gen_many_inputs(c, s);
  u64 mix = c.word() | 1;
  Prep how = c.flip() ? Prep::Real : Prep::RealMixed;
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " ", name(how), " ", s.size(), " multiplications in ", s.depth(), " layers, ", s.n_inputs(), " inputs, ", s.outs.size(), " outputs, circuit ", s.show());
  c.interesting();
  TurboRun r(s, q);
  r.connect();
  r.prepare(how, 7, mix);
  r.online(in);
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
}
VP_ARM(huge_circuits, 2, 40, 60, 1) { huge(c); }
static void two(Case& c) {
  Params q = gen_params(c, 3, 2);
  Spec s1 = gen_spec(c, q.n, q.k, 2, 4), s2 = gen_spec(c, q.n, q.k, 2, 4);
  auto i1 = gen_inputs(c, s1), i2 = gen_inputs(c, s2);
  c.note("n=", q.n, " t=", q.t, " k=", q.k, " circuits ", s1.show(), " then ", s2.show());
  c.interesting(s1.size() && s2.size());
  c.label("two circuits over one network");
  TurboRun r(s1, q);
  r.connect();
  r.prepare(Prep::Real, 0, 0);
  // the second circuit is built and wired while the first is prepared, and shares its network
  std::vector<Built> b2(q.n);
  for (std::size_t i = 0; i < q.n; i++) {
    build(b2[i], s2);
    b2[i].circuit.SetNetwork(r.net.of(i), i);
  }
  r.online(i1);
  compare_outputs(s1, r.outputs(), s1.outputs(s1.eval(i1)));
  r.p.swap(b2);
  r.spec = s2;
  r.prepare(Prep::Real, 0, 0);
  r.online(i2);
  compare_outputs(s2, r.outputs(), s2.outputs(s2.eval(i2)));
}
VP_ARM(real, 260, 6000, 220, 4) { one(c, Prep::Real, false, 5); }
VP_ARM(real_mixed, 200, 4000, 220, 4) { one(c, Prep::RealMixed, false, 4); }
VP_ARM(real_config, 150, 3000, 90, 2) { one(c, Prep::Real, true, 4); }
VP_ARM(mixed_config, 100, 2000, 90, 1) { one(c, Prep::RealMixed, true, 3); }
VP_ARM(dummy_corr, 200, 3000, 220, 1) { one(c, c.flip() ? Prep::DummyCorr : Prep::DummyCorrZero, false, 5); }
VP_ARM(dummy_direct, 200, 3000, 220, 1) { one(c, c.flip() ? Prep::DummyDirect : Prep::DummyZero, false, 5); }
VP_ARM(dummy_lambdas, 200, 3000, 220, 1) { one(c, Prep::DummyLambdas, false, 5); }
VP_ARM(dummy_config, 150, 2000, 90, 1) { one(c, c.flip() ? Prep::DummyLambdas : Prep::DummyDirect, true, 5); }
VP_ARM(real_wide, 40, 800, 420, 1) { one(c, Prep::Real, false, 4, 40); }
VP_ARM(large_circuits, 30, 600, 60, 1) { large(c, false); }
VP_ARM(many_parties, 8, 120, 200, 1) { large(c, true); }
VP_ARM(sequence, 60, 1500, 240, 1) { two(c); }
