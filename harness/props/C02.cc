// C02: DN07 end to end.
// vp: flavours=asan,opt arms_asan=large_circuits,many_parties,real,mixed,real_config,mixed_config,dummy_zero,dummy_const,dummy_config,real_wide arms_opt=huge_circuits budget=44 tbudget=420 case_timeout=150
#include "tp_util.h"
using namespace vp;
const char* vp::kRule =
    "layered circuits as in C01 (batch sizes 1..4, which DN07 must not depend on) and synthetic circuits; n=1..9 parties, every t with t < n/2 (so n = 2t+1 and n > 2t+1, t = 0 included); "
    "inputs biased to 0, 1, -1; real preprocessing (generators as shipped, or every dealt sharing and double sharing replaced by a random one), dummy preprocessing zero or "
    "constant; also circuits of up to 700 multiplications and hundreds of inputs and outputs, up to 37 parties, and circuits with more than 65536 inputs, multiplications or outputs or more than 256 layers; parties stepped in random order, P1's two halves split or joined. The oracle evaluates the circuit over the integers mod 2^61-1. Non-trivial: t >= 1, a multiplication and an output.";

static void one(Case& c, int how, bool config, std::size_t max_w = 6) {
  std::size_t n = c.range(1, 9), t = c.range(0, (n - 1) / 2);
  if (c.chance(1, 3)) n = 2 * t + 1;
  std::size_t k = c.range(1, 4);
  Config cfg;
  Spec s;
  if (config) {
    cfg = gen_config(c, n, k);
    s = cfg.spec();
  } else
    s = gen_spec(c, n, k, max_w > 10 ? 3 : 5, max_w);
  auto in = gen_inputs(c, s);
  u128 lambda = gen_elem<FF>(c);
  u64 mix = c.word() | 1;
  static const char* nm[] = {"real preprocessing", "real preprocessing with random dealings", "zero dummy preprocessing", "constant dummy preprocessing"};
  c.note("n=", n, " t=", t, " ", nm[how], " ", str(lambda), " circuit ", s.show(), " inputs ", show_inputs(in));
  c.label(nm[how]);
  c.label(n == 2 * t + 1 ? "n = 2t+1" : "n > 2t+1");
  c.interesting(t >= 1 && s.size() && !s.outs.empty());
  DnRun r(s, n, t, config ? &cfg : nullptr);
  if (c.chance(1, 3)) r.order = c.perm(n);
  bool split = !c.chance(1, 3);
  if (!split) {  // P1 must have everything when it starts
    r.order.resize(n);
    std::iota(r.order.begin(), r.order.end(), 0);
  }
  std::size_t mixed = r.prepare(how < 2, how == 1 ? mix : 0, how == 3 ? &lambda : nullptr);
  if (mixed) c.label("dealings replaced");
  r.online(in, split);
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
}
static void large(Case& c, bool many) {
  std::size_t t = many ? c.range(5, 16) : c.range(0, 2), n = 2 * t + 1 + (c.chance(1, 3) ? c.range(1, 4) : 0);
  Spec s = many ? gen_spec(c, n, c.range(1, 4), 2, 6) : gen_big(c, n, c.range(1, 4), 700);
  auto in = gen_many_inputs(c, s);
  c.note("n=", n, " t=", t, " ", s.size(), " multiplications in ", s.depth(), " layers, ", s.n_inputs(), " inputs, ", s.outs.size(), " outputs, circuit ", s.show());
  c.label(many ? "many parties" : "hundreds of gates");
  c.interesting(t >= 1 && s.size() && !s.outs.empty());
  DnRun r(s, n, t, nullptr);
  r.prepare(true, c.flip() ? c.word() | 1 : 0, nullptr);
  r.online(in, true);
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
}
static void huge(Case& c) {
  std::size_t t = c.range(0, 1), n = 2 * t + 1 + c.range(0, 1);
  Spec s = gen_huge(c, n, c.range(1, 4));
  auto in = gen_many_inputs(c, s);
  c.note("n=", n, " t=", t, " ", s.size(), " multiplications in ", s.depth(), " layers, ", s.n_inputs(), " inputs, ", s.outs.size(), " outputs, circuit ", s.show());
  c.interesting();
  DnRun r(s, n, t, nullptr);
  r.prepare(true, c.flip() ? c.word() | 1 : 0, nullptr);
  r.online(in, true);
  compare_outputs(s, r.outputs(), s.outputs(s.eval(in)));
}
VP_ARM(huge_circuits, 2, 40, 60, 1) { huge(c); }
VP_ARM(large_circuits, 30, 600, 60, 1) { large(c, false); }
VP_ARM(many_parties, 16, 300, 200, 1) { large(c, true); }
VP_ARM(real, 700, 15000, 220, 3) { one(c, 0, false); }
VP_ARM(mixed, 500, 10000, 220, 2) { one(c, 1, false); }
VP_ARM(real_config, 300, 6000, 90, 1) { one(c, 0, true); }
VP_ARM(mixed_config, 200, 4000, 90, 1) { one(c, 1, true); }
VP_ARM(dummy_zero, 300, 5000, 220, 1) { one(c, 2, false); }
VP_ARM(dummy_const, 300, 5000, 220, 1) { one(c, 3, false); }
VP_ARM(dummy_config, 200, 3000, 90, 1) { one(c, c.flip() ? 2 : 3, true); }
VP_ARM(real_wide, 60, 1500, 420, 1) { one(c, 0, false, 40); }
