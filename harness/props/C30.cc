// C30: evaluating a protocol given as steps.
// vp: flavours=asan,tsan arms_asan=chain,errors,parties arms_tsan=parties trust_oracle=1 budget=30 case_timeout=60
#include <scl/math.h>
#include <scl/networking.h>
#include <scl/p/simple.h>
#include <scl/secret_sharing.h>

#include <thread>
#include <utility>

#include "net_util.h"
using namespace vp;
const char* vp::kRule =
    "chains of 0 to 24 generated steps (own state and owned payloads handed on) on a context that knows its own address, ending in a value, a move-only value, a reference to the context's data or nothing; "
    "the trace of (step, state, context address), the result and the caller's own first step against an interpreter; an exception at a generated step; 2 to 5 parties running a chain of Beaver multiplications of "
    "additive sharings as steps over in-memory channels, in threads with generated delays, against the product. Non-trivial: at least 2 steps (chain, errors) or 2 multiplications (parties).";

struct Event {
  int step;
  u64 state;
  bool operator==(const Event& o) const { return step == o.step && state == o.state; }
};
struct Ctx {
  std::vector<Event> trace;
  std::vector<u64> ops;
  std::vector<u64> log;
  const void* self = this;
  int throw_at = -1, alive = 0;
  void visit(int step, u64 state) {
    VP_CHECK(self == this, "step ", step, " was given another context than the caller's");
    VP_CHECK(trace.size() < 100, "steps are repeated");
    trace.push_back({step, state});
    if (throw_at == step) throw std::out_of_range("thrown by step " + std::to_string(step));
  }
};
static u64 apply(u64 state, u64 op) {
  switch (op % 3) {
    case 0: return state + op;
    case 1: return state * (op | 1);
    default: return (state << 7 | state >> 57) ^ op;
  }
}
struct Counted {  // counts living steps
  Ctx* c;
  explicit Counted(Ctx* x) : c(x) { c->alive++; }
  Counted(const Counted& o) : c(o.c) { c->alive++; }
  Counted& operator=(const Counted&) = delete;
  ~Counted() { c->alive--; }
};
enum { VALUE, UNIQUE, LIST, NOTHING };
template <int R, bool M>
struct Last : scl::LastProtocolStep<Last<R, M>, Ctx> {
  Last(Ctx* c, u64 s, int i, int* r) : live(c), state(s), index(i), runs(r) {
    if (M) own = std::make_shared<u64>(s);
  }
  auto Finalize(Ctx& c) {
    if (M) VP_CHECK(own && *own == state, "the last step lost what it owned");
    c.visit(index, state);
    ++*runs;
    c.log.push_back(state);
    if constexpr (R == VALUE) return apply(state, 12345);
    if constexpr (R == UNIQUE) return std::make_unique<u64>(apply(state, 12345));
    if constexpr (R == LIST) return c.log;
  }
  Counted live;
  u64 state;
  int index;
  int* runs;
  std::shared_ptr<u64> own;
};
template <int N, int R, bool M>
struct Step : scl::ProtocolStep<Step<N, R, M>, Ctx> {
  Step(Ctx* c, u64 s, int i, int* r) : live(c), state(s), index(i), runs(r) {
    if (M) own = std::make_shared<u64>(s);
  }
  auto Run(Ctx& c) {
    if (M) VP_CHECK(own && *own == state, "a step lost what it owned");
    c.visit(index, state);
    ran++;
    ++*runs;
    c.log.push_back(state);
    u64 next = apply(state, c.ops[index]);
    if constexpr (N == 1) return Last<R, M>(live.c, next, index + 1, runs);
    else return Step<N - 1, R, M>(live.c, next, index + 1, runs);
  }
  Counted live;
  u64 state;
  int index, ran = 0;
  int* runs;
  std::shared_ptr<u64> own;
};
static constexpr int kMax = 24;
// runs the chain; result as a list of words
template <int N, int R, bool M>
static std::vector<u64> run(Ctx& c, u64 start, int* runs, int* first_ran) {
  using First = std::conditional_t<N == 0, Last<R, M>, Step<N ? N : 1, R, M>>;
  First first(&c, start, 0, runs);
  struct Note {
    First& f;
    int* out;
    ~Note() {
      if constexpr (N > 0) *out = f.ran;
    }
  } note{first, first_ran};
  if constexpr (R == VALUE) {
    return {(u64)scl::Evaluate(first, c)};
  } else if constexpr (R == UNIQUE) {
    auto p = scl::Evaluate(first, c);
    VP_CHECK(p, "an empty result");
    return {*p};
  } else if constexpr (R == LIST) {
    return scl::Evaluate(first, c);
  } else {
    scl::Evaluate(first, c);
    return {};
  }
}
using RunFn = std::vector<u64> (*)(Ctx&, u64, int*, int*);
template <int R, bool M, int... I>
static RunFn pick_n(int n, std::integer_sequence<int, I...>) {
  static const RunFn t[] = {run<I, R, M>...};
  return t[n];
}
template <bool M>
static RunFn pick_fn(int n, int r) {
  auto seq = std::make_integer_sequence<int, kMax + 1>();
  switch (r) {
    case VALUE: return pick_n<VALUE, M>(n, seq);
    case UNIQUE: return pick_n<UNIQUE, M>(n, seq);
    case LIST: return pick_n<LIST, M>(n, seq);
    default: return pick_n<NOTHING, M>(n, seq);
  }
}
static void chain_case(Case& c, bool error) {
  int n = (int)(c.chance(1, 3) ? c.range(0, 2) : c.range(0, kMax)), r = (int)c.range(0, 3);
  bool m = c.flip();
  u64 start = c.word();
  Ctx ctx;
  for (int i = 0; i < n; i++) ctx.ops.push_back(c.word());
  if (error) ctx.throw_at = (int)c.range(0, n);
  c.note(n, " steps, result kind ", r, m ? ", owning" : "", error ? ", exception at step " + std::to_string(ctx.throw_at) : "");
  c.interesting(n >= 2);
  c.label("result " + std::to_string(r));
  // interpreter
  std::vector<Event> trace;
  std::vector<u64> log, want;
  u64 s = start;
  for (int i = 0; i <= n; i++) {
    trace.push_back({i, s});
    if (i == ctx.throw_at) break;
    log.push_back(s);
    if (i < n) s = apply(s, ctx.ops[i]);
  }
  if (r == VALUE || r == UNIQUE) want = {apply(s, 12345)};
  if (r == LIST) want = log;
  int runs = 0, first = 0;
  std::vector<u64> got;
  bool thrown = false;
  auto fn = m ? pick_fn<true>(n, r) : pick_fn<false>(n, r);
  try {
    got = fn(ctx, start, &runs, &first);
  } catch (const std::out_of_range& e) {
    thrown = true;
    VP_CHECK(e.what() == "thrown by step " + std::to_string(ctx.throw_at), "another exception than the one thrown: ", e.what());
  }
  VP_CHECK(thrown == error, error ? "the exception of a step was swallowed" : "an exception nobody threw");
  VP_CHECK(ctx.trace == trace, "the steps ran ", ctx.trace.size(), " times, or with other states, instead of ", trace.size());
  VP_CHECK(ctx.log == log && runs == (int)log.size(), "steps completed ", runs, " times instead of ", log.size());
  if (n && ctx.throw_at != 0) VP_CHECK(first == 1, "the caller's first step ran ", first, " times");
  if (!error) VP_CHECK(got == want, "wrong result");
  VP_CHECK(ctx.alive == 0, ctx.alive, " steps still alive");
}
VP_ARM(chain, 4000, 40000, 60, 2) { chain_case(c, false); }
VP_ARM(errors, 2000, 20000, 60, 1) { chain_case(c, true); }

// n parties multiply additively shared values one after the other
using FF = scl::FF<61>;
struct Party {
  std::size_t id, n;
  scl::Network net;
  std::vector<FF> a, b, t, y;  // triple and factor shares, one per multiplication
  unsigned delay;
};
template <int N>
struct Open;
template <int N>
struct Mul : scl::ProtocolStep<Mul<N>, Party> {
  explicit Mul(FF x_) : x(x_) {}
  auto Run(Party& p);
  FF x;
};
struct Done : scl::LastProtocolStep<Done, Party> {
  explicit Done(FF x_) : x(x_) {}
  FF Finalize(Party& p) {
    for (std::size_t i = 0; i < p.n; i++) p.net.Party(i)->Send(x);
    FF r;
    for (std::size_t i = 0; i < p.n; i++) {
      FF s;
      p.net.Party(i)->Recv(s);
      r += s;
    }
    return r;
  }
  FF x;
};
template <int N>
struct Open : scl::ProtocolStep<Open<N>, Party> {
  explicit Open(FF) {}
  auto Run(Party& p) {
    FF d, e;
    for (std::size_t i = 0; i < p.n; i++) {
      scl::Vec<FF> v;
      p.net.Party(i)->Recv(v);
      VP_CHECK(v.Size() == 2, "received ", v.Size(), " elements instead of 2");
      d += v[0];
      e += v[1];
    }
    FF z = p.t[N - 1] + d * p.b[N - 1] + e * p.a[N - 1];
    if (p.id == 0) z += d * e;
    if constexpr (N == 1) return Done(z);
    else return Mul<N - 1>(z);
  }
};
template <int N>
auto Mul<N>::Run(Party& p) {
  if (p.delay) std::this_thread::sleep_for(std::chrono::microseconds(p.delay));
  scl::Vec<FF> v{x - p.a[N - 1], p.y[N - 1] - p.b[N - 1]};
  for (std::size_t i = 0; i < p.n; i++) p.net.Party(i)->Send(v);
  return Open<N>(FF());
}
template <int N>
static FF play(Party& p, FF x) {
  Mul<N> m(x);
  return scl::Evaluate(m, p);
}
template <int... I>
static FF play_n(int n, Party& p, FF x, std::integer_sequence<int, I...>) {
  static FF (*const t[])(Party&, FF) = {play<I + 1>...};
  return t[n - 1](p, x);
}
VP_ARM(parties, 300, 3000, 60, 1) {
  std::size_t n = c.range(2, 5);
  int m = (int)c.range(1, 6);
  Rng r = c.rng();
  bool delays = c.chance(1, 3);
  c.note(n, " parties, ", m, " multiplications", delays ? ", delays" : "");
  c.interesting(m >= 2);
  auto rnd = [&] {
    u64 w = r.next();
    return FF::Read(reinterpret_cast<const unsigned char*>(&w));
  };
  auto share = [&](FF s) {
    std::vector<FF> v(n);
    for (std::size_t i = 1; i < n; i++) {
      v[i] = rnd();
      s -= v[i];
    }
    v[0] = s;
    return v;
  };
  auto nets = scl::Network::CreateFullInMemory(n);
  std::vector<Party> ps(n);
  FF x = rnd(), want = x;
  auto xs = share(x);
  for (std::size_t i = 0; i < n; i++) {
    ps[i].id = i;
    ps[i].n = n;
    ps[i].net = nets[i];
    ps[i].delay = delays ? (unsigned)r.below(200) : 0;
  }
  for (int k = 0; k < m; k++) {
    FF a = rnd(), b = rnd(), y = rnd();
    auto as = share(a), bs = share(b), ts = share(a * b), ys = share(y);
    want *= y;
    for (std::size_t i = 0; i < n; i++) {
      ps[i].a.push_back(as[i]);
      ps[i].b.push_back(bs[i]);
      ps[i].t.push_back(ts[i]);
      ps[i].y.push_back(ys[i]);
    }
  }
  std::vector<FF> got(n);
  std::vector<std::string> err(n);
  std::vector<std::thread> th;
  for (std::size_t i = 0; i < n; i++)
    th.emplace_back([&, i] {
      try {
        got[i] = play_n(m, ps[i], xs[i], std::make_integer_sequence<int, 6>());
      } catch (const std::exception& e) {
        err[i] = e.what();
      }
    });
  for (auto& t : th) t.join();
  for (std::size_t i = 0; i < n; i++) {
    VP_CHECK(err[i].empty(), "party ", i, ": ", err[i]);
    VP_CHECK(got[i] == want, "party ", i, " obtained ", got[i].ToString(), " instead of ", want.ToString());
  }
}
