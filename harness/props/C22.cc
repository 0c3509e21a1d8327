// C22: typed messages over channels; hostile sizes.
// vp: case_timeout=60 fuzz=120
#include <scl/net/mem_channel.h>
#include <scl/net/tcp_channel.h>
#include <scl/net/threaded_sender.h>

#include "net_util.h"
#include "poly_model.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));
#endif
using namespace vp;
const char* vp::kRule =
    "round trips: 1..8 scalars, structs, plain vectors, algebraic vectors and matrices (empty, rectangular, over 61- and 127-bit and tiny fields and over rings mod 2^k) sent in one go over a byte-exact "
    "channel, an in-memory pair or a socket with short transfers and received into objects of other shapes (in the roundtrip_huge arm beyond 65536 elements, or sides beyond 256); hostile: generated headers (small, at and beyond the limit, and pairs of dimensions whose "
    "product wraps to a small number) with matching, short and excess bodies of arbitrary bytes, allocations watched. Non-trivial: at least two messages with content, or a header that claims at least one element.";

// Everything sent, in order; receiving more than there is fails like a closed connection.
class Tap final : public scl::Channel {
 public:
  Bytes data;
  std::size_t at = 0;
  void Close() override {}
  void Send(const unsigned char* p, std::size_t n) override { data.insert(data.end(), p, p + n); }
  void Recv(unsigned char* p, std::size_t n) override {
    if (n > data.size() - at) throw std::runtime_error("connection closed by remote");
    if (n) std::memcpy(p, data.data() + at, n);
    at += n;
  }
  using scl::Channel::Recv;
  using scl::Channel::Send;
};

#if defined(__SANITIZE_ADDRESS__) 
static std::atomic<bool> g_watch{false};
static std::atomic<std::size_t> g_largest{0};
static void on_malloc(const volatile void*, std::size_t n) {
  if (g_watch && n > g_largest) g_largest = n;
}
static void on_free(const volatile void*) {}
struct Watch {
  Watch() {
    static bool once = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true);
    (void)once;
    g_largest = 0;
    g_watch = true;
  }
  ~Watch() { g_watch = false; }
  std::size_t largest() const { return g_largest; }
};
#else
struct Watch {
  std::size_t largest() const { return 0; }
};
#endif

struct Pod {
  std::uint16_t a;
  double b;
  unsigned char c[3];
};

// One message: sends itself, and receives and compares
struct Msg {
  virtual ~Msg() = default;
  virtual void send(scl::Channel& ch) const = 0;
  virtual void recv(scl::Channel& ch, u64 junk) const = 0;
  virtual std::size_t size() const = 0;  // items
  virtual std::string show() const = 0;
};
template <typename T>
struct Scalar : Msg {
  T v;
  const char* nm;
  Scalar(T x, const char* n) : v(x), nm(n) {}
  void send(scl::Channel& ch) const override { ch.Send(v); }
  void recv(scl::Channel& ch, u64 junk) const override {
    T g;
    std::memset((void*)&g, (int)junk, sizeof g);
    ch.Recv(g);
    VP_CHECK(std::memcmp((const void*)&g, (const void*)&v, sizeof v) == 0, nm, " changed");
  }
  std::size_t size() const override { return 1; }
  std::string show() const override { return nm; }
};
template <typename T>
struct Plain : Msg {
  std::vector<T> v;
  explicit Plain(std::vector<T> x) : v(std::move(x)) {}
  void send(scl::Channel& ch) const override { ch.Send(v); }
  void recv(scl::Channel& ch, u64) const override {
    std::vector<T> g(v.size());
    ch.Recv(g);
    VP_CHECK(g == v, "vector of ", v.size(), " plain items changed");
  }
  std::size_t size() const override { return v.size(); }
  std::string show() const override { return "plain[" + std::to_string(v.size()) + "]"; }
};
template <typename T>
struct VecMsg : Msg {
  std::vector<u128> v;
  explicit VecMsg(std::vector<u128> x) : v(std::move(x)) {}
  void send(scl::Channel& ch) const override {
    scl::Vec<T> w(vec<T>(v));
    ch.Send(w);
  }
  void recv(scl::Channel& ch, u64 junk) const override {
    scl::Vec<T> g(junk % 5);
    ch.Recv(g);
    VP_CHECK(g.Size() == v.size(), "a vector of ", v.size(), " arrived with ", g.Size(), " elements");
    for (std::size_t i = 0; i < v.size(); i++) VP_CHECK(val(g[i]) == v[i], "element ", i, " of a vector of ", v.size(), " arrived as ", str(val(g[i])), " instead of ", str(v[i]));
  }
  std::size_t size() const override { return v.size(); }
  std::string show() const override { return "vec[" + std::to_string(v.size()) + "]"; }
};
template <typename T>
struct MatMsg : Msg {
  std::size_t r, c;
  std::vector<u128> v;
  MatMsg(std::size_t a, std::size_t b, std::vector<u128> x) : r(a), c(b), v(std::move(x)) {}
  void send(scl::Channel& ch) const override {
    if (!r) {
      scl::Mat<T> m;
      ch.Send(m);
      return;
    }
    scl::Mat<T> m(r, c);
    for (std::size_t i = 0; i < r; i++)
      for (std::size_t j = 0; j < c; j++) m(i, j) = mk<T>(v[i * c + j]);
    ch.Send(m);
  }
  void recv(scl::Channel& ch, u64 junk) const override {
    scl::Mat<T> g;
    if (junk % 3) g = scl::Mat<T>(junk % 3, 1 + junk % 2);
    ch.Recv(g);
    VP_CHECK(g.Rows() == r && g.Cols() == c, "a ", r, "x", c, " matrix arrived as ", g.Rows(), "x", g.Cols());
    for (std::size_t i = 0; i < r; i++)
      for (std::size_t j = 0; j < c; j++) VP_CHECK(val(g(i, j)) == v[i * c + j], "entry ", i, ",", j, " of a ", r, "x", c, " matrix changed");
  }
  std::size_t size() const override { return v.size(); }
  std::string show() const override { return "mat[" + std::to_string(r) + "x" + std::to_string(c) + "]"; }
};

template <typename T>
static std::unique_ptr<Msg> gen_algebraic(Case& c, std::size_t big) {
  auto elems = [&](std::size_t n) {
    std::vector<u128> v(n);
    Rng r = c.rng();
    for (auto& x : v) x = n > 400 ? ar<T>().red(r.next128()) : gen_elem<T>(c);
    return v;
  };
  if (c.flip()) {
    std::size_t n = c.chance(1, 6) ? 0 : c.range(1, c.chance(1, 4) ? big : 6);
    if (big > 60000) n = c.flip() ? c.range(65500, 65600) : c.range(250, 300);
    return std::make_unique<VecMsg<T>>(elems(n));
  }
  if (big > 60000) {
    std::size_t r = c.flip() ? c.range(250, 300) : c.range(16, 40), k = c.range(1, c.chance(1, 4) ? 256 : 20);
    if (c.flip()) std::swap(r, k);
    return std::make_unique<MatMsg<T>>(r, k, elems(r * k));
  }
  if (c.chance(1, 8)) return std::make_unique<MatMsg<T>>(0, 0, std::vector<u128>{});
  std::size_t r = c.range(1, c.chance(1, 4) ? big / 8 + 1 : 4), k = c.range(1, c.chance(1, 4) ? 12 : 4);
  return std::make_unique<MatMsg<T>>(r, k, elems(r * k));
}
static std::unique_ptr<Msg> gen_msg(Case& c, std::size_t big) {
  switch (c.weighted({2, 2, 4, 3, 2, 2, 2})) {
    case 0:
      switch (c.range(0, 6)) {
        case 0: return std::make_unique<Scalar<unsigned char>>((unsigned char)c.range(0, 255), "byte");
        case 1: return std::make_unique<Scalar<int>>((int)c.word(), "int");
        case 2: return std::make_unique<Scalar<std::size_t>>((std::size_t)c.word(), "size");
        case 3: return std::make_unique<Scalar<bool>>(c.flip(), "bool");
        case 4: return std::make_unique<Scalar<double>>((double)c.word() / 3, "double");
        case 5: {
          Pod p;
          std::memset(&p, 0, sizeof p);
          p.a = (std::uint16_t)c.word();
          p.b = (double)c.range(0, 1000);
          p.c[1] = 9;
          return std::make_unique<Scalar<Pod>>(p, "struct");
        }
        default: return std::make_unique<Scalar<F61>>(mk<F61>(gen_elem<F61>(c)), "field element");
      }
    case 1: {
      std::size_t n = c.chance(1, 6) ? 0 : c.range(1, c.chance(1, 4) ? big : 6);
      Rng r = c.rng();
      if (c.flip()) {
        std::vector<std::uint16_t> v(n);
        for (auto& x : v) x = (std::uint16_t)r.next();
        return std::make_unique<Plain<std::uint16_t>>(v);
      }
      std::vector<F127> v(n);
      for (auto& x : v) x = mk<F127>(r.next128() % P127);
      return std::make_unique<Plain<F127>>(v);
    }
    case 2: return gen_algebraic<F61>(c, big);
    case 3: return gen_algebraic<F127>(c, big);
    case 4: return gen_algebraic<Tiny<7>>(c, big);
    case 5: return gen_algebraic<scl::Z2k<62>>(c, big);
    default: return gen_algebraic<scl::Z2k<100>>(c, big);
  }
}

static void roundtrip(Case& c, bool huge) {
  watch_for_deadlock(12);
  std::size_t kind = c.weighted({5, 2, 1, 1});
  std::size_t big = huge ? 70000 : kind >= 2 ? 4000 : 200;
  std::vector<std::unique_ptr<Msg>> ms;
  std::size_t n = 1 + c.range(0, huge ? 2 : 7), content = 0;
  for (std::size_t i = 0; i < n; i++) {
    ms.push_back(gen_msg(c, big));
    c.note(ms.back()->show());
    content += ms.back()->size() > 0;
  }
  c.interesting(content >= 2);
  u64 junk = c.word();
  if (kind == 0) {
    c.label("byte-exact");
    Tap tap;
    std::vector<std::size_t> ends;
    for (auto& m : ms) {
      m->send(tap);
      ends.push_back(tap.data.size());
    }
    for (std::size_t i = 0; i < n; i++) {
      ms[i]->recv(tap, junk + i);
      VP_CHECK(tap.at == ends[i], ms[i]->show(), " was sent as ", ends[i] - (i ? ends[i - 1] : 0), " bytes but receiving it consumed ", tap.at - (i ? ends[i - 1] : 0));
    }
  } else if (kind == 1) {
    c.label("in memory");
    auto p = scl::InMemoryChannel::CreatePaired();
    for (auto& m : ms) m->send(*p[0]);
    for (std::size_t i = 0; i < n; i++) ms[i]->recv(*p[1], junk + i);
    unsigned char x = 77, y = 0;
    p[0]->Send(&x, 1);
    p[1]->Recv(&y, 1);
    VP_CHECK(x == y, "bytes left over");
  } else {
    c.label("socket");
    struct U {
      ~U() { chop_max = 0; }
    } u;
    chop_seed = c.word();
    chop_max = 1 + (unsigned)c.range(0, 500);
    auto fd = unix_pair();
    std::shared_ptr<scl::Channel> a, b = std::make_shared<scl::TcpChannel>(fd.second);
    if (kind == 3) a = std::make_shared<scl::ThreadedSenderChannel>(fd.first);
    else a = std::make_shared<scl::TcpChannel>(fd.first);
    Threads t;
    t.go([&] {
      for (auto& m : ms) m->send(*a);
      a->Close();
    });
    t.go([&] {
      for (std::size_t i = 0; i < n; i++) ms[i]->recv(*b, junk + i);
      unsigned char y = 0;
      VP_CHECK(throws([&] { b->Recv(&y, 1); }), "bytes left over");
    });
    t.join();
  }
}
VP_ARM(roundtrip, 2500, 40000, 400, 4) { roundtrip(c, false); }
VP_ARM(roundtrip_huge, 20, 500, 400, 1) { roundtrip(c, true); }

// ---------------------------------------------------------------- hostile peers
static std::uint32_t inverse32(std::uint32_t a) {  // of an odd number mod 2^32
  std::uint32_t x = a;
  for (int i = 0; i < 5; i++) x *= 2 - a * x;
  return x;
}
static const std::uint64_t kLimit = std::uint64_t(1) << 25;
static std::uint32_t size32(Case& c) {
  switch (c.weighted({6, 2, 2, 2, 1})) {
    case 0: return (std::uint32_t)c.range(0, 12);
    case 1: return (std::uint32_t)((u64(1) << c.range(0, 31)) + c.range(0, 2) - 1);
    case 2: return ~std::uint32_t(0) - (std::uint32_t)c.range(0, 3);
    case 3: return (std::uint32_t)(kLimit + 1 + c.range(0, 3));
    default: return (std::uint32_t)c.word();
  }
}
static void put32(Bytes& b, std::uint32_t v) {
  unsigned char p[4];
  std::memcpy(p, &v, 4);
  b.insert(b.end(), p, p + 4);
}
static void body(Case& c, Bytes& b, std::size_t n) {
  std::size_t k = c.weighted({3, 1, 1}) == 0 ? 0 : c.range(0, 2);
  Bytes r = c.bytes(n);
  if (k == 1) std::fill(r.begin(), r.end(), 0xFF);  // non-canonical encodings
  if (k == 2)
    for (auto& x : r) x = x & 1 ? 0xFF : 0;
  b.insert(b.end(), r.begin(), r.end());
}
template <typename T>
static void check_allocation(const Watch& w, u64 claimed) {
  std::size_t bound = (std::size_t)kLimit * std::max(sizeof(T), T::ByteSize()) * 5 / 2 + 65536;
  VP_CHECK(w.largest() <= bound, w.largest(), " bytes were allocated in one piece for a claim of ", claimed, " elements");
}
template <typename T>
static void hostile_vec(Case& c) {
  std::uint32_t n = size32(c);
  if (n > 100000 && n <= kLimit && !c.chance(1, T::ByteSize() > 1 ? 60 : 8)) n %= 3000;
  std::size_t have = n <= 100000 ? (std::size_t)n * T::ByteSize() : c.range(0, 64);
  std::size_t cut = c.weighted({4, 2, 2});
  std::size_t len = cut == 0 ? have : cut == 1 ? (have ? c.range(0, have - 1) : 0) : have + c.range(1, 20);
  Tap tap;
  put32(tap.data, n);
  body(c, tap.data, len);
  c.note(T::Name(), " vector claiming ", n, " elements with ", len, " bytes");
  c.interesting(n > 0);
  scl::Vec<T> v(c.range(0, 3));
  bool threw;
  {
    Watch w;
    threw = throws([&] { tap.Recv(v); });
    check_allocation<T>(w, n);
  }
  c.label(threw ? "refused" : "accepted");
  if (threw) {
    VP_CHECK(n > kLimit || len < (u64)n * T::ByteSize(), "a well-formed vector of ", n, " elements was refused");
    return;
  }
  VP_CHECK(n <= kLimit, "a vector of ", n, " elements, beyond the limit, was accepted");
  VP_CHECK(v.Size() == n, "a claim of ", n, " elements gave a vector of ", v.Size());
  VP_CHECK(tap.at == 4 + (u64)n * T::ByteSize(), "receiving consumed ", tap.at, " bytes of ", tap.data.size());
  for (std::size_t i = 0; i < n; i++) VP_CHECK(v[i] == T::Read(tap.data.data() + 4 + i * T::ByteSize()), "element ", i, " is not made of the bytes received");
}
template <typename T>
static void hostile_mat(Case& c) {
  std::uint32_t r, k;
  switch (c.weighted({4, 3, 3, 2, 2})) {
    case 0:
      r = size32(c);
      k = size32(c);
      break;
    case 1: {  // the product wraps to a small odd number
      r = (std::uint32_t)c.word() | 1;
      if (r == 1) r = 3;
      std::uint32_t want = (std::uint32_t)c.range(1, 9);
      k = inverse32(r) * want;
      break;
    }
    case 2: {  // powers of two: the product wraps to zero or a small multiple
      unsigned a = (unsigned)c.range(1, 31);
      r = 1u << a;
      k = (1u << (32 - a)) * (std::uint32_t)c.range(1, 3) + (std::uint32_t)c.range(0, 1);
      if (c.flip()) std::swap(r, k);
      break;
    }
    case 3: {  // around the limit
      r = 1u << c.range(0, 25);
      k = (std::uint32_t)(kLimit / r) + (std::uint32_t)c.range(0, 2) - 1;
      break;
    }
    default:
      r = (std::uint32_t)c.range(0, 1) * (std::uint32_t)c.range(0, 5);
      k = size32(c);
      if (c.flip()) std::swap(r, k);
  }
  u64 prod = (u64)r * k;
  if (prod > 100000 && prod <= kLimit && !c.chance(1, T::ByteSize() > 1 ? 60 : 8)) {
    r %= 50;
    k %= 50;
    prod = (u64)r * k;
  }
  std::size_t have = prod <= 100000 ? (std::size_t)prod * T::ByteSize() : c.range(0, 200);
  std::size_t cut = c.weighted({4, 2, 2});
  std::size_t len = cut == 0 ? have : cut == 1 ? (have ? c.range(0, have - 1) : 0) : have + c.range(1, 20);
  Tap tap;
  put32(tap.data, r);
  put32(tap.data, k);
  body(c, tap.data, len);
  c.note(T::Name(), " matrix claiming ", r, "x", k, " with ", len, " bytes");
  c.interesting(prod > 0);
  if (prod > 0xFFFFFFFFull) c.label("product wraps");
  scl::Mat<T> m;
  bool threw;
  {
    Watch w;
    threw = throws([&] { tap.Recv(m); });
    check_allocation<T>(w, prod);
  }
  c.label(threw ? "refused" : "accepted");
  if (threw) {
    VP_CHECK(prod > kLimit || len < prod * T::ByteSize() || !prod, "a well-formed ", r, "x", k, " matrix was refused");
    return;
  }
  VP_CHECK(prod <= kLimit, "a ", r, "x", k, " matrix, beyond the limit, was accepted");
  VP_CHECK(m.Rows() == r && m.Cols() == k, "a claim of ", r, "x", k, " gave a ", m.Rows(), "x", m.Cols(), " matrix");
  VP_CHECK(tap.at == 8 + prod * T::ByteSize(), "receiving consumed ", tap.at, " bytes of ", tap.data.size());
  for (std::size_t i = 0; i < prod; i++)
    VP_CHECK(m(i / k, i % k) == T::Read(tap.data.data() + 8 + i * T::ByteSize()), "entry ", i, " is not made of the bytes received");
}
VP_ARM_FUZZ(hostile_vectors, 4000, 60000, 40, 3) {
  switch (c.weighted({3, 2, 2, 1})) {
    case 0: hostile_vec<F61>(c); break;
    case 1: hostile_vec<F127>(c); break;
    case 2: hostile_vec<Tiny<7>>(c); break;
    default: hostile_vec<scl::Z2k<100>>(c);
  }
}
VP_ARM_FUZZ(hostile_matrices, 5000, 80000, 40, 4) {
  switch (c.weighted({3, 2, 2, 1})) {
    case 0: hostile_mat<F61>(c); break;
    case 1: hostile_mat<F127>(c); break;
    case 2: hostile_mat<Tiny<7>>(c); break;
    default: hostile_mat<scl::Z2k<100>>(c);
  }
}
// A vector or matrix of exactly the largest size goes through (tiny elements: 32 MB)
VP_ARM(at_limit, 1, 3, 20, 1) {
  using T = Tiny<7>;
  std::size_t n = (std::size_t)kLimit;
  bool mat = c.flip();
  unsigned a = (unsigned)c.range(0, 25);
  Tap tap;
  if (mat) {
    put32(tap.data, 1u << a);
    put32(tap.data, 1u << (25 - a));
  } else
    put32(tap.data, (std::uint32_t)n);
  std::size_t head = tap.data.size();
  tap.data.resize(head + n);
  std::size_t at = c.range(0, n - 1);
  tap.data[head + at] = 5;
  c.note(mat ? "matrix" : "vector", " of 2^25 elements");
  c.interesting();
  if (mat) {
    scl::Mat<T> m;
    tap.Recv(m);
    VP_CHECK(m.Rows() == (1u << a) && m.Cols() == (1u << (25 - a)), "shape");
    VP_CHECK(val(m(at / m.Cols(), at % m.Cols())) == 5, "content");
  } else {
    scl::Vec<T> v;
    tap.Recv(v);
    VP_CHECK(v.Size() == n && val(v[at]) == 5, "content");
  }
  VP_CHECK(tap.at == tap.data.size(), "not all consumed");
}
