// C20: in-memory channels.
// vp: flavours=asan,tsan arms_tsan=threads,deque_threads trust_oracle=1 case_timeout=40
#include <scl/net/mem_channel.h>
#include <scl/net/shared_deque.h>

#include "net_util.h"
using namespace vp;
const char* vp::kRule =
    "stateful: up to 60 sends, receives and flushes of generated sizes (zero, one, larger than the messages, up to 4000 bytes) on both ends of a pair, a self-connected "
    "channel or channels sharing buffers in a ring, against a byte queue per direction; concurrent: a writer and a reader thread per direction with independent chunking and delays, "
    "receives started before the data is sent and checked not to return early; the underlying shared queue against a model. Non-trivial: at least 3 messages and a receive that "
    "splits or joins messages (stateful), or at least 4 chunks on each side (concurrent).";

using Ch = scl::InMemoryChannel;

static std::size_t gen_size(Case& c) {
  switch (c.weighted({2, 6, 3, 2})) {
    case 0: return c.range(0, 1);
    case 1: return c.range(1, 20);
    case 2: return c.range(16, 300);
    default: return c.range(1, 4000);
  }
}
static const unsigned char* ptr(const Bytes& b) { return b.data(); }

VP_ARM(stateful, 4000, 40000, 400, 4) {
  // ends[e]: reads queue in, writes queue out
  struct End {
    std::shared_ptr<Ch> ch;
    std::size_t in, out;
  };
  std::vector<End> ends;
  std::size_t shape = c.weighted({5, 2, 2, 1}), nq;
  if (shape == 0) {
    auto p = Ch::CreatePaired();
    ends = {{p[0], 0, 1}, {p[1], 1, 0}};
    nq = 2;
    c.label("pair");
  } else if (shape == 1) {
    ends = {{Ch::CreateSelfConnecting(), 0, 0}};
    nq = 1;
    c.label("self");
  } else if (shape == 2) {  // two pairs and a self channel at once: nothing leaks between them
    auto p = Ch::CreatePaired(), q = Ch::CreatePaired();
    ends = {{p[0], 0, 1}, {p[1], 1, 0}, {q[0], 2, 3}, {q[1], 3, 2}, {Ch::CreateSelfConnecting(), 4, 4}};
    nq = 5;
    c.label("several");
  } else {  // ring of shared buffers
    nq = c.range(2, 4);
    using B = scl::details::SharedDeque<std::vector<unsigned char>>;
    std::vector<std::shared_ptr<B>> b;
    for (std::size_t i = 0; i < nq; i++) b.push_back(std::make_shared<B>());
    for (std::size_t i = 0; i < nq; i++) ends.push_back({std::make_shared<Ch>(b[i], b[(i + 1) % nq]), i, (i + 1) % nq});
    c.label("ring");
  }
  std::vector<Bytes> q(nq);
  std::vector<std::vector<std::size_t>> bounds(nq);  // sizes of the pending messages, the first possibly partly read
  unsigned char ctr = (unsigned char)c.range(0, 255);
  std::size_t steps = 3 + c.range(0, 57), sends = 0;
  bool split = false;
  auto recv = [&](End& e, std::size_t n) {
    Bytes got(n + 2, 0xEE);
    e.ch->Recv(got.data() + 1, n);
    VP_CHECK(got[0] == 0xEE && got[n + 1] == 0xEE, "bytes outside the buffer written");
    for (std::size_t i = 0; i < n; i++) VP_CHECK(got[i + 1] == q[e.in][i], "byte ", i, " of a ", n, " byte receive is ", (int)got[i + 1], " expected ", (int)q[e.in][i]);
    q[e.in].erase(q[e.in].begin(), q[e.in].begin() + (long)n);
    auto& b = bounds[e.in];
    std::size_t left = n, used = 0;
    while (left) {
      used++;
      if (b[0] <= left) {
        left -= b[0];
        b.erase(b.begin());
      } else {
        b[0] -= left;
        left = 0;
        split = true;
      }
    }
    split |= used > 1;
  };
  for (std::size_t s = 0; s < steps; s++) {
    auto& e = ends[c.range(0, ends.size() - 1)];
    switch (c.weighted({10, 10, 1, 3})) {
      case 0: {
        std::size_t n = gen_size(c);
        Bytes b(n);
        for (auto& x : b) x = ctr = (unsigned char)(ctr * 5 + 17 + (n & 2));
        c.note(&e - &ends[0], " sends ", n);
        e.ch->Send(ptr(b), n);
        if (n) bounds[e.out].push_back(n);
        q[e.out].insert(q[e.out].end(), b.begin(), b.end());
        sends++;
        break;
      }
      case 1: {
        std::size_t n = std::min(q[e.in].size(), gen_size(c));
        c.note(&e - &ends[0], " receives ", n);
        recv(e, n);
        break;
      }
      case 2:
        c.note(&e - &ends[0], " flushes");
        e.ch->Flush();
        if (!q[e.in].empty()) c.label("flush with data");
        q[e.in].clear();
        bounds[e.in].clear();
        break;
      case 3: {
        c.note(&e - &ends[0], " receives all ", q[e.in].size());
        recv(e, q[e.in].size());
        break;
      }
    }
  }
  c.interesting(sends >= 3 && split);
  for (auto& e : ends) {  // drain; then a marker must come through first
    recv(e, q[e.in].size());
    unsigned char m = 0x5A, g = 0;
    for (auto& o : ends)
      if (o.out == e.in) o.ch->Send(&m, 1);
    e.ch->Recv(&g, 1);
    VP_CHECK(g == m, "a drained channel delivered something else");
  }
}

// Writers and readers with their own chunking
VP_ARM(threads, 250, 4000, 120, 3) {
  watch_for_deadlock(10);
  std::size_t shape = c.weighted({3, 1});
  std::vector<std::shared_ptr<Ch>> ch;
  if (shape == 0) {
    auto p = Ch::CreatePaired();
    ch = {p[0], p[1]};
  } else
    ch = {Ch::CreateSelfConnecting()};
  std::size_t dirs = shape == 0 ? c.range(1, 2) : 1;
  unsigned level = (unsigned)c.range(0, 2);
  struct Dir {
    Bytes data;
    std::vector<std::size_t> out, in;
    u64 ps, pr;
    std::atomic<std::size_t> sent{0};  // bytes whose sending has begun
  };
  std::vector<std::unique_ptr<Dir>> ds;
  std::size_t minchunks = ~std::size_t(0);
  for (std::size_t d = 0; d < dirs; d++) {
    auto D = std::make_unique<Dir>();
    D->data = c.bytes(1 + c.range(0, 3000));
    auto cut = [&](std::vector<std::size_t>& v) {
      std::size_t mx = c.pick(std::vector<std::size_t>{5, 40, 400, 3000}), left = D->data.size();
      Rng r = c.rng();
      while (left) {
        std::size_t k = std::min<std::size_t>(left, r.below(mx + 1));
        v.push_back(k);
        left -= k;
      }
      minchunks = std::min(minchunks, v.size());
    };
    cut(D->out);
    cut(D->in);
    D->ps = c.word();
    D->pr = c.word();
    c.note("direction ", d, ": ", D->data.size(), " bytes, ", D->out.size(), " sends, ", D->in.size(), " receives, delays ", level);
    ds.push_back(std::move(D));
  }
  c.interesting(minchunks >= 4);
  Threads t;
  for (std::size_t d = 0; d < dirs; d++) {
    Dir& D = *ds[d];
    auto snd = ch[d % ch.size()], rcv = ch[(d + 1) % ch.size()];
    t.go([&D, snd, level] {
      Pace pace(D.ps, level);
      std::size_t at = 0;
      for (auto k : D.out) {
        pace();
        D.sent.store(at + k);
        snd->Send(D.data.data() + at, k);
        at += k;
      }
    });
    t.go([&D, rcv, level] {
      Pace pace(D.pr, level);
      std::size_t at = 0;
      Bytes buf(D.data.size());
      for (auto k : D.in) {
        pace();
        rcv->Recv(buf.data() + at, k);
        at += k;
        VP_CHECK(D.sent.load() >= at, "a receive returned ", at, " bytes when only ", D.sent.load(), " had been sent");
      }
      VP_CHECK(buf == D.data, "received bytes differ from those sent");
    });
  }
  t.join();
}

VP_ARM(deque, 1500, 20000, 200, 1) {
  scl::details::SharedDeque<std::string> q;
  std::deque<std::string> m;
  std::size_t steps = 2 + c.range(0, 40);
  for (std::size_t s = 0; s < steps; s++) {
    switch (m.empty() ? c.range(0, 1) : c.range(0, 5)) {
      case 0: {
        std::string x = "item " + std::to_string(c.range(0, 99999)) + " with some length";
        q.PushBack(x);
        m.push_back(x);
        VP_CHECK(x == m.back(), "pushing a copy changed the original");
        break;
      }
      case 1: {
        std::string x = "moved " + std::to_string(c.range(0, 99999)) + " with some length";
        m.push_back(x);
        q.PushBack(std::move(x));
        break;
      }
      case 2:
        VP_CHECK(q.Pop() == m.front(), "Pop");
        m.pop_front();
        break;
      case 3: VP_CHECK(q.Peek() == m.front(), "Peek"); break;
      case 4:
        q.PopFront();
        m.pop_front();
        break;
      case 5: VP_CHECK(q.Size() == m.size(), "Size ", q.Size(), " expected ", m.size()); break;
    }
  }
  c.note(steps, " operations, ", m.size(), " left");
  c.interesting(steps > 8);
  VP_CHECK(q.Size() == m.size(), "Size at the end");
  for (auto& x : m) VP_CHECK(q.Pop() == x, "order");
}

// more messages pending than any small counter holds
VP_ARM(backlog, 1, 12, 30, 0.7) {
  auto p = Ch::CreatePaired();
  if (c.chance(1, 4)) p[1] = p[0] = Ch::CreateSelfConnecting();
  std::size_t n = 65000 + c.range(0, 3000), first = c.range(0, 300);
  Rng r = c.rng();
  c.note(n, " messages pending");
  c.interesting();
  std::deque<unsigned char> q;
  for (std::size_t i = 0; i < n; i++) {
    unsigned char b[3] = {(unsigned char)r.next(), (unsigned char)i, (unsigned char)(i >> 8)};
    std::size_t k = i % 97 == 0 ? 0 : 1 + i % 3;
    p[0]->Send(b, k);
    q.insert(q.end(), b, b + k);
  }
  std::size_t left = q.size();
  while (left) {
    std::size_t k = std::min<std::size_t>(left, left % 1000 < first ? 1 : 1 + r.next() % 5000);
    std::vector<unsigned char> g(k);
    p[1]->Recv(g.data(), k);
    VP_CHECK(std::equal(g.begin(), g.end(), q.begin()), "with ", left, " bytes pending something else was received");
    q.erase(q.begin(), q.begin() + (long)k);
    left -= k;
  }
  unsigned char x = 7;
  p[0]->Send(&x, 1);
  p[1]->Flush();
  x = 9;
  p[0]->Send(&x, 1);
  x = 0;
  p[1]->Recv(&x, 1);
  VP_CHECK(x == 9, "flushing after a long backlog");
}

// several producers and consumers: every item once, each producer's items in order
VP_ARM(deque_threads, 120, 2000, 60, 1) {
  watch_for_deadlock(10);
  std::size_t np = c.range(1, 3), nc = c.range(1, 3), each = c.range(1, 40) * nc;
  unsigned level = (unsigned)c.range(0, 2);
  scl::details::SharedDeque<std::pair<std::size_t, std::size_t>> q;
  std::vector<std::vector<std::pair<std::size_t, std::size_t>>> got(nc);
  std::vector<u64> seeds;
  for (std::size_t i = 0; i < np + nc; i++) seeds.push_back(c.word());
  bool peek = nc == 1 && c.flip();
  c.note(np, " producers, ", nc, " consumers, ", each, " items each, delays ", level, peek ? ", peek and pop" : "");
  c.interesting(each > 4);
  {
    Threads t;
    for (std::size_t p = 0; p < np; p++)
      t.go([&, p] {
        Pace pace(seeds[p], level);
        for (std::size_t i = 0; i < each; i++) {
          pace();
          q.PushBack({p, i});
        }
      });
    for (std::size_t k = 0; k < nc; k++)
      t.go([&, k] {
        Pace pace(seeds[np + k], level);
        for (std::size_t i = 0; i < np * each / nc; i++) {
          pace();
          if (peek) {
            got[k].push_back(q.Peek());
            q.PopFront();
          } else
            got[k].push_back(q.Pop());
        }
      });
  }
  VP_CHECK(q.Size() == 0, "items left");
  std::set<std::pair<std::size_t, std::size_t>> all;
  for (auto& g : got) {
    std::map<std::size_t, std::size_t> last;
    for (auto& x : g) {
      VP_CHECK(all.insert(x).second, "an item was delivered twice");
      VP_CHECK(!last.count(x.first) || last[x.first] < x.second, "items of one producer out of order");
      last[x.first] = x.second;
    }
  }
  VP_CHECK(all.size() == np * each, "items lost");
}
