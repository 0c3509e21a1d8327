// C24: network configurations.
// vp: fuzz=90
#include <scl/net/config.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>

#include <optional>

#include "vp.h"
using namespace vp;
const char* vp::kRule =
    "configuration files of 1..12 lines (some of 250 to 300) in generated order with generated hosts and ports, with and without final newline, looked up through Parties, GetParty and ToString; the same after one of 18 kinds of "
    "damage (missing fields, unparsable, negative, too large, wrapping or duplicate ids, own id out of range, empty or missing file); localhost configurations; configurations made from lists; "
    "arbitrary texts over the file's alphabet, accepted only if every line that is not blank states exactly what was loaded. Non-trivial: two or more parties, or damage.";

struct Line {
  u64 id;
  std::string host;
  int port;
};
static std::string tmp_path() {
  static std::string p = "config-" + std::to_string(getpid()) + ".txt";  // in the worker's scratch directory
  return p;
}
static std::string scratch() {
  const char* d = getenv("VP_SCRATCH");
  return (d ? std::string(d) + "/" : std::string("/tmp/")) + tmp_path();
}
struct File {
  std::string path = scratch();
  explicit File(const std::string& text) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f << text;
  }
  ~File() { ::unlink(path.c_str()); }
};
static std::string gen_host(Case& c) {
  switch (c.weighted({4, 2, 1})) {
    case 0: return std::to_string(c.range(0, 255)) + "." + std::to_string(c.range(0, 255)) + "." + std::to_string(c.range(0, 255)) + "." + std::to_string(c.range(0, 255));
    case 1: return c.pick(std::vector<std::string>{"localhost", "node-3.example.org", "a", "host with space", "127.0.0.1"});
    default: return "h" + std::string(c.range(0, 300), 'x');
  }
}
static int gen_port(Case& c) { return c.flip() ? (int)c.range(1, 65535) : c.pick(std::vector<int>{0, 1, 80, 9900, 65535}); }
static std::vector<Line> gen_lines(Case& c, std::size_t n) {
  auto p = c.chance(1, 3) ? std::vector<std::size_t>() : c.perm(n);
  std::vector<Line> v;
  for (std::size_t i = 0; i < n; i++) v.push_back({p.empty() ? i : p[i], gen_host(c), gen_port(c)});
  return v;
}
static std::string show(const Line& l) { return std::to_string(l.id) + "," + l.host + "," + std::to_string(l.port); }
static void check_config(const scl::NetworkConfig& cfg, unsigned id, const std::vector<Line>& ls) {
  VP_CHECK(cfg.Id() == id, "own id is ", cfg.Id(), " instead of ", id);
  VP_CHECK(cfg.NetworkSize() == ls.size(), "size is ", cfg.NetworkSize(), " instead of ", ls.size());
  auto ps = cfg.Parties();
  VP_CHECK(ps.size() == ls.size(), "number of parties");
  std::map<u64, const Line*> by;
  for (auto& l : ls) by[l.id] = &l;
  std::set<u64> seen;
  for (auto& p : ps) {
    VP_CHECK(by.count(p.id) && seen.insert(p.id).second, "party ", p.id, " is listed but not in the input, or twice");
    VP_CHECK(p.hostname == by[p.id]->host && p.port == by[p.id]->port, "party ", p.id, " is listed as ", p.hostname, " ", p.port, " instead of ", by[p.id]->host, " ", by[p.id]->port);
  }
  for (auto& l : ls) {
    auto p = cfg.GetParty((unsigned)l.id);
    VP_CHECK(p.id == l.id && p.hostname == l.host && p.port == l.port, "looking up party ", l.id, " gives party ", p.id, " at ", p.hostname, " ", p.port, " instead of ", l.host, " ", l.port);
  }
  for (u64 absent : {(u64)ls.size(), (u64)ls.size() + 1, (u64)~0u, (u64)1 << 31}) {
    bool refused = false;
    try {
      cfg.GetParty((unsigned)absent);
    } catch (const std::exception&) {
      refused = true;
    }
    VP_CHECK(refused, "looking up party ", absent, " of ", ls.size(), " gives something");
  }
  std::string s = "[id=" + std::to_string(id);
  for (auto& p : ps) s += ", {" + std::to_string(p.id) + ", " + p.hostname + ", " + std::to_string(p.port) + "}";
  s += "]";
  VP_CHECK(cfg.ToString() == s, "printed as ", cfg.ToString(), " instead of ", s);
}

VP_ARM(files, 9000, 40000, 120, 3) {
  std::size_t n = c.chance(1, 60) ? c.range(250, 300) : 1 + c.range(0, c.chance(1, 3) ? 11 : 4);
  auto ls = gen_lines(c, n);
  if (n >= 250) {
    std::size_t by = c.range(0, n - 1);
    for (std::size_t i = 0; i < n; i++) ls[i] = {(i * 7 + by) % n, "h" + std::to_string(i * i), (int)(9000 + i)};
    while (n % 7 == 0) ls.pop_back(), n--;
    for (std::size_t i = 0; i < n; i++) ls[i].id = (i * 7 + by) % n;
  }
  std::string text;
  for (std::size_t i = 0; i < n; i++) {
    c.note(show(ls[i]).substr(0, 60));
    text += show(ls[i]) + (i + 1 < n || c.flip() ? "\n" : "");
  }
  unsigned id = (unsigned)c.range(0, n - 1);
  c.interesting(n >= 2);
  bool sorted = true;
  for (std::size_t i = 0; i < n; i++) sorted &= ls[i].id == i;
  c.label(sorted ? "ids in order" : "ids out of order");
  File f(text);
  check_config(scl::NetworkConfig::Load(id, f.path), id, ls);
}

VP_ARM(damaged, 10000, 60000, 120, 3) {
  std::size_t n = 1 + c.range(0, 5), k = c.range(0, 17);
  auto ls = gen_lines(c, n);
  std::vector<std::string> t;
  for (auto& l : ls) t.push_back(show(l));
  unsigned id = (unsigned)c.range(0, n - 1);
  std::size_t at = c.range(0, n - 1);
  auto& x = ls[at];
  std::string rest = "," + x.host + "," + std::to_string(x.port), text;
  const char* what = "";
  bool missing = false, empty = false;
  switch (k) {
    case 0: what = "no comma"; t[at] = std::to_string(x.id) + " " + x.host; break;
    case 1: what = "one comma"; t[at] = std::to_string(x.id) + "," + x.host; break;
    case 2: what = "id not a number"; t[at] = c.pick(std::vector<std::string>{"x", "", " ", "-", "+", ".1", "id0"}) + rest; break;
    case 3: what = "port not a number"; t[at] = std::to_string(x.id) + "," + x.host + "," + c.pick(std::vector<std::string>{"", "x80", " ", "-", "port"}); break;
    case 4: what = "id equal to or beyond the number of parties"; t[at] = std::to_string(n + c.range(0, 3)) + rest; break;
    case 5: what = "id that wraps to a valid one at 32 bits"; t[at] = std::to_string((u64(1) << 32) * c.range(1, 5) + x.id) + rest; break;
    case 6: what = "id beyond 64 bits"; t[at] = str((u128(1) << 64) * c.range(1, 3) + x.id) + rest; break;
    case 7: what = "negative id"; t[at] = "-" + std::to_string(1 + c.range(0, 5)) + rest; break;
    case 8:  // what a 32 or 64-bit negation would turn into a valid id
      what = "negative id that wraps to a valid one";
      t[at] = "-" + (c.flip() ? str((u128(1) << 64) - x.id) : std::to_string((u64(1) << 32) - x.id)) + rest;
      if (x.id == 0) t[at] = "-1" + rest;
      break;
    case 9:
      what = "duplicate id";
      if (n < 2) c.discard();
      t[at] = std::to_string(ls[(at + 1 + c.range(0, n - 2)) % n].id) + rest;
      break;
    case 10: what = "own id out of range"; id = (unsigned)(n + c.pick(std::vector<u64>{0, 1, 7, 4294967295ull - n})); break;
    case 11: what = "empty file"; empty = true; id = 0; break;
    case 12: what = "missing file"; missing = true; break;
    case 13: what = "port beyond the range of int"; t[at] = std::to_string(x.id) + "," + x.host + "," + c.pick(std::vector<std::string>{"2147483648", "99999999999999999999", "-2147483649"}); break;
    case 15: what = "port outside 0..65535"; t[at] = std::to_string(x.id) + "," + x.host + "," + std::to_string(c.flip() ? 65536 * (i64)c.range(1, 5) + x.port : -(i64)c.range(1, 70000)); break;
    case 16: what = "port followed by something"; t[at] += c.pick(std::vector<std::string>{"x", ".5", "e2", " 1", ";", "#", "-1", ":80"}); break;
    case 17: what = "id followed by something"; t[at] = std::to_string(x.id) + c.pick(std::vector<std::string>{"x", ".0", "e0", " 1", "-1", ":", "#", "/"}) + rest; break;
    case 14: what = "text without structure"; t[at] = c.pick(std::vector<std::string>{"hello", "{}", "#comment", "0;1.2.3.4;80", "0 1.2.3.4 80"}); break;
  }
  for (auto& l : t) text += l + "\n";
  if (empty) text = "";
  c.note(what, ": own id ", id, ": ", text.substr(0, 300));
  c.label(what);
  c.interesting();
  File f(text);
  std::string path = f.path;
  if (missing) path = c.flip() ? f.path + ".none" : "";
  VP_CHECK(throws([&] {
             auto cfg = scl::NetworkConfig::Load(id, path);
             (void)cfg;
           }),
           "accepted an invalid configuration (", what, ")");
}

// Lines that say nothing: rejected, or skipped without losing a line that says something
VP_ARM(blank_lines, 4000, 30000, 120, 1) {
  std::size_t n = 1 + c.range(0, 5), blanks = 1 + c.range(0, 2);
  auto ls = gen_lines(c, n);
  std::vector<std::string> t;
  for (auto& l : ls) t.push_back(show(l));
  bool comment = false;
  for (std::size_t i = 0; i < blanks; i++) {
    std::string b = c.pick(std::vector<std::string>{"", " ", "\t", "\r", "#", "# a comment", "//", ",,", ","});
    comment |= b.size() > 1 || b == "#" || b == ",";
    t.insert(t.begin() + (long)c.range(0, t.size()), b);
  }
  std::string text;
  for (std::size_t i = 0; i < t.size(); i++) text += t[i] + (i + 1 < t.size() || c.flip() ? "\n" : "");
  unsigned id = (unsigned)c.range(0, n - 1);
  c.note("own id ", id, ": ", text.substr(0, 300));
  c.interesting(n >= 2);
  File f(text);
  std::unique_ptr<scl::NetworkConfig> cfg;
  if (throws([&] { cfg = std::make_unique<scl::NetworkConfig>(scl::NetworkConfig::Load(id, f.path)); })) {
    c.label("rejected");
    return;
  }
  c.label(comment ? "accepted, with a line that is not a party" : "accepted, with blank lines");
  check_config(*cfg, id, ls);
}

VP_ARM(localhost, 1000, 10000, 40, 1) {
  std::size_t n = c.range(0, c.chance(1, 8) ? 300 : 8);
  unsigned id = (unsigned)(c.chance(1, 5) ? n + c.range(0, 3) : c.range(0, n ? n - 1 : 0));
  bool dflt = c.chance(1, 5);
  int base = dflt ? DEFAULT_PORT_OFFSET : (int)c.range(0, 65000);
  c.note("id ", id, " of ", n, " base port ", base);
  c.interesting(n >= 2);
  auto make = [&] { return dflt ? scl::NetworkConfig::Localhost(id, n) : scl::NetworkConfig::Localhost(id, n, base); };
  if (id >= n) {
    VP_CHECK(throws(make), "accepted own id ", id, " of ", n);
    return;
  }
  std::vector<Line> ls;
  for (std::size_t i = 0; i < n; i++) ls.push_back({i, "127.0.0.1", base + (int)i});
  if (!dflt && c.chance(1, 6)) {  // beyond the last port: refused or as asked for, never another port
    base = (int)c.range(65000, 70000);
    for (std::size_t i = 0; i < n; i++) ls[i].port = base + (int)i;
    c.note("base port ", base);
    c.label("ports around 65536");
    std::optional<scl::NetworkConfig> cfg;
    try {
      cfg.emplace(make());
    } catch (const std::exception&) {
      VP_CHECK(base + (int)n > 65535, "localhost configuration with ports ", base, " to ", base + (int)n - 1, " refused");
      return;
    }
    check_config(*cfg, id, ls);
    return;
  }
  check_config(make(), id, ls);
}

VP_ARM(lists, 2000, 20000, 120, 2) {
  std::size_t n = c.range(0, 6);
  auto ls = gen_lines(c, n);
  unsigned id = (unsigned)c.range(0, n + 1);
  bool valid = id < n;
  if (n && c.chance(1, 3)) {
    auto& l = ls[c.range(0, n - 1)];
    u64 was = l.id;
    l.id = c.flip() ? c.range(0, n) : n + c.word() % 4000000000u;
    if (l.id != was) valid = false;
  }
  std::vector<scl::Party> ps;
  for (auto& l : ls) ps.push_back(scl::Party{(unsigned)l.id, l.host, l.port});
  c.note("id ", id, ", ", n, " parties", valid ? "" : " (invalid)");
  for (auto& l : ls) c.note(l.id);
  c.label(valid ? "valid" : "invalid");
  c.interesting(n >= 2 || !valid);
  if (!valid) {
    VP_CHECK(throws([&] { scl::NetworkConfig k(id, ps); }), "accepted an invalid list");
    return;
  }
  scl::NetworkConfig cfg(id, ps);
  check_config(cfg, id, ls);
  scl::NetworkConfig copy = cfg, other;
  other = copy;
  check_config(other, id, ls);
}

// Any text: rejected with a standard exception, or every line says what was loaded
VP_ARM_FUZZ(any_text, 15000, 100000, 160, 2) {
  static const std::vector<std::string> tok = {"0", "1", "2", ",", ",", ",", "\n", "\n", "1.2.3.4", "80", "9", "-", "+", " ", "a", "\r", "\t", "4294967296", "0x1", "\0x", "00", "1e3", "65536", "\xff"};
  std::string text;
  std::size_t n = c.range(0, 40);
  for (std::size_t i = 0; i < n; i++) text += c.chance(1, 12) ? std::string(1, (char)c.range(0, 255)) : c.pick(tok);
  if (c.flip()) {  // shaped like lines
    std::string t;
    std::size_t m = 1 + c.range(0, 3);
    for (std::size_t i = 0; i < m; i++)
      t += (c.chance(1, 6) ? c.pick(tok) : "") + std::to_string(i) + (c.chance(1, 6) ? c.pick(tok) : "") + "," + (c.chance(1, 4) ? c.pick(tok) : "h") + "," + (c.chance(1, 8) ? c.pick(tok) : "") + "80" + (c.chance(1, 8) ? c.pick(tok) : "") + "\n";
    text = t + (c.chance(1, 4) ? text : "");
  }
  unsigned id = (unsigned)c.range(0, 3);
  c.note("own id ", id, ": ", text);
  c.interesting(n > 3);
  File f(text);
  std::unique_ptr<scl::NetworkConfig> cfg;
  if (throws([&] { cfg = std::make_unique<scl::NetworkConfig>(scl::NetworkConfig::Load(id, f.path)); })) {
    c.label("rejected");
    return;
  }
  c.label("accepted");
  std::vector<std::string> lines;
  std::istringstream in(text);
  std::string l;
  while (std::getline(in, l)) lines.push_back(l);
  VP_CHECK(cfg->Id() == id && id < cfg->NetworkSize(), "own id ", cfg->Id(), " of ", cfg->NetworkSize());
  auto ps = cfg->Parties();
  std::size_t stated = 0;  // whether blank lines are skipped or rejected is left open, but a line with content may not be dropped
  for (auto& s : lines) stated += s.find_first_not_of(std::string(" \t\r\n\v\f\0", 7)) != std::string::npos;
  VP_CHECK(ps.size() <= lines.size() && ps.size() >= stated && !ps.empty(), ps.size(), " parties from ", lines.size(), " lines, ", stated, " of them not blank");
  std::set<unsigned> ids;
  for (auto& p : ps) {
    VP_CHECK(p.port >= 0 && p.port <= 65535, "port ", p.port);
    VP_CHECK(p.id < ps.size() && ids.insert(p.id).second, "ids are not 0..n-1");
    auto q = cfg->GetParty(p.id);
    VP_CHECK(q.id == p.id && q.hostname == p.hostname && q.port == p.port, "looking up party ", p.id);
    // some line has this id before its first comma, this host between its commas and this port
    bool found = false;
    for (auto& s : lines) {
      auto a = s.find(','), b = s.rfind(',');
      if (a == std::string::npos || a == b) continue;
      std::string fi = s.substr(0, a), fh = s.substr(a + 1, b - a - 1), fp = s.substr(b + 1);
      auto digits = [](const std::string& x, bool neg) {
        std::size_t i = 0;
        while (i < x.size() && isspace((unsigned char)x[i])) i++;
        if (i < x.size() && (x[i] == '+' || (neg && x[i] == '-'))) i++;
        if (i >= x.size() || !isdigit((unsigned char)x[i])) return false;
        while (i < x.size() && isdigit((unsigned char)x[i])) i++;
        while (i < x.size() && isspace((unsigned char)x[i])) i++;
        return i == x.size();
      };
      if (!digits(fi, false) || !digits(fp, true)) continue;
      errno = 0;
      unsigned long long vi = strtoull(fi.c_str(), nullptr, 10);
      long long vp_ = strtoll(fp.c_str(), nullptr, 10);
      if (errno) continue;
      found |= vi == p.id && vp_ == p.port && fh == p.hostname;
    }
    VP_CHECK(found, "party ", p.id, " ", p.hostname, " ", p.port, " is not what any line states");
  }
}
