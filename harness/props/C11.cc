// C11: text conversion.
// vp: fuzz=60
#include "scl_util.h"
using namespace vp;
const char* vp::kRule =
    "numerals of integers that fit the element's storage (64 or 128 bits; biased to multiples of p, 2^K and storage limits), written in binary, decimal, "
    "hex (both cases, leading zeros) and base64 (all paddings, leading zero bytes), parsed into both prime fields and rings Z2k; printed and "
    "re-parsed. Malformed strings are made by mutating well-formed ones (bad digits, odd lengths, misplaced padding) and random bytes. "
    "Non-trivial: value not below 10, or a malformed string of at least two characters.";
using scl::NumberBase;

static std::string to_base(u128 v, int base) {
  if (base == 10) return str(v);
  static const char* d = "0123456789abcdef";
  std::string s;
  while (v) {
    s.insert(s.begin(), d[(unsigned)(v % base)]);
    v /= base;
  }
  return s.empty() ? "0" : s;
}
static const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string base64(const std::vector<unsigned char>& b) {
  std::string s;
  for (std::size_t i = 0; i < b.size(); i += 3) {
    unsigned n = (unsigned)b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
    s += B64[n >> 18];
    s += B64[(n >> 12) & 63];
    s += i + 1 < b.size() ? B64[(n >> 6) & 63] : '=';
    s += i + 2 < b.size() ? B64[n & 63] : '=';
  }
  return s;
}
template <typename T>
static u128 red(u128 v) {
  return Mod<T>::m() ? v % Mod<T>::m() : v;
}
static u128 gen_number(Case& c, unsigned storage, u128 m) {
  u128 v = 0;
  u128 max = storage == 128 ? ~u128(0) : ((u128(1) << 64) - 1);
  switch (c.weighted({3, 3, 2, 1})) {
    case 0: v = c.u128e(); break;
    case 1:
      if (m) {
        u128 q = max / m;
        u128 k = q > 9 ? c.range(0, 9) : c.range(0, (u64)q);
        if (c.flip()) k = q - (q > 9 ? c.range(0, 3) : 0);
        v = m * k + c.range(0, 4) - 2;
      } else v = c.u128e();
      break;
    case 2: v = max - c.range(0, 5); break;
    default: v = c.range(0, 20);
  }
  if (storage < 128) v &= max;
  return v;
}

template <typename T>
static void parse_print(Case& c) {
  unsigned storage = sizeof(typename T::ValueType) * 8;
  u128 v = gen_number(c, storage, Mod<T>::m());
  c.interesting(v >= 10);
  u128 r = red<T>(v);
  c.label(r == v ? "already reduced" : "needs reduction");
  auto expect = [&](const T& e, const char* what, const std::string& s) {
    VP_CHECK(val(e) == r, what, " numeral \"", s, "\" gave ", str(val(e)), " expected ", str(r));
    VP_CHECK(e.ToString() == str(r), what, " numeral \"", s, "\" prints as ", e.ToString(), " expected ", str(r));
    VP_CHECK(e == mk<T>(r), what, " numeral \"", s, "\" not equal to the same residue read from bytes");
    T back = T::FromString(e.ToString());
    VP_CHECK(back == e && back.ToString() == e.ToString(), what, " printing then parsing changed the element");
  };
  std::size_t zeros = c.chance(1, 3) ? c.range(0, 12) : 0;
  std::string z(zeros, '0');
  std::string s = z + to_base(v, 10);
  c.note(T::Name(), T::BitSize(), " value ", str(v), " zeros ", zeros);
  expect(T::FromString(s), "default base", s);
  expect(T::FromString(s, NumberBase::DECIMAL), "decimal", s);
  s = z + to_base(v, 2);
  expect(T::FromString(s, NumberBase::BINARY), "binary", s);
  s = z + to_base(v, 16);
  if (s.size() % 2) s = "0" + s;
  Rng g = c.rng();
  for (auto& ch : s)
    if (g.next() & 1) ch = (char)toupper(ch);
  expect(T::FromString(s, NumberBase::HEX), "hex", s);
  std::vector<unsigned char> b;
  for (u128 w = v; w; w >>= 8) b.insert(b.begin(), (unsigned char)w);
  if (c.flip()) b.insert(b.begin(), c.range(0, 7), 0);
  s = base64(b);
  expect(T::FromString(s, NumberBase::BASE64), "base64", s);
}
VP_ARM(parse_print_61, 5000, 80000, 14, 1) { parse_print<F61>(c); }
VP_ARM(parse_print_127, 3500, 60000, 14, 1) { parse_print<F127>(c); }
VP_ARM(parse_print_z2k, 8000, 80000, 14, 1) {
  switch (c.range(0, 9)) {
    case 0: parse_print<scl::Z2k<1>>(c); break;
    case 1: parse_print<scl::Z2k<7>>(c); break;
    case 2: parse_print<scl::Z2k<32>>(c); break;
    case 3: parse_print<scl::Z2k<62>>(c); break;
    case 4: parse_print<scl::Z2k<63>>(c); break;
    case 5: parse_print<scl::Z2k<64>>(c); break;
    case 6: parse_print<scl::Z2k<65>>(c); break;
    case 7: parse_print<scl::Z2k<100>>(c); break;
    case 8: parse_print<scl::Z2k<127>>(c); break;
    default: parse_print<scl::Z2k<128>>(c); break;
  }
}

// Strings: accepted iff well-formed (a reference recogniser), value as the reference computes it.
// Verdict: 1 well-formed, 0 malformed, -1 the statement does not say.
static int classify(const std::string& s, NumberBase b, u128& v, bool& fits) {
  v = 0;
  fits = true;
  auto push = [&](unsigned mul, unsigned d) {
    if (v > (~u128(0) - d) / mul) fits = false;
    v = v * mul + d;
  };
  if (s.empty()) return -1;
  if (b == NumberBase::BINARY || b == NumberBase::DECIMAL) {
    unsigned base = b == NumberBase::BINARY ? 2 : 10;
    for (char ch : s) {
      if (ch < '0' || ch >= (char)('0' + base)) return 0;
      push(base, (unsigned)(ch - '0'));
    }
    return 1;
  }
  if (b == NumberBase::HEX) {
    if (s.size() % 2) return 0;
    for (char ch : s) {
      if (ch >= '0' && ch <= '9') push(16, (unsigned)(ch - '0'));
      else if (ch >= 'a' && ch <= 'f') push(16, (unsigned)(ch - 'a' + 10));
      else if (ch >= 'A' && ch <= 'F') push(16, (unsigned)(ch - 'A' + 10));
      else return 0;
    }
    return 1;
  }
  if (s.size() % 4) return 0;
  std::size_t pad = 0;
  while (pad < s.size() && s[s.size() - 1 - pad] == '=') pad++;
  if (pad > 2) return 0;
  std::size_t n = s.size() - pad;
  std::vector<unsigned> q;
  for (std::size_t i = 0; i < n; i++) {
    const char* p = s[i] ? strchr(B64, s[i]) : nullptr;
    if (!p) return 0;
    q.push_back((unsigned)(p - B64));
  }
  bool loose = false;
  for (std::size_t i = 0; i < q.size(); i += 4) {
    std::size_t k = std::min<std::size_t>(4, q.size() - i);
    push(256, q[i] << 2 | q[i + 1] >> 4);
    if (k >= 3) push(256, (q[i + 1] & 15) << 4 | q[i + 2] >> 2);
    if (k == 4) push(256, (q[i + 2] & 3) << 6 | q[i + 3]);
    if (k == 2 && (q[i + 1] & 15)) loose = true;
    if (k == 3 && (q[i + 2] & 3)) loose = true;
  }
  return loose ? -1 : 1;  // non-zero bits under the padding: decoders differ
}
template <typename T>
static void strings(Case& c) {
  NumberBase b = c.pick(std::vector<NumberBase>{NumberBase::BINARY, NumberBase::DECIMAL, NumberBase::HEX, NumberBase::BASE64});
  static const std::vector<std::string> alpha = {"01", "0123456789", "0123456789abcdefABCDEF", B64};
  std::size_t bi = b == NumberBase::BINARY ? 0 : b == NumberBase::DECIMAL ? 1 : b == NumberBase::HEX ? 2 : 3;
  std::size_t n = c.range(0, bi == 0 ? 60 : 24);
  std::string s;
  for (std::size_t i = 0; i < n; i++) s += alpha[bi][c.range(0, alpha[bi].size() - 1)];
  if (bi == 3 && c.flip()) s = s.substr(0, s.size() / 4 * 4);
  if (bi == 3 && c.flip() && s.size() >= 4) {
    s[s.size() - 1] = '=';
    if (c.flip()) s[s.size() - 2] = '=';
  }
  std::size_t muts = c.weighted({2, 3, 1});
  for (std::size_t k = 0; k < muts; k++) {
    static const std::string odd = std::string("29AFGafgZz+-/=_. \t\n:@[`{\xff\x80,", 27) + '\0';
    char ch = c.chance(1, 4) ? (char)c.range(0, 255) : odd[c.range(0, odd.size() - 1)];
    std::size_t p = s.empty() ? 0 : c.range(0, s.size() - 1);
    switch (c.range(0, 3)) {
      case 0: if (!s.empty()) s[p] = ch; break;
      case 1: s.insert(s.begin() + (long)p, ch); break;
      case 2: if (!s.empty()) s.erase(p, 1); break;
      default: s += '=';
    }
  }
  // exact-size allocation, so that reads before the start or past the end are seen by ASan
  std::string t(s.data(), s.size());
  t.shrink_to_fit();
  u128 v;
  bool fits;
  int k = classify(s, b, v, fits);
  if (fits && sizeof(typename T::ValueType) == 8 && v >> 64) fits = false;
  c.note("base#", bi, " \"", hex((const unsigned char*)s.data(), s.size()), "\" verdict ", k);
  c.label(k == 1 ? "well-formed" : k == 0 ? "malformed" : "unspecified");
  c.interesting(s.size() >= 2 && k == 0);
  c.interesting(k == 1 && v >= 10);
  T e;
  bool threw = throws([&] { e = T::FromString(t, b); });
  if (k == 0) VP_CHECK(threw, "malformed text accepted as ", e.ToString());
  if (k == 1) VP_CHECK(!threw, "well-formed text rejected");
  if (k == 1 && fits) {
    VP_CHECK(val(e) == red<T>(v), "gave ", str(val(e)), " expected ", str(red<T>(v)));
    VP_CHECK(e.ToString() == str(red<T>(v)), "prints as ", e.ToString(), " expected ", str(red<T>(v)));
  }
}
VP_ARM_FUZZ(strings_61, 14000, 150000, 90, 1) { strings<F61>(c); }
VP_ARM_FUZZ(strings_127, 9000, 100000, 90, 1) { strings<F127>(c); }
VP_ARM_FUZZ(strings_z2k, 9000, 100000, 90, 1) {
  if (c.flip()) strings<scl::Z2k<37>>(c);
  else strings<scl::Z2k<128>>(c);
}
