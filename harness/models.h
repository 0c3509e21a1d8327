// Reference models written from the definitions; they share no code with /repo.
#ifndef VP_MODELS_H
#define VP_MODELS_H
#include <array>

#include "vp.h"

namespace vp {

// ---- SHA3 (FIPS 202), bit-by-bit definitions on lanes --------------------
namespace sha3 {
inline u64 rol(u64 v, unsigned n) {
  n &= 63;
  return n ? (v << n) | (v >> (64 - n)) : v;
}
inline bool rc_bit(unsigned t) {  // algorithm 5
  t %= 255;
  if (!t) return true;
  unsigned r = 1;  // bit i of r = R[i]; LFSR x^8+x^6+x^5+x^4+1
  for (unsigned i = 1; i <= t; i++) {
    r <<= 1;
    if (r & 0x100) r ^= 0x171;
  }
  return r & 1;
}
inline void keccak_f(u64 A[5][5]) {
  static u64 RC[24];
  static unsigned off[5][5];
  static bool init = false;
  if (!init) {
    for (unsigned ir = 0; ir < 24; ir++) {
      RC[ir] = 0;
      for (unsigned j = 0; j <= 6; j++)
        if (rc_bit(j + 7 * ir)) RC[ir] |= u64(1) << ((1u << j) - 1);
    }
    off[0][0] = 0;
    unsigned x = 1, y = 0;
    for (unsigned t = 0; t < 24; t++) {
      off[x][y] = ((t + 1) * (t + 2) / 2) % 64;
      unsigned ny = (2 * x + 3 * y) % 5;
      x = y;
      y = ny;
    }
    init = true;
  }
  for (unsigned ir = 0; ir < 24; ir++) {
    u64 C[5], D[5], B[5][5];
    for (int x = 0; x < 5; x++) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
    for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++) A[x][y] ^= D[x];
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++) B[y][(2 * x + 3 * y) % 5] = rol(A[x][y], off[x][y]);
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
    A[0][0] ^= RC[ir];
  }
}
inline std::vector<unsigned char> hash(unsigned bits, const std::vector<unsigned char>& m) {
  std::size_t rate = 200 - 2 * (bits / 8);
  std::vector<unsigned char> p = m;
  p.push_back(0x06);
  while (p.size() % rate) p.push_back(0);
  p.back() |= 0x80;
  u64 A[5][5] = {};
  for (std::size_t b = 0; b < p.size(); b += rate) {
    for (std::size_t i = 0; i < rate; i++) A[(i / 8) % 5][i / 40] ^= u64(p[b + i]) << (8 * (i % 8));
    keccak_f(A);
  }
  std::vector<unsigned char> out;
  for (std::size_t i = 0; i < bits / 8; i++) out.push_back((unsigned char)(A[(i / 8) % 5][i / 40] >> (8 * (i % 8))));
  return out;
}
}  // namespace sha3

// ---- AES-128 (FIPS 197), straightforward ---------------------------------
namespace aes {
using Block = std::array<unsigned char, 16>;
inline unsigned char xt(unsigned char a) { return (unsigned char)((a << 1) ^ ((a & 0x80) ? 0x1b : 0)); }
inline unsigned char gmul(unsigned char a, unsigned char b) {
  unsigned char r = 0;
  while (b) {
    if (b & 1) r ^= a;
    a = xt(a);
    b >>= 1;
  }
  return r;
}
inline const unsigned char* sbox() {
  static unsigned char s[256];
  static bool init = false;
  if (!init) {
    for (int i = 0; i < 256; i++) {
      unsigned char inv = 0;
      for (int j = 1; j < 256 && i; j++)
        if (gmul((unsigned char)i, (unsigned char)j) == 1) inv = (unsigned char)j;
      unsigned char r = 0;
      for (int b = 0; b < 8; b++) {
        int bit = ((inv >> b) ^ (inv >> ((b + 4) % 8)) ^ (inv >> ((b + 5) % 8)) ^ (inv >> ((b + 6) % 8)) ^ (inv >> ((b + 7) % 8)) ^ (0x63 >> b)) & 1;
        r |= (unsigned char)(bit << b);
      }
      s[i] = r;
    }
    init = true;
  }
  return s;
}
inline std::array<Block, 11> expand(const Block& key) {
  const unsigned char* S = sbox();
  std::array<Block, 11> rk;
  unsigned char w[44][4];
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++) w[i][j] = key[4 * i + j];
  unsigned char rcon = 1;
  for (int i = 4; i < 44; i++) {
    unsigned char t[4] = {w[i - 1][0], w[i - 1][1], w[i - 1][2], w[i - 1][3]};
    if (i % 4 == 0) {
      unsigned char u = t[0];
      t[0] = S[t[1]] ^ rcon;
      t[1] = S[t[2]];
      t[2] = S[t[3]];
      t[3] = S[u];
      rcon = xt(rcon);
    }
    for (int j = 0; j < 4; j++) w[i][j] = w[i - 4][j] ^ t[j];
  }
  for (int r = 0; r < 11; r++)
    for (int i = 0; i < 16; i++) rk[r][i] = w[4 * r + i / 4][i % 4];
  return rk;
}
inline Block encrypt(const std::array<Block, 11>& rk, Block b) {
  const unsigned char* S = sbox();
  for (int i = 0; i < 16; i++) b[i] ^= rk[0][i];
  for (int r = 1; r <= 10; r++) {
    Block t;
    for (int c = 0; c < 4; c++)
      for (int row = 0; row < 4; row++) t[4 * c + row] = S[b[4 * ((c + row) % 4) + row]];
    if (r != 10)
      for (int c = 0; c < 4; c++) {
        unsigned char a[4] = {t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]};
        for (int row = 0; row < 4; row++)
          t[4 * c + row] = gmul(a[row], 2) ^ gmul(a[(row + 1) % 4], 3) ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
      }
    for (int i = 0; i < 16; i++) b[i] = t[i] ^ rk[r][i];
  }
  return b;
}
}  // namespace aes

// ---- modular arithmetic on u128 -------------------------------------------
// (a * b) mod m by double-and-add; a, b < m < 2^127 (or m = 0 meaning 2^128)
inline u128 addmod(u128 a, u128 b, u128 m) { return a >= m - b ? a - (m - b) : a + b; }
inline u128 submod(u128 a, u128 b, u128 m) { return a >= b ? a - b : m - (b - a); }
inline u128 mulmod_slow(u128 a, u128 b, u128 m) {
  u128 r = 0;
  while (b) {
    if (b & 1) r = addmod(r, a, m);
    a = addmod(a, a, m);
    b >>= 1;
  }
  return r;
}
// short cuts for the two primes used; models_selftest.cc compares them with mulmod_slow
inline u128 mulmod(u128 a, u128 b, u128 m) {
  const u128 p61 = (u128(1) << 61) - 1, p127 = (u128(1) << 127) - 1;
  if (m == p61 && a < m && b < m) {
    u128 x = a * b;
    x = (x & p61) + (x >> 61);
    return x >= m ? x - m : x;
  }
  if (m <= (u128(1) << 64)) return (a % m) * (b % m) % m;
  if (m == p127 && a < m && b < m) {
    u64 a0 = (u64)a, a1 = (u64)(a >> 64), b0 = (u64)b, b1 = (u64)(b >> 64);
    u128 ll = (u128)a0 * b0, lh = (u128)a0 * b1, hl = (u128)a1 * b0, hh = (u128)a1 * b1;
    u128 mid = (ll >> 64) + (u64)lh + (u64)hl;
    u128 lo = (mid << 64) | (u64)ll, hi = hh + (lh >> 64) + (hl >> 64) + (mid >> 64);
    u128 x = (lo & p127) + ((hi << 1) | (lo >> 127));  // 2^127 = 1; hi < 2^126
    return x >= m ? x - m : x;
  }
  return mulmod_slow(a, b, m);
}
inline u128 powmod(u128 a, u128 e, u128 m) {
  u128 r = 1 % m;
  while (e) {
    if (e & 1) r = mulmod(r, a, m);
    a = mulmod(a, a, m);
    e >>= 1;
  }
  return r;
}
inline u128 invmod_prime(u128 a, u128 p) { return powmod(a, p - 2, p); }
static const u128 P61 = (u128(1) << 61) - 1;
static const u128 P127 = (u128(1) << 127) - 1;

}  // namespace vp
#endif
