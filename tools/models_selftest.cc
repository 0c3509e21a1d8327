// g++ -std=gnu++17 -O2 -Iharness tools/models_selftest.cc && ./a.out
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <vector>
#include "models.h"
using namespace vp;
int main() {
  std::mt19937_64 g(1);
  auto r = [&](u128 m) {
    u128 x = ((u128)g() << 64) | g();
    switch (g() % 4) {
      case 0: return (x >> (g() % 127)) % m;
      case 1: return m - 1 - (x >> (g() % 127)) % m;
      case 2: return ((u128)1 << (g() % 127)) % m;
    }
    return x % m;
  };
  for (u128 m : {P61, P127, (u128)13, ((u128)1 << 64) - 59, ((u128)1 << 90) - 33})
    for (int i = 0; i < 400000; i++) {
      u128 a = r(m), b = r(m);
      if (mulmod(a, b, m) != mulmod_slow(a, b, m)) return printf("differ\n"), 1;
    }
  puts("ok");
}
