// Integers, residues mod m, F2 scalars, rationals and rational polynomials.
#include "ref.h"
#include <climits>
#include "spffl/bits/bit_t.h"
#include "spffl/bits/count_bits.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/intmath/log10.h"
#include "spffl/intmath/log2.h"
#include "spffl/polynomials/q_poly_t.h"
using namespace spffl::intmath;
using spffl::bits::bit_t;
using spffl::polynomials::q_poly_t;

// ---------------------------------------------------------------- Z/m
static i64 pick_mod(Rng &r) {
  static const std::vector<i64> edge = {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 30, 97, 210, 255, 256, 257, 1024, 32767, 32768, 46340, 46341, 46349, 65535, 65536, 65537, 1000003,
                                        (1LL << 30) - 1, 1LL << 30, (1LL << 30) + 1, 2000000011, 2147483629, 2147483646, 2147483647};
  int k = (int)r.below(10);
  if (k < 4) return r.range(2, 60);
  if (k < 8) return r.pick(edge);
  if (k == 8) return r.range(2, 100000);
  return r.range(2, 2147483647);
}
static i64 pick_res(Rng &r, i64 m) {
  int k = (int)r.below(8);
  if (k == 0) return 0;
  if (k == 1) return 1;
  if (k == 2) return m - 1;
  if (k == 3) return m / 2;
  return r.range(0, m - 1);
}
#define EQM(expr, want, key)                                                                         \
  do {                                                                                               \
    intmod_t got_ = (expr);                                                                          \
    CHECK(got_.get_residue() == (want) && got_.get_modulus() == m, key, key << " a=" << a << " b=" << b << " m=" << m << " gave " << got_.get_residue() << " mod " << got_.get_modulus() << " want " << (want)); \
  } while (0)
SECTION(modm) {
  Rng &r = c.rng;
  i64 m = pick_mod(r), a = pick_res(r, m), b = r.chance(1, 8) ? a : r.chance(1, 10) ? ref::emod(-a, m) : pick_res(r, m);
  if (!c.leakmode) { c.input((u64)m * 1000003 + a * 31 + b, m > 2); if (c.want_sample()) c.sample("m=" + str(m) + " a=" + str(a) + " b=" + str(b)); }
  const intmod_t A((int)a, (int)m), B((int)b, (int)m);
  EQM(A, a, "ctor");
  { i64 v = r.coin() ? r.range(-3 * m < INT_MIN ? INT_MIN : -3 * m, 3 * m > INT_MAX ? INT_MAX : 3 * m) : r.pick(std::vector<i64>{INT_MIN, INT_MAX, -1, 0, INT_MIN + 1});
    EQM(intmod_t((int)v, (int)m), ref::emod(v, m), "ctor_reduce");
    EQM(A.prime_subfield_element((int)v), ref::emod(v, m), "subfield");
    intmod_t s; s.from_string(str(v), (int)m); EQM(s, ref::emod(v, m), "from_string");
    intmod_t t(1, (int)m); std::istringstream is(str(v)); is >> t; EQM(t, ref::emod(v, m), "stream_in"); }
  EQM(A + B, (a + b) % m, "add");
  EQM(A - B, ref::emod(a - b, m), "sub");
  EQM(-A, ref::emod(-a, m), "neg");
  EQM(A * B, ref::mulmod(a, b, m), "mul");
  { intmod_t t = A; t += B; EQM(t, (a + b) % m, "add_assign"); }
  { intmod_t t = A; t -= B; EQM(t, ref::emod(a - b, m), "sub_assign"); }
  { intmod_t t = A; t *= B; EQM(t, ref::mulmod(a, b, m), "mul_assign"); }
  { intmod_t t = A; t += t; EQM(t, (a + a) % m, "add_self"); t = A; t *= t; EQM(t, ref::mulmod(a, a, m), "mul_self"); t = A; t -= t; EQM(t, 0, "sub_self"); }
  { i64 k = r.coin() ? r.range(-200, 200) : r.pick(std::vector<i64>{INT_MIN, INT_MAX, 0, 1, -1, 65536, -65536});
    EQM(A + (int)k, ref::emod(a + k, m), "add_int");
    EQM(A - (int)k, ref::emod(a - k, m), "sub_int");
    EQM(A * (int)k, ref::mulmod(a, ref::emod(k, m), m), "mul_int"); }
  CHECK((A == B) == (a == b) && (A != B) == (a != b), "eq", a << " " << b << " mod " << m);
  CHECK((A < B) == (a < b) && (A <= B) == (a <= b) && (A > B) == (a > b) && (A >= B) == (a >= b), "order", a << " " << b << " mod " << m);
  CHECK((A == (int)b) == (a == b) && (A != (int)b) == (a != b), "eq_int", a << " " << b << " mod " << m);
  // powers
  { int e = r.coin() ? (int)r.below(50) : (int)(r.next() & 0x7fffffff) >> r.below(31);
    if (a == 0 && e == 0) REFUSED(A.exp(0), "zero_pow_zero", "0^0 mod " << m);
    else EQM(A.exp(e), ref::powmod(a, e, m), "exp");
    CHECK(A.get_residue() == a, "exp_keeps", a); }
  // reciprocals: the library computes a totient for each new modulus
  if (m <= 3000 || (m <= 200000 && r.chance(1, 25))) {
    i64 inv;
    bool unit = ref::invmod(a, m, inv);
    intmod_t t(0, (int)m);
    bool ok = A.recip(t);
    CHECK(ok == unit, "recip_exists", "recip of " << a << " mod " << m << " said " << ok);
    if (ok && unit) EQM(t, inv, "recip");
    if (unit) {
      EQM(B / A, ref::mulmod(b, inv, m), "div");
      EQM(B % A, 0, "mod");
      intmod_t u = B; u /= A; EQM(u, ref::mulmod(b, inv, m), "div_assign");
      u = B; u %= A; EQM(u, 0, "mod_assign");
      u = A; u /= u; EQM(u, 1, "div_self");
      int e = r.chance(1, 6) ? -INT_MAX : -(int)r.range(1, 1000);
      EQM(A.exp(e), ref::powmod(inv, -(i64)e, m), "exp_neg");
    } else {
      REFUSED(B / A, "div_nonunit", b << "/" << a << " mod " << m);
      REFUSED(B % A, "mod_nonunit", b << "%" << a << " mod " << m);
      REFUSED(A.exp(-(int)r.range(1, 9)), "exp_neg_nonunit", a << " mod " << m);
      intmod_t u = B;
      REFUSED(u /= A, "div_assign_nonunit", b << "/" << a << " mod " << m);
      EQM(u, b, "refusal_keeps");
    }
  }
  // mixing moduli
  { i64 m2 = m > 2 && r.coin() ? m - 1 : m < INT_MAX ? m + 1 : 2;
    intmod_t D((int)(b % m2), (int)m2);
    REFUSED(A + D, "mixed", m << " " << m2);
    REFUSED(A - D, "mixed", m << " " << m2);
    REFUSED(A * D, "mixed", m << " " << m2);
    REFUSED(A / D, "mixed", m << " " << m2);
    REFUSED(A % D, "mixed", m << " " << m2);
    REFUSED((void)(A < D), "mixed", m << " " << m2);
    CHECK(!(A == D), "mixed_eq", "residues of different moduli compare equal");
    intmod_t u = A;
    REFUSED(u += D, "mixed", m << " " << m2);
    REFUSED(u *= D, "mixed", m << " " << m2);
    EQM(u, a, "mixed_keeps");
    u = D; CHECK(u == D && u.get_modulus() == m2, "assign_modulus", m2); u = A; EQM(u, a, "assign"); }
  REFUSED(intmod_t((int)a, -(int)r.below(5)), "bad_modulus", "non-positive modulus");
  { intmod_t un; REFUSED(un + A, "unset", "default residue used"); REFUSED(-un, "unset", "default residue used"); REFUSED(un.exp(2), "unset", "default residue used"); }
  CHECK(A.get_residue() == a && B.get_residue() == b, "operands_kept", a << " " << b);
}
SECTION(gf2) {
  Rng &r = c.rng;
  int a = (int)r.range(-9, 9), b = (int)r.range(-9, 9);
  int x = a & 1, y = b & 1;
  if (!c.leakmode) c.input((u64)(a * 100 + b), true);
  bit_t A(a), B(b);
#define EQB(e, w, key) do { bit_t g_ = (e); CHECK(g_.get_residue() == (w), key, key << " a=" << x << " b=" << y << " gave " << g_.get_residue()); } while (0)
  EQB(A, x, "ctor"); EQB(A + B, x ^ y, "add"); EQB(A - B, x ^ y, "sub"); EQB(A * B, x & y, "mul"); EQB(-A, x, "neg");
  { bit_t t; t = b; EQB(t, y, "assign_int"); t = A; EQB(t, x, "assign"); t += B; EQB(t, x ^ y, "add_assign"); t = A; t -= B; EQB(t, x ^ y, "sub_assign"); t = A; t *= B; EQB(t, x & y, "mul_assign"); t = A; t += t; EQB(t, 0, "add_self"); }
  if (y) { EQB(A / B, x, "div"); EQB(A % B, 0, "mod"); bit_t t = A; t /= B; EQB(t, x, "div_assign"); t = A; t %= B; EQB(t, 0, "mod_assign"); }
  else { bit_t t = A; REFUSED(A / B, "div_zero", ""); REFUSED(A % B, "mod_zero", ""); REFUSED(t /= B, "div_zero", ""); REFUSED(t %= B, "mod_zero", ""); EQB(t, x, "refusal_keeps"); }
  CHECK((A == B) == (x == y) && (A != B) == (x != y) && (A < B) == (x < y) && (A <= B) == (x <= y) && (A > B) == (x > y) && (A >= B) == (x >= y), "order", x << " " << y);
  CHECK((A == 1) == (x == 1) && (A != 0) == (x != 0), "eq_int", x);
  int e = (int)r.range(-5, 5);
  if (x) EQB(A.exp(e), 1, "exp"); else if (e > 0) EQB(A.exp(e), 0, "exp"); else if (e < 0) REFUSED(A.exp(e), "zero_pow", e);
  { bit_t t; CHECK(t.from_string(str(x)) && t == A, "text", x); std::istringstream is(str(A)); bit_t u(!x); is >> u; CHECK(u == A, "text", x); CHECK(!t.from_string("x"), "text_bad", ""); }
}

// ---------------------------------------------------------------- number theory
static i64 pick_int(Rng &r, i64 lo, i64 hi) {
  static const std::vector<i64> edge = {0, 1, 2, 3, 4, 255, 256, 46340, 46341, 65535, 65536, 65537, 1LL << 30, (1LL << 30) - 1, INT_MAX, INT_MAX - 1};
  i64 v;
  int k = (int)r.below(6);
  if (k < 2) v = r.range(0, 100);
  else if (k == 2) v = r.pick(edge);
  else if (k == 3) v = (i64)(r.next() & 0x7fffffff) >> r.below(31);
  else { v = 1; static const std::vector<i64> ps = {2, 2, 2, 3, 3, 5, 7, 11, 13, 101, 1009}; while (true) { i64 p = r.pick(ps); if (v * p > INT_MAX || r.chance(1, 12)) break; v *= p; } }
  if (lo < 0 && r.chance(1, 3)) v = -v;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
SECTION(nt_gcd) {
  Rng &r = c.rng;
  i64 a = pick_int(r, -INT_MAX, INT_MAX), b = r.chance(1, 8) ? a : r.chance(1, 8) ? 0 : pick_int(r, -INT_MAX, INT_MAX);
  if (r.chance(1, 10)) a = 0;
  if (!c.leakmode) { c.input((u64)a * 1000003 + b, a && b); if (c.want_sample()) c.sample(str(a) + " , " + str(b)); }
  i64 g = ref::gcd(a, b);
  CHECK(int_gcd((int)a, (int)b) == g && gcd((int)a, (int)b) == g, "gcd", "gcd(" << a << "," << b << ") = " << int_gcd((int)a, (int)b) << " want " << g);
  int m = 0, n = 0;
  i64 d = int_ext_gcd((int)a, (int)b, m, n);
  CHECK((d < 0 ? -d : d) == g && (a || b ? (i64)m * a + (i64)n * b == d : true), "ext_gcd", "ext_gcd(" << a << "," << b << ") = " << d << " with " << m << "," << n);
  i64 l = g ? (a / g) * b : 0;
  if (l < 0) l = -l;
  if (l <= INT_MAX) { i64 got = int_lcm((int)a, (int)b); CHECK((got < 0 ? -got : got) == l && (a < 0 || b < 0 || got >= 0), "lcm", "lcm(" << a << "," << b << ") = " << got << " want " << l); }
}
SECTION(nt_prime) {
  Rng &r = c.rng;
  static const std::vector<i64> edge = {0, 1, 2, 3, 4, 9, 25, 65521LL * 32749, 46337LL * 46337, 46309LL * 46337, 2147483647, 2147483646, 2147483629, 2147117569, 65536, 65537, 65521, 65519, 65539, 4295098LL, 341, 561, 1105, 1729, 2047, 3215031751LL % 2147483647};
  i64 n;
  int k = (int)r.below(6);
  if (k == 0) n = r.pick(edge);
  else if (k == 1) n = r.range(0, 3000);
  else if (k == 2) n = (i64)(r.next() & 0x7fffffff);
  else if (k == 3) { i64 p = r.range(2, 46337); while (!ref::is_prime(p)) p++; n = p * p > INT_MAX ? p : p * p; }
  else if (k == 4) { i64 p = r.range(30000, 46337), q; while (!ref::is_prime(p)) p--; q = p - 1; while (!ref::is_prime(q)) q--; n = p * q; }
  else { n = (i64)(r.next() & 0x7fffffff) | 1; while (!ref::is_prime(n)) n = n + 2 > INT_MAX ? 3 : n + 2; }
  if (!c.leakmode) { c.input((u64)n, n > 3); if (c.want_sample()) c.sample(str(n)); }
  CHECK(is_prime((int)n) == ref::is_prime(n), "is_prime", "is_prime(" << n << ") = " << is_prime((int)n));
  i64 idx = r.range(1, 6542);
  if (c.idx % 200 == 0) idx = 6542; else if (c.idx % 200 == 1) idx = 1;
  // count the primes up to the answer
  i64 p = nth_prime((int)idx);
  bool ok = ref::is_prime(p);
  static std::vector<int> pi;
  if (pi.empty()) { pi.assign(65537, 0); for (int i = 2; i < 65537; i++) pi[i] = pi[i - 1] + ref::is_prime(i); }
  CHECK(ok && p < 65537 && pi[p] == idx, "nth_prime", "nth_prime(" << idx << ") = " << p);
  REFUSED(nth_prime(-(int)r.below(100)), "nth_prime_bad", "index below 1");
  REFUSED(nth_prime(6543 + (int)r.below(100000)), "nth_prime_bad", "index past the table");
  // the units -1 and 1 do not matter
  CHECK(is_prime((int)-n) == ref::is_prime(n), "is_prime_neg", "is_prime(" << -n << ") = " << is_prime((int)-n));
  CHECK(!is_prime(INT_MIN), "is_prime_min", "is_prime(-2^31)");
}
SECTION(nt_misc) {
  Rng &r = c.rng;
  i64 n = pick_int(r, 0, INT_MAX);
  if (!c.leakmode) { c.input((u64)n * 7 + 1, n > 1); if (c.want_sample()) c.sample(str(n)); }
  { i64 t = r.range(2, 2500);
    if (r.chance(1, 8)) { static const std::vector<i64> ts = {2, 4096, 2310, 6561, 3125, 30030, 10007}; t = r.pick(ts); }
    CHECK(int_totient((int)t) == ref::totient(t), "totient", "totient(" << t << ") = " << int_totient((int)t)); }
  { // powers that fit
    i64 b = r.range(-60, 60); int e = (int)r.below(32);
    if (r.chance(1, 4)) b = pick_int(r, -INT_MAX, INT_MAX), e = (int)r.below(3);
    i128 v = 1; bool fits = true;
    for (int i = 0; i < e; i++) { v *= b; if (v > INT_MAX || v < INT_MIN) { fits = false; break; } }
    if (fits) CHECK(int_power((int)b, e) == (i64)v, "power", b << "^" << e << " gave " << int_power((int)b, e)); }
  { // square roots, concentrating on neighbours of squares
    i64 s = r.coin() ? n : [&] { i64 q = r.range(0, 46340); i64 v = q * q + r.range(-1, 1); return v < 0 ? 0 : v; }();
    i64 fl = 0; { i64 lo = 0, hi = 46341; while (hi - lo > 1) { i64 mid = (lo + hi) / 2; if (mid * mid <= s) lo = mid; else hi = mid; } fl = lo; }
    i64 ce = fl * fl == s ? fl : fl + 1;
    CHECK(int_sqrt_floor((int)s) == fl, "sqrt_floor", "floor sqrt(" << s << ") = " << int_sqrt_floor((int)s));
    CHECK(int_sqrt_ceil((int)s) == ce, "sqrt_ceil", "ceil sqrt(" << s << ") = " << int_sqrt_ceil((int)s));
    REFUSED(int_sqrt_floor(-(int)r.range(1, 1000)), "sqrt_neg", ""); REFUSED(int_sqrt_ceil(INT_MIN), "sqrt_neg", ""); }
  { // logarithms and bit positions
    int sh = (int)r.below(64);
    u64 w = r.chance(1, 3) ? (u64)1 << sh : r.chance(1, 2) ? ((u64)1 << sh) + (u64)r.range(-1, 1) : r.next() >> sh;
    if (r.chance(1, 10)) w = r.pick(std::vector<u64>{~0ull, 1, 2, 3, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull});
    if (w) {
      unsigned msb = 63 - __builtin_clzll(w), lsb = __builtin_ctzll(w);
      bool pow2 = (w & (w - 1)) == 0;
      CHECK(find_msb_64(w) == msb, "msb64", std::hex << w); CHECK(find_lsb_64(w) == lsb, "lsb64", std::hex << w);
      CHECK(calc_log2_unsigned_ll_floor(w) == msb, "log2ll_floor", std::hex << w);
      CHECK(calc_log2_unsigned_ll_ceil(w) == (pow2 ? msb : msb + 1), "log2ll_ceil", std::hex << w);
      unsigned u = (unsigned)w;
      if (u) {
        unsigned um = 31 - __builtin_clz(u), ul = __builtin_ctz(u);
        CHECK(find_msb_32(u) == um, "msb32", u); CHECK(find_lsb_32(u) == ul, "lsb32", u);
        CHECK(calc_log2_unsigned_floor(u) == um, "log2_floor", u);
        CHECK(calc_log2_unsigned_ceil(u) == ((u & (u - 1)) ? um + 1 : um), "log2_ceil", u);
        unsigned l10 = 0; for (u64 t = 10; t <= u; t *= 10) l10++;
        CHECK(calc_log10_unsigned_floor(u) == l10, "log10", u);
        unsigned p10 = 1; int k10 = (int)r.below(10); for (int i = 0; i < k10; i++) p10 *= 10;
        CHECK(calc_log10_unsigned_floor(p10) == (unsigned)k10, "log10", p10);
        if (p10 > 1) CHECK(calc_log10_unsigned_floor(p10 - 1) == (unsigned)k10 - 1, "log10", p10 - 1);
      }
      unsigned short us = (unsigned short)w;
      if (us) CHECK(find_msb_16(us) == 31u - __builtin_clz((unsigned)us), "msb16", us);
    }
    unsigned char buf[24]; int len = (int)r.below(25), cnt = 0;
    for (int i = 0; i < len; i++) { buf[i] = (unsigned char)(r.chance(1, 8) ? 255 : r.next()); cnt += __builtin_popcount(buf[i]); }
    CHECK(spffl::bits::count_one_bits(buf, len) == cnt, "popcount", "length " << len); }
}

// ---------------------------------------------------------------- rationals
struct Q {
  i128 n, d;
  bool big; // left the range in which the library must be exact
  Q(i128 a = 0, i128 b = 1) : n(a), d(b), big(false) { red(); }
  void red() {
    if (d < 0) { n = -n; d = -d; }
    i128 x = n < 0 ? -n : n, y = d;
    while (y) { i128 t = x % y; x = y; y = t; }
    if (x > 1) { n /= x; d /= x; }
    if (n > INT_MAX || n < -INT_MAX || d > INT_MAX) big = true;
    if (big) { n = 0; d = 1; } // value no longer tracked
  }
  bool operator==(const Q &o) const { return n == o.n && d == o.d; }
};
static Q mk(const Q &a, const Q &b, i128 n, i128 d) { Q r(n, d); r.big = r.big || a.big || b.big; return r; }
static Q operator+(const Q &a, const Q &b) { return mk(a, b, a.n * b.d + b.n * a.d, a.d * b.d); }
static Q operator-(const Q &a, const Q &b) { return mk(a, b, a.n * b.d - b.n * a.d, a.d * b.d); }
static Q operator*(const Q &a, const Q &b) { return mk(a, b, a.n * b.n, a.d * b.d); }
static Q operator/(const Q &a, const Q &b) { return mk(a, b, a.n * b.d, a.d * b.n); }
static std::string qs(const Q &q) { return str((i64)q.n) + "/" + str((i64)q.d); }
static intrat_t L(const Q &q) { return intrat_t((int)q.n, (int)q.d); }
static bool same(const intrat_t &l, const Q &q) { return l.get_numerator() == (i64)q.n && l.get_denominator() == (i64)q.d; }
// The operation either fits (then exact) or the library may only refuse it.
#define RQ(expr, want, key)                                                                        \
  do {                                                                                             \
    Q w_ = (want);                                                                                 \
    c.event(key);                                                                                  \
    if (w_.big) { try { (void)(expr); } catch (const spffl::exception_t &) {} }                    \
    else { intrat_t g_ = (expr); CHECK(same(g_, w_), key, key << " " << qs(a) << " , " << qs(b) << " gave " << g_.get_numerator() << "/" << g_.get_denominator() << " want " << qs(w_)); } \
  } while (0)
SECTION(ratq) {
  Rng &r = c.rng;
  auto pick = [&]() -> Q { i64 n = r.coin() ? r.range(-30, 30) : pick_int(r, -INT_MAX, INT_MAX), d = r.coin() ? r.range(1, 30) : r.chance(1, 3) ? 1 : pick_int(r, 1, INT_MAX); return Q(n, d); };
  Q a = pick(), b = r.chance(1, 10) ? a : r.chance(1, 10) ? Q(0) - a : pick();
  if (r.chance(1, 10)) b = Q(0);
  if (!c.leakmode) { c.input((u64)(a.n * 1000003 + a.d * 1009 + b.n * 31 + b.d), a.d > 1 || b.d > 1); if (c.want_sample()) c.sample(qs(a) + " , " + qs(b)); }
  intrat_t A = L(a), B = L(b);
  { i64 k = r.range(1, 5), s = r.coin() ? 1 : -1; i128 n = a.n * k * s, d = a.d * k * s;
    if (n <= INT_MAX && n >= -INT_MAX && d <= INT_MAX && d >= -INT_MAX) { intrat_t t((int)n, (int)d); CHECK(same(t, a), "lowest_terms", (i64)n << "/" << (i64)d << " held as " << t.get_numerator() << "/" << t.get_denominator()); } }
  RQ(A + B, a + b, "add"); RQ(A - B, a - b, "sub"); RQ(A * B, a * b, "mul"); RQ(-A, Q(0) - a, "neg");
  if (b.n != 0) { RQ(A / B, a / b, "div"); RQ(A % B, Q(0), "mod"); if (!(a / b).big) { intrat_t t = A; t /= B; CHECK(same(t, a / b), "div_assign", qs(a) << " / " << qs(b)); } }
  else { REFUSED(A / B, "div_zero", qs(a)); REFUSED(A % B, "mod_zero", qs(a)); intrat_t t = A; REFUSED(t /= B, "div_zero", qs(a)); CHECK(same(t, a), "refusal_keeps", qs(a)); }
  if (!(a + b).big) { intrat_t t = A; t += B; CHECK(same(t, a + b), "add_assign", qs(a) << " " << qs(b)); }
  if (!(a - b).big) { intrat_t t = A; t -= B; CHECK(same(t, a - b), "sub_assign", qs(a) << " " << qs(b)); }
  if (!(a * b).big) { intrat_t t = A; t *= B; CHECK(same(t, a * b), "mul_assign", qs(a) << " " << qs(b)); }
  if (!(a * a).big) { intrat_t t = A; t *= t; CHECK(same(t, a * a), "mul_self", qs(a)); }
  { i128 x = a.n * b.d, y = b.n * a.d;
    CHECK((A < B) == (x < y) && (A <= B) == (x <= y) && (A > B) == (x > y) && (A >= B) == (x >= y) && (A == B) == (x == y) && (A != B) == (x != y), "order", qs(a) << " " << qs(b)); }
  CHECK((A == (int)b.n) == (a.d == 1 && a.n == b.n) && (A != (int)b.n) == !(a.d == 1 && a.n == b.n), "eq_int", qs(a));
  { int e = (int)r.range(-12, 12);
    if (a.n == 0) { if (e > 0) { RQ(A.exp(e), Q(0), "exp"); } else REFUSED(A.exp(e), "zero_pow", e); }
    else { Q v(1), base = e < 0 ? Q(1) / a : a; for (int i = 0; i < (e < 0 ? -e : e); i++) v = v * base; RQ(A.exp(e), v, "exp"); } }
  { intrat_t t; t = (int)b.n; CHECK(same(t, Q(b.n)), "assign_int", (i64)b.n); t = A; CHECK(same(t, a), "assign", qs(a)); }
  REFUSED(intrat_t((int)a.n, 0), "zero_denominator", (i64)a.n);
  { std::string s = str(A); intrat_t t(7, 3); CHECK(t.from_string(s) && same(t, a), "text", s); std::istringstream is(" " + s + " 5"); intrat_t u; is >> u; CHECK(same(u, a), "text", s);
    intrat_t v; CHECK(!v.from_string("x") && !v.from_string("") && !v.from_string("/3"), "text_bad", "non-number accepted"); }
  CHECK(same(A, a) && same(B, b), "operands_kept", "");
}

// ---------------------------------------------------------------- Q[x]
typedef std::vector<Q> QP;
static void qtrim(QP &p) { while (!p.empty() && p.back().n == 0 && !p.back().big) p.pop_back(); }
static bool qbig(const QP &p) { for (auto &q : p) if (q.big) return true; return false; }
static QP qadd(const QP &a, const QP &b, int sg = 1) { QP r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); i++) { Q x = i < a.size() ? a[i] : Q(0), y = i < b.size() ? b[i] : Q(0); r[i] = sg > 0 ? x + y : x - y; } qtrim(r); return r; }
static QP qmul(const QP &a, const QP &b) { if (a.empty() || b.empty()) return QP(); QP r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = r[i + j] + a[i] * b[j]; qtrim(r); return r; }
static bool qdivmod(const QP &a, const QP &b, QP &q, QP &r) { // false: left the range
  q.clear(); r = a;
  if (a.size() >= b.size()) q.assign(a.size() - b.size() + 1, Q(0));
  Q li = Q(1) / b.back();
  bool ok = !li.big;
  for (int i = (int)a.size() - 1; i >= (int)b.size() - 1 && ok; i--) {
    Q m = r[i] * li;
    q[i - (b.size() - 1)] = m;
    for (size_t j = 0; j < b.size(); j++) { r[i - (b.size() - 1) + j] = r[i - (b.size() - 1) + j] - m * b[j]; if (r[i - (b.size() - 1) + j].big || (m * b[j]).big) ok = false; }
    if (m.big) ok = false;
  }
  if (ok) { qtrim(q); qtrim(r); }
  return ok;
}
static std::string qps(const QP &p) { std::string s = "["; for (size_t i = p.size(); i-- > 0;) s += qs(p[i]) + (i ? "," : ""); return s + "]"; }
static q_poly_t LP(const QP &p) { q_poly_t r{intrat_t(0)}; for (int i = (int)p.size() - 1; i >= 0; i--) r.set_coeff(i, L(p[i])); return r; }
static bool psame(const q_poly_t &l, const QP &p) {
  int d = p.empty() ? 0 : (int)p.size() - 1;
  if (l.find_degree() != d) return false;
  for (int i = 0; i <= d; i++) if (!same(l.get_coeff(i), p.empty() ? Q(0) : p[i])) return false;
  return true;
}
#define QPOLY(expr, want, key)                                                                      \
  do {                                                                                             \
    QP w_ = (want);                                                                                \
    c.event(key);                                                                                  \
    if (!qbig(w_)) { q_poly_t g_ = (expr); CHECK(psame(g_, w_), key, key << " of " << qps(x) << " , " << qps(y) << " gave " << g_ << " want " << qps(w_)); \
      q_poly_t l_ = LP(w_); CHECK(g_ == l_ && !(g_ != l_) && str(g_) == str(l_), key ".canon", qps(w_)); }   \
  } while (0)
static QP qrand(Rng &r, int maxd) {
  QP p; int d = (int)r.below(maxd + 1); int lim = r.coin() ? 3 : 20; bool ints = r.coin();
  if (r.chance(1, 10)) return p;
  for (int i = 0; i <= d; i++) p.push_back(r.chance(1, 4) ? Q(0) : Q(r.range(-lim, lim), ints ? 1 : r.range(1, 6)));
  qtrim(p);
  return p;
}
SECTION(qpoly) {
  Rng &r = c.rng;
  QP x = qrand(r, 6), y = r.chance(1, 12) ? x : qrand(r, 4);
  if (r.chance(1, 8) && x.size() > 1) { y = x; y[0] = y[0] + Q(1); }
  if (!c.leakmode) { c.input(qps(x) + qps(y), x.size() > 1 || y.size() > 1); if (c.want_sample()) c.sample(qps(x) + " " + qps(y)); }
  q_poly_t X = LP(x), Y = LP(y);
  QPOLY(X, x, "build");
  QPOLY(X + Y, qadd(x, y), "add"); QPOLY(X - Y, qadd(x, y, -1), "sub"); QPOLY(-X, qadd(QP(), x, -1), "neg"); QPOLY(X * Y, qmul(x, y), "mul");
  { q_poly_t t = X; t += Y; QPOLY(t, qadd(x, y), "add_assign"); t = X; t -= Y; QPOLY(t, qadd(x, y, -1), "sub_assign"); t = X; t *= Y; QPOLY(t, qmul(x, y), "mul_assign"); t = t = X; QPOLY(t, x, "assign"); q_poly_t &al = t; t = al; QPOLY(t, x, "self_assign"); t -= t; QPOLY(t, QP(), "sub_self"); }
  if (!y.empty()) {
    QP q, m;
    if (qdivmod(x, y, q, m)) {
      QPOLY(X / Y, q, "div"); QPOLY(X % Y, m, "mod");
      q_poly_t lq, lr; X.quot_and_rem(Y, lq, lr); QPOLY(lq, q, "quot"); QPOLY(lr, m, "rem");
      q_poly_t t = X; t /= Y; QPOLY(t, q, "div_assign"); t = X; t %= Y; QPOLY(t, m, "mod_assign");
    }
  } else { REFUSED(X / Y, "div_zero", qps(x)); REFUSED(X % Y, "mod_zero", qps(x)); }
  { Q s = r.chance(1, 6) ? Q(0) : Q(r.range(-9, 9), r.range(1, 5)); QP sp; if (s.n) sp.push_back(s);
    QPOLY(X + L(s), qadd(x, sp), "add_scalar"); QPOLY(X - L(s), qadd(x, sp, -1), "sub_scalar"); QPOLY(X * L(s), qmul(x, sp), "mul_scalar");
    if (s.n) { QP in{Q(1) / s}; QPOLY(X / L(s), qmul(x, in), "div_scalar"); } else if (!x.empty()) REFUSED(X / L(s), "div_scalar_zero", qps(x));
    Q v(0); bool ok = true; for (size_t i = x.size(); i-- > 0;) { v = v * s + x[i]; if (v.big) ok = false; }
    if (ok) { intrat_t g = X.eval(L(s)); CHECK(same(g, v), "eval", qps(x) << " at " << qs(s)); } }
  { QP d; for (size_t i = 1; i < x.size(); i++) d.push_back(x[i] * Q((i64)i)); qtrim(d); QPOLY(X.deriv(), d, "deriv"); }
  { int e = (int)r.below(4); if (x.empty()) { if (e) QPOLY(X.exp(e), QP(), "exp"); else REFUSED(X.exp(0), "zero_pow", ""); }
    else if (x.size() == 1) { QP w{Q(1)}; int k = (int)r.range(-3, 3); for (int i = 0; i < (k < 0 ? -k : k); i++) w = qmul(w, QP{k < 0 ? Q(1) / x[0] : x[0]}); QPOLY(X.exp(k), w, "exp_unit"); }
    else { QP w{Q(1)}; bool b = false; for (int i = 0; i < e; i++) { w = qmul(w, x); b = b || qbig(w); } if (!b && x.size() <= 4) QPOLY(X.exp(e), w, "exp"); REFUSED(X.exp(-1 - e), "exp_neg", qps(x)); } }
  { bool lt = false, eq = x.size() == y.size();
    if (x.size() != y.size() && (x.size() > 1 || y.size() > 1)) { lt = std::max<size_t>(x.size(), 1) < std::max<size_t>(y.size(), 1); eq = false; }
    else { QP p = x, q = y; p.resize(std::max(x.size(), y.size())); q.resize(p.size()); eq = true; for (size_t i = p.size(); i-- > 0;) { if (p[i] == q[i]) continue; eq = false; lt = p[i].n * q[i].d < q[i].n * p[i].d; break; } }
    CHECK((X == Y) == eq && (X != Y) == !eq && (X < Y) == (lt && !eq) && (X <= Y) == (lt || eq) && (X > Y) == (!lt && !eq) && (X >= Y) == !lt, "order", qps(x) << " " << qps(y)); }
  CHECK((X == 0) == x.empty() && (X == 1) == (x.size() == 1 && x[0] == Q(1)), "eq_int", qps(x));
  { QP w = x; if (!w.empty()) w.insert(w.begin(), Q(0)); q_poly_t t = X; t.promote(); QPOLY(t, w, "promote"); }
  { int i = (int)r.below(5), j = (int)r.below(5); if (i != j) { Q ci(r.range(1, 5)), cj(r.range(-5, -1)); QP w(std::max(i, j) + 1); w[i] = ci; w[j] = cj; QPOLY(q_poly_t::binomial(L(ci), i, L(cj), j), w, "binomial"); } }
  { int pos = (int)r.below(8); Q v = r.chance(1, 3) ? Q(0) : Q(r.range(-5, 5)); QP w = x; if ((int)w.size() <= pos) w.resize(pos + 1); w[pos] = v; qtrim(w); q_poly_t t = X; t.set_coeff(pos, L(v)); QPOLY(t, w, "set_coeff"); }
  CHECK(psame(X, x) && psame(Y, y), "operands_kept", qps(x));
}
static bool qgcd(QP a, QP b, QP &g) { // monic; false: left the range
  while (!b.empty()) { QP q, m; if (!qdivmod(a, b, q, m)) return false; a = b; b = m; }
  if (!a.empty()) { Q li = Q(1) / a.back(); for (auto &v : a) { v = v * li; if (v.big) return false; } }
  g = a;
  return true;
}
static QP qfrom(const q_poly_t &l) { QP r; for (int i = 0; i <= l.find_degree(); i++) r.push_back(Q(l.get_coeff(i).get_numerator(), l.get_coeff(i).get_denominator())); qtrim(r); return r; }
SECTION(gcd_q) {
  Rng &r = c.rng;
  QP x = qrand(r, 3), y = qrand(r, 3), g;
  int k = (int)r.below(8);
  if (k < 3) { QP f = qrand(r, 2); x = qmul(x, f); y = qmul(y, f); }
  else if (k == 3) y = x; else if (k == 4) y = QP(); else if (k == 5) x = QP();
  if (!c.leakmode) { c.input(qps(x) + qps(y), x.size() > 1 && y.size() > 1); if (c.want_sample()) c.sample(qps(x) + " " + qps(y)); }
  if (!qgcd(x, y, g) || qbig(x) || qbig(y)) { c.event("out_of_range"); return; }
  q_poly_t X = LP(x), Y = LP(y);
  auto monic = [](QP p) { if (!p.empty()) { Q li = Q(1) / p.back(); for (auto &v : p) v = v * li; } return p; };
  QP lg = qfrom(X.gcd(Y));
  CHECK(monic(lg) == g, "gcd", "gcd of " << qps(x) << " , " << qps(y) << " gave " << qps(lg) << " want " << qps(g));
  try {
    q_poly_t m, n, d = X.ext_gcd(Y, m, n);
    QP ge = qfrom(d);
    CHECK(monic(ge) == g, "ext_gcd", "gcd of " << qps(x) << " , " << qps(y) << " gave " << qps(ge));
    if (!x.empty() || !y.empty()) { QP comb = qadd(qmul(qfrom(m), x), qmul(qfrom(n), y)); if (!qbig(comb)) CHECK(comb == ge, "bezout", qps(x) << " , " << qps(y) << " multipliers " << m << " and " << n << " give " << qps(comb) << " not " << qps(ge)); }
  } catch (const spffl::exception_t &e) {
    // the multipliers may leave the range although the gcd does not
    CHECK(std::string(e.what()).find("overflow") != std::string::npos, "ext_gcd_refused", qps(x) << " , " << qps(y) << ": " << e.what());
  }
}
