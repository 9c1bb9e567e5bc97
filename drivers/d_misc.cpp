// Generators, tokenizer, random elements, cyclotomic polynomials and reductions of rational polynomials.
#include "img.h"
#include <climits>
#include <map>
#include <set>
#include "spffl/base/line_scan.h"
#include "spffl/base/tokenize.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/q_cyclotomic/qff.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/random/int_random.h"
#include "spffl/random/intmod_random.h"
using namespace spffl::bitrand;
using namespace spffl::random;
using namespace spffl::q_cyclotomic;

// ---------------------------------------------------------------- psdes
// The published network, written on 64-bit arithmetic, and its inverse.
static const u64 K1[4] = {0xbaa96887, 0x1e17d32c, 0x03bcdc3c, 0x0f33d1b2}, K2[4] = {0x4b0f3b58, 0xe874f0c3, 0x6955c5a6, 0x55a7ca46};
static u64 feistel(int i, u64 x) {
  u64 a = x ^ K1[i], lo = a % 65536, hi = a / 65536, M = 1ULL << 32;
  u64 b = (lo * lo + (M - 1 - hi * hi % M)) % M, sw = b / 65536 + (b % 65536) * 65536;
  return ((sw ^ K2[i]) + lo * hi) % M;
}
static void enc(u64 &w0, u64 &w1) { for (int i = 0; i < 4; i++) { u64 t = w1; w1 = w0 ^ feistel(i, t); w0 = t; } }
static void dec(u64 &w0, u64 &w1) { for (int i = 3; i >= 0; i--) { u64 t = w0; w0 = w1 ^ feistel(i, t); w1 = t; } }
static u64 word(Rng &r) {
  static const std::vector<u64> sp = {0, 1, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff, 0xffff, 0x10000, 0xffff0000};
  return r.chance(1, 3) ? r.pick(sp) : r.next() & 0xffffffff;
}
struct RS { u64 s0, s1; u64 next(u64 *o0 = 0) { u64 a = s0, b = s1; enc(a, b); s1 = (s1 + 1) & 0xffffffff; if (!s1) s0 = (s0 + 1) & 0xffffffff; if (o0) *o0 = a; return b; } };
SECTION(psdes) {
  Rng &r = c.rng;
  u64 a = word(r), b = word(r);
  c.input(std::to_string(a) + "," + std::to_string(b), true);
  { uint32_t x = a, y = b; psdes_hash_64(x, y); u64 p = a, q = b; enc(p, q); CHECK(x == p && y == q, "hash", std::hex << a << " " << b << " -> " << x << " " << y << " want " << p << " " << q);
    u64 d0 = x, d1 = y; dec(d0, d1); CHECK(d0 == a && d1 == b, "bijection", std::hex << a << " " << b);
    if (c.want_sample()) { std::ostringstream o; o << std::hex << "hash(" << a << "," << b << ")=(" << x << "," << y << ")"; c.sample(o.str()); } }
  // one reentrant stream, one global stream and the model, in step, with mixed kinds of draws
  uint32_t r0 = a, r1 = b; RS m{a, b};
  if (r.coin()) sran32b(a, b); else { u64 s = word(r); sran32(s); r0 = 0; r1 = s; m = RS{0, s}; }
  uint32_t z0 = r0, z1 = r1; RS zm = m;
  for (int n = (int)r.range(1, 24); n > 0; n--) {
    u64 hi, lo = m.next(&hi);
    switch (r.below(3)) {
    case 0: { uint32_t g = iran32(), h = iran32_r(r0, r1); CHECK(g == lo && h == lo, "iran32", std::hex << g << " " << h << " want " << lo); break; }
    case 1: { uint32_t g0 = 1, g1 = 2, h0 = 3, h1 = 4; iran64(g0, g1); iran64_r(h0, h1, r0, r1); CHECK(g0 == hi && g1 == lo && h0 == hi && h1 == lo, "iran64", std::hex << g0 << g1 << " " << h0 << h1 << " want " << hi << lo); break; }
    default: { float g = fran32(), h = fran32_r(r0, r1), w = (float)(lo & 0x7fffff) / 8388608.0f; CHECK(g == w && h == w && g >= 0.0f && g < 1.0f, "fran32", g << " " << h << " want " << w); break; }
    }
    CHECK(r0 == m.s0 && r1 == m.s1, "state", std::hex << r0 << " " << r1 << " want " << m.s0 << " " << m.s1);
  }
  // streams with states of their own do not disturb each other
  uint32_t y0 = word(r), y1 = word(r); RS ym{y0, y1};
  for (int n = 0; n < 6; n++) {
    if (r.coin()) { u64 w = ym.next(); CHECK(iran32_r(y0, y1) == w, "independent", w); }
    else { u64 w = zm.next(); CHECK(iran32_r(z0, z1) == w, "independent", w); }
  }
  { uint32_t t0 = 0, t1 = 0; sran32_timeofday_r(t0, t1); RS tm{t0, t1}; for (int n = 0; n < 3; n++) { u64 w = tm.next(); CHECK(iran32_r(t0, t1) == w, "timeofday_r", w); } }
  // the random source of the rest of the library
  { u64 s = word(r); sran32(s); RS q{0, s}; u64 w = q.next(); CHECK((uint32_t)get_random_int() == w, "random_int", w); w = q.next(); CHECK(get_random_uint32() == w, "random_uint32", w);
    u64 l = q.next(), h = q.next(); u64 g = get_random_uint64(); CHECK(g == (h << 32 | l) || g == (l << 32 | h), "random_uint64", std::hex << g); }
}

// ---------------------------------------------------------------- tokens
SECTION(tokens) {
  Rng &r = c.rng;
  static const std::vector<std::string> seps = {" ", " \t", ",", ":", " \t\n", ",;", "/", "x", ""};
  std::string sp = r.pick(seps), al = "ab1-x\x80\xff" + sp + sp + sp, s;
  int len = (int)(r.chance(1, 10) ? r.range(200, 3000) : r.range(0, 30));
  for (int i = 0; i < len; i++) s += r.chance(1, 4) && !s.empty() ? s.back() : al[r.below(al.size())];
  c.input(sp + "|" + s, !s.empty());
  std::vector<std::string> w; bool in = false;
  for (char ch : s) { bool is = sp.find(ch) != std::string::npos; if (is) in = false; else { if (!in) w.push_back(""); in = true; w.back() += ch; } }
  if (c.want_sample()) c.sample(fw_quote(s.substr(0, 60)) + " -> " + std::to_string(w.size()) + " tokens");
  std::vector<char> b(s.begin(), s.end()); b.push_back(0);
  { int n = spffl::base::count_tokens(b.data(), sp.c_str()); CHECK(n == (int)w.size(), "count", fw_quote(s) << " has " << n << " want " << w.size()); CHECK(s == std::string(b.data()), "count_keeps", fw_quote(s)); }
  for (int pass = 0; pass < 2; pass++) {
    int max = pass ? (int)r.below(w.size() + 3) : (int)w.size() + (int)r.below(3);
    std::vector<char> t(s.begin(), s.end()); t.push_back(0);
    std::vector<char *> av(max + 1, (char *)0);
    int n = spffl::base::tokenize(t.data(), sp.c_str(), av.data(), max), want = std::min(max, (int)w.size());
    CHECK(n == want, "tokenize_count", fw_quote(s) << " gives " << n << " want " << want);
    for (int i = 0; i < n && i < want; i++) CHECK(av[i] >= t.data() && av[i] < t.data() + t.size() && w[i] == av[i], "token", fw_quote(s) << " token " << i << " is " << fw_quote(av[i]) << " want " << fw_quote(w[i]));
    CHECK(!av[max], "tokenize_limit", "wrote past the limit");
  }
  { std::string l = s; if (r.coin()) l += "\n"; if (r.chance(1, 6)) l += "\n"; std::vector<char> t(l.begin(), l.end()); t.push_back(0); std::string want = l; if (!want.empty() && want.back() == '\n') want.pop_back(); spffl::base::chomp(t.data()); CHECK(want == t.data(), "chomp", fw_quote(l)); }
  { std::string l; for (int i = (int)r.below(8); i > 0; i--) l += " \t\n\r\v\f"[r.below(6)]; if (r.coin()) l.insert(r.below(l.size() + 1), 1, "a0-_."[r.below(5)]); bool want = l.find_first_not_of(" \t\n\r\v\f") == std::string::npos; CHECK(spffl::base::is_whitespace_line(&l[0]) == want, "whitespace", fw_quote(l)); }
  // integers
  { std::string t; static const std::vector<std::string> pre = {"", "", "", "-", "+", " ", "--", "x"}, post = {"", "", "", "", " ", "x", "-", "-7", ".", "e3"};
    i64 v = r.chance(1, 4) ? r.range(2147483640, 2147483660) : r.chance(1, 8) ? (i64)(r.next() >> 1) : r.range(0, 1000);
    std::string pr = r.pick(pre), po = r.pick(post); t = pr + std::to_string(v) + po;
    i64 n = pr == "-" ? -v : v; bool ok = (pr == "" || pr == "-" || pr == "+" || pr == " ") && (po == "" || po == " ") && n >= INT_MIN && n <= INT_MAX;
    int g = 12345; bool a = spffl::base::scan_int(t.c_str(), g); CHECK(a == ok && (!ok || g == n), "scan_int", t << " gives " << a << " " << g); }
}

// ---------------------------------------------------------------- random elements
// Seeds are chosen by the case; draws must lie in the domain, reach all of it and depend on the seed alone.
struct Cover {
  std::map<std::string, int> seen; int draws = 0;
  void add(const std::string &s) { seen[s]++; draws++; }
};
template <class Gen, class Ok> static void cover(Ctx &c, const std::string &what, u64 size, Gen gen, Ok ok, u64 limit = 64) {
  Cover cv; uint32_t seed = (uint32_t)c.rng.next();
  sran32(seed);
  bool full = size <= limit; // a value missing from 40 * size fair draws has probability below size * e^-40
  u64 n = full ? 40 * size + 100 : 300;
  std::vector<std::string> first;
  for (u64 i = 0; i < n; i++) {
    auto v = gen();
    std::string s = img(v), why;
    if (i < 20) first.push_back(s);
    if (!ok(v, why)) { CHECK(false, "domain", what << ": drew " << s << " " << why); break; }
    cv.add(s);
  }
  c.event("draw", n);
  CHECK(!full || cv.seen.size() == size, "coverage", what << ": " << cv.seen.size() << " of " << size << " values in " << n << " draws");
  CHECK(size < 2 || cv.seen.size() > 1, "constant", what);
  CHECK(cv.seen.size() <= size || !full, "too_many", what << ": " << cv.seen.size() << " values of " << size);
  sran32(seed);
  for (size_t i = 0; i < first.size(); i++) { std::string s = img(gen()); CHECK(s == first[i], "seeded", what << ": draw " << i << " is " << s << " the first time " << first[i]); }
}
// high degree: every coefficient takes more than one value, and the positions are not locked together
template <class Gen> static void spread(Ctx &c, const std::string &what, int deg, Gen gen, bool lead_varies) {
  std::vector<std::set<std::string>> at(deg + 1);
  std::set<std::string> pairs; // value at a random position against its neighbour
  int pos = deg > 0 ? (int)c.rng.below(deg) : 0;
  std::set<std::string> whole;
  for (int k = 0; k < 60; k++) {
    std::vector<std::string> v = gen();
    std::string w;
    for (int i = 0; i <= deg; i++) { at[i].insert(v[i]); w += v[i] + " "; }
    if (deg > 1) pairs.insert(v[pos] + "/" + v[pos ? pos - 1 : pos + 1]);
    whole.insert(w);
  }
  c.event("draw", 60);
  for (int i = 0; i <= deg - (lead_varies ? 0 : 1); i++) CHECK(at[i].size() > 1, "coefficient_constant", what << " coefficient " << i << " is always " << *at[i].begin());
  if (deg > 1) CHECK(pairs.size() > 2, "coefficients_locked", what << " positions " << pos);
  if (deg > 24) CHECK(whole.size() > 50, "draws_repeat", what << " only " << whole.size() << " different of 60");
}
SECTION(rand_mod) {
  Rng &r = c.rng;
  i64 m = r.chance(1, 5) ? r.range(2, INT_MAX) : r.range(2, 140);
  c.input(std::to_string(m), m > 2);
  auto ok = [&](const intmod_t &x, std::string &) { return x.get_modulus() == m && x.get_residue() >= 0 && x.get_residue() < m; };
  if (m < 140) cover(c, "intmod_random(" + std::to_string(m) + ")", m, [&] { return intmod_random((int)m); }, ok, 140);
  else {
    sran32((uint32_t)r.next());
    std::set<int> b, par; std::string w;
    for (int i = 0; i < 400; i++) { intmod_t x = intmod_random((int)m); CHECK(ok(x, w), "domain", img(x)); b.insert((int)((u128)x.get_residue() * 16 / m)); par.insert(x.get_residue() & 1); }
    CHECK(b.size() == 16, "buckets", "modulus " << m << ": only " << b.size() << " of 16 sixteenths reached"); CHECK(par.size() == 2, "parity", m);
  }
  if (c.want_sample()) c.sample("modulus " + std::to_string(m));
  REFUSED(intmod_random((int)r.range(-9, 1)), "bad_modulus", "modulus below 2");
}
SECTION(rand_f2) {
  Rng &r = c.rng;
  int d = (int)(r.chance(1, 4) ? r.range(8, 200) : r.range(0, 6));
  c.input(std::to_string(d) + "/" + std::to_string(r.s), d > 0);
  auto ok = [&](const f2_poly_t &x, std::string &w) { w = "degree"; return x.find_degree() == d && x.bit_at(d) == 1; };
  cover(c, "f2_poly_random(" + std::to_string(d) + ")", d < 20 ? 1u << d : ~0u, [&] { return f2_poly_random(d); }, ok);
  spread(c, "f2_poly_random", d, [&] { f2_poly_t x = f2_poly_random(d); std::vector<std::string> v; for (int i = 0; i <= d; i++) v.push_back(std::to_string(x.bit_at(i))); return v; }, false);
  REFUSED(f2_poly_random(-(int)r.range(1, 9)), "bad_degree", "");
  AF2 a(r); Poly M = a.R.random_exact(r, (int)r.range(1, 6)); f2_poly_t m = a.to(M);
  auto okm = [&](const f2_polymod_t &x, std::string &w) { w = "reduced"; return x.get_modulus() == m && a.from(x.get_residue()).size() < M.size(); };
  cover(c, "f2_polymod_random(" + img(m) + ")", 1u << ref::PR::deg(M), [&] { return f2_polymod_random(m); }, okm);
  REFUSED(f2_polymod_random(f2_poly_t((int)r.below(2))), "bad_modulus", "");
  if (c.want_sample()) c.sample("degree " + std::to_string(d) + ", modulus " + img(m));
}
SECTION(rand_fp) {
  Rng &r = c.rng;
  AFp a(r); i64 p = a.p;
  int d = (int)(r.chance(1, 4) ? r.range(6, 40) : r.range(0, 3));
  c.input(std::to_string(p) + "/" + std::to_string(d) + "/" + std::to_string(r.s), d > 0);
  auto ok = [&](const fp_poly_t &x, std::string &w) { w = "degree or form"; return x.find_degree() == d && x.get_characteristic() == p && a.normal(x) && x.get_coeff(d).get_residue() != 0; };
  double n = p - 1; for (int i = 0; i < d; i++) n *= p;
  cover(c, "fp_poly_random(" + std::to_string(p) + "," + std::to_string(d) + ")", n < 1e6 ? (u64)n : ~0u, [&] { return fp_poly_random((int)p, d); }, ok);
  spread(c, "fp_poly_random", d, [&] { fp_poly_t x = fp_poly_random((int)p, d); std::vector<std::string> v; for (int i = 0; i <= d; i++) v.push_back(img(x.get_coeff(i))); return v; }, p > 2);
  REFUSED(fp_poly_random((int)p, -(int)r.range(1, 9)), "bad_degree", "");
  Poly M = a.R.random_exact(r, (int)r.range(1, 3)); fp_poly_t m = a.to(M);
  auto okm = [&](const fp_polymod_t &x, std::string &w) { w = "reduced"; return x.get_modulus() == m && a.normal(x.get_residue()) && a.from(x.get_residue()).size() < M.size(); };
  double q = 1; for (int i = 0; i < ref::PR::deg(M); i++) q *= p;
  cover(c, "fp_polymod_random(" + img(m) + ")", q < 1e6 ? (u64)q : ~0u, [&] { return fp_polymod_random(m); }, okm);
  REFUSED(fp_polymod_random(a.to(a.R.cst(a.R.F.random(r)))), "bad_modulus", "");
  if (c.want_sample()) c.sample("p=" + std::to_string(p) + " degree " + std::to_string(d));
}
SECTION(rand_f2n) {
  Rng &r = c.rng;
  AF2n a(r); u64 q = a.R.F.q();
  int d = (int)(r.chance(1, 4) ? r.range(4, 20) : r.range(0, 2));
  c.input(img(a.m) + "/" + std::to_string(d) + "/" + std::to_string(r.s), d > 0);
  auto ok = [&](const f2n_poly_t &x, std::string &w) { w = "degree or form"; return x.find_degree() == d && a.normal(x) && x.get_coeff(d).get_residue() != 0; };
  double n = q - 1; for (int i = 0; i < d; i++) n *= q;
  cover(c, "f2n_poly_random(" + img(a.m) + "," + std::to_string(d) + ")", n < 1e6 ? (u64)n : ~0u, [&] { return f2n_poly_random(a.m, d); }, ok);
  spread(c, "f2n_poly_random", d, [&] { f2n_poly_t x = f2n_poly_random(a.m, d); std::vector<std::string> v; for (int i = 0; i <= d; i++) v.push_back(img(x.get_coeff(i))); return v; }, q > 2);
  REFUSED(f2n_poly_random(a.m, -(int)r.range(1, 9)), "bad_degree", "");
  Poly M = a.R.random_exact(r, (int)r.range(1, 2)); f2n_poly_t m = a.to(M);
  auto okm = [&](const f2n_polymod_t &x, std::string &w) { w = "reduced"; return x.get_modulus() == m && a.normal(x.get_residue()) && a.from(x.get_residue()).size() < M.size(); };
  double qq = 1; for (int i = 0; i < ref::PR::deg(M); i++) qq *= q;
  cover(c, "f2n_polymod_random(" + img(m) + ")", qq < 1e6 ? (u64)qq : ~0u, [&] { return f2n_polymod_random(a.m, m); }, okm);
  if (c.want_sample()) c.sample("field modulus " + img(a.m) + " degree " + std::to_string(d));
}

// ---------------------------------------------------------------- cyclotomic polynomials
typedef std::vector<i64> ZP;
// product of (x^d - 1)^mu(n/d) as a power series to degree totient(n)
static ZP cyclo(i64 n) {
  int D = (int)ref::totient(n);
  ZP a(D + 1, 0); a[0] = 1;
  int neg = 0;
  for (i64 d : ref::divisors(n)) {
    auto f = ref::factor(n / d); int mu = 1;
    for (auto &x : f) mu = x.second > 1 ? 0 : -mu;
    if (!mu) continue;
    neg ^= 1; // (x^d - 1) = -(1 - x^d)
    if (mu > 0) { for (int i = D; i >= d; i--) a[i] -= a[i - d]; } else { for (int i = (int)d; i <= D; i++) a[i] += a[i - d]; }
  }
  if (neg) for (i64 &x : a) x = -x;
  return a;
}
static bool qeq(const q_poly_t &q, const ZP &w) {
  if (q.find_degree() != (int)w.size() - 1) return false;
  for (int i = 0; i < (int)w.size(); i++) { intrat_t k = q.get_coeff(i); if (k.get_denominator() != 1 || k.get_numerator() != w[i]) return false; }
  return true;
}
static std::string zs(const ZP &w) { std::string s; for (size_t i = w.size(); i-- > 0;) s += std::to_string(w[i]) + (i ? "," : ""); return s; }
template <class A> static bool image(const A &a, const typename A::P &x, const ZP &w) {
  Poly P; for (i64 k : w) P.push_back(a.R.F.fromint(k)); a.R.trim(P);
  return a.normal(x) && a.from(x) == P;
}
SECTION(cyclo) {
  Rng &r = c.rng;
  static const std::vector<i64> sp = {1, 2, 3, 4, 15, 16, 17, 18, 30, 105, 120, 165, 195, 210, 240, 255, 256};
  int n = (int)(r.chance(1, 3) ? r.pick(sp) : r.chance(1, 6) ? r.range(100, 260) : r.range(1, 60));
  c.input(std::to_string(n), n > 1);
  ZP w = cyclo(n);
  q_poly_t q = get_cyclo_qpoly(n);
  CHECK(qeq(q, w), "cyclotomic", n << ": " << q << " want " << zs(w));
  CHECK(q.find_degree() == ref::totient(n), "degree", n);
  if (c.want_sample()) c.sample("n=" + std::to_string(n) + " -> " + str(q).substr(0, 60));
  CHECK(qeq(get_cyclo_qpoly(n), w), "again", n);
  // the result is the caller's: changing it must not change what the next caller gets
  { q_poly_t z = get_cyclo_qpoly(n); z.set_coeff(0, intrat_t(7)); z *= z; CHECK(qeq(get_cyclo_qpoly(n), w), "memo", n); }
  if (n <= 60) { // product over the divisors
    q_poly_t pr(1); for (i64 d : ref::divisors(n)) pr = pr * get_cyclo_qpoly((int)d);
    ZP z(n + 1, 0); z[n] = 1; z[0] = -1; CHECK(qeq(pr, z), "product", n << ": " << pr);
  }
  AF2 a2(r); CHECK(image(a2, get_cyclo_f2_poly(n), w), "f2", n << ": " << get_cyclo_f2_poly(n));
  AFp ap(r); CHECK(image(ap, get_cyclo_fp_poly(n, ap.p), w), "fp", n << " mod " << ap.p << ": " << get_cyclo_fp_poly(n, ap.p));
  if (n <= 130) {
    AF2n an(r); CHECK(image(an, get_cyclo_f2n_poly(n, an.m), w), "f2n", n << " over " << an.m << ": " << get_cyclo_f2n_poly(n, an.m));
    AFpn aq(r); CHECK(image(aq, get_cyclo_fpn_poly(n, aq.m), w), "fpn", n << " over " << aq.m << ": " << get_cyclo_fpn_poly(n, aq.m));
  }
  REFUSED(get_cyclo_qpoly(-(int)r.below(20)), "index", "n below 1");
}
// ---------------------------------------------------------------- rational to finite field
template <class A, class F> static void qimage(Ctx &c, const A &a, i64 p, const std::vector<std::pair<i64, i64>> &q, const q_poly_t &Q, F f, const char *key) {
  bool ok = true; Poly w;
  for (auto &x : q) { i64 inv; if (!ref::invmod(x.second, p, inv)) { ok = false; break; } w.push_back(a.R.F.fromint(ref::mulmod(x.first, inv, p))); }
  if (!ok) { REFUSED(f(), key, Q); return; }
  a.R.trim(w);
  auto x = f();
  CHECK(a.normal(x) && a.from(x) == w, key, Q << " mod " << p << " is " << x << " want " << a.R.show(w));
}
SECTION(qff) {
  Rng &r = c.rng;
  AF2 a2(r); AFp ap(r); AF2n an(r); AFpn aq(r);
  i64 p = r.coin() ? ap.p : r.coin() ? aq.p : 2;
  std::vector<std::pair<i64, i64>> q; q_poly_t Q(0);
  bool unit = r.chance(2, 3); // no denominator divisible by the primes in play
  i64 b = r.coin() ? 12 : 40000;
  for (int n = (int)r.range(1, 9); n > 0; n--) {
    i64 x = r.range(-b, b), y = r.range(1, b);
    if (r.chance(1, 4)) x *= p;
    if (unit) while (y % 2 == 0 || y % ap.p == 0 || y % aq.p == 0) y = r.range(1, b);
    else if (r.chance(1, 5)) y *= p;
    i64 g = ref::gcd(x, y); x /= g; y /= g;
    if (std::llabs(x) > INT_MAX || y > INT_MAX) { x = 1; y = 1; }
    q.push_back({x, y});
  }
  if (r.chance(1, 5)) { q.back() = {p, 1}; } // the leading coefficient vanishes
  while (q.size() > 1 && q.back().first == 0) q.pop_back();
  for (int i = (int)q.size() - 1; i >= 0; i--) Q.set_coeff(i, intrat_t((int)q[i].first, (int)q[i].second));
  c.input(str(Q) + "/" + std::to_string(p), q.size() > 1);
  if (c.want_sample()) c.sample(str(Q) + " mod 2, " + std::to_string(ap.p) + ", " + std::to_string(aq.p));
  qimage(c, a2, 2, q, Q, [&] { return f2_poly_from_q_poly(Q); }, "f2");
  qimage(c, ap, ap.p, q, Q, [&] { return fp_poly_from_qpoly(Q, ap.p); }, "fp");
  qimage(c, an, 2, q, Q, [&] { return f2n_poly_from_qpoly(Q, an.m); }, "f2n");
  qimage(c, aq, aq.p, q, Q, [&] { return fpn_poly_from_qpoly(Q, aq.m); }, "fpn");
  { i64 m = r.coin() ? r.range(2, 60) : r.range(2, 40000), inv; intrat_t k((int)q[0].first, (int)q[0].second);
    if (!ref::invmod(q[0].second, m, inv)) REFUSED(intmod_from_rat(k, (int)m), "intmod", k << " mod " << m);
    else { intmod_t g = intmod_from_rat(k, (int)m); CHECK(g.get_modulus() == m && g.get_residue() == ref::mulmod(ref::emod(q[0].first, m), inv, m), "intmod", k << " mod " << m << " is " << g); }
    if (q[0].second % 2 == 0) REFUSED(bit_from_rat(k), "bit", k); else CHECK(bit_from_rat(k).get_residue() == (q[0].first & 1), "bit", k); }
}
