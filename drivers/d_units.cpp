// Orders, generators and discrete logarithms in Z/m and in residue rings of polynomials.
#include <climits>
#include <set>
#include "adapt.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
#include "spffl/bitrand/psdes.h"
using namespace spffl::units;

struct UF2 : AF2 {
  using AF2::AF2;
  int order(const PM &a) { return f2_polymod_order(a); }
  bool gen(const P &m, PM &g) { return f2_polymod_find_generator(m, g); }
  int log(const PM &g, const PM &a) { return f2_polymod_log(g, a); }
  int maxdeg(Rng &r, bool irr) { return irr ? (r.chance(1, 6) ? 16 : 12) : 9; }
};
struct UF2n : AF2n {
  static Fld small(Rng &r) {
    int n = (int)r.range(1, 4);
    PR b{Fld(2)};
    std::vector<i64> m;
    for (auto &e : b.random_irreducible(r, n)) m.push_back(e[0]);
    return Fld(2, m);
  }
  explicit UF2n(Rng &r) : AF2n(small(r)) {}
  int order(const PM &a) { return f2n_polymod_order(a); }
  bool gen(const P &m, PM &g) { return f2n_polymod_find_generator(m, g); }
  int log(const PM &g, const PM &a) { return f2n_polymod_log(g, a); }
  int maxdeg(Rng &r, bool irr) { static const int q[5] = {0, 9, 5, 3, 3}; return q[R.F.n]; }
};

// phi(m) and its structure, by trial division in the reference ring.
template <class A> static u64 phi_of(A &a, const Poly &m) {
  u64 phi = 1, q = a.R.F.q();
  Poly f = a.R.monic(m);
  auto take = [&](const Poly &g) {
    int e = 0;
    while (PR::deg(f) >= PR::deg(g) && a.R.mod(f, g).empty()) { f = a.R.div(f, g); e++; if (PR::deg(f) == 0) break; }
    if (e) { u64 n = 1; for (int i = 0; i < PR::deg(g); i++) n *= q; phi *= n - 1; for (int i = 1; i < e; i++) phi *= n; }
  };
  for (int d = 1; PR::deg(f) > 0; d++) {
    if (2 * d > PR::deg(f) || a.R.irreducible(f)) { Poly g = f; take(g); break; }
    u64 n = 1;
    for (int i = 0; i < d; i++) n *= q;
    for (u64 k = 0; k < n && PR::deg(f) > 0; k++) { Poly g = a.R.index(k, d); g.resize(d + 1, a.R.F.zero); g[d] = a.R.F.one; take(g); }
  }
  return phi;
}
template <class A> static u64 ord_of(A &a, const Poly &x, const Poly &m, u64 phi) {
  u64 o = phi;
  Poly one = a.R.mod(a.R.one(), m);
  for (auto &p : ref::factor((i64)phi)) for (int e = 0; e < p.second; e++) if (o % p.first == 0 && a.R.powmod(x, o / p.first, m) == one) o /= p.first;
  return o;
}
template <class A> static Poly pick_m(A &a, Rng &r, bool irr) {
  int md = a.maxdeg(r, irr), d = (int)r.range(1, md);
  Poly m;
  if (irr) m = a.R.random_irreducible(r, d);
  else {
    int k = (int)r.below(4);
    if (k == 0 && d >= 2) { Poly g = a.R.random_exact(r, d / 2); m = a.R.mul(g, g); }
    else if (k == 1) m = a.R.mono(a.R.F.one, d);
    else if (k == 2 && d >= 2) { int e = (int)r.range(1, d - 1); m = a.R.mul(a.R.random_irreducible(r, e), a.R.random_irreducible(r, d - e)); }
    else m = a.R.random_exact(r, d);
  }
  if (r.chance(1, 3)) m = a.R.scale(m, a.R.F.random_nz(r));
  return m;
}
template <class A> static void order_case(Ctx &c) {
  typedef typename A::P P;
  typedef typename A::PM PM;
  A a(c.rng);
  Rng &r = c.rng;
  bool irr = r.coin();
  const Poly m = pick_m(a, r, irr);
  Poly x = a.R.mod(a.R.random(r, PR::deg(m) - 1), m);
  if (r.chance(1, 10)) x = a.R.mod(a.R.one(), m);
  u64 phi = phi_of(a, m);
  // bias to low orders
  if (r.chance(1, 4)) { auto ds = ref::divisors((i64)phi); x = a.R.powmod(x, (u64)r.pick(ds), m); }
  c.input(a.R.hash(x) * 31 + a.R.hash(m) + a.R.F.q(), !x.empty());
  if (c.want_sample()) c.sample("order of " + a.R.show(x) + " mod " + a.R.show(m));
  P lm = a.to(m);
  const PM lx(a.to(x), lm);
  Poly inv;
  if (a.R.invmod(x, m, inv)) {
    u64 w = ord_of(a, x, m, phi);
    int o = a.order(lx);
    CHECK((u64)o == w, "order", a.R.show(x) << " mod " << a.R.show(m) << " gave " << o << " want " << w);
    CHECK(a.from(lx.get_residue()) == x, "operand_kept", "");
  } else
    REFUSED(a.order(lx), "order_nonunit", a.R.show(x) << " mod " << a.R.show(m));
}
template <class A> static void gen_case(Ctx &c) {
  typedef typename A::P P;
  typedef typename A::PM PM;
  A a(c.rng);
  Rng &r = c.rng;
  bool irr = r.chance(1, 3);
  Poly m = pick_m(a, r, irr);
  // (without a generator every residue is tried: keep those rings small)
  auto small = [&]() { double z = 1; for (int i = 0; i < PR::deg(m); i++) z *= (double)a.R.F.q(); return z <= 130; };
  while (!irr && !small()) m = pick_m(a, r, false);
  c.input(a.R.hash(m) * 31 + a.R.F.q(), PR::deg(m) > 1);
  if (c.want_sample()) c.sample("generator mod " + a.R.show(m));
  u64 phi = phi_of(a, m), q = a.R.F.q(), n = 1;
  for (int i = 0; i < PR::deg(m); i++) n *= q;
  // the first residue of full order, if any
  bool cyc = false;
  Poly first;
  for (u64 k = 1; k < n && !cyc; k++) {
    Poly x = a.R.index(k, PR::deg(m)), inv;
    a.R.trim(x);
    if (!a.R.invmod(x, m, inv)) continue;
    if (ord_of(a, x, m, phi) == phi) { cyc = true; first = x; }
  }
  PM g;
  bool got = a.gen(a.to(m), g);
  CHECK(got == cyc, cyc ? "generator_exists" : "generator_none", a.R.show(m) << " over q=" << q << " reported " << got);
  if (got && cyc) {
    Poly x = a.from(g.get_residue());
    CHECK(a.from(g.get_modulus()) == m, "generator_modulus", a.R.show(m));
    Poly inv;
    CHECK(a.R.invmod(x, m, inv) && ord_of(a, x, m, phi) == phi, "generator", a.R.show(x) << " mod " << a.R.show(m) << " phi " << phi);
    CHECK(x == first, "generator_first", a.R.show(x) << " mod " << a.R.show(m) << " but " << a.R.show(first) << " comes first");
  }
  P c0 = a.to(a.R.one());
  PM h;
  REFUSED(a.gen(c0, h), "generator_degree", "constant modulus");
}
template <class A> static void log_case(Ctx &c) {
  typedef typename A::P P;
  typedef typename A::PM PM;
  A a(c.rng);
  Rng &r = c.rng;
  bool irr = !r.chance(1, 5);
  Poly m = pick_m(a, r, irr);
  if (!irr && PR::deg(m) > 6) m = pick_m(a, r, false);
  u64 phi = phi_of(a, m);
  Poly g, x, inv;
  irr = a.R.irreducible(m);
  const Poly one = a.R.mod(a.R.one(), m);
  for (int t = 0; t < 40; t++) {
    g = a.R.mod(a.R.random(r, PR::deg(m) - 1), m);
    if (a.R.invmod(g, m, inv) && (r.chance(1, 6) || ord_of(a, g, m, phi) == phi)) break;
    g = one;
  }
  x = a.R.mod(a.R.random(r, PR::deg(m) - 1), m);
  int k = (int)r.below(12);
  if (k == 0) x = one;
  if (k == 1) x = g;
  if (k == 2) { if (a.R.invmod(g, m, inv)) x = inv; }
  if (k == 3) x = a.R.powmod(g, r.below(phi), m);
  if (k == 4) g = x; // may be anything
  c.input((a.R.hash(x) * 31 + a.R.hash(m)) * 31 + a.R.hash(g) + a.R.F.q(), !x.empty());
  if (c.want_sample()) c.sample("log base " + a.R.show(g) + " of " + a.R.show(x) + " mod " + a.R.show(m));
  P lm = a.to(m);
  const PM lg(a.to(g), lm), lx(a.to(x), lm);
  if (!a.R.invmod(g, m, inv)) { REFUSED(a.log(lg, lx), "log_base", a.R.show(g) << " mod " << a.R.show(m)); return; }
  u64 og = ord_of(a, g, m, phi);
  bool gener = irr && og == phi && !x.empty();
  // is x in <g>?  (brute force, the groups are small)
  i64 e = -1;
  if (og <= 20000) { Poly y = one; for (u64 i = 0; i < og; i++) { if (y == x) { e = (i64)i; break; } y = a.R.mulmod(y, g, m); } }
  int got = -1;
  bool threw = false;
  try { got = a.log(lg, lx); } catch (const spffl::exception_t &) { threw = true; }
  if (gener) {
    CHECK(!threw, "log_exists", "log base " << a.R.show(g) << " of " << a.R.show(x) << " mod " << a.R.show(m) << " was refused");
    if (!threw) CHECK(got >= 0 && (u64)got < phi, "log_range", "log base " << a.R.show(g) << " of " << a.R.show(x) << " mod " << a.R.show(m) << " gave " << got << " group order " << phi);
    if (!threw && e >= 0) CHECK(got == e, "log_value", "log base " << a.R.show(g) << " of " << a.R.show(x) << " mod " << a.R.show(m) << " gave " << got << " want " << e);
  }
  if (!threw && got >= 0) CHECK(a.R.powmod(g, (u64)got, m) == x, "log_true", "log base " << a.R.show(g) << " of " << a.R.show(x) << " mod " << a.R.show(m) << " gave " << got);
  if (!threw) CHECK(got >= 0, "log_negative", got);
  if (og <= 20000 && e < 0) CHECK(threw, "log_none", "log base " << a.R.show(g) << " of " << a.R.show(x) << " mod " << a.R.show(m) << " gave " << got << " but there is none");
}
SECTION(ord_f2) { order_case<UF2>(c); }
SECTION(ord_f2n) { order_case<UF2n>(c); }
SECTION(gen_f2) { gen_case<UF2>(c); }
SECTION(gen_f2n) { gen_case<UF2n>(c); }
SECTION(log_f2) { log_case<UF2>(c); }
SECTION(log_f2n) { log_case<UF2n>(c); }

static i64 ord_int(i64 x, i64 m) {
  i64 o = m == 2 ? 1 : ref::totient(m);
  for (auto &p : ref::factor(o)) for (int e = 0; e < p.second; e++) if (o % p.first == 0 && ref::powmod(x, (u64)(o / p.first), m) == 1 % m) o /= p.first;
  return o;
}
static i64 pick_mod(Rng &r, bool &prime) {
  static const std::vector<i64> ps = {2, 3, 5, 7, 11, 13, 17, 31, 41, 73, 97, 101, 127, 191, 257, 409, 1009, 2141, 7919, 32749, 46337, 46349, 65521, 65537};
  static const std::vector<i64> ms = {4, 6, 8, 9, 10, 12, 14, 15, 16, 18, 21, 22, 24, 25, 27, 30, 49, 50, 54, 60, 64, 81, 121, 125, 128, 162, 210, 242, 243, 250, 256, 343, 561, 625, 686, 1000, 1024, 1105, 2401, 4096, 4802, 10000, 14641, 65536};
  int k = (int)r.below(10);
  if (k < 5) { prime = true; return r.pick(ps); }
  if (k < 8) { prime = false; return r.pick(ms); }
  i64 m = r.range(2, 3000);
  prime = ref::is_prime(m);
  return m;
}
SECTION(ord_fp) {
  Rng &r = c.rng;
  bool prime;
  i64 m = pick_mod(r, prime);
  i64 x = r.below(m);
  if (r.chance(1, 8)) x = r.coin() ? 1 % m : m - 1;
  if (r.chance(1, 4)) { auto ds = ref::divisors(m == 2 ? 1 : ref::totient(m)); x = ref::powmod(x, (u64)r.pick(ds), m); }
  c.input((u64)(m * 100003 + x), x > 1);
  if (c.want_sample()) c.sample("order of " + std::to_string(x) + " mod " + std::to_string(m));
  if (ref::gcd(x, m) == 1) {
    int o = fp_order(intmod_t((int)x, (int)m));
    CHECK(o == ord_int(x, m), "order", x << " mod " << m << " gave " << o << " want " << ord_int(x, m));
  } else
    REFUSED(fp_order(intmod_t((int)x, (int)m)), "order_nonunit", x << " mod " << m);
}
SECTION(gen_fp) {
  Rng &r = c.rng;
  bool prime;
  i64 m = pick_mod(r, prime);
  while (m > 5000 && !prime) m = pick_mod(r, prime);
  c.input((u64)m, m > 3);
  if (c.want_sample()) c.sample("generator mod " + std::to_string(m));
  i64 phi = m == 2 ? 1 : ref::totient(m), first = -1;
  for (i64 x = 1; x < m; x++) if (ref::gcd(x, m) == 1 && ord_int(x, m) == phi) { first = x; break; }
  intmod_t g;
  bool got = fp_find_generator((int)m, g);
  // Gauss: cyclic exactly for 1, 2, 4, p^k, 2p^k
  auto f = ref::factor(m % 4 == 2 ? m / 2 : m);
  bool cyc = m == 2 || m == 4 || (f.size() == 1 && f[0].first != 2);
  CHECK(cyc == (first >= 0), "oracle_agrees", m);
  CHECK(got == cyc, cyc ? "generator_exists" : "generator_none", m << " reported " << got);
  if (got && cyc) {
    CHECK(g.get_modulus() == m && g.get_residue() == first, "generator", m << " gave " << g.get_residue() << " want " << first);
  }
}
SECTION(log_fp) {
  Rng &r = c.rng;
  bool prime;
  i64 m = pick_mod(r, prime);
  i64 g = 1, phi = m == 2 ? 1 : ref::totient(m);
  for (int t = 0; t < 60; t++) { g = r.below(m); if (ref::gcd(g, m) == 1 && (r.chance(1, 8) || ord_int(g, m) == phi)) break; }
  i64 x = r.below(m);
  int k = (int)r.below(10);
  if (k == 0) x = 1 % m;
  if (k == 1) x = m - 1;
  if (k == 2) x = g;
  if (k == 3 || !prime) x = ref::powmod(g, r.below(phi), m);
  if (k == 4) g = r.below(m);
  c.input((u64)((m * 70001 + x) * 70001 + g), x > 1);
  if (c.want_sample()) c.sample("log base " + std::to_string(g) + " of " + std::to_string(x) + " mod " + std::to_string(m));
  intmod_t lg((int)g, (int)m), lx((int)x, (int)m);
  if (ref::gcd(g, m) != 1) { REFUSED(fp_log(lg, lx), "log_base", g << " mod " << m); return; }
  i64 og = ord_int(g, m), e = -1;
  { i64 y = 1 % m; for (i64 i = 0; i < og; i++) { if (y == x) { e = i; break; } y = ref::mulmod(y, g, m); } }
  int got = -1;
  bool threw = false;
  try { got = fp_log(lg, lx); } catch (const spffl::exception_t &) { threw = true; }
  if (prime && og == phi && x != 0) {
    CHECK(!threw, "log_exists", g << " " << x << " mod " << m);
    if (!threw) { CHECK(got >= 0 && got < phi, "log_range", g << " " << x << " mod " << m << " gave " << got); CHECK(got == e, "log_value", g << " " << x << " mod " << m << " gave " << got << " want " << e); }
  }
  if (!threw) CHECK(got >= 0 && ref::powmod(g, (u64)got, m) == x, "log_true", g << " " << x << " mod " << m << " gave " << got);
  if (e < 0) CHECK(threw, "log_none", g << " " << x << " mod " << m << " gave " << got);
}
