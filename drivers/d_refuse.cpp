// Refusals: every kind of invalid operation must end in a library error, with every operand keeping its value
// and its usefulness.  Each case builds a few valid operands, records their images and what ordinary operations
// on them give, and then runs invalid operations in random order, comparing both again after each of them.
#include "img.h"
#include "spffl/base/line_scan.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/min_char_polys.h"
#include "spffl/list/list_elements.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/q_cyclotomic/qff.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/random/intmod_random.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
using namespace spffl;

struct Bad {
  Ctx &c;
  std::string type;
  std::vector<std::function<std::string()>> ops;                        // operands, as images
  std::vector<std::function<std::string()>> uses;                       // ordinary operations
  std::vector<std::pair<const char *, std::function<void()>>> bad;      // invalid operations
  Bad(Ctx &x, const std::string &t) : c(x), type(t) {}
  template <class T> void keep(T &x) { ops.push_back([&x] { return img(x); }); }
  void use(std::function<std::string()> f) { uses.push_back([f] { try { return f(); } catch (const spffl::exception_t &e) { return std::string("refused: ") + e.what(); } }); }
  void no(const char *name, std::function<void()> f) { bad.push_back({name, f}); }
  void go() {
    Rng &r = c.rng;
    std::vector<std::string> im, us;
    std::string key = type;
    for (auto &f : ops) { im.push_back(f()); key += im.back() + ";"; }
    for (auto &f : uses) us.push_back(f());
    c.input(key, true);
    if (c.want_sample()) c.sample(key.substr(0, 200));
    int steps = (int)r.range(6, 24);
    for (int s = 0; s < steps; s++) {
      auto &b = bad[r.below(bad.size())];
      bool refused = false, other = false;
      std::string what;
      try { b.second(); } catch (const spffl::exception_t &e) { refused = true; what = e.what(); } catch (const std::exception &e) { other = true; what = e.what(); }
      CHECK(refused, b.first, type << ": " << b.first << (other ? " ends in another exception: " + what : " is accepted") << " on " << key);
      if (refused) CHECK(!what.empty(), "message", type << ": " << b.first << " gives no message");
      for (size_t i = 0; i < ops.size(); i++) { std::string g = ops[i](); CHECK(g == im[i], "operand_kept", type << ": " << b.first << " changed an operand from " << im[i] << " to " << g); refused = refused && g == im[i]; }
      if (!refused) return;   // what follows would be about spoiled operands
      if (r.chance(1, 3)) for (size_t i = 0; i < uses.size(); i++) { std::string g = uses[i](); CHECK(g == us[i], "usable", type << ": after " << b.first << " an ordinary operation gives " << g << ", before " << us[i]); }
    }
  }
};
#define NO(name, ...) b.no(name, [&] { __VA_ARGS__; })
#define USE(...) b.use([&]() -> std::string { return img(__VA_ARGS__); })

// binary operators with an invalid right operand
#define NOBIN(tag, x, y) NO(tag " +", (void)((x) + (y))); NO(tag " -", (void)((x) - (y))); NO(tag " *", (void)((x) * (y)))
#define NODIV(tag, x, y) NO(tag " /", (void)((x) / (y))); NO(tag " %", (void)((x) % (y))); NO(tag " /=", (x) /= (y)); NO(tag " %=", (x) %= (y))
#define NOORD(tag, x, y) NO(tag " <", (void)((x) < (y))); NO(tag " <=", (void)((x) <= (y))); NO(tag " >", (void)((x) > (y))); NO(tag " >=", (void)((x) >= (y)))
#define NOCOMP(tag, x, y) NO(tag " +=", (x) += (y)); NO(tag " -=", (x) -= (y)); NO(tag " *=", (x) *= (y))

// ---------------------------------------------------------------- scalars
SECTION(ref_mod) {
  Rng &r = c.rng;
  int m = (int)r.pick(std::vector<i64>{2, 3, 4, 5, 6, 9, 12, 101, 65537, 1 << 20}), m2 = m + 1 + (int)r.below(5);
  intmod_t x((int)r.range(1, m - 1), m), y((int)r.below(m), m), z(0, m), w((int)r.range(1, m2 - 1), m2), un;
  Bad b(c, "intmod_t");
  b.keep(x); b.keep(y); b.keep(z); b.keep(w);
  USE(x + y); USE(x * y); USE(y - x); USE(w * w); USE(x.exp(5));
  NODIV("by zero", x, z);
  NO("zero ^ 0", z.exp(0)); NO("zero ^ -k", z.exp(-(int)r.range(1, 9)));
  int d = 0;
  for (int k = 2; k < m && k < 50; k++) if (m % k == 0) { d = k; break; }
  intmod_t nu(d, m);
  if (d) { b.keep(nu); NODIV("by a zero divisor", x, nu); NO("zero divisor ^ -k", nu.exp(-(int)r.range(1, 9))); }
  NOBIN("mixed", x, w); NODIV("mixed", x, w); NOCOMP("mixed", x, w);
  NOORD("mixed", x, w); NOORD("mixed", w, x);
  NO("modulus 0", intmod_t(1, 0)); NO("modulus < 0", intmod_t(1, -(int)r.range(1, 99)));
  NO("unset +", un + x); NO("+ unset", x + un); NO("unset * unset", un * un); NO("- unset", -un); NO("unset ^", un.exp(3)); NO("+= unset", x += un);
  NO("random mod 0", (void)random::intmod_random(0)); NO("random mod < 0", (void)random::intmod_random(-(int)r.range(1, 99)));
  NO("list mod 0", (void)list::intmod_list(0, list::SP_LIST_ALL)); NO("list mod < 0", (void)list::intmod_list(-(int)r.range(1, 9), list::SP_LIST_UNITS));
  NO("list of a kind that needs a generator", (void)list::intmod_list(m & 1023, list::SP_LIST_MULTIPLES)); NO("generated list of a plain kind", (void)list::intmod_glist(intmod_t(1, 7), list::SP_LIST_ALL));
  NO("order of 0", (void)units::fp_order(z)); if (d) NO("order of a zero divisor", (void)units::fp_order(nu));
  NO("log of 0", (void)units::fp_log(intmod_t(3, 7), intmod_t(0, 7))); NO("log outside the subgroup", (void)units::fp_log(intmod_t(2, 7), intmod_t(3, 7))); NO("log to base 0", (void)units::fp_log(intmod_t(0, 7), intmod_t(3, 7)));
  NO("log mixed", (void)units::fp_log(intmod_t(3, 7), intmod_t(2, 11)));
  NO("generator mod 0", { intmod_t g; (void)units::fp_find_generator(0, g); }); NO("generator mod < 0", { intmod_t g; (void)units::fp_find_generator(-(int)r.range(1, 99), g); });
  b.go();
}
SECTION(ref_bit) {
  Rng &r = c.rng;
  bit_t x(1), y((int)r.below(2)), z(0);
  Bad b(c, "bit_t");
  b.keep(x); b.keep(y); b.keep(z);
  USE(x + y); USE(x * y);
  NODIV("by zero", x, z); NODIV("by zero", z, z); NO("zero ^ -k", z.exp(-(int)r.range(1, 9)));
  b.go();
}
SECTION(ref_rat) {
  Rng &r = c.rng;
  intrat_t x((int)r.range(1, 99), (int)r.range(1, 9)), y((int)r.range(-9, 9), (int)r.range(1, 9)), z(0);
  Bad b(c, "intrat_t");
  b.keep(x); b.keep(y); b.keep(z);
  USE(x + y); USE(x * y); USE(y - x); USE(x.exp(2));
  NODIV("by zero", x, z); NO("zero ^ 0", z.exp(0)); NO("zero ^ -k", z.exp(-(int)r.range(1, 9)));
  NO("denominator 0", intrat_t((int)r.range(-9, 9), 0));
  NO("reduction by a prime of the denominator", (void)q_cyclotomic::intmod_from_rat(intrat_t(1, 3), 3)); NO("reduction mod 2 of an even denominator", (void)q_cyclotomic::bit_from_rat(intrat_t(1, 2)));
  b.go();
}
SECTION(ref_int) {
  Rng &r = c.rng;
  int neg = -(int)r.range(1, 1000);
  Bad b(c, "int");
  std::string k = std::to_string(neg);
  b.ops.push_back([k] { return k; });
  b.use([] { return std::to_string(intmath::int_totient(36)) + std::to_string(intmath::nth_prime(10)); });
  NO("square root < 0", (void)intmath::int_sqrt_floor(neg)); NO("square root up < 0", (void)intmath::int_sqrt_ceil(neg));
  NO("prime number 0", (void)intmath::nth_prime(0)); NO("prime number < 0", (void)intmath::nth_prime(neg)); NO("prime past the table", (void)intmath::nth_prime(100000 - neg));
  
  
  NO("cyclotomic 0", (void)q_cyclotomic::get_cyclo_qpoly(0)); NO("cyclotomic < 0", (void)q_cyclotomic::get_cyclo_qpoly(neg));
  NO("cyclotomic 0 mod 2", (void)q_cyclotomic::get_cyclo_f2_poly(0)); NO("cyclotomic < 0 mod p", (void)q_cyclotomic::get_cyclo_fp_poly(neg, 7));
  b.go();
}
// ---------------------------------------------------------------- polynomials
template <class A> static bool other_field(const A &a, const A &o) {
  return !(a.R.F.p == o.R.F.p && a.R.F.n == o.R.F.n && a.R.F.m == o.R.F.m);
}
template <class A> static void ref_poly(Ctx &c) {
  typedef typename A::P P;
  Rng &r = c.rng;
  A a(r), o(r);
  const bool isf2 = std::is_same_v<A, AF2>;
  if (!isf2) while (!other_field(a, o)) o = A(r);
  int hi = isf2 ? 140 : 6;
  P x = a.to(a.R.random_exact(r, (int)r.range(0, hi))), y = a.to(gen_poly(a, r)), z = a.to(Poly()), w = o.to(o.R.random_exact(r, (int)r.range(0, 4))), k = a.to(a.R.random_exact(r, (int)r.range(1, hi)));
  if (r.coin()) { P t = x * y; t = t - t; z = t; }
  Bad b(c, A::nm() + std::string(" polynomial"));
  b.keep(x); b.keep(y); b.keep(z); b.keep(w); b.keep(k);
  USE(x + y); USE(x * y); USE(y % x); USE(k / x); USE(w * w);
  P q = x, m = y, un, ws = o.to(o.R.random_exact(r, isf2 ? 0 : x.find_degree()));   // polynomials of different degrees are ordered by degree alone
  const int n = -(int)r.range(1, 9);
  int p = 0;
  auto s0 = a.sto(a.R.F.zero), s1 = a.sto(a.R.F.random_nz(r)), so = o.sto(o.R.F.one);
  NODIV("by zero", x, z); NODIV("zero by zero", z, z); NO("quotient by zero", x.quot_and_rem(z, q, m)); NO("quotient of zero by zero", z.quot_and_rem(z, q, m));
  NO("zero ^ 0", z.exp(0)); NO("zero ^ -k", z.exp(-(int)r.range(1, 9))); NO("^ -k", k.exp(-(int)r.range(1, 9)));
  NO("coefficient at -k", x.set_coeff(-(int)r.range(1, 9), a.sto(a.R.F.one)));
  if constexpr (isf2) {
    NO("bit at -k", x.set_bit(-(int)r.range(1, 99)));
    NO("degree 0 irreducible", (void)factorization::f2_poly_find_irreducible(0)); NO("degree -k irreducible", (void)factorization::f2_poly_find_irreducible(-(int)r.range(1, 9)));
    NO("degree 0 random irreducible", (void)factorization::f2_poly_random_irreducible(0)); NO("degree -k random irreducible", (void)factorization::f2_poly_random_irreducible(-(int)r.range(1, 9)));
    NO("degree 0 primitive", (void)units::f2_poly_find_prim(0, (int)r.below(2))); NO("degree -k primitive", (void)units::f2_poly_find_prim(-(int)r.range(1, 9), (int)r.below(2)));
    NO("degree 0 random primitive", (void)units::f2_poly_random_prim(0, (int)r.below(2))); NO("degree -k random primitive", (void)units::f2_poly_random_prim(-(int)r.range(1, 9), (int)r.below(2)));
    NO("random of degree -k", (void)random::f2_poly_random(-(int)r.range(1, 9))); NO("list of degree -k", (void)list::f2_poly_list(-(int)r.range(1, 9)));
    
    
    NO("residues mod 0", f2_polymod_t(x, z)); NO("random residue mod 0", (void)random::f2_polymod_random(z)); NO("list mod 0", (void)list::f2_polymod_list(z, list::SP_LIST_ALL));
    NO("companion matrix of a constant", (void)linalg::f2_companion_matrix(f2_poly_t(1))); NO("companion matrix of 0", (void)linalg::f2_companion_matrix(z));
  } else {
    b.keep(s1);
    NO("by the scalar 0", (void)(x / s0)); NO("by the scalar 0 in place", x /= s0);
    NOBIN("mixed", x, w); NODIV("mixed", x, w); NOCOMP("mixed", x, w); NO("mixed quotient", x.quot_and_rem(w, q, m));
    b.keep(ws); NOORD("mixed, of one degree", x, ws); NOORD("mixed, of one degree", ws, x); NO("mixed gcd", (void)k.gcd(w));
    NO("mixed extended gcd", { P u, v; (void)k.ext_gcd(w, u, v); });
    NOBIN("mixed scalar", x, so); NO("mixed scalar /", (void)(x / so)); NOCOMP("mixed scalar", x, so); NO("mixed scalar /=", x /= so);
    NO("mixed evaluation", (void)k.eval(so)); NO("mixed promotion", x.promote_and_add(so));
    NO("coefficient read at -k", (void)x.get_coeff(-(int)r.range(1, 9))); 
    NO("mixed coefficients", P(s1, so)); NO("three mixed coefficients", P(s1, s1, so));
    NO("unset +", (void)(un + x)); NO("+ unset", (void)(x + un)); NO("* unset", (void)(x * un)); NO("+= unset", x += un); NO("/ unset", (void)(x / un));
  }
  if constexpr (std::is_same_v<A, AFp>) {
    p = a.p;
    NO("degree 0 irreducible", (void)factorization::fp_poly_find_irr(p, 0)); NO("degree -k irreducible", (void)factorization::fp_poly_find_irr(p, n));
    NO("degree 0 random irreducible", (void)factorization::fp_poly_random_irr(p, 0)); NO("degree -k random irreducible", (void)factorization::fp_poly_random_irr(p, n));
    NO("random of degree -k", (void)random::fp_poly_random(p, n)); NO("list of degree -k", (void)list::fp_poly_list(p, n));
    NO("random mod 0", (void)random::fp_poly_random(0, 3)); NO("list mod 0", (void)list::fp_poly_list(0, 1)); NO("random mod < 0", (void)random::fp_poly_random(n, 3)); NO("list mod < 0", (void)list::fp_poly_list(n, 1));
    NO("irreducible mod 0", (void)factorization::fp_poly_find_irr(0, 2)); NO("random irreducible mod 0", (void)factorization::fp_poly_random_irr(0, 2));
    
    NO("residues mod 0", fp_polymod_t(x, z)); NO("random residue mod 0", (void)random::fp_polymod_random(z)); NO("list mod the polynomial 0", (void)list::fp_polymod_list(z, list::SP_LIST_ALL)); NO("residues mod another field", fp_polymod_t(x, w));
    NO("companion matrix of a constant", (void)linalg::fp_companion_matrix(fp_poly_t(1, p))); NO("companion matrix of 0", (void)linalg::fp_companion_matrix(z));
    NO("coefficient modulus 0", fp_poly_t(1, 0)); NO("base representation mod 0", (void)fp_poly_t::from_base_rep(5, 0)); NO("negative base representation", (void)fp_poly_t::from_base_rep(n, p));
    if (p < 1000) NO("reduction by a prime of a denominator", (void)q_cyclotomic::fp_poly_from_qpoly(q_poly_t(intrat_t(1, p), intrat_t(1, 2)), p));
    NO("cyclotomic mod 0", (void)q_cyclotomic::get_cyclo_fp_poly(5, 0));
    b.go();
    return;
  }
  if constexpr (std::is_same_v<A, AF2n>) {
    NO("degree 0 irreducible", (void)factorization::f2n_poly_find_irr(a.m, 0)); NO("degree -k irreducible", (void)factorization::f2n_poly_find_irr(a.m, n));
    NO("degree 0 random irreducible", (void)factorization::f2n_poly_random_irr(a.m, 0)); NO("degree -k random irreducible", (void)factorization::f2n_poly_random_irr(a.m, n));
    NO("random of degree -k", (void)random::f2n_poly_random(a.m, n)); NO("list of degree -k", (void)list::f2n_poly_list(a.m, n)); NO("random mod 0", (void)random::f2n_poly_random(f2_poly_t(0), 2)); NO("list mod 0", (void)list::f2n_poly_list(f2_poly_t(0), 1));
    NO("irreducible mod 0", (void)factorization::f2n_poly_find_irr(f2_poly_t(0), 2)); NO("random irreducible mod 0", (void)factorization::f2n_poly_random_irr(f2_poly_t(0), 2));
    
    NO("residues mod 0", f2n_polymod_t(x, z)); NO("list mod the polynomial 0", (void)list::f2n_polymod_list(z, list::SP_LIST_ALL)); NO("residues mod another field", f2n_polymod_t(x, w));
    NO("companion matrix of a constant", (void)linalg::f2np_companion_matrix(a.to(a.R.one()))); NO("companion matrix of 0", (void)linalg::f2np_companion_matrix(z));
    b.go();
    return;
  }
  b.go();
}
SECTION(ref_f2) { ref_poly<AF2>(c); }
SECTION(ref_fp) { ref_poly<AFp>(c); }
SECTION(ref_f2n) { ref_poly<AF2n>(c); }
SECTION(ref_fpn) { ref_poly<AFpn>(c); }
SECTION(ref_q) {
  Rng &r = c.rng;
  HERE_Q:
  auto g = [&] { q_poly_t p; for (int i = (int)r.below(4); i >= 0; i--) p.set_coeff(i, intrat_t((int)r.range(-3, 3), (int)r.range(1, 3))); return p; };
  q_poly_t x = g(), y = g(), z(intrat_t(0)), k(intrat_t(1), intrat_t(2)), q, m;
  if (x == 0) goto HERE_Q;
  Bad b(c, "q polynomial");
  b.keep(x); b.keep(y); b.keep(z); b.keep(k);
  USE(x + y); USE(x * y); USE(y % x);
  NODIV("by zero", x, z); NO("quotient by zero", x.quot_and_rem(z, q, m)); intrat_t s0(0);
  NO("by the scalar 0", (void)(x / s0)); NO("by the scalar 0 in place", x /= s0);
  NO("zero ^ 0", z.exp(0)); NO("^ -k", k.exp(-(int)r.range(1, 9)));
  NO("coefficient at -k", x.set_coeff(-(int)r.range(1, 9), intrat_t(1))); NO("coefficient read at -k", (void)x.get_coeff(-(int)r.range(1, 9))); 
  b.go();
}
// ---------------------------------------------------------------- residue classes
template <class A> static Poly close_to(const A &a, const Poly &m, Rng &r) {
  Poly t;
  do {
    t = m;
    if (r.coin()) t = a.R.add(m, a.R.random_monic(r, (int)r.below(m.size() - 1)));
    else t = a.R.random_monic(r, (int)m.size() - 1);
  } while (t == m);
  return t;
}
template <class A> static void ref_pm(Ctx &c) {
  typedef typename A::P P;
  typedef typename A::PM T;
  Rng &r = c.rng;
  A a(r), o(r);
  const bool isf2 = std::is_same_v<A, AF2>;
  if (!isf2) while (!other_field(a, o)) o = A(r);
  // a reducible modulus f*g and another one
  Poly f = a.R.random_monic(r, (int)r.range(1, isf2 ? 40 : 2)), g = a.R.random_monic(r, (int)r.range(1, isf2 ? 40 : 2)), mm = a.R.mul(f, g);
  P m = a.to(mm), m2 = a.to(a.R.mul(mm, a.R.random_monic(r, 1)));
  T x(a.to(gen_poly(a, r)), m), y(a.to(gen_poly(a, r)), m), z(a.to(Poly()), m), nu(a.to(f), m), w(a.to(a.R.one()), m2), un;
  T v(o.to(o.R.one()), o.to(o.R.random_monic(r, 2)));
  Bad b(c, A::nm() + std::string(" residue class"));
  b.keep(x); b.keep(y); b.keep(z); b.keep(nu); b.keep(w); b.keep(v);
  USE(x + y); USE(x * y); USE(y - x); USE(w + w); USE(x.exp(3));
  NODIV("by zero", x, z); NODIV("by a zero divisor", x, nu);
  NO("zero ^ 0", z.exp(0)); NO("zero ^ -k", z.exp(-(int)r.range(1, 9))); NO("zero divisor ^ -k", nu.exp(-(int)r.range(1, 9)));
  NOBIN("mixed moduli", x, w); NODIV("mixed moduli", x, w); NOCOMP("mixed moduli", x, w); NOORD("mixed moduli", x, w); NOORD("mixed moduli", w, x);
  // a modulus of the same degree, and one that differs in one coefficient only
  P m3 = a.to(close_to(a, mm, r));
  T u(a.to(gen_poly(a, r)), m3);
  b.keep(u);
  NOBIN("close moduli", x, u); NODIV("close moduli", x, u); NOCOMP("close moduli", x, u); NOORD("close moduli", x, u);
  if (!isf2) { NOBIN("mixed fields", x, v); NODIV("mixed fields", x, v); NOCOMP("mixed fields", x, v); }
  NO("unset +", (void)(un + x)); NO("+ unset", (void)(x + un)); NO("* unset", (void)(x * un)); NO("unset ^", (void)un.exp(2)); NO("+= unset", x += un);
  b.no("reciprocal of a zero divisor", [&] { T t; if (!nu.recip(t)) throw spffl::exception_t("recip says no"); });
  b.no("reciprocal of zero", [&] { T t; if (!z.recip(t)) throw spffl::exception_t("recip says no"); });
  if constexpr (isf2) {
    NO("order of 0", (void)units::f2_polymod_order(z)); NO("order of a zero divisor", (void)units::f2_polymod_order(nu));
    NO("list of a kind that needs a generator", (void)list::f2_polymod_list(f2_poly_t(1, 1, 1), list::SP_LIST_MULTIPLES)); NO("generated list of a plain kind", (void)list::f2_polymod_glist(f2_polymod_t(f2_poly_t(1), f2_poly_t(1, 1, 1)), list::SP_LIST_ALL));
    NO("log of 0", (void)units::f2_polymod_log(f2_polymod_t(f2_poly_t(1, 0), f2_poly_t(1, 1, 1)), f2_polymod_t(f2_poly_t(0), f2_poly_t(1, 1, 1)))); NO("log outside the subgroup", (void)units::f2_polymod_log(f2_polymod_t(f2_poly_t(1), f2_poly_t(1, 1, 1)), f2_polymod_t(f2_poly_t(1, 0), f2_poly_t(1, 1, 1))));
    NO("change to modulus 0", x.change_modulus(f2_poly_t(0)));
    NO("generator mod 0", { f2_polymod_t t; (void)units::f2_polymod_find_generator(f2_poly_t(0), t); });
    NO("conversion to another degree", { f2_polymod_t t; if (!linalg::f2_polymod_convert_prep(f2_polymod_t(f2_poly_t(1, 0), f2_poly_t(1, 1, 1)), f2_poly_t::from_base_rep(11), t)) throw spffl::exception_t("prep says no"); });
  }
  if constexpr (std::is_same_v<A, AF2n>) {
    NO("order of 0", (void)units::f2n_polymod_order(z)); NO("order of a zero divisor", (void)units::f2n_polymod_order(nu));
    NO("generator mod 0", { f2n_polymod_t t; (void)units::f2n_polymod_find_generator(a.to(Poly()), t); });
  }
  b.go();
}
SECTION(ref_f2pm) { ref_pm<AF2>(c); }
SECTION(ref_fppm) { ref_pm<AFp>(c); }
SECTION(ref_f2npm) { ref_pm<AF2n>(c); }
SECTION(ref_fpnpm) { ref_pm<AFpn>(c); }
// ---------------------------------------------------------------- quotients of polynomials
template <class A, class Q> static void ref_quo(Ctx &c) {
  typedef typename A::P P;
  Rng &r = c.rng;
  A a(r), o(r);
  const bool isf2 = std::is_same_v<A, AF2>;
  if (!isf2) while (!other_field(a, o)) o = A(r);
  P zp = a.to(Poly()), n = a.to(a.R.random_exact(r, (int)r.below(4))), d = a.to(a.R.random_exact(r, (int)r.below(4))), on = o.to(o.R.random_exact(r, (int)r.below(3)));
  Q x(n, d), y(a.to(a.R.random(r, 3)), d), z(zp), w(on, o.to(o.R.one()));
  Bad b(c, A::nm() + std::string(" rational function"));
  b.keep(x); b.keep(y); b.keep(z); b.keep(w); b.keep(n); b.keep(zp);
  USE(x + y); USE(x * y); USE(y / x); USE(w * w);
  NODIV("by zero", x, z); NODIV("zero by zero", z, z); NO("zero ^ 0", z.exp(0)); NO("zero ^ -k", z.exp(-(int)r.range(1, 9)));
  NO("denominator 0", Q(n, zp)); NO("0 over 0", Q(zp, zp));
  if (!isf2) { NOBIN("mixed", x, w); NODIV("mixed", x, w); NOCOMP("mixed", x, w); NO("mixed parts", Q(n, on)); NOORD("mixed", x, w); }
  b.go();
}
SECTION(ref_f2rat) { ref_quo<AF2, f2_polyrat_t>(c); }
SECTION(ref_fprat) { ref_quo<AFp, fp_polyrat_t>(c); }
SECTION(ref_f2nrat) { ref_quo<AF2n, f2n_polyrat_t>(c); }
// ---------------------------------------------------------------- vectors and matrices
template <class E> static void ref_lin(Ctx &c, const char *name, std::function<E()> el, const E &zero, const E &one) {
  Rng &r = c.rng;
  typedef tvector<E> V;
  typedef tmatrix<E> M;
  int n = (int)r.range(1, 5), k = n + (int)r.range(1, 3), big = (int)r.range(0, 1000);
  auto gv = [&](int l) { V v(zero, l); for (int i = 0; i < l; i++) v[i] = el(); return v; };
  auto gm = [&](int l, int m) { M v(zero, l, m); for (int i = 0; i < l; i++) for (int j = 0; j < m; j++) v[i][j] = el(); return v; };
  V x = gv(n), y = gv(n), w = gv(k), wz = gv(n);
  M A = gm(n, k), B = gm(n, k), C = gm(n, n), S = gm(n, n), D = gm(k, k), Zr(zero, n, n);
  for (int j = 0; j < n; j++) S[n - 1][j] = zero;
  Bad b(c, std::string("vectors and matrices over ") + name);
  b.keep(x); b.keep(y); b.keep(w); b.keep(A); b.keep(B); b.keep(C); b.keep(S); b.keep(D);
  USE(x + y); USE(x.dot(y)); USE(A + B); USE(C * A); USE(A * w); USE(C.transpose());
  NOBIN("lengths", x, w); NO("lengths dot", (void)x.dot(w)); NO("lengths +=", x += w); NO("lengths -=", x -= w); NO("lengths *=", x *= w);
  NO("index past the end", (void)x[n + big]); NO("index < 0", (void)x[-1 - big]); NO("vector of length 0", V(0)); NO("vector of length < 0", V(-1 - big)); NO("trim up", x.trim_num_elements(n + 1)); NO("trim to 0", x.trim_num_elements(0));
  NO("swap lengths", x.ptrswap(w)); NO("accumulate lengths", x.accum_row_mul(one, one, w));
  NO("shapes +", (void)(A + C)); NO("shapes -", (void)(A - C)); NO("shapes *", (void)(A * B)); NO("shapes +=", A += C); NO("shapes * vector", (void)(A * x)); NO("vector * shapes", (void)(w * A));
  NO("determinant of a rectangle", (void)A.det()); NO("inverse of a rectangle", { M t(zero, 1, 1); (void)A.inverse(t); }); NO("power of a rectangle", { M t(zero, 1, 1); (void)A.exp(2, t); });
  NO("row past the end", (void)A[n + big]); NO("row < 0", (void)A[-1 - big]); NO("column past the end", (void)A.get_column(k + big)); NO("column < 0", (void)A.get_column(-1 - big)); NO("element past the end", (void)A[0][k + big]);
  NO("put column length", A.put_column(0, w)); NO("put column past the end", A.put_column(k + big, x)); NO("put column < 0", A.put_column(-1 - big, x));
  NO("swap rows past the end", A.swap(0, n + big)); NO("swap rows < 0", A.swap(-1 - big, 0)); NO("paste shapes", (void)A.paste(D)); NO("paste vector length", (void)A.paste_vector(w));
  NO("split past the end", { M l(zero, 1, 1), g(zero, 1, 1); A.split(l, g, k + 1 + big); }); NO("split < 0", { M l(zero, 1, 1), g(zero, 1, 1); A.split(l, g, -1 - big); });
  NO("trim rows up", A.trim_num_rows(n + 1)); NO("trim rows to 0", A.trim_num_rows(0)); NO("matrix of 0 rows", M(0, 2)); NO("matrix of < 0 columns", M(2, -1 - big));
  b.no("inverse of a singular matrix", [&] { M t(zero, 1, 1); if (!S.inverse(t)) throw spffl::exception_t("inverse says no"); });
  b.no("negative power of a singular matrix", [&] { M t(zero, 1, 1); if (!S.exp(-1 - big % 5, t)) throw spffl::exception_t("exp says no"); });
  b.no("unique solution of a singular system", [&] { V t(zero, n); if (!S.solve_unique(t, x, zero, one)) throw spffl::exception_t("solve says no"); });
  NO("solution of the wrong length", { V t(zero, n); if (!C.solve_unique(t, w, zero, one)) throw spffl::exception_t("solve says no"); });

  b.go();
}
SECTION(ref_lin_bit) { Rng &r = c.rng; ref_lin<bit_t>(c, "bits", [&] { return bit_t((int)r.below(2)); }, bit_t(0), bit_t(1)); }
SECTION(ref_lin_mod) { Rng &r = c.rng; int p = (int)AFp::pick_prime(r); ref_lin<intmod_t>(c, "integers mod p", [&] { return intmod_t((int)r.below(p), p); }, intmod_t(0, p), intmod_t(1, p)); }
SECTION(ref_lin_rat) { Rng &r = c.rng; ref_lin<intrat_t>(c, "rationals", [&] { return intrat_t((int)r.range(-3, 3), (int)r.range(1, 3)); }, intrat_t(0), intrat_t(1)); }
SECTION(ref_lin_f2pm) { Rng &r = c.rng; AF2n a(r); ref_lin<f2_polymod_t>(c, "f2 residue classes", [&] { return a.sto(a.R.F.random(r)); }, a.sto(a.R.F.zero), a.sto(a.R.F.one)); }
SECTION(ref_lin_fppm) { Rng &r = c.rng; AFpn a(r); ref_lin<fp_polymod_t>(c, "fp residue classes", [&] { return a.sto(a.R.F.random(r)); }, a.sto(a.R.F.zero), a.sto(a.R.F.one)); }
SECTION(ref_lin_f2rat) { Rng &r = c.rng; AF2 a(r); auto q = [&](const Poly &f) { return f2_polyrat_t(a.to(f)); }; ref_lin<f2_polyrat_t>(c, "f2 rational functions", [&] { return q(a.R.random(r, 2)); }, q(Poly()), q(a.R.one())); }
SECTION(ref_bits) {
  Rng &r = c.rng;
  int n = (int)r.pick(std::vector<i64>{1, 5, 63, 64, 65, 130}), k = n + (int)r.range(1, 70), big = (int)r.below(200);
  auto gv = [&](int l) { bit_vector_t v(l); for (int i = 0; i < l; i++) v.set(i, (int)r.coin()); return v; };
  int R = (int)r.range(1, 6), K = R + (int)r.range(1, 3);
  auto gm = [&](int l, int m) { bit_matrix_t v(l, m); for (int i = 0; i < l; i++) for (int j = 0; j < m; j++) v[i].set(j, (int)r.coin()); return v; };
  bit_vector_t x = gv(n), y = gv(n), w = gv(k), vr = gv(R), vk = gv(K);
  bit_matrix_t A = gm(R, K), B = gm(R, K), C = gm(R, R), S = gm(R, R), D = gm(K, K);
  for (int j = 0; j < R; j++) S[R - 1].set(j, 0);
  Bad b(c, "bit vectors and matrices");
  b.keep(x); b.keep(y); b.keep(w); b.keep(A); b.keep(B); b.keep(C); b.keep(S); b.keep(D);
  USE(x + y); USE(x.dot(y)); USE(A + B); USE(C * A); USE(A * vk); USE(C.transpose());
  NOBIN("lengths", x, w); NO("lengths dot", (void)x.dot(w)); NOCOMP("lengths", x, w); NO("lengths accumulate", x.accum_row(w)); NO("swap lengths", x.ptrswap(w));
  NO("get past the end", (void)x.get(n + big)); NO("get < 0", (void)x.get(-1 - big)); NO("get_int past the end", (void)x.get_int(n + big)); NO("set past the end", x.set(n + big, 1)); NO("set < 0", x.set(-1 - big, 1)); NO("toggle past the end", x.toggle_element(n + big)); NO("toggle < 0", x.toggle_element(-1 - big));
  NO("bits of length 0", bit_vector_t(0)); NO("bits of length < 0", bit_vector_t(-1 - big));
  NO("shapes +", (void)(A + C)); NO("shapes -", (void)(A - C)); NO("shapes *", (void)(A * B)); NO("shapes +=", A += C); NO("shapes * vector", (void)(A * vr));
  NO("determinant of a rectangle", (void)A.det()); NO("inverse of a rectangle", { bit_matrix_t t; (void)A.inverse(t); }); NO("power of a rectangle", { bit_matrix_t t; (void)A.exp(2, t); });
  NO("row past the end", (void)A[R + big]); NO("row < 0", (void)A[-1 - big]); NO("swap rows past the end", A.swap(0, R + big)); NO("swap rows < 0", A.swap(-1 - big, 0)); NO("paste shapes", (void)A.paste(D));
  NO("split past the end", { bit_matrix_t l, g; A.split(l, g, K + 1 + big); }); NO("split < 0", { bit_matrix_t l, g; A.split(l, g, -1 - big); });
  NO("matrix of 0 rows", bit_matrix_t(0, 2)); NO("matrix of < 0 columns", bit_matrix_t(2, -1 - big));
  b.no("inverse of a singular matrix", [&] { bit_matrix_t t; if (!S.inverse(t)) throw spffl::exception_t("inverse says no"); });
  b.no("negative power of a singular matrix", [&] { bit_matrix_t t; if (!S.exp(-1 - big % 5, t)) throw spffl::exception_t("exp says no"); });
  b.go();
}
