// Factorisation, irreducibility, irreducible searches, divisors and totients.
#include <climits>
#include <map>
#include "adapt.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/units/f2_polymod_units.h"
using namespace spffl::factorization;

struct TF2 : AF2 {
  using AF2::AF2;
  tfacinfo<P> factor(const P &f) { return f2_poly_factor(f); }
  bool irr(const P &f) { return f2_poly_is_irreducible(f); }
  int tot(const P &f) { return f2_poly_totient(f); }
  P find(int d) { return f2_poly_find_irreducible(d); }
  P rnd(int d) { return f2_poly_random_irreducible(d); }
  int maxdeg(Rng &r) { return r.chance(1, 8) ? 140 : 24; }
  int cap() { return 40; }
};
struct TFp : AFp {
  using AFp::AFp;
  static Fld small(Rng &r) { static const std::vector<i64> p = {2, 2, 3, 3, 3, 5, 5, 7, 7, 11, 13, 31, 101, 257}; return Fld(r.pick(p)); }
  explicit TFp(Rng &r) : AFp(small(r)) {}
  tfacinfo<P> factor(const P &f) { return fp_poly_factor(f); }
  bool irr(const P &f) { return fp_poly_is_irreducible(f); }
  int tot(const P &f) { return fp_poly_totient(f); }
  P find(int d) { return fp_poly_find_irr(p, d); }
  P rnd(int d) { return fp_poly_random_irr(p, d); }
  int maxdeg(Rng &r) { return p > 31 ? 5 : p > 7 ? 8 : r.chance(1, 8) ? 24 : 12; }
  int cap() { return p == 2 ? 12 : p < 10 ? 6 : 4; }
};
struct TF2n : AF2n {
  static Fld small(Rng &r) {
    int n = (int)r.range(1, 4);
    if (r.chance(1, 16)) n = 6;
    PR b{Fld(2)};
    std::vector<i64> m;
    for (auto &e : b.random_irreducible(r, n)) m.push_back(e[0]);
    return Fld(2, m);
  }
  explicit TF2n(Rng &r) : AF2n(small(r)) {}
  tfacinfo<P> factor(const P &f) { return f2n_poly_factor(f); }
  bool irr(const P &f) { return f2n_poly_is_irreducible(f); }
  int tot(const P &f) { return f2n_poly_totient(f); }
  P find(int d) { return f2n_poly_find_irr(m, d); }
  P rnd(int d) { return f2n_poly_random_irr(m, d); }
  int maxdeg(Rng &r) { return R.F.n > 3 ? 5 : 8; }
  int cap() { return R.F.n == 1 ? 8 : R.F.n == 2 ? 5 : 3; }
};

// A polynomial with a planted factor structure.
template <class A> static Poly gen_fact(A &a, Rng &r) {
  int md = a.maxdeg(r), k = (int)r.below(12);
  i64 p = a.R.F.p;
  Poly f = a.R.one();
  auto mulin = [&](const Poly &g) { if (PR::deg(f) + PR::deg(g) <= md) f = a.R.mul(f, g); };
  if (k == 0) return a.R.cst(a.R.F.random(r));
  if (k <= 2) return a.R.random_exact(r, (int)r.range(1, md));
  if (k == 3) f = a.R.random_irreducible(r, (int)r.range(1, std::min(md, 33)));
  else if (k == 4) { Poly g = a.R.random_monic(r, 1); int e = (int)r.range(1, md); for (int i = 0; i < e; i++) mulin(g); }
  else if (k == 5) { Poly g = a.R.random_exact(r, (int)r.range(1, std::max<i64>(1, md / p))); Poly h = a.R.pow(g, (u64)p); if (PR::deg(h) <= 2 * md) f = h; else f = g; }
  else if (k == 6) { int d = (int)r.range(1, 3); for (int i = 0; i < 6; i++) mulin(a.R.random_irreducible(r, d)); } // equal degrees
  else if (k == 7) { for (int i = 0; i < 5; i++) { Poly g = a.R.random_irreducible(r, (int)r.range(1, 3)); int e = (int)r.range(1, 5); for (int j = 0; j < e; j++) mulin(g); } }
  else if (k == 8) { int e = (int)r.range(1, md); f = a.R.mono(a.R.F.one, e); if (r.coin()) f = a.R.sub(f, a.R.one()); }
  else if (k == 9) { // product of every monic linear, times noise
    u64 q = a.R.F.q();
    for (u64 i = 0; i < q && i < 40; i++) mulin(a.R.sub(a.R.X(), a.R.cst(a.R.F.index(i))));
    mulin(a.R.random_exact(r, (int)r.below(3)));
  } else { mulin(a.R.random_irreducible(r, (int)r.range(1, std::min(10, md)))); mulin(a.R.random_irreducible(r, (int)r.range(1, std::min(10, md)))); mulin(a.R.random_exact(r, (int)r.below(4))); }
  if (r.chance(1, 4)) f = a.R.scale(f, a.R.F.random_nz(r));
  return f;
}

typedef std::vector<std::pair<Poly, int>> Fac;
// Complete characterisation: monic irreducibles, strictly increasing, multiplying back to f.
template <class A> static bool check_factors(Ctx &c, A &a, const Poly &f, const tfacinfo<typename A::P> &fi, Fac &out) {
  typedef typename A::P P;
  Poly prod = a.R.one(), prev;
  int n = fi.get_num_distinct(), total = 0;
  bool ok = true;
  for (int i = 0; i < n; i++) {
    Poly g = a.from(fi.get_ith_factor(i));
    int e = fi.get_ith_count(i);
    CHECK(e >= 1, "multiplicity", a.R.show(f) << ": " << a.R.show(g) << " count " << e);
    CHECK(a.R.irreducible(g), "factor_irreducible", a.R.show(f) << " has reported factor " << a.R.show(g));
    CHECK(g.empty() || g.back() == a.R.F.one, "factor_monic", a.R.show(f) << " has reported factor " << a.R.show(g));
    CHECK(a.normal(fi.get_ith_factor(i)), "factor_normal", a.R.show(f));
    if (i) CHECK(a.R.lt(prev, g), "factor_order", a.R.show(f) << ": " << a.R.show(prev) << " before " << a.R.show(g));
    prev = g;
    if (e < 1 || e > 400 || !a.R.irreducible(g)) { ok = false; continue; }
    prod = a.R.mul(prod, a.R.pow(g, e));
    total += e;
    out.push_back(std::make_pair(g, e));
  }
  P u = a.to(a.R.one());
  if (fi.get_unit(u)) {
    Poly pu = a.from(u);
    CHECK(PR::deg(pu) <= 0, "unit_constant", a.R.show(pu));
    prod = a.R.mul(prod, pu);
  }
  CHECK(prod == f, "product", a.R.show(f) << " but the factors multiply to " << a.R.show(prod));
  CHECK(fi.get_num_factors() == total || !ok, "num_factors", a.R.show(f));
  CHECK(!ok || a.from(fi.unfactor(a.to(a.R.one()))) == f, "unfactor", a.R.show(f));
  return ok && prod == f;
}
template <class A> static void fac_case(Ctx &c) {
  A a(c.rng);
  Poly f = gen_fact(a, c.rng);
  c.input(a.R.hash(f) * 31 + a.R.F.q() + (a.R.F.m.size() ? a.R.toindex(Poly(1, a.R.F.one)) : 0), PR::deg(f) > 0);
  if (c.want_sample()) c.sample(a.R.show(f));
  if (f.empty()) f = a.R.one();
  const typename A::P lf = a.to(f);
  Fac fac;
  tfacinfo<typename A::P> fi = a.factor(lf);
  check_factors(c, a, f, fi, fac);
  CHECK(a.from(lf) == f, "operand_kept", "");
  // the decision must agree, for any leading coefficient
  bool want = a.R.irreducible(f);
  CHECK(a.irr(lf) == want, "is_irreducible", a.R.show(f) << " reported " << !want);
}
template <class A> static void irr_case(Ctx &c) {
  A a(c.rng);
  Rng &r = c.rng;
  typedef typename A::P P;
  spffl::bitrand::sran32b((unsigned)r.next(), (unsigned)r.next());
  int kind = (int)r.below(6);
  if (kind < 3) {
    // the decision on planted irreducibles, near misses and products
    int d = (int)r.range(1, std::min(a.maxdeg(r), 60));
    Poly f = r.coin() ? a.R.random_irreducible(r, std::min(d, 33)) : r.coin() && d > 1 ? a.R.mul(a.R.random_irreducible(r, d / 2), a.R.random_irreducible(r, d - d / 2)) : a.R.random_exact(r, d);
    if (r.chance(1, 3)) f = a.R.scale(f, a.R.F.random_nz(r));
    c.input(a.R.hash(f) * 31 + a.R.F.q(), true);
    if (c.want_sample()) c.sample("irreducible? " + a.R.show(f));
    bool want = a.R.irreducible(f);
    CHECK(a.irr(a.to(f)) == want, want ? "irreducible_yes" : "irreducible_no", a.R.show(f));
  } else if (kind == 3) {
    int d = (int)r.range(1, a.cap());
    c.input((u64)d * 1000003 + a.R.F.q() + hash_str(std::string(A::nm())), true);
    P g = a.find(d);
    Poly f = a.from(g);
    CHECK(PR::deg(f) == d && f.back() == a.R.F.one && a.R.irreducible(f), "find_irreducible", "degree " << d << " gave " << a.R.show(f));
    // the first one, in the library's order, with nonzero constant term
    u64 q = a.R.F.q();
    for (u64 k = 0;; k++) {
      Poly h = a.R.index(k, d);
      h.resize(d + 1, a.R.F.zero); h[d] = a.R.F.one;
      if (h[0] == a.R.F.zero || !a.R.irreducible(h)) continue;
      CHECK(h == f, "find_first", "degree " << d << " over q=" << q << " gave " << a.R.show(f) << " but " << a.R.show(h) << " comes first");
      break;
    }
    REFUSED(a.find(0), "find_degree", 0); REFUSED(a.find(-(int)r.range(1, 9)), "find_degree", -1);
    REFUSED(a.rnd(0), "random_degree", 0); REFUSED(a.rnd(-(int)r.range(1, 9)), "random_degree", -1);
  } else {
    int d = (int)r.range(1, std::min(a.cap() + 2, 33));
    c.input((u64)d * 1000033 + r.s, true);
    Poly f = a.from(a.rnd(d));
    CHECK(PR::deg(f) == d && f.back() == a.R.F.one && a.R.irreducible(f), "random_irreducible", "degree " << d << " gave " << a.R.show(f));
  }
}
template <class A> static void div_case(Ctx &c) {
  typedef typename A::P P;
  A a(c.rng);
  Rng &r = c.rng;
  Poly f;
  for (int i = 0;; i++) { f = gen_fact(a, r); if (PR::deg(f) <= 34 && !f.empty()) break; }
  if (a.R.F.q() == 2 && r.chance(1, 12)) { f = a.R.random_irreducible(r, 31); if (r.coin()) f = a.R.mul(f, a.R.X()); }
  if (a.R.F.q() == 2 && r.chance(1, 20)) f = a.R.mono(a.R.one()[0], 32);
  c.input(a.R.hash(f) * 31 + a.R.F.q(), PR::deg(f) > 0);
  if (c.want_sample()) c.sample("divisors of " + a.R.show(f));
  tfacinfo<P> fi = a.factor(a.to(f));
  Fac fac;
  if (!check_factors(c, a, f, fi, fac)) return;
  u64 nd = 1;
  for (auto &p : fac) nd *= p.second + 1;
  CHECK((u64)fi.get_num_divisors() == nd, "num_divisors", a.R.show(f));
  const P one = a.to(a.R.one());
  if (nd <= (a.R.F.q() == 2 ? 600u : 200u)) {
    std::vector<Poly> want(1, a.R.one());
    for (auto &p : fac) {
      std::vector<Poly> nx;
      Poly pw = a.R.one();
      for (int e = 0; e <= p.second; e++) { for (auto &w : want) nx.push_back(a.R.mul(w, pw)); pw = a.R.mul(pw, p.first); }
      want.swap(nx);
    }
    std::sort(want.begin(), want.end(), [&](const Poly &x, const Poly &y) { return a.R.lt(x, y); });
    tvector<P> dv = fi.get_all_divisors(one);
    CHECK(dv.get_num_elements() == (int)want.size(), "divisors_count", a.R.show(f));
    for (int i = 0; i < (int)want.size() && i < dv.get_num_elements(); i++)
      CHECK(a.from(dv[i]) == want[i] && a.normal(dv[i]), "divisors", a.R.show(f) << " entry " << i << " is " << a.R.show(a.from(dv[i])) << " want " << a.R.show(want[i]));
    // the k-th divisors are the same set
    std::vector<Poly> ks;
    for (u64 k = 0; k < nd; k++) ks.push_back(a.from(fi.get_kth_divisor((int)k, one)));
    std::sort(ks.begin(), ks.end(), [&](const Poly &x, const Poly &y) { return a.R.lt(x, y); });
    CHECK(ks == want, "kth_divisors", a.R.show(f));
  }
  {
    std::vector<Poly> want;
    for (auto &p : fac) want.push_back(a.R.div(f, p.first));
    std::sort(want.begin(), want.end(), [&](const Poly &x, const Poly &y) { return a.R.lt(x, y); });
    tvector<P> mp;
    bool ok = fi.get_maximal_proper_divisors(mp, one);
    CHECK(ok == !fac.empty(), "maximal_exist", a.R.show(f));
    if (ok && !fac.empty()) {
      CHECK(mp.get_num_elements() == (int)want.size(), "maximal_count", a.R.show(f));
      for (int i = 0; i < (int)want.size() && i < mp.get_num_elements(); i++) CHECK(a.from(mp[i]) == want[i], "maximal", a.R.show(f) << " entry " << i << " is " << a.R.show(a.from(mp[i])) << " want " << a.R.show(want[i]));
    }
  }
  int d = PR::deg(f);
  double sz = 1; u64 q = a.R.F.q();
  for (int i = 0; i < d; i++) sz *= (double)q;
  u64 phi = 1;
  bool fits = d > 0;
  for (auto &p : fac) {
    double n = 1;
    for (int i = 0; i < PR::deg(p.first); i++) n *= (double)q;
    double t = n - 1;
    for (int e = 1; e < p.second; e++) t *= n;
    if (t * (double)phi > 2147483647.0) fits = false;
    if (!fits) break;
    phi *= (u64)t;
  }
  if (fits) {
    phi = 1;
    for (auto &p : fac) { u64 n = 1; for (int i = 0; i < PR::deg(p.first); i++) n *= q; phi *= n - 1; for (int e = 1; e < p.second; e++) phi *= n; }
    int t = a.tot(a.to(f));
    CHECK((u64)t == phi, "totient", a.R.show(f) << " gave " << t << " want " << phi);
    if (sz <= 400) {
      u64 cnt = 0;
      for (u64 k = 0; k < (u64)sz; k++) { Poly g = a.R.index(k, d); a.R.trim(g); if (PR::deg(a.R.gcd(g, f)) == 0 && !a.R.gcd(g, f).empty()) cnt++; }
      CHECK((u64)t == cnt, "totient_counts", a.R.show(f) << " gave " << t << " counted " << cnt);
    }
  }
}
#define S(tag, T) SECTION(fac_##tag) { fac_case<T>(c); } SECTION(irr_##tag) { irr_case<T>(c); } SECTION(div_##tag) { div_case<T>(c); }
S(f2, TF2)
S(fp, TFp)
S(f2n, TF2n)

static i64 gen_int(Rng &r) {
  static const std::vector<i64> edge = {1, -1, 2, 3, 4, 8, 9, 16, 65521, 65537, 65519, 2147483647, -2147483647, 46337LL * 46337, 2147117569, 1 << 30, 2147483646, 2146654199, 65521LL * 32749, 46341LL * 46339, 1162261467, 1220703125, 1977326743, 223092870, 2147483629, 2147483587};
  int k = (int)r.below(10);
  if (k == 0) return r.pick(edge);
  if (k == 1) return r.range(1, 400);
  if (k == 2) return -r.range(1, 100000);
  i64 n = 1;
  if (k <= 5) { // planted powers
    for (int i = 0; i < 8; i++) { static const std::vector<i64> ps = {2, 2, 3, 5, 7, 11, 13, 17, 101, 257, 32749, 65521}; i64 p = r.pick(ps); int e = (int)r.range(1, 6); while (e-- && n * p <= INT_MAX) n *= p; }
    return r.coin() ? n : -n;
  }
  if (k == 6) { i64 p = r.range(30000, 46340); while (!ref::is_prime(p)) p--; return p * p; }
  if (k == 7) { i64 p = r.range(46000, 65600); while (!ref::is_prime(p)) p--; i64 q = r.range(2, INT_MAX / p); while (q > 2 && !ref::is_prime(q)) q--; return p * q; }
  if (k == 8) { i64 p = r.range(1000, INT_MAX); while (!ref::is_prime(p)) p--; return p; }
  return r.range(-INT_MAX, INT_MAX);
}
SECTION(fac_int) {
  Rng &r = c.rng;
  i64 n = gen_int(r);
  if (n == 0) n = 12;
  c.input((u64)n, n > 3 || n < -3);
  if (c.want_sample()) c.sample(std::to_string(n));
  tfacinfo<int> fi = int_factor((int)n);
  auto want = ref::factor(n < 0 ? -n : n);
  CHECK(fi.get_num_distinct() == (int)want.size(), "int_count", n);
  for (int i = 0; i < (int)want.size() && i < fi.get_num_distinct(); i++)
    CHECK(fi.get_ith_factor(i) == want[i].first && fi.get_ith_count(i) == want[i].second, "int_factors", n << " entry " << i << " " << fi.get_ith_factor(i) << "^" << fi.get_ith_count(i));
  int u = 1;
  bool hu = fi.get_unit(u);
  CHECK(n < 0 ? (hu && u == -1) : (!hu || u == 1), "int_unit", n);
  CHECK(fi.unfactor(1) == n, "int_unfactor", n);
  // the printed listing
  std::ostringstream w;
  if (hu) w << u;
  for (size_t i = 0; i < want.size(); i++) { if (i || hu) w << " "; w << want[i].first; if (want[i].second != 1) w << "^" << want[i].second; }
  CHECK(str(fi) == w.str(), "int_print", str(fi) << " want " << w.str());
}
SECTION(div_int) {
  Rng &r = c.rng;
  i64 n = gen_int(r);
  if (n == 0) n = 12;
  c.input((u64)n, n > 3 || n < -3);
  if (c.want_sample()) c.sample(std::to_string(n));
  i64 an = n < 0 ? -n : n;
  tfacinfo<int> fi = int_factor((int)n);
  auto want = ref::divisors(an);
  CHECK(fi.get_num_divisors() == (int)want.size(), "int_num_divisors", n);
  tvector<int> dv = fi.get_all_divisors(1);
  bool same = dv.get_num_elements() == (int)want.size();
  for (int i = 0; same && i < (int)want.size(); i++) same = dv[i] == want[i];
  CHECK(same, "int_divisors", n);
  std::vector<i64> mw;
  for (auto &p : ref::factor(an)) mw.push_back(n / p.first);
  std::sort(mw.begin(), mw.end());
  tvector<int> mp;
  bool ok = fi.get_maximal_proper_divisors(mp, 1);
  CHECK(ok == !mw.empty(), "int_maximal_exist", n);
  if (ok) {
    same = mp.get_num_elements() == (int)mw.size();
    for (int i = 0; same && i < (int)mw.size(); i++) same = mp[i] == mw[i];
    CHECK(same, "int_maximal", n);
  }
}
static u64 order_x(const PR &R, const Poly &m, u64 phi) {
  u64 o = phi;
  for (auto &p : ref::factor((i64)phi))
    for (int e = 0; e < p.second; e++) { if (o % p.first == 0 && R.powmod(R.X(), o / p.first, m) == R.mod(R.one(), m)) o /= p.first; }
  return o;
}
static u64 phi_f2(TF2 &a, const Poly &m) {
  // by trial factorisation in the reference ring
  u64 phi = 1;
  Poly f = m;
  for (u64 k = 2; PR::deg(f) > 0; k++) {
    Poly g = a.R.index(k, 40);
    a.R.trim(g);
    if (2 * PR::deg(g) > PR::deg(f)) g = f;
    int e = 0;
    while (PR::deg(f) >= PR::deg(g) && a.R.mod(f, g).empty()) { f = a.R.div(f, g); e++; if (PR::deg(f) == 0) break; }
    if (e) { u64 n = 1ULL << PR::deg(g); phi *= n - 1; for (int i = 1; i < e; i++) phi *= n; }
  }
  return phi;
}
SECTION(prim_f2) {
  TF2 a(c.rng);
  Rng &r = c.rng;
  spffl::bitrand::sran32b((unsigned)r.next(), (unsigned)r.next());
  int kind = (int)r.below(6);
  if (kind < 4) {
    Poly m;
    int d = (int)r.range(1, 14);
    m = r.coin() ? a.R.random_irreducible(r, d) : gen_fact(a, r);
    if (PR::deg(m) < 1 || PR::deg(m) > 16) m = a.R.random_exact(r, d);
    c.input(a.R.hash(m), true);
    if (c.want_sample()) c.sample("primitive? " + a.R.show(m));
    bool unit = m[0][0] == 1;
    u64 phi = phi_f2(a, m);
    u64 o = unit ? order_x(a.R, m, phi) : 0;
    bool p = spffl::units::f2_poly_is_primitive(a.to(m));
    CHECK(p == (unit && o == phi), "is_primitive", a.R.show(m) << " reported " << p << " order of x " << o << " phi " << phi);
    int per = spffl::units::f2_poly_period(a.to(m));
    if (unit) CHECK((u64)per == o, "period", a.R.show(m) << " gave " << per << " want " << o);
  } else if (kind == 4) {
    int d = (int)r.range(1, 14), irr = (int)r.coin();
    c.input((u64)d * 2 + irr, true);
    Poly f = a.from(spffl::units::f2_poly_find_prim(d, irr));
    Poly w;
    for (u64 k = 1;; k += 2) {
      w = a.R.index(k, d); w.resize(d + 1, a.R.F.zero); w[d] = a.R.F.one;
      if (irr && !a.R.irreducible(w)) continue;
      u64 phi = phi_f2(a, w);
      if (order_x(a.R, w, phi) == phi) break;
    }
    CHECK(f == w, "find_primitive", "degree " << d << " irr " << irr << " gave " << a.R.show(f) << " want " << a.R.show(w));
    REFUSED(spffl::units::f2_poly_find_prim(0, irr), "find_prim_degree", 0);
    REFUSED(spffl::units::f2_poly_find_prim(-3, irr), "find_prim_degree", 0);
    REFUSED(spffl::units::f2_poly_random_prim(0, irr), "random_prim_degree", 0);
  } else {
    int d = (int)r.range(1, 14), irr = (int)r.coin();
    c.input(r.s, true);
    Poly f = a.from(spffl::units::f2_poly_random_prim(d, irr));
    CHECK(PR::deg(f) == d && f[0][0] == 1, "random_primitive", a.R.show(f));
    if (irr) CHECK(a.R.irreducible(f), "random_primitive_irr", a.R.show(f));
    u64 phi = phi_f2(a, f);
    CHECK(order_x(a.R, f, phi) == phi, "random_primitive", a.R.show(f));
  }
}
