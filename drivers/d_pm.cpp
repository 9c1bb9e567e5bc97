// Residue class rings K[x]/(m): arithmetic, inverses, powers, refusals and mutation histories.
#include <climits>
#include "adapt.h"

template <class A> static Poly pick_modulus(A &a, Rng &r, bool &irr) {
  bool f2 = std::string(A::nm()) == "f2", fp = std::string(A::nm()) == "fp";
  int md = f2 ? 12 : fp ? 6 : 4;
  int d = (int)r.range(1, md);
  if (f2 && r.chance(1, 4)) { static const std::vector<int> ds = {15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129}; d = r.pick(ds); }
  int k = (int)r.below(8);
  Poly m;
  if (k < 4) m = a.R.random_irreducible(r, d > 33 ? 33 : d);
  else if (k == 4) { Poly g = a.R.random_exact(r, 1 + d / 3); m = a.R.mul(g, g); }
  else if (k == 5) m = a.R.mono(a.R.F.random_nz(r), d);
  else if (k == 6) m = a.R.mul(a.R.random_exact(r, 1), a.R.random_exact(r, d > 1 ? d - 1 : 1));
  else m = a.R.random_exact(r, d);
  if (r.chance(1, 4)) m = a.R.scale(m, a.R.F.random_nz(r)); // not monic
  irr = a.R.irreducible(m);
  return m;
}
template <class A> static Poly pick_res(A &a, Rng &r, const Poly &m) {
  int n = PR::deg(m), k = (int)r.below(12);
  if (k == 0) return Poly();
  if (k == 1) return a.R.one();
  if (k == 2) return a.R.mod(a.R.X(), m);
  if (k == 3) return a.R.cst(a.R.F.random(r));
  if (k == 4) { // shares a factor with m when one can be met by chance
    Poly g = a.R.gcd(m, a.R.random(r, n));
    if (PR::deg(g) > 0 && PR::deg(g) < n) return a.R.mod(a.R.mul(g, a.R.random(r, n)), m);
  }
  if (k == 5) return a.R.mod(a.R.neg(a.R.one()), m);
  return a.R.mod(a.R.random(r, n), m);
}

#define EQR(expr, want, key)                                                   \
  do {                                                                         \
    PM got_ = (expr);                                                          \
    P gr_ = got_.get_residue();                                                \
    Poly g_ = a.from(gr_);                                                     \
    CHECK(g_ == (want), key, key << " mod " << a.R.show(m) << " of " << a.R.show(x) << " , " << a.R.show(y) << " gave " << a.R.show(g_) << " want " << a.R.show(want)); \
    CHECK(a.normal(gr_) && (g_.empty() || PR::deg(g_) < n) && a.from(got_.get_modulus()) == m, key ".reduced", key " mod " << a.R.show(m) << " of " << a.R.show(x) << " , " << a.R.show(y)); \
    PM w_(a.to(want), lm);                                                     \
    CHECK(got_ == w_ && !(got_ != w_) && str(got_) == str(w_), key ".canon", str(got_) << " vs " << str(w_)); \
  } while (0)

template <class A> static void pm_case(Ctx &c) {
  typedef typename A::P P;
  typedef typename A::PM PM;
  A a(c.rng);
  Rng &r = c.rng;
  bool irr;
  const Poly m = pick_modulus(a, r, irr);
  const int n = PR::deg(m);
  Poly x = pick_res(a, r, m), y = pick_res(a, r, m);
  if (r.chance(1, 10)) y = x;
  if (r.chance(1, 16)) y = a.R.mod(a.R.neg(x), m);
  Poly xi;
  bool unit = a.R.invmod(x, m, xi);
  if (unit && r.chance(1, 16)) y = xi;
  c.input(a.R.hash(x) * 31 + a.R.hash(y) + 977 * a.R.hash(m), x.size() > 1 || y.size() > 1);
  if (c.want_sample()) c.sample("mod " + a.R.show(m) + ": x=" + a.R.show(x) + " y=" + a.R.show(y));
  const P lm = a.to(m);
  // built from an unreduced representative
  const Poly xl = r.coin() ? x : a.R.add(x, a.R.mul(m, a.R.random(r, 3)));
  const PM X(a.to(xl), lm), Y(a.to(y), lm);
  EQR(X, x, "build");
  EQR(X + Y, a.R.add(x, y), "add");
  EQR(X - Y, a.R.sub(x, y), "sub");
  EQR(-X, a.R.neg(x), "neg");
  EQR(X * Y, a.R.mulmod(x, y, m), "mul");
  EQR(Y * X, a.R.mulmod(x, y, m), "mul");
  EQR(X * X, a.R.mulmod(x, x, m), "mul");
  { PM t = X; t += Y; EQR(t, a.R.add(x, y), "add_assign"); }
  { PM t = X; t -= Y; EQR(t, a.R.sub(x, y), "sub_assign"); }
  { PM t = X; t *= Y; EQR(t, a.R.mulmod(x, y, m), "mul_assign"); }
  { PM t = X; t += t; EQR(t, a.R.add(x, x), "add_self"); }
  { PM t = X; t -= t; EQR(t, Poly(), "sub_self"); }
  { PM t = X; t *= t; EQR(t, a.R.mulmod(x, x, m), "mul_self"); }
  {
    int k = r.coin() ? (int)r.range(-12, 12) : (int)r.range(-2000000000, 2000000000);
    EQR(X * k, a.R.scale(x, a.R.F.fromint(k)), "mulint");
    PM t = X; t *= k;
    EQR(t, a.R.scale(x, a.R.F.fromint(k)), "mulint_assign");
  }
  { int v = (int)r.range(-50, 300); Poly w = a.R.mod(a.R.fromint(v), m); EQR(X.prime_subfield_element(v), w, "prime_subfield"); EQR(PM::prime_subfield_element(v, lm), w, "prime_subfield"); }
  CHECK(X.get_characteristic() == a.R.F.p, "characteristic", X.get_characteristic());
  // inverses
  {
    PM i(Y);
    bool ok = X.recip(i);
    CHECK(ok == unit, "inverse_exists", "recip of " << a.R.show(x) << " mod " << a.R.show(m) << " reported " << ok);
    if (ok && unit) EQR(i, xi, "recip");
    Poly yi;
    bool yu = a.R.invmod(y, m, yi);
    if (yu) {
      EQR(X / Y, a.R.mulmod(x, yi, m), "div");
      EQR(X % Y, Poly(), "mod");
      PM t = X; t /= Y; EQR(t, a.R.mulmod(x, yi, m), "div_assign");
      PM t2 = X; t2 %= Y; EQR(t2, Poly(), "mod_assign");
    } else {
      REFUSED(X / Y, "div_nonunit", a.R.show(y) << " mod " << a.R.show(m));
      REFUSED(X % Y, "mod_nonunit", a.R.show(y) << " mod " << a.R.show(m));
      PM t = X;
      REFUSED(t /= Y, "div_nonunit", a.R.show(y) << " mod " << a.R.show(m));
      EQR(t, x, "kept_after_refusal");
    }
    if (unit) { PM t = X; t /= t; EQR(t, a.R.one(), "div_self"); }
  }
  // powers
  {
    int e = (int)(r.coin() ? r.below(40) : r.coin() ? r.below(1u << 31) : (1u << r.below(31)) - r.below(2));
    if (e == 0 && x.empty()) { REFUSED(X.exp(0), "zero_pow_zero", ""); }
    else {
      EQR(X.exp(e), a.R.powmod(x, (u64)e, m), "exp");
    }
    int ne = (int)(r.coin() ? r.range(1, 40) : r.range(1, INT_MAX));
    if (unit) EQR(X.exp(-ne), a.R.powmod(xi, (u64)ne, m), "exp_neg");
    else REFUSED(X.exp(-ne), "exp_neg_nonunit", a.R.show(x) << " mod " << a.R.show(m));
    REFUSED(X.exp(INT_MIN), "exp_int_min", "");
    if (irr && !x.empty()) {
      double lim = 1; u64 N = 1; u64 q = a.R.F.q();
      for (int i = 0; i < n; i++) { lim *= (double)q; N *= q; if (lim > 2e9) break; }
      if (lim < 2e9) { EQR(X.exp((int)(N - 1)), a.R.one(), "fermat"); EQR(X.exp(-(int)(N - 1)), a.R.one(), "fermat"); EQR(X.exp((int)N), x, "frobenius"); }
    }
  }
  // comparisons
  {
    bool lt = a.R.lt(x, y), eq = x == y;
    CHECK((X == Y) == eq && (X != Y) == !eq, "eq", a.R.show(x) << " vs " << a.R.show(y));
    CHECK((X < Y) == lt && (X <= Y) == (lt || eq) && (X > Y) == !(lt || eq) && (X >= Y) == !lt, "order", a.R.show(x) << " vs " << a.R.show(y));
    CHECK((X == 0) == x.empty() && (X != 0) == !x.empty(), "eq0", a.R.show(x));
    CHECK((X == 1) == (x == a.R.one()) && (X != 1) == (x != a.R.one()), "eq1", a.R.show(x));
  }
  // other moduli never combine
  {
    Poly m2 = r.coin() ? a.R.add(m, a.R.cst(a.R.F.random_nz(r))) : a.R.mul(m, a.R.X());
    if (PR::deg(m2) > 0 && m2 != m) {
      const PM Z(a.to(y), a.to(m2));
      REFUSED(X + Z, "mixed_moduli", ""); REFUSED(X - Z, "mixed_moduli", ""); REFUSED(X * Z, "mixed_moduli", "");
      REFUSED(X / Z, "mixed_moduli", ""); REFUSED(X % Z, "mixed_moduli", "");
      REFUSED((void)(X < Z), "mixed_moduli", ""); REFUSED((void)(X <= Z), "mixed_moduli", ""); REFUSED((void)(X > Z), "mixed_moduli", ""); REFUSED((void)(X >= Z), "mixed_moduli", "");
      PM t = X; REFUSED(t += Z, "mixed_moduli", ""); REFUSED(t *= Z, "mixed_moduli", ""); EQR(t, x, "kept_after_refusal");
      CHECK(!(X == Z) && X != Z, "eq_mixed", "");
      PM u = X; u = Z; CHECK(a.from(u.get_modulus()) == m2 && a.from(u.get_residue()) == a.R.mod(y, m2), "assign_other_modulus", "");
    }
  }
  { const P z = a.to(Poly()); REFUSED(PM(a.to(x), z), "zero_modulus", ""); }
  EQR(X, x, "operands_kept"); EQR(Y, y, "operands_kept");
}

// A long chain of updates of a few variables against the model.
template <class A> static void pm_hist(Ctx &c) {
  typedef typename A::P P;
  typedef typename A::PM PM;
  A a(c.rng);
  Rng &r = c.rng;
  bool irr;
  const Poly m = pick_modulus(a, r, irr);
  const int n = PR::deg(m);
  const P lm = a.to(m);
  std::vector<Poly> v; std::vector<PM> L;
  for (int i = 0; i < 3; i++) { v.push_back(pick_res(a, r, m)); L.push_back(PM(a.to(v[i]), lm)); }
  c.input(a.R.hash(m) * 31 + a.R.hash(v[0]) + r.s, true);
  int steps = 20;
  for (int s = 0; s < steps; s++) {
    int i = (int)r.below(3), j = (int)r.below(3), k = (int)r.below(3), op = (int)r.below(11);
    const Poly x = v[j], y = v[k];
    switch (op) {
    case 0: L[i] = L[j] + L[k]; v[i] = a.R.add(x, y); break;
    case 1: L[i] = L[j] - L[k]; v[i] = a.R.sub(x, y); break;
    case 2: L[i] = L[j] * L[k]; v[i] = a.R.mulmod(x, y, m); break;
    case 3: L[i] += L[k]; v[i] = a.R.add(v[i], y); break;
    case 4: L[i] -= L[k]; v[i] = a.R.sub(v[i], y); break;
    case 5: L[i] *= L[k]; v[i] = a.R.mulmod(v[i], y, m); break;
    case 6: { Poly yi; if (a.R.invmod(y, m, yi)) { Poly t = v[i]; L[i] /= L[k]; v[i] = a.R.mulmod(t, yi, m); } break; }
    case 7: { int e = (int)r.range(1, 300); L[i] = L[j].exp(e); v[i] = a.R.powmod(x, e, m); break; }
    case 8: { Poly yi; if (a.R.invmod(y, m, yi)) { L[i] = L[k].exp(-3); v[i] = a.R.powmod(yi, 3, m); } break; }
    case 9: { PM t(L[j]); L[i] = t; t += t; v[i] = x; break; }
    case 10: { int q = (int)r.range(-9, 9); L[i] *= q; v[i] = a.R.scale(v[i], a.R.F.fromint(q)); break; }
    }
    for (int q = 0; q < 3; q++) { const Poly &y = v[q]; EQR(L[q], v[q], "history"); }
  }
}
#define S(tag, T) SECTION(pm_##tag) { pm_case<T>(c); } SECTION(pmh_##tag) { pm_hist<T>(c); }
S(f2, AF2)
S(fp, AFp)
S(f2n, AF2n)
S(fpn, AFpn)
