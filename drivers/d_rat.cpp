// Rational functions: exactness, canonical form, refusals, mutation histories.
#include <climits>
#include "adapt.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
using namespace spffl::rationals;

struct F { Poly n, d; };
static bool operator==(const F &a, const F &b) { return a.n == b.n && a.d == b.d; }

struct RF2 : AF2 { typedef f2_polyrat_t Q; using AF2::AF2; bool parse(Q &q, const std::string &s) { return q.from_string(s); } };
struct RFp : AFp { typedef fp_polyrat_t Q; using AFp::AFp; bool parse(Q &q, const std::string &s) { return q.from_string(s, p); } };
struct RF2n : AF2n { typedef f2n_polyrat_t Q; using AF2n::AF2n; bool parse(Q &q, const std::string &s) { return q.from_string(s, m); } };

template <class A> struct M {
  A &a;
  explicit M(A &a_) : a(a_) {}
  F red(Poly n, Poly d) const {
    Poly g = a.R.gcd(n, d);
    n = a.R.div(n, g); d = a.R.div(d, g);
    E li = a.R.F.inv(d.back());
    F f; f.n = a.R.scale(n, li); f.d = a.R.scale(d, li);
    return f;
  }
  F add(const F &x, const F &y) const { return red(a.R.add(a.R.mul(x.n, y.d), a.R.mul(y.n, x.d)), a.R.mul(x.d, y.d)); }
  F neg(const F &x) const { F r = x; r.n = a.R.neg(x.n); return r; }
  F sub(const F &x, const F &y) const { return add(x, neg(y)); }
  F mul(const F &x, const F &y) const { return red(a.R.mul(x.n, y.n), a.R.mul(x.d, y.d)); }
  F div(const F &x, const F &y) const { return red(a.R.mul(x.n, y.d), a.R.mul(x.d, y.n)); }
  F pow(const F &x, int e) const { F r; r.n = a.R.pow(x.n, e); r.d = a.R.pow(x.d, e); return r; }
  F cst(const Poly &n) const { F r; r.n = n; r.d = a.R.one(); return r; }
  F gen(Rng &r) const {
    static const std::vector<int> ds = {0, 0, 1, 1, 2, 3, 4, 5};
    int k = (int)r.below(12), dn = r.pick(ds), dd = r.pick(ds);
    if (std::string(A::nm()) == "f2" && r.chance(1, 5)) { dn = (int)r.below(80); dd = (int)r.below(80); }
    if (k == 0) return cst(Poly());
    if (k == 1) return cst(a.R.one());
    if (k == 2) return cst(a.R.random(r, dn));
    Poly n = a.R.random(r, dn), d = a.R.random_exact(r, dd);
    if (k == 3) { Poly g = a.R.random_exact(r, 3); n = a.R.mul(n, g); d = a.R.mul(d, g); }
    return red(n, d);
  }
  std::string show(const F &f) const { return "(" + a.R.show(f.n) + ")/(" + a.R.show(f.d) + ")"; }
};
#define EQF(expr, want, key)                                                   \
  do {                                                                         \
    const F w__ = (want);                                                      \
    Q got_ = (expr);                                                           \
    F g_; g_.n = a.from(got_.get_numerator()); g_.d = a.from(got_.get_denominator()); \
    CHECK(g_ == w__, key, key << " of " << m.show(x) << " , " << m.show(y) << " gave " << m.show(g_) << " want " << m.show(w__)); \
    CHECK(a.normal(got_.get_numerator()) && a.normal(got_.get_denominator()), key ".normal", m.show(x) << " , " << m.show(y)); \
    Q w_(a.to(w__.n), a.to(w__.d));                                            \
    CHECK(got_ == w_ && !(got_ != w_) && str(got_) == str(w_), key ".canon", str(got_) << " vs " << str(w_)); \
  } while (0)

template <class A> static void rat_case(Ctx &c) {
  typedef typename A::Q Q;
  A a(c.rng);
  Rng &r = c.rng;
  M<A> m(a);
  F x = m.gen(r), y = m.gen(r);
  if (r.chance(1, 10)) y = x;
  if (r.chance(1, 14)) y = m.neg(x);
  if (r.chance(1, 14) && !x.n.empty()) y = m.div(m.cst(a.R.one()), x);
  if (r.chance(1, 10)) y = m.red(a.R.random(r, 3), x.d);
  c.input(a.R.hash(x.n) + 31 * a.R.hash(x.d) + 977 * a.R.hash(y.n) + 31337 * a.R.hash(y.d), x.d.size() > 1 || y.d.size() > 1);
  if (c.want_sample()) c.sample("x=" + m.show(x) + " y=" + m.show(y));
  // built from an unreduced representative
  Poly g = r.coin() ? a.R.one() : a.R.random_exact(r, (int)r.below(4));
  Q X(a.to(a.R.mul(x.n, g)), a.to(a.R.mul(x.d, g)));
  Q Y(a.to(y.n), a.to(y.d));
  EQF(X, x, "build");
  EQF(X + Y, m.add(x, y), "add"); EQF(Y + X, m.add(x, y), "add");
  EQF(X - Y, m.sub(x, y), "sub");
  EQF(-X, m.neg(x), "neg");
  EQF(X * Y, m.mul(x, y), "mul"); EQF(Y * X, m.mul(x, y), "mul");
  { Q t = X; t += Y; EQF(t, m.add(x, y), "add_assign"); }
  { Q t = X; t -= Y; EQF(t, m.sub(x, y), "sub_assign"); }
  { Q t = X; t *= Y; EQF(t, m.mul(x, y), "mul_assign"); }
  { Q t = X; t += t; EQF(t, m.add(x, x), "add_self"); }
  { Q t = X; t -= t; EQF(t, m.cst(Poly()), "sub_self"); }
  { Q t = X; t *= t; EQF(t, m.mul(x, x), "mul_self"); }
  // the same function reached another way
  EQF((X + Y) - Y, x, "add_sub");
  if (!y.n.empty()) {
    EQF(X / Y, m.div(x, y), "div");
    EQF(X % Y, m.cst(Poly()), "mod");
    { Q t = X; t /= Y; EQF(t, m.div(x, y), "div_assign"); }
    EQF((X * Y) / Y, x, "mul_div");
    { Q t = Y; t /= t; EQF(t, m.cst(a.R.one()), "div_self"); }
  } else {
    REFUSED(X / Y, "div_zero", m.show(x)); REFUSED(X % Y, "mod_zero", m.show(x));
    Q t = X; REFUSED(t /= Y, "div_zero", m.show(x)); EQF(t, x, "kept_after_refusal");
  }
  {
    int d = std::max(PR::deg(x.n), PR::deg(x.d)), e = (int)r.below(d > 20 ? 4 : 7);
    if (x.n.empty()) { REFUSED(X.exp(0), "zero_pow_zero", ""); REFUSED(X.exp(-(int)r.range(1, 9)), "zero_pow_neg", ""); if (e) EQF(X.exp(e), x, "exp"); }
    else {
      EQF(X.exp(e), m.pow(x, e), "exp");
      EQF(X.exp(-e), m.pow(m.div(m.cst(a.R.one()), x), e), "exp_neg");
    }
    REFUSED(X.exp(INT_MIN), "exp_int_min", "");
  }
  { int v = (int)r.range(-30, 60); EQF(X.prime_subfield_element(v), m.cst(a.R.fromint(v)), "prime_subfield"); }
  CHECK(X.get_characteristic() == a.R.F.p, "characteristic", "");
  {
    bool eq = x == y;
    CHECK((X == Y) == eq && (X != Y) == !eq, "eq", m.show(x) << " vs " << m.show(y));
    bool lt = a.R.lt(a.R.mul(x.n, y.d), a.R.mul(x.d, y.n));
    CHECK((X < Y) == lt && (X <= Y) == (lt || eq) && (X > Y) == !(lt || eq) && (X >= Y) == !lt, "order", m.show(x) << " vs " << m.show(y));
    CHECK((X == a.to(x.n)) == (x.d == a.R.one()) && (X != a.to(x.n)) == !(x.d == a.R.one()), "eq_poly", m.show(x));
    Poly o = a.R.add(x.n, a.R.one()); CHECK(!(X == a.to(o)) && X != a.to(o), "eq_poly", m.show(x));
  }
  { Q t = X; t = a.to(y.n); EQF(t, m.cst(y.n), "assign_poly"); Q u(a.to(y.n)); EQF(u, m.cst(y.n), "from_poly"); }
  { Q t(Y); std::string s = str(X); bool ok = a.parse(t, s); CHECK(ok, "text", s); if (ok) EQF(t, x, "text"); }
  { const typename A::P z = a.to(Poly()); REFUSED(Q(a.to(x.n), z), "zero_denominator", m.show(x)); }
  EQF(X, x, "operands_kept"); EQF(Y, y, "operands_kept");
}
template <class A> static void rat_hist(Ctx &c) {
  typedef typename A::Q Q;
  A a(c.rng);
  Rng &r = c.rng;
  M<A> m(a);
  std::vector<F> v; std::vector<Q> L;
  for (int i = 0; i < 3; i++) { v.push_back(m.gen(r)); L.push_back(Q(a.to(v[i].n), a.to(v[i].d))); }
  c.input(a.R.hash(v[0].n) + 31 * a.R.hash(v[1].n) + r.s, true);
  for (int s = 0; s < 12; s++) {
    int i = (int)r.below(3), j = (int)r.below(3), k = (int)r.below(3);
    const F x = v[j], y = v[k];
    switch (r.below(8)) {
    case 0: L[i] = L[j] + L[k]; v[i] = m.add(x, y); break;
    case 1: L[i] = L[j] - L[k]; v[i] = m.sub(x, y); break;
    case 2: L[i] = L[j] * L[k]; v[i] = m.mul(x, y); break;
    case 3: L[i] += L[k]; v[i] = m.add(v[i], y); break;
    case 4: L[i] *= L[k]; v[i] = m.mul(v[i], y); break;
    case 5: if (!y.n.empty()) { L[i] /= L[k]; v[i] = m.div(v[i], y); } break;
    case 6: if (!y.n.empty()) { L[i] = L[k].exp(-1); v[i] = m.div(m.cst(a.R.one()), y); } break;
    case 7: { Q t(L[j]); L[i] = t; t += t; v[i] = x; break; }
    }
    if (v[i].n.size() + v[i].d.size() > 60) { v[i] = m.gen(r); L[i] = Q(a.to(v[i].n), a.to(v[i].d)); }
    for (int q = 0; q < 3; q++) { const F &y = v[q]; EQF(L[q], v[q], "history"); }
  }
}
#define S(tag, T) SECTION(rat_##tag) { rat_case<T>(c); } SECTION(rath_##tag) { rat_hist<T>(c); }
S(f2, RF2)
S(fp, RFp)
S(f2n, RF2n)
