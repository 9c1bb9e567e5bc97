// The answer of an operation depends on its operands only.
// A case is a family of operation instances whose operands are easily confused with one another: the same
// residues under other moduli, moduli that agree in their low bits or in their degree, polynomials that share
// words or all coefficients but one.  One process runs a random history over the family; every instance is also
// run alone in a process of its own, and each answer of the history has to be that instance's answer.
// The parent process only compares: it never calls the library, so no process inherits any of its state.
#include "img.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <map>
#include "spffl/bitrand/psdes.h"
#include "spffl/bits/count_bits.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/intmath/log10.h"
#include "spffl/intmath/log2.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/min_char_polys.h"
#include "spffl/list/list_elements.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/q_cyclotomic/qff.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
using namespace spffl;
using namespace spffl::list;
typedef std::vector<int> Code;
struct Tup { int ctx; Code f, g, m; int k; };
typedef std::vector<Fld> Ctxs;
struct Inst { const char *prop; std::string label; std::function<std::string()> fn; };
static std::string cs(const Code &c) { std::string s; for (int x : c) s += std::to_string(x) + ","; return s; }

// ---------------------------------------------------------------- polynomial rings and residue rings
static u64 ipow(u64 q, int d, u64 cap) { u64 n = 1; for (int i = 0; i < d; i++) { n *= q; if (n > cap) return cap + 1; } return n; }
template <class A> struct Env {
  A a;
  const Tup &t;
  const Ctxs &cx;
  typedef typename A::P P; typedef typename A::PM PM; typedef typename A::S S;
  Env(const Ctxs &c, const Tup &u) : a(c[u.ctx]), t(u), cx(c) {}
  Poly poly(const Code &c, int cap = 1 << 20) const {
    Poly r;
    for (int i = 0; i < (int)c.size() && i <= cap; i++) r.push_back(a.R.F.index((u64)c[i] % a.R.F.q()));
    a.R.trim(r);
    return r;
  }
  int degcap(u64 sz) const { int d = 0; while (d < 24 && ipow(a.R.F.q(), d + 1, sz) <= sz) d++; return d; }
  P pf() const { return a.to(poly(t.f)); }
  P pg() const { return a.to(poly(t.g)); }
  P ff() const { return a.to(poly(t.f, a.R.F.q() > 130 ? 2 : 1 << 20)); } // operands to factor: the algorithm walks the field
  P fg() const { return a.to(poly(t.g, a.R.F.q() > 130 ? 1 : 1 << 20)); }
  Poly rm(u64 sz) const { // modulus of positive degree whose ring has at most sz elements
    int cap = std::max(1, degcap(sz)), d = std::min<int>(std::max<int>(1, (int)t.m.size() - 1), cap);
    Poly r; for (int i = 0; i <= d; i++) r.push_back(a.R.F.index((u64)(i < (int)t.m.size() ? t.m[i] : 0) % a.R.F.q()));
    if (r[d] == a.R.F.zero) r[d] = a.R.F.one;
    return r;
  }
  P m(u64 sz = ~0ull >> 1) const { return a.to(rm(sz)); }
  PM x(u64 sz = ~0ull >> 1) const { return PM(a.to(poly(t.f, degcap(sz) + 2)), m(sz)); }
  PM y(u64 sz = ~0ull >> 1) const { return PM(a.to(poly(t.g, degcap(sz) + 2)), m(sz)); }
};
template <class A> using Ops = std::vector<std::pair<std::pair<const char *, const char *>, std::string (*)(Env<A> &)>>;
#define OP(prop, name, ...) o.push_back({{prop, name}, [](Env<A> &e) -> std::string { typedef typename A::P P; typedef typename A::PM PM; __VA_ARGS__ }});
template <class A> struct RingProp { static constexpr const char *v = std::is_same_v<A, AF2> ? "C04" : std::is_same_v<A, AFp> ? "C05" : "C06"; };
template <class T> static std::string all(const T &v) { std::string s; for (int i = 0; i < v.get_num_elements(); i++) s += img(v[i]) + " "; return s; }

template <class A> static Ops<A> ring_ops() {
  Ops<A> o;
  constexpr const char *RP = RingProp<A>::v;
  OP(RP, "add", return img(P(e.pf() + e.pg())) + img(P(e.pf() - e.pg()));)
  OP(RP, "mul", return img(P(e.pf() * e.pg()));)
  OP(RP, "div", return img(P(e.pf() / e.pg()));)
  OP(RP, "mod", return img(P(e.pf() % e.pg()));)
  OP(RP, "exp", return img(P(e.pf().exp(e.t.k % 5)));)
  OP(RP, "deriv", return img(P(e.pf().deriv()));)
  OP(RP, "root", P q; P f = e.pf(); if (e.t.k & 1) f = f.exp(e.a.R.F.p > 7 ? 1 : (int)e.a.R.F.p); bool b; if constexpr (requires { f.square_root(q); }) b = f.square_root(q); else b = f.pth_root(q); return b ? img(q) : "none";)
  OP(RP, "eval", return img(e.pf().eval(e.a.sto(e.a.R.F.index((u64)e.t.k % e.a.R.F.q()))));)
  OP(RP, "order", P f = e.pf(); P g = e.pg(); return std::to_string((f < g) + 2 * (f == g) + 4 * (f >= g));)
  OP(RP, "next", P f = e.pf(); f.increment(); return img(f);)
  OP("C07", "gcd", return img(P(e.pf().gcd(e.pg())));)
  OP("C07", "ext_gcd", P r; P s; P g = e.pf().ext_gcd(e.pg(), r, s); return img(g) + img(r) + img(s);)
  OP("C08", "pm_mul", return img(PM(e.x() * e.y()));)
  OP("C08", "pm_recip", PM q; return e.x().recip(q) ? img(q) : "none";)
  OP("C08", "pm_div", return img(PM(e.x() / e.y()));)
  OP("C08", "pm_exp", return img(PM(e.x().exp(e.t.k % 9 - 4)));)
  OP("C08", "pm_add", return img(PM(e.x() + e.y())) + img(PM(e.x() - e.y()));)
  return o;
}
template <class A> static Ops<A> fac_ops();
#define FAC_COMMON(FACTOR, IRR, TOT, ONE)                                                                              \
  OP("C10", "factor", return img(FACTOR(e.ff()));)                                                                     \
  OP("C10", "factor_product", return img(FACTOR(e.ff() * e.fg()));)                                                    \
  OP("C11", "irreducible", return std::to_string(IRR(e.ff()));)                                                        \
  OP("C12", "totient", return std::to_string(TOT(e.ff()));)                                                            \
  OP("C12", "divisors", return all(FACTOR(e.ff()).get_all_divisors(ONE));)                                             \
  OP("C12", "maximal", tvector<P> v; return FACTOR(e.ff()).get_maximal_proper_divisors(v, ONE) ? all(v) : "none";)
template <> Ops<AF2> fac_ops<AF2>() {
  typedef AF2 A; Ops<A> o;
  using namespace factorization; using namespace units; using namespace linalg;
  FAC_COMMON(f2_poly_factor, f2_poly_is_irreducible, f2_poly_totient, f2_poly_t(1))
  OP("C11", "find_irr", return img(f2_poly_find_irreducible(e.t.k % 12 + 1));)
  OP("C11", "find_prim", return img(f2_poly_find_prim(e.t.k % 8 + 1, e.t.k & 1));)
  OP("C11", "primitive", return std::to_string(f2_poly_is_primitive(e.m(1 << 12)));)
  OP("C13", "period", return std::to_string(f2_poly_period(e.m(1 << 12)));)
  OP("C13", "order", return std::to_string(f2_polymod_order(e.x(1 << 12)));)
  OP("C13", "generator", PM g; return f2_polymod_find_generator(e.m(128), g) ? img(g) : "none";)
  OP("C14", "log", PM g = e.y(1 << 10); PM x = g.exp(e.t.k % 50 + 1); return std::to_string(f2_polymod_log(g, x));)
  OP("C14", "log_any", PM g; if (!f2_polymod_find_generator(e.m(128), g)) return "none"; return std::to_string(f2_polymod_log(g, e.x(128)));)
  OP("C17", "min_poly", return img(f2_polymod_minimal_polynomial(e.x(256))) + std::to_string(f2_polymod_frobenius_length(e.x(256)));)
  OP("C17", "char_poly", return img(linalg::f2_polymod_characteristic_polynomial(e.x(256)));)
  OP("C19", "list", return all(list::f2_polymod_list(e.m(64), (sp_list_type_t)(e.t.k % 3)));)
  OP("C19", "glist", return all(list::f2_polymod_glist(e.x(64), e.t.k & 1 ? SP_LIST_MULTIPLES : SP_LIST_REL_PRIME));)
  OP("C19", "plist", return all(list::f2_poly_list(e.t.k % 6));)
  return o;
}
template <> Ops<AFp> fac_ops<AFp>() {
  typedef AFp A; Ops<A> o;
  using namespace factorization; using namespace linalg;
  FAC_COMMON(fp_poly_factor, fp_poly_is_irreducible, fp_poly_totient, fp_poly_t(1, e.a.p))
  OP("C11", "find_irr", return img(fp_poly_find_irr(e.a.p, e.t.k % 4 + 1));)
  OP("C17", "min_poly", return img(fp_polymod_minimal_polynomial(e.x(600))) + std::to_string(fp_polymod_frobenius_length(e.x(600)));)
  OP("C17", "char_poly", return img(linalg::fp_polymod_characteristic_polynomial(e.x(600)));)
  OP("C19", "list", if (e.a.p > 64) return "large"; return all(list::fp_polymod_list(e.m(64), (sp_list_type_t)(e.t.k % 3)));)
  OP("C19", "plist", if (e.a.p > 64) return "large"; return all(list::fp_poly_list(e.a.p, e.degcap(64)));)
  return o;
}
template <> Ops<AF2n> fac_ops<AF2n>() {
  typedef AF2n A; Ops<A> o;
  using namespace factorization; using namespace units; using namespace linalg;
  FAC_COMMON(f2n_poly_factor, f2n_poly_is_irreducible, f2n_poly_totient, f2n_poly_t(f2_polymod_t(f2_poly_t(1), e.a.m)))
  OP("C10", "roots", tvector<f2_polymod_t> v; return f2n_poly_roots(e.pf() * e.pg(), v) ? all(v) : "none";)
  OP("C11", "find_irr", return img(f2n_poly_find_irr(e.a.m, e.t.k % 3 + 1));)
  OP("C13", "order", return std::to_string(f2n_polymod_order(e.x(600)));)
  OP("C13", "generator", PM g; return f2n_polymod_find_generator(e.m(70), g) ? img(g) : "none";)
  OP("C14", "log", PM g = e.y(300); PM x = g.exp(e.t.k % 50 + 1); return std::to_string(f2n_polymod_log(g, x));)
  OP("C17", "min_poly", return img(f2npm_min_poly(e.x(300))) + std::to_string(f2npm_froblen(e.x(300)));)
  OP("C17", "elt_min", f2_polymod_t s = e.a.sto(e.a.R.F.index((u64)e.t.k % e.a.R.F.q())); return img(f2_polymod_min_poly(s)) + img(linalg::f2_polymod_char_poly(s));)
  OP("C19", "list", return all(list::f2n_polymod_list(e.m(64), (sp_list_type_t)(e.t.k % 3)));)
  OP("C19", "plist", return all(list::f2n_poly_list(e.a.m, e.degcap(64)));)
#define CONV if (e.a.R.F.n > 5) return "large"; f2_poly_t m1 = e.a.m, m2 = mk_f2(e.cx[(e.t.ctx + 1) % e.cx.size()].m); f2_polymod_t g1, g2; if (!units::f2_polymod_find_generator(m1, g1)) return "nogen"; if (!f2_polymod_convert_prep(g1, m2, g2)) return "none";
  OP("C30", "prep", CONV return img(g2);)
  OP("C30", "scalar", CONV std::string s; for (int c : e.t.f) s += img(f2_polymod_convert_scalar(g1, g2, e.a.sto(e.a.R.F.index((u64)c % e.a.R.F.q())))); return s;)
  OP("C30", "scalar1", CONV return img(f2_polymod_convert_scalar(g1, g2, e.a.sto(e.a.R.F.index((u64)e.t.k % e.a.R.F.q()))));)
  OP("C30", "poly", CONV return img(f2_polymod_convert_poly(g1, g2, e.pf()));)
  OP("C17", "matrix_char", int n = 1 + e.t.k % 3; tmatrix<f2_polymod_t> M(n, n); for (int i = 0; i < n * n; i++) M[i / n][i % n] = e.a.sto(e.a.R.F.index((u64)(e.t.f[i % e.t.f.size()] + i * e.t.g[i % e.t.g.size()]) % e.a.R.F.q())); return img(linalg::f2_polymod_characteristic_polynomial(M));)
  OP("C32", "diag", if (e.a.R.F.n > 2) return "large"; int n = 1 + e.t.k % 3; tmatrix<f2_polymod_t> M(n, n); for (int i = 0; i < n * n; i++) M[i / n][i % n] = e.a.sto(e.a.R.F.index((u64)(e.t.f[i % e.t.f.size()] + i * e.t.g[i % e.t.g.size()]) % e.a.R.F.q())); f2_poly_t sm; tvector<f2_polymod_t> ev; return f2_polymod_matrix_is_diagonalizable(M, sm, ev) ? img(sm) + all(ev) : "no";)
  return o;
}
template <> Ops<AFpn> fac_ops<AFpn>() { return {}; }

template <class A> static Code gen_code(Rng &r) {
  int n;
  if (std::is_same_v<A, AF2>) { static const std::vector<int> d = {2, 4, 5, 6, 8, 9, 12, 14, 63, 64, 65, 66, 70, 130}; n = r.pick(d); }
  else n = (int)r.range(1, 6);
  Code c(n);
  int top = r.coin() ? 4 : 300;
  for (auto &x : c) x = (int)r.below(top);
  c[n - 1] = 1 + (int)r.below(3);
  if (std::is_same_v<A, AF2>) c[n - 1] = 1;
  return c;
}
static Code near(Rng &r, Code c) {
  int n = (int)c.size();
  switch (r.below(6)) {
  case 0: c[r.below(n)] += 1; break;
  case 1: c[0] += 1; break;
  case 2: c.insert(c.begin(), 0); break;
  case 3: std::reverse(c.begin(), c.end()); break;
  case 4: if (n > 1) { c.pop_back(); c.back() = 1; } else c.push_back(1); break;
  default: c[n / 2] += 1;
  }
  return c;
}
static i64 next_prime(i64 n, i64 step) { do n += step; while (!ref::is_prime(n)); return n; }
template <class A> static Ctxs contexts(Rng &r, int maxn = 5) {
  Ctxs v;
  auto irr = [&](i64 p, int n) { PR b{Fld(p)}; std::vector<i64> m; for (auto &e : b.random_irreducible(r, n)) m.push_back(e[0]); return Fld(p, m); };
  auto add = [&](const Fld &f) { for (auto &g : v) if (g.p == f.p && g.m == f.m) return; v.push_back(f); };
  if constexpr (std::is_same_v<A, AF2>) v.push_back(Fld(2));
  else if constexpr (std::is_same_v<A, AFp>) {
    static const std::vector<i64> ps = {2, 3, 5, 7, 11, 13, 31};
    i64 p = r.pick(ps);
    add(Fld(p)); add(Fld(r.pick(ps)));
    if (r.coin()) add(Fld(next_prime(p, p == 2 ? 255 : 256)));
    if (r.chance(1, 8) && p > 2) add(Fld(next_prime(p, 65536)));
  } else if constexpr (std::is_same_v<A, AF2n>) {
    int n = (int)r.range(1, maxn);
    if (maxn > 2 && r.chance(1, 10)) n = (int)r.range(6, 9);
    for (int i = 0; i < 4; i++) add(irr(2, n));
    if (r.coin()) add(irr(2, (int)r.range(1, maxn)));
  } else {
    static const std::vector<i64> ps = {2, 3, 5, 7};
    i64 p = r.pick(ps); int n = (int)r.range(1, 2);
    for (int i = 0; i < 3; i++) add(irr(p, n));
    add(irr(r.pick(ps), n));
  }
  return v;
}
template <class A> static bool too_large(const A &a, const char *name) {
  static const std::vector<std::string> big = {"factor", "factor_product", "irreducible", "totient", "divisors", "maximal", "find_irr", "roots", "root"};
  if (std::is_same_v<A, AFp> && a.R.F.q() > 2000) for (auto &b : big) if (b == name) return true;
  if (std::is_same_v<A, AFp> && a.R.F.q() > 64 && (!strcmp(name, "find_irr") || !strcmp(name, "min_poly") || !strcmp(name, "char_poly"))) return true;
  return false;
}
template <class A> static void world(Rng &r, std::vector<Inst> &out, const std::string &want) {
  auto cx = std::make_shared<Ctxs>(contexts<A>(r, want == "C32" ? 2 : 5));
  Ops<A> ops = ring_ops<A>(), fo = fac_ops<A>();
  ops.insert(ops.end(), fo.begin(), fo.end());
  std::vector<int> mine, rest;
  for (int i = 0; i < (int)ops.size(); i++) (want == ops[i].first.first ? mine : rest).push_back(i);
  if (mine.empty()) return;
  for (int n = (int)r.range(2, 3), w = 0; w <= n; w++) {
    auto op = ops[w < n ? r.pick(mine) : r.pick(rest)];
    bool fact = op.first.first == std::string("C10") || op.first.first == std::string("C11") || op.first.first == std::string("C12");
    Tup t{(int)r.below(cx->size()), gen_code<A>(r), gen_code<A>(r), gen_code<A>(r), (int)r.below(64)};
    if (fact) { if (t.f.size() > 14) { t.f.resize(14); t.f.back() = 1; } if (t.g.size() > 14) { t.g.resize(14); t.g.back() = 1; } }
    std::vector<Tup> ts = {t};
    if (cx->size() > 1) for (int i = 0; i < 2; i++) { Tup u = t; u.ctx = (t.ctx + 1 + i) % (int)cx->size(); ts.push_back(u); }
    for (int i = 0; i < 3; i++) { Tup u = r.coin() ? ts[r.below(ts.size())] : t; switch (r.below(4)) { case 0: u.f = near(r, u.f); break; case 1: u.g = near(r, u.g); break; case 2: u.m = near(r, u.m); break; default: u.k ^= 1 << r.below(6); } ts.push_back(u); }
    for (auto &u : ts) {
      std::string lab = std::string(A::nm()) + "." + op.first.second + " field " + std::to_string((*cx)[u.ctx].p) + "^" + cs(Code((*cx)[u.ctx].m.begin(), (*cx)[u.ctx].m.end())) + " f " + cs(u.f) + " g " + cs(u.g) + " m " + cs(u.m) + " k " + std::to_string(u.k);
      out.push_back({op.first.first, lab, [cx, op, u]() { Env<A> e(*cx, u); if (too_large(e.a, op.first.second)) return std::string("large"); return op.second(e); }});
    }
  }
}
// ---------------------------------------------------------------- integers, residues, rationals
struct ITup { int m, a, b, k; };
static void int_world(Rng &r, std::vector<Inst> &out, const std::string &want) {
  typedef std::string (*F)(const ITup &);
  static const std::vector<std::pair<std::pair<const char *, const char *>, F>> ops = {
#define IOP(prop, name, ...) {{prop, name}, [](const ITup &t) -> std::string { intmod_t a(t.a, t.m), b(t.b, t.m), q; __VA_ARGS__ }},
      IOP("C01", "arith", return img(intmod_t(a + b)) + img(intmod_t(a - b)) + img(intmod_t(a * b));)
      IOP("C01", "recip", return a.recip(q) ? img(q) : "none";)
      IOP("C01", "div", return img(intmod_t(a / b));)
      IOP("C01", "exp", return img(intmod_t(a.exp(t.k % 40 - 20)));)
      IOP("C02", "gcd", int m; int n; int g = intmath::int_ext_gcd(t.a, t.b, m, n); return std::to_string(intmath::int_gcd(t.a, t.b)) + " " + std::to_string(g) + " " + std::to_string(m) + " " + std::to_string(n) + " " + std::to_string(intmath::int_lcm(t.a, t.b));)
      IOP("C02", "totient", return std::to_string(intmath::int_totient(t.m % 3000 + 2));)
      IOP("C02", "prime", return std::to_string(intmath::is_prime(t.m)) + std::to_string(intmath::is_prime(t.a)) + " " + std::to_string(intmath::nth_prime(t.k + 1));)
      IOP("C02", "logs", return std::to_string(intmath::calc_log2_unsigned_floor((unsigned)t.m)) + " " + std::to_string(intmath::calc_log2_unsigned_ceil((unsigned)t.a + 1)) + " " + std::to_string(intmath::calc_log10_unsigned_floor((unsigned)t.b + 1));)
      IOP("C02", "roots", return std::to_string(intmath::int_sqrt_floor(t.a)) + " " + std::to_string(intmath::int_sqrt_ceil(t.b)) + " " + std::to_string(intmath::int_power(t.m, t.k % 3));)
      IOP("C10", "factor", return img(factorization::int_factor(t.a + 1)) + img(factorization::int_factor(t.m));)
      IOP("C12", "divisors", return all(factorization::int_factor(t.a % 5000 + 1).get_all_divisors(1));)
      IOP("C13", "order", return std::to_string(units::fp_order(a));)
      IOP("C13", "generator", intmod_t g; return units::fp_find_generator(t.m % 600 + 2, g) ? img(g) : "none";)
      IOP("C14", "log", int m = t.m % 600 + 2; intmod_t g(t.b, m); return std::to_string(units::fp_log(g, g.exp(t.k + 1)));)
      IOP("C14", "log_any", int m = t.m % 600 + 2; intmod_t g; if (!units::fp_find_generator(m, g)) return "none"; return std::to_string(units::fp_log(g, intmod_t(t.a, m)));)
      IOP("C19", "list", return all(list::intmod_list(t.m % 80 + 2, (sp_list_type_t)(t.k % 3)));)
      IOP("C19", "glist", int m = t.m % 80 + 2; return all(list::intmod_glist(intmod_t(t.a, m), t.k & 1 ? SP_LIST_MULTIPLES : SP_LIST_REL_PRIME));)
      IOP("C28", "psdes", uint32_t x = (uint32_t)t.a; uint32_t y = (uint32_t)t.b; bitrand::psdes_hash_64(x, y); return std::to_string(x) + " " + std::to_string(y);)
      IOP("C03", "rat", intrat_t x(t.a % 1000, t.k + 1); intrat_t y(t.b % 1000 + 1, t.k % 7 + 1); return img(intrat_t(x + y)) + img(intrat_t(x * y)) + img(intrat_t(x / y)) + (x < y ? "<" : ">=");)
      IOP("C03", "qpoly", q_poly_t f(intrat_t(t.a % 9, 2)); f.set_coeff(t.k % 4, intrat_t(t.b % 7, t.k % 3 + 1)); q_poly_t g(intrat_t(1)); g.set_coeff(2, intrat_t(t.a % 5 + 1)); return img(q_poly_t(f * g)) + img(q_poly_t(f % g)) + img(q_poly_t(f * f + g));)
      IOP("C07", "qgcd", q_poly_t f(intrat_t(t.a % 4)); f.set_coeff(t.k % 4, intrat_t(1)); q_poly_t g(intrat_t(t.b % 4)); g.set_coeff(t.k % 3, intrat_t(1)); return img(q_poly_t((f * g).gcd(f)));)
      IOP("C29", "cyclo", return img(q_cyclotomic::get_cyclo_qpoly(t.m % 40 + 1));)
      IOP("C29", "cyclo_f2", return img(q_cyclotomic::get_cyclo_f2_poly(t.m % 60 + 1));)
      IOP("C29", "cyclo_fp", static const int ps[] = {2, 3, 5, 7, 11, 13, 17, 101}; return img(q_cyclotomic::get_cyclo_fp_poly(t.m % 40 + 1, ps[t.k % 8]));)
      IOP("C29", "cyclo_f2n", static const std::vector<i64> ms[] = {{1, 1, 1}, {1, 1, 0, 1}, {1, 0, 1, 1}, {1, 1, 0, 0, 1}, {1, 0, 0, 1, 1}}; return img(q_cyclotomic::get_cyclo_f2n_poly(t.m % 30 + 1, mk_f2(ms[t.k % 5])));)
      IOP("C29", "cyclo_fpn", static const std::vector<i64> ms[] = {{1, 0, 1}, {2, 1, 1}, {2, 2, 1}}; return img(q_cyclotomic::get_cyclo_fpn_poly(t.m % 30 + 1, mk_fp(ms[t.k % 3], 3)));)
      IOP("C29", "reduce", static const int ps[] = {3, 5, 7, 11, 13, 17, 19, 101}; return img(q_cyclotomic::intmod_from_rat(intrat_t(t.a % 500, t.b % 40 + 1), ps[t.k % 8]));)
  };
  std::vector<int> mine, rest;
  for (int i = 0; i < (int)ops.size(); i++) (want == ops[i].first.first ? mine : rest).push_back(i);
  if (mine.empty()) return;
  for (int n = (int)r.range(2, 3), w = 0; w <= n; w++) {
    auto op = ops[w < n ? r.pick(mine) : r.pick(rest)];
    static const std::vector<int> ms = {2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 21, 31, 101, 255, 256, 257, 1009};
    ITup t{r.coin() ? r.pick(ms) : (int)r.range(2, 1500), (int)r.below(5000), (int)r.below(5000), (int)r.below(64)};
    std::vector<ITup> ts = {t};
    auto mod = [&](int m) { if (m >= 2) { ITup u = t; u.m = m; ts.push_back(u); } };
    mod(r.pick(ms));
    switch (r.below(5)) { case 0: mod(t.m + 256 * (int)r.range(1, 4)); break; case 1: mod(t.m + 65536); break; case 2: mod(t.m + 1); break; case 3: mod(2 * t.m); break; default: mod(t.m * t.m % 4001 + 2); }
    if (r.chance(1, 4)) mod((int)AFp::pick_prime(r));
    { ITup u = t; switch (r.below(4)) { case 0: u.a += t.m; break; case 1: std::swap(u.a, u.b); break; case 2: u.a ^= 1; break; default: u.a += 256; } ts.push_back(u); }
    { ITup u = ts[r.below(ts.size())]; u.k ^= 1 << r.below(6); ts.push_back(u); }
    { ITup u = t; u.b ^= 1 << r.below(12); ts.push_back(u); }
    for (auto &u : ts) {
      std::string lab = std::string("int.") + op.first.second + " m " + std::to_string(u.m) + " a " + std::to_string(u.a) + " b " + std::to_string(u.b) + " k " + std::to_string(u.k);
      out.push_back({op.first.first, lab, [op, u]() { return op.second(u); }});
    }
  }
}
// ---------------------------------------------------------------- matrices
template <class A> static void mat_world(Rng &r, std::vector<Inst> &out, const std::string &want) {
  typedef typename A::S S; typedef tmatrix<S> M;
  auto cx = std::make_shared<Ctxs>(contexts<A>(r));
  typedef std::string (*F)(A &, M &, M &, int);
  static const std::vector<std::pair<std::pair<const char *, const char *>, F>> ops = {
#define MOP(prop, name, ...) {{prop, name}, [](A &a, M &x, M &y, int k) -> std::string { S zero = a.sto(a.R.F.zero); S one = a.sto(a.R.F.one); __VA_ARGS__ }},
      MOP("C15", "rank", return std::to_string(x.get_rank());)
      MOP("C15", "rref", x.row_echelon_form(); return img(x);)
      MOP("C15", "det", return img(x.det());)
      MOP("C15", "inverse", M z; return x.inverse(z) ? img(z) : "none";)
      MOP("C15", "kernel", M z; return x.get_kernel_basis(z, zero, one) ? img(z) : "none";)
      MOP("C15", "mul", return img(M(x * y)) + img(M(x + y));)
      MOP("C15", "exp", M z; return x.exp(k % 5, z) ? img(z) : "none";)
      MOP("C15", "solve", tvector<S> v; tvector<S> b(x.get_num_rows()); for (int i = 0; i < b.get_num_elements(); i++) b[i] = y[i][0]; return x.solve_unique(v, b, zero, one) ? img(v) : "none";)
      MOP("C17", "char_poly", if constexpr (std::is_same_v<A, AFp>) return img(linalg::fp_char_poly(x)); else if constexpr (std::is_same_v<A, AF2>) return img(linalg::f2_char_poly(x)); else if constexpr (std::is_same_v<A, AF2n>) return img(linalg::f2_polymod_characteristic_polynomial(x)); else return img(x.det());)
  };
  std::vector<int> mine, rest;
  for (int i = 0; i < (int)ops.size(); i++) (want == ops[i].first.first ? mine : rest).push_back(i);
  if (mine.empty()) return;
  for (int w = 0; w <= 2; w++) {
    auto op = ops[w < 2 ? r.pick(mine) : rest.empty() ? 0 : r.pick(rest)];
    struct MT { int ctx, n; Code x, y; int k; };
    MT t{(int)r.below(cx->size()), (int)r.range(1, 4), {}, {}, (int)r.below(64)};
    for (int i = 0; i < t.n * t.n; i++) { t.x.push_back((int)r.below(r.coin() ? 3 : 200)); t.y.push_back((int)r.below(3)); }
    std::vector<MT> ts = {t};
    if (cx->size() > 1) for (int i = 0; i < 2; i++) { MT u = t; u.ctx = (t.ctx + 1 + i) % (int)cx->size(); ts.push_back(u); }
    { MT u = t; u.x[r.below(u.x.size())] += 1; ts.push_back(u); }
    { MT u = t; std::reverse(u.x.begin(), u.x.end()); ts.push_back(u); }
    { MT u = t; u.y[0] += 1; u.k ^= 1; ts.push_back(u); }
    { MT u = t; for (int i = 0; i < u.n; i++) std::swap(u.x[i], u.x[(u.n - 1) * u.n + i]); ts.push_back(u); }
    for (auto &u : ts) {
      std::string lab = std::string("matrix.") + A::nm() + "." + op.first.second + " field " + std::to_string((*cx)[u.ctx].p) + "^" + cs(Code((*cx)[u.ctx].m.begin(), (*cx)[u.ctx].m.end())) + " x " + cs(u.x) + " y " + cs(u.y) + " k " + std::to_string(u.k);
      out.push_back({op.first.first, lab, [cx, op, u]() {
        A a((*cx)[u.ctx]);
        M x(u.n, u.n), y(u.n, u.n);
        for (int i = 0; i < u.n * u.n; i++) { x[i / u.n][i % u.n] = a.sto(a.R.F.index((u64)u.x[i] % a.R.F.q())); y[i / u.n][i % u.n] = a.sto(a.R.F.index((u64)u.y[i] % a.R.F.q())); }
        return op.second(a, x, y, u.k);
      }});
    }
  }
}
// ---------------------------------------------------------------- rational functions
template <class A, class Q> static void rat_world(Rng &r, std::vector<Inst> &out, const std::string &want) {
  if (want != "C09") return;
  auto cx = std::make_shared<Ctxs>(contexts<A>(r));
  for (int w = 0; w < 3; w++) {
    int op = (int)r.below(5);
    struct QT { int ctx; Code a, b, c, d; };
    auto sh = [&] { Code x = gen_code<A>(r); if (x.size() > 5) { x.resize(5); x.back() = 1; } return x; };
    QT t{(int)r.below(cx->size()), sh(), sh(), sh(), sh()};
    std::vector<QT> ts = {t};
    if (cx->size() > 1) for (int i = 0; i < 2; i++) { QT u = t; u.ctx = (t.ctx + 1 + i) % (int)cx->size(); ts.push_back(u); }
    { QT u = t; u.a = near(r, u.a); ts.push_back(u); }
    { QT u = t; u.b = near(r, u.b); ts.push_back(u); }
    { QT u = t; std::swap(u.a, u.c); std::swap(u.b, u.d); ts.push_back(u); }
    for (auto &u : ts)
      out.push_back({"C09", std::string("rat.") + A::nm() + "." + std::to_string(op) + " field " + std::to_string((*cx)[u.ctx].p) + "^" + cs(Code((*cx)[u.ctx].m.begin(), (*cx)[u.ctx].m.end())) + " " + cs(u.a) + "/" + cs(u.b) + " " + cs(u.c) + "/" + cs(u.d), [cx, op, u]() {
        A a((*cx)[u.ctx]);
        auto P = [&](const Code &c) { Poly p; for (int x : c) p.push_back(a.R.F.index((u64)x % a.R.F.q())); a.R.trim(p); return a.to(p); };
        Q x(P(u.a), P(u.b)), y(P(u.c), P(u.d));
        switch (op) { case 0: return img(Q(x + y)); case 1: return img(Q(x * y)); case 2: return img(Q(x / y)); case 3: return std::string(x == y ? "=" : "/"); default: return img(Q(x - y)); }
      }});
  }
}
// ---------------------------------------------------------------- the monitor
static std::string guarded(const Inst &i) {
  try { return i.fn(); } catch (const spffl::exception_t &) { return "refused"; }
}
// 1 answered, 0 died, -1 gave no answer within its time: an answer that is late is not judged here
static int in_child(std::string &res, const std::function<std::string()> &f) {
  int fd[2];
  if (pipe(fd) != 0) return -1;
  pid_t p = fork();
  if (p == 0) {
    close(fd[0]);
    signal(SIGXCPU, SIG_DFL);
    rlimit l{25, 30};
    setrlimit(RLIMIT_CPU, &l);
    std::string s = f() + "\n.";
    for (size_t k = 0; k < s.size();) { ssize_t w = write(fd[1], s.data() + k, s.size() - k); if (w <= 0) break; k += (size_t)w; }
    _exit(0);
  }
  close(fd[1]);
  res.clear();
  char b[4096];
  for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) res.append(b, (size_t)n);
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  if (p <= 0) return -1;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return -1;
  bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && res.size() >= 2 && res.compare(res.size() - 2, 2, "\n.") == 0;
  if (ok) res.resize(res.size() - 2);
  return ok;
}
static void pure_case(Ctx &c, const char *want) {
  std::vector<Inst> v;
  Rng &r = c.rng;
  for (int t = 0; t < 4000 && v.empty(); t++) {
    switch (r.below(12)) {
    case 0: case 1: case 2: int_world(r, v, want); break;
    case 3: world<AF2>(r, v, want); break;
    case 4: world<AFp>(r, v, want); break;
    case 5: world<AF2n>(r, v, want); break;
    case 6: world<AFpn>(r, v, want); break;
    case 7: if (r.coin()) mat_world<AFp>(r, v, want); else mat_world<AF2>(r, v, want); break;
    case 8: if (r.coin()) mat_world<AF2n>(r, v, want); else mat_world<AFpn>(r, v, want); break;
    case 9: rat_world<AF2, f2_polyrat_t>(r, v, want); break;
    case 10: rat_world<AFp, fp_polyrat_t>(r, v, want); break;
    default: rat_world<AF2n, f2n_polyrat_t>(r, v, want);
    }
  }
  if (v.empty()) { c.fail("no_family", want); return; }
  // the history: neighbours (the confusable ones) follow each other often
  std::vector<int> h;
  for (int i = (int)r.below(v.size()), n = 0; n < 30; n++) {
    h.push_back(i);
    int k = (int)r.below(8), s = (int)v.size();
    if (k < 3) i = (i + 1) % s; else if (k < 5) i = (i + s - 1) % s; else if (k < 6) i = (i + 2) % s; else if (k < 7) i = (int)r.below(s);
  }
  std::string key;
  for (auto &i : v) key += i.label;
  c.input(key, true);
  if (c.want_sample()) c.sample(v[0].label);
  std::string res;
  int ok = in_child(res, [&] { std::string s; for (int i : h) s += guarded(v[i]) + "\n"; return s; });
  if (ok < 0) { c.event("history_out_of_time", 0); return; }
  CHECK(ok, "history_finishes", v[h[0]].label << " and " << h.size() - 1 << " more");
  if (!ok) return;
  std::vector<std::string> got;
  { std::istringstream is(res); std::string l; while (std::getline(is, l)) got.push_back(l); }
  if (got.size() != h.size()) { c.fail("history_length", std::to_string(got.size())); return; }
  std::map<int, std::string> alone;
  for (size_t n = 0; n < h.size(); n++) {
    const Inst &i = v[h[n]];
    if (strcmp(i.prop, want)) continue;
    if (!alone.count(h[n])) {
      std::string s;
      int fin = in_child(s, [&] { return guarded(i); });
      if (fin < 0) { c.event("alone_out_of_time", 0); alone[h[n]] = got[n]; continue; }
      CHECK(fin, "alone_finishes", i.label);
      alone[h[n]] = fin ? s : "died";
    }
    CHECK(got[n] == alone[h[n]], "same_answer", i.label << " gave " << got[n] << " after " << (n ? v[h[n - 1]].label : "nothing") << " and " << alone[h[n]] << " on its own");
  }
}
#define S(p) SECTION(pure_##p) { pure_case(c, #p); }
S(C01) S(C02) S(C03) S(C04) S(C05) S(C06) S(C07) S(C08) S(C09) S(C10) S(C11) S(C12) S(C13) S(C14) S(C15) S(C17) S(C19) S(C28) S(C29) S(C30) S(C32)
