// Characteristic and minimal polynomials, companion matrices, field conversions, diagonalizability.
#include "adapt.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/min_char_polys.h"
#include "spffl/units/f2_polymod_units.h"
using namespace spffl::linalg;

typedef std::vector<std::vector<E>> Mat;
// ---- reference linear algebra over a field
static Mat mmul(const Fld &F, const Mat &a, const Mat &b) {
  Mat o(a.size(), std::vector<E>(b[0].size(), F.zero));
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t t = 0; t < b.size(); t++) o[i][j] = F.add(o[i][j], F.mul(a[i][t], b[t][j]));
  return o;
}
// characteristic polynomial through a similar Hessenberg matrix
static Poly refcharpoly(const PR &R, Mat h) {
  const Fld &F = R.F;
  int n = (int)h.size();
  for (int m = 1; m < n - 1; m++) {
    int i = m;
    while (i < n && h[i][m - 1] == F.zero) i++;
    if (i == n) continue;
    if (i != m) { std::swap(h[i], h[m]); for (int k = 0; k < n; k++) std::swap(h[k][i], h[k][m]); }
    E iv = F.inv(h[m][m - 1]);
    for (i = m + 1; i < n; i++) if (h[i][m - 1] != F.zero) {
      E u = F.mul(h[i][m - 1], iv);
      for (int k = 0; k < n; k++) h[i][k] = F.sub(h[i][k], F.mul(u, h[m][k]));
      for (int k = 0; k < n; k++) h[k][m] = F.add(h[k][m], F.mul(u, h[k][i]));
    }
  }
  std::vector<Poly> p(n + 1);
  p[0] = R.one();
  for (int m = 1; m <= n; m++) {
    p[m] = R.mul(R.sub(R.X(), R.cst(h[m - 1][m - 1])), p[m - 1]);
    E t = F.one;
    for (int i = 1; i < m; i++) { t = F.mul(t, h[m - i][m - i - 1]); p[m] = R.sub(p[m], R.scale(p[m - i - 1], F.mul(t, h[m - i - 1][m - 1]))); }
  }
  return p[n];
}
static Mat polyat(const PR &R, const Poly &f, const Mat &a) {
  int n = (int)a.size();
  Mat o(n, std::vector<E>(n, R.F.zero));
  for (int i = (int)f.size() - 1; i >= 0; i--) { o = mmul(R.F, o, a); for (int k = 0; k < n; k++) o[k][k] = R.F.add(o[k][k], f[i]); }
  return o;
}
static bool mzero(const Fld &F, const Mat &a) { for (auto &r : a) for (auto &x : r) if (x != F.zero) return false; return true; }
static std::string show(const Fld &F, const Mat &a) {
  std::string s = "[";
  for (auto &r : a) { for (auto &x : r) s += std::to_string(F.toindex(x)) + " "; s += ";"; }
  return s + "] over p=" + std::to_string(F.p) + " deg " + std::to_string(F.n);
}
static Mat companion(const Fld &F, const Poly &f) {
  int n = PR::deg(f);
  Mat a(n, std::vector<E>(n, F.zero));
  for (int i = 1; i < n; i++) a[i][i - 1] = F.one;
  for (int i = 0; i < n; i++) a[i][n - 1] = F.neg(f[i]);
  return a;
}
// shapes with interesting canonical forms
static Mat genmat(const PR &R, Rng &r, int n) {
  const Fld &F = R.F;
  Mat a(n, std::vector<E>(n, F.zero));
  int kind = (int)r.below(14);
  if (kind == 0) return a;
  if (kind == 1) { E k = F.random(r); for (int i = 0; i < n; i++) a[i][i] = k; return a; }
  if (kind == 2) { for (int i = 0; i < n; i++) a[i][i] = F.random(r); return a; }
  if (kind == 3) { E k = F.random(r); for (int i = 0; i < n; i++) { a[i][i] = k; if (i) a[i - 1][i] = r.chance(2, 3) ? F.one : F.zero; } return a; } // Jordan
  if (kind == 4) return companion(F, R.random_monic(r, n));
  if (kind == 5) { for (int i = 0; i < n; i++) for (int j = i; j < n; j++) a[i][j] = F.random(r); return a; }
  if (kind == 6) { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[i][j] = F.random(r); return a; } // nilpotent
  if (kind == 7 && n > 1) { // block diagonal of companions, perhaps repeated
    int d = (int)r.range(1, n - 1);
    Mat b = companion(F, R.random_monic(r, d)), e = d * 2 == n && r.coin() ? b : companion(F, R.random_monic(r, n - d));
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) a[i][j] = b[i][j];
    for (int i = d; i < n; i++) for (int j = d; j < n; j++) a[i][j] = e[i - d][j - d];
    return a;
  }
  if (kind == 8) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]); for (int i = 0; i < n; i++) a[i][p[i]] = F.one; return a; }
  for (auto &row : a) for (auto &x : row) x = kind == 9 && r.coin() ? F.zero : F.random(r);
  if (kind == 10 && n > 1) a[0] = a[n - 1];
  return a;
}
static Mat similar(const PR &R, Rng &r, Mat a) { // conjugate by elementary matrices
  int n = (int)a.size();
  for (int k = 0; k < 2 * n && n > 1; k++) {
    int i = (int)r.below(n), j = (int)r.below(n);
    if (i == j) continue;
    E f = R.F.random(r);
    for (int t = 0; t < n; t++) a[i][t] = R.F.add(a[i][t], R.F.mul(f, a[j][t]));
    for (int t = 0; t < n; t++) a[t][j] = R.F.sub(a[t][j], R.F.mul(f, a[t][i]));
  }
  return a;
}
template <class L, class C> static tmatrix<L> tolib(const Mat &a, C cv) {
  tmatrix<L> m((int)a.size(), (int)a[0].size());
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) m[(int)i][(int)j] = cv(a[i][j]);
  return m;
}
template <class L, class C> static Mat fromlib(const tmatrix<L> &m, C cv) {
  Mat a(m.get_num_rows());
  for (int i = 0; i < m.get_num_rows(); i++) for (int j = 0; j < m.get_num_cols(); j++) a[i].push_back(cv(m[i][j]));
  return a;
}
// ---------------------------------------------------------------- matrices
template <class A, class F1, class F2> static void chp_case(Ctx &c, A &a, int maxn, F1 chpoly, F2 comp) {
  Rng &r = c.rng;
  const PR &R = a.R;
  typedef typename A::S S;
  auto cv = [&](const E &e) { return a.sto(e); };
  auto uc = [&](const S &s) { return a.sfrom(s); };
  int n = (int)r.range(1, maxn);
  Mat m = genmat(R, r, n);
  if (r.coin()) m = similar(R, r, m);
  c.input(hash_str(show(R.F, m)), n > 1);
  if (c.want_sample()) c.sample(show(R.F, m));
  Poly want = refcharpoly(R, m);
  tmatrix<S> lm = tolib<S>(m, cv);
  typename A::P got = chpoly(lm);
  Poly g = a.from(got);
  CHECK(g == want && a.normal(got), "char_poly", show(R.F, m) << " gave " << R.show(g) << " want " << R.show(want));
  CHECK(mzero(R.F, polyat(R, g, m)) && PR::deg(g) == n, "cayley_hamilton", show(R.F, m));
  CHECK(fromlib(lm, uc) == m, "operand_kept", show(R.F, m));
  { tmatrix<S> q = tolib<S>(Mat(n, std::vector<E>(n + 1, R.F.one)), cv); REFUSED(chpoly(q), "char_poly_shape", n); }
  Poly f = R.random_monic(r, (int)r.range(1, maxn));
  if (r.chance(1, 4)) f = R.mono(R.F.one, PR::deg(f));
  tmatrix<S> lc = comp(a.to(f));
  Mat cm = fromlib(lc, uc);
  CHECK((int)cm.size() == PR::deg(f) && (int)cm[0].size() == PR::deg(f), "companion_shape", R.show(f));
  Poly back = refcharpoly(R, cm);
  CHECK(back == f, "companion", R.show(f) << " has companion " << show(R.F, cm) << " with characteristic polynomial " << R.show(back));
  CHECK(a.from(chpoly(lc)) == f, "companion_roundtrip", R.show(f));
}
SECTION(chp_f2) {
  AF2 a(c.rng);
  chp_case(c, a, c.rng.chance(1, 8) ? 12 : 7, [](tmatrix<bit_t> &m) { return f2_char_poly(m); }, [](f2_poly_t f) { return f2_companion_matrix(f); });
}
SECTION(chp_fp) {
  AFp a(c.rng);
  chp_case(c, a, c.rng.chance(1, 8) ? 9 : 5, [](tmatrix<intmod_t> &m) { return fp_char_poly(m); }, [](fp_poly_t f) { return fp_companion_matrix(f); });
}
SECTION(chp_f2n) {
  AF2n a(c.rng);
  chp_case(c, a, 4, [](tmatrix<f2_polymod_t> &m) { return f2_polymod_characteristic_polynomial(m); }, [](f2n_poly_t f) { return f2np_companion_matrix(f); });
}
// ---------------------------------------------------------------- elements
// the conjugates of x in the field K[y]/(m), and the product of (T - conjugate) over the first cnt of them
static std::vector<Poly> conjugates(const PR &R, const Poly &x, const Poly &m) {
  std::vector<Poly> v(1, x);
  for (;;) { Poly y = R.powmod(v.back(), R.F.q(), m); if (y == x) return v; v.push_back(y); }
}
static Poly prodconj(const PR &R, const std::vector<Poly> &cj, int times, const Poly &m, bool &ok) {
  std::vector<Poly> p(1, R.one());
  for (int t = 0; t < times; t++) {
    for (auto &x : cj) {
      std::vector<Poly> q(p.size() + 1);
      for (size_t i = 0; i < p.size(); i++) { q[i + 1] = R.add(q[i + 1], p[i]); q[i] = R.sub(q[i], R.mulmod(x, p[i], m)); }
      p = q;
    }
  }
  Poly o;
  ok = true;
  for (auto &k : p) { Poly z = R.mod(k, m); if (PR::deg(z) > 0) ok = false; o.push_back(z.empty() ? R.F.zero : z[0]); }
  R.trim(o);
  return o;
}
template <class A, class F1, class F2> static void elt_case(Ctx &c, A &a, int maxd, F1 minp, F2 chp) {
  Rng &r = c.rng;
  const PR &R = a.R;
  int n = (int)r.range(1, maxd);
  Poly m = R.random_irreducible(r, n);
  if (r.chance(1, 4)) m = R.scale(m, R.F.random_nz(r));
  Poly x = R.random(r, n - 1);
  int k = (int)r.below(8);
  if (k == 0) x = Poly();
  if (k == 1) x = R.cst(R.F.random(r));
  if (k == 2) { // an element of a proper subfield
    int d = (int)r.range(1, n);
    if (n % d == 0) { Poly y = x, s = Poly(); for (int i = 0; i < n / d; i++) { s = R.add(s, y); for (int j = 0; j < d; j++) y = R.powmod(y, R.F.q(), m); } x = s; }
  }
  x = R.mod(x, m);
  typename A::PM lx(a.to(x), a.to(m));
  c.input(R.hash(x) * 31 + R.hash(m), PR::deg(x) > 0);
  if (c.want_sample()) c.sample(R.show(x) + " mod " + R.show(m));
  auto cj = conjugates(R, x, m);
  bool ok1, ok2;
  Poly mp = prodconj(R, cj, 1, m, ok1), cp = prodconj(R, cj, n / (int)cj.size(), m, ok2);
  CHECK(ok1 && ok2, "oracle_agrees", "");
  typename A::P lmp = minp(lx), lcp = chp(lx);
  Poly g = a.from(lmp);
  CHECK(g == mp && a.normal(lmp), "min_poly", R.show(x) << " mod " << R.show(m) << " gave " << R.show(g) << " want " << R.show(mp));
  g = a.from(lcp);
  CHECK(g == cp && a.normal(lcp), "elt_char_poly", R.show(x) << " mod " << R.show(m) << " gave " << R.show(g) << " want " << R.show(cp));
  CHECK(a.from(lx.get_residue()) == x, "operand_kept", "");
}
SECTION(elt_f2) {
  AF2 a(c.rng);
  elt_case(c, a, c.rng.chance(1, 10) ? 24 : 10, [](f2_polymod_t x) { return f2_polymod_minimal_polynomial(x); }, [](f2_polymod_t x) { return f2_polymod_characteristic_polynomial(x); });
  // the same polynomials with coefficients written in the extension
  Rng &r = c.rng;
  PR R{Fld(2)};
  int n = (int)r.range(1, 10);
  Poly m = R.random_irreducible(r, n), x = R.random(r, n - 1);
  f2_poly_t lm = a.to(m);
  f2_polymod_t lx(a.to(x), lm);
  auto cj = conjugates(R, x, m);
  bool ok;
  for (int w = 0; w < 2; w++) {
    Poly want = prodconj(R, cj, w ? n / (int)cj.size() : 1, m, ok);
    f2n_poly_t g = w ? f2_polymod_char_poly(lx) : f2_polymod_min_poly(lx);
    bool same = g.find_degree() == PR::deg(want);
    for (int i = 0; same && i <= PR::deg(want); i++) same = g.get_coeff(i) == f2_polymod_t(f2_poly_t((int)want[i][0]), lm);
    CHECK(same, w ? "char_poly_ext" : "min_poly_ext", str(lx) << " mod " << str(lm) << " gave " << str(g));
  }
}
SECTION(elt_fp) {
  AFp a(c.rng);
  elt_case(c, a, a.R.F.p < 20 ? 6 : 3, [](fp_polymod_t x) { return fp_polymod_minimal_polynomial(x); }, [](fp_polymod_t x) { return fp_polymod_characteristic_polynomial(x); });
}
SECTION(elt_f2n) {
  AF2n a(c.rng);
  elt_case(c, a, a.R.F.n > 6 ? 2 : 4, [](f2n_polymod_t x) { return f2npm_min_poly(x); }, [](f2n_polymod_t x) { return f2npm_char_poly(x); });
}
// ---------------------------------------------------------------- conversion between representations
static E felem(const f2_poly_t &l, int n) { E e(n, 0); int d = l.find_degree(); for (int i = 0; i <= d && i < n; i++) e[i] = l.bit_at(i); return e; }
static Fld fld2(const Poly &m) { std::vector<i64> v; for (auto &e : m) v.push_back(e[0]); return Fld(2, v); }
SECTION(convert) {
  Rng &r = c.rng;
  PR B{Fld(2)};
  AF2 a(r);
  int n1 = (int)r.range(1, 7), n2 = r.coin() ? n1 : r.chance(1, 5) ? (int)r.range(1, 10) : n1 * (int)r.range(1, n1 > 4 ? 1 : n1 > 3 ? 2 : 3);
  Poly m1 = B.random_irreducible(r, n1), m2 = B.random_irreducible(r, n2);
  Fld F1 = fld2(m1), F2 = fld2(m2);
  f2_poly_t l1 = a.to(m1), l2 = a.to(m2);
  u64 N = (1ULL << n1) - 1;
  f2_polymod_t g1;
  bool found = spffl::units::f2_polymod_find_generator(l1, g1);
  CHECK(found, "generator", str(l1));
  if (!found) return;
  // another generator of the same group, drawn at random
  if (r.coin() && N > 1) { u64 e; do e = 1 + r.below(N); while (ref::gcd((i64)e, (i64)N) != 1); E g = F1.pow(felem(g1.get_residue(), n1), e); g1 = f2_polymod_t(mk_f2(g), l1); }
  c.input(hash_str(str(l1) + " " + str(l2) + " " + str(g1)), n1 > 1);
  if (c.want_sample()) c.sample(str(l1) + " -> " + str(l2) + " with " + str(g1));
  f2_polymod_t g2;
  bool can = n2 % n1 == 0;
  bool ok = f2_polymod_convert_prep(g1, l2, g2);
  CHECK(ok == can, "convert_exists", str(l1) << " -> " << str(l2) << " said " << ok);
  if (!ok || !can) return;
  CHECK(g2.get_modulus() == l2, "convert_modulus", str(g2));
  auto conv = [&](const E &e) { f2_polymod_t z = f2_polymod_convert_scalar(g1, g2, f2_polymod_t(mk_f2(e), l1)); return felem(z.get_residue(), n2); };
  auto rootof = [&](const E &x, const Poly &f) { E s = F2.zero; for (int i = (int)f.size() - 1; i >= 0; i--) s = F2.add(F2.mul(s, x), f[i][0] ? F2.one : F2.zero); return s == F2.zero; };
  // the image of the class of x fixes the whole map
  std::vector<E> im;
  for (int i = 0; i < n1; i++) { E e(n1, 0); e[i] = 1; im.push_back(conv(e)); }
  E t = n1 > 1 ? im[1] : conv(F1.zero); // the class of x mod a linear modulus is its root 0 or 1
  if (n1 == 1) t = conv(E(1, m1[0][0]));
  CHECK(im[0] == F2.one && conv(F1.zero) == F2.zero, "convert_constants", str(l1) << " -> " << str(l2));
  CHECK(rootof(t, m1), "convert_embedding", str(l1) << " -> " << str(l2) << ": the image of x is no root of the first modulus");
  std::vector<u64> seen;
  u64 lim = n1 <= 6 ? N + 1 : 40;
  for (u64 k = 0; k < lim; k++) {
    E e = n1 <= 6 ? F1.index(k) : F1.random(r), w = F2.zero, pw = F2.one;
    for (int i = 0; i < n1; i++) { if (e[i]) w = F2.add(w, pw); pw = F2.mul(pw, t); }
    E g = conv(e);
    CHECK(g == w, "convert_homomorphism", str(l1) << " -> " << str(l2) << " element " << F1.toindex(e) << " gave " << F2.toindex(g) << " want " << F2.toindex(w));
    if (n1 <= 6) seen.push_back(F2.toindex(g));
  }
  std::sort(seen.begin(), seen.end());
  CHECK(std::adjacent_find(seen.begin(), seen.end()) == seen.end(), "convert_injective", str(l1) << " -> " << str(l2));
  { E e = F1.random(r); f2_polymod_t le(mk_f2(e), l1), lg = f2_polymod_convert_scalar(g1, g2, le);
    f2_poly_t mp1 = f2_polymod_minimal_polynomial(le), mp2 = f2_polymod_minimal_polynomial(lg);
    CHECK(mp1 == mp2 && lg.get_modulus() == l2, "convert_min_poly", str(le) << " : " << str(mp1) << " vs " << str(mp2)); }
  { AF2n A1(F1), A2(F2); Poly f = A1.R.random(r, 4); f2n_poly_t lf = A1.to(f), lg = f2_polymod_convert_poly(g1, g2, lf);
    Poly w; for (auto &e : f) w.push_back(conv(e));
    CHECK(A2.from(lg) == w && A2.normal(lg) && A1.from(lf) == f, "convert_poly", str(lf) << " gave " << str(lg));
    Mat m = genmat(A1.R, r, (int)r.range(1, 3)), wm = m; if (r.coin()) m.pop_back(), wm = m; if (!m.size()) return;
    for (auto &row : wm) for (auto &x : row) x = conv(x);
    auto lm = tolib<f2_polymod_t>(m, [&](const E &e) { return A1.sto(e); });
    auto lc = f2_polymod_convert_matrix(g1, g2, lm);
    CHECK(fromlib(lc, [&](const f2_polymod_t &s) { return A2.sfrom(s); }) == wm, "convert_matrix", str(lm) << " gave " << str(lc)); }
}
// ---------------------------------------------------------------- diagonalizability
struct Mute { // the function under test reports its progress on cout
  std::ostringstream s; std::streambuf *o;
  Mute() : o(std::cout.rdbuf(s.rdbuf())) {}
  ~Mute() { std::cout.rdbuf(o); }
};
SECTION(diag) {
  Rng &r = c.rng;
  PR B{Fld(2)};
  AF2 b2(r);
  int n1 = (int)r.range(1, 3), n = (int)r.range(1, n1 == 3 ? 3 : r.chance(1, 4) ? (n1 == 1 ? 7 : 5) : n1 == 1 ? 5 : 3);
  Poly m1 = B.random_irreducible(r, n1);
  Fld F = fld2(m1);
  AF2n A(F);
  const PR &R = A.R;
  Mat m = genmat(R, r, n);
  if (r.coin()) m = similar(R, r, m);
  c.input(hash_str(show(F, m) + B.show(m1)), n > 1);
  if (c.want_sample()) c.sample(show(F, m));
  auto lm = tolib<f2_polymod_t>(m, [&](const E &e) { return A.sto(e); });
  f2_poly_t ext;
  tvector<f2_polymod_t> ev;
  bool got;
  { Mute mu; got = f2_polymod_matrix_is_diagonalizable(lm, ext, ev); }
  // oracle: diagonalizable over a splitting field iff the radical of the characteristic polynomial kills the matrix
  Poly ch = refcharpoly(R, m);
  auto frobdiff = [&](int L) { Poly x = R.mod(R.X(), ch), y = x; for (int i = 0; i < L; i++) y = R.powmod(y, F.q(), ch); Poly d = R.sub(y, x); return d.empty() ? ch : R.gcd(ch, d); };
  // x^(q^L) - x is squarefree, so its gcd with ch is the product of the distinct factors of degree dividing L
  auto sqf = [&](int L) { // as a polynomial, not only mod ch: take the part of ch dividing x^(q^L)-x exactly once
    return frobdiff(L); };
  Poly rad = sqf(420); // every degree up to 7
  bool want = mzero(F, polyat(R, rad, m));
  CHECK(got == want, "diagonalizable", show(F, m) << " mod " << B.show(m1) << " said " << got << " radical " << R.show(rad) << " charpoly " << R.show(ch));
  int l = 1; // least common multiple of the degrees of the distinct irreducible factors
  while (sqf(l) != rad) l++;
  int nx = ext.find_degree();
  CHECK(nx == n1 * l, "splitting_degree", show(F, m) << " extension modulus " << str(ext));
  Poly mx = b2.from(ext);
  bool irr = nx == n1 * l && B.irreducible(mx);
  CHECK(irr, "splitting_field", str(ext));
  if (!irr) return;
  CHECK(ev.get_num_elements() == PR::deg(rad), "eigenvalue_count", show(F, m) << " gave " << str(ev));
  if (ev.get_num_elements() != PR::deg(rad)) return;
  Fld X = fld2(mx);
  std::vector<E> es;
  bool okm = true;
  for (int i = 0; i < ev.get_num_elements(); i++) { if (ev[i].get_modulus() != ext) okm = false; es.push_back(felem(ev[i].get_residue(), nx)); }
  CHECK(okm, "eigenvalue_field", str(ev));
  std::vector<u64> ix; for (auto &e : es) ix.push_back(X.toindex(e));
  std::sort(ix.begin(), ix.end());
  CHECK(std::adjacent_find(ix.begin(), ix.end()) == ix.end(), "eigenvalues_distinct", str(ev));
  // some embedding of the base field makes every reported value a root of the characteristic polynomial
  u64 big = (1ULL << nx) - 1, small = (1ULL << n1) - 1;
  std::vector<E> roots;
  for (int tries = 0; tries < 400 && (int)roots.size() < n1; tries++) {
    E s = r.chance(1, 8) ? X.zero : X.pow(X.random_nz(r), big / small), v = X.zero;
    if (l == 1 && nx == n1) { s = X.zero; if (n1 > 1) s[1] = 1; else s[0] = m1[0][0]; for (int i = 0; i < tries; i++) s = X.mul(s, s); }
    for (int i = (int)m1.size() - 1; i >= 0; i--) v = X.add(X.mul(v, s), m1[i][0] ? X.one : X.zero);
    if (v == X.zero && std::find(roots.begin(), roots.end(), s) == roots.end()) roots.push_back(s);
  }
  CHECK((int)roots.size() == n1, "oracle_agrees", "roots of " << B.show(m1));
  bool any = false;
  for (auto &t : roots) {
    bool all = true;
    for (auto &e : es) {
      E s = X.zero;
      for (int i = (int)ch.size() - 1; i >= 0; i--) { E k = X.zero, pw = X.one; for (int j = 0; j < n1; j++) { if (ch[i][j]) k = X.add(k, pw); pw = X.mul(pw, t); } s = X.add(X.mul(s, e), k); }
      if (s != X.zero) { all = false; break; }
    }
    if (all) any = true;
    if (l == 1) break; // the base field itself: only the identity will do
  }
  CHECK(any, "eigenvalues_are_roots", show(F, m) << " charpoly " << R.show(ch) << " gave " << str(ev) << " mod " << str(ext));
  CHECK(fromlib(lm, [&](const f2_polymod_t &s) { return A.sfrom(s); }) == m, "operand_kept", "");
}
