// Listings of elements, against direct enumeration.
#include "adapt.h"
#include "spffl/list/list_elements.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
using namespace spffl::list;

static u64 upow(u64 b, int e) { u64 r = 1; while (e-- > 0) r *= b; return r; }
// every polynomial of degree below len, in the library's order
static std::vector<Poly> below(const PR &R, int len) { std::vector<Poly> v; for (u64 k = 0; k < upow(R.F.q(), len); k++) { Poly f = R.index(k, len); R.trim(f); v.push_back(f); } return v; }
template <class A, class V> static void cmp_polys(Ctx &c, const A &a, const V &got, const std::vector<Poly> &want, const char *key, const std::string &what) {
  bool same = got.get_num_elements() == (int)want.size();
  std::string where;
  for (int i = 0; same && i < got.get_num_elements(); i++) if (a.from(got[i]) != want[i] || !a.normal(got[i])) { same = false; where = " entry " + std::to_string(i) + " is " + str(got[i]) + " want " + a.R.show(want[i]); }
  CHECK(same, key, what << " gave " << got.get_num_elements() << " entries, want " << want.size() << where);
}
template <class A, class V> static void cmp_res(Ctx &c, const A &a, const typename A::P &m, const V &got, const std::vector<Poly> &want, const char *key, const std::string &what) {
  bool same = got.get_num_elements() == (int)want.size();
  std::string where;
  for (int i = 0; same && i < got.get_num_elements(); i++) if (got[i].get_modulus() != m || a.from(got[i].get_residue()) != want[i]) { same = false; where = " entry " + std::to_string(i) + " is " + str(got[i]) + " want " + a.R.show(want[i]); }
  CHECK(same, key, what << " gave " << got.get_num_elements() << " entries, want " << want.size() << where);
}
template <class A, class FL, class FR> static void list_case(Ctx &c, A &a, FL plist, FR rlist) {
  Rng &r = c.rng;
  const PR &R = a.R;
  u64 q = R.F.q();
  int maxd = 0;
  while (maxd < 7 && upow(q, maxd + 2) <= 600) maxd++;
  { int d = (int)r.range(0, maxd);
    std::vector<Poly> all = below(R, d + 1), want;
    for (auto &f : all) if (!f.empty() && PR::deg(f) == d) want.push_back(f);
    c.input(d * 1000003 + q * 31 + R.F.n, d > 0);
    cmp_polys(c, a, plist(d), want, "poly_list", "polynomials of degree " + std::to_string(d) + " over q=" + std::to_string(q)); }
  int d = (int)r.range(1, maxd + 1);
  Poly m = r.chance(1, 3) ? R.random_irreducible(r, d) : r.chance(1, 4) ? R.mono(R.F.random_nz(r), d) : R.random_exact(r, d);
  typename A::P lm = a.to(m);
  c.input(R.hash(m) + q, d > 1);
  if (c.want_sample()) c.sample(R.show(m));
  std::vector<Poly> all = below(R, d), un, nu;
  for (auto &f : all) (PR::deg(R.gcd(f, m)) == 0 ? un : nu).push_back(f);
  cmp_res(c, a, lm, rlist(lm, SP_LIST_ALL), all, "all", "residues mod " + R.show(m));
  cmp_res(c, a, lm, rlist(lm, SP_LIST_UNITS), un, "units", "units mod " + R.show(m));
  cmp_res(c, a, lm, rlist(lm, SP_LIST_NON_UNITS), nu, "non_units", "non-units mod " + R.show(m));
  REFUSED(rlist(lm, SP_LIST_MULTIPLES), "bad_kind", R.show(m));
}
template <class A, class L> static void points(Ctx &c, A &a, const Poly &m, int n, const tmatrix<L> &got, bool proj) {
  const PR &R = a.R;
  std::vector<Poly> el = below(R, PR::deg(m));
  u64 q = el.size();
  std::vector<std::vector<int>> want;
  if (!proj) for (u64 k = 0; k < upow(q, n); k++) { std::vector<int> v(n); u64 t = k; for (int j = n - 1; j >= 0; j--) { v[j] = (int)(t % q); t /= q; } want.push_back(v); }
  else for (int k = 0; k <= n; k++) for (u64 i = 0; i < upow(q, k); i++) { std::vector<int> v(n + 1, 0); u64 t = i; for (int j = k - 1; j >= 0; j--) { v[j] = (int)(t % q); t /= q; } v[k] = 1; want.push_back(v); }
  bool same = got.get_num_rows() == (int)want.size() && got.get_num_cols() == (proj ? n + 1 : n);
  std::string where;
  for (int i = 0; same && i < got.get_num_rows(); i++) for (int j = 0; j < got.get_num_cols(); j++) if (a.from(got[i][j].get_residue()) != el[want[i][j]] || a.from(got[i][j].get_modulus()) != m) { same = false; where = str(got[i]); }
  CHECK(same, proj ? "projective_points" : "affine_points", R.show(m) << " n=" << n << " gave " << got.get_num_rows() << " rows, want " << want.size() << " " << where);
}
template <class A, class FA, class FP> static void points_case(Ctx &c, A &a, FA an, FP pn) {
  Rng &r = c.rng;
  const PR &R = a.R;
  int d = (int)r.range(1, 4);
  while (d > 1 && upow(R.F.q(), d) > 30) d--;
  u64 q = upow(R.F.q(), d);
  if (q > 400) return;
  Poly m = R.random_irreducible(r, d);
  int n = (int)r.range(1, 4);
  while (n > 1 && upow(q, n) > 900) n--;
  points(c, a, m, n, an(a.to(m), n), false);
  points(c, a, m, n, pn(a.to(m), n), true);
}
SECTION(list_f2) {
  AF2 a(c.rng);
  list_case(c, a, [](int d) { return f2_poly_list(d); }, [](f2_poly_t m, sp_list_type_t t) { return f2_polymod_list(m, t); });
  points_case(c, a, [](f2_poly_t m, int n) { return f2_polymod_An_list(m, n); }, [](f2_poly_t m, int n) { return f2_polymod_Pn_list(m, n); });
  Rng &r = c.rng;
  Poly m = a.R.random_exact(r, (int)r.range(1, 8)), g = a.R.mod(a.R.random(r, PR::deg(m)), m), gr = a.R.gcd(m, g);
  if (r.chance(1, 3)) { Poly f = a.R.random_exact(r, (int)r.range(1, 3)); m = a.R.mul(f, a.R.random_exact(r, (int)r.range(1, 4))); g = a.R.mod(a.R.mul(f, a.R.random(r, 4)), m); gr = a.R.gcd(m, g); }
  std::vector<Poly> mu, rp;
  for (auto &f : below(a.R, PR::deg(m))) { if (a.R.mod(f, gr).empty()) mu.push_back(f); if (PR::deg(a.R.gcd(f, gr)) == 0) rp.push_back(f); }
  f2_polymod_t lg(a.to(g), a.to(m));
  cmp_res(c, a, a.to(m), f2_polymod_glist(lg, SP_LIST_MULTIPLES), mu, "multiples", "multiples of " + a.R.show(g) + " mod " + a.R.show(m));
  cmp_res(c, a, a.to(m), f2_polymod_glist(lg, SP_LIST_REL_PRIME), rp, "coprime", "coprime to " + a.R.show(g) + " mod " + a.R.show(m));
  // vectors and matrices from their digits
  int n = (int)r.range(1, 6), w = (int)r.range(1, 5);
  u64 k = r.below(1ULL << (n * w > 30 ? 30 : n * w));
  auto v = spffl::linalg::f2_vector_from_base_rep((int)k, n);
  auto M = spffl::linalg::f2_matrix_from_base_rep((int)k, n, w);
  bool ok = v.get_num_elements() == n && M.get_num_rows() == n && M.get_num_cols() == w;
  for (int i = 0; ok && i < n; i++) { if (v[i].get_residue() != (int)((k >> (n - 1 - i)) & 1)) ok = false; for (int j = 0; j < w; j++) if (M[i][j].get_residue() != (int)((k >> (n * w - 1 - i * w - j)) & 1)) ok = false; }
  CHECK(ok, "from_digits", k << " as " << str(v) << " and " << str(M));
}
SECTION(list_fp) {
  static const std::vector<i64> ps = {2, 3, 3, 5, 7, 11, 23, 101};
  AFp a{Fld(c.rng.pick(ps))};
  int p = a.p;
  list_case(c, a, [p](int d) { return fp_poly_list(p, d); }, [](fp_poly_t m, sp_list_type_t t) { return fp_polymod_list(m, t); });
  points_case(c, a, [](fp_poly_t m, int n) { return fp_polymod_An_list(m, n); }, [](fp_poly_t m, int n) { return fp_polymod_Pn_list(m, n); });
  int n = (int)c.rng.range(1, 4);
  u64 q = upow(p, n), k = c.rng.below(q > 2000000000 ? 2000000000 : q);
  auto v = spffl::linalg::fp_vector_from_base_rep((int)k, p, n);
  bool ok = v.get_num_elements() == n;
  u64 t = k;
  for (int i = n - 1; ok && i >= 0; i--) { if (v[i] != intmod_t((int)(t % p), p)) ok = false; t /= p; }
  CHECK(ok, "from_digits", k << " base " << p << " as " << str(v));
}
SECTION(list_f2n) {
  PR b{Fld(2)};
  Poly f = b.random_irreducible(c.rng, (int)c.rng.range(1, 4));
  std::vector<i64> mm;
  for (auto &e : f) mm.push_back(e[0]);
  AF2n a{Fld(2, mm)};
  f2_poly_t im = a.m;
  list_case(c, a, [im](int d) { return f2n_poly_list(im, d); }, [](f2n_poly_t m, sp_list_type_t t) { return f2n_polymod_list(m, t); });
  int n = (int)c.rng.range(1, 4), D = a.R.F.n;
  u64 k = c.rng.below(1ULL << (n * D > 30 ? 30 : n * D)), t = k;
  auto v = spffl::linalg::ft_vector_from_base_rep((int)k, im, n);
  bool ok = v.get_num_elements() == n;
  for (int i = n - 1; ok && i >= 0; i--) { E e(D, 0); for (int j = 0; j < D; j++) e[j] = (t >> j) & 1; if (a.sfrom(v[i]) != e || v[i].get_modulus() != im) ok = false; t >>= D; }
  CHECK(ok, "from_digits", k << " as " << str(v));
}
SECTION(list_int) {
  Rng &r = c.rng;
  int m = r.chance(1, 4) ? (int)r.range(2, 12) : (int)r.range(2, 400);
  int g = (int)r.below(m);
  if (r.chance(1, 4)) { auto ds = ref::divisors(m); g = (int)(r.pick(ds) % m); }
  c.input((u64)m * 1000 + g, g > 0);
  if (c.want_sample()) c.sample(std::to_string(g) + " mod " + std::to_string(m));
  std::vector<int> want[5];
  i64 gr = ref::gcd(m, g);
  for (int x = 0; x < m; x++) {
    want[SP_LIST_ALL].push_back(x);
    want[ref::gcd(x, m) == 1 ? SP_LIST_UNITS : SP_LIST_NON_UNITS].push_back(x);
    if (x % gr == 0) want[SP_LIST_MULTIPLES].push_back(x);
    if (ref::gcd(x, gr) == 1) want[SP_LIST_REL_PRIME].push_back(x);
  }
  static const char *nm[] = {"all", "units", "non_units", "multiples", "coprime"};
  for (int k = 0; k < 5; k++) {
    tvector<intmod_t> v = k < 3 ? intmod_list(m, (sp_list_type_t)k) : intmod_glist(intmod_t(g, m), (sp_list_type_t)k);
    bool same = v.get_num_elements() == (int)want[k].size();
    for (int i = 0; same && i < v.get_num_elements(); i++) same = v[i] == intmod_t(want[k][i], m);
    CHECK(same, nm[k], g << " mod " << m << " gave " << str(v));
  }
  REFUSED(intmod_list(m, SP_LIST_MULTIPLES), "bad_kind", m);
}
