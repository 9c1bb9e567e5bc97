// Dense linear algebra over fields, against Gaussian elimination and Leibniz sums in the reference fields.
#include <climits>
#include "adapt.h"
#include "spffl/bits/bit_t.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
using spffl::intmath::intrat_t;

// ---- coefficient fields: L is the library's type, V the reference's
struct KBit {
  typedef bit_t L; typedef int V;
  explicit KBit(Rng &) {}
  V zero() const { return 0; } V one() const { return 1; }
  V add(V a, V b) const { return a ^ b; } V neg(V a) const { return a; } V mul(V a, V b) const { return a & b; } V inv(V) const { return 1; }
  V rnd(Rng &r) const { return (int)r.coin(); }
  L to(V v) const { return bit_t(v); } V from(const L &l) const { return l.get_residue(); }
  std::string show(V v) const { return std::to_string(v); }
  int maxn() const { return 7; }
};
struct KFp {
  typedef intmod_t L; typedef i64 V; i64 p;
  explicit KFp(Rng &r) { static const std::vector<i64> ps = {2, 2, 3, 3, 5, 7, 11, 101, 32749, 46349, 65537}; p = r.pick(ps); }
  V zero() const { return 0; } V one() const { return 1; }
  V add(V a, V b) const { return (a + b) % p; } V neg(V a) const { return (p - a) % p; } V mul(V a, V b) const { return ref::mulmod(a, b, p); }
  V inv(V a) const { i64 r; ref::invmod(a, p, r); return r; }
  V rnd(Rng &r) const { return (i64)r.below(p); }
  L to(V v) const { return intmod_t((int)v, (int)p); } V from(const L &l) const { return l.get_modulus() == p ? (i64)l.get_residue() : -1; }
  std::string show(V v) const { return std::to_string(v); }
  int maxn() const { return 6; }
};
struct KQ {
  struct V { i64 n, d; bool operator==(const V &o) const { return n == o.n && d == o.d; } };
  typedef intrat_t L;
  explicit KQ(Rng &) {}
  static V mk(i128 n, i128 d) { i128 a = n < 0 ? -n : n, b = d < 0 ? -d : d; while (b) { i128 t = a % b; a = b; b = t; } if (d < 0) a = -a; return V{(i64)(n / a), (i64)(d / a)}; }
  V zero() const { return V{0, 1}; } V one() const { return V{1, 1}; }
  V add(V a, V b) const { return mk((i128)a.n * b.d + (i128)b.n * a.d, (i128)a.d * b.d); }
  V neg(V a) const { return V{-a.n, a.d}; } V mul(V a, V b) const { return mk((i128)a.n * b.n, (i128)a.d * b.d); } V inv(V a) const { return mk(a.d, a.n); }
  V rnd(Rng &r) const { return mk(r.range(-3, 3), r.chance(1, 5) ? 2 : 1); }
  L to(V v) const { return intrat_t((int)v.n, (int)v.d); } V from(const L &l) const { return V{l.get_numerator(), l.get_denominator()}; }
  std::string show(V v) const { return std::to_string(v.n) + "/" + std::to_string(v.d); }
  int maxn() const { return 4; }
};
template <class A> struct KPm { // K[x]/(m), m irreducible
  typedef typename A::PM L; typedef Poly V;
  mutable A a; Poly m; typename A::P lm;
  static Poly pm(A &a, Rng &r) { return a.R.random_irreducible(r, (int)r.range(1, std::string(A::nm()) == "f2" ? 8 : std::string(A::nm()) == "fp" ? 3 : 2)); }
  explicit KPm(Rng &r) : a(r), m(pm(a, r)), lm(a.to(m)) {}
  V zero() const { return Poly(); } V one() const { return a.R.mod(a.R.one(), m); }
  V add(const V &x, const V &y) const { return a.R.add(x, y); } V neg(const V &x) const { return a.R.neg(x); }
  V mul(const V &x, const V &y) const { return a.R.mulmod(x, y, m); } V inv(const V &x) const { Poly i; a.R.invmod(x, m, i); return i; }
  V rnd(Rng &r) const { return a.R.mod(a.R.random(r, PR::deg(m)), m); }
  L to(const V &v) const { return L(a.to(v), lm); } V from(const L &l) const { Poly v = a.from(l.get_residue()); if (a.from(l.get_modulus()) != m) v.resize(99, a.R.F.one); return v; }
  std::string show(const V &v) const { return a.R.show(v); }
  int maxn() const { return 4; }
};
template <class A, class QT> struct KRat {
  struct V { Poly n, d; bool operator==(const V &o) const { return n == o.n && d == o.d; } };
  typedef QT L;
  mutable A a;
  explicit KRat(Rng &r) : a(r) {}
  V red(Poly n, Poly d) const { Poly g = a.R.gcd(n, d); n = a.R.div(n, g); d = a.R.div(d, g); E li = a.R.F.inv(d.back()); return V{a.R.scale(n, li), a.R.scale(d, li)}; }
  V zero() const { return V{Poly(), a.R.one()}; } V one() const { return V{a.R.one(), a.R.one()}; }
  V add(const V &x, const V &y) const { return red(a.R.add(a.R.mul(x.n, y.d), a.R.mul(y.n, x.d)), a.R.mul(x.d, y.d)); }
  V neg(const V &x) const { return V{a.R.neg(x.n), x.d}; } V mul(const V &x, const V &y) const { return red(a.R.mul(x.n, y.n), a.R.mul(x.d, y.d)); }
  V inv(const V &x) const { return red(x.d, x.n); }
  V rnd(Rng &r) const { return red(a.R.random(r, (int)r.below(3)), r.coin() ? a.R.one() : a.R.random_exact(r, 1)); }
  L to(const V &v) const { return L(a.to(v.n), a.to(v.d)); } V from(const L &l) const { return V{a.from(l.get_numerator()), a.from(l.get_denominator())}; }
  std::string show(const V &v) const { return a.R.show(v.n) + "/" + a.R.show(v.d); }
  int maxn() const { return 3; }
};

template <class K> struct Lin {
  typedef typename K::V V;
  typedef typename K::L L;
  typedef std::vector<std::vector<V>> M;
  typedef tmatrix<L> LM;
  typedef tvector<L> LV;
  K k;
  V Z, I;
  explicit Lin(Rng &r) : k(r), Z(k.zero()), I(k.one()) {}
  V sub(const V &a, const V &b) const { return k.add(a, k.neg(b)); }
  M mat(int r, int c) const { return M(r, std::vector<V>(c, Z)); }
  M id(int n) const { M m = mat(n, n); for (int i = 0; i < n; i++) m[i][i] = I; return m; }
  M mul(const M &a, const M &b) const {
    M o = mat((int)a.size(), (int)b[0].size());
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t t = 0; t < b.size(); t++) o[i][j] = k.add(o[i][j], k.mul(a[i][t], b[t][j]));
    return o;
  }
  M transpose(const M &a) const { M o = mat((int)a[0].size(), (int)a.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) o[j][i] = a[i][j]; return o; }
  // reduced row echelon form (unique), with the rank
  int rref(M &a) const {
    int r = 0, R = (int)a.size(), C = (int)a[0].size();
    for (int c = 0; c < C && r < R; c++) {
      int p = r;
      while (p < R && a[p][c] == Z) p++;
      if (p == R) continue;
      std::swap(a[p], a[r]);
      V iv = k.inv(a[r][c]);
      for (int j = 0; j < C; j++) a[r][j] = k.mul(a[r][j], iv);
      for (int i = 0; i < R; i++) if (i != r && !(a[i][c] == Z)) { V f = a[i][c]; for (int j = 0; j < C; j++) a[i][j] = sub(a[i][j], k.mul(f, a[r][j])); }
      r++;
    }
    return r;
  }
  V leibniz(const M &a) const { // by expansion along the first row
    int n = (int)a.size();
    if (n == 1) return a[0][0];
    V s = Z;
    if (n > 7) { // a step of elimination instead
      int p = 0;
      while (p < n && a[p][0] == Z) p++;
      if (p == n) return Z;
      M b = mat(n - 1, n - 1);
      V iv = k.inv(a[p][0]);
      for (int i = 0, u = 0; i < n; i++) if (i != p) { V f = k.mul(a[i][0], iv); for (int j = 1; j < n; j++) b[u][j - 1] = sub(a[i][j], k.mul(f, a[p][j])); u++; }
      V v = k.mul(a[p][0], leibniz(b));
      return (p & 1) ? sub(Z, v) : v;
    }
    for (int j = 0; j < n; j++) {
      if (a[0][j] == Z) continue;
      M b = mat(n - 1, n - 1);
      for (int i = 1; i < n; i++) for (int t = 0, u = 0; t < n; t++) if (t != j) b[i - 1][u++] = a[i][t];
      V v = k.mul(a[0][j], leibniz(b));
      s = (j & 1) ? sub(s, v) : k.add(s, v);
    }
    return s;
  }
  LM to(const M &a) const { LM m((int)a.size(), (int)a[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) m[(int)i][(int)j] = k.to(a[i][j]); return m; }
  M from(const LM &m) const {
    M a = mat(m.get_num_rows(), m.get_num_cols());
    for (int i = 0; i < m.get_num_rows(); i++) for (int j = 0; j < m.get_num_cols(); j++) a[i][j] = k.from(m[i][j]);
    return a;
  }
  LV vto(const std::vector<V> &v) const { LV o((int)v.size()); for (size_t i = 0; i < v.size(); i++) o[(int)i] = k.to(v[i]); return o; }
  std::vector<V> vfrom(const LV &v) const { std::vector<V> o; for (int i = 0; i < v.get_num_elements(); i++) o.push_back(k.from(v[i])); return o; }
  std::string show(const M &a) const {
    std::string s = "[";
    for (auto &r : a) { s += "["; for (auto &x : r) s += k.show(x) + " "; s += "]"; }
    return s + "]";
  }
  // shapes and degeneracies the echelon code must survive
  M gen(Rng &r, int R, int C) const {
    M a = mat(R, C);
    int kind = (int)r.below(14);
    if (kind == 0) return a;
    if (kind == 1 && R == C) return id(R);
    if (kind == 2 && R == C) { M b = id(R); for (int i = R - 1; i > 0; i--) std::swap(b[i], b[r.below(i + 1)]); return b; } // permutation
    for (auto &row : a) for (auto &x : row) x = k.rnd(r);
    if (kind == 3) for (auto &row : a) for (auto &x : row) if (!r.chance(1, 3)) x = Z;
    if (kind == 4) for (int i = 0; i < R; i++) for (int j = 0; j < C && j < i; j++) a[i][j] = Z; // upper triangular
    if (kind == 5) for (int i = 0; i < R; i++) for (int j = i + 1; j < C; j++) a[i][j] = Z;
    if (kind == 6 && R > 1) a[r.below(R)] = a[r.below(R)];
    if (kind == 7 && R > 2) { int i = (int)r.below(R); for (int j = 0; j < C; j++) a[i][j] = k.add(a[(i + 1) % R][j], a[(i + 2) % R][j]); }
    if (kind == 8) { int j = (int)r.below(C); for (int i = 0; i < R; i++) a[i][j] = Z; } // zero column
    if (kind == 9) { for (int j = 0; j < C; j++) a[0][j] = Z; }                       // zero first row
    if (kind == 10) { for (int i = 0; i < R; i++) a[i][0] = Z; if (R > 1) a[0] = a[1]; }
    if (kind == 11) { std::vector<V> u = a[0]; for (int i = 0; i < R; i++) { V f = k.rnd(r); for (int j = 0; j < C; j++) a[i][j] = k.mul(f, u[j]); } } // rank <= 1
    return a;
  }
};
static bool leaders_ok(const std::vector<int> &ld, int cols) { // strictly increasing, zero rows last
  for (size_t i = 1; i < ld.size(); i++) if (ld[i - 1] == cols ? ld[i] != cols : (ld[i] != cols && ld[i] <= ld[i - 1])) return false;
  return true;
}
template <class K> static void lin_case(Ctx &c) {
  typedef Lin<K> T;
  typedef typename T::M M; typedef typename T::V V; typedef typename T::L L; typedef typename T::LM LM; typedef typename T::LV LV;
  Rng &r = c.rng;
  T t(r);
  int mx = t.k.maxn();
  if (mx >= 6 && r.chance(1, 60)) mx *= 3;
  int R = (int)r.range(1, mx), C = r.coin() ? R : (int)r.range(1, mx);
  const M a = t.gen(r, R, C);
  const M b = r.chance(1, 8) ? a : t.gen(r, R, C);
  const LM la = t.to(a), lb = t.to(b);
  c.input(hash_str(t.show(a) + t.show(b) + t.k.show(t.I)), R > 1 && C > 1);
  if (c.want_sample()) c.sample(t.show(a));
#define MEQ(expr, want, key)                                                   \
  do {                                                                         \
    M w_ = (want); M g_ = t.from(expr);                                        \
    CHECK(g_ == w_, key, key << " of " << t.show(a) << " , " << t.show(b) << " gave " << t.show(g_) << " want " << t.show(w_)); \
  } while (0)
  // ---- entrywise arithmetic
  { M s = a, d = a, n = a; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { s[i][j] = t.k.add(a[i][j], b[i][j]); d[i][j] = t.sub(a[i][j], b[i][j]); n[i][j] = t.k.neg(a[i][j]); }
    MEQ(la + lb, s, "add"); MEQ(la - lb, d, "sub"); MEQ(-la, n, "neg");
    LM x = la; x += lb; MEQ(x, s, "add_assign"); x = la; x -= lb; MEQ(x, d, "sub_assign"); }
  { V f = t.k.rnd(r); M s = a; for (auto &row : s) for (auto &x : row) x = t.k.mul(x, f); MEQ(la * t.k.to(f), s, "scale"); }
  MEQ(la.transpose(), t.transpose(a), "transpose");
  CHECK((la == lb) == (a == b) && (la != lb) == (a != b), "eq", t.show(a) << " vs " << t.show(b));
  // ---- products of compatible shapes
  { const M e = t.gen(r, C, (int)r.range(1, mx)); MEQ(la * t.to(e), t.mul(a, e), "mul");
    std::vector<V> v(C, t.Z); for (auto &x : v) x = t.k.rnd(r);
    M vm = t.mat(C, 1); for (int i = 0; i < C; i++) vm[i][0] = v[i];
    M w = t.mul(a, vm); std::vector<V> wv; for (auto &row : w) wv.push_back(row[0]);
    CHECK(t.vfrom(la * t.vto(v)) == wv, "mul_vector", t.show(a)); 
    if (R != C) REFUSED(la * lb, "mul_shape", R << "x" << C);
    const M e2 = t.gen(r, R + 1, C); REFUSED(la + t.to(e2), "add_shape", ""); REFUSED(la - t.to(e2), "add_shape", ""); }
  // ---- echelon forms
  M rr = a; const int rank = t.rref(rr);
  CHECK(la.get_rank() == rank, "rank", t.show(a) << " gave " << la.get_rank() << " want " << rank);
  for (int form = 0; form < 2; form++) {
    LM lx = la;
    if (form) lx.row_echelon_form(); else lx.row_reduce_below();
    M x = t.from(lx);
    CHECK((int)x.size() == R && (int)x[0].size() == C, "echelon_shape", t.show(a));
    std::vector<int> ld;
    for (auto &row : x) { int j = 0; while (j < C && row[j] == t.Z) j++; ld.push_back(j); }
    CHECK(leaders_ok(ld, C), "echelon", t.show(a) << " became " << t.show(x));
    bool piv = true;
    for (int i = 0; i < R; i++) if (ld[i] < C) { if (!(x[i][ld[i]] == t.I)) piv = false; if (form) for (int u = 0; u < R; u++) if (u != i && !(x[u][ld[i]] == t.Z)) piv = false; }
    CHECK(piv, "pivots", t.show(a) << " became " << t.show(x));
    M y = x; int ry = t.rref(y);
    CHECK(ry == rank && y == rr, "row_equivalent", t.show(a) << " became " << t.show(x));
    if (form) CHECK(x == rr, "reduced_unique", t.show(a) << " became " << t.show(x));
    CHECK(lx.get_rank_rr() == rank, "rank_rr", t.show(a));
    LM nz; LM la2 = la; la2 = la;
    bool any = form ? la2.get_rech_non_zero_rows(nz) : la2.get_rr_non_zero_rows(nz);
    CHECK(any == (rank > 0), "nonzero_rows", t.show(a));
    if (any && rank > 0) { M z = t.from(nz); CHECK((int)z.size() == rank && z == M(x.begin(), x.begin() + rank), "nonzero_rows", t.show(a) << " gave " << t.show(z)); LM cp(nz), as; as = nz; as = la; as = nz; CHECK(t.from(cp) == z && t.from(as) == z, "nonzero_rows_copy", ""); }
    CHECK(t.from(la2) == a, "operand_kept", "");
  }
  // ---- kernel
  { LM kb; bool has = la.get_kernel_basis(kb, t.k.to(t.Z), t.k.to(t.I));
    CHECK(has == (rank < C), "kernel_exists", t.show(a) << " rank " << rank);
    if (has && rank < C) {
      M kk = t.from(kb);
      CHECK((int)kk.size() == C - rank, "rank_nullity", t.show(a) << " kernel " << t.show(kk));
      CHECK((int)kk[0].size() == C, "kernel_shape", t.show(a));
      M p = t.mul(a, t.transpose(kk));
      CHECK(p == t.mat(R, (int)kk.size()), "kernel_annihilated", t.show(a) << " kernel " << t.show(kk));
      M q = kk; CHECK(t.rref(q) == (int)kk.size(), "kernel_independent", t.show(a) << " kernel " << t.show(kk));
    } }
  // ---- systems
  { std::vector<V> bv(R, t.Z);
    if (r.chance(2, 3)) { std::vector<V> v(C, t.Z); for (auto &x : v) x = t.k.rnd(r); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) bv[i] = t.k.add(bv[i], t.k.mul(a[i][j], v[j])); }
    else for (auto &x : bv) x = t.k.rnd(r);
    M ab = a; for (int i = 0; i < R; i++) ab[i].push_back(bv[i]);
    M z = ab; bool uniq = rank == C && t.rref(z) == C;
    if (r.chance(1, 2)) { LM pv = la.paste_vector(t.vto(bv)); CHECK(t.from(pv) == ab, "paste_vector", t.show(a)); }
    LV x;
    bool got = la.solve_unique(x, t.vto(bv), t.k.to(t.Z), t.k.to(t.I));
    CHECK(got == uniq, "solve_unique", t.show(ab) << " said " << got);
    if (got && uniq) { std::vector<V> xs = t.vfrom(x); bool ok = (int)xs.size() == C; for (int j = 0; ok && j < C; j++) ok = xs[j] == z[j][C]; CHECK(ok, "solution", t.show(ab)); } }
  // ---- square matrices
  if (R == C) {
    V det = t.leibniz(a);
    CHECK(t.k.from(la.det()) == det, "det", t.show(a) << " gave " << t.k.show(t.k.from(la.det())) << " want " << t.k.show(det));
    CHECK((rank == R) == !(det == t.Z), "oracle_agrees", "");
    LM li;
    bool inv = la.inverse(li);
    CHECK(inv == (rank == R), "inverse_exists", t.show(a) << " said " << inv);
    if (inv && rank == R) { M x = t.from(li); CHECK(t.mul(a, x) == t.id(R) && t.mul(x, a) == t.id(R), "inverse", t.show(a) << " gave " << t.show(x)); }
    CHECK(la.is_I() == (a == t.id(R)), "is_I", t.show(a));
    CHECK(la.is_square(), "is_square", "");
    // powers
    int mxe = t.k.maxn() <= 4 ? 3 : 9;
    int e = (int)r.range(-mxe, mxe);
    bool isz = a == t.mat(R, R);
    if (isz && e <= 0) { LM o; REFUSED(la.exp(e, o), "exp_zero", e); }
    else {
      LM o; int ok = la.exp(e, o);
      bool can = e > 0 || rank == R;
      CHECK((ok != 0) == can, "exp_exists", t.show(a) << " ^ " << e);
      if (ok && can) {
        M base = a, w = t.id(R);
        if (e < 0) { M aug = a; for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) aug[i].push_back(i == j ? t.I : t.Z); t.rref(aug); for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) base[i][j] = aug[i][R + j]; }
        for (int i = 0; i < (e < 0 ? -e : e); i++) w = t.mul(w, base);
        MEQ(o, w, "exp");
      }
    }
    { V f = t.k.rnd(r); M s = a, d = a; for (int i = 0; i < R; i++) { s[i][i] = t.k.add(a[i][i], f); d[i][i] = t.sub(a[i][i], f); } MEQ(la + t.k.to(f), s, "plus_scalar"); MEQ(la - t.k.to(f), d, "minus_scalar"); }
    { LM x = la; x *= lb; MEQ(x, t.mul(a, b), "mul_assign"); LM y = la; y *= y; MEQ(y, t.mul(a, a), "square_assign"); }
  } else {
    LM li; REFUSED(la.det(), "det_shape", ""); REFUSED(la.inverse(li), "inverse_shape", ""); REFUSED(la.exp(2, li), "exp_shape", "");
    REFUSED(la + t.k.to(t.I), "scalar_shape", ""); CHECK(!la.is_I() && !la.is_square(), "is_I", t.show(a));
  }
  CHECK(la.is_zero() == (a == t.mat(R, C)), "is_zero", t.show(a));
  // ---- pasting, splitting, flipping
  { const M e = t.gen(r, R, (int)r.range(1, mx)); M w = a; for (int i = 0; i < R; i++) w[i].insert(w[i].end(), e[i].begin(), e[i].end());
    LM p = la.paste(t.to(e)); MEQ(p, w, "paste");
    LM x, y; p.split(x, y, C); MEQ(x, a, "split_left"); MEQ(y, e, "split_right"); }
  { M h = a, v = a; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { h[i][j] = a[i][C - 1 - j]; v[i][j] = a[R - 1 - i][j]; }
    M hv = h; std::reverse(hv.begin(), hv.end()); MEQ(la.flip_horiz(), h, "flip"); MEQ(la.flip_vert(), v, "flip"); MEQ(la.flip_horiz_vert(), hv, "flip"); }
  { LM o = LM::outer(la[0], lb[R - 1]); M w = t.mat(C, C); for (int i = 0; i < C; i++) for (int j = 0; j < C; j++) w[i][j] = t.k.mul(a[0][i], b[R - 1][j]); MEQ(o, w, "outer"); }
  CHECK(t.from(la) == a && t.from(lb) == b, "operand_kept", "");
}
#define S(n, ...) SECTION(lin_##n) { lin_case<__VA_ARGS__>(c); }
typedef KRat<AFp, spffl::rationals::fp_polyrat_t> KRatFp;
typedef KRat<AF2, spffl::rationals::f2_polyrat_t> KRatF2;
S(bit, KBit)
S(fp, KFp)
S(q, KQ)
S(f2pm, KPm<AF2>)
S(fppm, KPm<AFp>)
S(f2npm, KPm<AF2n>)
S(f2rat, KRatF2)
S(fprat, KRatFp)
