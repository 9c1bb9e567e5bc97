// Bit-packed vectors and matrices against element-by-element models.
#include <unistd.h>
#include "fw.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/bits/bit_vector_t.h"
#include "spffl/bits/count_bits.h"
using namespace spffl::bits;
typedef std::vector<int> BV;
typedef std::vector<BV> BM;

static int gen_len(Rng &r, int hi = 300) {
  if (hi >= 200 && r.chance(1, 40)) hi = 2100;
  switch (r.below(6)) {
  case 0: return (int)r.range(1, 8);
  case 1: case 2: { int b = 64 * (int)r.range(1, std::max(1, hi / 64)); return std::max(1, std::min(hi, b + (int)r.range(-2, 2))); }
  case 3: return (int)r.range(1, std::min(hi, 70));
  default: return (int)r.range(1, hi);
  }
}
static BV gen_bits(Rng &r, int n) {
  BV v(n, 0);
  switch (r.below(6)) {
  case 0: break;
  case 1: for (auto &x : v) x = 1; break;
  case 2: v[r.below(n)] = 1; break;
  case 3: { int k = (int)r.below(4); while (k--) v[r.below(n)] = 1; if (r.coin()) v[n - 1] = 1; break; }
  default: for (auto &x : v) x = (int)r.below(2);
  }
  return v;
}
static bit_vector_t mk(const BV &v) { bit_vector_t r((int)v.size()); for (size_t i = 0; i < v.size(); i++) if (v[i]) r.set((int)i, 1); return r; }
static BV un(const bit_vector_t &v) { BV r(v.get_num_elements()); for (size_t i = 0; i < r.size(); i++) r[i] = v.get((int)i).get_residue(); return r; }
static std::string show(const BV &v) { std::string s; for (int x : v) s += (char)('0' + x); return s; }
static std::string show(const BM &m) { std::string s; for (auto &v : m) { s += show(v); s += '/'; } return s; }
static u64 hsh(const BV &v) { u64 h = v.size(); for (int x : v) h = h * 1099511628211ULL + x + 1; return h; }

#define EQV(expr, want, key)                                                   \
  do {                                                                         \
    bit_vector_t got_ = (expr);                                                \
    BV w_ = (want);                                                            \
    CHECK(un(got_) == w_, key, key << " gave " << show(un(got_)) << " want " << show(w_)); \
    bit_vector_t c_ = mk(w_);                                                  \
    CHECK(got_ == c_ && c_ == got_ && !(got_ != c_), key ".canon", key " equal vectors compare unequal: " << show(w_)); \
    bool z_ = true; for (int x_ : w_) if (x_) z_ = false;                      \
    CHECK(got_.is_zero() == z_, key ".is_zero", show(w_));                     \
  } while (0)

SECTION(bitvec) {
  Rng &r = c.rng;
  int n = gen_len(r);
  BV x = gen_bits(r, n), y = gen_bits(r, n);
  if (r.chance(1, 8)) y = x;
  if (r.chance(1, 6)) { y = x; y[r.below(n)] ^= 1; }
  if (r.chance(1, 6)) { y = x; y[n - 1] ^= 1; }
  c.input(hsh(x) * 31 + hsh(y), n > 1);
  if (c.want_sample()) c.sample("n=" + std::to_string(n) + " x=" + show(x) + " y=" + show(y));
  bit_vector_t X = mk(x), Y = mk(y);
  EQV(X, x, "build");
  BV s(n), p(n);
  int dot = 0;
  for (int i = 0; i < n; i++) { s[i] = x[i] ^ y[i]; p[i] = x[i] & y[i]; dot ^= p[i]; }
  EQV(X + Y, s, "add");
  EQV(X - Y, s, "sub");
  EQV(X * Y, p, "mul");
  CHECK(X.dot(Y).get_residue() == dot, "dot", show(x) << " . " << show(y));
  EQV(X * bit_t(1), x, "scale1");
  EQV(X * bit_t(0), BV(n, 0), "scale0");
  { bit_vector_t t = X; t += Y; EQV(t, s, "add_assign"); }
  { bit_vector_t t = X; t -= Y; EQV(t, s, "sub_assign"); }
  { bit_vector_t t = X; t *= Y; EQV(t, p, "mul_assign"); }
  { bit_vector_t t = X; t *= bit_t(0); EQV(t, BV(n, 0), "scale_assign"); }
  { bit_vector_t t = X; t *= bit_t(1); EQV(t, x, "scale_assign"); }
  { bit_vector_t t = X; t += t; EQV(t, BV(n, 0), "self_add"); }
  { bit_vector_t t = X; t *= t; EQV(t, x, "self_mul"); }
  { bit_vector_t t = X; t.accum_row(Y); EQV(t, s, "accum_row"); }
  { bit_vector_t t = X, u = Y; t.ptrswap(u); EQV(t, y, "ptrswap"); EQV(u, x, "ptrswap"); }
  CHECK((X == Y) == (x == y) && (X != Y) == (x != y), "eq", show(x) << " vs " << show(y));
  int lead = -1;
  for (int i = 0; i < n && lead < 0; i++) if (x[i]) lead = i;
  int lp = -7;
  bool hasl = X.find_leader_pos(lp);
  CHECK(hasl == (lead >= 0) && (!hasl || lp == lead), "leader", show(x) << " leader " << lp);
  for (int b = 0; b < 2; b++) {
    bool all = true;
    for (int v : x) if (v != b) all = false;
    CHECK((X == bit_t(b)) == all && (X != bit_t(b)) == !all, "eq_scalar", show(x) << " == " << b);
    EQV(bit_vector_t(bit_t(b), n), BV(n, b), "fill_ctor");
    EQV(bit_vector_t(b, n), BV(n, b), "fill_ctor_int");
    bit_vector_t t = X;
    t = bit_t(b);
    EQV(t, BV(n, b), "fill_assign");
  }
  // element operations at random and boundary positions
  bit_vector_t t = X;
  BV m = x;
  for (int k = 0; k < 30; k++) {
    int i = r.chance(1, 3) ? std::min(n - 1, 64 * (int)r.below(n / 64 + 1) + (r.coin() ? 63 : 0)) : (int)r.below(n);
    switch (r.below(5)) {
    case 0: t.set(i, 1); m[i] = 1; break;
    case 1: t.set(i, 0); m[i] = 0; break;
    case 2: t.set(i, bit_t((int)k)); m[i] = k & 1; break;
    case 3: t.toggle_element(i); m[i] ^= 1; break;
    default: t.set(i, k * 3); m[i] = (k * 3) & 1;
    }
    CHECK(t.get(i).get_residue() == m[i] && t.get_int(i) == m[i] && t.get_bit(i) == m[i], "element", "position " << i << " of " << n);
  }
  EQV(t, m, "mutate");
  // text
  { std::string w; for (int i = 0; i < n; i++) { if (i) w += ' '; w += (char)('0' + x[i]); }
    CHECK(str(X) == w, "print", str(X));
    std::istringstream is(w + "\n"); bit_vector_t z(1); std::istream &ri = is; ri >> z; CHECK(!is.fail(), "reads_back", w); if (!is.fail()) EQV(z, x, "reads_back");
    std::ostringstream sq; X.sqzout(sq); CHECK(sq.str() == show(x), "sqzout", sq.str()); }
  // refusals
  REFUSED(X.get(n), "bounds", n); REFUSED(X.get(-1), "bounds", n); REFUSED(X.set(n, 1), "bounds", n);
  REFUSED(X.set(-1, bit_t(1)), "bounds", n); REFUSED(X.toggle_element(n), "bounds", n); REFUSED(X.get_int(n + (int)r.below(200)), "bounds", n);
  bit_vector_t L(n + 1 + (int)r.below(70));
  REFUSED(X + L, "length", n); REFUSED(X - L, "length", n); REFUSED(X * L, "length", n); REFUSED(X.dot(L), "length", n);
  REFUSED(X += L, "length", n); REFUSED(X -= L, "length", n); REFUSED(X *= L, "length", n); REFUSED(L += X, "length", n); REFUSED(X.accum_row(L), "length", n); REFUSED(X.ptrswap(L), "length", n);
  REFUSED(bit_vector_t(0), "size", 0); REFUSED(bit_vector_t(-(int)r.below(9)), "size", 0); REFUSED(bit_vector_t(1, 0), "size", 0);
  CHECK(!(X == L) && X != L, "eq_length", n);
  EQV(X, x, "operands_kept"); EQV(Y, y, "operands_kept");
}

SECTION(bitvec_hist) {
  Rng &r = c.rng;
  const int K = 4;
  std::vector<bit_vector_t> v(K);
  std::vector<BV> m(K);
  u64 h = 7;
  for (int i = 0; i < K; i++) { m[i] = gen_bits(r, gen_len(r, 200)); v[i] = mk(m[i]); h = h * 31 + hsh(m[i]); }
  int steps = c.thorough ? 120 : 40;
  for (int k = 0; k < steps; k++) {
    int i = (int)r.below(K), j = (int)r.below(K), op = (int)r.below(9);
    h = h * 131 + op * 64 + i * 8 + j;
    switch (op) {
    case 0: v[i] = v[j]; m[i] = m[j]; break;
    case 1: { bit_vector_t t(v[j]); v[i] = t; m[i] = m[j]; t.toggle_element(0); break; }
    case 2: { int p = (int)r.below(m[i].size()); v[i].toggle_element(p); m[i][p] ^= 1; break; }
    case 3: if (m[i].size() == m[j].size()) { v[i] += v[j]; BV o = m[j]; for (size_t p = 0; p < o.size(); p++) m[i][p] ^= o[p]; } break;
    case 4: { BV b = gen_bits(r, gen_len(r, 200)); v[i] = mk(b); m[i] = b; break; }
    case 5: { int b = (int)r.below(2); v[i] = bit_t(b); for (auto &x : m[i]) x = b; break; }
    case 6: if (m[i].size() == m[j].size()) { v[i] = v[i] + v[j]; BV o = m[j]; for (size_t p = 0; p < o.size(); p++) m[i][p] ^= o[p]; } break;
    case 7: if (i != j && m[i].size() == m[j].size()) { v[i].ptrswap(v[j]); std::swap(m[i], m[j]); } break;
    default: { std::istringstream is(str(v[j])); bit_vector_t z; is >> z; v[i] = z; m[i] = m[j]; }
    }
    for (int q = 0; q < K; q++) {
      CHECK(un(v[q]) == m[q], "hist.value", "after op " << op << " on " << i << "," << j << ": object " << q << " is " << show(un(v[q])) << " want " << show(m[q]));
      for (int s = 0; s < K; s++) CHECK((v[q] == v[s]) == (m[q] == m[s]), "hist.eq", show(m[q]) << " vs " << show(m[s]));
    }
  }
  c.input(h);
  if (c.want_sample()) c.sample("history of " + std::to_string(steps) + " steps on lengths " + std::to_string(m[0].size()) + "," + std::to_string(m[1].size()) + ",...");
}

// ------------------------------------------------------------------ matrices
static BM gen_mat(Rng &r, int nr, int nc) {
  BM m(nr, BV(nc, 0));
  switch (r.below(8)) {
  case 0: break;
  case 1: for (int i = 0; i < nr && i < nc; i++) m[i][i] = 1; break;
  case 2: case 3: { // low rank
    int k = (int)r.range(1, std::min(nr, nc));
    for (int t = 0; t < k; t++) { BV u = gen_bits(r, nr), v = gen_bits(r, nc); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) m[i][j] ^= u[i] & v[j]; }
    break; }
  case 4: for (auto &v : m) for (auto &x : v) x = r.chance(1, 8); break;
  case 5: { // permutation-like
    std::vector<int> p(std::max(nr, nc)); for (size_t i = 0; i < p.size(); i++) p[i] = (int)i; for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
    for (int i = 0; i < nr; i++) if (p[i] < nc) m[i][p[i]] = 1; break; }
  default: for (auto &v : m) for (auto &x : v) x = (int)r.below(2);
  }
  return m;
}
static bit_matrix_t mkm(const BM &m) { bit_matrix_t r((int)m.size(), (int)m[0].size()); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[0].size(); j++) r[(int)i].set((int)j, m[i][j]); return r; }
static BM unm(bit_matrix_t &m) { BM r; for (int i = 0; i < m.get_num_rows(); i++) r.push_back(un(m[i])); return r; }
static BM rref(BM m, int &rank, std::vector<int> *piv = nullptr) {
  int nr = (int)m.size(), nc = (int)m[0].size();
  rank = 0;
  for (int col = 0; col < nc && rank < nr; col++) {
    int p = rank;
    while (p < nr && !m[p][col]) p++;
    if (p == nr) continue;
    std::swap(m[p], m[rank]);
    for (int i = 0; i < nr; i++) if (i != rank && m[i][col]) for (int j = 0; j < nc; j++) m[i][j] ^= m[rank][j];
    if (piv) piv->push_back(col);
    rank++;
  }
  return m;
}
static BM mmul(const BM &a, const BM &b) { BM m(a.size(), BV(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b.size(); k++) if (a[i][k]) for (size_t j = 0; j < b[0].size(); j++) m[i][j] ^= b[k][j]; return m; }
static BM tr(const BM &a) { BM m(a[0].size(), BV(a.size())); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) m[j][i] = a[i][j]; return m; }
static BM ident(int n) { BM m(n, BV(n, 0)); for (int i = 0; i < n; i++) m[i][i] = 1; return m; }
static bool echelon(const BM &m) { int last = -1; bool zero = false; for (auto &v : m) { int l = -1; for (size_t j = 0; j < v.size(); j++) if (v[j]) { l = (int)j; break; } if (l < 0) { zero = true; continue; } if (zero || l <= last) return false; last = l; } return true; }
#define EQM(expr, want, key)                                                   \
  do {                                                                         \
    bit_matrix_t got_ = (expr);                                                \
    BM w_ = (want);                                                            \
    BM g_ = unm(got_);                                                         \
    CHECK(g_ == w_ && got_.get_num_rows() == (int)w_.size() && got_.get_num_cols() == (int)w_[0].size(), key, key << " gave " << show(g_) << " want " << show(w_)); \
    if (g_ == w_) CHECK(got_ == mkm(w_) && !(got_ != mkm(w_)), key ".canon", show(w_)); \
  } while (0)

SECTION(bitmat) {
  Rng &r = c.rng;
  int big = r.chance(1, 12) ? 140 : r.chance(1, 3) ? 70 : 9;
  int nr = (int)r.range(1, std::min(big, r.chance(1, 20) ? 140 : 70)), nc = r.chance(1, 2) ? nr : gen_len(r, big);
  if (r.chance(1, 10)) nc = gen_len(r, 199);
  if (nr < 12 && r.chance(1, 80)) nc = (int)r.range(200, 260);
  BM a = gen_mat(r, nr, nc), b = gen_mat(r, nr, nc);
  if (r.chance(1, 8)) b = a;
  u64 h = 1; for (auto &v : a) h = h * 31 + hsh(v);
  c.input(h, nr > 1 && nc > 1);
  if (c.want_sample()) c.sample(std::to_string(nr) + "x" + std::to_string(nc) + " " + (nr * nc < 300 ? show(a) : "..."));
  bit_matrix_t A = mkm(a), B = mkm(b);
  EQM(A, a, "mbuild");
  { BM s = a; for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) s[i][j] ^= b[i][j];
    EQM(A + B, s, "madd"); EQM(A - B, s, "msub"); EQM(-A, a, "mneg");
    bit_matrix_t t = A; t += B; EQM(t, s, "madd_assign"); bit_matrix_t u = A; u -= B; EQM(u, s, "msub_assign"); }
  CHECK((A == B) == (a == b) && (A != B) == (a != b), "meq", show(a));
  { int k = (int)r.range(1, std::min(big, 40)); BM x = gen_mat(r, nc, k); bit_matrix_t X = mkm(x); BM p = mmul(a, x); EQM(A * X, p, "mmul"); bit_matrix_t t = A; t *= X; EQM(t, p, "mmul_assign");
    if (nc != nr || k != nr) { if (k != nr) REFUSED(X * A, "mshape", nr << "x" << nc); } }
  { BV v = gen_bits(r, nc); BV w(nr, 0); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w[i] ^= a[i][j] & v[j]; EQV(A * mk(v), w, "matvec"); REFUSED(A * bit_vector_t(nc + 1), "mshape", nc); }
  { BV u = gen_bits(r, nr), v = gen_bits(r, nc); BM w(nr, BV(nc, 0)); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w[i][j] = u[i] & v[j]; EQM(bit_matrix_t::outer(mk(u), mk(v)), w, "outer"); }
  EQM(A.transpose(), tr(a), "transpose");
  int rank; std::vector<int> piv;
  BM rf = rref(a, rank, &piv);
  { bit_matrix_t t = A; t.row_echelon_form(); EQM(t, rf, "rref"); CHECK(t.get_rank_rr() == rank, "rank_rr", show(a)); }
  { bit_matrix_t t = A; t.row_reduce_below(); BM g = unm(t); int rk2; CHECK(echelon(g), "rr_echelon", show(a) << " -> " << show(g)); CHECK(rref(g, rk2) == rf, "rr_equiv", show(a) << " -> " << show(g)); }
  CHECK(A.get_rank() == rank, "rank", show(a) << " rank " << A.get_rank() << " want " << rank);
  { bit_matrix_t K; bool has = A.get_kernel_basis(K); CHECK(has == (rank < nc), "ker_exists", show(a));
    if (has) { BM k = unm(K); int kr; rref(k, kr); CHECK((int)k.size() == nc - rank && kr == nc - rank, "ker_dim", show(a) << " kernel " << show(k)); bool ann = true; for (auto &v : k) { if ((int)v.size() != nc) { ann = false; break; } for (int i = 0; i < nr; i++) { int s = 0; for (int j = 0; j < nc; j++) s ^= a[i][j] & v[j]; if (s) ann = false; } } CHECK(ann, "ker_annihilates", show(a) << " kernel " << show(k)); if (ann) A.check_kernel_basis(K); } }
  CHECK(A.is_zero() == (rank == 0), "mis_zero", show(a));
  CHECK(A.is_square() == (nr == nc), "is_square", nr << "x" << nc);
  for (int e = 0; e < 2; e++) { bool all = true; for (auto &v : a) for (int x : v) if (x != e) all = false; CHECK((A == bit_t(e)) == all && (A != bit_t(e)) == !all, "meq_scalar", show(a)); EQM(bit_matrix_t(bit_t(e), nr, nc), BM(nr, BV(nc, e)), "mfill"); EQM(bit_matrix_t(e, nr, nc), BM(nr, BV(nc, e)), "mfill_int"); bit_matrix_t t = A; t = bit_t(e); EQM(t, BM(nr, BV(nc, e)), "mfill_assign"); }
  if (nr == nc) {
    CHECK(A.det().get_residue() == (rank == nr), "det", show(a));
    CHECK(A.is_I() == (a == ident(nr)), "is_I", show(a));
    EQM(A.make_I(), ident(nr), "make_I");
    { BM s = a; for (int i = 0; i < nr; i++) s[i][i] ^= 1; EQM(A + bit_t(1), s, "madd_scalar"); EQM(A - bit_t(1), s, "msub_scalar"); EQM(A + bit_t(0), a, "madd_scalar"); bit_matrix_t t = A; t += bit_t(1); EQM(t, s, "madd_scalar_assign"); t -= bit_t(1); EQM(t, a, "msub_scalar_assign"); }
    bit_matrix_t V;
    bool inv = A.inverse(V);
    CHECK(inv == (rank == nr), "inv_exists", show(a));
    BM iv;
    if (inv) { iv = unm(V); CHECK((int)iv.size() == nr && (int)iv[0].size() == nr && mmul(a, iv) == ident(nr) && mmul(iv, a) == ident(nr), "inverse", show(a) << " inverse " << show(iv)); }
    int e = (int)r.below(nr > 30 ? 4 : 12);
    BM p = ident(nr); for (int i = 0; i < e; i++) p = mmul(p, a);
    bit_matrix_t P;
    int rc = A.exp(e, P);
    if (e > 0) { CHECK(rc != 0, "mexp_ok", e); if (rc) EQM(P, p, "mexp"); }
    else { CHECK((rc != 0) == (rank == nr), "mexp0", show(a)); if (rc) EQM(P, ident(nr), "mexp0"); }
    int ne = (int)r.range(1, 5);
    bit_matrix_t N;
    rc = A.exp(-ne, N);
    CHECK((rc != 0) == (rank == nr), "mexp_neg_exists", show(a));
    if (rc && inv) { BM q = ident(nr); for (int i = 0; i < ne; i++) q = mmul(q, iv); EQM(N, q, "mexp_neg"); }
  } else {
    REFUSED(A.det(), "nonsquare", "det"); REFUSED(A.make_I(), "nonsquare", "make_I"); bit_matrix_t t; REFUSED(A.inverse(t), "nonsquare", "inverse"); REFUSED(A.exp(2, t), "nonsquare", "exp"); REFUSED(A + bit_t(1), "nonsquare", "+"); REFUSED(A - bit_t(1), "nonsquare", "-");
    CHECK(!A.is_I(), "is_I", nr << "x" << nc);
  }
  { int k = gen_len(r, 80); BM x = gen_mat(r, nr, k); bit_matrix_t X = mkm(x); bit_matrix_t p = A.paste(X); BM w = a; for (int i = 0; i < nr; i++) w[i].insert(w[i].end(), x[i].begin(), x[i].end()); EQM(p, w, "paste");
    int sc = (int)r.range(1, nc + k - 1); bit_matrix_t l, g; p.split(l, g, sc); BM wl(nr), wr(nr); for (int i = 0; i < nr; i++) { wl[i] = BV(w[i].begin(), w[i].begin() + sc); wr[i] = BV(w[i].begin() + sc, w[i].end()); } EQM(l, wl, "split"); EQM(g, wr, "split");
    bit_matrix_t Z(nr + 1, k); REFUSED(A.paste(Z), "mshape", "paste"); REFUSED(p.split(l, g, nc + k), "mshape", "split"); REFUSED(p.split(l, g, -1), "mshape", "split"); }
  { int i = (int)r.below(nr), j = (int)r.below(nr); bit_matrix_t t = A; t.swap(i, j); BM w = a; std::swap(w[i], w[j]); EQM(t, w, "swap"); REFUSED(t.swap(nr, 0), "mbounds", "swap"); REFUSED(t.swap(0, -1), "mbounds", "swap"); }
  REFUSED(A[nr], "mbounds", nr); REFUSED(A[-1], "mbounds", nr);
  { bit_matrix_t Z(nr, nc + 1); REFUSED(A + Z, "mshape", "+"); REFUSED(A - Z, "mshape", "-"); REFUSED(A += Z, "mshape", "+="); }
  REFUSED(bit_matrix_t(0, 3), "msize", 0); REFUSED(bit_matrix_t(bit_t(1), 3, 0), "msize", 0); REFUSED(bit_matrix_t(1, -1, 2), "msize", 0);
  { std::istringstream is((r.coin() ? "# comment\n\n" : "") + str(A) + (r.coin() ? "\n1 0\n" : "")); bit_matrix_t t; is >> t; CHECK(!is.fail(), "mreads_back", show(a)); if (!is.fail()) EQM(t, a, "mreads_back"); }
  { bit_matrix_t z, z2(z), z3 = A; z3 = z; int k = (int)r.below(2); CHECK(z.get_num_rows() == 0 && z2.get_num_rows() == 0 && z3.get_num_rows() == 0, "mempty", ""); z3 = A; EQM(z3, a, "mempty_refill"); z = bit_t(k); EQM(z, BM(1, BV(1, k)), "mempty_scalar"); z2 = B; EQM(z2, b, "mempty_refill");
    bit_vector_t v, v2(v), v3 = A[0]; v3 = v; CHECK(v.get_num_elements() == 0 && v3.get_num_elements() == 0 && v2.get_num_elements() == 0, "vempty", ""); v = bit_t(k); EQV(v, BV(1, k), "vempty_scalar"); v2 = A[0]; EQV(v2, a[0], "vempty_refill"); v3 = A[0]; EQV(v3, a[0], "vempty_refill"); }
  // files and standard input
  { static char f[64]; snprintf(f, sizeof f, "/tmp/vbits.%d", (int)getpid());
    auto put = [&](const std::string &s) { FILE *o = fopen(f, "w"); if (o) { fputs(s.c_str(), o); fclose(o); } };
    std::string txt = str(A), sp; int at = (int)r.below(nr);
    static const std::vector<std::string> no = {"?", "x", "[", "]", "_", "q7", "%"};
    for (int i = 0; i < nr; i++) sp += str(A[i]) + (i == at ? " " + r.pick(no) : "") + "\n";
    put(txt); bit_matrix_t t; bool ok = t.load_from_file(f); CHECK(ok, "mload", show(a)); if (ok) EQM(t, a, "mload");
    put(sp); bit_matrix_t u(2, 2); CHECK(!u.load_from_file(f), "mload_malformed", sp);
    if (nr > 1) { std::string rg; for (int i = 0; i < nr; i++) rg += str(A[i]) + (i == at ? " 1\n" : "\n"); put(rg); CHECK(!u.load_from_file(f), "mload_ragged", rg); }
    put(""); CHECK(!u.load_from_file(f), "mload_empty", ""); unlink(f); CHECK(!u.load_from_file(f), "mload_missing", "");
    std::stringbuf in(r.coin() ? txt : sp); bool good = in.str() == txt; std::streambuf *o = std::cin.rdbuf(&in); std::cin.clear();
    bit_matrix_t w; ok = w.load_from_file((char *)(r.coin() ? "-" : "@")); std::cin.rdbuf(o); std::cin.clear();
    CHECK(ok == good, "mload_stdin", in.str()); if (ok && good) EQM(w, a, "mload_stdin"); }
  EQM(A, a, "moperands_kept"); EQM(B, b, "moperands_kept");
  // assignment in both directions
  { bit_matrix_t t = mkm(gen_mat(r, (int)r.range(1, 9), gen_len(r, 90))); bit_matrix_t keep = t; t = A; EQM(t, a, "massign"); t[0].toggle_element(0); EQM(A, a, "massign_independent"); t = keep; CHECK(t == keep, "massign_back", "shape"); t = t; CHECK(t == keep, "mself_assign", "shape"); }
}
