// Generic containers against sequence models.
#include <fcntl.h>
#include <map>
#include <unistd.h>
#include "adapt.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tstack.h"
#include "spffl/containers/tvector.h"

// Element adaptors: a model value is an i64.
struct EInt {
  typedef int T;
  static const bool field = false;
  explicit EInt(Rng &) {}
  i64 unit(Rng &r) { return r.coin() ? -1 : 1; }
  i64 factor(i64 v) { return v; }
  i64 rnd(Rng &r) { return r.chance(1, 4) ? 0 : r.range(-40, 40); }
  T mk(i64 v) { return (int)v; }
  i64 un(const T &t) { return t; }
  i64 add(i64 a, i64 b) { return a + b; }
  i64 sub(i64 a, i64 b) { return a - b; }
  i64 mul(i64 a, i64 b) { return a * b; }
  bool lt(i64 a, i64 b) { return a < b; }
  bool inv(i64, i64 &) { return false; }
};
struct EMod {
  typedef intmod_t T;
  static const bool field = true;
  i64 p;
  explicit EMod(Rng &r) { p = AFp::pick_prime(r); }
  i64 unit(Rng &r) { return 1 + (i64)r.below(p - 1); }
  i64 factor(i64 v) { return v % p; }
  i64 rnd(Rng &r) { return r.chance(1, 4) ? 0 : (i64)r.below(p); }
  T mk(i64 v) { return intmod_t((int)v, (int)p); }
  i64 un(const T &t) { return t.get_modulus() == p ? t.get_residue() : -1000 - t.get_residue(); }
  i64 add(i64 a, i64 b) { return ref::emod(a + b, p); }
  i64 sub(i64 a, i64 b) { return ref::emod(a - b, p); }
  i64 mul(i64 a, i64 b) { return ref::mulmod(a, b, p); }
  bool lt(i64 a, i64 b) { return a < b; }
  bool inv(i64 a, i64 &o) { return ref::invmod(a, p, o); }
};
struct EBig {   // sums and products near the edge of 32 and 62 bits; no inverses (a totient of its own size each)
  typedef intmod_t T;
  static const bool field = false;
  i64 p;
  explicit EBig(Rng &r) { p = r.pick(std::vector<i64>{2147483647, 2147483629, 1073741827, 1073741824, 46349, 65536, 65537, 2147483646}); }
  i64 unit(Rng &) { return p - 1; }
  i64 factor(i64 v) { return v; }
  i64 rnd(Rng &r) { return r.chance(1, 4) ? 0 : r.chance(1, 3) ? p - 1 - (i64)r.below(3) : (i64)r.below(p); }
  T mk(i64 v) { return intmod_t((int)v, (int)p); }
  i64 un(const T &t) { return t.get_modulus() == p ? t.get_residue() : -1000 - t.get_residue(); }
  i64 add(i64 a, i64 b) { return ref::emod(a + b, p); }
  i64 sub(i64 a, i64 b) { return ref::emod(a - b, p); }
  i64 mul(i64 a, i64 b) { return ref::mulmod(a, b, p); }
  bool lt(i64 a, i64 b) { return a < b; }
  bool inv(i64, i64 &) { return false; }
};
struct EF2 {
  typedef f2_poly_t T;
  static const bool field = false;
  explicit EF2(Rng &) {}
  i64 unit(Rng &) { return 1; }
  i64 factor(i64 v) { return v; }
  i64 rnd(Rng &r) { return r.chance(1, 4) ? 0 : (i64)r.below(1 << 10); }
  T mk(i64 v) { T t(0); for (int i = 0; i < 40; i++) if (v >> i & 1) t.set_bit(i); return t; }
  i64 un(const T &t) { i64 v = 0; int d = t.find_degree(); if (d > 60) return -1; for (int i = 0; i <= d; i++) v |= (i64)t.bit_at(i) << i; return v; }
  i64 add(i64 a, i64 b) { return a ^ b; }
  i64 sub(i64 a, i64 b) { return a ^ b; }
  i64 mul(i64 a, i64 b) { i64 r = 0; for (int i = 0; i < 40; i++) if (b >> i & 1) r ^= a << i; return r; }
  bool lt(i64 a, i64 b) { return a < b; }
  bool inv(i64, i64 &) { return false; }
};
typedef std::vector<i64> V;
typedef std::vector<V> M;
static std::string show(const V &v) { std::string s; for (i64 x : v) { s += std::to_string(x); s += ' '; } return s; }
static std::string show(const M &m) { std::string s; for (auto &v : m) { s += show(v); s += "/ "; } return s; }
template <class E> static V gv(E &e, Rng &r, int n) { V v(n); for (auto &x : v) x = e.rnd(r); return v; }
template <class E> static tvector<typename E::T> mkv(E &e, const V &v) { tvector<typename E::T> t((int)v.size()); for (size_t i = 0; i < v.size(); i++) t[(int)i] = e.mk(v[i]); return t; }
template <class E> static V unv(E &e, const tvector<typename E::T> &t) { V v(t.get_num_elements()); for (size_t i = 0; i < v.size(); i++) v[i] = e.un(t[(int)i]); return v; }
static u64 hv(const V &v) { u64 h = v.size() + 3; for (i64 x : v) h = (h ^ (u64)x) * 1099511628211ULL; return h; }

#define EQV(expr, want, key)                                                   \
  do {                                                                         \
    auto got_ = (expr);                                                        \
    V w_ = (want);                                                             \
    CHECK(unv(e, got_) == w_, key, key << " gave " << show(unv(e, got_)) << " want " << show(w_)); \
  } while (0)

static std::string scratch(const char *txt) {
  static char name[64];
  snprintf(name, sizeof name, "/tmp/vcont.%d", (int)getpid());
  FILE *f = fopen(name, "w");
  if (f) { fputs(txt, f); fclose(f); }
  return name;
}

// what std::cin holds while one of these exists
struct Cin {
  std::stringbuf b; std::streambuf *o;
  explicit Cin(const std::string &s) : b(s), o(std::cin.rdbuf(&b)) { std::cin.clear(); }
  ~Cin() { std::cin.rdbuf(o); std::cin.clear(); }
};
static std::string dash(Rng &r) { return r.coin() ? "-" : "@"; }
// a line with something in it that is no value
template <class E> static std::string spoil(E &e, Rng &r, const std::string &line) {
  static const std::vector<std::string> no = {"?", "x", "[", "]", "_", "=", "q7", "(1)", "%"};
  (void)e;
  std::string b = r.pick(no);
  return r.coin() ? line + " " + b : b + " " + line;
}

template <class E> static void vec_case(Ctx &c) {
  typedef typename E::T T;
  typedef tvector<T> TV;
  Rng &r = c.rng;
  E e(r);
  int n = r.chance(1, 40) ? (int)r.range(46, 300) : r.chance(1, 6) ? (int)r.range(10, 45) : (int)r.range(1, 12);
  V x = gv(e, r, n), y = gv(e, r, n);
  if (r.chance(1, 8)) y = x;
  c.input(hv(x) * 31 + hv(y), n > 1);
  if (c.want_sample()) c.sample("x=" + show(x) + " y=" + show(y));
  TV X = mkv(e, x), Y = mkv(e, y);
  V s(n), d(n), p(n), ng(n), sc(n);
  i64 k = e.rnd(r), dot = 0;
  for (int i = 0; i < n; i++) { s[i] = e.add(x[i], y[i]); d[i] = e.sub(x[i], y[i]); p[i] = e.mul(x[i], y[i]); ng[i] = e.sub(0, x[i]); sc[i] = e.mul(x[i], k); dot = e.add(dot, p[i]); }
  EQV(X, x, "build"); EQV(TV(X), x, "copy");
  EQV(TV(e.mk(k), n), V(n, k), "fill_ctor");
  EQV(X + Y, s, "add"); EQV(X - Y, d, "sub"); EQV(-X, ng, "neg"); EQV(X * Y, p, "mul"); EQV(X * e.mk(k), sc, "scale");
  CHECK(e.un(X.dot(Y)) == dot, "dot", show(x) << " . " << show(y));
  { TV t = X; t += Y; EQV(t, s, "add_assign"); } { TV t = X; t -= Y; EQV(t, d, "sub_assign"); } { TV t = X; t *= Y; EQV(t, p, "mul_assign"); }
  { TV t = X; t *= e.mk(k); EQV(t, sc, "scale_assign"); } { TV t = X; t.mult_by(e.mk(k)); EQV(t, sc, "mult_by"); }
  { int i = (int)r.below(n); V w(n); for (int j = 0; j < n; j++) w[j] = e.mul(x[j], x[i]); TV t = X; t *= t[i]; EQV(t, w, "scale_by_own_element"); TV u = X; u.mult_by(u[i]); EQV(u, w, "scale_by_own_element"); }
  { TV t = X; t += t; V w(n); for (int j = 0; j < n; j++) w[j] = e.add(x[j], x[j]); EQV(t, w, "self_add"); t = X; t *= t; for (int j = 0; j < n; j++) w[j] = e.mul(x[j], x[j]); EQV(t, w, "self_mul"); t = X; t -= t; EQV(t, V(n, 0), "self_sub"); }
  { i64 a = e.rnd(r), b = e.rnd(r); TV t = X, u = Y; t.accum_row_mul(e.mk(a), e.mk(b), u); V w(n); for (int j = 0; j < n; j++) w[j] = e.sub(e.mul(x[j], a), e.mul(y[j], b)); EQV(t, w, "accum_row_mul"); EQV(u, y, "accum_row_mul_other"); }
  if (e.field) {
    i64 iv;
    if (e.inv(k, iv)) { V w(n); for (int j = 0; j < n; j++) w[j] = e.mul(x[j], iv); TV t = X; t /= e.mk(k); EQV(t, w, "div_assign"); }
    bool ok = true; V w(n); for (int j = 0; j < n; j++) { if (!e.inv(y[j], iv)) ok = false; else w[j] = e.mul(x[j], iv); }
    if (ok) EQV(X / Y, w, "div"); else REFUSED(X / Y, "div_zero", show(y));
    int i = (int)r.below(n);
    if (e.inv(x[i], iv)) { TV t = X; t /= t[i]; for (int j = 0; j < n; j++) w[j] = e.mul(x[j], iv); EQV(t, w, "div_by_own_element"); }
  }
  CHECK((X == Y) == (x == y) && (X != Y) == (x != y), "eq", show(x) << " vs " << show(y));
  { bool all = true; for (i64 v : x) if (v != k) all = false; CHECK((X == e.mk(k)) == all && (X != e.mk(k)) == !all, "eq_scalar", show(x)); TV t(e.mk(k), n); CHECK(t == e.mk(k), "eq_scalar", k); t = e.mk(0); EQV(t, V(n, 0), "fill_assign"); }
  { int lp = -1, want = -1; for (int i = 0; i < n && want < 0; i++) if (x[i]) want = i; bool has = X.find_leader_pos(e.mk(0), lp); CHECK(has == (want >= 0) && (!has || lp == want), "leader", show(x)); }
  { V w = x; std::sort(w.begin(), w.end(), [&](i64 a, i64 b) { return e.lt(a, b); }); TV t = X; t.sort(); EQV(t, w, "sort"); EQV(X, x, "sort_copy"); }
  { TV t = X, u = Y; t.ptrswap(u); EQV(t, y, "ptrswap"); EQV(u, x, "ptrswap"); }
  { int q = (int)r.range(1, n); TV t = X; t.trim_num_elements(q); EQV(t, V(x.begin(), x.begin() + q), "trim"); CHECK(t.get_num_elements() == q, "trim", q); TV big = mkv(e, gv(e, r, n + 5)); t = big; EQV(t, unv(e, big), "assign_after_trim"); t = X; EQV(t, x, "assign_after_trim"); }
  // text
  { std::string w = str(X), want; for (int i = 0; i < n; i++) { if (i) want += ' '; want += str(e.mk(x[i])); }
    CHECK(w == want, "print", w);
    TV t(e.mk(0), 1 + (int)r.below(3)); std::istringstream is(w); is >> t; CHECK(!is.fail(), "reads_back", w); if (!is.fail()) EQV(t, x, "reads_back");
    TV u(e.mk(0), 1); std::istringstream is2(w + "\nrest"); std::istream &ri = is2; ri >> u; CHECK(!is2.fail(), "reads_line", w); if (!is2.fail()) EQV(u, x, "reads_line");
    std::string br = std::string(r.coin() ? " " : "") + "[" + w + "]"; TV b(e.mk(0), 1); bool ok = b.bracket_in((char *)br.c_str()); CHECK(ok, "bracket_in", br); if (ok) EQV(b, x, "bracket_in");
    std::string bad = r.coin() ? w + "]" : "[" + w; if (r.chance(1, 3)) bad = "[" + w + "] " + "9"; TV z(e.mk(0), 1); CHECK(!z.bracket_in((char *)bad.c_str()), "bracket_bad", bad);
    std::string f = scratch((w + (r.coin() ? "\n" : "")).c_str()); TV l; ok = l.load_from_file((char *)f.c_str(), e.mk(0)); CHECK(ok, "load", w); if (ok) EQV(l, x, "load"); unlink(f.c_str());
    CHECK(!l.load_from_file((char *)"/tmp/vcont.none", e.mk(0)), "load_missing", "");
    { Cin in(w + "\n7"); std::string n = dash(r); TV q; ok = q.load_from_file((char *)n.c_str(), e.mk(0)); CHECK(ok, "load_stdin", w); if (ok) EQV(q, x, "load_stdin"); TV q2 = X; std::string rest; std::getline(std::cin, rest); CHECK(rest == "7", "load_stdin_rest", rest); CHECK(!q2.load_from_file((char *)n.c_str(), e.mk(0)), "load_stdin_end", n); }
    std::string sp = spoil(e, r, w); f = scratch((sp + "\n").c_str()); TV m; CHECK(!m.load_from_file((char *)f.c_str(), e.mk(0)), "load_malformed", sp); TV m2(e.mk(0), 2); CHECK(!m2.load_from_file((char *)f.c_str()), "load_malformed", sp); unlink(f.c_str());
    f = scratch(""); CHECK(!m.load_from_file((char *)f.c_str(), e.mk(0)), "load_empty", ""); unlink(f.c_str());
    { Cin in(sp + "\n"); TV q; CHECK(!q.load_from_file((char *)"-", e.mk(0)), "load_stdin_malformed", sp); } }
  REFUSED(X[n], "bounds", n); REFUSED(X[-1], "bounds", n); REFUSED(X[n + (int)r.below(1000)], "bounds", n);
  { TV L(e.mk(0), n + 1); REFUSED(X + L, "length", n); REFUSED(X - L, "length", n); REFUSED(X * L, "length", n); REFUSED(X.dot(L), "length", n); REFUSED(X += L, "length", n); REFUSED(X *= L, "length", n); REFUSED(X.ptrswap(L), "length", n); REFUSED(X.accum_row_mul(e.mk(0), e.mk(0), L), "length", n); CHECK(X != L && !(X == L), "eq_length", n); }
  { TV t = X; REFUSED(t.trim_num_elements(n + 1), "trim_bounds", n); REFUSED(t.trim_num_elements(0), "trim_bounds", n); EQV(t, x, "kept"); }
  REFUSED(TV(0), "size", 0); REFUSED(TV(-3), "size", 0); REFUSED(TV(e.mk(0), 0), "size", 0);
  { TV z, z2(z), z3 = X; z3 = z; CHECK(z.get_num_elements() == 0 && z2.get_num_elements() == 0 && z3.get_num_elements() == 0 && z == z2 && z != X, "empty", ""); z3 = X; EQV(z3, x, "empty_refill"); z = e.mk(k); EQV(z, V(1, k), "empty_scalar"); z2 = Y; EQV(z2, y, "empty_refill"); }
  EQV(X, x, "operands_kept"); EQV(Y, y, "operands_kept");
}
SECTION(tvec_int) {
  vec_case<EInt>(c);
}
SECTION(tvec_mod) {
  vec_case<EMod>(c);
  EMod e(c.rng);
  int n = (int)c.rng.range(1, 8), k = (int)c.rng.range(1, 30);
  V x = gv(e, c.rng, n), w(n);
  for (int i = 0; i < n; i++) w[i] = ref::powmod(x[i], k, e.p);
  EQV(mkv(e, x).exp(k), w, "vexp");
}
SECTION(tvec_f2) { vec_case<EF2>(c); }
SECTION(tvec_big) { vec_case<EBig>(c); }

// ------------------------------------------------------------------ matrices
template <class E> static tmatrix<typename E::T> mkm(E &e, const M &m) { tmatrix<typename E::T> t((int)m.size(), (int)m[0].size()); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m[0].size(); j++) t[(int)i][(int)j] = e.mk(m[i][j]); return t; }
template <class E> static M unm(E &e, const tmatrix<typename E::T> &t) { M m; for (int i = 0; i < t.get_num_rows(); i++) m.push_back(unv(e, t[i])); return m; }
template <class E> static M gm(E &e, Rng &r, int a, int b) { M m; for (int i = 0; i < a; i++) m.push_back(gv(e, r, b)); return m; }
template <class E> static M mmul(E &e, const M &a, const M &b) { M m(a.size(), V(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) m[i][j] = e.add(m[i][j], e.mul(a[i][k], b[k][j])); return m; }
#define EQM(expr, want, key)                                                   \
  do {                                                                         \
    auto got_ = (expr);                                                        \
    M w_ = (want);                                                             \
    CHECK(unm(e, got_) == w_ && got_.get_num_rows() == (int)w_.size() && got_.get_num_cols() == (int)w_[0].size(), key, key << " gave " << show(unm(e, got_)) << " want " << show(w_)); \
  } while (0)

template <class E> static void mat_case(Ctx &c) {
  typedef typename E::T T;
  typedef tvector<T> TV;
  typedef tmatrix<T> TM;
  Rng &r = c.rng;
  E e(r);
  int nr = (int)r.range(1, 7), nc = r.chance(1, 3) ? nr : (int)r.range(1, 7);
  if (r.chance(1, 10)) nr = (int)r.range(8, 23);
  if (r.chance(1, 30)) nc = r.coin() ? nr : (int)r.range(8, 40);
  M a = gm(e, r, nr, nc), b = gm(e, r, nr, nc);
  if (r.chance(1, 8)) b = a;
  u64 h = 1; for (auto &v : a) h = h * 31 + hv(v);
  c.input(h, nr * nc > 1);
  if (c.want_sample()) c.sample(show(a));
  TM A = mkm(e, a), B = mkm(e, b);
  EQM(A, a, "mbuild"); EQM(TM(A), a, "mcopy");
  i64 k = e.rnd(r);
  M s = a, d = a, ng = a, sc = a;
  for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { s[i][j] = e.add(a[i][j], b[i][j]); d[i][j] = e.sub(a[i][j], b[i][j]); ng[i][j] = e.sub(0, a[i][j]); sc[i][j] = e.mul(a[i][j], k); }
  EQM(A + B, s, "madd"); EQM(A - B, d, "msub"); EQM(-A, ng, "mneg"); EQM(A * e.mk(k), sc, "mscale");
  { TM t = A; t += B; EQM(t, s, "madd_assign"); t = A; t -= B; EQM(t, d, "msub_assign"); t = A; t *= e.mk(k); EQM(t, sc, "mscale_assign"); t = A; t -= t; EQM(t, M(nr, V(nc, 0)), "mself_sub"); }
  { int q = (int)r.range(1, 6); M x = gm(e, r, nc, q); EQM(A * mkm(e, x), mmul(e, a, x), "mmul"); TM t = A; t *= mkm(e, x); EQM(t, mmul(e, a, x), "mmul_assign"); }
  { V v = gv(e, r, nc), w(nr, 0); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w[i] = e.add(w[i], e.mul(a[i][j], v[j])); EQV(A * mkv(e, v), w, "matvec"); REFUSED(A * TV(e.mk(0), nc + 1), "mshape", nc); }
  { V v = gv(e, r, nr), w(nc, 0); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w[j] = e.add(w[j], e.mul(v[i], a[i][j])); EQV(mkv(e, v) * A, w, "vecmat"); REFUSED(TV(e.mk(0), nr + 1) * A, "mshape", nr); }
  { V u = gv(e, r, nr), v = gv(e, r, nc); M w(nr, V(nc)); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) w[i][j] = e.mul(u[i], v[j]); EQM(TM::outer(mkv(e, u), mkv(e, v)), w, "outer"); }
  M t1(nc, V(nr)), fh = a, fv = a, fb = a;
  for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) { t1[j][i] = a[i][j]; fh[i][j] = a[i][nc - 1 - j]; fv[i][j] = a[nr - 1 - i][j]; fb[i][j] = a[nr - 1 - i][nc - 1 - j]; }
  EQM(A.transpose(), t1, "transpose"); EQM(A.flip_horiz(), fh, "flip_horiz"); EQM(A.flip_vert(), fv, "flip_vert"); EQM(A.flip_horiz_vert(), fb, "flip_hv");
  CHECK((A == B) == (a == b) && (A != B) == (a != b), "meq", show(a));
  { TM t(e.mk(k), nr, nc); EQM(t, M(nr, V(nc, k)), "mfill"); CHECK(t == e.mk(k) && !(t != e.mk(k)), "meq_scalar", k); TM u = A; u = e.mk(k); EQM(u, M(nr, V(nc, k)), "mfill_assign"); bool all = a == M(nr, V(nc, k)); CHECK((A == e.mk(k)) == all, "meq_scalar", show(a)); }
  { int j = (int)r.below(nc); V col(nr); for (int i = 0; i < nr; i++) col[i] = a[i][j]; EQV(A.get_column(j), col, "get_column"); V nv = gv(e, r, nr); TV NV = mkv(e, nv); TM t = A; t.put_column(j, NV); M w = a; for (int i = 0; i < nr; i++) w[i][j] = nv[i]; EQM(t, w, "put_column"); EQM(A, a, "put_column_copy"); TV L(e.mk(0), nr + 1); REFUSED(t.put_column(j, L), "mshape", nr); REFUSED(t.put_column(nc, NV), "mbounds", nc); REFUSED(A.get_column(nc), "mbounds", nc); REFUSED(A.get_column(-1), "mbounds", nc); EQM(t, w, "put_column_kept"); }
  { int q = (int)r.range(1, 5); M x = gm(e, r, nr, q); TM X = mkm(e, x); TM p = A.paste(X); M w = a; for (int i = 0; i < nr; i++) w[i].insert(w[i].end(), x[i].begin(), x[i].end()); EQM(p, w, "paste"); int q2 = (int)r.range(1, nc + q - 1); TM l, g; p.split(l, g, q2); M wl, wr; for (auto &v : w) { wl.push_back(V(v.begin(), v.begin() + q2)); wr.push_back(V(v.begin() + q2, v.end())); } EQM(l, wl, "split"); EQM(g, wr, "split"); REFUSED(p.split(l, g, nc + q), "mbounds", "split"); REFUSED(p.split(l, g, -1), "mbounds", "split"); TM Z(e.mk(0), nr + 1, 1); REFUSED(A.paste(Z), "mshape", "paste");
    V nv = gv(e, r, nr); M w2 = a; for (int i = 0; i < nr; i++) w2[i].push_back(nv[i]); EQM(A.paste_vector(mkv(e, nv)), w2, "paste_vector"); REFUSED(A.paste_vector(TV(e.mk(0), nr + 1)), "mshape", "paste_vector"); }
  { int i = (int)r.below(nr), j = (int)r.below(nr); TM t = A; t.swap(i, j); M w = a; std::swap(w[i], w[j]); EQM(t, w, "swap"); REFUSED(t.swap(nr, 0), "mbounds", "swap"); REFUSED(t.swap(0, -1), "mbounds", "swap"); }
  { int i = (int)r.below(nr); TV row = mkv(e, a[i]); int idx = -1; bool f = A.find_row(row, idx); CHECK(f && idx >= 0 && idx <= i && a[idx] == a[i], "find_row", show(a)); V o = gv(e, r, nc); TV O = mkv(e, o); bool any = false; for (auto &v : a) if (v == o) any = true; CHECK(A.find_row(O, idx) == any, "find_row", show(o)); }
  { int q = (int)r.range(1, nr); TM t = A; t.trim_num_rows(q); M w(a.begin(), a.begin() + q); EQM(t, w, "trim_rows"); t = A; EQM(t, a, "assign_after_trim"); REFUSED(t.trim_num_rows(nr + 1), "mbounds", "trim"); REFUSED(t.trim_num_rows(0), "mbounds", "trim"); }
  if (nr == nc) {
    M p = a, q = a; for (int i = 0; i < nr; i++) { p[i][i] = e.add(a[i][i], k); q[i][i] = e.sub(a[i][i], k); }
    EQM(A + e.mk(k), p, "madd_scalar"); EQM(A - e.mk(k), q, "msub_scalar"); { TM t = A; t += e.mk(k); EQM(t, p, "madd_scalar_assign"); t = A; t -= e.mk(k); EQM(t, q, "msub_scalar_assign"); }
    M id(nr, V(nr, 0)); for (int i = 0; i < nr; i++) id[i][i] = 1;
    EQM(A.make_I(e.mk(0), e.mk(1)), id, "make_I");
  } else { REFUSED(A + e.mk(k), "nonsquare", "+"); REFUSED(A - e.mk(k), "nonsquare", "-"); REFUSED(A.make_I(e.mk(0), e.mk(1)), "nonsquare", "I"); }
  CHECK(A.is_square() == (nr == nc), "is_square", nr << "x" << nc);
  // text
  { std::string w = str(A); TM t(e.mk(0), 1, 1); std::string pre = r.chance(1, 3) ? "# comment\n\n" : ""; if (r.chance(1, 4)) w = "   " + w; if (r.chance(1, 4)) w.pop_back(); else if (r.chance(1, 3)) w += "\n1 1\n"; std::istringstream is(pre + w); is >> t; CHECK(!is.fail(), "mreads_back", w); if (!is.fail()) EQM(t, a, "mreads_back");
    std::string br = "["; for (int i = 0; i < nr; i++) br += std::string(r.coin() ? " " : "") + "[" + str(A[i]) + "]" + (r.coin() ? " " : ""); br += "]"; TM u(e.mk(0), 1, 1); bool ok = u.bracket_in((char *)br.c_str()); CHECK(ok, "mbracket_in", br); if (ok) EQM(u, a, "mbracket_in");
    std::string bad = br; switch (r.below(4)) { case 0: bad.pop_back(); if (nr == 1) bad = str(A[0]); break; case 1: bad = bad.substr(0, bad.size() - 1) + " 1]"; break; case 2: bad += "x"; break; default: if (nr > 1) bad = "[[" + str(A[0]) + " 1] " + bad.substr(1); else bad = "7" + bad; }
    TM z(e.mk(0), 1, 1); if (bad.find('[') != std::string::npos || nr > 1) CHECK(!z.bracket_in((char *)bad.c_str()), "mbracket_bad", bad);
    std::string f = scratch(str(A).c_str()); TM l; ok = l.load_from_file((char *)f.c_str(), e.mk(0)); CHECK(ok, "mload", w); if (ok) EQM(l, a, "mload"); unlink(f.c_str());
    ok = A.store_to_file((char *)f.c_str()); CHECK(ok, "mstore", f); TM l2; ok = l2.load_from_file((char *)f.c_str(), e.mk(0)); CHECK(ok, "mstore", f); if (ok) EQM(l2, a, "mstore"); unlink(f.c_str());
    { Cin in(str(A)); std::string n = dash(r); TM q; ok = q.load_from_file((char *)n.c_str(), e.mk(0)); CHECK(ok, "mload_stdin", w); if (ok) EQM(q, a, "mload_stdin"); }
    std::string sp; int at = (int)r.below(nr); for (int i = 0; i < nr; i++) sp += (i == at ? spoil(e, r, str(A[i])) : str(A[i])) + "\n";
    f = scratch(sp.c_str()); TM m; CHECK(!m.load_from_file((char *)f.c_str(), e.mk(0)), "mload_malformed", sp); TM m2(e.mk(0), 1, 1); CHECK(!m2.load_from_file((char *)f.c_str()), "mload_malformed", sp); unlink(f.c_str());
    { Cin in(sp); TM q; CHECK(!q.load_from_file((char *)"@", e.mk(0)), "mload_stdin_malformed", sp); }
    if (nr > 1) { std::string rg; for (int i = 0; i < nr; i++) rg += str(A[i]) + (i == at ? " " + str(e.mk(0)) : "") + "\n"; f = scratch(rg.c_str()); CHECK(!m.load_from_file((char *)f.c_str(), e.mk(0)), "mload_ragged", rg); unlink(f.c_str()); }
    CHECK(!m.load_from_file((char *)"/tmp/vcont.none", e.mk(0)), "mload_missing", ""); CHECK(!m2.load_from_file((char *)"/tmp/vcont.none"), "mload_missing", ""); f = scratch(""); CHECK(!m.load_from_file((char *)f.c_str(), e.mk(0)), "mload_empty", ""); unlink(f.c_str());
    CHECK(!A.store_to_file((char *)"/tmp/vcont.none/x"), "mstore_nowhere", ""); }
  REFUSED(A[nr], "mbounds", nr); REFUSED(A[-1], "mbounds", nr); REFUSED(A[0][nc], "mbounds", nc);
  { TM Z(e.mk(0), nr, nc + 1); REFUSED(A + Z, "mshape", "+"); REFUSED(A - Z, "mshape", "-"); TM Y(e.mk(0), nc + 1, 2); REFUSED(A * Y, "mshape", "*"); REFUSED(A += Z, "mshape", "+="); }
  REFUSED(TM(0, 2), "msize", 0); REFUSED(TM(2, -1), "msize", 0); REFUSED(TM(e.mk(0), 0, 1), "msize", 0);
  { TM z, z2(z), z3 = A; z3 = z; CHECK(z.get_num_rows() == 0 && z2.get_num_rows() == 0 && z3.get_num_rows() == 0, "mempty", ""); z3 = A; EQM(z3, a, "mempty_refill"); z = e.mk(k); EQM(z, M(1, V(1, k)), "mempty_scalar"); z2 = B; EQM(z2, b, "mempty_refill"); }
  EQM(A, a, "moperands_kept"); EQM(B, b, "moperands_kept");
}
SECTION(tmat_mod) { mat_case<EMod>(c); }
SECTION(tmat_f2) { mat_case<EF2>(c); }
SECTION(tmat_big) { mat_case<EBig>(c); }
SECTION(tmat_int) { mat_case<EInt>(c); }

// ------------------------------------------------------------------ stacks
template <class E> static void stack_case(Ctx &c) {
  typedef typename E::T T;
  Rng &r = c.rng;
  E e(r);
  const int K = 3;
  std::vector<tstack<T> *> s;
  std::vector<V> m(K);
  for (int i = 0; i < K; i++) s.push_back(new tstack<T>());
  u64 h = 5;
  int steps = (int)r.range(20, c.thorough ? 400 : 120), bias = (int)r.range(2, 8);
  for (int k = 0; k < steps; k++) {
    int i = (int)r.below(K), j = (int)r.below(K);
    int op = (int)r.below(bias + 5);
    h = h * 131 + op * 9 + i * 3 + j;
    if (op < bias) { i64 v = e.rnd(r); s[i]->push(e.mk(v)); m[i].push_back(v); }
    else if (op < bias + 3) { T t = e.mk(0); bool ok = s[i]->pop(t); CHECK(ok == !m[i].empty(), "pop_empty", "stack of " << m[i].size()); if (ok && !m[i].empty()) { CHECK(e.un(t) == m[i].back(), "pop", e.un(t) << " want " << m[i].back()); m[i].pop_back(); } }
    else if (op == bias + 3) { *s[i] = *s[j]; m[i] = m[j]; c.event("assign"); }
    else { tstack<T> *n = new tstack<T>(*s[j]); delete s[i]; s[i] = n; if (i != j) m[i] = m[j]; c.event("copy"); }
  }
  c.input(h);
  if (c.want_sample()) c.sample("stack history of " + std::to_string(steps) + " steps");
  for (int i = 0; i < K; i++) { T t = e.mk(0); while (s[i]->pop(t)) { if (m[i].empty()) { CHECK(false, "drain", "extra element"); break; } CHECK(e.un(t) == m[i].back(), "drain", e.un(t) << " want " << m[i].back()); m[i].pop_back(); } CHECK(m[i].empty(), "drain", m[i].size() << " elements lost"); delete s[i]; }
}
SECTION(tstack_int) { stack_case<EInt>(c); }
SECTION(tstack_f2) { stack_case<EF2>(c); }

// ------------------------------------------------------------------ factor lists
struct Fac { std::map<i64, int> m; bool hu = false; i64 u = 1; };
template <class E> static void fac_case(Ctx &c) {
  typedef typename E::T T;
  typedef tfacinfo<T> F;
  Rng &r = c.rng;
  E e(r);
  const int K = 3;
  std::vector<F> f(K);
  std::vector<Fac> m(K);
  u64 h = 11;
  int univ = r.chance(1, 3) ? 70 : (int)r.range(2, 12);
  int steps = univ > 20 ? (int)r.range(40, 160) : (int)r.range(5, 40);
  for (int k = 0; k < steps; k++) {
    int i = (int)r.below(K), j = (int)r.below(K), op = (int)r.below(univ > 20 ? 30 : 12);
    i64 v = e.factor(2 + (i64)r.below(univ));
    h = h * 131 + op * 99 + i * 33 + j * 11 + v;
    switch (op) {
    case 0: f[i] = f[j]; m[i] = m[j]; c.event("assign"); break;
    case 1: { F t(f[j]); f[i] = t; m[i] = m[j]; t.insert_factor(e.mk(v)); break; }
    case 2: { i64 tot = 0; for (auto &q : m[i].m) tot += q.second; for (auto &q : m[j].m) tot += q.second; if (tot < 4000) { f[i].merge(f[j]); Fac o = m[j]; for (auto &q : o.m) m[i].m[q.first] += q.second; if (o.hu) { m[i].u = m[i].hu ? e.mul(m[i].u, o.u) : o.u; m[i].hu = true; } c.event("merge"); } break; }
    case 3: { i64 u = e.unit(r); f[i].insert_unit(e.mk(u)); m[i].u = m[i].hu ? e.mul(m[i].u, u) : u; m[i].hu = true; c.event("unit"); break; }
    case 4: { i64 tot = 0; for (auto &q : m[i].m) tot += q.second; if (tot < 1000) { int p = (int)r.range(1, 3); f[i].exp_all(p); for (auto &q : m[i].m) q.second *= p; if (m[i].hu) { i64 u = m[i].u; for (int q = 1; q < p; q++) m[i].u = e.mul(m[i].u, u); } } break; }
    case 5: { int cnt = (int)r.range(1, 5); f[i].insert_factor(e.mk(v), cnt); m[i].m[v] += cnt; break; }
    default: f[i].insert_factor(e.mk(v)); m[i].m[v]++;
    }
    for (int q = 0; q < K; q++) {
      int nd = f[q].get_num_distinct(), tot = 0;
      for (auto &w : m[q].m) tot += w.second;
      CHECK(nd == (int)m[q].m.size(), "distinct", nd << " want " << m[q].m.size());
      CHECK(f[q].get_num_factors() == tot, "num_factors", f[q].get_num_factors() << " want " << tot);
      int x = 0;
      for (auto &w : m[q].m) { if (x >= nd) break; CHECK(e.un(f[q].get_ith_factor(x)) == w.first && f[q].get_ith_count(x) == w.second, "entry", "list " << q << " entry " << x << " after op " << op); x++; }
      T u = e.mk(0);
      bool hu = f[q].get_unit(u);
      CHECK(hu == m[q].hu && (!hu || e.un(u) == m[q].u), "unit", "list " << q);
    }
    REFUSED(f[i].get_ith_factor(f[i].get_num_distinct()), "bounds", "factor"); REFUSED(f[i].get_ith_count(-1), "bounds", "count");
  }
  c.input(h);
  if (c.want_sample()) c.sample("factor list history of " + std::to_string(steps) + " steps over " + std::to_string(univ) + " factors, printed " + str(f[0]));
  std::string want; if (m[0].hu) want = str(e.mk(m[0].u)); for (auto &w : m[0].m) { if (!want.empty()) want += ' '; want += str(e.mk(w.first)); if (w.second != 1) want += "^" + std::to_string(w.second); }
  CHECK(str(f[0]) == want, "print", str(f[0]) << " want " << want);
}
SECTION(tfac_int) { fac_case<EInt>(c); }
SECTION(tfac_mod) { fac_case<EMod>(c); }
SECTION(tfac_f2) { fac_case<EF2>(c); }
