// Bridges between reference polynomials and the library's polynomial types.
#ifndef VERIF_ADAPT_H
#define VERIF_ADAPT_H
#include "ref.h"
#include "spffl/polynomials/f2_poly_t.h"
#include "spffl/polynomials/f2_polymod_t.h"
#include "spffl/polynomials/f2n_poly_t.h"
#include "spffl/polynomials/f2n_polymod_t.h"
#include "spffl/polynomials/fp_poly_t.h"
#include "spffl/polynomials/fp_polymod_t.h"
#include "spffl/polynomials/fpn_poly_t.h"
#include "spffl/polynomials/fpn_polymod_t.h"

using namespace spffl::polynomials;
using spffl::bits::bit_t;
using spffl::intmath::intmod_t;
using ref::E;
using ref::Fld;
using ref::PR;
using ref::Poly;

static inline f2_poly_t mk_f2(const std::vector<i64> &m) {
  f2_poly_t r(0);
  for (size_t i = 0; i < m.size(); i++) if (m[i] & 1) r.set_bit((int)i);
  return r;
}
static inline fp_poly_t mk_fp(const std::vector<i64> &m, int p) {
  fp_poly_t r(0, p);
  for (int i = (int)m.size() - 1; i >= 0; i--) if (m[i]) r.set_coeff(i, intmod_t((int)m[i], p));
  return r;
}

struct AF2 {
  typedef f2_poly_t P; typedef bit_t S; typedef f2_polymod_t PM;
  static const bool has_scalar = false;
  PR R;
  static const char *nm() { return "f2"; }
  explicit AF2(Rng &) : R(Fld(2)) {}
  explicit AF2(const Fld &f) : R(f) {}
  P to(const Poly &a) const { P r(0); for (size_t i = 0; i < a.size(); i++) if (a[i][0]) r.set_bit((int)i); return r; }
  Poly from(const P &a) const { Poly r; int d = a.find_degree(); for (int i = 0; i <= d; i++) r.push_back(E(1, a.bit_at(i))); R.trim(r); return r; }
  bool normal(const P &a) const { return true; }
  S sto(const E &e) const { return bit_t((int)e[0]); }
  E sfrom(const S &s) const { return E(1, s.get_residue()); }
};
struct AFp {
  typedef fp_poly_t P; typedef intmod_t S; typedef fp_polymod_t PM;
  static const bool has_scalar = true;
  PR R; int p;
  static const char *nm() { return "fp"; }
  static i64 pick_prime(Rng &r) {
    static const std::vector<i64> small = {2, 3, 3, 5, 5, 7, 7, 11, 13, 17, 31, 101};
    static const std::vector<i64> mid = {257, 1009, 7919, 32749, 46337};
    static const std::vector<i64> big = {46349, 65521, 65537};
    int k = (int)r.below(20);
    if (k < 15) return r.pick(small);
    if (k < 18) return r.pick(mid);
    return r.pick(big);
  }
  AFp(Rng &, i64 q) : R(Fld(q)), p((int)q) {}
  explicit AFp(Rng &r) : R(Fld(pick_prime(r))), p((int)R.F.p) {}
  explicit AFp(const Fld &f) : R(f), p((int)f.p) {}
  P to(const Poly &a) const {
    P r(0, p);
    for (int i = ref::PR::deg(a); i >= 0; i--) r.set_coeff(i, intmod_t((int)a[i][0], p));
    return r;
  }
  Poly from(const P &a) const {
    Poly r;
    int d = a.find_degree();
    for (int i = 0; i <= d; i++) r.push_back(E(1, a.get_coeff(i).get_residue()));
    R.trim(r);
    return r;
  }
  // canonical form: no leading zero, every coefficient in range and over p
  bool normal(const P &a) const {
    int d = a.find_degree();
    for (int i = 0; i <= d; i++) {
      intmod_t k = a.get_coeff(i);
      if (k.get_modulus() != p || k.get_residue() < 0 || k.get_residue() >= p) return false;
    }
    return d == 0 || a.get_coeff(d).get_residue() != 0;
  }
  S sto(const E &e) const { return intmod_t((int)e[0], p); }
  E sfrom(const S &s) const { return E(1, s.get_residue()); }
};
struct AF2n {
  typedef f2n_poly_t P; typedef f2_polymod_t S; typedef f2n_polymod_t PM;
  static const bool has_scalar = true;
  PR R; f2_poly_t m;
  static const char *nm() { return "f2n"; }
  static Fld pick(Rng &r) {
    int n = (int)r.range(1, 6);
    if (r.chance(1, 12)) n = (int)r.range(7, 14);
    PR b{Fld(2)};
    Poly f = b.random_irreducible(r, n);
    std::vector<i64> m;
    for (auto &e : f) m.push_back(e[0]);
    return Fld(2, m);
  }
  explicit AF2n(Rng &r) : R(pick(r)), m(mk_f2(R.F.m)) {}
  explicit AF2n(const Fld &f) : R(f), m(mk_f2(f.m)) {}
  S sto(const E &e) const { return f2_polymod_t(mk_f2(e), m); }
  E sfrom(const S &s) const { f2_poly_t r = s.get_residue(); E e = R.F.zero; int d = r.find_degree(); for (int i = 0; i <= d && i < R.F.n; i++) e[i] = r.bit_at(i); return e; }
  P to(const Poly &a) const {
    P r(sto(R.F.zero));
    for (int i = ref::PR::deg(a); i >= 0; i--) r.set_coeff(i, sto(a[i]));
    return r;
  }
  Poly from(const P &a) const {
    Poly r;
    int d = a.find_degree();
    for (int i = 0; i <= d; i++) r.push_back(sfrom(a.get_coeff(i)));
    R.trim(r);
    return r;
  }
  bool normal(const P &a) const {
    int d = a.find_degree();
    for (int i = 0; i <= d; i++) {
      S k = a.get_coeff(i);
      if (k.get_modulus() != m) return false;
      f2_poly_t rr = k.get_residue();
      if (rr != 0 && rr.find_degree() >= R.F.n) return false;
    }
    return d == 0 || a.get_coeff(d).get_residue() != 0;
  }
};
struct AFpn {
  typedef fpn_poly_t P; typedef fp_polymod_t S; typedef fpn_polymod_t PM;
  static const bool has_scalar = true;
  PR R; int p; fp_poly_t m;
  static const char *nm() { return "fpn"; }
  static Fld pick(Rng &r) {
    static const std::vector<i64> ps = {2, 3, 3, 5, 7, 11};
    i64 p = r.pick(ps);
    int n = (int)r.range(1, p <= 3 ? 4 : 2);
    PR b{Fld(p)};
    Poly f = b.random_irreducible(r, n);
    std::vector<i64> m;
    for (auto &e : f) m.push_back(e[0]);
    return Fld(p, m);
  }
  explicit AFpn(Rng &r) : R(pick(r)), p((int)R.F.p), m(mk_fp(R.F.m, p)) {}
  explicit AFpn(const Fld &f) : R(f), p((int)f.p), m(mk_fp(f.m, p)) {}
  S sto(const E &e) const { return fp_polymod_t(mk_fp(e, p), m); }
  E sfrom(const S &s) const { fp_poly_t r = s.get_residue(); E e = R.F.zero; int d = r.find_degree(); for (int i = 0; i <= d && i < R.F.n; i++) e[i] = r.get_coeff(i).get_residue(); return e; }
  P to(const Poly &a) const {
    P r(sto(R.F.zero));
    for (int i = ref::PR::deg(a); i >= 0; i--) r.set_coeff(i, sto(a[i]));
    return r;
  }
  Poly from(const P &a) const {
    Poly r;
    int d = a.find_degree();
    for (int i = 0; i <= d; i++) r.push_back(sfrom(a.get_coeff(i)));
    R.trim(r);
    return r;
  }
  bool normal(const P &a) const {
    int d = a.find_degree();
    for (int i = 0; i <= d; i++) {
      S k = a.get_coeff(i);
      if (k.get_modulus() != m) return false;
      fp_poly_t rr = k.get_residue();
      if (rr != 0 && rr.find_degree() >= R.F.n) return false;
    }
    return d == 0 || a.get_coeff(d).get_residue() != fp_poly_t(0, p);
  }
};

// Operand degrees that stress each representation.
template <class A> int pick_deg(Rng &r) {
  if (r.chance(1, 150)) { // far above the ordinary sizes
    if (std::string(A::nm()) == "f2") return r.coin() ? r.pick(std::vector<int>{511, 512, 513, 1023, 1024, 1025}) : (int)r.below(1300);
    return (int)r.below(std::string(A::nm()) == "fp" ? 150 : 24);
  }
  if (std::string(A::nm()) == "f2") {
    static const std::vector<int> d = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 191, 192, 193, 255, 256, 257, 320};
    return r.chance(1, 3) ? (int)r.below(140) : r.pick(d);
  }
  if (std::string(A::nm()) == "fp") return r.chance(1, 10) ? (int)r.below(40) : (int)r.below(12);
  return (int)r.below(7);
}
template <class A> Poly gen_poly(const A &a, Rng &r) {
  int k = (int)r.below(16);
  int d = pick_deg<A>(r);
  if (k == 0) return Poly();
  if (k == 1) return a.R.one();
  if (k == 2) return a.R.cst(a.R.F.random(r));
  if (k == 3) return a.R.mono(a.R.F.random_nz(r), d);
  if (k == 4) return a.R.sparse(r, d);
  if (k == 5) { Poly f(d + 1, a.R.F.one); return f; }           // all ones
  if (k == 6) { Poly f = a.R.mono(a.R.F.one, d); return a.R.sub(f, a.R.one()); }
  if (k <= 8) return a.R.random_monic(r, d);
  return a.R.random_exact(r, d);
}
#endif
