// Independent reference models.  Nothing here uses the library's arithmetic.
// The bodies are in ref.cpp, which is built without instrumentation.
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <algorithm>
#include "fw.h"

namespace ref {
// ---------------------------------------------------------------- integers
i64 emod(i64 a, i64 m);
i64 mulmod(i64 a, i64 b, i64 m);
i64 powmod(i64 a, u64 e, i64 m);
i64 gcd(i64 a, i64 b);
bool invmod(i64 a, i64 m, i64 &r);
bool is_prime(i64 n);
std::vector<std::pair<i64, int>> factor(i64 n);
i64 totient(i64 n);
std::vector<i64> divisors(i64 n);

// ---------------------------------------------------------------- fields
// GF(p)[t]/(m); m empty means GF(p).  m may be reducible (then a ring).
typedef std::vector<i64> E;
struct Fld {
  i64 p;
  std::vector<i64> m; // little endian, degree n, made monic
  int n;
  E zero, one;
  Fld();
  explicit Fld(i64 p_);
  Fld(i64 p_, std::vector<i64> m_);
  void init();
  u64 q() const;
  E fromint(i64 v) const;
  E index(u64 k) const;
  u64 toindex(const E &e) const;
  E random(Rng &r) const;
  E random_nz(Rng &r) const;
  E add(const E &a, const E &b) const;
  E sub(const E &a, const E &b) const;
  E neg(const E &a) const;
  E mul(const E &a, const E &b) const;
  E pow(E a, u64 e) const;
  E inv(const E &a) const; // only for fields
  bool lt(const E &a, const E &b) const;
};

// ---------------------------------------------------------------- polynomials over a field
typedef std::vector<E> Poly; // little endian, trimmed; zero = empty
struct PR {
  Fld F;
  PR();
  explicit PR(const Fld &f);
  void trim(Poly &a) const;
  static int deg(const Poly &a);
  static int libdeg(const Poly &a); // the library defines the degree of 0 as 0
  Poly cst(const E &e) const;
  Poly fromint(i64 v) const;
  Poly one() const;
  Poly X() const;
  Poly mono(const E &e, int d) const;
  Poly random(Rng &r, int maxdeg) const;
  Poly random_exact(Rng &r, int d) const;
  Poly random_monic(Rng &r, int d) const;
  Poly sparse(Rng &r, int d) const;
  Poly add(const Poly &a, const Poly &b) const;
  Poly neg(const Poly &a) const;
  Poly sub(const Poly &a, const Poly &b) const;
  Poly scale(const Poly &a, const E &e) const;
  Poly mul(const Poly &a, const Poly &b) const;
  void divmod(const Poly &a, const Poly &b, Poly &q, Poly &r) const;
  Poly mod(const Poly &a, const Poly &b) const;
  Poly div(const Poly &a, const Poly &b) const;
  Poly monic(const Poly &a) const;
  Poly gcd(Poly a, Poly b) const; // monic
  Poly pow(const Poly &a, u64 e) const;
  Poly mulmod(const Poly &a, const Poly &b, const Poly &m) const;
  Poly powmod(Poly a, u64 e, const Poly &m) const;
  bool invmod(const Poly &a, const Poly &m, Poly &inv) const;
  Poly deriv(const Poly &a) const;
  E eval(const Poly &a, const E &x) const;
  bool lt(const Poly &a, const Poly &b) const;
  Poly frob(const Poly &a, const Poly &m) const;
  bool irreducible(const Poly &f) const; // Rabin's test
  Poly random_irreducible(Rng &r, int d) const;
  Poly index(u64 k, int len) const;
  u64 toindex(const Poly &a) const;
  u64 hash(const Poly &a) const;
  std::string show(const Poly &a) const;
};
} // namespace ref
#endif
