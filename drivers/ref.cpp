#include "ref.h"

namespace ref {
// ---------------------------------------------------------------- integers
i64 emod(i64 a, i64 m) { i64 r = a % m; return r < 0 ? r + m : r; }
i64 mulmod(i64 a, i64 b, i64 m) { return (i64)((i128)a * b % m); }
i64 powmod(i64 a, u64 e, i64 m) {
  i64 r = 1 % m; a = emod(a, m);
  while (e) { if (e & 1) r = mulmod(r, a, m); a = mulmod(a, a, m); e >>= 1; }
  return r;
}
i64 gcd(i64 a, i64 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i64 t = a % b; a = b; b = t; } return a; }
bool invmod(i64 a, i64 m, i64 &r) {
  i64 r0 = m, r1 = emod(a, m), t0 = 0, t1 = 1;
  while (r1) { i64 q = r0 / r1; i64 t = r0 - q * r1; r0 = r1; r1 = t; t = t0 - q * t1; t0 = t1; t1 = t; }
  if (r0 != 1) return false;
  r = emod(t0, m);
  return true;
}
bool is_prime(i64 n) {
  if (n < 0) n = -n;
  if (n < 2) return false;
  for (i64 d : {2, 3, 5, 7, 11, 13}) { if (n % d == 0) return n == d; }
  i64 d = n - 1; int s = 0;
  while (!(d & 1)) { d >>= 1; s++; }
  for (i64 a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
    if (a % n == 0) continue;
    i64 x = powmod(a, d, n);
    if (x == 1 || x == n - 1) continue;
    bool comp = true;
    for (int i = 1; i < s; i++) { x = mulmod(x, x, n); if (x == n - 1) { comp = false; break; } }
    if (comp) return false;
  }
  return true;
}
std::vector<std::pair<i64, int>> factor(i64 n) {
  std::vector<std::pair<i64, int>> v;
  if (n < 0) n = -n;
  if (n == 0) return v;
  for (i64 d = 2; d * d <= n; d += 1 + (d & 1)) {
    int k = 0;
    while (n % d == 0) { n /= d; k++; }
    if (k) v.push_back({d, k});
  }
  if (n > 1) v.push_back({n, 1});
  return v;
}
i64 totient(i64 n) { i64 r = n; for (auto &f : factor(n)) r = r / f.first * (f.first - 1); return r; }
std::vector<i64> divisors(i64 n) {
  std::vector<i64> v;
  if (n < 0) n = -n;
  for (i64 d = 1; d * d <= n; d++) if (n % d == 0) { v.push_back(d); if (d * d != n) v.push_back(n / d); }
  std::sort(v.begin(), v.end());
  return v;
}

// ---------------------------------------------------------------- fields
Fld::Fld() : p(2), n(1) { init(); }
Fld::Fld(i64 p_) : p(p_), n(1) { init(); }
Fld::Fld(i64 p_, std::vector<i64> m_) : p(p_), m(m_), n((int)m_.size() - 1) {
  i64 iv = 1;
  invmod(m.back(), p, iv);
  for (auto &x : m) x = mulmod(x, iv, p);
  init();
}
void Fld::init() { zero = E(n, 0); one = E(n, 0); one[0] = 1 % p; }
u64 Fld::q() const { u64 r = 1; for (int i = 0; i < n; i++) { if (r > (1ULL << 40)) return r; r *= p; } return r; }
E Fld::fromint(i64 v) const { E e = zero; e[0] = emod(v, p); return e; }
E Fld::index(u64 k) const { E e = zero; for (int i = 0; i < n; i++) { e[i] = k % p; k /= p; } return e; }
u64 Fld::toindex(const E &e) const { u64 k = 0; for (int i = n - 1; i >= 0; i--) k = k * p + e[i]; return k; }
E Fld::random(Rng &r) const { E e = zero; for (auto &x : e) x = (i64)r.below(p); return e; }
E Fld::random_nz(Rng &r) const { for (;;) { E e = random(r); if (e != zero) return e; } }
E Fld::add(const E &a, const E &b) const { E r = a; for (int i = 0; i < n; i++) r[i] = (a[i] + b[i]) % p; return r; }
E Fld::sub(const E &a, const E &b) const { E r = a; for (int i = 0; i < n; i++) r[i] = emod(a[i] - b[i], p); return r; }
E Fld::neg(const E &a) const { return sub(zero, a); }
E Fld::mul(const E &a, const E &b) const {
  if (n == 1 && m.empty()) return E(1, mulmod(a[0], b[0], p));
  std::vector<i64> t(2 * n - 1, 0);
  for (int i = 0; i < n; i++) if (a[i])
    for (int j = 0; j < n; j++) t[i + j] = (t[i + j] + mulmod(a[i], b[j], p)) % p;
  for (int i = 2 * n - 2; i >= n; i--) if (t[i]) {
    i64 c = t[i];
    for (int j = 0; j <= n; j++) t[i - n + j] = emod(t[i - n + j] - mulmod(c, m[j], p), p);
  }
  t.resize(n);
  return t;
}
E Fld::pow(E a, u64 e) const { E r = one; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; }
E Fld::inv(const E &a) const {
  if (n == 1) { i64 r = 0; invmod(a[0], p, r); return E(1, r); }
  return pow(a, q() - 2);
}
bool Fld::lt(const E &a, const E &b) const { for (int i = n - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i]; return false; }

// ---------------------------------------------------------------- polynomials
PR::PR() {}
PR::PR(const Fld &f) : F(f) {}
void PR::trim(Poly &a) const { while (!a.empty() && a.back() == F.zero) a.pop_back(); }
int PR::deg(const Poly &a) { return a.empty() ? -1 : (int)a.size() - 1; }
int PR::libdeg(const Poly &a) { return a.empty() ? 0 : (int)a.size() - 1; }
Poly PR::cst(const E &e) const { Poly r(1, e); trim(r); return r; }
Poly PR::fromint(i64 v) const { return cst(F.fromint(v)); }
Poly PR::one() const { return cst(F.one); }
Poly PR::X() const { Poly r(2, F.zero); r[1] = F.one; return r; }
Poly PR::mono(const E &e, int d) const { Poly r(d + 1, F.zero); r[d] = e; trim(r); return r; }
Poly PR::random(Rng &r, int maxdeg) const { Poly a(maxdeg + 1); for (auto &c : a) c = F.random(r); trim(a); return a; }
Poly PR::random_exact(Rng &r, int d) const { Poly a(d + 1); for (auto &c : a) c = F.random(r); a[d] = F.random_nz(r); return a; }
Poly PR::random_monic(Rng &r, int d) const { Poly a(d + 1); for (auto &c : a) c = F.random(r); a[d] = F.one; return a; }
Poly PR::sparse(Rng &r, int d) const {
  Poly a(d + 1, F.zero);
  a[d] = F.random_nz(r);
  int k = (int)r.below(4);
  for (int i = 0; i < k; i++) a[r.below(d + 1)] = F.random(r);
  trim(a);
  return a;
}
Poly PR::add(const Poly &a, const Poly &b) const {
  Poly r(std::max(a.size(), b.size()), F.zero);
  for (size_t i = 0; i < r.size(); i++) {
    if (i >= a.size()) r[i] = b[i];
    else if (i >= b.size()) r[i] = a[i];
    else for (int j = 0; j < F.n; j++) r[i][j] = (a[i][j] + b[i][j]) % F.p;
  }
  trim(r);
  return r;
}
Poly PR::neg(const Poly &a) const { Poly r = a; for (auto &c : r) for (auto &x : c) x = x ? F.p - x : 0; return r; }
Poly PR::sub(const Poly &a, const Poly &b) const { return add(a, neg(b)); }
Poly PR::scale(const Poly &a, const E &e) const { Poly r = a; for (auto &c : r) c = F.mul(c, e); trim(r); return r; }
Poly PR::mul(const Poly &a, const Poly &b) const {
  if (a.empty() || b.empty()) return Poly();
  if (F.m.empty()) {
    size_t n = a.size(), k = b.size();
    std::vector<i64> A(n), B(k), C(n + k - 1, 0);
    for (size_t i = 0; i < n; i++) A[i] = a[i][0];
    for (size_t i = 0; i < k; i++) B[i] = b[i][0];
    for (size_t i = 0; i < n; i++) if (A[i])
      for (size_t j = 0; j < k; j++) if (B[j]) C[i + j] = (i64)(((i128)A[i] * B[j] + C[i + j]) % F.p);
    Poly r(n + k - 1, E(1, 0));
    for (size_t i = 0; i < C.size(); i++) r[i][0] = C[i];
    trim(r);
    return r;
  }
  Poly r(a.size() + b.size() - 1, F.zero);
  for (size_t i = 0; i < a.size(); i++) if (a[i] != F.zero)
    for (size_t j = 0; j < b.size(); j++) r[i + j] = F.add(r[i + j], F.mul(a[i], b[j]));
  trim(r);
  return r;
}
void PR::divmod(const Poly &a, const Poly &b, Poly &q, Poly &r) const {
  int db = deg(b), da = deg(a);
  E li = F.inv(b.back());
  Poly qq;
  if (da >= db) qq.assign(da - db + 1, F.zero);
  Poly rr = a;
  if (F.m.empty()) {
    std::vector<i64> A(a.size()), B(b.size());
    for (size_t i = 0; i < a.size(); i++) A[i] = a[i][0];
    for (size_t i = 0; i < b.size(); i++) B[i] = b[i][0];
    for (int i = da; i >= db; i--) {
      i64 c = ref::mulmod(A[i], li[0], F.p);
      if (!c) continue;
      qq[i - db][0] = c;
      for (int j = 0; j <= db; j++) if (B[j]) { i64 v = (A[i - db + j] - ref::mulmod(c, B[j], F.p)) % F.p; A[i - db + j] = v < 0 ? v + F.p : v; }
    }
    for (size_t i = 0; i < a.size(); i++) rr[i][0] = A[i];
  } else {
    for (int i = da; i >= db; i--) {
      E c = F.mul(rr[i], li);
      if (c == F.zero) continue;
      qq[i - db] = c;
      for (int j = 0; j <= db; j++) rr[i - db + j] = F.sub(rr[i - db + j], F.mul(c, b[j]));
    }
  }
  trim(rr); trim(qq);
  q = qq; r = rr;
}
Poly PR::mod(const Poly &a, const Poly &b) const { Poly q, r; divmod(a, b, q, r); return r; }
Poly PR::div(const Poly &a, const Poly &b) const { Poly q, r; divmod(a, b, q, r); return q; }
Poly PR::monic(const Poly &a) const { if (a.empty()) return a; return scale(a, F.inv(a.back())); }
Poly PR::gcd(Poly a, Poly b) const { while (!b.empty()) { Poly r = mod(a, b); a = b; b = r; } return monic(a); }
Poly PR::pow(const Poly &a, u64 e) const { Poly r = one(), x = a; while (e) { if (e & 1) r = mul(r, x); e >>= 1; if (e) x = mul(x, x); } return r; }
Poly PR::mulmod(const Poly &a, const Poly &b, const Poly &m) const { return mod(mul(a, b), m); }
Poly PR::powmod(Poly a, u64 e, const Poly &m) const { Poly r = mod(one(), m); a = mod(a, m); while (e) { if (e & 1) r = mulmod(r, a, m); e >>= 1; if (e) a = mulmod(a, a, m); } return r; }
bool PR::invmod(const Poly &a, const Poly &m, Poly &inv) const {
  Poly r0 = m, r1 = mod(a, m), t0, t1 = one();
  while (!r1.empty()) { Poly q, r; divmod(r0, r1, q, r); r0 = r1; r1 = r; Poly t = sub(t0, mul(q, t1)); t0 = t1; t1 = t; }
  if (deg(r0) != 0) return false;
  inv = mod(scale(t0, F.inv(r0[0])), m);
  return true;
}
Poly PR::deriv(const Poly &a) const { Poly r; for (size_t i = 1; i < a.size(); i++) r.push_back(F.mul(a[i], F.fromint((i64)i))); trim(r); return r; }
E PR::eval(const Poly &a, const E &x) const { E r = F.zero; for (int i = deg(a); i >= 0; i--) r = F.add(F.mul(r, x), a[i]); return r; }
bool PR::lt(const Poly &a, const Poly &b) const {
  if (a.size() != b.size()) return a.size() < b.size();
  for (int i = deg(a); i >= 0; i--) if (a[i] != b[i]) return F.lt(a[i], b[i]);
  return false;
}
Poly PR::frob(const Poly &a, const Poly &m) const { return powmod(a, F.q(), m); }
bool PR::irreducible(const Poly &f) const {
  int d = deg(f);
  if (d < 1) return false;
  if (d == 1) return true;
  std::vector<Poly> fr; // fr[i] = x^(q^i) mod f
  fr.push_back(mod(X(), f));
  for (int i = 1; i <= d; i++) fr.push_back(frob(fr.back(), f));
  if (fr[d] != fr[0]) return false;
  for (auto &pf : ref::factor(d)) {
    Poly g = gcd(sub(fr[d / pf.first], fr[0]), f);
    if (deg(g) > 0) return false;
  }
  return true;
}
Poly PR::random_irreducible(Rng &r, int d) const { for (;;) { Poly f = random_monic(r, d); if (irreducible(f)) return f; } }
Poly PR::index(u64 k, int len) const { u64 q = F.q(); Poly a(len); for (int i = 0; i < len; i++) { a[i] = F.index(k % q); k /= q; } trim(a); return a; }
u64 PR::toindex(const Poly &a) const { u64 k = 0, q = F.q(); for (int i = deg(a); i >= 0; i--) k = k * q + F.toindex(a[i]); return k; }
u64 PR::hash(const Poly &a) const { u64 h = 7 + F.p * 31 + F.n; for (auto &x : F.m) h = h * 1000003 + x; for (auto &e : a) for (auto x : e) h = (h ^ (u64)x) * 0x100000001b3ULL + 17; return h; }
std::string PR::show(const Poly &a) const {
  std::ostringstream o;
  o << "[";
  for (int i = deg(a); i >= 0; i--) {
    for (int j = F.n - 1; j >= 0; j--) o << (F.n > 1 && j < F.n - 1 ? "." : "") << a[i][j];
    if (i) o << (F.p == 2 && F.n == 1 ? "" : " ");
  }
  o << "]/p" << F.p;
  if (F.n > 1) { o << "^" << F.n << " m="; for (int i = F.n; i >= 0; i--) o << F.m[i] << (i ? "." : ""); }
  return o.str();
}
} // namespace ref
