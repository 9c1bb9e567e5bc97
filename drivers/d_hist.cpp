// Value semantics: random histories over pools of objects of every value type.  After every step each object
// that the step did not name must still have the image recorded for it, copies must equal their source, and
// compound operators must agree with the plain ones, operands aliased or not.
#include "img.h"

// elementwise operators on a vector whose elements are over different moduli may stop half way
template <class T> struct HasParts { static const bool v = false; };
template <class E> struct HasParts<tvector<E>> { static const bool v = true; };
template <class T> static T byval(T t) { return t; }

// ---------------------------------------------------------------- types: generator and in-place changes
struct HBase { Rng &r; explicit HBase(Rng &x) : r(x) {} };
struct HInt : HBase { typedef int T; using HBase::HBase; T gen() { return (int)r.range(-50, 50); } void mut(T &x, T &) { x++; } };
struct HBit : HBase { typedef bit_t T; using HBase::HBase; T gen() { return bit_t((int)r.below(2)); } void mut(T &x, T &) { x = (int)r.below(2); } };
struct HMod : HBase {
  typedef intmod_t T; std::vector<int> ms;
  HMod(Rng &x) : HBase(x) { for (int i = 0; i < 2; i++) ms.push_back((int)AFp::pick_prime(r)); }
  T gen() { int m = r.pick(ms); return intmod_t((int)r.below(m), m); }
  void mut(T &x, T &) { x = gen(); }
};
struct HRat : HBase { typedef intrat_t T; using HBase::HBase; T gen() { return intrat_t((int)r.range(-9, 9), (int)r.range(1, 9)); } void mut(T &x, T &) { x = (int)r.range(-3, 3); } };
struct HQP : HBase {
  typedef q_poly_t T; using HBase::HBase;
  T gen() { T p; int d = (int)r.below(5); for (int i = d; i >= 0; i--) p.set_coeff(i, intrat_t((int)r.range(-3, 3), 1)); return p; }
  void mut(T &x, T &) {
    switch (r.below(3)) {
    case 0: x.set_coeff((int)r.below(x.find_degree() + 4), intrat_t((int)r.range(-3, 3))); break;
    case 1: if (x.find_degree() < 8) x.promote(); break;
    default: if (x.find_degree() < 8) x.promote_and_add(intrat_t((int)r.range(-3, 3)));
    }
  }
};
template <class A> struct HPoly : HBase {
  typedef typename A::P T; std::vector<A> as;
  HPoly(Rng &x) : HBase(x) { as.emplace_back(x); as.emplace_back(x); }
  T gen() { const A &a = r.pick(as); Poly f = gen_poly(a, r); return a.to(f); }
  void mut(T &x, T &) {
    if constexpr (std::is_same_v<A, AF2>) {
      switch (r.below(6)) {
      case 0: x.set_bit((int)r.below(150)); break;
      case 1: x.set_coeff((int)r.below(150), bit_t((int)r.below(2))); break;
      case 2: x._promote_n(r.below(70)); break;
      case 3: x._promote_1(); break;
      case 4: x._demote_1(); break;
      default: x.increment();
      }
    } else {
      auto c = x.get_coeff((int)r.below(x.find_degree() + 1));
      switch (r.below(4)) {
      case 0: x.set_coeff((int)r.below(x.find_degree() + 4), c); break;
      case 1: x.promote(); break;
      case 2: x.promote_and_add(c); break;
      default: x.set_coeff(x.find_degree(), c - c);
      }
    }
  }
};
template <class A> struct HPm : HBase {
  typedef typename A::PM T; std::vector<A> as; std::vector<typename A::P> ms;
  HPm(Rng &x) : HBase(x) {
    as.emplace_back(x);
    for (int i = 0; i < 2; i++) { const A &a = as[0]; Poly m = a.R.random_exact(r, (int)r.range(1, std::string(A::nm()) == "f2" ? 80 : 4)); if (r.coin() && std::string(A::nm()) != "f2") m = a.R.random_irreducible(r, PR::deg(m)); ms.push_back(a.to(m)); }
  }
  T gen() { const A &a = as[0]; return T(a.to(gen_poly(a, r)), r.pick(ms)); }
  void mut(T &x, T &) {
    if constexpr (std::is_same_v<A, AF2>) { if (r.chance(1, 3)) { x.change_modulus(r.pick(ms)); return; } }
    x = gen();
  }
};
template <class A, class Q> struct HQuo : HBase {
  typedef Q T; A a; A b;
  HQuo(Rng &x) : HBase(x), a(x), b(x) {}
  T gen() { const A &k = r.chance(4, 5) ? a : b; Poly d; do d = k.R.random(r, 3); while (d.empty()); return T(k.to(k.R.random(r, 4)), k.to(d)); }
  void mut(T &x, T &) { x = a.to(a.R.random(r, 4)); }
};
struct HBV : HBase {
  typedef bit_vector_t T; std::vector<int> ls;
  HBV(Rng &x) : HBase(x) { static const std::vector<int> l = {1, 2, 63, 64, 65, 127, 128, 129, 200}; ls = {r.pick(l), r.pick(l)}; }
  T gen() { T v(r.pick(ls)); for (int i = 0; i < v.get_num_elements(); i++) v.set(i, (int)r.coin()); return v; }
  void mut(T &x, T &y) {
    int i = (int)r.below(x.get_num_elements());
    switch (r.below(4)) { case 0: x.set(i, (int)r.coin()); break; case 1: x.toggle_element(i); break; case 2: x = bit_t((int)r.coin()); break; default: if (x.get_num_elements() == y.get_num_elements()) x.accum_row(y); }
  }
};
struct HBM : HBase {
  typedef bit_matrix_t T; HBV v; std::vector<std::pair<int, int>> sh;
  HBM(Rng &x) : HBase(x), v(x) { int a = (int)r.range(1, 5), b = (int)r.range(1, 5); sh = {{a, a}, {b, v.ls[0]}, {a, v.ls[1]}}; }
  T gen() { auto s = r.pick(sh); T m(s.first, s.second); for (int i = 0; i < s.first; i++) for (int j = 0; j < s.second; j++) m[i].set(j, (int)r.coin()); return m; }
  void mut(T &x, T &y) {
    int i = (int)r.below(x.get_num_rows()), j = (int)r.below(x.get_num_rows()), k = (int)r.below(x.get_num_cols());
    switch (r.below(7)) {
    case 0: x[i].set(k, (int)r.coin()); break;
    case 1: x[i].toggle_element(k); break;
    case 2: x.swap(i, j); break;
    case 3: x.row_echelon_form(); break;
    case 4: x[i] = x[j]; break;
    case 5: if (x.get_num_cols() == y.get_num_cols()) x[i] = y[(int)r.below(y.get_num_rows())]; break;
    default: x = bit_t((int)r.coin());
    }
  }
};
template <class H> struct HVec : HBase {
  typedef typename H::T E; typedef tvector<E> T; H h; int l1, l2;
  HVec(Rng &x) : HBase(x), h(x), l1((int)r.range(1, 5)), l2((int)r.range(1, 9)) {}
  T gen() { T v(r.coin() ? l1 : l2); for (int i = 0; i < v.get_num_elements(); i++) v[i] = h.gen(); return v; }
  void mut(T &x, T &y) {
    int n = x.get_num_elements(), i = (int)r.below(n), j = (int)r.below(n);
    switch (r.below(8)) {
    case 0: x[i] = h.gen(); break;
    case 1: x[i] = x[j]; break;
    case 2: x[i] = y[(int)r.below(y.get_num_elements())]; break;
    case 3: h.mut(x[i], y[0]); break;
    case 4: x.trim_num_elements((int)r.range(1, n)); break;
    case 5: { E e = x[j]; x = e; break; }
    case 6: x = T(x[i], n); break;
    default: { T z(y); x.ptrswap(z); }
    }
  }
};
template <class H> struct HMat : HBase {
  typedef typename H::T E; typedef tmatrix<E> T; H h; int a, b;
  HMat(Rng &x) : HBase(x), h(x), a((int)r.range(1, 4)), b((int)r.range(1, 5)) {}
  T gen() { T m(a, r.coin() ? a : b); for (int i = 0; i < m.get_num_rows(); i++) for (int j = 0; j < m.get_num_cols(); j++) m[i][j] = h.gen(); return m; }
  void mut(T &x, T &y) {
    int R = x.get_num_rows(), C = x.get_num_cols(), i = (int)r.below(R), j = (int)r.below(R), k = (int)r.below(C);
    switch (r.below(8)) {
    case 0: x[i][k] = h.gen(); break;
    case 1: x[i] = x[j]; break;
    case 2: if (y.get_num_cols() == C) x[i] = y[(int)r.below(y.get_num_rows())]; break;
    case 3: h.mut(x[i][k], y[0][0]); break;
    case 4: x.swap(i, j); break;
    case 5: x.trim_num_rows((int)r.range(1, R)); break;
    case 6: { E e = x[i][k]; x = e; break; }
    default: x = x.transpose();
    }
  }
};
template <class H> struct HStack : HBase {
  typedef typename H::T E; typedef tstack<E> T; H h;
  HStack(Rng &x) : HBase(x), h(x) {}
  T gen() { T s; for (int n = (int)r.below(6); n > 0; n--) s.push(h.gen()); return s; }
  void mut(T &x, T &) { if (r.chance(2, 3)) x.push(h.gen()); else { E e; x.pop(e); } }
};
template <class H> struct HFac : HBase {
  typedef typename H::T E; typedef tfacinfo<E> T; H h;
  HFac(Rng &x) : HBase(x), h(x) { if constexpr (requires { h.as; }) h.as.pop_back(); }
  E unit() { if constexpr (std::is_same_v<E, int>) return r.coin() ? 1 : -1; else return h.gen(); }
  T gen() { T s; if (r.coin()) s.insert_unit(unit()); for (int n = (int)r.below(6); n > 0; n--) s.insert_factor(h.gen(), (int)r.range(1, 3)); return s; }
  void mut(T &x, T &y) {
    switch (r.below(4)) {
    case 0: x.insert_factor(h.gen()); break;
    case 1: x.insert_factor(h.gen(), (int)r.range(1, 3)); break;
    case 2: if (&x != &y && x.get_num_factors() < 30) x.merge(y); break;
    default: if (x.get_num_factors() < 30) { T z(x); x.insert_unit(unit()); }
    }
  }
};
// ---------------------------------------------------------------- a scalar that lives in the container
template <class T, class E> static void own_scalar(Ctx &c, const T &x, const E &, int i, int k, const std::string &before) {
  auto at = [&](T &t) -> E & { if constexpr (HasParts<T>::v) return t[i]; else return t[i][k]; };
#define OWN(name, EXPR)                                                                                                \
  if constexpr (requires(T &t, E &s) { EXPR; }) {                                                                      \
    std::string in, out;                                                                                               \
    { T t(x); const E &s = at(t); try { EXPR; in = img(t); } catch (const spffl::exception_t &) { in = "refused"; } }  \
    { T t(x); const E s = E(at(t)); try { EXPR; out = img(t); } catch (const spffl::exception_t &) { out = "refused"; } } \
    CHECK(in == out, "own_scalar", name << " with its own element " << i << "," << k << " on " << before << " gave " << in << ", with a copy of it " << out); \
  }
  OWN("fill", t = s)
  OWN("times", t *= s)
  if constexpr (HasParts<T>::v && !std::is_same_v<E, int>) { OWN("divide", t /= s) }
  if constexpr (!HasParts<T>::v) { OWN("plus", t += s) OWN("minus", t -= s) }
}
// ---------------------------------------------------------------- histories
template <class H> static void hist_case(Ctx &c, int steps) {
  typedef typename H::T T;
  Rng &r = c.rng;
  H h(r);
  const int N = 4;
  T *o[N];
  std::string im[N];
  std::string key;
  for (int i = 0; i < N; i++) { o[i] = new T(h.gen()); im[i] = img(*o[i]); key += im[i]; }
  c.input(key + std::to_string(r.s), true);
  if (c.want_sample()) c.sample(im[0]);
  auto others = [&](int x, const char *what) { // everything but x is as recorded
    for (int k = 0; k < N; k++) if (k != x) { std::string g = img(*o[k]); CHECK(g == im[k], "bystander_kept", what << " on object " << x << " changed object " << k << " from " << im[k] << " to " << g); im[k] = g; }
  };
  for (int s = 0; s < steps; s++) {
    int i = (int)r.below(N), j = (int)r.below(N);
    T &x = *o[i], &y = *o[j];
    int op = (int)r.below(13);
    if (op == 0) { // copy construction, old object destroyed
      T *n = new T(y);
      std::string g = img(*n);
      CHECK(g == im[j], "copy_equal", "copy of " << im[j] << " is " << g);
      delete o[i]; o[i] = n; im[i] = g;
      others(i, "copy construction");
    } else if (op <= 2) { // assignment, self-assignment included
      T &ret = (x = y);
      std::string g = img(x);
      CHECK(g == im[j], i == j ? "self_assign" : "assign_equal", "assigning " << im[j] << " to " << im[i] << " gave " << g);
      CHECK(&ret == &x, "assign_returns_target", "");
      if constexpr (requires { x == y; }) if (i != j) CHECK(x == y, "assign_equal", g);
      im[i] = g;
      others(i, "assignment");
    } else if (op == 3) { // assignment to a default-constructed object, source then changed
      T z;
      z = y;
      std::string g = img(z);
      CHECK(g == im[j], "assign_to_default", im[j] << " gave " << g);
      try { h.mut(y, x); } catch (const spffl::exception_t &) {}
      std::string g2 = img(z);
      CHECK(g2 == g, "copy_independent", "changing the source from " << g << " changed the copy to " << g2);
      im[j] = img(y);
      others(j, "change of the source");
    } else if (op == 4) { // copy changed
      T z(y);
      try { h.mut(z, x); } catch (const spffl::exception_t &) {}
      others(-1, "change of a copy");
    } else if (op <= 6) { // change in place
      try { h.mut(x, y); } catch (const spffl::exception_t &) { std::string g = img(x); CHECK(g == im[i], "refused_kept", im[i] << " became " << g); }
      im[i] = img(x);
      others(i, "in-place change");
    } else if (op == 7) { // by value, through a vector that reallocates
      T z = byval(y);
      { std::vector<T> v; for (int k = 0; k < 3; k++) v.push_back(y); try { h.mut(v[1], x); } catch (const spffl::exception_t &) {} CHECK(img(v[0]) == im[j] && img(v[2]) == im[j], "copy_independent", im[j]); }
      CHECK(img(z) == im[j], "byval_equal", im[j]);
      others(-1, "passing by value");
    } else if (op == 8) { // swap through a temporary
      T t(x); x = y; y = t;
      std::swap(im[i], im[j]);
      std::string a = img(x), b = img(y);
      CHECK(a == im[i] && b == im[j], "swap_exact", "got " << a << " and " << b);
      others(-1, "swapping");
    } else if (op == 9) { // destroy a source, keep the copy
      T *n = new T(y);
      delete o[j];
      o[j] = n;
      others(-1, "destroying the source");
    } else { // plain operators against compound ones
#define BIN(OP, CAS, name)                                                                                             \
  if constexpr (requires(T &a, T &b) { T(a OP b); }) {                                                                 \
    bool th = false, th2 = false; std::string pr, pa;                                                                  \
    try { T z(x OP y); pr = img(z); try { h.mut(z, y); } catch (const spffl::exception_t &) {} } catch (const spffl::exception_t &) { th = true; } \
    others(-1, name);                                                                                                  \
    if constexpr (requires(T &a, T &b) { a CAS b; }) {                                                                 \
      T w(x);                                                                                                          \
      if (i == j) { try { w CAS w; pa = img(w); } catch (const spffl::exception_t &) { th2 = true; } }                 \
      else { try { w CAS y; pa = img(w); } catch (const spffl::exception_t &) { th2 = true; } }                        \
      CHECK(th == th2 && pa == pr, i == j ? "compound_alias" : "compound", name << ": " << im[i] << " with " << im[j] << " plain " << (th ? "refused" : pr) << " compound " << (th2 ? "refused" : pa)); \
      if (th2 && !HasParts<T>::v) { std::string g = img(w); CHECK(g == im[i], "refused_kept", name << " left " << g << " in place of " << im[i]); } \
      others(-1, name "=");                                                                                            \
    }                                                                                                                  \
  }
      // the scalar operand taken from inside the container against the same scalar held outside
      if constexpr (requires(T &m) { m.get_num_rows(); m[0][0]; } && !std::is_same_v<T, bit_matrix_t>) own_scalar<T>(c, x, x[(int)r.below(x.get_num_rows())][(int)r.below(x.get_num_cols())], (int)r.below(x.get_num_rows()), (int)r.below(x.get_num_cols()), im[i]);
      else if constexpr (requires(T &v) { v.get_num_elements(); v[0]; } && HasParts<T>::v) own_scalar<T>(c, x, x[0], (int)r.below(x.get_num_elements()), 0, im[i]);
      others(-1, "a scalar taken from inside");
      switch (r.below(6)) {
      case 0: BIN(+, +=, "plus") break;
      case 1: BIN(-, -=, "minus") break;
      case 2: BIN(*, *=, "times") break;
      case 3: if constexpr (!std::is_same_v<T, bit_vector_t> && !std::is_same_v<T, tvector<int>>) { BIN(/, /=, "divide") } break;
      case 4: BIN(%, %=, "remainder") break;
      default:
        try {
          if constexpr (!std::is_same_v<T, tvector<int>> && requires { x.exp(2); }) { auto z = x.exp((int)r.range(-2, 3)); (void)z; others(-1, "exp"); }
          if constexpr (requires { -x; }) { T z(-x); try { h.mut(z, y); } catch (const spffl::exception_t &) {} others(-1, "negation"); }
          if constexpr (requires { x.get_residue().find_degree(); }) { auto p = x.get_residue(), m = x.get_modulus(); p *= p; m = p; others(-1, "accessor"); }
          if constexpr (requires { x.get_numerator().find_degree(); }) { auto p = x.get_numerator(), m = x.get_denominator(); p *= p; m = p; others(-1, "accessor"); }
          if constexpr (requires { x.get_coeff(0); }) { auto k = x.get_coeff(0); k = x.get_coeff(x.find_degree()); others(-1, "accessor"); }
          if constexpr (requires { x < y; }) { bool b = x < y; (void)b; others(-1, "comparison"); }
          if constexpr (requires { x.gcd(y); }) { T m, n, g(x.gcd(y)), e(x.ext_gcd(y, m, n)); others(-1, "gcd"); }
          if constexpr (requires { x.deriv(); }) { T d(x.deriv()); d = y; others(-1, "derivative"); }
          if constexpr (requires(T &q) { x.quot_and_rem(y, q, q); }) {
            T q, m;
            x.quot_and_rem(y, q, m);
            try { h.mut(q, m); h.mut(m, q); } catch (const spffl::exception_t &) {}
            others(-1, "division");
          }
          if constexpr (requires { x.transpose(); }) {
            T z(x.transpose()); others(-1, "transpose");
            if constexpr (requires(T &p) { x.get_rank(); }) {
              if (std::string(c.section).find("int") == std::string::npos) {
                int rk = x.get_rank(); (void)rk; others(-1, "rank");
                T k(x); bool b;
                if constexpr (requires { x.get_kernel_basis(k); }) { b = x.get_kernel_basis(k); others(-1, "kernel"); }
                if (x.is_square()) { T v(x); b = x.inverse(v); others(-1, "inverse"); auto d = x.det(); (void)d; others(-1, "determinant"); }
                T l(x), rr(x), pp(x.paste(y)); others(-1, "paste");
                pp.split(l, rr, x.get_num_cols()); CHECK(img(l) == im[i] && img(rr) == im[j], "paste_split", ""); pp[0] = pp[pp.get_num_rows() - 1]; CHECK(img(l) == im[i] && img(rr) == im[j], "copy_independent", "split part"); others(-1, "split");
              }
            }
          }
        } catch (const spffl::exception_t &) {}
        others(-1, "a refused operation");
      }
    }
  }
  for (int i = 0; i < N; i++) delete o[i];
}
#define S(n, st, ...) SECTION(val_##n) { hist_case<__VA_ARGS__>(c, st); }
typedef HQuo<AF2, f2_polyrat_t> HRf2; typedef HQuo<AFp, fp_polyrat_t> HRfp; typedef HQuo<AF2n, f2n_polyrat_t> HRf2n;
S(intmod, 40, HMod) S(bit, 40, HBit) S(intrat, 40, HRat)
S(f2_poly, 40, HPoly<AF2>) S(fp_poly, 40, HPoly<AFp>) S(f2n_poly, 30, HPoly<AF2n>) S(fpn_poly, 30, HPoly<AFpn>) S(q_poly, 30, HQP)
S(f2_pm, 40, HPm<AF2>) S(fp_pm, 40, HPm<AFp>) S(f2n_pm, 30, HPm<AF2n>) S(fpn_pm, 30, HPm<AFpn>)
S(f2_rat, 40, HRf2) S(fp_rat, 40, HRfp) S(f2n_rat, 30, HRf2n)
S(bitvec, 40, HBV) S(bitmat, 40, HBM)
S(vec_int, 40, HVec<HInt>) S(vec_mod, 40, HVec<HMod>) S(vec_f2, 40, HVec<HPoly<AF2>>) S(vec_fp, 40, HVec<HPoly<AFp>>) S(vec_f2npm, 30, HVec<HPm<AF2n>>) S(vec_rat, 40, HVec<HRf2>)
S(mat_mod, 40, HMat<HMod>) S(mat_rat, 40, HMat<HRat>) S(mat_f2pm, 30, HMat<HPm<AF2>>) S(mat_fprat, 20, HMat<HRfp>)
S(stack_int, 40, HStack<HInt>) S(stack_fp, 40, HStack<HPoly<AFp>>)
S(fac_int, 40, HFac<HInt>) S(fac_f2, 40, HFac<HPoly<AF2>>) S(fac_fp, 40, HFac<HPoly<AFp>>)
