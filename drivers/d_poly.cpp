// Ring operations, division, gcd and mutation histories of the four polynomial types.
#include "adapt.h"

template <class P> static std::string sh(const P &p) { return str(p); }

#define EQP(expr, want, key)                                                   \
  do {                                                                         \
    P got_ = (expr);                                                           \
    Poly g_ = a.from(got_);                                                    \
    CHECK(g_ == (want), key, key << " of " << a.R.show(x) << " , " << a.R.show(y) << " gave " << a.R.show(g_) << " want " << a.R.show(want)); \
    CHECK(a.normal(got_) && got_.find_degree() == PR::libdeg(want), key ".normal", key " result not in normal form: " << a.R.show(x) << " , " << a.R.show(y) << " degree " << got_.find_degree() << " want " << PR::libdeg(want)); \
    P w_ = a.to(want);                                                         \
    CHECK(got_ == w_ && !(got_ != w_) && str(got_) == str(w_), key ".canon", key " equal values compare or print differently: " << str(got_) << " vs " << str(w_)); \
  } while (0)

// degree-0 is shared by zero and nonzero constants
template <class A> struct Extra;

template <class A> static void common_ring(Ctx &c) {
  typedef typename A::P P;
  A a(c.rng);
  Rng &r = c.rng;
  Poly x = gen_poly(a, r), y = gen_poly(a, r);
  if (r.chance(1, 12)) y = x;
  if (r.chance(1, 12)) y = a.R.neg(x);
  if (r.chance(1, 16)) y = a.R.mul(x, a.R.random(r, 3));
  if (r.chance(1, 12) && x.size() > 1) { y = x; y[r.below(y.size() - 1)] = a.R.F.random(r); } // high terms cancel
  if (!c.leakmode) {
    c.input(a.R.hash(x) * 31 + a.R.hash(y), x.size() > 1 || y.size() > 1);
    if (c.want_sample()) c.sample("x=" + a.R.show(x) + " y=" + a.R.show(y));
  }
  const P px = a.to(x), py = a.to(y);
  CHECK(a.from(px) == x && a.from(py) == y, "build", "set/get coefficients do not round trip: " << a.R.show(x) << " came back as " << a.R.show(a.from(px)));
  EQP(px, x, "copy");
  EQP(px + py, a.R.add(x, y), "add");
  EQP(px - py, a.R.sub(x, y), "sub");
  EQP(-px, a.R.neg(x), "neg");
  EQP(px * py, a.R.mul(x, y), "mul");
  EQP(py * px, a.R.mul(x, y), "mul");
  { P t = px; t += py; EQP(t, a.R.add(x, y), "add_assign"); }
  { P t = px; t -= py; EQP(t, a.R.sub(x, y), "sub_assign"); }
  { P t = px; t *= py; EQP(t, a.R.mul(x, y), "mul_assign"); }
  if (!y.empty()) {
    Poly q, m;
    a.R.divmod(x, y, q, m);
    P lq = px, lr = px;
    px.quot_and_rem(py, lq, lr);
    EQP(lq, q, "quot");
    EQP(lr, m, "rem");
    EQP(px / py, q, "div");
    EQP(px % py, m, "mod");
    EQP(py * lq + lr, x, "divmod_identity");
    { P t = px; t /= py; EQP(t, q, "div_assign"); }
    { P t = px; t %= py; EQP(t, m, "mod_assign"); }
  } else {
    REFUSED(px / py, "div_zero", a.R.show(x));
    REFUSED(px % py, "div_zero", a.R.show(x));
  }
  // comparisons
  {
    bool lt = a.R.lt(x, y), eq = x == y;
    CHECK((px == py) == eq && (px != py) == !eq, "eq", a.R.show(x) << " vs " << a.R.show(y));
    CHECK((px < py) == lt && (px <= py) == (lt || eq) && (px > py) == !(lt || eq) && (px >= py) == !lt, "order", a.R.show(x) << " vs " << a.R.show(y));
    CHECK((px == 0) == x.empty() && (px != 0) == !x.empty(), "eq0", a.R.show(x));
    CHECK((px == 1) == (x == a.R.one()) && (px != 1) == (x != a.R.one()), "eq1", a.R.show(x));
  }
  // power
  {
    int d = PR::deg(x);
    int e = d > 0 ? (int)r.below(d > 140 ? 3 : d > 40 ? 4 : d > 10 ? 5 : d < 4 && r.chance(1, 8) ? (a.has_scalar ? 70 : 300) : 8) : (int)r.below(40);
    if (x.empty() && e == 0) { REFUSED(px.exp(0), "zero_pow_zero", "0^0"); }
    else if (x.empty()) { EQP(px.exp(e), Poly(), "exp"); }
    else EQP(px.exp(e), a.R.pow(x, e), "exp");
    if (d == 0) {
      // a unit: negative powers exist
      int ne = (int)r.range(1, 20);
      EQP(px.exp(-ne), a.R.cst(a.R.F.pow(a.R.F.inv(x[0]), ne)), "exp_neg_unit");
    } else {
      int ne = (int)r.range(1, 9);
      REFUSED(px.exp(-ne), "exp_neg", "power -" << ne << " of " << a.R.show(x));
    }
  }
  EQP(px.deriv(), a.R.deriv(x), "deriv");
  // prime subfield element
  { int v = (int)r.range(-20, 200); EQP(px.prime_subfield_element(v), a.R.fromint(v), "prime_subfield"); }
  // operands untouched
  CHECK(a.from(px) == x && a.from(py) == y, "operands_kept", a.R.show(x) << " , " << a.R.show(y));
  Extra<A>::more(c, a, x, y, px, py);
}

template <> struct Extra<AF2> {
  static void more(Ctx &c, AF2 &a, const Poly &x, const Poly &y, const f2_poly_t &px, const f2_poly_t &py) {
    typedef f2_poly_t P;
    Rng &r = c.rng;
    for (int b = 0; b < 2; b++) {
      int want = (int)a.R.eval(x, E(1, b))[0];
      CHECK(px.eval(b) == want && px.eval(bit_t(b)).get_residue() == want, "eval", a.R.show(x) << " at " << b);
      EQP(px * b, b ? x : Poly(), "mulbit");
      P t = px; t *= b; EQP(t, b ? x : Poly(), "mulbit");
      P u = px; u = b; EQP(u, b ? a.R.one() : Poly(), "assignbit");
    }
    int ones = 0;
    for (auto &e : x) ones += (int)e[0];
    CHECK(px.zcount_one_bits() == (ones & 1), "parity", a.R.show(x));
    // square root
    P root(1);
    Poly sq = a.R.mul(x, x);
    bool ok = a.to(sq).square_root(root);
    CHECK(ok, "sqrt_exists", a.R.show(x));
    if (ok) EQP(root, x, "sqrt");
    bool issq = true;
    for (size_t i = 1; i < x.size(); i += 2) if (x[i][0]) issq = false;
    P r2(1);
    bool ok2 = px.square_root(r2);
    CHECK(ok2 == issq, "sqrt_decides", a.R.show(x));
    // coefficient reads beyond the degree
    int pos = (int)r.below(400);
    CHECK(px.bit_at(pos) == (pos < (int)x.size() ? (int)x[pos][0] : 0), "bit_at", a.R.show(x) << " pos " << pos);
    CHECK(px.find_degree() == PR::libdeg(x), "degree", a.R.show(x));
    // shifts
    int sh = (int)(r.coin() ? r.below(200) : r.pick(std::vector<int>{0, 1, 63, 64, 65, 127, 128}));
    { P t = px; t._promote_n(sh); EQP(t, a.R.mul(x, a.R.mono(E(1, 1), sh)), "promote_n"); }
    { P t = px; t._promote_1(); EQP(t, a.R.mul(x, a.R.mono(E(1, 1), 1)), "promote_1"); }
    { P t = px; t._promote_4(); EQP(t, a.R.mul(x, a.R.mono(E(1, 1), 4)), "promote_4"); }
    { P t = px; t._demote_1(); EQP(t, a.R.div(x, a.R.X()), "demote_1"); }
    { P t = px; t.increment();
      Poly w = x; size_t i = 0;
      while (i < w.size() && w[i][0]) { w[i][0] = 0; i++; }
      if (i < w.size()) w[i][0] = 1; else w.push_back(E(1, 1));
      EQP(t, w, "increment"); }
    { u64 b = r.next() >> r.below(64);
      Poly w; for (int i = 0; i < 64; i++) w.push_back(E(1, (b >> i) & 1)); a.R.trim(w);
      EQP(P::from_base_rep(b), w, "from_base_rep"); }
    { int c0 = (int)r.below(2), c1 = (int)r.below(2), c2 = (int)r.below(2);
      Poly w{E(1, c0), E(1, c1), E(1, c2)}; Poly w1{E(1, c0), E(1, c1)}; Poly w0{E(1, c0)};
      a.R.trim(w); a.R.trim(w1); a.R.trim(w0);
      EQP(P(c2, c1, c0), w, "ctor3"); EQP(P(c1, c0), w1, "ctor2"); EQP(P(c0), w0, "ctor1"); }
    CHECK(P(px).get_characteristic() == 2, "characteristic", "");
  }
};

template <class A> static void scalar_common(Ctx &c, A &a, const Poly &x, const Poly &y, const typename A::P &px) {
  typedef typename A::P P;
  Rng &r = c.rng;
  E s = r.chance(1, 6) ? a.R.F.zero : r.chance(1, 6) ? a.R.F.one : a.R.F.random(r);
  typename A::S ls = a.sto(s);
  EQP(px + ls, a.R.add(x, a.R.cst(s)), "add_scalar");
  EQP(px - ls, a.R.sub(x, a.R.cst(s)), "sub_scalar");
  EQP(px * ls, a.R.scale(x, s), "mul_scalar");
  { P t = px; t += ls; EQP(t, a.R.add(x, a.R.cst(s)), "add_scalar_assign"); }
  { P t = px; t -= ls; EQP(t, a.R.sub(x, a.R.cst(s)), "sub_scalar_assign"); }
  { P t = px; t *= ls; EQP(t, a.R.scale(x, s), "mul_scalar_assign"); }
  if (s != a.R.F.zero) {
    EQP(px / ls, a.R.scale(x, a.R.F.inv(s)), "div_scalar");
    P t = px; t /= ls; EQP(t, a.R.scale(x, a.R.F.inv(s)), "div_scalar_assign");
  } else if (!x.empty()) {
    REFUSED(px / ls, "div_scalar_zero", a.R.show(x));
  }
  { E at = a.R.F.random(r);
    E want = a.R.eval(x, at), got = a.sfrom(px.eval(a.sto(at)));
    CHECK(got == want, "eval", a.R.show(x)); }
  { int pos = (int)r.below(x.size() + 3);
    E want = pos < (int)x.size() ? x[pos] : a.R.F.zero;
    CHECK(a.sfrom(px.get_coeff(pos)) == want, "get_coeff", a.R.show(x) << " pos " << pos); }
  CHECK(px.find_degree() == PR::libdeg(x), "degree", a.R.show(x));
  CHECK(px.get_characteristic() == (int)a.R.F.p, "characteristic", px.get_characteristic());
  { P t = px; t.promote(); EQP(t, a.R.mul(x, a.R.X()), "promote"); }
  { P t = px; t.promote_and_add(ls); EQP(t, a.R.add(a.R.mul(x, a.R.X()), a.R.cst(s)), "promote_and_add"); }
  { E s1 = a.R.F.random(r), s2 = a.R.F.random(r);
    Poly w{s, s1, s2}; Poly w1{s, s1}; a.R.trim(w); a.R.trim(w1);
    EQP(P(a.sto(s2), a.sto(s1), ls), w, "ctor3"); EQP(P(a.sto(s1), ls), w1, "ctor2"); EQP(P(ls), a.R.cst(s), "ctor1"); }
}
// p-th root: for perfect p-th powers it is the root; otherwise it is refused.
template <class A, class F> static void root_common(Ctx &c, A &a, const Poly &x, const Poly &y, const typename A::P &px, F rootfn) {
  typedef typename A::P P;
  i64 p = a.R.F.p;
  if (p * (i64)(x.size() ? x.size() : 1) < 200) {
    Poly pw = a.R.pow(x, p);
    P root = px;
    bool ok = rootfn(a.to(pw), root);
    CHECK(ok, "pth_root_exists", a.R.show(x));
    if (ok) EQP(root, x, "pth_root");
  }
  bool is = true;
  for (size_t i = 0; i < x.size(); i++) if (i % p && x[i] != a.R.F.zero) is = false;
  P root2 = px;
  bool ok2 = rootfn(px, root2);
  CHECK(ok2 == is, "pth_root_decides", a.R.show(x));
  if (ok2 && is) {
    Poly g = a.from(root2);
    if (p * (i64)x.size() < 400) CHECK(a.R.pow(g, p) == x, "pth_root_value", a.R.show(x) << " root " << a.R.show(g));
  }
}
template <> struct Extra<AFp> {
  static void more(Ctx &c, AFp &a, const Poly &x, const Poly &y, const fp_poly_t &px, const fp_poly_t &py) {
    typedef fp_poly_t P;
    Rng &r = c.rng;
    scalar_common(c, a, x, y, px);
    root_common(c, a, x, y, px, [](const P &f, P &g) { return f.pth_root(g); });
    { P t = px; t.increment();
      Poly w = x; size_t i = 0;
      while (i < w.size() && w[i][0] == a.p - 1) { w[i][0] = 0; i++; }
      if (i < w.size()) w[i][0]++; else w.push_back(E(1, 1));
      EQP(t, w, "increment"); }
    { int b = (int)(r.next() & 0x7fffffff) >> r.below(31);
      Poly w; for (i64 t = b; t; t /= a.p) w.push_back(E(1, t % a.p));
      EQP(P::from_base_rep(b, a.p), w, "from_base_rep"); }
    { int c0 = (int)r.range(-300, 300), c1 = (int)r.range(-300, 300), c2 = (int)r.range(-300, 300);
      Poly w{a.R.F.fromint(c0), a.R.F.fromint(c1), a.R.F.fromint(c2)}; Poly w1(w.begin(), w.begin() + 2), w0(w.begin(), w.begin() + 1);
      a.R.trim(w); a.R.trim(w1); a.R.trim(w0);
      EQP(P(c2, c1, c0, a.p), w, "ctor_int3"); EQP(P(c1, c0, a.p), w1, "ctor_int2"); EQP(P(c0, a.p), w0, "ctor_int1"); }
  }
};
template <> struct Extra<AF2n> {
  static void more(Ctx &c, AF2n &a, const Poly &x, const Poly &y, const f2n_poly_t &px, const f2n_poly_t &py) {
    typedef f2n_poly_t P;
    scalar_common(c, a, x, y, px);
    root_common(c, a, x, y, px, [](const P &f, P &g) { return f.square_root(g); });
    { P t = px; t.increment();
      Poly w = x; size_t i = 0; u64 q = a.R.F.q();
      while (i < w.size() && a.R.F.toindex(w[i]) == q - 1) { w[i] = a.R.F.zero; i++; }
      if (i < w.size()) w[i] = a.R.F.index(a.R.F.toindex(w[i]) + 1); else w.push_back(a.R.F.one);
      EQP(t, w, "increment"); }
    { int c0 = (int)c.rng.below(2), c1 = (int)c.rng.below(2), c2 = (int)c.rng.below(2);
      Poly w{a.R.F.fromint(c0), a.R.F.fromint(c1), a.R.F.fromint(c2)}; Poly w1(w.begin(), w.begin() + 2), w0(w.begin(), w.begin() + 1);
      a.R.trim(w); a.R.trim(w1); a.R.trim(w0);
      EQP(P(c2, c1, c0, a.m), w, "ctor_int3"); EQP(P(c1, c0, a.m), w1, "ctor_int2"); EQP(P(c0, a.m), w0, "ctor_int1");
      EQP(P::prime_subfield_element(c0, a.m), w0, "prime_subfield_static"); }
  }
};
template <> struct Extra<AFpn> {
  static void more(Ctx &c, AFpn &a, const Poly &x, const Poly &y, const fpn_poly_t &px, const fpn_poly_t &py) {
    typedef fpn_poly_t P;
    scalar_common(c, a, x, y, px);
    root_common(c, a, x, y, px, [](const P &f, P &g) { return f.pth_root(g); });
    { int v = (int)c.rng.range(-50, 50);
      EQP(px * intmod_t(v, a.p), a.R.scale(x, a.R.F.fromint(v)), "mul_prime_scalar");
      EQP(P::prime_subfield_element(v, a.m), a.R.fromint(v), "prime_subfield_static"); }
  }
};

// A prime of 21 bits: the library finds an inverse by a naive totient, so there is one such prime only.
struct AFpBig : AFp {
  explicit AFpBig(Rng &r) : AFp(r, 1048583) {}
};
template <> struct Extra<AFpBig> {
  static void more(Ctx &c, AFpBig &a, const Poly &x, const Poly &y, const fp_poly_t &px, const fp_poly_t &py) { Extra<AFp>::more(c, a, x, y, px, py); }
};
SECTION(ring_fpbig) { common_ring<AFpBig>(c); }
// Primes near the end of the int range: everything that needs no inverse.
SECTION(ring_fpmax) {
  typedef fp_poly_t P;
  Rng &r = c.rng;
  AFp a(r, r.pick(std::vector<i64>{2147483647, 2147483629, 1073741827, 1073741789, 2147483587}));
  Poly x = gen_poly(a, r), y = gen_poly(a, r);
  if (r.chance(1, 4)) for (auto &e : x) e[0] = a.p - 1 - (i64)r.below(3);
  if (r.chance(1, 4)) for (auto &e : y) e[0] = a.p - 1 - (i64)r.below(3);
  a.R.trim(x); a.R.trim(y);
  if (!c.leakmode) { c.input(a.R.hash(x) * 31 + a.R.hash(y) + a.p, x.size() > 1 || y.size() > 1); if (c.want_sample()) c.sample("x=" + a.R.show(x) + " y=" + a.R.show(y)); }
  const P px = a.to(x), py = a.to(y);
  EQP(px, x, "copy"); EQP(px + py, a.R.add(x, y), "add"); EQP(px - py, a.R.sub(x, y), "sub"); EQP(-px, a.R.neg(x), "neg");
  EQP(px * py, a.R.mul(x, y), "mul"); EQP(px * px, a.R.mul(x, x), "square"); EQP(px.deriv(), a.R.deriv(x), "deriv");
  { int e = (int)r.range(1, 4); EQP(px.exp(e), a.R.pow(x, e), "exp"); }
  E s = r.chance(1, 3) ? E(1, a.p - 1) : a.R.F.random(r), at = r.chance(1, 3) ? E(1, a.p - 1) : a.R.F.random(r);
  EQP(px * a.sto(s), a.R.scale(x, s), "mul_scalar"); EQP(px + a.sto(s), a.R.add(x, a.R.cst(s)), "add_scalar"); EQP(px - a.sto(s), a.R.sub(x, a.R.cst(s)), "sub_scalar");
  { E want = a.R.eval(x, at), got = a.sfrom(px.eval(a.sto(at))); CHECK(got == want, "eval", a.R.show(x) << " at " << at[0]); }
  { int v = (int)r.range(-2147483648LL, 2147483647LL); EQP(px.prime_subfield_element(v), a.R.fromint(v), "prime_subfield"); }
  { bool lt = a.R.lt(x, y), eq = x == y; CHECK((px == py) == eq && (px < py) == lt && (px > py) == !(lt || eq), "order", a.R.show(x) << " vs " << a.R.show(y)); }
  { std::istringstream is(str(px)); P t(0, a.p); is >> t; CHECK(!is.fail(), "reads_back", str(px)); if (!is.fail()) EQP(t, x, "reads_back"); }
}
SECTION(ring_f2) { common_ring<AF2>(c); }
SECTION(ring_fp) { common_ring<AFp>(c); }
SECTION(ring_f2n) { common_ring<AF2n>(c); }
SECTION(ring_fpn) { common_ring<AFpn>(c); }

// ---------------------------------------------------------------- gcd
template <class A> static void gcd_sec(Ctx &c) {
  typedef typename A::P P;
  A a(c.rng);
  Rng &r = c.rng;
  Poly x = gen_poly(a, r), y = gen_poly(a, r);
  int k = (int)r.below(10);
  if (k < 4) { Poly g = gen_poly(a, r); x = a.R.mul(x, g); y = a.R.mul(y, g); }
  else if (k == 4) y = x;
  else if (k == 5) y = a.R.mul(x, gen_poly(a, r));
  else if (k == 6) { x = a.R.mul(y, gen_poly(a, r)); }
  else if (k == 7) { y = Poly(); }
  else if (k == 8) { x = Poly(); }
  if (!c.leakmode) {
    c.input(a.R.hash(x) * 31 + a.R.hash(y), x.size() > 1 && y.size() > 1);
    if (c.want_sample()) c.sample("x=" + a.R.show(x) + " y=" + a.R.show(y));
  }
  P px = a.to(x), py = a.to(y);
  Poly want = a.R.gcd(x, y); // monic
  P lg = px.gcd(py);
  Poly g = a.from(lg);
  CHECK(a.R.monic(g) == want, "gcd", "gcd of " << a.R.show(x) << " , " << a.R.show(y) << " gave " << a.R.show(g) << " want associate of " << a.R.show(want));
  CHECK(a.normal(lg) && lg.find_degree() == PR::libdeg(want), "gcd.normal", a.R.show(x) << " , " << a.R.show(y));
  if (!x.empty() || !y.empty()) {
    P rm = px, rn = py;
    P eg = px.ext_gcd(py, rm, rn);
    Poly ge = a.from(eg), m = a.from(rm), n = a.from(rn);
    CHECK(a.R.monic(ge) == want, "ext_gcd", "ext_gcd of " << a.R.show(x) << " , " << a.R.show(y) << " gave " << a.R.show(ge));
    Poly comb = a.R.add(a.R.mul(m, x), a.R.mul(n, y));
    CHECK(comb == ge, "bezout", "m*x+n*y = " << a.R.show(comb) << " is not the gcd " << a.R.show(ge) << " for x=" << a.R.show(x) << " y=" << a.R.show(y));
    CHECK(a.normal(rm) && a.normal(rn), "bezout.normal", a.R.show(x) << " , " << a.R.show(y));
  }
  P fg = ::gcd(px, py);
  CHECK(a.R.monic(a.from(fg)) == want, "free_gcd", a.R.show(x));
}
SECTION(gcd_f2) { gcd_sec<AF2>(c); }
SECTION(gcd_fp) { gcd_sec<AFp>(c); }
SECTION(gcd_f2n) { gcd_sec<AF2n>(c); }
SECTION(gcd_fpn) { gcd_sec<AFpn>(c); }

// ---------------------------------------------------------------- histories
// Several live objects; a random history of mutating calls, copies,
// self-assignments and aliasing operations, shadowed by reference values.
template <class A> struct Hist {
  static void setcoef(A &a, typename A::P &p, int pos, const E &e) { p.set_coeff(pos, a.sto(e)); }
};
template <class A> static void refset(A &a, Poly &x, int pos, const E &e) {
  if ((int)x.size() <= pos) x.resize(pos + 1, a.R.F.zero);
  x[pos] = e;
  a.R.trim(x);
}
template <class A> static void history(Ctx &c) {
  typedef typename A::P P;
  A a(c.rng);
  Rng &r = c.rng;
  const int N = 4;
  std::vector<Poly> ref(N);
  std::vector<P> obj;
  for (int i = 0; i < N; i++) { ref[i] = gen_poly(a, r); obj.push_back(a.to(ref[i])); }
  int cap = std::string(A::nm()) == "f2" ? 700 : 40;
  int steps = c.thorough ? 60 : 30;
  std::ostringstream log;
  u64 h = 0;
  Poly x, y;
  for (int s = 0; s < steps; s++) {
    int i = (int)r.below(N), j = (int)r.below(N), op = (int)r.below(17), pos = 0;
    E e = r.chance(1, 3) ? a.R.F.zero : a.R.F.random(r);
    if (!c.leakmode) log << op << ":" << i << "," << j << " ";
    h = h * 1000003 + op * 16 + i * 4 + j;
    switch (op) {
    case 0: obj[i] = obj[j]; ref[i] = ref[j]; break;
    case 1: { P t(obj[j]); obj[i] = t; ref[i] = ref[j]; break; }
    case 2: { P &al = obj[i]; obj[i] = al; break; }
    case 3: obj[i] += obj[j]; ref[i] = a.R.add(ref[i], ref[j]); break;
    case 4: obj[i] -= obj[j]; ref[i] = a.R.sub(ref[i], ref[j]); break;
    case 5: if ((int)(ref[i].size() + ref[j].size()) < cap) { obj[i] *= obj[j]; ref[i] = a.R.mul(ref[i], ref[j]); } break;
    case 6: if (!ref[j].empty()) { Poly q = a.R.div(ref[i], ref[j]); obj[i] /= obj[j]; ref[i] = q; } break;
    case 7: if (!ref[j].empty()) { Poly m = a.R.mod(ref[i], ref[j]); obj[i] %= obj[j]; ref[i] = m; } break;
    case 8: case 9: pos = (int)r.below(ref[i].size() + (r.chance(1, 4) ? 70 : 3)); if (pos < cap) { Hist<A>::setcoef(a, obj[i], pos, e); refset(a, ref[i], pos, e); } break;
    case 10: if (!ref[i].empty()) { pos = (int)ref[i].size() - 1; Hist<A>::setcoef(a, obj[i], pos, a.R.F.zero); refset(a, ref[i], pos, a.R.F.zero); } break;
    case 11: obj[i] = obj[i].deriv(); ref[i] = a.R.deriv(ref[i]); break;
    case 12: { P t = a.to(gen_poly(a, r)); std::swap(obj[i], t); ref[i] = a.from(obj[i]); break; }
    case 13: obj[i] = -obj[i]; ref[i] = a.R.neg(ref[i]); break;
    case 14: { P q = obj[i], m = obj[i]; int k = (int)r.below(N);
      if (!ref[k].empty()) { Poly rq, rm; a.R.divmod(ref[i], ref[k], rq, rm); obj[i].quot_and_rem(obj[k], q, m); obj[i] = q; obj[j] = m; ref[i] = rq; ref[j] = rm; } break; }
    case 15: { if (ref[j].size() < 12) { obj[i] = obj[j] * obj[j]; ref[i] = a.R.mul(ref[j], ref[j]); } break; }
    case 16: { P t = obj[j]; Hist<A>::setcoef(a, t, (int)r.below(5), a.R.F.random(r)); break; } // mutate a copy only
    }
    for (int k = 0; k < N; k++) {
      Poly g = a.from(obj[k]);
      CHECK(g == ref[k], "state", "object " << k << " is " << a.R.show(g) << " want " << a.R.show(ref[k]) << " after " << log.str());
      CHECK(obj[k].find_degree() == PR::libdeg(ref[k]) && a.normal(obj[k]), "state.normal", "object " << k << " not in normal form: " << a.R.show(ref[k]) << " degree " << obj[k].find_degree() << " after " << log.str());
      CHECK((obj[k] == 0) == ref[k].empty(), "state.zero", a.R.show(ref[k]) << " after " << log.str());
      if (g != ref[k]) return;
    }
  }
  for (int k = 0; k < N; k++) { P t = a.to(ref[k]); CHECK(str(t) == str(obj[k]), "state.print", str(obj[k]) << " vs " << str(t)); }
  if (!c.leakmode) { c.input(h, true); if (c.want_sample()) c.sample("history " + log.str()); }
}
SECTION(hist_f2) { history<AF2>(c); }
SECTION(hist_fp) { history<AFp>(c); }
SECTION(hist_f2n) { history<AF2n>(c); }
SECTION(hist_fpn) { history<AFpn>(c); }
