// Text: what is printed reads back as the same value through every reader, and text that does not denote a value
// is rejected.  A strict grammar written here says what a text denotes.
#include <iomanip>
#include "img.h"
#include <climits>

// ---------------------------------------------------------------- what a text denotes
enum { BAD, MAY, MUST }; // not a value: reject; lenient form: reject or read as this value; plain form: read as this value
struct Den { int k; Poly v; Den(int k_ = BAD) : k(k_) {} };
static bool isws(char c) { return c == ' ' || c == '\t' || c == '\n'; }
static bool anyspace(const std::string &s) { for (char c : s) if (isspace((unsigned char)c)) return true; return false; }
static std::string strip(const std::string &s, int &k) {
  size_t a = 0, b = s.size();
  while (a < b && isspace((unsigned char)s[a])) a++;
  while (b > a && isspace((unsigned char)s[b - 1])) b--;
  if (a > 0 || b < s.size()) k = std::min(k, (int)MAY);
  return s.substr(a, b - a);
}
static std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r(1);
  for (char x : s) if (x == c) r.push_back(""); else r.back() += x;
  return r;
}
// decimal integer that fits an int
static int den_int(const std::string &t, i64 &v) {
  int k = MUST;
  std::string s = strip(t, k);
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; if (s[i] == '+') k = MAY; i++; }
  if (i >= s.size()) return BAD;
  v = 0;
  for (; i < s.size(); i++) {
    if (s[i] < '0' || s[i] > '9') return BAD;
    v = v * 10 + (s[i] - '0');
    if (v > 4294967295LL * 4) return BAD;
  }
  if (neg) v = -v;
  if (v > INT_MAX || v < INT_MIN) return BAD;
  return k;
}
static int den_f2(const std::string &t, E &v) { // hexadecimal, low bit first
  int k = MUST;
  std::string s = strip(t, k);
  if (s.empty()) return BAD;
  v.clear();
  for (size_t i = s.size(); i-- > 0;) {
    char ch = s[i];
    int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1;
    if (d < 0) return BAD;
    for (int b = 0; b < 4; b++) v.push_back((d >> b) & 1);
  }
  return k;
}
static int den_fp(const std::string &t, i64 p, E &v) { // digits for p < 10, otherwise comma-separated
  int k = MUST;
  v.clear();
  if (p < 10 && t.find(',') == std::string::npos) {
    std::string s = strip(t, k);
    if (s.empty()) return BAD;
    for (size_t i = s.size(); i-- > 0;) {
      if (s[i] < '0' || s[i] > '9') return BAD;
      if (s[i] - '0' >= p) k = std::min(k, (int)MAY);
      v.push_back((s[i] - '0') % p);
    }
    return k;
  }
  auto parts = split(t, ',');
  for (size_t i = parts.size(); i-- > 0;) {
    i64 n;
    int kk = den_int(parts[i], n);
    if (kk == BAD) return BAD;
    if (n < 0 || n >= p || parts[i].find('-') != std::string::npos) kk = MAY;
    k = std::min(k, kk);
    v.push_back(ref::emod(n, p));
  }
  return k;
}
static int den_rat(const std::string &t, i64 &n, i64 &d) {
  int k = MUST;
  auto parts = split(t, '/');
  if (parts.size() > 2) return BAD;
  k = den_int(parts[0], n);
  d = 1;
  if (k != BAD && parts.size() == 2) { int kk = den_int(parts[1], d); k = std::min(k, kk); }
  if (k == BAD || d == 0) return BAD;
  if (d < 0) { n = -n; d = -d; k = std::min(k, (int)MAY); }
  i64 g = ref::gcd(n, d);
  if (n == INT_MIN || d > INT_MAX || n > INT_MAX) k = std::min(k, (int)MAY);
  n /= g; d /= g;
  return k;
}
static int den_q(const std::string &t, std::vector<std::pair<i64, i64>> &v) {
  int k = MUST;
  v.clear();
  if (t.find_first_of(",-/") == std::string::npos) { // compact single digits
    std::string s = strip(t, k);
    if (s.empty()) return BAD;
    for (size_t i = s.size(); i-- > 0;) { if (s[i] < '0' || s[i] > '9') return BAD; v.push_back({s[i] - '0', 1}); }
    return s.size() > 1 ? std::min(k, (int)MUST) : k;
  }
  auto parts = split(t, ',');
  for (size_t i = parts.size(); i-- > 0;) {
    i64 n, d;
    int kk = den_rat(parts[i], n, d);
    if (kk == BAD) return BAD;
    k = std::min(k, kk);
    v.push_back({n, d});
  }
  return k;
}

// ---------------------------------------------------------------- types
// den(text, image) : what the text denotes; fs : from_string; zero() : an object that carries the context
struct TInt { // residues
  typedef intmod_t T; Rng &r; int m;
  static const bool stream = true;
  explicit TInt(Rng &x) : r(x), m(x.chance(1, 4) ? (int)x.range(2, INT_MAX) : (int)x.range(2, 40)) {}
  T gen() { return T((int)r.below(m), m); }
  T zero() { return T(0, m); }
  bool fs(T &x, const std::string &s) { return x.from_string(s, m); }
  int den(const std::string &s, std::string &im) { i64 n; int k = den_int(s, n); if (k) im = img(T((int)ref::emod(n, m), m)); return k; }
};
struct TBit {
  typedef bit_t T; Rng &r;
  static const bool stream = true;
  explicit TBit(Rng &x) : r(x) {}
  T gen() { return T((int)r.below(2)); }
  T zero() { return T(0); }
  bool fs(T &x, const std::string &s) { return x.from_string(s); }
  int den(const std::string &s, std::string &im) {
    i64 n; int k = den_int(s, n);
    if (k == BAD) { // unsigned reader: magnitudes up to 32 bits
      int kk = MAY; std::string t = strip(s, kk);
      size_t i = 0;
      if (!t.empty() && (t[0] == '-' || t[0] == '+')) i = 1;
      if (i >= t.size() || t.size() > 12) return BAD;
      n = 0;
      for (; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') return BAD; n = n * 10 + t[i] - '0'; }
      if (n > 4294967295LL) return BAD;
      k = MAY;
    }
    if (n < 0 || n > 1) k = MAY;
    im = img(T((int)(n & 1)));
    return k;
  }
};
struct TRat {
  typedef intrat_t T; Rng &r;
  static const bool stream = true;
  explicit TRat(Rng &x) : r(x) {}
  T gen() { i64 b = r.coin() ? 9 : r.coin() ? 5000 : INT_MAX; return T((int)r.range(-b, b), (int)r.range(1, b)); }
  T zero() { return T(0); }
  bool fs(T &x, const std::string &s) { return x.from_string(s); }
  int den(const std::string &s, std::string &im) { i64 n, d; int k = den_rat(s, n, d); if (k) im = std::to_string(n) + "/" + std::to_string(d); return k; }
};
struct TF2 {
  typedef f2_poly_t T; Rng &r; AF2 a;
  static const bool stream = true;
  explicit TF2(Rng &x) : r(x), a(x) {}
  T gen() { return a.to(gen_poly(a, r)); }
  T zero() { return T(0); }
  bool fs(T &x, const std::string &s) { return x.from_string(s); }
  int den(const std::string &s, std::string &im) { E v; int k = den_f2(s, v); if (k) im = img(mk_f2(v)); return k; }
};
struct TFp {
  typedef fp_poly_t T; Rng &r; AFp a;
  static const bool stream = true;
  explicit TFp(Rng &x) : r(x), a(x) {}
  T gen() { return a.to(gen_poly(a, r)); }
  T zero() { return T(0, a.p); }
  bool fs(T &x, const std::string &s) { return x.from_string(s, a.p); }
  int den(const std::string &s, std::string &im) { E v; int k = den_fp(s, a.p, v); if (k) im = img(mk_fp(v, a.p)); return k; }
};
static int den_f2n(const std::string &s, AF2n &a, Poly &P) {
  int k = MUST; auto parts = split(s, ':');
  ref::PR b{Fld(2)};
  Poly M; for (i64 x : a.R.F.m) M.push_back(E(1, x));
  P.clear();
  for (size_t i = parts.size(); i-- > 0;) {
    E v; int kk = den_f2(parts[i], v);
    if (kk == BAD) return BAD;
    Poly w; for (i64 x : v) w.push_back(E(1, x));
    b.trim(w);
    if (ref::PR::deg(w) >= a.R.F.n) { kk = MAY; w = b.mod(w, M); }
    k = std::min(k, kk);
    E e = a.R.F.zero; for (size_t j = 0; j < w.size(); j++) e[j] = w[j][0];
    P.push_back(e);
  }
  a.R.trim(P);
  return k;
}
static int den_fpn(const std::string &s, AFpn &a, Poly &P) {
  int k = MUST; auto parts = split(s, ':');
  ref::PR b{Fld(a.p)};
  Poly M; for (i64 x : a.R.F.m) M.push_back(E(1, x));
  P.clear();
  for (size_t i = parts.size(); i-- > 0;) {
    E v; int kk = den_fp(parts[i], a.p, v);
    if (kk == BAD) return BAD;
    Poly w; for (i64 x : v) w.push_back(E(1, x));
    b.trim(w);
    if (ref::PR::deg(w) >= a.R.F.n) { kk = MAY; w = b.mod(w, M); }
    k = std::min(k, kk);
    E e = a.R.F.zero; for (size_t j = 0; j < w.size(); j++) e[j] = w[j][0];
    P.push_back(e);
  }
  a.R.trim(P);
  return k;
}
struct TF2n {
  typedef f2n_poly_t T; Rng &r; AF2n a;
  static const bool stream = true;
  explicit TF2n(Rng &x) : r(x), a(x) {}
  T gen() { return a.to(gen_poly(a, r)); }
  T zero() { return a.to(Poly()); }
  bool fs(T &x, const std::string &s) { return x.from_string(s, a.m); }
  int den(const std::string &s, std::string &im) { Poly P; int k = den_f2n(s, a, P); if (k) im = img(a.to(P)); return k; }
};
struct TFpn {
  typedef fpn_poly_t T; Rng &r; AFpn a;
  static const bool stream = true;
  explicit TFpn(Rng &x) : r(x), a(x) {}
  T gen() { return a.to(gen_poly(a, r)); }
  T zero() { return a.to(Poly()); }
  bool fs(T &x, const std::string &s) { return x.from_string(s, a.m); }
  int den(const std::string &s, std::string &im) { Poly P; int k = den_fpn(s, a, P); if (k) im = img(a.to(P)); return k; }
};
struct TQ {
  typedef q_poly_t T; Rng &r;
  static const bool stream = true;
  explicit TQ(Rng &x) : r(x) {}
  static T mk(const std::vector<std::pair<i64, i64>> &v) { T q(0); for (int i = (int)v.size() - 1; i >= 0; i--) q.set_coeff(i, intrat_t((int)v[i].first, (int)v[i].second)); return q; }
  T gen() {
    std::vector<std::pair<i64, i64>> v;
    i64 b = r.coin() ? 9 : 3000;
    bool integral = r.coin(), pos = r.chance(1, 3);
    for (i64 n = r.range(1, 9); n > 0; n--) v.push_back({r.range(pos ? 0 : -b, b), integral ? 1 : r.range(1, b)});
    T q = mk(v);
    return clash(q) ? gen() : q;
  }
  // known finding: such a constant prints as digits that read back as one coefficient each
  static bool clash(const T &q) { std::string s = str(q); return q.find_degree() == 0 && s.size() > 1 && s.find_first_not_of("0123456789") == std::string::npos; }
  T zero() { return T(0); }
  bool fs(T &x, const std::string &s) { return x.from_string(s); }
  int den(const std::string &s, std::string &im) { std::vector<std::pair<i64, i64>> v; int k = den_q(s, v); if (k) im = img(mk(v)); return k; }
};
// residue classes
template <class A> static Poly pmod(A &a, Rng &r) { return r.coin() ? a.R.random_monic(r, (int)r.range(1, 6)) : a.R.random_exact(r, (int)r.range(1, 6)); }
struct TF2m {
  typedef f2_polymod_t T; Rng &r; AF2 a; Poly M; f2_poly_t m;
  static const bool stream = true;
  explicit TF2m(Rng &x) : r(x), a(x), M(r.chance(1, 4) ? a.R.random_exact(r, (int)r.range(1, 140)) : pmod(a, r)), m(a.to(M)) {}
  T gen() { return T(a.to(a.R.random(r, ref::PR::deg(M) - 1)), m); }
  T zero() { return T(f2_poly_t(0), m); }
  bool fs(T &x, const std::string &s) { return x.from_string(s, m); }
  int den(const std::string &s, std::string &im) {
    E v; int k = den_f2(s, v); if (!k) return k;
    Poly w; for (i64 x : v) w.push_back(E(1, x));
    a.R.trim(w);
    if (w.size() >= M.size()) k = MAY;
    im = img(a.to(a.R.mod(w, M))) + "m" + img(m);
    return k;
  }
};
struct TFpm {
  typedef fp_polymod_t T; Rng &r; AFp a; Poly M; fp_poly_t m;
  static const bool stream = false;
  explicit TFpm(Rng &x) : r(x), a(x), M(pmod(a, r)), m(a.to(M)) {}
  T gen() { return T(a.to(a.R.random(r, ref::PR::deg(M) - 1)), m); }
  T zero() { return T(fp_poly_t(0, a.p), m); }
  bool fs(T &x, const std::string &s) { return x.from_string(s, m); }
  int den(const std::string &s, std::string &im) {
    E v; int k = den_fp(s, a.p, v); if (!k) return k;
    Poly w; for (i64 x : v) w.push_back(E(1, x));
    a.R.trim(w);
    if (w.size() >= M.size()) k = MAY;
    im = img(a.to(a.R.mod(w, M))) + "m" + img(m);
    return k;
  }
};
struct TF2nm {
  typedef f2n_polymod_t T; Rng &r; AF2n a; Poly M; f2n_poly_t m;
  static const bool stream = false;
  explicit TF2nm(Rng &x) : r(x), a(x), M(pmod(a, r)), m(a.to(M)) {}
  T gen() { return T(a.to(a.R.random(r, ref::PR::deg(M) - 1)), m); }
  T zero() { return T(a.to(Poly()), m); }
  bool fs(T &x, const std::string &s) { return x.from_string(s, m); }
  int den(const std::string &s, std::string &im) {
    Poly w; int k = den_f2n(s, a, w); if (!k) return k;
    if (w.size() >= M.size()) k = MAY;
    im = img(a.to(a.R.mod(w, M))) + "m" + img(m);
    return k;
  }
};
struct TFpnm {
  typedef fpn_polymod_t T; Rng &r; AFpn a; Poly M; fpn_poly_t m;
  static const bool stream = false;
  explicit TFpnm(Rng &x) : r(x), a(x), M(pmod(a, r)), m(a.to(M)) {}
  T gen() { return T(a.to(a.R.random(r, ref::PR::deg(M) - 1)), m); }
  T zero() { return T(a.to(Poly()), m); }
  bool fs(T &x, const std::string &s) { return x.from_string(s, m); }
  int den(const std::string &s, std::string &im) {
    Poly w; int k = den_fpn(s, a, w); if (!k) return k;
    if (w.size() >= M.size()) k = MAY;
    im = img(a.to(a.R.mod(w, M))) + "m" + img(m);
    return k;
  }
};
// rational functions
template <class B, class Q_, class D> struct TPr {
  typedef Q_ T; Rng &r; B b;
  static const bool stream = true;
  explicit TPr(Rng &x) : r(x), b(x) {}
  Poly pol(int d) { return b.a.R.random(r, d); }
  T gen() { Poly d = b.a.R.random_exact(r, (int)r.below(5)); return T(b.a.to(pol((int)r.below(5))), b.a.to(d)); }
  T zero() { return T(b.a.to(Poly()), b.a.to(b.a.R.one())); }
  bool fs(T &x, const std::string &s) { return D::fs(b, x, s); }
  int den(const std::string &s, std::string &im) {
    auto parts = split(s, '/');
    if (parts.size() > 2) return BAD;
    Poly n, d = b.a.R.one();
    int k = D::pol(b, parts[0], n);
    if (k && parts.size() == 2) { int kk = D::pol(b, parts[1], d); k = std::min(k, kk); }
    if (!k || d.empty()) return BAD;
    Poly g = b.a.R.gcd(n, d);
    n = b.a.R.div(n, g); d = b.a.R.div(d, g);
    E li = b.a.R.F.inv(d.back());
    im = img(b.a.to(b.a.R.scale(n, li))) + "/" + img(b.a.to(b.a.R.scale(d, li)));
    return std::min(k, anyspace(s) || s.find_first_of("-+") != std::string::npos ? (int)MAY : (int)MUST);
  }
};
static Poly low(const E &v, PR &R) { Poly w; for (i64 x : v) w.push_back(E(1, x)); R.trim(w); return w; }
struct DF2 { static bool fs(TF2 &, f2_polyrat_t &x, const std::string &s) { return x.from_string(s); }
  static int pol(TF2 &b, const std::string &s, Poly &P) { E v; int k = den_f2(s, v); if (k) P = low(v, b.a.R); return k; } };
struct DFp { static bool fs(TFp &b, fp_polyrat_t &x, const std::string &s) { return x.from_string(s, b.a.p); }
  static int pol(TFp &b, const std::string &s, Poly &P) { E v; int k = den_fp(s, b.a.p, v); if (k) P = low(v, b.a.R); return k; } };
struct DF2n { static bool fs(TF2n &b, f2n_polyrat_t &x, const std::string &s) { return x.from_string(s, b.a.m); }
  static int pol(TF2n &b, const std::string &s, Poly &P) { return den_f2n(s, b.a, P); } };
typedef TPr<TF2, f2_polyrat_t, DF2> TR2;
typedef TPr<TFp, fp_polyrat_t, DFp> TRp;
typedef TPr<TF2n, f2n_polyrat_t, DF2n> TR2n;

// ---------------------------------------------------------------- oracle
static std::string mutate(Rng &r, std::string s) {
  static const std::string al = "0123456789abcdefABFgxz,,::://--++  \t.[](){}^=_\"%#";
  for (int k = (int)r.range(1, 3); k > 0; k--) {
    char ch = al[r.below(al.size())];
    size_t p = r.below(s.size() + 1);
    switch (r.below(7)) {
    case 0: s.insert(s.begin() + p, ch); break;
    case 1: if (p < s.size()) s.erase(p, 1); break;
    case 2: if (p < s.size()) s[p] = ch; break;
    case 3: s += ch; break;
    case 4: s = std::string(1, ch) + s; break;
    case 5: s = s.substr(0, p); break;
    default: if (p < s.size()) s.insert(p, s.substr(p)); break;
    }
    if (s.size() > 400) s.resize(400);
  }
  return s;
}
template <class X> static void text_case(Ctx &c) {
  typedef typename X::T T;
  Rng &r = c.rng;
  X x(r);
  if constexpr (std::is_same<X, TQ>::value) {
    T k = TQ::mk({{r.range(10, 3000), 1}}), t;
    CHECK(x.fs(t, str(k)) && img(t) == img(k), "q-constant-multidigit", str(k) << " read as " << img(t));
  }
  T v = x.gen();
  std::string im = img(v), s = str(v);
  c.input(im, s.size() > 1);
  if (c.want_sample()) c.sample("value " + im + " prints \"" + s + "\"");
  { // the grammar agrees that the printed text denotes the value
    std::string w; int k = x.den(s, w);
    CHECK(k == MUST && w == im, "print", "prints \"" << s << "\" which denotes " << (k ? w : std::string("nothing")) << "; the value is " << im);
  }
  CHECK(str(v) == s && img(v) == im, "print.twice", s);
  { // what is printed after the value does not depend on it
    std::ostringstream a;
    a << v;
    std::string t = a.str();
    a << std::setw(7) << 255;
    CHECK(t == s && a.str() == s + "    255", "print.stream_state", "255 in seven columns after \"" << s << "\": \"" << a.str() << "\"");
  }
  { T t; CHECK(x.fs(t, s) && img(t) == im, "from_string", "\"" << s << "\" read as " << img(t) << " want " << im); }
  { T t = x.gen(); CHECK(x.fs(t, s) && img(t) == im, "from_string.over", "\"" << s << "\" read as " << img(t) << " want " << im); }
  { std::istringstream iss(s); T t = x.zero(); iss >> t; CHECK(!iss.fail() && img(t) == im, "iss", "\"" << s << "\" read as " << img(t) << " want " << im); }
  { std::istringstream iss(" \t" + s); T t = x.zero(); iss >> t; CHECK(!iss.fail() && img(t) == im, "iss.lead", "\" \\t" << s << "\" read as " << img(t) << " want " << im); }
  // several values, separated by white space, from one stream
  int n = (int)r.range(2, 5);
  std::vector<T> vs; std::string all, want;
  for (int i = 0; i < n; i++) { vs.push_back(x.gen()); all += (i ? (r.coin() ? " " : "  ") : "") + str(vs[i]); want += img(vs[i]) + " "; }
  {
    std::istringstream iss(all); std::string got;
    for (int i = 0; i < n; i++) { T t = x.zero(); iss >> t; if (iss.fail()) { got += "FAIL at " + std::to_string(i); break; } got += img(t) + " "; }
    CHECK(got == want, "iss.seq", "\"" << all << "\" read as " << got << " want " << want);
  }
  if constexpr (X::stream) {
    std::stringstream ss; ss << all; std::string got;
    std::istream &is = ss;
    for (int i = 0; i < n; i++) { T t = x.zero(); is >> t; if (is.fail()) { got += "FAIL at " + std::to_string(i); break; } got += img(t) + " "; }
    CHECK(got == want, "istream.seq", "\"" << all << "\" read as " << got << " want " << want);
  }
  // vectors and matrices of them
  {
    int nv = (int)(r.chance(1, 6) ? r.range(9, 32) : r.range(1, 6));
    tvector<T> V(x.zero(), nv);
    for (int i = 0; i < nv; i++) V[i] = x.gen();
    std::string vim = img(V), vt = str(V);
    { std::istringstream iss(vt); tvector<T> w(x.zero(), 1); iss >> w; CHECK(!iss.fail() && img(w) == vim, "vec.iss", "\"" << vt << "\" read as " << img(w) << " want " << vim); }
    { std::stringstream ss; ss << vt << "\n" << s << "\n"; std::istream &is = ss; tvector<T> w(x.zero(), 3), u(x.zero(), 1); is >> w >> u; CHECK(!is.fail() && img(w) == vim && img(u) == "[" + im + " ]", "vec.istream", "\"" << vt << "\" read as " << img(w) << " want " << vim); }
    { std::string b = r.coin() ? "[" + vt + "]" : " [" + vt + "] "; tvector<T> w(x.zero(), (int)r.range(1, 12)); bool ok = w.bracket_in(b.data()); CHECK(ok && img(w) == vim, "vec.bracket", "\"" << b << "\" read as " << img(w) << " want " << vim); }
    int nr = (int)(r.chance(1, 8) ? r.range(9, 22) : r.range(1, 4)), nc = (int)r.range(1, 4);
    tmatrix<T> M(x.zero(), nr, nc);
    std::string b = "[";
    for (int i = 0; i < nr; i++) { b += std::string(i && r.coin() ? " " : "") + "["; for (int j = 0; j < nc; j++) { M[i][j] = x.gen(); b += (j ? " " : "") + str(M[i][j]); } b += "]"; }
    b += "]";
    std::string mim = img(M), mt = str(M);
    { std::stringstream ss; ss << mt; std::istream &is = ss; tmatrix<T> w(x.zero(), 1, 1); is >> w; CHECK(!is.fail() && img(w) == mim, "mat.istream", "\"" << mt << "\" read as " << img(w) << " want " << mim); }
    { std::stringstream ss; ss << "# a comment\n\n  " << mt << "\n" << s << "\n"; std::istream &is = ss; tmatrix<T> w(x.zero(), 2, 2), u(x.zero(), 1, 1); is >> w >> u; CHECK(!is.fail() && img(w) == mim && img(u) == "{[" + im + " ]1}", "mat.two", "\"" << mt << "\" read as " << img(w) << " want " << mim << " then " << img(u)); }
    { tmatrix<T> w(x.zero(), 1, 1); std::string bb = b; bool ok = w.bracket_in(bb.data()); CHECK(ok && img(w) == mim, "mat.bracket", "\"" << b << "\" read as " << (ok ? img(w) : "(rejected)") << " want " << mim); }
    // ragged or broken brackets are rejected
    if (nr > 1) {
      std::string rag = b; rag.insert(rag.size() - 2, " " + s);
      tmatrix<T> w(x.zero(), 1, 1); CHECK(!w.bracket_in(rag.data()), "mat.ragged", rag);
      std::stringstream ss; ss << mt << mt.substr(0, mt.find('\n')) << " " << s << "\n"; std::istream &is = ss; tmatrix<T> u(x.zero(), 1, 1); is >> u; CHECK(is.fail(), "mat.ragged.istream", ss.str());
    }
    { std::string bb = vt; tvector<T> w(x.zero(), 1); CHECK(!w.bracket_in(bb.data()), "vec.nobracket", bb); bb = "[" + vt; CHECK(!w.bracket_in(bb.data()), "vec.nobracket", bb); }
  }
  // texts near the printed ones
  for (int k = 0; k < 6; k++) {
    std::string t = mutate(r, r.coin() ? s : str(x.gen())), w;
    int d = x.den(t, w);
    T o = r.coin() ? x.zero() : x.gen(), u;
    T &g = r.coin() ? o : u;
    bool acc = false, thrown = false;
    try { acc = x.fs(g, t); } catch (const spffl::exception_t &) { thrown = true; }
    if (d == BAD) CHECK(!acc, "malformed", "\"" << t << "\" denotes nothing but was read as " << img(g));
    else if (acc) CHECK(img(g) == w, "mutant.value", "\"" << t << "\" denotes " << w << " but was read as " << img(g));
    else CHECK(d == MAY, "mutant.rejected", "\"" << t << "\" denotes " << w << " but was rejected" << (thrown ? " (exception)" : ""));
    auto prefix = [&](std::istream &is, const T &z, const char *key) {   // whatever was taken from the stream denotes the value read
      if (is.fail()) return;
      is.clear();
      std::string pre = t.substr(0, (size_t)is.tellg()), w2;
      while (!pre.empty() && isspace((unsigned char)pre.back())) pre.pop_back();
      while (!pre.empty() && isspace((unsigned char)pre[0])) pre.erase(0, 1);
      int d2 = x.den(pre, w2);
      CHECK(d2 != BAD && img(z) == w2, key, "\"" << pre << "\" of \"" << t << "\" was read as " << img(z) << (d2 == BAD ? "; it denotes nothing" : " want " + w2));
    };
    { std::istringstream iss(t); T z = x.zero(); try { iss >> z; prefix(iss, z, "mutant.iss"); } catch (const spffl::exception_t &) {} }
    if constexpr (X::stream) { std::stringstream ss; ss << t; std::istream &is = ss; T z = x.zero(); try { is >> z; prefix(is, z, "mutant.istream"); } catch (const spffl::exception_t &) {} }
    // and in the company of others
    if (d == BAD && t.find_first_of(" \t\n[]#") == std::string::npos && t.find_first_of("gxz_\"%(){}^=.") != std::string::npos) {   // a character no number has
      std::string l = s + " " + t, l2 = t + " " + s;
      const std::string &ln = r.coin() ? l : l2;
      { std::string b = "[" + ln + "]"; tvector<T> v(x.zero(), 1); bool ok = false; try { ok = v.bracket_in(b.data()); } catch (const spffl::exception_t &) {} CHECK(!ok, "vec.malformed", b << " read as " << img(v)); }
      { std::stringstream ss; ss << ln << "\n"; std::istream &is = ss; tvector<T> v(x.zero(), 1); bool ok = false; try { is >> v; ok = !is.fail(); } catch (const spffl::exception_t &) {} CHECK(!ok, "vec.malformed.istream", ln << " read as " << img(v)); }
      { std::stringstream ss; ss << s << " " << s << "\n" << ln << "\n"; std::istream &is = ss; tmatrix<T> v(x.zero(), 1, 1); bool ok = false; try { is >> v; ok = !is.fail(); } catch (const spffl::exception_t &) {} CHECK(!ok, "mat.malformed.istream", ss.str() << " read as " << img(v)); }
      { std::string b = "[[" + s + " " + s + "][" + ln + "]]"; tmatrix<T> v(x.zero(), 1, 1); bool ok = false; try { ok = v.bracket_in(b.data()); } catch (const spffl::exception_t &) {} CHECK(!ok, "mat.malformed", b << " read as " << img(v)); }
    }
    c.event(d == BAD ? "mutant:bad" : d == MAY ? "mutant:lenient" : "mutant:plain");
  }
}
#define TS(name, X) SECTION(text_##name) { text_case<X>(c); }
TS(mod, TInt) TS(bit, TBit) TS(rat, TRat) TS(f2, TF2) TS(fp, TFp) TS(f2n, TF2n) TS(fpn, TFpn) TS(q, TQ)
TS(f2m, TF2m) TS(fpm, TFpm) TS(f2nm, TF2nm) TS(fpnm, TFpnm) TS(pr2, TR2) TS(prp, TRp) TS(pr2n, TR2n)

// bit vectors and matrices have readers of their own
SECTION(text_bitvec) {
  Rng &r = c.rng;
  static const std::vector<int> ls = {1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 511, 512, 513, 640};
  int n = r.coin() ? r.pick(ls) : (int)r.range(1, 140);
  bit_vector_t v(n);
  for (int i = 0; i < n; i++) v.set(i, bit_t((int)r.below(2)));
  std::string im = img(v), s = str(v), w;
  c.input(im, n > 1);
  for (char ch : im.substr(1)) { if (!w.empty()) w += ' '; w += ch; }
  CHECK(s == w, "print", "prints \"" << s << "\" want \"" << w << "\"");
  { std::istringstream iss(s); bit_vector_t t(3); iss >> t; CHECK(!iss.fail() && img(t) == im && t == v, "iss", s << " read as " << img(t)); }
  { std::stringstream ss; ss << s << "\n1 0 1\n"; std::istream &is = ss; bit_vector_t t(70), u(1); is >> t >> u; CHECK(!is.fail() && img(t) == im && img(u) == "b101", "istream", s << " read as " << img(t)); }
  int nr = (int)(r.chance(1, 6) ? r.range(38, 90) : r.range(1, 5));
  if (n > 140) nr = 2;
  bit_matrix_t M(nr, n);
  for (int i = 0; i < nr; i++) for (int j = 0; j < n; j++) M[i].set(j, bit_t((int)r.below(2)));
  std::string mim = img(M), mt = str(M);
  { std::stringstream ss; ss << mt << "\n" << s << "\n"; std::istream &is = ss; bit_matrix_t t(2, 2), u(1, 1); is >> t >> u; CHECK(!is.fail() && img(t) == mim && img(u) == "{" + im + ";" + std::to_string(n) + "}", "mat.istream", mt << " read as " << img(t)); }
  if (nr > 1) { std::stringstream ss; ss << mt << "1 " << s << "\n"; std::istream &is = ss; bit_matrix_t t(1, 1); is >> t; CHECK(is.fail(), "mat.ragged", mt); }
  std::string bad = mutate(r, s);
  std::istringstream iss(bad); bit_vector_t t(1); iss >> t;
  bool plain = true;
  for (char ch : bad) if (!isspace((unsigned char)ch) && !(ch >= '0' && ch <= '9') && ch != '-' && ch != '+') plain = false;
  if (!plain) CHECK(iss.fail(), "malformed", "\"" << bad << "\" was read as " << img(t));
}
