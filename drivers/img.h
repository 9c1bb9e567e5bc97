// The value of a library object as text, read through its accessors only (never through operator<< or ==).
#ifndef VERIF_IMG_H
#define VERIF_IMG_H
#include "adapt.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/bits/bit_vector_t.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tstack.h"
#include "spffl/containers/tvector.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/polynomials/q_poly_t.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
using spffl::intmath::intrat_t;
using spffl::bits::bit_vector_t;
using spffl::bits::bit_matrix_t;
using namespace spffl::rationals;

// ---------------------------------------------------------------- images: the value as text, read through accessors only
static std::string img(int a) { return std::to_string(a); }
static std::string img(const bit_t &a) { return std::to_string(a.get_residue()); }
static std::string img(const intmod_t &a) { return std::to_string(a.get_residue()) + "m" + std::to_string(a.get_modulus()); }
static std::string img(const intrat_t &a) { return std::to_string(a.get_numerator()) + "/" + std::to_string(a.get_denominator()); }
static std::string img(const f2_poly_t &a) { std::string s; for (int d = a.find_degree(); d >= 0; d--) s += (char)('0' + a.bit_at(d)); return s; }
static std::string img(const f2_polymod_t &a) { return img(a.get_residue()) + "m" + img(a.get_modulus()); }
static std::string img(const fp_polymod_t &a);
template <class P> static std::string cimg(const P &a) { std::string s = "<"; for (int d = a.find_degree(); d >= 0; d--) s += img(a.get_coeff(d)) + ","; return s + ">"; }
static std::string img(const q_poly_t &a) { return cimg(a); }
static std::string img(const fp_poly_t &a) { return cimg(a); }
static std::string img(const fp_polymod_t &a) { return img(a.get_residue()) + "m" + img(a.get_modulus()); }
static std::string img(const f2n_poly_t &a) { return cimg(a); }
static std::string img(const fpn_poly_t &a) { return cimg(a); }
static std::string img(const f2n_polymod_t &a) { return img(a.get_residue()) + "m" + img(a.get_modulus()); }
static std::string img(const fpn_polymod_t &a) { return img(a.get_residue()) + "m" + img(a.get_modulus()); }
static std::string img(const f2_polyrat_t &a) { return img(a.get_numerator()) + "/" + img(a.get_denominator()); }
static std::string img(const fp_polyrat_t &a) { return img(a.get_numerator()) + "/" + img(a.get_denominator()); }
static std::string img(const f2n_polyrat_t &a) { return img(a.get_numerator()) + "/" + img(a.get_denominator()); }
static std::string img(const bit_vector_t &a) { std::string s = "b"; for (int i = 0; i < a.get_num_elements(); i++) s += (char)('0' + a.get_int(i)); return s; }
static std::string img(const bit_matrix_t &a) { bit_matrix_t &m = const_cast<bit_matrix_t &>(a); std::string s = "{"; for (int i = 0; i < a.get_num_rows(); i++) s += img(m[i]) + ";"; return s + std::to_string(a.get_num_cols()) + "}"; }
template <class E> static std::string img(const tvector<E> &a) { std::string s = "["; for (int i = 0; i < a.get_num_elements(); i++) s += img(a[i]) + " "; return s + "]"; }
template <class E> static std::string img(const tmatrix<E> &a) { std::string s = "{"; for (int i = 0; i < a.get_num_rows(); i++) s += img(a[i]); return s + std::to_string(a.get_num_cols()) + "}"; }
template <class E> static std::string img(const tstack<E> &a) { tstack<E> z(a); std::string s = "S"; E e; for (int k = 0; k < 1000 && z.pop(e); k++) s += img(e) + " "; return s; }
template <class E> static std::string img(const tfacinfo<E> &a) {
  std::string s = "F";
  E u;
  if (a.get_unit(u)) s += img(u) + "*";
  for (int i = 0; i < a.get_num_distinct(); i++) s += img(a.get_ith_factor(i)) + "^" + std::to_string(a.get_ith_count(i)) + " ";
  return s;
}
#endif
