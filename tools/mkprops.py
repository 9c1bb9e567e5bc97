#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are stated)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

POLY="spffl/polynomials/"
prop("C01","Arithmetic modulo m is exact and canonical",
 "For every modulus from 2 up to 31 bits and every pair of residues, sum, difference, negation, product, integer scaling, power (positive or negative exponent), reciprocal, quotient and comparison of residues equal the mathematical values in Z/mZ, with the result always reduced to 0..m-1. A reciprocal or quotient is delivered exactly when the divisor is a unit and is refused otherwise; residues with different moduli never combine. The field with two elements behaves identically as its own type.",
 ["inputs"],"all moduli 2..2^31-1, all residues (also built from negative or oversized integers), all exponents except the most negative int",
 "The intmod type has no unit test at all and the regression scripts only use moduli below 100, so nothing reaches products beyond 32 bits, non-units of composite moduli or negative exponents.",
 ["spffl/intmath/intmod_t.cpp","spffl/intmath/intmod_t.h","spffl/bits/bit_t.h","spffl/bits/bit_t.cpp","cli/spiff/fp_handlers.cpp","cli/spiff/f2_handlers.cpp"],
 [("residue reduction and moduli check","intmod_t::intmod_t, check_moduli"),("reciprocal by Euler","intmod_t::recip"),("square and multiply","intmod_t::exp")],
 ["intmod_t public operators","spiff fp_op / f2_op"])
prop("C02","Integer number theory is mathematically right",
 "For all integers whose result fits the type: gcd is the non-negative greatest common divisor, lcm the least common multiple, the extended gcd returns Bezout coefficients of the gcd, the totient of an n above 1 counts the units, primality (of n and of -n) and the n-th prime agree with the definition, integer powers, floor and ceiling square roots, floor/ceiling base-2 and base-10 logarithms, lowest/highest set bit positions and population counts are exact.",
 ["inputs"],"all int (or unsigned / 64-bit where the function takes one) arguments for which the mathematical result is representable",
 "Unit tests sample about a hundred fixed small arguments; word-size boundaries, perfect-square neighbours, prime squares near 2^31 and sign combinations are never reached.",
 ["spffl/intmath/int_gcd.cpp","spffl/intmath/int_totient.cpp","spffl/intmath/is_prime.cpp","spffl/intmath/primes_16.cpp","spffl/intmath/int_power.cpp","spffl/intmath/int_sqrt.cpp","spffl/intmath/log2.cpp","spffl/intmath/log10.cpp","spffl/bits/count_bits.cpp","cli/spiff/z_handlers.cpp"],
 [("Euclid","int_gcd, int_ext_gcd"),("table trial division","is_prime"),("bisection","int_sqrt"),("nibble tables","find_msb_32, find_lsb_64")],
 ["function results","spiff z_gcd z_lcm z_totient z_test_prime nth_prime"])
prop("C03","Rational numbers and rational polynomials are exact",
 "As long as reduced numerators and denominators and the cross products they need stay within int, rational numbers are always in lowest terms with a positive denominator and their sum, difference, product, quotient, power and ordering are the exact rational values. Polynomials with rational coefficients satisfy the ring identities, exact division with remainder, gcd, evaluation, derivative and power against exact arithmetic. Division by zero is refused.",
 ["inputs"],"all small rationals and rational polynomials for which the exact computation stays in range",
 "There is no unit test for either type; regression lines touch a handful of integers.",
 ["spffl/intmath/intrat_t.cpp",POLY+"q_poly_t.cpp","cli/spiff/q_handlers.cpp"],
 [("lowest terms","intrat_t::simplify"),("long division","q_poly_t::quot_and_rem")],
 ["intrat_t / q_poly_t public operators","spiff q_op q_p_op"])
prop("C04","Binary polynomial arithmetic is exact at every degree",
 "For binary polynomials of every degree, including across machine-word boundaries, sum, product, quotient, remainder, power, derivative, square root, evaluation, degree, coefficient reading and writing, shifting, incrementing and ordering equal those of F2[x]. Every result is in normal form: two equal polynomials compare equal and print the same however they were obtained. quotient*divisor+remainder gives back the dividend with the remainder of smaller degree than the divisor.",
 ["inputs","histories"],"all operand degrees (0, 1, 63, 64, 65, 127, 128 and beyond), all sequences of mutating calls on one object",
 "Unit tests use about twenty fixed small polynomials, nearly all of one machine word; carries between words and normal form after cancellation need arbitrary operands.",
 [POLY+"f2_poly_t.cpp",POLY+"f2_poly_t.h","cli/spiff/f2_poly_handlers.cpp"],
 [("trim after cancellation","f2_poly_t::trim_parts"),("shift across words","_promote_n, _promote_1, _demote_1"),("long division","quot_and_rem")],
 ["f2_poly_t public operations","spiff f2_p_op f2_p_deg f2_p_eval"])
prop("C05","Arithmetic in F_p[x] is exact at every degree",
 "For polynomials over every prime field, sum, difference, negation, product, quotient, remainder, scalar operations, power, derivative, p-th root, evaluation, degree, coefficient access, shifting, incrementing and ordering equal those of F_p[x]. Results are normalised (no leading zeros, coefficients in 0..p-1), so equal polynomials compare equal and print the same. quotient*divisor+remainder gives back the dividend with the remainder of smaller degree than the divisor.",
 ["inputs","histories"],"all primes in range, all degrees, all operand pairs including zero, constants and equal operands",
 "There is no unit test for this type; the regression runs a few dozen fixed operations over p<=7.",
 [POLY+"fp_poly_t.cpp",POLY+"fp_poly_t.h","cli/spiff/fp_poly_handlers.cpp"],
 [("degree recomputation","fp_poly_t::recompute_degree"),("long division","fp_poly_t::quot_and_rem")],
 ["fp_poly_t public operations","spiff fp_p_op fp_p_deg fp_p_eval"])
prop("C06","Polynomial arithmetic over extension fields is exact",
 "For polynomials whose coefficients lie in F_{2^n} or F_{p^n}, sum, difference, negation, product, quotient, remainder, scalar operations, power, derivative, p-th (square) root, evaluation, degree, coefficient access and ordering equal those of the polynomial ring over that field. Results are normalised, and quotient*divisor+remainder gives back the dividend with the remainder of smaller degree than the divisor.",
 ["inputs"],"all irreducible base moduli, all degrees and coefficients, including zero and constant operands",
 "No unit test touches these types; the regression has fewer than twenty fixed lines on them and none for odd characteristic beyond F_9.",
 [POLY+"f2n_poly_t.cpp",POLY+"fpn_poly_t.cpp","cli/spiff/f2n_poly_handlers.cpp","cli/spiff/fpn_poly_handlers.cpp"],
 [("degree recomputation","recompute_degree"),("long division","quot_and_rem")],
 ["f2n_poly_t / fpn_poly_t public operations","spiff f2n_p_op fpn_p_op"])
prop("C07","Polynomial gcd, lcm and Bezout identities",
 "Over F_2, F_p, F_{2^n}, F_{p^n} and Q, the gcd of two polynomials divides both and is divisible by every common divisor, whichever operand is zero, constant, equal or a multiple of the other. The extended gcd additionally returns multipliers whose combination of the operands equals the returned gcd. The lcm reported by the command line is a common multiple of minimal degree.",
 ["inputs"],"all operand pairs over all supported fields, including planted common factors",
 "Unit tests check two gcds over F_2; degenerate operands (zero, units, multiples) and other fields are untested.",
 [POLY+"f2_poly_t.cpp",POLY+"fp_poly_t.cpp",POLY+"f2n_poly_t.cpp",POLY+"fpn_poly_t.cpp",POLY+"q_poly_t.cpp","cli/spiff/f2_poly_handlers.cpp","cli/spiff/fp_poly_handlers.cpp","cli/spiff/f2n_poly_handlers.cpp"],
 [("Euclid on polynomials","gcd, ext_gcd of each polynomial class")],
 ["gcd/ext_gcd results","spiff *_gcd *_lcm"])
prop("C08","Residue class rings of polynomials",
 "In K[x]/(m) for K any of F_2, F_p, F_{2^n}, F_{p^n} and any modulus m of positive degree, all arithmetic (sum, difference, negation, product, integer scaling, power with positive or negative exponent, quotient) equals polynomial arithmetic reduced mod m, and every residue has degree below that of m. An inverse exists exactly for residues coprime to m, is a two-sided inverse, and asking for any other is refused. When m is irreducible the nonzero residues form a group in which the (q^n - 1)-th power is 1, and residues of different moduli never combine.",
 ["inputs"],"all moduli (irreducible and composite), all residues, all exponents that fit an int",
 "No unit test exists for residue types; the regression covers a few fields of at most 256 elements.",
 [POLY+"f2_polymod_t.cpp",POLY+"fp_polymod_t.cpp",POLY+"f2n_polymod_t.cpp",POLY+"fpn_polymod_t.cpp","cli/spiff/f2_polymod_handlers.cpp","cli/spiff/fp_polymod_handlers.cpp","cli/spiff/f2n_polymod_handlers.cpp","cli/spiff/fpn_polymod_handlers.cpp"],
 [("reduction on construction","constructors"),("inverse by extended gcd","recip"),("moduli check","check_moduli")],
 ["*_polymod_t public operations","spiff *_pm_op"])
prop("C09","Rational functions are reduced and obey field laws",
 "Rational functions over F_2, F_p and F_{2^n} are always held with coprime numerator and denominator and a nonzero denominator, in one canonical form, so two expressions denoting the same function compare equal and print identically. Sum, difference, product, quotient and power (positive and negative) denote the exact function. Division by zero is refused.",
 ["inputs"],"all numerators and denominators over all supported fields, all expression shapes",
 "There is no unit test; the regression exercises a few fixed expressions over F_2.",
 ["spffl/rationals/f2_polyrat_t.cpp","spffl/rationals/fp_polyrat_t.cpp","spffl/rationals/f2n_polyrat_t.cpp","cli/spiff/f2_polyrat_handlers.cpp","cli/spiff/fp_polyrat_handlers.cpp","cli/spiff/f2n_polyrat_handlers.cpp"],
 [("reduction by gcd","simplify")],
 ["*_polyrat_t public operations","spiff *_pr_op"])
prop("C10","Factorisation returns exactly the prime factorisation",
 "Factoring any nonzero integer (above the most negative int) or any nonzero polynomial over F_2, F_p or F_{2^n} yields a unit and distinct prime/irreducible factors in increasing order, each with its exact multiplicity, whose product is the input. Repeated factors, p-th powers, high multiplicities and products of many or of equal-degree factors are all handled. The command-line factor listings print that same factorisation.",
 ["inputs"],"all integers in range and all polynomials, built as products with chosen multiplicities or uniformly random",
 "The regression factors a few fixed inputs; there is no unit test of factorisation, and the branch mix in Berlekamp (p-th power, squarefree split, many factors) depends on the input.",
 ["spffl/factorization/int_factor.cpp","spffl/factorization/f2_poly_factor.cpp","spffl/factorization/fp_poly_factor.cpp","spffl/factorization/f2n_poly_factor.cpp","spffl/containers/tfacinfo.h"],
 [("squarefree preparation","*_pre_berlekamp"),("Berlekamp split","*_berlekamp"),("sorted factor bag","tfacinfo::insert_factor")],
 ["tfacinfo returned by *_factor","spiff z_factor *_p_factor"])
prop("C11","Irreducibility tests and irreducible searches are exact",
 "A polynomial over F_2, F_p or F_{2^n} is reported irreducible exactly when it is. The search for an irreducible of a given degree returns an irreducible monic polynomial of exactly that degree, the first in the library's ordering among those it searches, and random irreducibles are irreducible of the requested degree; likewise primitive polynomial searches return primitive polynomials of the requested degree and primitivity is decided exactly.",
 ["inputs"],"all polynomials of degree >= 1, all requested degrees, all random draws",
 "The regression tests a few fixed polynomials; the random searches have no expected output at all.",
 ["spffl/factorization/f2_poly_factor.cpp","spffl/factorization/fp_poly_factor.cpp","spffl/factorization/f2n_poly_factor.cpp","spffl/units/f2_polymod_units.cpp"],
 [("irreducibility test","*_poly_is_irreducible"),("searches","*_find_irr*, *_random_irr*, f2_poly_find_prim, f2_poly_random_prim")],
 ["function results","spiff *_p_test *_p_find"])
prop("C12","Divisor lists and totients are complete and exact",
 "For integers and for polynomials over F_2, F_p and F_{2^n}, the listed divisors are exactly the (monic) divisors, each once, in increasing order, the maximal proper divisors are exactly the quotients by each prime factor, and the number of divisors matches. The totient of an argument above 1 (of positive degree) equals the number of residues coprime to it.",
 ["inputs"],"all nonzero integers and polynomials for which the counts fit in int",
 "The regression lists divisors of a few fixed inputs; multiplicity patterns are not varied.",
 ["spffl/containers/tfacinfo.h","spffl/factorization/f2_poly_totient.cpp","spffl/factorization/fp_poly_totient.cpp","spffl/factorization/f2n_poly_totient.cpp","spffl/intmath/int_totient.cpp"],
 [("multibase enumeration","tfacinfo::get_kth_divisor, get_all_divisors"),("totient from factorisation","*_poly_totient")],
 ["tfacinfo methods","spiff *_divisors *_totient"])
prop("C13","Multiplicative orders, periods and generators are exact",
 "The order reported for a unit of Z/m, of a residue ring of polynomials or for an invertible matrix is the least positive exponent giving the identity, and non-units are refused. The period of a binary polynomial with nonzero constant term is the least e with x^e = 1 modulo it. A reported generator generates the whole unit group and one is found whenever the group is cyclic; orbit and maximal-order listings agree with these orders.",
 ["inputs"],"all units and non-units of all moduli whose group order fits an int",
 "Only a few small groups appear in the regression; minimality of an order cannot be seen from samples in one group.",
 ["spffl/units/fp_units.cpp","spffl/units/f2_polymod_units.cpp","spffl/units/f2n_polymod_units.cpp","cli/spiff/fp_handlers.cpp","cli/spiff/f2_handlers.cpp","cli/spiff/fp_polymod_handlers.cpp","cli/spiff/fpn_polymod_handlers.cpp"],
 [("search over divisors of the group order","*_order"),("generator scan","*_find_generator")],
 ["function results","spiff *_ord *_find_gen f2_p_period fp_max_ord fp_orbit *_mat_ord"])
prop("C14","Discrete logarithms invert exponentiation",
 "For every generator g and every nonzero element a of F_p, F_2[x]/(m) or F_{2^n}[y]/(m) with irreducible m, the discrete logarithm exists, lies in the range 0 to the group order minus one, and g raised to it equals a. For a g that is not a generator, a result is given only if it is a true logarithm.",
 ["inputs"],"all generators, all nonzero elements, all field sizes whose order fits an int",
 "The regression takes logs in one or two small fields; the baby-step/giant-step match depends on field size and element.",
 ["spffl/units/fp_units.cpp","spffl/units/f2_polymod_units.cpp","spffl/units/f2n_polymod_units.cpp","spffl/intmath/int_sqrt.cpp"],
 [("baby steps / giant steps","fp_log, f2_polymod_log, f2n_polymod_log")],
 ["function results","spiff fp_log f2_pm_log f2n_pm_log"])
prop("C15","Linear algebra over every field is exact",
 "For matrices over Q, F_p, F_2[x]/(m), F_p[x]/(m) and rational functions: sums, products, powers and transposes are exact, the determinant equals the Leibniz value, the inverse exists exactly when the determinant is nonzero and is a two-sided inverse, row echelon forms are row equivalent to the input and echelon (reduced forms have unit pivots alone in their column), rank plus kernel dimension equals the number of columns, and the kernel basis is independent and annihilated. Row reduction never loses or reorders information across rectangular, singular, zero and identity shapes.",
 ["inputs"],"all shapes up to the tested size, all ranks, all fields",
 "Only F_2 bit matrices have a unit test and the regression covers fixed 2x2..5x5 inputs; pivoting paths depend on where zeros fall.",
 ["spffl/containers/tmatrix.h","spffl/linalg/fp_linear_algebra.cpp","spffl/linalg/f2_linear_algebra.cpp","spffl/linalg/f2_polymod_linear_algebra.cpp","spffl/cli_parser/cmd_line_matrix_ops.h"],
 [("elimination","tmatrix::row_echelon_form, row_reduce_below"),("kernel","tmatrix::get_kernel_basis"),("inverse","tmatrix::inverse")],
 ["tmatrix methods","spiff *_mat_op *_mat_solve"])
prop("C16","Bit-packed vectors and matrices equal their elementwise meaning",
 "Bit vectors and bit matrices of every length behave exactly like vectors and matrices of individual elements of F_2: element get/set/toggle, assignment, copy, equality, sum, product, dot product, leading position, row reduction, rank, kernel, determinant, transpose, outer product, splitting and identity construction do not depend on where the length falls relative to a machine word.",
 ["inputs","histories"],"all lengths 0..300 with emphasis on multiples of 64 plus or minus one, all contents, sequences of mutations",
 "Unit tests use fixed vectors of a few lengths; equality and trimming at word boundaries need length sweeps.",
 ["spffl/bits/bit_vector_t.cpp","spffl/bits/bit_vector_t.h","spffl/bits/bit_matrix_t.cpp"],
 [("word layout and trimming","bit_vector_t::trim, SET_BIT/CLEAR_BIT"),("word-parallel elimination","bit_matrix_t::row_echelon_form")],
 ["public methods"])
prop("C17","Minimal and characteristic polynomials are correct",
 "The characteristic polynomial of a square matrix over F_2, F_p or F_{2^n} is det(xI - A), is monic of the matrix dimension and annihilates the matrix, and the companion matrix of a monic polynomial has that polynomial as its characteristic polynomial. For an element of a finite field extension, the minimal polynomial is the monic irreducible polynomial of least degree over the base field vanishing at it and the characteristic polynomial is its power of degree equal to the extension degree.",
 ["inputs"],"all square matrices, all elements of all fields (irreducible moduli)",
 "Regression covers a handful of fixed matrices and elements.",
 ["spffl/linalg/min_char_polys.cpp","spffl/linalg/f2_linear_algebra.cpp","spffl/linalg/fp_linear_algebra.cpp","spffl/linalg/f2_polymod_linear_algebra.cpp"],
 [("evaluation/interpolation or elimination","*_char_poly"),("Frobenius orbit product","*_min_poly")],
 ["function results","spiff *_ch_pol *_min_pol *_mat_ch_pol *_comp_mx"])
prop("C18","Text output reads back as the same value",
 "Every value the library or the command-line tool prints - residues, rationals, polynomials over each field, residue classes, rational functions, vectors and matrices of them - is accepted as input in the same context and reads back as an equal value. Text that does not denote a value of the type is rejected rather than silently read as another value. Printing a value leaves the formatting of the stream as it was.",
 ["inputs"],"all values of all printable types, hexadecimal and coefficient-list notations, compact single-digit and comma-separated forms, malformed text",
 "Only binary polynomials have a few I/O tests; separators and digit widths change with the field and the value.",
 [POLY+"f2_poly_t.cpp",POLY+"fp_poly_t.cpp",POLY+"f2n_poly_t.cpp",POLY+"fpn_poly_t.cpp",POLY+"q_poly_t.cpp","spffl/intmath/intrat_t.cpp","spffl/containers/tvector.h","spffl/containers/tmatrix.h","spffl/bits/bit_vector_t.cpp","spffl/base/tokenize.cpp"],
 [("printing","operator<<"),("parsing","operator>>, from_string")],
 ["stream operators and from_string of every type","spiff output fed back as input"])
prop("C19","Listings and operation tables are complete and correct",
 "A listing of ring elements, units, non-units, polynomials of a degree, divisors-style subsets, multiples of or elements coprime to a given element, and affine/projective points contains exactly the elements that qualify, each exactly once, in the documented increasing order. Every cell of a printed operation table is the result of that operation on its row and column labels.",
 ["inputs","configurations"],"all small rings of each kind, every list selector, every table operator",
 "Regression compares a few fixed listings; selectors on composite moduli are barely covered.",
 ["spffl/list/list_elements.cpp","cli/spiff/fp_handlers.cpp","cli/spiff/f2_polymod_handlers.cpp","cli/spiff/fp_polymod_handlers.cpp","cli/spiff/f2n_polymod_handlers.cpp","cli/spiff/fpn_polymod_handlers.cpp","cli/spiff/tbl_types.h"],
 [("enumeration by increment","list_elements")],
 ["list functions","spiff *_list *_tbl"])
prop("C20","Random elements are well-formed and cover their domain",
 "Every random element drawn is a valid element of the requested domain: residues in range, polynomials of exactly the requested degree with valid coefficients, residue classes reduced, matrices of the requested shape. Over many draws every element of a small domain occurs, so no value is systematically excluded, and successive draws are not constant.",
 ["inputs","histories"],"all domains, all seeds",
 "Random commands have no expected output in the tests at all.",
 ["spffl/random/int_random.cpp","spffl/random/intmod_random.cpp","spffl/random/f2_poly_random.cpp","spffl/random/fp_poly_random.cpp","spffl/random/f2n_poly_random.cpp","spffl/random/f2_polymod_random.cpp","spffl/random/fp_polymod_random.cpp","spffl/random/f2n_polymod_random.cpp"],
 [("reduction of raw random words","*_random")],
 ["function results","spiff *_random"])
prop("C21","Values are independent: copy and assignment never alias",
 "Copying or assigning any library value (numbers, polynomials, residues, rationals, vectors, matrices, stacks, factor lists) yields an equal and independent value: later changing either one never changes the other, self-assignment changes nothing, and assignment between values of different size, degree or modulus is exact in both directions. An operation does not modify its operands, compound assignment gives the same result as the plain operator, also when both sides are the same object.",
 ["histories","inputs"],"all interleavings of copy, assign, mutate and destroy on several live objects of different sizes",
 "Tests never interleave mutations of copies; a shared buffer is invisible until one copy changes or dies.",
 [POLY+"fp_poly_t.cpp",POLY+"f2n_poly_t.cpp",POLY+"fpn_poly_t.cpp",POLY+"q_poly_t.cpp",POLY+"f2_poly_t.cpp","spffl/containers/tvector.h","spffl/containers/tmatrix.h","spffl/containers/tstack.h","spffl/containers/tfacinfo.h","spffl/bits/bit_vector_t.cpp","spffl/bits/bit_matrix_t.cpp"],
 [("deep copy","copy constructors and operator= of each class")],
 ["object states after every step"])
prop("C22","Everything allocated is released",
 "No library operation leaks: after the operation and the destruction of its operands and results - also when the operation ends in an error report - the amount of live heap memory is what it was before. Long computations therefore run in bounded memory.",
 ["histories","inputs"],"all operations of all types, on success and error paths",
 "The tests never measure memory; a leak does not change any printed result.",
 [POLY+"fp_poly_t.cpp",POLY+"f2n_poly_t.cpp",POLY+"fpn_poly_t.cpp",POLY+"q_poly_t.cpp","spffl/containers/tfacinfo.h","spffl/containers/tmatrix.h","spffl/bits/bit_matrix_t.cpp","spffl/units/f2_polymod_units.cpp","spffl/units/fp_units.cpp","spffl/units/f2n_polymod_units.cpp"],
 [("destructors","~ of each class"),("scratch arrays","new[]/delete[] in units and linalg")],
 ["live allocated bytes and blocks around each operation"])
prop("C23","No memory error or undefined behaviour on valid use",
 "No operation of the library or of the command-line tool, on any valid or refused input, reads or writes outside its objects, uses freed or uninitialised memory, overflows a signed integer in a computation whose inputs and result are representable, shifts out of range or otherwise executes undefined behaviour. Every such operation terminates.",
 ["inputs","histories"],"all operations on all valid operands and on operands that are refused with an error",
 "The tests are not built with sanitizers and use small inputs; out-of-bounds accesses and overflows are silent.",
 ["spffl","cli/spiff"],
 [("bounds and normal-form discipline","all classes")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer and memcheck reports over the workloads of the other properties"])
prop("C24","Malformed command lines are reported, never crash or hang",
 "For every command line - unknown or missing commands, wrong argument counts, syntactically bad or empty expressions, unbalanced brackets, values of the wrong type, division by zero, non-invertible matrices, oversized tokens - the tool terminates by itself with a diagnostic or usage message and without abnormal termination, memory error or unbounded output. A usage message is the end of the run, and the exit status is then nonzero. A malformed expression is never answered with a number as if it were valid. (A command whose answer is a sequence may print nothing when the sequence is empty.)",
 ["inputs"],"all argument vectors: mutations of valid ones, random tokens, truncated and over-long tokens, for each command",
 "The regression contains only well-formed command lines.",
 ["cli/spiff/spiff_main.cpp","cli/spiff/handlers.h","spffl/cli_parser/cmd_line_ops.h","spffl/cli_parser/cmd_line_matrix_ops.h","spffl/cli_parser/cmd_line_vector_ops.h","spffl/cli_parser/cmd_interp.cpp"],
 [("top-level catch","spiff_main.cpp main/try_main"),("parser errors","cmd_line_ops.h"),("usage checks","each handler")],
 ["exit status, stdout, stderr of spiff"])
prop("C25","Expression evaluation follows the documented grammar",
 "For every operand type and every well-formed expression, the command-line evaluator prints the value of the expression under the usual reading: parentheses first, then power, unary sign, then product/quotient/remainder, then sum/difference, then order comparisons, then equality, operators of one level associating to the left (each token being one argument). An expression whose value does not exist (division by zero, inverse of a non-unit, mismatched shapes) is reported, never given a number.",
 ["inputs","programs"],"all expression trees over all operand types within the size bound, written with the parentheses the grammar needs or more",
 "The regression evaluates single-operator expressions; precedence and associativity mixes are untested.",
 ["spffl/cli_parser/cmd_line_ops.h","spffl/cli_parser/cmd_line_matrix_ops.h","spffl/cli_parser/cmd_line_vector_ops.h","cli/spiff/z_handlers.cpp"],
 [("recursive descent","cmd_line_ops.h"),("matrix/vector evaluators","cmd_line_matrix_ops.h, cmd_line_vector_ops.h")],
 ["stdout of spiff *_op *_mat_op *_vec_op"])
prop("C26","Brace substitution equals running the inner command",
 "A brace-delimited inner command on the command line is replaced by the words of exactly the output that inner command prints on its own, at any nesting depth, for several substitutions in one line, at any position and for outputs of any length. Command lines without braces are passed through unchanged, and unbalanced braces are refused.",
 ["inputs","programs"],"all nestings and sequences of inner commands with short and very long outputs",
 "No test uses substitution.",
 ["spffl/cli_parser/cmd_interp.cpp","spffl/cli_parser/cmd_interp.h","spffl/base/tokenize.cpp"],
 [("innermost-first replacement","cmd_interpolate")],
 ["stdout of nested versus explicit spiff invocations"])
prop("C27","Vectors, matrices, stacks and factor lists behave as containers",
 "Generic vectors, matrices and stacks return exactly what was stored: indexing, sorting, sub-ranges, appending, row and column access, pasting and splitting, push/pop order, equality and elementwise arithmetic match a simple sequence model, and every out-of-range access or shape mismatch is refused. A factor list keeps its entries distinct and sorted with multiplicities adding up over any insertion and merge order.",
 ["histories","inputs"],"all sequences of container operations, all shapes, any number of distinct factors",
 "There are no container tests; the factor list's growth path needs more than twenty distinct entries.",
 ["spffl/containers/tvector.h","spffl/containers/tmatrix.h","spffl/containers/tstack.h","spffl/containers/tfacinfo.h"],
 [("bounds checks","check_bounds"),("binary search insert","tfacinfo::find, insert_factor")],
 ["container contents after every operation"])
prop("C28","The pseudo-DES generator and tokenizer primitives are deterministic and exact",
 "The 64-bit pseudo-DES hash is a bijection computed as its published four-round Feistel network; the generators built on it are a function of their seed and state alone, so equal seeds give equal streams, reentrant and global forms agree, and floats lie in [0,1). Line splitting returns exactly the maximal runs of non-separator characters, up to the limit, in order.",
 ["inputs","histories"],"all 64-bit inputs, all seeds, all lines and separator sets",
 "The generator has no test beyond a sample program; tokenizer tests use a few lines.",
 ["spffl/bitrand/psdes.cpp","spffl/base/tokenize.cpp","spffl/base/line_scan.cpp"],
 [("Feistel rounds","psdes_hash_64"),("tokenizer","tokenize, count_tokens")],
 ["function results","psdes program output"])
prop("C29","Cyclotomic polynomials and reductions modulo a prime",
 "For every n, the cyclotomic polynomial over Q is monic of degree the totient of n and the product over the divisors d of n equals x^n - 1. Its images over F_2, F_p, F_{2^n} and F_{p^n}, and in general the image of a rational polynomial, are the coefficientwise reductions, refused when a denominator vanishes.",
 ["inputs"],"all n in range, all primes and base fields, all rational polynomials",
 "Regression prints a few cyclotomics; reduction to the finite fields is untested.",
 ["spffl/q_cyclotomic/cyclo_poly.cpp","spffl/q_cyclotomic/qff.cpp"],
 [("product formula","get_cyclo_qpoly"),("coefficient reduction","qff.cpp")],
 ["function results","spiff q_cyclotomic *_qp"])
prop("C30","Conversions between representations of a field are isomorphisms",
 "Given two irreducible binary moduli of the same degree (or one whose field contains the other), the conversion prepared from a generator maps sums to sums, products to products, zero to zero and one to one, is injective, keeps minimal polynomials, and applies coefficientwise to polynomials and matrices.",
 ["inputs"],"all pairs of irreducible moduli of the same or dividing degree, all elements",
 "No test touches conversion of more than one or two elements.",
 ["spffl/linalg/f2_polymod_convert.cpp","spffl/factorization/f2n_poly_factor.cpp","cli/spiff/f2_polymod_handlers.cpp"],
 [("root of minimal polynomial","f2_polymod_convert_prep"),("log/exp transfer","f2_polymod_convert_scalar")],
 ["function results","spiff f2_pm_convert"])
prop("C31","Invalid operations are refused and leave operands unchanged",
 "Division or reduction by zero, inverse of a non-unit, zero to a negative power, zero to the zeroth power in every field type but the two-element bit type, mixing moduli or fields, incompatible vector or matrix shapes, out-of-range coefficients or indices, and searches with impossible parameters are always reported as a library error, never answered with a value and never by terminating the program. After such a refusal every operand still has its previous value and remains usable.",
 ["inputs","histories"],"all operations with each kind of invalid operand",
 "Only a few bit-vector bounds errors are tested; each operation has its own check that could be missing.",
 ["spffl/base/spffl_exception.h","spffl/intmath","spffl/polynomials","spffl/rationals","spffl/containers","spffl/bits","spffl/units"],
 [("exceptions","spffl::exception_t thrown by each check")],
 ["exceptions and operand values after them"])
prop("C32","Diagonalizability and eigenvalues over extension fields",
 "For a square matrix over F_2[x]/(m) with irreducible m, diagonalizability (possibly over an extension) is reported exactly when the matrix is diagonalizable over its splitting field, reported eigenvalues are exactly the distinct roots of the characteristic polynomial, and solving a linear system returns the solution exactly when there is exactly one, and says so otherwise.",
 ["inputs"],"all small square matrices over small binary fields",
 "The regression has one or two matrices.",
 ["spffl/linalg/f2_polymod_linear_algebra.cpp","cli/spiff/f2_polymod_handlers.cpp"],
 [("splitting field and kernels","f2_polymod_matrix_is_diagonalizable"),("solver","tmatrix / f2_pm_mat_solve")],
 ["function results","spiff f2_pm_mat_diagonalizable f2_pm_mat_solve"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P))
