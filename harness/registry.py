"""Which workloads decide which property."""
QUICK_SCALE = 1
# property -> list of entries (driver, section, quick cases, thorough cases, options)
D = {}


def d(driver, section, nq, nt=None, **kw):
    o = dict(kind="driver", driver=driver, section=section, nq=nq, nt=nt or nq * 30, config="san", leak=False,
             valgrind=False, cpu=20, wall=700)
    o.update(kw)
    return o


def cli(section, nq, nt=None, **kw):
    o = dict(kind="cli", driver="spiff", section=section, nq=nq, nt=nt or nq * 20, config="san", cpu=20, wall=700)
    o.update(kw)
    return o


D["C01"] = [d("d_int", "modm", 12000), d("d_int", "gf2", 3000)]
D["C02"] = [d("d_int", "nt_gcd", 12000), d("d_int", "nt_prime", 4000), d("d_int", "nt_misc", 12000)]
D["C03"] = [d("d_int", "ratq", 12000), d("d_int", "qpoly", 6000)]
D["C04"] = [d("d_poly", "ring_f2", 2400), d("d_poly", "hist_f2", 2400)]
D["C05"] = [d("d_poly", "ring_fp", 2400), d("d_poly", "hist_fp", 2400), d("d_poly", "ring_fpbig", 400), d("d_poly", "ring_fpmax", 2000)]
D["C06"] = [d("d_poly", "ring_f2n", 1600), d("d_poly", "ring_fpn", 1200), d("d_poly", "hist_f2n", 800),
            d("d_poly", "hist_fpn", 600)]
D["C07"] = [d("d_poly", "gcd_f2", 2000), d("d_poly", "gcd_fp", 2000), d("d_poly", "gcd_f2n", 1200),
            d("d_poly", "gcd_fpn", 800), d("d_int", "gcd_q", 2000)]

D["C08"] = [d("d_pm", "pm_f2", 1600), d("d_pm", "pm_fp", 1600), d("d_pm", "pm_f2n", 800), d("d_pm", "pm_fpn", 500),
            d("d_pm", "pmh_f2", 400), d("d_pm", "pmh_fp", 400), d("d_pm", "pmh_f2n", 300), d("d_pm", "pmh_fpn", 200)]
D["C09"] = [d("d_rat", "rat_f2", 2400), d("d_rat", "rat_fp", 2400), d("d_rat", "rat_f2n", 1200),
            d("d_rat", "rath_f2", 800), d("d_rat", "rath_fp", 800), d("d_rat", "rath_f2n", 400)]
D["C10"] = [d("d_fact", "fac_int", 12000), d("d_fact", "fac_f2", 3000), d("d_fact", "fac_fp", 3000), d("d_fact", "fac_f2n", 2000)]
D["C11"] = [d("d_fact", "irr_f2", 2000), d("d_fact", "irr_fp", 2400), d("d_fact", "irr_f2n", 1600), d("d_fact", "prim_f2", 2400)]
D["C12"] = [d("d_fact", "div_int", 12000), d("d_fact", "div_f2", 1600), d("d_fact", "div_fp", 1600), d("d_fact", "div_f2n", 1200)]
D["C13"] = [d("d_units", "ord_fp", 20000), d("d_units", "ord_f2", 1600), d("d_units", "ord_f2n", 1200),
            d("d_units", "gen_fp", 800), d("d_units", "gen_f2", 1200), d("d_units", "gen_f2n", 240, minchunk=10),
            d("d_fact", "prim_f2", 1600)]
D["C14"] = [d("d_units", "log_fp", 20000), d("d_units", "log_f2", 2000), d("d_units", "log_f2n", 1600)]
D["C15"] = [d("d_lin", "lin_bit", 6000), d("d_lin", "lin_fp", 6000), d("d_lin", "lin_q", 6000), d("d_lin", "lin_f2pm", 1600),
            d("d_lin", "lin_fppm", 1600), d("d_lin", "lin_f2npm", 320, minchunk=10), d("d_lin", "lin_f2rat", 1600),
            d("d_lin", "lin_fprat", 1200)]
D["C17"] = [d("d_chp", "chp_f2", 3000), d("d_chp", "chp_fp", 3000), d("d_chp", "chp_f2n", 1200), d("d_chp", "elt_f2", 1600),
            d("d_chp", "elt_fp", 3000), d("d_chp", "elt_f2n", 1200)]
D["C30"] = [d("d_chp", "convert", 800, minchunk=10)]
D["C32"] = [d("d_chp", "diag", 1600, minchunk=10), d("d_lin", "lin_f2pm", 800)]
D["C16"] = [d("d_bits", "bitvec", 12000), d("d_bits", "bitvec_hist", 6000), d("d_bits", "bitmat", 6000)]
D["C27"] = [d("d_cont", s, 3000) for s in ("tvec_int", "tvec_mod", "tvec_f2", "tvec_big", "tmat_mod", "tmat_f2", "tmat_int", "tmat_big")] + [
    d("d_cont", s, 3000) for s in ("tstack_int", "tstack_f2")] + [d("d_cont", s, 1200) for s in ("tfac_int", "tfac_mod", "tfac_f2")]

_slow = dict(fpn_poly=400, fpn_pm=160, f2n_rat=200, f2n_pm=300, vec_f2npm=200, mat_f2pm=300, mat_fprat=240)
D["C21"] = [d("d_hist", "val_" + s, _slow.get(s, 1200), minchunk=10) for s in (
    "intmod bit intrat f2_poly fp_poly f2n_poly fpn_poly q_poly f2_pm fp_pm f2n_pm fpn_pm f2_rat fp_rat f2n_rat bitvec "
    "bitmat vec_int vec_mod vec_f2 vec_fp vec_f2npm vec_rat mat_mod mat_rat mat_f2pm mat_fprat stack_int stack_fp fac_int "
    "fac_f2 fac_fp").split()]
D["C19"] = [d("d_list", "list_f2", 800, minchunk=10), d("d_list", "list_fp", 800, minchunk=10),
            d("d_list", "list_f2n", 240, minchunk=10), d("d_list", "list_int", 6000)]

D["C18"] = [d("d_text", "text_" + s, 600, minchunk=20) for s in (
    "mod bit rat f2 fp f2n fpn q f2m fpm f2nm fpnm pr2 prp pr2n bitvec").split()]

D["C20"] = [d("d_misc", "rand_mod", 800), d("d_misc", "rand_f2", 600, minchunk=20), d("d_misc", "rand_fp", 600, minchunk=20),
            d("d_misc", "rand_f2n", 240, minchunk=10)]
D["C28"] = [d("d_misc", "psdes", 12000), d("d_misc", "tokens", 12000)]
D["C29"] = [d("d_misc", "cyclo", 1600, minchunk=20), d("d_misc", "qff", 6000)]

_EXPR = "z q q_p f2 fp f2_p f2_pm f2_pr f2n_p f2n_pm f2n_pr fp_p fp_pm fp_pr fpn_p fpn_pm".split()
D["C25"] = ([cli("expr_" + k, 600) for k in _EXPR] + [cli("vec_" + k, 300) for k in "q f2 fp f2_pm f2n_pm fp_pm".split()] +
            [cli("mat_" + k, 100 if k == "f2n_pr" else 300) for k in _EXPR if k != "q_p"])
D["C26"] = [cli("brace_nest", 2400), cli("brace_words", 1200), cli("brace_balance", 800), cli("brace_long", 240)]

D["C31"] = [d("d_refuse", "ref_" + s, 900) for s in (
    "mod bit rat int f2 fp f2n fpn q f2pm fppm f2npm fpnpm f2rat fprat f2nrat lin_bit lin_mod lin_rat lin_f2pm lin_fppm lin_f2rat bits").split()]

for _k, _n in dict(C02=1800, C04=800, C05=800, C06=800, C07=2200, C10=1600, C11=1200, C12=1400, C13=2100, C14=900, C17=1800,
                   C19=1800, C20=1600, C29=1200, C30=400, C32=800).items():
    D[_k].append(cli("cmd_" + _k, _n))

D["C24"] = [cli("mal_expr", 5000), cli("mal_args", 3000), cli("mal_count", 3000), cli("mal_field", 1200), cli("mal_zero", 2500), cli("mal_soup", 2000),
            cli("mal_stdin", 1600), cli("mal_names", 800), cli("mal_long", 240)]


# "the answer depends on the operands only": every instance also run alone in its own process
_PURE = dict(C01=500, C02=500, C03=500, C04=400, C05=400, C06=200, C07=300, C08=300, C09=240, C10=240, C11=100, C12=240, C13=240,
             C14=200, C15=240, C17=240, C19=160, C28=400, C29=300, C30=80, C32=80)
for _k, _n in _PURE.items():
    D[_k].append(d("d_pure", "pure_" + _k, _n, minchunk=10, cpu=120))


def _all():
    """Every workload once: (kind, driver, section) -> quick cases of its own check."""
    out = {}
    for p in sorted(D):
        for e in D[p]:
            if e["driver"] == "d_pure":
                continue
            k = (e["kind"], e["driver"], e["section"])
            out[k] = max(out.get(k, 0), e["nq"])
    return out


_ALL = _all()
_n = lambda n, f, lo, hi: max(lo, min(hi, int(n * f)))
D["C22"] = [d(v, s, _n(n, .05, 10, 60) if s != "rand_f2n" else 10, leak=True, judge="leak", minchunk=10, cpu=60)
            for (k, v, s), n in _ALL.items() if k == "driver"]
D["C23"] = ([d(v, s, _n(n, .08, 20, 300) if s != "rand_f2n" else 20, judge="clean", minchunk=20) for (k, v, s), n in _ALL.items() if k == "driver"] +
            [d(v, s, 6, config="plain", valgrind=True, judge="clean", minchunk=10, cpu=120) for (k, v, s), n in _ALL.items() if k == "driver" and s != "rand_f2n"] +
            [cli(s, _n(n, .06, 12, 100), judge="clean") for (k, v, s), n in _ALL.items() if k == "cli"])

RULE = {}
ASSUME = {}
GENRULE = ("Each case is a function of (VERIF_SEED, section, case number): operands, shapes, moduli and operation "
           "sequences are drawn from weighted generators that favour boundaries (zero, units, word edges, equal and "
           "multiple operands, planted factors). A case's input is hashed after generation; it counts as non-trivial "
           "when the generator did not draw a degenerate operand only (zero / constant / empty), and as distinct when "
           "its (section, hash) had not been seen in this run. Judgements are individual oracle comparisons.")


def rule(p):
    return RULE.get(p, GENRULE)


def assumptions(p):
    return ASSUME.get(p, ["The reference models in drivers/ref.cpp and in the drivers are right (they share no code "
                          "with the library).", "Nothing is claimed about inputs the generators do not produce.",
                          "clang 18's sanitizer runtimes report what they instrument."])


def plan(prop, tier):
    out = []
    for e in D.get(prop, []):
        j = dict(e)
        j["n"] = j.pop("nq") if tier == "quick" else j.pop("nt")
        j.pop("nq", None)
        j.pop("nt", None)
        out.append(j)
    return out

TECH = {
    "C22": "runtime monitoring: live-heap accounting around repeated executions of every library workload (operator new/delete hooked)",
    "C23": "runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck and a CPU-time watchdog over every workload",
    "C24": "runtime monitoring: process monitor (exit, streams, time, sanitizer reports) over mutated and random command lines of the sanitized tool",
    "C31": "runtime monitoring: operations on operands without a result must throw; ASan+UBSan build"}
NOTE = {}


def technique(p):
    return TECH.get(p, "runtime monitoring: reference-model oracle over randomized executions of the ASan+UBSan build")


def level_note(p):
    return NOTE.get(p, "Held on the executions generated (counts in the evidence file); nothing is claimed about inputs "
                       "not produced. Trusts the independent reference model and the compiler's sanitizer runtime.")
