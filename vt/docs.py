"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below: python3 -m vt.docs"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = "TLA+ specification checked with TLC; recorded runs of the real program checked to be behaviours of it"
INP = ["inputs", "configurations"]

P = []


def prop(pid, title, statement, over, text, why, files, mech, note, state=(), observe=("the answer written to stdout or the -o file",),
         hook=None, technique=CONF, level="model_checking"):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note,
                  state=state, observe=observe, hook=hook, technique=technique, level=level))


NOTE = ("TLC computes the mathematical truth of every generated system from its definition in the specification (reduced Groebner basis, "
        "dimension, radical, real roots, all exact) and accepts the recorded run only if each answer is the right one. ")
TRUST = "Trusts TLC, the reader of msolve's output, and the Java overrides of the arithmetic operators (cross-checked with their TLA+ definitions). "
BOUND = "Bounded: small systems (up to about 6 variables, degree 4; more for special families), sampled anew from VERIF_SEED."

prop("C01", "Reduced Groebner bases over prime fields are right",
     "For every system of polynomials over a prime field of at most 31 bits, the program asked for a Groebner basis writes the reduced Groebner basis of the ideal they generate for the graded reverse lexicographic order, sorted by leading monomial, and asked for the leading ideal its leading monomials. The basis is unique, so there is exactly one right answer.",
     INP, "every input system with nonzero generators over every prime field below 2^31, every linear-algebra variant and seed",
     "The tests compare a dozen fixed systems with stored bases; wrong reductions, lost pairs or bad arithmetic can show only for particular supports, exponents, numbers of variables or coefficient patterns.",
     ["src/neogb/f4.c", "src/neogb/update.c", "src/neogb/symbol.c", "src/neogb/hash.c", "src/neogb/order.c", "src/neogb/convert.c",
      "src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/basis.c", "src/msolve/iofiles.c"],
     [("critical pairs and their criteria", "src/neogb/update.c"), ("symbolic preprocessing", "src/neogb/symbol.c"),
      ("linear algebra for 8, 16 and 32 bit primes", "src/neogb/la_ff_*.c"), ("final interreduction", "src/neogb/f4.c: reduce_basis")],
     NOTE + TRUST + BOUND,
     state=[("basis", "elements found so far, redundancy flags", "src/neogb/data.h: bs_t"), ("pairset", "critical pairs to treat", "src/neogb/data.h: ps_t"),
            ("hash table", "monomials", "src/neogb/data.h: ht_t")])

prop("C02", "Eliminating variables gives the elimination basis",
     "Asked to eliminate the first k variables, the program writes the reduced Groebner basis for the elimination order over a prime field, and over the rationals the reduced Groebner basis of the ideal of all consequences that do not involve the eliminated variables.",
     INP, "every input system, every k from 1 to the number of variables minus 1, prime fields and the rationals",
     "The tests run elimination on a handful of systems; the block order changes monomial comparison, pair selection and the hash table layout in ways only some supports expose.",
     ["src/neogb/order.c", "src/neogb/hash.c", "src/neogb/io.c", "src/msolve/lifting-gb.c", "src/msolve/iofiles.c"],
     [("block order comparison", "src/neogb/order.c"), ("restriction of a lifted basis to the remaining variables", "src/msolve/lifting-gb.c")],
     NOTE + "Over the rationals by the images modulo two auxiliary primes that play no role in the implementation. " + TRUST + BOUND)

prop("C03", "Groebner bases over the rationals are right",
     "For every system with rational coefficients the program asked for a Groebner basis writes polynomials with integer coefficients which, made monic, are the reduced Groebner basis of the ideal over the rationals, whatever primes were used to compute it.",
     INP, "every rational input system, every random choice of primes (except where a random prime reduces the system to a different, simpler one at the learning stage), every linear-algebra variant",
     "The answer depends on randomly drawn primes, on rational reconstruction and on stopping it at the right time; tests fix neither and cover few systems.",
     ["src/msolve/lifting-gb.c", "src/crt/mpq_reconstruct.c", "src/crt/mpz_CRT_ui.c", "src/neogb/modular.c", "src/neogb/f4.c"],
     [("tracing at the first prime, applying the trace at the next ones", "src/neogb/modular.c"), ("Chinese remaindering and rational reconstruction", "src/msolve/lifting-gb.c"),
      ("verification at a further prime", "src/msolve/lifting-gb.c")],
     NOTE + "The answer's ideal membership, the Buchberger criterion and reducedness are decided over the rationals, the leading ideal by images at auxiliary primes. " + TRUST + BOUND)

prop("C04", "Options that choose an algorithm do not change the answer",
     "The linear-algebra variant, the number of threads, pair-selection limits, hash table size and update, the random seed, verbosity, precision and the output destination do not change what is answered, only how it is computed.",
     INP + ["schedules"], "every combination of these options on every system; random seeds and thread schedules as they occur",
     "The tests run each system under very few combinations; interactions of options need particular systems to show.",
     ["src/msolve/main.c", "src/neogb/f4.c", "src/neogb/la_ff_32.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_8.c", "src/neogb/hash.c", "src/msolve/msolve.c"],
     [("option parsing", "src/msolve/main.c"), ("resets of unsuitable combinations", "src/neogb/io.c"), ("dispatch of linear algebra", "src/neogb/io.c")],
     NOTE + "Every configuration is decided against the same truth, so agreement follows. " + TRUST + BOUND)

prop("C05", "All real solutions are found and isolated",
     "For a rational system with finitely many complex solutions the boxes written are rigorous: every real solution lies in exactly one box, and every box contains exactly one.",
     INP, "every rational system with finitely many complex solutions, every separating form drawn at random",
     "The tests compare a few systems' text; clustered or exactly rational roots, multiplicities, large coefficients or cancelling denominators occur in few of them.",
     ["src/usolve/usolve.c", "src/usolve/descartes.c", "src/usolve/refine.c", "src/msolve/msolve.c"],
     [("root isolation by Descartes' rule and bisection", "src/usolve/usolve.c"), ("refinement", "src/usolve/refine.c"),
      ("evaluation of the coordinates at an isolating interval", "src/msolve/msolve.c")],
     NOTE + "Real roots are isolated in the specification by Sturm queries, box membership by exact signs at algebraic numbers. " + TRUST + BOUND)

prop("C06", "Rational parametrizations describe all solutions",
     "A parametrization written for a system with finitely many solutions has a square-free eliminating polynomial with one root per solution, and evaluating the coordinate polynomials at its roots gives exactly the solutions, with the degree of the ideal as the stated multiplicity total; over the rationals and over large prime fields.",
     INP, "every system with finitely many solutions over the rationals or a prime field of at least 16 bits (below 1518500213), every random linear form",
     "The tests compare text for some systems in generic position; systems without a cyclic leading variable, with multiplicities or needing a new variable have many shapes.",
     ["src/fglm/fglm_core.c", "src/fglm/berlekamp_massey.c", "src/msolve/msolve.c", "src/msolve/lifting.c", "src/msolve/iofiles.c"],
     [("Wiedemann and Berlekamp-Massey", "src/fglm/fglm_core.c"), ("change of coordinates when the position is not generic", "src/msolve/msolve.c"),
      ("lifting of the parametrization", "src/msolve/lifting.c")],
     NOTE + "The generators are evaluated at the parametrization modulo its eliminating polynomial; counts by the radical. " + TRUST + BOUND)

prop("C07", "No, finitely many and infinitely many solutions are told apart",
     "A system is answered as having no solution exactly when it has none in the algebraic closure, and as having infinitely many exactly when its dimension is positive.",
     INP, "every system over the rationals or a prime field",
     "Systems on the boundary (one variable not determined, the unit ideal found late, over-determined) are many; the tests have a few of each.",
     ["src/msolve/msolve.c", "src/msolve/hilbert.c", "src/neogb/f4.c"],
     [("dimension from the leading monomials", "src/msolve/hilbert.c"), ("early detection of the unit ideal", "src/neogb/f4.c")],
     NOTE + TRUST + BOUND)

prop("C08", "Boxes are as narrow as the precision asked for",
     "Asked for precision p, the boxes of the real solutions still contain exactly one solution each, and the interval of the coordinate the others are computed from is at most 2^-p wide.",
     INP, "every rational system with finitely many solutions, every precision",
     "The tests use one or two precisions; limb boundaries, exact roots and precisions below the isolation width differ.",
     ["src/usolve/refine.c", "src/usolve/usolve.c", "src/msolve/msolve.c"],
     [("quadratic interval refinement", "src/usolve/refine.c"), ("widths of the coordinates", "src/msolve/msolve.c: lazy_single_real_root_param")],
     NOTE + "The width is claimed for the parametrizing coordinate only; the others are enclosures. " + TRUST + BOUND)

prop("C09", "The schedule of the threads does not change the answer",
     "Run with several threads, the program answers as it does with one, whatever the order in which the threads reduce rows, compete for the same pivot or share the work of isolating roots.",
     ["schedules", "inputs"], "every schedule of the threads on every system, for bases, normal forms, parametrizations and real roots",
     "A test meets one schedule of a handful of small systems, and threads that start one after the other hardly ever meet.",
     ["src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/update.c", "src/neogb/convert.c", "src/usolve/taylor_shift.c",
      "src/usolve/descartes.c", "src/fglm/linalg-fglm.c"],
     [("pivots installed by compare-and-swap", "src/neogb/la_ff_*.c"), ("parallel update and conversion", "src/neogb/update.c, src/neogb/convert.c"),
      ("parallel Taylor shifts and sign counts", "src/usolve/taylor_shift.c, src/usolve/descartes.c")],
     "The race for pivots is a model (PivotRace.tla): TLC explores every schedule of three threads on every three rows over the field with two elements, and refutes the "
     "variants that drop a late row or test and write separately. The real program runs in a build whose threads are held back at random at function calls and wait for "
     "each other before each compare-and-swap (about 40% of them fail then), and its answers are decided by the specification. " + TRUST + "Schedules are sampled, not enumerated, in the real program.",
     state=[("pivs", "pivots found so far, one for each column", "src/neogb/la_ff_*.c")])

prop("C11", "Normal forms are right",
     "Asked for the normal forms of the last k polynomials with respect to the ideal of the others, the program writes for each the unique remainder modulo the reduced Groebner basis, in the order of the input - for the degree reverse lexicographical order and for block orders, and also when it is told that the other polynomials are a Groebner basis already.",
     INP, "every system and every list of polynomials over prime fields of at most 31 bits, any number of threads",
     "Members of the ideal, already reduced polynomials and mixtures of them take different paths; the tests have very few lists.",
     ["src/neogb/nf.c", "src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/msolve/msolve.c"],
     [("reduction of the matrix of polynomials by the basis", "src/neogb/nf.c"), ("exact linear algebra without interreduction", "src/neogb/la_ff_*.c")],
     NOTE + TRUST + BOUND)

prop("C12", "An input file means what its text says",
     "A file in the documented format - names, characteristic, polynomials separated by commas - means the same polynomials whatever blanks, line breaks, order of terms and factors, repeated factors, signs, exponents written or omitted, repeated or cancelling terms and sizes of coefficients it uses; the header of an answer names its variables, order, characteristic and length.",
     ["inputs"], "every text in the format",
     "Texts vary in endlessly many ways; the tests' files are all written in one style.",
     ["src/msolve/iofiles.c"],
     [("counting of variables, generators and terms", "src/msolve/iofiles.c: get_nvars, get_ngenerators, get_nterms"),
      ("coefficients", "src/msolve/iofiles.c: get_coefs_and_exponents"), ("storing monomials and coefficients", "src/msolve/iofiles.c")],
     "The specification reads the file character by character (a state machine over characters), the truth is computed from what it read, the basis printed is read by the same machine. " + TRUST + BOUND)

prop("C13", "Bad primes do not change the answer",
     "Whichever of the randomly drawn primes reduce a rational system to one of another shape, or to the image of a different, simpler answer, the program recovers - by dropping the image or learning anew - and answers as it would with good primes (at most two such primes, none a false confirmation).",
     ["histories", "inputs"], "every sequence of good, degenerate and misleading primes with at most two that are not good among the first five drawn, on every system that has them",
     "Bad primes among 30-bit primes are so rare that no test meets one.",
     ["src/msolve/lifting-gb.c", "src/msolve/msolve.c", "src/msolve/lifting.c", "src/neogb/modular.c", "src/neogb/f4.c"],
     [("bad prime detection when applying a trace", "src/neogb/f4.c, src/msolve/lifting-gb.c: gb_modular_trace_application"),
      ("restart with a new trace", "src/msolve/lifting-gb.c: core_groebner_qq"), ("dropping bad primes", "src/msolve/msolve.c: msolve_trace_qq"),
      ("confirmation of a candidate by further primes", "src/msolve/lifting-gb.c, src/msolve/lifting.c")],
     "The multi-modular protocol is a model (MultiMod.tla) checked exhaustively by TLC for safety and termination; every one of its adversary behaviours is replayed into the real program by constructing systems that make the primes drawn for a seed degenerate or misleading as prescribed, and the answers are decided by the specification. The system families are hand-made (about nine shapes in 2-3 variables). Excluded: a learning prime at which the trace loses rows (inherent to tracing). " + TRUST,
     state=[("mod_p, check1, check2", "modulus and confirmations so far", "src/msolve/lifting-gb.c"), ("bad_primes", "which images did not fit", "src/neogb/data.h")])

prop("C14", "The library functions give the answers the program gives",
     "Called from another program, export_f4, export_groebner_qq, export_nf and msolve_julia return, for every system, order (degree reverse lexicographical, lexicographical over prime fields, elimination), linear algebra, number of threads, size of hash table and selection of pairs: the reduced Groebner basis, the normal forms, the dimension with the parametrization and the boxes of the real solutions that the system has.",
     ["inputs"], "every system and every combination of the arguments (probabilistic linear algebra only in characteristic 0 or above 2^20)",
     "The tests only run the program; these functions take arguments no option of it reaches.",
     ["src/neogb/f4.c", "src/neogb/nf.c", "src/neogb/modular.c", "src/msolve/lifting-gb.c", "src/msolve/msolve.c", "src/neogb/io.c", "src/neogb/order.c"],
     [("export_f4, export_groebner_qq, export_nf, msolve_julia", "src/neogb/f4.c, src/msolve/lifting-gb.c, src/neogb/nf.c, src/msolve/msolve.c"),
      ("monomial orders", "src/neogb/order.c"), ("export of bases", "src/neogb/io.c: export_results_from_f4")],
     "A driver linked with the library calls the functions and writes what they return in the format of the program's answers; the specification decides them as it does the program's. " + TRUST + BOUND)

NA = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"],
                                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                            "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                                            "observe_at": list(p["observe"]), "hook_needed": p["hook"]}}) + "\n")
        for n in NA:
            f.write(json.dumps({k: v for k, v in n.items() if k != "reason"}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m vt.setup",
         "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks build its sources with their own flags, replacement functions and wrappers", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 -m vt.check %s quick" % p["id"],
                     "thorough_cmd": "python3 -m vt.check %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
                     "level_note": p["note"]} for p in P],
         "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
         "notes": "TLA+ with TLC. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(HERE, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)


if __name__ == "__main__":
    main()
