#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

OUT = ["the JSON document written to stdout or to the output file"]

prop("C01", "Every emitted curve is nonsingular over a valid field and has the stated order",
 "Every curve in the output is a nonsingular curve (y^2=x^3+ax+b over F_p, y^2+xy=x^3+ax^2+b over F_2^m) over a genuine field of the requested kind (p prime; the reduction polynomial irreducible of degree exactly the requested m), and the stated order is exactly its number of points. A randomly chosen prime field has exactly the requested bit length. This holds for every generation method, field kind, size and option combination, and for every curve of a multi-curve run, not just the first.",
 ["inputs", "configurations", "histories"],
 "all methods (random, input, Koblitz, seeded, CM, anomalous, supersingular, family, twist, invalid) x both field kinds x field sizes x option combinations x PRNG states",
 "The unit tests call single generators on a handful of fixed curves (mostly one PRNG state) and never look at the program's output; the order of what is printed is not checked for any method or option combination.",
 ["src/gen/order.c", "src/gen/field.c", "src/gen/curve.c", "src/gen/equation.c", "src/math/koblitz.c", "src/cm/cm_any.c", "src/exhaustive/exhaustive.c", "src/io/output.c"],
 [("order generators (point counting, tables, prescribed orders)", "src/gen/order.c, src/cm/*.c, src/math/koblitz.c"), ("state machine that generates, validates and unrolls parameters", "src/exhaustive/exhaustive.c exhaustive_gen_retry")],
 [("curve", "field, a, b, order of the curve under construction", "src/misc/types.h curve_t")], OUT)

prop("C02", "Stated subgroup generators have exact orders and generate the whole group",
 "Every subgroup generator in the output lies on its curve and has exactly the stated order, and cofactor times that order equals the order of the curve. The listed generators of a curve together generate its whole point group, so a curve listed with a single generator is cyclic (for the methods that fix one generator of a prime-order curve that generator generates everything). Under a cofactor request (without the unique option) the first generator has order curve order divided by the cofactor.",
 ["inputs", "configurations"],
 "all curves emitted by any method, cyclic and non-cyclic groups, both field kinds, all sizes",
 "Tests check generator counts on a few curves; the order, cofactor and joint generation of printed generators are never verified, and non-cyclic groups hardly occur.",
 ["src/gen/gens.c", "src/exhaustive/brainpool.c", "src/exhaustive/nums.c", "src/obj/subgroup.c", "src/io/output.c"],
 [("generator construction and cofactor computation", "src/gen/gens.c gens_point, gens_put, gens_gen_cofactor"), ("brainpool / NUMS generators", "src/exhaustive/brainpool.c, src/exhaustive/nums.c")], None, OUT)

prop("C03", "Listed points have exact stated orders and cover what the points option asks for",
 "Every point listed under a subgroup is a non-infinity multiple of that subgroup's generator with exactly the stated order. The set of orders listed is exactly what was asked for: with 'prime' (the default) one point for each prime divisor of the generator's order, with 'all' one for each divisor greater than 1, with 'nonprime' one for each composite divisor, each order once; with 'Nrandom' exactly N points in total over the subgroups of the curve, and with 'none' no points.",
 ["inputs", "configurations"],
 "every points type x amounts x both field kinds x cyclic and two-generator groups x group orders of any factorisation (prime, prime power, squarefree, highly composite)",
 "Unit tests generate points on a few fixed curves and compare only some counts; completeness and exactness depend on the factorisation of the group order.",
 ["src/gen/point.c", "src/math/subgroup.c", "src/exhaustive/exhaustive.c", "src/cm/cm.c"],
 [("points from divisors of a generator order", "src/gen/point.c points_from_orders, src/math/subgroup.c"), ("selection of the points generator", "src/exhaustive/exhaustive.c exhaustive_ginit, src/cm/cm.c cm_ginit")], None, OUT)

prop("C04", "Requested curve constraints hold for every emitted curve",
 "When a run succeeds, every emitted curve satisfies every constraint requested and not reported as ignored: prime order; order equal to the requested cofactor times a prime; every prime factor of the order within the requested bit length; cyclic group for the unique option; a in {0,1} as requested and b=1 for Koblitz; the requested hex string present in the hex expansion of one of the printed parameters. A curve given as input that satisfies the constraints is accepted. Exactly the requested number of curves is emitted.",
 ["inputs", "configurations", "histories"],
 "all combinations of -p/-k/-B/-u/-K/--hex-check/-c with both fields, sizes and PRNG states; constraints interact through the retry/unroll state machine",
 "The tests do not run the program; the state machine's retries (which state to fall back to after a rejected parameter) are exercised only by artificial generators.",
 ["src/exhaustive/exhaustive.c", "src/gen/order.c", "src/gen/gens.c", "src/gen/hex.c", "src/gen/equation.c"],
 [("order/generators/validators selection", "src/exhaustive/exhaustive.c exhaustive_ginit, exhaustive_cinit"), ("rejecting generators", "src/gen/order.c, src/gen/gens.c, src/gen/hex.c")], None, OUT)

prop("C05", "Random binary fields have an irreducible low-weight polynomial for every degree",
 "For every degree m from 2 to 10000, the binary field chosen when no field is given has a reduction polynomial of degree exactly m that is irreducible over GF(2) and is a trinomial or a pentanomial. The choice depends only on m.",
 ["inputs", "configurations"],
 "every m in 2..10000 (9999 table rows looked up by binary search in four tables)",
 "No test looks at the tables; one wrong or misplaced row, or a wrong table boundary, only matters for one m.",
 ["src/math/poly.c", "src/gen/field.c"],
 [("polynomial tables and binary search", "src/math/poly.c poly_find"), ("field construction", "src/math/poly.c poly_gen, src/gen/field.c field_binaryr")],
 None, ["the field of a randomly generated binary curve", "the JSON field exponents"])

prop("C06", "Koblitz curves get their exact order for every degree and coefficient",
 "For every m and a in {0,1}, the order assigned to the binary Koblitz curve y^2+xy=x^3+ax^2+1 over F_2^m is the exact one (given by the Lucas recurrence of its Frobenius trace), whether it is looked up or computed. A curve that is not that binary Koblitz curve (a prime-field curve, a twist) never gets a looked-up order.",
 ["inputs", "configurations"],
 "all m x a in {0,1} x both field kinds x default/twist methods",
 "Tests compare a couple of table rows; the table has 20 rows and is consulted by size and coefficient alone.",
 ["src/math/koblitz.c", "src/gen/order.c"],
 [("order table", "src/math/koblitz.c koblitz_curves, koblitz_find"), ("guard before the lookup", "src/gen/order.c order_gen_koblitz")], None, OUT)

prop("C07", "Parameters given as input are used exactly, or rejected",
 "Parameters read from standard input (one per line) or from an input file (comma-separated), in decimal or 0x-hex, negative values included, appear in the output exactly as given (coefficients reduced into the field), each assigned to the parameter that was asked for. A field value that is not a prime, is larger than the requested size or gives a reducible polynomial, and a singular equation, are rejected rather than used: the next value(s) are read instead (a rejected value may make the program start over from the field), and when the input ends first the run terminates with a non-zero status and emits no curve for it. Parameters declared random are not asked for.",
 ["inputs", "configurations", "histories"],
 "all fields x sources x number formats x sequences of valid and invalid values, truncated inputs at every position",
 "Unit tests feed a few well-formed values to single generators; sequences with rejected values, ends of input in the middle and the file source are not covered.",
 ["src/io/input.c", "src/gen/field.c", "src/gen/equation.c", "src/exhaustive/exhaustive.c"],
 [("number reader with size check", "src/io/input.c input_i"), ("field / coefficient readers and their failure codes", "src/gen/field.c field_gen_input, src/gen/equation.c")],
 [("in, delim", "current source and its separator", "src/io/input.c")], OUT + ["exit status"])

prop("C08", "ANSI X9.62 curves verify against their printed seed",
 "Every curve produced by the ANSI X9.62 procedure satisfies the standard's verification relation for its printed seed and field: over F_p, r*b^2 = a^3 with r derived from the seed by the standard's SHA-1 expansion for the field size; over F_2^m, b is the element derived from the seed. A seed given on the command line or as input is printed back unchanged and is the one used; a seed that is not hexadecimal or is shorter than 160 bits is refused; a random seed is a fresh 160-bit one. (Whole-byte seeds; the field size of the expansion is the requested size, or the bit length of the prime.)",
 ["inputs", "configurations"],
 "all field sizes (including those where the expansion has a boundary: 160k, 160k+1), seed lengths of 160 bits and more, seed values (leading zeros, wrap-around at 2^g), both fields",
 "Tests only check that the generators return success for some seeds; no test verifies the relation.",
 ["src/exhaustive/ansi.c", "src/util/bits.c", "lib/sha1/sha1.c"],
 [("seed expansion", "src/exhaustive/ansi.c seed_process, seed_tsh"), ("equation from r / b", "src/exhaustive/ansi.c ansi_gen_equation_fp, ansi_gen_equation_f2m")], None, OUT)

prop("C09", "Brainpool curves are the ones their procedure derives from the seed",
 "Every curve produced by the Brainpool procedures is the one that the published procedure (ECC Brainpool 2005, respectively RFC 5639) derives from the initial seed: the prime congruent to 3 mod 4, the coefficients with -3/a a fourth power and the square class of b each variant prescribes, the first seed giving a prime order below p and an acceptable embedding degree, and the generator up to sign. A seed given by the user is the starting point and the printed one is the last the procedure moved on to; a seed that is not exactly 160 bits of hexadecimal is refused.",
 ["inputs", "configurations"],
 "all 160-bit seeds x field sizes x both variants x the number of rejected candidates on the way",
 "Tests cover the standard's few published seeds partly and not the retry paths through the seed counter.",
 ["src/exhaustive/brainpool.c", "src/exhaustive/brainpool_rfc.c", "src/util/bits.c"],
 [("seed update and hash expansion", "src/exhaustive/brainpool.c brainpool_update_seed, brainpool_hash"), ("retry through the seed counter", "src/exhaustive/brainpool.c update_seed flag, src/exhaustive/exhaustive.c")], None, OUT)

prop("C10", "NUMS curves are the minimal ones of the deterministic procedure",
 "For every size the NUMS method yields p = 2^bits - c with the smallest c congruent to 1 mod 4 that makes p prime (so p = 3 mod 4), a = -3, the smallest positive b for which the curve is nonsingular with prime order and prime twist order, and the generator with the smallest positive x-coordinate and the smaller y. Every curve of a multi-curve run is this same curve, and repeated runs agree.",
 ["configurations", "histories"],
 "all sizes, multi-curve runs, repeated runs",
 "The method has no test at all.",
 ["src/exhaustive/nums.c", "src/exhaustive/exhaustive.c"],
 [("deterministic search with static state", "src/exhaustive/nums.c nums_gen_b, nums_gen_order, nums_gen_gens")],
 [("b, curve_b", "last tried coefficient and the curve it belongs to", "src/exhaustive/nums.c")], OUT)

prop("C11", "Complex multiplication yields a curve of exactly the requested order",
 "A successful run with a requested order N (a decimal or hex number, or a comma-separated list of factors) emits a curve over a prime field whose true number of points is N = the product of the factors, prime or composite, whatever the common factors of N and the twist's order; points follow the points option. A request whose order clearly does not fit the requested size (2^(bits+1) or more) is refused with a non-zero status and no curve. Whether a curve is found for a given order is not claimed.",
 ["inputs", "configurations"],
 "all orders N (prime, prime power, smooth, composite with repeated factors, list and number notation) x PRNG states (the curve/twist decision uses random points)",
 "Tests have no CM order case; whether the curve or its twist is taken depends on random points, so a wrong decision shows only for some N and PRNG states.",
 ["src/cm/cm.c", "src/cm/cm_any.c", "src/cm/cm_prime.c"],
 [("curve/twist decision", "src/cm/cm_any.c cm_construct_curve"), ("discriminant searches", "src/cm/cm_prime.c, src/cm/cm_any.c good_qdisc_minimal"), ("order parsing", "src/cm/cm.c cm_init")], None, OUT + ["exit status"])

prop("C12", "Anomalous curves have p points and supersingular curves have p+1",
 "Every curve emitted by the anomalous method has exactly p points over a prime field of exactly the requested bit length, and every curve emitted by the supersingular method has exactly p+1 points, for every prime field > 3 (random or given) in every residue class mod 4 and mod 3. Sizes for which the anomalous method has no curve (below 5 bits, 6 and 7) are refused without a curve.",
 ["inputs", "configurations"],
 "all sizes >= 10 bits for anomalous; all primes > 3 for supersingular; PRNG states; multi-curve runs",
 "No test runs these methods on more than one fixed size.",
 ["src/cm/anomalous.c", "src/cm/supersingular.c"],
 [("discriminant table and twist choice by residue symbols", "src/cm/anomalous.c"), ("case split by p mod 4 and class polynomial root", "src/cm/supersingular.c")], None, OUT)

prop("C13", "Pairing-friendly curves belong to their family",
 "Every curve emitted for a family (BN, BLS12, BLS24, KSS16, KSS18, KSS36, KSS40) is over p = p(u) with its order divisible by the prime r = r(u) of that family for an integer u matching the printed seed, and r divides p^k-1 for the family's embedding degree k and for no smaller exponent; the printed seed is u for BN and BLS and the z of u = 70z+25, 42z+14, 777z+287, 2370z+1205 for KSS16, KSS18, KSS36, KSS40; the order is p+1-t with t = t(u) up to the choice of twist. The size argument is the size of that parameter. With a given parameter that parameter is used, or the run ends without a curve when it gives none; it is printed back, sign included.",
 ["inputs", "configurations"],
 "all families x parameters (positive, negative, random, given) x multi-curve runs",
 "The family method has no test at all.",
 ["src/exhaustive/family.c", "src/cm/cm_any.c"],
 [("family polynomials", "src/exhaustive/family.c family_init"), ("field and order checks", "src/exhaustive/family.c family_gen_field, family_gen_order")],
 [("b, b_curve", "last tried coefficient and the curve it belongs to", "src/exhaustive/family.c")], OUT)

prop("C14", "The twist method yields a quadratic twist of the given curve",
 "For a given curve, the twist method emits a curve over the same field that becomes isomorphic to the given one over the quadratic extension: same j-invariant and orders summing to 2q+2 (hence not isomorphic to it over the field itself, unless the order is q+1). Its order, generators, points and metadata are those of the emitted (twisted) curve, and requested constraints (prime order, unique, cofactor) hold for it.",
 ["inputs", "configurations"],
 "all curves over both field kinds (j = 0 and 1728 included) x constraints",
 "Tests twist a handful of curves with precomputed order and do not go through the program.",
 ["src/math/twists.c", "src/gen/curve.c"],
 [("twist construction", "src/math/twists.c twist_rand_to"), ("twist generator", "src/gen/curve.c curve_gen_any_twist")], None, OUT)

prop("C15", "The invalid-curve set covers every required prime once, for any thread schedule",
 "The invalid method emits the given curve first and then, for every prime it has to cover - all primes from 2 on until their product exceeds the square of the curve order, or exactly the primes of the requested range (both ends included, a single number standing for the first prime at or after it) - exactly one curve entry, over the same field and with the same a, whose order is divisible by that prime and which lists a point of that prime order. Each entry is complete and true on its own, the document is well-formed, and the run terminates whenever such curves exist (with a = 0 and p = 2 mod 3, say, they need not). This does not depend on the number of threads or how they are scheduled.",
 ["inputs", "configurations", "schedules"],
 "all curves x prime ranges x thread counts 1..N x thread interleavings",
 "Tests run the generation on small cases with no look at what is printed and no schedule variation.",
 ["src/invalid/invalid.c", "src/invalid/invalid_thread.c", "src/gen/point.c", "src/obj/curve.c"],
 [("claiming of primes under the mutex", "src/invalid/invalid_thread.c states[] FREE->GENERATING->GENERATED"), ("collector loop on the condition variable", "src/invalid/invalid.c invalid_curves_threaded"), ("prime list", "src/invalid/invalid.c invalid_primes")],
 [("states, curves, generated", "shared claim table", "src/invalid/invalid_thread.h thread_t")], OUT)

prop("C16", "Curve metadata is correct",
 "With the metadata option every emitted curve carries its true j-invariant, discriminant, trace of Frobenius q+1-N and, over prime fields, its CM discriminant D (fundamental) and conductor f with t^2-4p = f^2 D, and the embedding degree of its order (the smallest k with N dividing p^k-1; 0 when there is none, the order being divisible by the characteristic). Without the option no metadata is printed.",
 ["inputs", "configurations"],
 "all curves of all methods, both fields",
 "No test covers metadata.",
 ["src/gen/metadata.c", "src/gen/gens.c", "src/io/output.c"],
 [("metadata generator", "src/gen/metadata.c metadata_gen"), ("embedding degree", "src/gen/gens.c gens_get_embedding")], None, OUT)

prop("C17", "The output is always one well-formed document with an honest exit status",
 "Whatever the outcome of the run (short of a fatal error inside PARI, such as out of memory; a run refused as a usage error or before anything was generated may leave the output empty), the output stream holds one syntactically valid JSON array with one object per successfully generated curve in the documented shape (fixed-width zero-padded hex for field elements and the order), with nothing else mixed in (prompts, warnings, verbose logs and errors go elsewhere). The exit status is 0 exactly if all requested curves were emitted and written. Writing to a file replaces its content, or with the append option leaves the previous bytes intact and adds the document after them.",
 ["inputs", "configurations", "fault_sequences"],
 "all methods, counts, outputs (stdout, file, append), verbosity, failing runs (input ending after k curves), unwritable outputs",
 "Tests compare neither the stream nor the status; partial failure in a multi-curve run is never driven.",
 ["src/io/output.c", "src/exhaustive/exhaustive.c", "src/invalid/invalid.c", "src/ecgen.c"],
 [("begin/separator/end protocol", "src/io/output.c, src/exhaustive/exhaustive.c exhaustive_generate, src/invalid/invalid.c"), ("stream setup", "src/io/output.c output_init")], None, OUT + ["exit status", "stderr"])

prop("C18", "No memory error or undefined behaviour on any input",
 "No run of the program, whatever its options, inputs, failures and interruptions, reads or writes memory out of bounds, uses freed or uninitialised heap memory, frees twice, or executes undefined integer, shift, pointer or bounds operations in its own code; and no run ends by a crash signal. This includes inputs that are malformed, truncated or extreme (empty, very long, very large numbers), and the smallest fields.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "all command lines and inputs, multi-curve runs, retries, timeouts, threads",
 "The tests run without sanitizers, on benign values.",
 ["src/util/bits.c", "src/util/str.c", "src/io/input.c", "src/obj/curve.c", "src/gen/hex.c", "src/invalid/invalid.c", "src/invalid/invalid_thread.c", "src/cm/cm.c"],
 [("manual ownership of curves, subgroups, points, seeds, bits", "src/obj/*.c, src/gen/seed.c, src/util/bits.c"), ("unrolling", "src/exhaustive/exhaustive.c exhaustive_gen_retry")], None, ["sanitizer reports", "exit signal"])

prop("C19", "Concurrent invalid-curve generation has no data race and never deadlocks",
 "In threaded invalid-curve generation every access to state shared between threads (claim table, results, counters, output, configuration) is ordered by synchronisation, so no two threads ever race on it, and every run terminates with all threads joined, whatever the number of threads and their interleaving.",
 ["schedules", "configurations"],
 "thread counts (fewer and more than primes and cores) x injected delays around synchronisation x curves",
 "Tests run a few threads without a race detector and take whichever schedule happens.",
 ["src/invalid/invalid_thread.c", "src/invalid/invalid.c", "src/util/timeout.c", "src/util/memory.c"],
 [("mutex and condition variable protocol", "src/invalid/invalid_thread.c, src/invalid/invalid.c"), ("thread-local timeout and PARI state", "src/util/timeout.c")],
 [("states, curves, generated", "shared claim table", "src/invalid/invalid_thread.h thread_t")], ["race detector reports", "termination"])

prop("C20", "Bit strings and their conversions behave as a mathematical bit-string algebra",
 "Bit strings of every length, including lengths that are not multiples of 8 and zero, convert to and from integers, hex, binary, raw bytes and bit vectors without loss (sign and length kept where the format has them), and concatenation, and, or, not, reversal, shift, rotation, shortening (by at most the length) and lengthening give exactly the result of the operation on the mathematical sequence of bits, never touching their operands unless they are the in-place variants. Hashing a bit string hashes exactly its bytes.",
 ["inputs", "histories"],
 "all bit strings and lengths x sequences of operations",
 "Unit tests check a few strings per function; length-dependent masks and chains of in-place operations are not covered.",
 ["src/util/bits.c", "lib/sha1/sha1.c"],
 [("bit string library", "src/util/bits.c")], None, ["return values of the library"])

prop("C21", "A timeout at any point never corrupts the result",
 "When the computation of a curve parameter is cut off by the timeout, at whatever stage and however often, the curve is regenerated and what is finally emitted is as correct and complete as without a timeout (orders, generators, points, requested constraints, number of curves); input is read on from where it was, and the run may end with a failure status when it runs out; nothing of the abandoned attempt leaks into the output and the run neither crashes nor stops retrying. Without a timeout option no time limit applies.",
 ["fault_sequences", "configurations", "schedules"],
 "timeouts at every generation stage x every method x repeated timeouts x threads",
 "Tests cover only the timer itself; no test times out a generation step.",
 ["src/util/timeout.c", "src/util/timeout.h", "src/exhaustive/exhaustive.c"],
 [("signal, long jump and restart from the first stage", "src/util/timeout.h timeout_start, src/exhaustive/exhaustive.c exhaustive_gen_retry"), ("unrolling of partial results", "src/gen/*.c UNROLL functions")],
 [("timeout_in, timeout_ptr", "whether and where to jump", "src/util/timeout.c")], OUT)

prop("C22", "Bad command lines are refused and ignored options are reported",
 "Contradictory or unsupported command lines (no or both field kinds; several generation methods; several of prime/cofactor/smooth; a prime-field-only method over a binary field; a clearly malformed order, range, seed, family, point type, Koblitz value, hex string, random list, thread count, memory or time value or size, such as letters where a number is due) end with a usage error, non-zero status and no curve. Every curve-constraining or output option that is accepted either takes effect on every curve generated or is named in an 'ignored' warning on stderr.",
 ["inputs", "configurations"],
 "all pairs of options and methods, malformed option values",
 "CLI tests parse options one by one; option pairs against methods and the ignored-option report are not tested.",
 ["src/io/cli.c", "src/misc/config.c", "src/exhaustive/exhaustive.c", "src/cm/cm.c", "src/invalid/invalid.c"],
 [("option validation", "src/io/cli.c cli_parse, cli_end"), ("set/used bookkeeping", "src/misc/config.c config_report_unused, GET/SET macros")],
 [("cfg_set, cfg_used", "which options were given / consumed", "src/misc/config.c")], ["exit status", "stderr", "stdout"])

prop("C23", "Random choices span their whole documented range",
 "Randomly chosen objects lie in, and over many runs spread over, their whole documented range: primes of exactly the requested bit length, integers of a requested bit length from 2^(bits-1) to 2^bits, every bit of a random bit string taking both values, field elements over the whole field, intervals half-open as documented. Separate runs and separate threads draw from differently seeded generators.",
 ["inputs", "histories"],
 "all sizes, many draws, separate runs and threads",
 "Tests draw a few values and check only one bound.",
 ["src/util/random.c", "src/util/bits.c"],
 [("range construction", "src/util/random.c"), ("seeding", "src/util/random.c random_reseed"), ("random bit strings", "src/util/bits.c bits_new_rand")], None, ["return values", "printed seeds and parameters of many runs"])

prop("C24", "Copies of curve objects are deep and independent, and divisor sets are exact",
 "Copying or cloning a curve, subgroup, point or seed (its bits and hash) gives an equal object that shares no mutable storage with its source: freeing or changing either leaves the other intact, and freeing both is safe. The divisor helper functions return, for every positive integer, exactly the set of its prime divisors, of its composite divisors, and of all its divisors greater than 1, each once.",
 ["inputs", "histories"],
 "all objects (optional parts present or absent) x sequences of copy/clone/free/modify; all integers by factorisation shape",
 "Tests copy nothing and factor a few integers.",
 ["src/obj/curve.c", "src/obj/subgroup.c", "src/obj/point.c", "src/gen/seed.c", "src/math/subgroup.c"],
 [("copy/clone/free families", "src/obj/obj.h OBJ/OBJS macros, src/obj/*.c"), ("divisor enumeration", "src/math/subgroup.c subgroups_2n_factors")], None, ["return values", "sanitizer reports"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
