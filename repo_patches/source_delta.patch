From 3fd46594e9f434b1a24753867c1ed6048a6a1609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 01/47] fix: only look up Koblitz orders for binary Koblitz
 curves

---
 src/gen/order.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index a9d22b2..f17dca0 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -104,7 +104,12 @@ GENERATOR(order_gen_prime) {
 
 GENERATOR(order_gen_koblitz) {
 	pari_sp ltop = avma;
-	GEN order = koblitz_get_order(cfg->bits, itou(curve->a));
+	GEN order = NULL;
+	// The table only knows the orders of binary Koblitz curves. The generated
+	// curve might not be one (prime field, or a twist).
+	if (cfg->field == FIELD_BINARY && koblitz_is_curve(curve)) {
+		order = koblitz_get_order(cfg->bits, itou(field_elementi(curve->a)));
+	}
 	if (order) {
 		curve->order = gerepilecopy(ltop, order);
 		obj_insert_shallow(curve->curve, 1, curve->order);
-- 
2.43.0


From bbf1c7cacc6c85a9ad4d831c9e1a30c5fe75905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 02/47] fix: find the CM curve of the requested order among all
 of the twists

---
 src/cm/cm_any.c   | 117 +++++++++++++++++++++++++++-------------------
 src/cm/cm_prime.c |   4 +-
 2 files changed, 71 insertions(+), 50 deletions(-)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index f948ac1..e55bbba 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -37,7 +37,7 @@ static void good_qdisc_minimal(cm_any_qdisc_t *qdisc, GEN order) {
 				GEN alpha = gel(alphas, i);
 				GEN trace = nftrace(K, alpha);
 				GEN p = subii(addis(order, 1), trace);
-				if (isprime(p)) {
+				if (cmpis(p, 3) > 0 && isprime(p)) {
 					debug_log(
 					    "Got an elem of prime trace: %Pi, d = %Pi, D = %Pi", p,
 					    d, D);
@@ -133,6 +133,65 @@ static cm_any_qdisc_t *good_qdisc_brute(GEN order, GEN alpha, GEN beta) {
 }
 */
 
+/**
+ * @brief All of the twists of a curve (over a prime field, p > 3) with the
+ *        given j-invariant, up to isomorphism. There are 6 of them for j = 0
+ *        and 4 for j = 1728 (if the field has the roots of unity), 2 otherwise.
+ */
+static GEN cm_twists(GEN e, GEN j, GEN p) {
+	bool zero = gequal0(j);
+	if (!zero && !equalii(j, modsi(1728, p))) {
+		return mkvec2(e, ellinit(elltwist(e, NULL), p, 0));
+	}
+
+	GEN a = ell_get_a4(e);
+	GEN b = ell_get_a6(e);
+	GEN third = umodiu(p, 3) == 1 ? diviuexact(subiu(p, 1), 3) : NULL;
+	// Find a c that is not a square (and not a cube, if that makes sense).
+	GEN c;
+	do {
+		c = addiu(randomi(subiu(p, 1)), 1);
+	} while (kronecker(c, p) != -1 ||
+	         (zero && third && equali1(Fp_pow(c, third, p))));
+
+	long ntwists = zero ? 6 : 4;
+	GEN result = cgetg(ntwists + 1, t_VEC);
+	GEN mul = mkintmod(gen_1, p);
+	for (long i = 1; i <= ntwists; ++i) {
+		GEN v = zero ? mkvec2(gen_0, gmul(b, mul)) : mkvec2(gmul(a, mul), gen_0);
+		gel(result, i) = ellinit(v, p, 0);
+		mul = gmul(mul, c);
+	}
+	return result;
+}
+
+/**
+ * @brief Whether the curve e over F_p, p > 3, has the given order.
+ */
+static bool cm_has_order(GEN e, GEN p, GEN order) {
+	pari_sp ltop = avma;
+	// Two different multiples of something larger than this can not both be
+	// in the Hasse interval.
+	GEN bound = mulis(addis(sqrti(p), 1), 4);
+	GEN exponent = gen_1;
+	for (int i = 0; i < 10; ++i) {
+		GEN g = genrand(e);
+		if (!ell_is_inf(ellmul(e, g, order))) {
+			avma = ltop;
+			return false;
+		}
+		exponent = lcmii(exponent, ellorder(e, g, order));
+		if (cmpii(exponent, bound) > 0) {
+			avma = ltop;
+			return true;
+		}
+	}
+	// Either a small or a very non-cyclic curve.
+	bool result = equalii(ellff_get_card(e), order);
+	avma = ltop;
+	return result;
+}
+
 GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 	debug_log("Constructing a curve with N = %Pi, d = %Pi, p = %Pi", order, d,
 	          p);
@@ -157,53 +216,15 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 		pari_TRY { checkell(e); };
 		pari_ENDCATCH{};
 
-		if (ord_prime) {
-			// Easy part, the requested order is prime so
-			// [order]G = 0 iff the curve has exactly order points, for any G on
-			// it. otherwise it is the twist
-			GEN g = genrand(e);
-			if (ell_is_inf(ellmul(e, g, order))) {
-				debug_log("Got curve.");
-				return gerepilecopy(ltop, e);
-			} else {
-				debug_log("Got curve twist.");
-				return gerepilecopy(ltop, ellinit(elltwist(e, NULL), p, 0));
-			}
-		} else {
-			// Hard part, requested order is composite, so it might share a
-			// factor with the order of the twist, which means [order]G = 0
-			// might be true for a point on the twist as well as a point o the
-			// right curve.
-			//
-			// We calculate what the twist order is, then compute gcd of the
-			// orders which leads to the product of the factors that the orders
-			// do not share. By multiplying a random point by this product on
-			// some curve, we can determine that that curve has that number of
-			// points.
-			GEN twist_order = subii(addis(p, 1), subii(order, addis(p, 1)));
-			GEN twist = ellinit(elltwist(e, NULL), p, 0);
-			GEN gcd = gcdii(order, twist_order);
-			GEN orig_mul = divii(order, gcd);
-			GEN twist_mul = divii(twist_order, gcd);
-			while (true) {
-				GEN orig_point = genrand(e);
-				if (ell_is_inf(ellmul(e, orig_point, orig_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, orig_point, twist_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
-				GEN twist_point = genrand(twist);
-				if (ell_is_inf(ellmul(e, twist_point, twist_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, twist_point, orig_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
+		// The curve with the requested order is one of the twists, decide
+		// which one it is. The orders of the twists might share factors, so
+		// [order]G = 0 does not suffice here.
+		GEN twists = cm_twists(e, root, p);
+		long ntwists = glength(twists);
+		for (long j = 1; j <= ntwists; ++j) {
+			if (cm_has_order(gel(twists, j), p, order)) {
+				debug_log("Got curve (twist %li).", j);
+				return gerepilecopy(ltop, gel(twists, j));
 			}
 		}
 	}
diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 33d2a12..bbb6b7d 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -106,7 +106,7 @@ static void qdisc_next(cm_prime_qdisc_t *qdisc) {
 				}
 				GEN pp1 = addii(addis(qdisc->order, 1), x);
 				GEN pp2 = subii(addis(qdisc->order, 1), x);
-				if (isprime(pp1)) {
+				if (cmpis(pp1, 3) > 0 && isprime(pp1)) {
 					qdisc->p = pp1;
 					qdisc->D = pprod;
 					qdisc->t = x;
@@ -114,7 +114,7 @@ static void qdisc_next(cm_prime_qdisc_t *qdisc) {
 					debug_log("good D %Pi", pprod);
 					return;
 				}
-				if (isprime(pp2)) {
+				if (cmpis(pp2, 3) > 0 && isprime(pp2)) {
 					qdisc->p = pp2;
 					qdisc->D = pprod;
 					qdisc->t = x;
-- 
2.43.0


From 715bdb9d6f43fd5c1a3425674abb188492f3072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 03/47] fix: respect the points option when generating prime
 order curves using CM

---
 src/cm/cm.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cm/cm.c b/src/cm/cm.c
index 9dffc1d..0a76483 100644
--- a/src/cm/cm.c
+++ b/src/cm/cm.c
@@ -68,7 +68,6 @@ static void cm_ginit(gen_f *generators, bool prime) {
 		generators[OFFSET_B] = &gen_skip;
 		if (prime) {
 			generators[OFFSET_CURVE] = &cm_gen_curve_prime;
-			generators[OFFSET_POINTS] = &points_gen_prime;
 		} else {
 			generators[OFFSET_CURVE] = &cm_gen_curve_any;
 		}
-- 
2.43.0


From 88265b4f7b04580f56e3c47200aee949281a2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 04/47] fix: only output a separator between curves

---
 src/exhaustive/exhaustive.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index e8870f8..1649cd7 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -476,10 +476,10 @@ int exhaustive_generate(exhaustive_t *setup) {
 		}
 		debug_log_end("Generated new curve");
 
-		output_o(curve);
-		if (i != cfg->count - 1) {
+		if (i != 0) {
 			output_o_separator();
 		}
+		output_o(curve);
 		curve_free(&curve);
 	}
 	output_o_end();
-- 
2.43.0


From ab4f7fe4caeff507cee368cd4b607991e457e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 05/47] fix: separate invalid curves properly and close the
 output when there is nothing to generate

---
 src/invalid/invalid.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 3679c6b..40c5b59 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -107,13 +107,16 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 			size *= 2;
 		}
 	}
+	avma = ltop;
+	if (nprimes == 0) {
+		return 0;
+	}
 	/* realloc to smaller size, to tightly fit all generated primes */
 	pari_ulong *new_primes =
 	    pari_realloc(*primes, nprimes * sizeof(pari_ulong));
 	if (new_primes) {
 		*primes = new_primes;
 	}
-	avma = ltop;
 
 	return nprimes;
 }
@@ -197,10 +200,8 @@ static size_t invalid_curves_single(const curve_t *curve, pari_ulong *primes,
 						// copy if pointer already assigned
 						curves[i] = curve_new_copy(invalid);
 					}
+					output_o_separator();
 					output_o(curves[i]);
-					if (ncurves != nprimes - 1) {
-						output_o_separator();
-					}
 					ncurves++;
 					count++;
 				}
@@ -281,10 +282,8 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		pthread_cond_wait(&generated_cond, &state_mutex);
 		for (size_t i = 0; i < nprimes; ++i) {
 			if (old_states[i] != states[i] && states[i] == STATE_GENERATED) {
+				output_o_separator();
 				output_o(local_curves[i]);
-				if (*generated != nprimes) {
-					output_o_separator();
-				}
 				old_states[i] = states[i];
 			}
 		}
@@ -361,7 +360,6 @@ int invalid_do() {
 
 	output_o_begin();
 	output_o(curve);
-	output_o_separator();
 
 	debug_log_start("Starting to generate primes to product over order^2");
 	pari_ulong *primes;
@@ -370,6 +368,10 @@ int invalid_do() {
 
 	if (!nprimes) {
 		fprintf(err, "No orders to generate curves for, quitting.");
+		output_o_end();
+		try_free(primes);
+		curve_free(&curve);
+		exhaustive_clear(&original_setup);
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From 5f7fefa98d7356cb9b432d322ee80ce2c9a20f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:28 +0000
Subject: [PATCH 06/47] fix: do not mistake the input values -1 and -2 for
 invalid input

---
 src/gen/equation.c | 8 ++++----
 src/gen/field.c    | 4 ++--
 src/gen/order.c    | 2 +-
 src/io/input.c     | 2 +-
 src/io/input.h     | 9 ++++++---
 5 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/gen/equation.c b/src/gen/equation.c
index 619378f..adaabb5 100644
--- a/src/gen/equation.c
+++ b/src/gen/equation.c
@@ -14,10 +14,10 @@ GENERATOR(a_gen_random) {
 GENERATOR(a_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("a:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
@@ -68,10 +68,10 @@ GENERATOR(b_gen_random) {
 GENERATOR(b_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("b:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
diff --git a/src/gen/field.c b/src/gen/field.c
index 3c93880..09853f6 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -38,10 +38,10 @@ GENERATOR(field_gen_input) {
 	switch (cfg->field) {
 		case FIELD_PRIME: {
 			GEN p = input_prime("p:", cfg->bits);
-			if (gequalm1(p)) {
+			if (p == gen_m1) {
 				avma = ltop;
 				return 0;
-			} else if (equalii(p, gen_m2)) {
+			} else if (p == gen_m2) {
 				avma = ltop;
 				return INT_MIN;
 			}
diff --git a/src/gen/order.c b/src/gen/order.c
index f17dca0..aa7487a 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -11,7 +11,7 @@
 GENERATOR(order_gen_input) {
 	pari_sp ltop = avma;
 	GEN ord = input_int("order", cfg->bits);
-	if (gequalm1(ord)) {
+	if (ord == gen_m1) {
 		avma = ltop;
 		return -4;
 	} else {
diff --git a/src/io/input.c b/src/io/input.c
index 507bd59..2867d68 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -53,7 +53,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 
 GEN input_prime(const char *prompt, unsigned long bits) {
 	GEN read = input_i(prompt, bits);
-	if (equalii(read, gen_m1) || equalii(read, gen_m2)) {
+	if (read == gen_m1 || read == gen_m2) {
 		return read;
 	} else {
 		if (isprime(read)) {
diff --git a/src/io/input.h b/src/io/input.h
index a56347a..5773cb6 100644
--- a/src/io/input.h
+++ b/src/io/input.h
@@ -15,7 +15,8 @@
  * @brief Input a prime, upto <code>bits</code> long.
  * @param prompt
  * @param bits
- * @return the prime as t_INT, or <code>-1</code> if a composite was given.
+ * @return the prime as t_INT, or <code>gen_m1</code> (the pointer) if a
+ *         composite was given, or <code>gen_m2</code> if the input ended.
  */
 GEN input_prime(const char *prompt, unsigned long bits);
 
@@ -23,14 +24,16 @@ GEN input_prime(const char *prompt, unsigned long bits);
  * @brief Input an unsigned integer, upto <code>bits</code> long.
  * @param prompt
  * @param bits
- * @return the int as t_INT, or <code>-1</code> if invalid input was given.
+ * @return the int as t_INT, or <code>gen_m1</code> (the pointer) if invalid
+ *         input was given, or <code>gen_m2</code> if the input ended.
  */
 GEN input_int(const char *prompt, unsigned long bits);
 
 /**
  * @brief Input a short unsigned integer. (16 bits wide).
  * @param prompt
- * @return the short as t_INT, or <code>-1</code> if invalid input was given.
+ * @return the short as t_INT, or <code>gen_m1</code> (the pointer) if invalid
+ *         input was given, or <code>gen_m2</code> if the input ended.
  */
 GEN input_short(const char *prompt);
 
-- 
2.43.0


From 8fa5f21dcd7312cd87dae191be41b2f341ec4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 07/47] fix: stop when the input ends instead of retrying
 forever

---
 src/exhaustive/ansi.c      |  4 ++++
 src/exhaustive/brainpool.c |  4 ++++
 src/exhaustive/family.c    |  5 +++++
 src/gen/field.c            | 22 +++++++++++++++++++---
 src/io/input.c             | 12 +++++++-----
 src/io/input.h             |  2 +-
 6 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index e369fb2..2345cda 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -58,6 +58,10 @@ GENERATOR(ansi_gen_seed_input) {
 	pari_sp ltop = avma;
 
 	GEN str = input_string("seed:");
+	if (!str) {
+		avma = ltop;
+		return INT_MIN;
+	}
 	const char *cstr = GSTR(str);
 	if (!ansi_seed_valid(cstr)) {
 		fprintf(err, "SEED must be at least 160 bits(40 hex characters).\n");
diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 56c095d..6364077 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -84,6 +84,10 @@ GENERATOR(brainpool_gen_seed_input) {
 	pari_sp ltop = avma;
 
 	GEN str = input_string("seed:");
+	if (!str) {
+		avma = ltop;
+		return INT_MIN;
+	}
 	const char *cstr = GSTR(str);
 	if (!brainpool_seed_valid(cstr)) {
 		fprintf(err, "SEED must be exactly 160 bits(40 hex characters).\n");
diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 08505b6..129eb70 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -86,6 +86,11 @@ GENERATOR(family_gen_seed_random) {
 
 GENERATOR(family_gen_seed_input) {
 	GEN inp = input_int("z:", cfg->bits);
+	if (inp == gen_m1) {
+		return 0;
+	} else if (inp == gen_m2) {
+		return INT_MIN;
+	}
 	curve->seed = family_new_seed();
 	curve->seed->family.z = inp;
 	curve->seed->seed = bits_from_i(curve->seed->family.z);
diff --git a/src/gen/field.c b/src/gen/field.c
index 09853f6..713d73c 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -50,23 +50,39 @@ GENERATOR(field_gen_input) {
 		}
 		case FIELD_BINARY: {
 			GEN m = input_short("m:");
+			if (m == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (!equalis(m, cfg->bits)) {
 				avma = ltop;
 				return 0;
 			}
 
 			GEN e1 = input_short("e1:");
-			if (equalii(e1, gen_m1) || gcmp(e1, m) > 0) {
+			if (e1 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (gsigne(e1) < 0 || gcmp(e1, m) >= 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e2 = input_short("e2:");
-			if (equalii(e2, gen_m1) || gcmp(e2, m) > 0) {
+			if (e2 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (gsigne(e2) < 0 || gcmp(e2, m) >= 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e3 = input_short("e3:");
-			if (equalii(e3, gen_m1) || gcmp(e3, m) > 0) {
+			if (e3 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
+			if (gsigne(e3) < 0 || gcmp(e3, m) >= 0) {
 				avma = ltop;
 				return 0;
 			}
diff --git a/src/io/input.c b/src/io/input.c
index 2867d68..bd6c3f3 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -4,6 +4,7 @@
  */
 #define _POSIX_C_SOURCE 200809L
 
+#include <ctype.h>
 #include "input.h"
 #include "output.h"
 
@@ -26,6 +27,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 		} else {
 			fprintf(err, "Couldn't read an integer.\n");
 		}
+		free(line);
 		return gen_m2;
 	}
 	if (len == 1 && !feof(in)) {
@@ -80,14 +82,14 @@ GEN input_string(const char *prompt) {
 
 	ssize_t len = getdelim(&line, &n, delim, in);
 	if (len <= 0) {
-		return strtoGENstr("");
-	}
-	if (len == 1) {
+		fprintf(err, "Couldn't read a string. Reached EOF!\n");
 		free(line);
-		return strtoGENstr("");
+		return NULL;
 	}
 
-	line[len - 1] = 0;
+	while (len > 0 && (line[len - 1] == delim || isspace((unsigned char)line[len - 1]))) {
+		line[--len] = 0;
+	}
 	GEN result = strtoGENstr(line);
 	free(line);
 	return result;
diff --git a/src/io/input.h b/src/io/input.h
index 5773cb6..f8e19c3 100644
--- a/src/io/input.h
+++ b/src/io/input.h
@@ -40,7 +40,7 @@ GEN input_short(const char *prompt);
 /**
  * @brief Input a string.
  * @param prompt
- * @return the string as a t_STR
+ * @return the string as a t_STR, or <code>NULL</code> if the input ended.
  */
 GEN input_string(const char *prompt);
 
-- 
2.43.0


From 3be764e0c05271dd01a266e6a8fde1df0b92c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:31 +0000
Subject: [PATCH 08/47] fix: reject input that is not a number of the requested
 size

---
 src/io/input.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/io/input.c b/src/io/input.c
index bd6c3f3..d583d29 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -11,6 +11,32 @@
 FILE *in;
 int delim;
 
+/**
+ * @brief Find the number in a line of input, decimal or hexadecimal (with
+ *        the 0x prefix), possibly surrounded by whitespace and the delimiter.
+ * @return The start of the (null-terminated) number in line, after the sign,
+ *         or <code>NULL</code> if the line is not a number.
+ */
+static char *input_number(char *line, size_t len, bool *sign) {
+	if (strlen(line) != len) return NULL;
+	while (len > 0 && (line[len - 1] == delim ||
+	                   isspace((unsigned char)line[len - 1]))) {
+		line[--len] = 0;
+	}
+	while (isspace((unsigned char)*line)) ++line;
+	*sign = *line == '-';
+	if (*sign) ++line;
+
+	char *digits = line;
+	const char *allowed = "0123456789";
+	if (line[0] == '0' && (line[1] == 'x' || line[1] == 'X')) {
+		digits = line + 2;
+		allowed = "0123456789abcdefABCDEF";
+	}
+	if (*digits == 0 || digits[strspn(digits, allowed)] != 0) return NULL;
+	return line;
+}
+
 static GEN input_i(const char *prompt, unsigned long bits) {
 	if (prompt && in == stdin) {
 		fprintf(err, "%s ", prompt);
@@ -34,10 +60,16 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 		free(line);
 		return gen_m1;
 	}
-	bool sign = line[0] == '-';
+	bool sign;
+	char *number = input_number(line, (size_t)len, &sign);
+	if (!number) {
+		fprintf(err, "Not a number.\n");
+		free(line);
+		return gen_m1;
+	}
 
 	pari_sp ltop = avma;
-	GEN in = strtoi(line + sign);
+	GEN in = strtoi(number);
 	if (sign) {
 		togglesign(in);
 	}
@@ -45,7 +77,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 
 	// check bitsize here
 	GEN size = int2n(bits);
-	if (cmpii(in, size) <= 0) {
+	if (abscmpii(in, size) < 0) {
 		return gerepileupto(ltop, in);
 	} else {
 		fprintf(err, "Number too big(> %ld bits).\n", bits);
-- 
2.43.0


From 7b444cbe6ac1c0a40c17b39aa667152b062533c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 09/47] fix: randomize also the last byte of a random bit
 string

---
 src/util/bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/bits.c b/src/util/bits.c
index 0d60c26..59a5145 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -21,6 +21,7 @@ bits_t *bits_new_rand(size_t bit_len) {
 	for (size_t i = 0; i < result->allocated; ++i) {
 		if (i == result->allocated - 1) {
 			size_t last_bits = bit_len % 8;
+			if (last_bits == 0) last_bits = 8;
 			result->bits[i] = (unsigned char)random_bits(last_bits)
 			                  << (8 - last_bits);
 		} else {
-- 
2.43.0


From b313282ac957b7f1f5493728eee6bc25d7c6add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 10/47] fix: rotate bit strings correctly by negative amounts

---
 src/util/bits.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 59a5145..4e57620 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -407,8 +407,8 @@ void bits_shiftrz(bits_t *bits, long amount) {
 		} else if (amount > 0) {
 			new_pos = (i + amount) % bits->bitlen;
 		} else if (amount < 0) {
-			long mod_amount = amount % bits->bitlen;
-			new_pos = (i + mod_amount) % bits->bitlen;
+			size_t mod_amount = (size_t)-amount % bits->bitlen;
+			new_pos = (i + bits->bitlen - mod_amount) % bits->bitlen;
 		}
 		new_bit = (unsigned char)GET_BIT(original_bits, new_pos);
 		bits->bits[i / 8] |= new_bit << (7 - (i % 8));
-- 
2.43.0


From c3fd8bffceb6430c436b0783b5c7e14c9c469903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 11/47] fix: handle empty and zero-valued bit strings

---
 src/util/bits.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 4e57620..50dacd4 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -155,7 +155,7 @@ GEN bits_to_i(const bits_t *bits) {
 		if (GET_BIT(bits->bits, i) != 0)
 			result = addii(result, int2n(bits->bitlen - i - 1));
 	}
-	if (bits->sign) {
+	if (bits->sign && signe(result)) {
 		setsigne(result, -1);
 	}
 	return gerepilecopy(ltop, result);
@@ -338,6 +338,7 @@ bits_t *bits_not(const bits_t *bits) {
 }
 
 void bits_rotz(bits_t *bits) {
+	if (bits->bitlen == 0) return;
 	unsigned char original_bits[bits->allocated];
 	for (size_t i = 0; i < bits->allocated; ++i) {
 		original_bits[i] = bits->bits[i];
@@ -369,7 +370,7 @@ bits_t *bits_rot(const bits_t *bits) {
 }
 
 void bits_shiftz(bits_t *bits, long amount) {
-	if (amount == 0) return;
+	if (amount == 0 || bits->bitlen == 0) return;
 	unsigned char original_bits[bits->allocated];
 	for (size_t i = 0; i < bits->allocated; ++i) {
 		original_bits[i] = bits->bits[i];
@@ -392,7 +393,7 @@ bits_t *bits_shift(const bits_t *bits, long amount) {
 }
 
 void bits_shiftrz(bits_t *bits, long amount) {
-	if (amount == 0) return;
+	if (amount == 0 || bits->bitlen == 0) return;
 	unsigned char original_bits[bits->allocated];
 	for (size_t i = 0; i < bits->allocated; ++i) {
 		original_bits[i] = bits->bits[i];
-- 
2.43.0


From b4148627bc9b970c94c4b5e0c221a054ffe70ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 12/47] fix: drop the excess bits when creating a bit string
 from raw bytes

---
 src/util/bits.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/bits.c b/src/util/bits.c
index 50dacd4..819e3b9 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -136,6 +136,10 @@ bits_t *bits_from_raw(const unsigned char *bits, size_t bit_len) {
 	result->bitlen = bit_len;
 	result->allocated = BYTE_LEN(bit_len);
 	if (bit_len > 0) result->bits = try_memdup(bits, result->allocated);
+	// Do not keep the bits past the end, they would reappear on lengthening.
+	if (bit_len % 8 != 0) {
+		result->bits[result->allocated - 1] &= 0xff << (8 - bit_len % 8);
+	}
 	return result;
 }
 
-- 
2.43.0


From c5ea4b8cf480548f2aef912eccf0baf212fdb49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:21 +0000
Subject: [PATCH 13/47] fix: keep the allocated length when joining many
 strings

---
 src/util/str.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/str.c b/src/util/str.c
index ff075f2..a5cfff5 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -51,7 +51,8 @@ char *str_joinv(char *separator, ...) {
 	size_t i = 0;
 	while ((next = va_arg(valist, char *)) != NULL) {
 		if (i == len) {
-			strings = try_realloc(strings, (len * 2) * sizeof(char *));
+			len *= 2;
+			strings = try_realloc(strings, len * sizeof(char *));
 		}
 		strings[i++] = next;
 	}
-- 
2.43.0


From 6cd3d86b75a554486698ea4becba06fbf06da488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:52 +0000
Subject: [PATCH 14/47] fix: separate points in the hex check

---
 src/gen/hex.c  | 14 ++++----------
 src/util/str.c |  2 +-
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/gen/hex.c b/src/gen/hex.c
index 58250a0..fa72651 100644
--- a/src/gen/hex.c
+++ b/src/gen/hex.c
@@ -21,20 +21,14 @@ static char *hex_point(point_t *point) {
 }
 
 static char *hex_points(point_t *points[], size_t len) {
-	char *p[len];
+	char *p[len + 1];
 	for (size_t i = 0; i < len; ++i) {
 		point_t *pt = points[i];
 		p[i] = hex_point(pt);
 	}
 
-	size_t total = 1;
+	char *result = len ? str_join(",", p, len) : try_strdup("");
 	for (size_t i = 0; i < len; ++i) {
-		total += strlen(p[i]);
-	}
-
-	char *result = try_calloc(total);
-	for (size_t i = 0; i < len; ++i) {
-		strcat(result, p[i]);
 		try_free(p[i]);
 	}
 	return result;
@@ -84,7 +78,7 @@ CHECK(hex_check_param) {
 	}
 
 	if (state >= OFFSET_GENERATORS) {
-		char *subgroups[curve->ngens];
+		char *subgroups[curve->ngens + 1];
 		for (size_t i = 0; i < curve->ngens; ++i) {
 			subgroups[i] = hex_point(curve->generators[i]->generator);
 		}
@@ -95,7 +89,7 @@ CHECK(hex_check_param) {
 	}
 
 	if (state >= OFFSET_POINTS) {
-		char *subgroups[curve->ngens];
+		char *subgroups[curve->ngens + 1];
 		for (size_t i = 0; i < curve->ngens; ++i) {
 			subgroups[i] = hex_points(curve->generators[i]->points,
 			                          curve->generators[i]->npoints);
diff --git a/src/util/str.c b/src/util/str.c
index a5cfff5..b815f20 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -28,7 +28,7 @@ char *str_join(char *separator, char **strings, size_t len) {
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) total += strlen(strings[i]);
 	}
-	if (separator) total += (len - 1) * strlen(separator);
+	if (separator && len > 0) total += (len - 1) * strlen(separator);
 	char *result = try_calloc(total);
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) {
-- 
2.43.0


From 57fe8b1b9bac10a06e29a8074a06ada0e9cebf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 15/47] fix: report cofactor and smoothness options ignored by
 the Brainpool and NUMS procedures

---
 src/exhaustive/exhaustive.c | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 1649cd7..710a25d 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -47,22 +47,29 @@ static void exhaustive_ginit(gen_f *generators) {
 	GET(field);
 
 	if (GET_BOOL(seed_algo)) {
-		if (GET_BOOL(prime)) {
-			generators[OFFSET_ORDER] = &order_gen_prime;
-		} else if (GET_BOOL(cofactor)) {
-			generators[OFFSET_ORDER] = &order_gen_cofactor;
-		} else if (GET_BOOL(smooth)) {
-			generators[OFFSET_ORDER] = &order_gen_smooth;
-		} else {
-			generators[OFFSET_ORDER] = &order_gen_any;
-		}
+		if (cfg->seed_algo == SEED_ANSI) {
+			if (GET_BOOL(prime)) {
+				generators[OFFSET_ORDER] = &order_gen_prime;
+			} else if (GET_BOOL(cofactor)) {
+				generators[OFFSET_ORDER] = &order_gen_cofactor;
+			} else if (GET_BOOL(smooth)) {
+				generators[OFFSET_ORDER] = &order_gen_smooth;
+			} else {
+				generators[OFFSET_ORDER] = &order_gen_any;
+			}
 
-		if (GET_BOOL(unique)) {
-			generators[OFFSET_GENERATORS] = &gens_gen_one;
-		} else if (GET_BOOL(cofactor)) {
-			generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
+			if (GET_BOOL(unique)) {
+				generators[OFFSET_GENERATORS] = &gens_gen_one;
+			} else if (GET_BOOL(cofactor)) {
+				generators[OFFSET_GENERATORS] = &gens_gen_cofactor;
+			} else {
+				generators[OFFSET_GENERATORS] = &gens_gen_any;
+			}
 		} else {
-			generators[OFFSET_GENERATORS] = &gens_gen_any;
+			// The other procedures only give prime order curves and a single
+			// generator, they do not take a cofactor or a smoothness bound.
+			GET(prime);
+			GET(unique);
 		}
 
 		switch (cfg->seed_algo) {
-- 
2.43.0


From 51a3796138d0a7a6a52bf7e87d0f6d5e1028b878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:40 +0000
Subject: [PATCH 16/47] fix: start the NUMS search from the first b for every
 curve

---
 src/exhaustive/exhaustive.c |  2 +-
 src/exhaustive/nums.c       | 46 +++++++++++++++----------------------
 src/exhaustive/nums.h       |  9 ++++++++
 3 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 710a25d..0fc97fa 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -133,7 +133,7 @@ static void exhaustive_ginit(gen_f *generators) {
 				generators[OFFSET_GENERATORS] = &brainpool_gen_gens;
 			} break;
 			case SEED_NUMS: {
-				generators[OFFSET_SEED] = &gen_skip;
+				generators[OFFSET_SEED] = &nums_gen_seed;
 				generators[OFFSET_FIELD] = &nums_gen_field;
 				generators[OFFSET_A] = &nums_gen_a;
 				generators[OFFSET_B] = &nums_gen_b;  // TODO: Missing transformation from b -> -b.
diff --git a/src/exhaustive/nums.c b/src/exhaustive/nums.c
index 7e41938..e0c865a 100644
--- a/src/exhaustive/nums.c
+++ b/src/exhaustive/nums.c
@@ -8,6 +8,14 @@
 #include "obj/point.h"
 #include "obj/subgroup.h"
 
+static GEN b = NULL;
+
+GENERATOR(nums_gen_seed) {
+	// A new curve starts, forget the b of the previous one.
+	nums_quit();
+	return 1;
+}
+
 GENERATOR(nums_gen_field) {
 	pari_sp ltop = avma;
 	GEN base = int2u(cfg->bits);
@@ -26,38 +34,21 @@ GENERATOR(nums_gen_a) {
 	return 1;
 }
 
-static GEN b = NULL;
-static curve_t *curve_b = NULL;
-
 GENERATOR(nums_gen_b) {
 	pari_sp ltop = avma;
+	GEN bn;
 	if (!b) {
-		b = gclone(gen_1);
-		curve->b = gmodulo(gen_1, curve->field);
-		curve_b = curve;
-		return 1;
+		bn = gen_1;
+	} else if (equaliu(b, 1)) {
+		// use b, add 1 to it, store it back modified,
+		bn = addiu(b, 2);
 	} else {
-		if (curve_b == curve) {
-			// use b, add 1 to it, store it back modified,
-			GEN bn;
-			if (equaliu(b, 1)) {
-				bn = addiu(b, 2);
-			} else {
-				bn = addiu(b, 1);
-			}
-			gunclone(b);
-			b = gclone(bn);
-			curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
-			return 1;
-		} else {
-			// dont use b, regenerate it,
-			gunclone(b);
-			b = gclone(gen_1);
-			curve->b = gerepilecopy(ltop, gmodulo(gen_1, curve->field));
-			curve_b = curve;
-			return 1;
-		}
+		bn = addiu(b, 1);
 	}
+	if (b) gunclone(b);
+	b = gclone(bn);
+	curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
+	return 1;
 }
 
 GENERATOR(nums_gen_order) {
@@ -108,4 +99,5 @@ void nums_quit(void) {
 	if (b && isclone(b)) {
 		gunclone(b);
 	}
+	b = NULL;
 }
\ No newline at end of file
diff --git a/src/exhaustive/nums.h b/src/exhaustive/nums.h
index 40cb1b4..aea86ff 100644
--- a/src/exhaustive/nums.h
+++ b/src/exhaustive/nums.h
@@ -10,6 +10,15 @@
 
 #include "misc/types.h"
 
+/**
+ * @brief
+ * @param curve
+ * @param args
+ * @param state
+ * @return
+ */
+GENERATOR(nums_gen_seed);
+
 /**
  * @brief
  * @param curve
-- 
2.43.0


From af4da14d212b6d1e83cfd51ad4de9e3563413971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 17/47] fix: keep the discriminants of anomalous curves apart

---
 src/cm/anomalous.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cm/anomalous.c b/src/cm/anomalous.c
index 70df8e4..3588454 100644
--- a/src/cm/anomalous.c
+++ b/src/cm/anomalous.c
@@ -32,9 +32,9 @@ void anomalous_init() {
 	disc_table[3]->d = stoi(67);
 	disc_table[3]->j = powis(mulis(a, 165), 3);
 	disc_table[3]->alpha = stoi(35805);
-	disc_table[3]->d = stoi(163);
-	disc_table[3]->j = powis(mulis(b, 10005), 3);
-	disc_table[3]->alpha = stoi(3717878010);
+	disc_table[4]->d = stoi(163);
+	disc_table[4]->j = powis(mulis(b, 10005), 3);
+	disc_table[4]->alpha = stoi(3717878010);
 }
 
 static GEN anomalous_prime(size_t i, unsigned long bits) {
@@ -98,7 +98,7 @@ GENERATOR(anomalous_gen_field) {
 	do {
 		p = anomalous_prime(i, cfg->bits);
 		gerepileall(ltop, 1, &p);
-	} while (!kronecker(disc_table[0]->alpha, p));
+	} while (!kronecker(disc_table[i]->alpha, p));
 
 	curve->field = gerepilecopy(ltop, p);
 	return 1;
-- 
2.43.0


From c8d04011c926130124a1908152ec5b96c5efb5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 18/47] fix: do not pick the point at infinity as a random
 point

---
 src/gen/point.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 21d0c26..68fa100 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -9,10 +9,15 @@
 #include "util/random.h"
 
 GENERATOR(point_gen_random) {
+	if (curve->ngens == 0) {
+		// Trivial group, there are no points besides infinity.
+		return 1;
+	}
 	long which_gen = itos(random_range(gen_0, stoi(curve->ngens)));
 
 	subgroup_t *subgroup = curve->generators[which_gen];
-	GEN mul = random_range(gen_0, subgroup->generator->order);
+	// Avoid the point at infinity.
+	GEN mul = random_range(gen_1, subgroup->generator->order);
 	GEN p = ellmul(curve->curve, subgroup->generator->point, mul);
 	point_t *point = point_new();
 	point->point = p;
@@ -25,6 +30,9 @@ GENERATOR(point_gen_random) {
 
 GENERATOR(points_gen_random) {
 	HAS_ARG(args);
+	if (curve->ngens == 0) {
+		return 1;
+	}
 
 	size_t npoints = *(size_t *)args->args;
 	size_t npoints_per_gen[curve->ngens];
@@ -103,7 +111,7 @@ GENERATOR(points_gen_trial) {
 		gel(orders, i) = utoi(primes[i - 1]);
 	}
 
-	GEN orders_per_gen[curve->ngens];
+	GEN orders_per_gen[curve->ngens + 1];
 
 	for (size_t i = 0; i < curve->ngens; ++i) {
 		orders_per_gen[i] = gen_0;
-- 
2.43.0


From 28ae1462de20685d5ff4df3c876a68c1fe7d6d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 19/47] fix: store the protected order in the curve

---
 src/gen/order.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index aa7487a..62e9e03 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -41,7 +41,7 @@ GENERATOR(order_gen_sea) {
 		return -4;
 	} else {
 		curve->order = gerepilecopy(ltop, order);
-		obj_insert_shallow(curve->curve, 1, order);
+		obj_insert_shallow(curve->curve, 1, curve->order);
 		return 1;
 	}
 }
@@ -85,7 +85,7 @@ GENERATOR(order_gen_smooth) {
 	}
 
 	curve->order = gerepilecopy(ltop, order);
-	obj_insert_shallow(curve->curve, 1, order);
+	obj_insert_shallow(curve->curve, 1, curve->order);
 	return 1;
 }
 
-- 
2.43.0


From 1eb5646baa5a28efc2390dcfd22127c12a0e1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 20/47] fix: refuse malformed orders and prime ranges

---
 src/io/cli.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index d98a0c0..938224f 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -100,7 +100,7 @@ static regex_t re_cm_order;
 bool cli_init() {
 	int error = regcomp(
 	    &re_cm_order,
-	    "((0[xX][0-9a-fA-F]+)|([0-9]+))(,((0[xX][0-9a-fA-F]+)|([0-9]+)))*",
+	    "^((0[xX][0-9a-fA-F]+)|([0-9]+))(,((0[xX][0-9a-fA-F]+)|([0-9]+)))*$",
 	    REG_EXTENDED);
 	if (error) {
 		size_t length = regerror(error, &re_cm_order, NULL, 0);
@@ -256,8 +256,14 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 			cfg->method |= METHOD_INVALID;
 			SET(method);
 			if (arg) {
-				size_t span = strspn(arg, "0123456789-");
-				if (span != strlen(arg)) {
+				// A number, an open range or a closed range.
+				size_t span = strspn(arg, "0123456789");
+				size_t rest = span;
+				if (span && arg[rest] == '-') {
+					rest++;
+					rest += strspn(arg + rest, "0123456789");
+				}
+				if (!span || arg[rest] != '\0') {
 					argp_failure(state, 1, 0, "Invalid range %s", arg);
 				}
 				cfg->invalid_primes = arg;
-- 
2.43.0


From 792255ac632055b6daa71b73712a4c9834a43d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:38 +0000
Subject: [PATCH 21/47] fix: copy the metadata of a curve as well

---
 src/obj/curve.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/obj/curve.c b/src/obj/curve.c
index 4821442..0409ec6 100644
--- a/src/obj/curve.c
+++ b/src/obj/curve.c
@@ -5,6 +5,42 @@
 
 OBJ(curve, curve_t, curve_copy, curve_clone)
 
+static void metadata_copy(const metadata_t *src, metadata_t *dest) {
+	if (src->j_invariant) dest->j_invariant = gcopy(src->j_invariant);
+	if (src->discriminant) dest->discriminant = gcopy(src->discriminant);
+	if (src->cm_discriminant)
+		dest->cm_discriminant = gcopy(src->cm_discriminant);
+	if (src->frobenius_trace)
+		dest->frobenius_trace = gcopy(src->frobenius_trace);
+	if (src->embedding_degree)
+		dest->embedding_degree = gcopy(src->embedding_degree);
+	if (src->conductor) dest->conductor = gcopy(src->conductor);
+}
+
+static void metadata_clone(const metadata_t *src, metadata_t *dest) {
+	if (src->j_invariant) dest->j_invariant = gclone(src->j_invariant);
+	if (src->discriminant) dest->discriminant = gclone(src->discriminant);
+	if (src->cm_discriminant)
+		dest->cm_discriminant = gclone(src->cm_discriminant);
+	if (src->frobenius_trace)
+		dest->frobenius_trace = gclone(src->frobenius_trace);
+	if (src->embedding_degree)
+		dest->embedding_degree = gclone(src->embedding_degree);
+	if (src->conductor) dest->conductor = gclone(src->conductor);
+}
+
+static void metadata_free(metadata_t *meta) {
+	GEN *members[] = {&meta->j_invariant,     &meta->discriminant,
+	                  &meta->cm_discriminant, &meta->frobenius_trace,
+	                  &meta->embedding_degree, &meta->conductor};
+	for (size_t i = 0; i < sizeof(members) / sizeof(*members); ++i) {
+		if (*members[i] && isclone(*members[i])) {
+			gunclone(*members[i]);
+		}
+		*members[i] = NULL;
+	}
+}
+
 curve_t *curve_copy(const curve_t *src, curve_t *dest) {
 	if (src->seed) dest->seed = seed_new_copy(src->seed);
 	if (src->field) dest->field = gcopy(src->field);
@@ -16,6 +52,7 @@ curve_t *curve_copy(const curve_t *src, curve_t *dest) {
 		dest->generators = subgroups_new_copy(src->generators, src->ngens);
 		dest->ngens = src->ngens;
 	}
+	metadata_copy(&src->meta, &dest->meta);
 	return dest;
 }
 
@@ -30,6 +67,7 @@ curve_t *curve_clone(const curve_t *src, curve_t *dest) {
 		dest->generators = subgroups_new_clone(src->generators, src->ngens);
 		dest->ngens = src->ngens;
 	}
+	metadata_clone(&src->meta, &dest->meta);
 	return dest;
 }
 
@@ -59,6 +97,8 @@ void curve_free(curve_t **curve) {
 			gunclone((*curve)->order);
 		}
 
+		metadata_free(&(*curve)->meta);
+
 		try_free(*curve);
 		*curve = NULL;
 	}
-- 
2.43.0


From a3d4ea96744155c8f16b0a49e7531eef5de955fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:54 +0000
Subject: [PATCH 22/47] fix: compute metadata of curves with order divisible by
 the characteristic

---
 src/gen/gens.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index a743e79..7e58a2b 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -104,7 +104,8 @@ CHECK(gens_check_anomalous) {
 }
 
 GEN gens_get_embedding(GEN prime, GEN generator_order) {
-	if (gequal(prime, generator_order)) {
+	// There is none if the order is not coprime to the characteristic.
+	if (!gequal1(ggcd(prime, generator_order))) {
 		return stoi(0);
 	}
 	return znorder(mkintmod(prime, generator_order), NULL);
-- 
2.43.0


From 2bc4361de21a5f645b6eee4570f75f4cfda8e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 23/47] fix: handle empty allocations (curves with no
 generators)

---
 src/util/memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/memory.c b/src/util/memory.c
index f05efae..f47f243 100644
--- a/src/util/memory.c
+++ b/src/util/memory.c
@@ -31,7 +31,8 @@ static void (*free_func)(void *) = free;
 #endif
 
 void *alloc(void *(*fun)(size_t), size_t size) {
-	void *result = fun(size);
+	// An empty allocation might be NULL, that is not a failure.
+	void *result = fun(size ? size : 1);
 	if (!result) {
 		perror("Couldn't alloc.");
 		exit(EXIT_FAILURE);
@@ -44,7 +45,7 @@ void *try_malloc(size_t size) { return alloc(malloc_func, size); }
 void *try_calloc(size_t size) { return alloc(calloc_func, size); }
 
 void *try_realloc(void *ptr, size_t size) {
-	void *result = realloc_func(ptr, size);
+	void *result = realloc_func(ptr, size ? size : 1);
 	if (!result) {
 		perror("Couldn't realloc.");
 		exit(EXIT_FAILURE);
-- 
2.43.0


From 56255be61c8ad554eea7b0ebf10cacb6b79579b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 24/47] fix: do not use infinity as a Brainpool generator, nor
 an empty array

---
 src/exhaustive/brainpool.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 6364077..700add4 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -41,7 +41,7 @@ bits_t *brainpool_hash(const bits_t *s, long w, long v) {
 	pari_sp ltop = avma;
 	unsigned char h[20];
 	bits_sha1(s, h);
-	unsigned char hashout[20 * v];
+	unsigned char hashout[20 * v + 1];
 
 	GEN z = bits_to_i(s);
 	GEN m = int2n(160);
@@ -243,13 +243,20 @@ GENERATOR(brainpool_gen_gens) {
 		return INT_MIN;
 	}
 
+	GEN point = ellmul(curve->curve, P, k);
+	if (ell_is_inf(point)) {
+		// A multiple of the order is no generator.
+		avma = ltop;
+		return -5;
+	}
+
 	curve->generators = subgroups_new(1);
 	curve->ngens = 1;
 	subgroup_t *sub = subgroup_new();
 	curve->generators[0] = sub;
 	point_t *G = point_new();
 	sub->generator = G;
-	G->point = ellmul(curve->curve, P, k);
+	G->point = point;
 	G->order = ellorder(curve->curve, G->point, NULL);
 	G->cofactor = divii(curve->order, G->order);
 	seed->brainpool.mult = k;
-- 
2.43.0


From 336259b964ffcefc6b7db14fc02f1facdedea156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 25/47] fix: do not crash on an ANSI X9.62 seed giving a zero r

---
 src/exhaustive/ansi.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 2345cda..c79c13a 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -128,6 +128,14 @@ static GENERATOR(ansi_gen_equation_fp) {
 	curve->seed->ansi.r = r;
 
 	GEN r_inv = Fp_invsafe(r, curve->field);
+	if (!r_inv) {
+		// r is zero in this field, there is no curve for this seed.
+		bits_free(&c0);
+		bits_free(&W0);
+		bits_free(&W);
+		avma = ltop;
+		return -3;
+	}
 	GEN a;
 	GEN b2;
 	do {
-- 
2.43.0


From 4950ca45b316d46a6c885175f244474640c0e8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 26/47] fix: reduce the coefficient of ANSI X9.62 curves into
 the field

---
 src/exhaustive/ansi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index c79c13a..6baf189 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -139,7 +139,7 @@ static GENERATOR(ansi_gen_equation_fp) {
 	GEN a;
 	GEN b2;
 	do {
-		a = random_int(cfg->bits);
+		a = modii(random_int(cfg->bits), curve->field);
 		b2 = mulii(powis(a, 3), r_inv);
 	} while (!Fp_issquare(b2, curve->field));
 	GEN b = Fp_sqrt(b2, curve->field);
-- 
2.43.0


From d864ae33d746a0002da8f6e1aa5a81d65cd9ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 27/47] fix: keep anomalous curves to fields of the requested
 size

---
 src/cm/anomalous.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cm/anomalous.c b/src/cm/anomalous.c
index 3588454..bbd4205 100644
--- a/src/cm/anomalous.c
+++ b/src/cm/anomalous.c
@@ -42,8 +42,13 @@ static GEN anomalous_prime(size_t i, unsigned long bits) {
 
 	pari_sp ltop = avma;
 	GEN last = divis(addis(D, 1), 4);
-	GEN lower = divii(subii(int2n(bits - 1), last), D);
-	GEN upper = divii(subii(int2n(bits), last), D);
+	GEN lower = gceil(gdiv(subii(int2n(bits - 1), last), D));
+	GEN upper = gfloor(gdiv(subii(int2n(bits), last), D));
+	if (signe(lower) < 0) lower = gen_0;
+	if (signe(upper) < 0) {
+		avma = ltop;
+		return NULL;
+	}
 
 	GEN lower_bound = gceil(
 	    gdiv(gsub(gsqrt(addis(mulis(lower, 4), 1), BIGDEFAULTPREC * 2), gen_1),
@@ -52,6 +57,11 @@ static GEN anomalous_prime(size_t i, unsigned long bits) {
 	    gdiv(gsub(gsqrt(addis(mulis(upper, 4), 1), BIGDEFAULTPREC * 2), gen_1),
 	         gen_2));
 
+	if (cmpii(lower_bound, upper_bound) > 0) {
+		avma = ltop;
+		return NULL;
+	}
+
 	GEN range = gtovec0(gen_0, 2);
 	gel(range, 1) = lower_bound;
 	gel(range, 2) = upper_bound;
@@ -97,6 +107,10 @@ GENERATOR(anomalous_gen_field) {
 	GEN p;
 	do {
 		p = anomalous_prime(i, cfg->bits);
+		if (!p) {
+			fprintf(err, "There is no suitable field of %lu bits.\n", cfg->bits);
+			return INT_MIN;
+		}
 		gerepileall(ltop, 1, &p);
 	} while (!kronecker(disc_table[i]->alpha, p));
 
-- 
2.43.0


From ef6417e466434b88fa45df7d245a1b2af1ff0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 28/47] fix: do not twist the order of a previous, rejected
 curve

---
 src/gen/curve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gen/curve.c b/src/gen/curve.c
index 7ea2fb5..a12ad4b 100644
--- a/src/gen/curve.c
+++ b/src/gen/curve.c
@@ -39,6 +39,8 @@ GENERATOR(curve_gen_any_twist) {
 	if (result != 1) {
 		return result;
 	} else {
+		// the order is that of a previous (rejected) curve, if any
+		curve->order = NULL;
 		twist_rand(curve);
 		return 1;
 	}
-- 
2.43.0


From 4aa6d9906a87341534ce653514f4a3dcfa9f3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:39 +0000
Subject: [PATCH 29/47] fix: pick a reduced coefficient for binary ANSI X9.62
 curves

---
 src/exhaustive/ansi.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 6baf189..4a64ce4 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -165,8 +165,7 @@ static GENERATOR(ansi_gen_equation_f2m) {
 		avma = ltop;
 		return -3;
 	}
-	GEN a = random_int(cfg->bits);
-	curve->a = field_ielement(curve->field, a);
+	curve->a = random_field_element(curve->field);
 	curve->b = field_ielement(curve->field, ib);
 
 	gerepileall(ltop, 2, &curve->a, &curve->b);
-- 
2.43.0


From 1eb77e64b3e4c0c6c45194ad7482631a5379548c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:02 +0000
Subject: [PATCH 30/47] fix: take a cofactor generator only when it has the
 required order

---
 src/gen/gens.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index 7e58a2b..4fc4310 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -69,6 +69,7 @@ GENERATOR(gens_gen_cofactor) {
 
 		if (dvdiu(gen_order, cofactor)) {
 			GEN res = diviuexact(gen_order, cofactor);
+			if (!equalii(order, res)) continue;
 			p = point_new();
 			p->point = gcopy(ellmul(curve->curve, gen, utoi(cofactor)));
 			p->order = res;
-- 
2.43.0


From 5b804fef3054adc48af6f555ede363c2c657c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:23 +0000
Subject: [PATCH 31/47] fix: exit with a failure when the output could not be
 written

---
 src/ecgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecgen.c b/src/ecgen.c
index 307960e..3679707 100644
--- a/src/ecgen.c
+++ b/src/ecgen.c
@@ -98,6 +98,10 @@ int quit(int status) {
 
 	timeout_quit();
 
+	if (out && ferror(out)) {
+		fprintf(stderr, "Failed to write the output.\n");
+		status = EXIT_FAILURE;
+	}
 	output_quit();
 	input_quit();
 
-- 
2.43.0


From b896cf1da7893a2b135bdf485a611f268022854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 32/47] fix: handle prime ranges starting below two

---
 src/invalid/invalid.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 40c5b59..a4e57a1 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -79,7 +79,10 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 
 	if (cfg->invalid_primes) {
 		char *end = NULL;
-		last = (pari_ulong)strtol(cfg->invalid_primes, &end, 10) - 1;
+		last = (pari_ulong)strtol(cfg->invalid_primes, &end, 10);
+		/* there are no primes below two */
+		if (last < 2) last = 2;
+		last--;
 		if (end && *end) {
 			end++;
 			upper = (pari_ulong)strtol(end, NULL, 10);
-- 
2.43.0


From a99c7355d3e4defb91ac21608f2845db6fd2e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 33/47] fix: list a point for every prime an invalid curve
 covers

---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 68fa100..fa4f2cc 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -126,7 +126,7 @@ GENERATOR(points_gen_trial) {
 				if (orders_per_gen[i] == gen_0) {
 					orders_per_gen[i] = gtovec(num);
 				} else {
-					vec_append(orders_per_gen[i], num);
+					orders_per_gen[i] = vec_append(orders_per_gen[i], num);
 				}
 			}
 		}
-- 
2.43.0


From 0145dc880aefeb356fef8896173a4d4619b6152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:55 +0000
Subject: [PATCH 34/47] fix: unroll points of a partially generated set of
 generators

---
 src/gen/point.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gen/point.c b/src/gen/point.c
index fa4f2cc..700484f 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -182,6 +182,8 @@ GENERATOR(points_gen_nonprime) {
 UNROLL(points_unroll) {
 	if (curve->generators) {
 		for (size_t i = 0; i < curve->ngens; ++i) {
+			/* a timeout might have left only some of the generators in place */
+			if (!curve->generators[i]) continue;
 			points_free_deep(&curve->generators[i]->points,
 			                 curve->generators[i]->npoints);
 		}
-- 
2.43.0


From 999d8c7b166b5c9850f14a30e356ae7bb01395a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:13 +0000
Subject: [PATCH 35/47] fix: add the missing trinomial of degree 1060

---
 src/math/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/poly.c b/src/math/poly.c
index 0a042c4..5bc2fe1 100644
--- a/src/math/poly.c
+++ b/src/math/poly.c
@@ -963,7 +963,7 @@ static polynomial_t ansi_trinomials[] = {
     {1028, 119}, {1029, 98},  {1030, 93},  {1031, 68},  {1033, 108},
     {1034, 75},  {1036, 411}, {1039, 21},  {1041, 412}, {1042, 439},
     {1044, 41},  {1047, 10},  {1049, 141}, {1050, 159}, {1052, 291},
-    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1062, 49},
+    {1054, 105}, {1055, 24},  {1057, 198}, {1058, 27},  {1060, 439}, {1062, 49},
     {1063, 168}, {1065, 463}, {1071, 7},   {1078, 361}, {1079, 230},
     {1081, 24},  {1082, 407}, {1084, 189}, {1085, 62},  {1086, 189},
     {1087, 112}, {1089, 91},  {1090, 79},  {1092, 23},  {1094, 57},
-- 
2.43.0


From 60d86aedb43d9d7f78b68448c47d233dfb4c8500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:48 +0000
Subject: [PATCH 36/47] fix: an empty bit string converts to an empty bit
 vector

---
 src/util/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bits.c b/src/util/bits.c
index 819e3b9..d3e2045 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -220,7 +220,7 @@ unsigned char *bits_to_raw(const bits_t *bits) {
 size_t bits_to_rawlen(const bits_t *bits) { return BYTE_LEN(bits->bitlen); }
 
 GEN bits_to_bitvec(const bits_t *bits) {
-	GEN bitvec = gtovecsmall0(gen_0, bits->bitlen);
+	GEN bitvec = zero_zv((long)bits->bitlen);
 	for (size_t i = 0; i < bits->bitlen; ++i) {
 		if (GET_BIT(bits->bits, i) != 0) gel(bitvec, i + 1) = (GEN)1;
 	}
-- 
2.43.0


From e9d7e3885115db0a7951253f25fc10b179ec5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 37/47] fix: enumerate the divisors of an order, not the
 subsets of its factors

---
 src/math/subgroup.c | 80 ++++++++++++---------------------------------
 1 file changed, 20 insertions(+), 60 deletions(-)

diff --git a/src/math/subgroup.c b/src/math/subgroup.c
index fdf45a5..93c158d 100644
--- a/src/math/subgroup.c
+++ b/src/math/subgroup.c
@@ -5,69 +5,31 @@
 #include "subgroup.h"
 
 /**
- * @brief All prime divisors of a given integer with multiplicity.
+ * @brief All divisors of a given integer, that have at least
+ * <code>min_primes</code> prime factors (counted with multiplicity).
  *
- * subgroups_divisors(27) = [3, 3, 3]
+ * subgroups_divisors(27, 2) = [9, 27]
  * @param order
- * @return a t_VEC of prime divisors.
+ * @param min_primes 1 or 2
+ * @return a t_VEC of divisors, or NULL if there are none.
  */
-static GEN subgroups_divisors(GEN order) {
-	GEN factors = Z_factor(order);
-	GEN primes = gel(factors, 1);
-	GEN multiples = gel(factors, 2);
-	long uniqs = glength(primes);
-
-	long size = 0;
-	for (long i = 1; i <= uniqs; ++i) {
-		size += itos(gel(multiples, i));
-	}
-	GEN result = gtovec0(gen_0, size);
-
+static GEN subgroups_divisors(GEN order, long min_primes) {
+	pari_sp ltop = avma;
+	GEN divs = divisors(order);
+	GEN result = cgetg(lg(divs), t_VEC);
 	long count = 0;
-	for (long i = 1; i <= uniqs; ++i) {
-		long multiple = itos(gel(multiples, i));
-		for (long j = 1; j <= multiple; ++j) {
-			gel(result, ++count) = gel(primes, i);
+	for (long i = 1; i < lg(divs); ++i) {
+		GEN div = gel(divs, i);
+		if (!equali1(div) && (min_primes < 2 || !isprime(div))) {
+			gel(result, ++count) = div;
 		}
 	}
-	return result;
-}
-
-/**
- * @brief All factors consisting of at least <code>min_bits</code> prime
- * <code>factors</code>.
- *
- * @param factors
- * @param min_bits
- * @return a t_VEC of factors
- */
-static GEN subgroups_2n_factors(GEN factors, size_t min_bits) {
-	pari_sp ltop = avma;
-	long nprimes = glength(factors);
-	if (nprimes == min_bits) return NULL;
-	GEN amount = int2n(nprimes);
-	GEN groups = gtovec0(gen_0, itos(amount) - (min_bits * nprimes) - 1);
-
-	size_t i = 0;
-	for (size_t count = 1; count < (size_t)(1) << nprimes; ++count) {
-		pari_sp btop = avma;
-		GEN result = gen_1;
-		size_t bits = 0;
-		for (long bit = 0; bit < nprimes; ++bit) {
-			size_t mask = (size_t)(1) << bit;
-			if (count & mask) {
-				result = mulii(result, gel(factors, bit + 1));
-				bits++;
-			}
-		}
-		if (bits > min_bits) {
-			gel(groups, ++i) = result;
-		} else {
-			avma = btop;
-		}
+	setlg(result, count + 1);
+	if (count == 0) {
+		avma = ltop;
+		return NULL;
 	}
-	GEN ret = gtoset(groups);
-	return gerepilecopy(ltop, ret);
+	return gerepilecopy(ltop, result);
 }
 
 GEN subgroups_prime(GEN order) {
@@ -82,16 +44,14 @@ GEN subgroups_nonprime(GEN order) {
 	if (isprime(order)) {
 		return NULL;
 	}
-	GEN factors = subgroups_divisors(order);
-	return subgroups_2n_factors(factors, 1);
+	return subgroups_divisors(order, 2);
 }
 
 GEN subgroups_all(GEN order) {
 	if (isprime(order)) {
 		return gtovec(order);
 	}
-	GEN factors = subgroups_divisors(order);
-	return subgroups_2n_factors(factors, 0);
+	return subgroups_divisors(order, 1);
 }
 
 /**
-- 
2.43.0


From a387f41550839e4ef36095ccffee7c67b72dd2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:56 +0000
Subject: [PATCH 38/47] fix: refuse more than one seed algorithm

---
 src/io/cli.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index 938224f..6f039c3 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -150,6 +150,14 @@ static unsigned long cli_parse_time(const char *str, struct argp_state *state) {
 	return read;
 }
 
+static void cli_set_seed_algo(seed_e algo, struct argp_state *state) {
+	if (cfg->seed_algo != SEED_NONE && cfg->seed_algo != algo) {
+		argp_failure(state, 1, 0,
+		             "Only one generation method can be specified.");
+	}
+	cfg->seed_algo = algo;
+}
+
 static void cli_end(struct argp_state *state) {
 	// validate all option states here.
 	// Only one field
@@ -314,7 +322,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_ANSI:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_ANSI;
+			cli_set_seed_algo(SEED_ANSI, state);
 			SET(seed_algo);
 			if (arg) {
 				if (!ansi_seed_valid(arg)) {
@@ -329,7 +337,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_BRAINPOOL:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_BRAINPOOL;
+			cli_set_seed_algo(SEED_BRAINPOOL, state);
 			SET(seed_algo);
 			if (arg) {
 				if (!brainpool_seed_valid(arg)) {
@@ -344,13 +352,13 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_NUMS:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_NUMS;
+			cli_set_seed_algo(SEED_NUMS, state);
 			SET(seed_algo);
 			break;
 		case OPT_BRAINPOOL_RFC:
 			cfg->method |= METHOD_SEED;
 			SET(method);
-			cfg->seed_algo = SEED_BRAINPOOL_RFC;
+			cli_set_seed_algo(SEED_BRAINPOOL_RFC, state);
 			SET(seed_algo);
 			if (arg) {
 				if (!brainpool_seed_valid(arg)) {
-- 
2.43.0


From 470004f6c4362e35a5bd3bd4609866370c937889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:13 +0000
Subject: [PATCH 39/47] fix: refuse malformed numbers on the command line

---
 src/io/cli.c | 65 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index 6f039c3..e3e74dd 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -113,11 +113,20 @@ bool cli_init() {
 	return true;
 }
 
+/* strtoul, but for a number without leading spaces or a sign. */
+static unsigned long cli_parse_number(const char *str, char **end) {
+	if (!isdigit((unsigned char)*str)) {
+		*end = (char *)str;
+		return 0;
+	}
+	return strtoul(str, end, 10);
+}
+
 static unsigned long cli_parse_memory(const char *str,
                                       struct argp_state *state) {
 	char *suffix = NULL;
-	unsigned long read = strtoul(str, &suffix, 10);
-	if (suffix == str) {
+	unsigned long read = cli_parse_number(str, &suffix);
+	if (suffix == str || (*suffix && (!strchr("kKmMgG", *suffix) || suffix[1]))) {
 		argp_failure(state, 1, 0, "Wrong memory value.");
 	}
 	if (suffix) {
@@ -134,8 +143,9 @@ static unsigned long cli_parse_memory(const char *str,
 
 static unsigned long cli_parse_time(const char *str, struct argp_state *state) {
 	char *suffix = NULL;
-	unsigned long read = strtoul(str, &suffix, 10);
-	if (suffix == str) {
+	unsigned long read = cli_parse_number(str, &suffix);
+	if (suffix == str ||
+	    (*suffix && (!strchr("sSmMhHdD", *suffix) || suffix[1]))) {
 		argp_failure(state, 1, 0, "Wrong time value.");
 	}
 	if (suffix) {
@@ -248,6 +258,7 @@ static void cli_end(struct argp_state *state) {
 }
 
 error_t cli_parse(int key, char *arg, struct argp_state *state) {
+	char *num_end = NULL;
 	switch (key) {
 		/* Field options */
 		case OPT_FP:
@@ -377,7 +388,10 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 
 			/* Generation options */
 		case OPT_COUNT:
-			cfg->count = strtoul(arg, NULL, 10);
+			cfg->count = cli_parse_number(arg, &num_end);
+			if (num_end == arg || *num_end) {
+				argp_failure(state, 1, 0, "Wrong count %s.", arg);
+			}
 			SET(count);
 			break;
 		case OPT_RANDOM:
@@ -412,22 +426,28 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 		case OPT_SMOOTH:
 			cfg->smooth = true;
 			SET(smooth);
-			cfg->smooth_value = strtol(arg, NULL, 10);
+			cfg->smooth_value = cli_parse_number(arg, &num_end);
+			if (num_end == arg || *num_end) {
+				argp_failure(state, 1, 0, "Wrong smoothness bound %s.", arg);
+			}
 			break;
 		case OPT_COFACTOR:
 			cfg->cofactor = true;
 			SET(cofactor);
-			cfg->cofactor_value = strtol(arg, NULL, 10);
+			cfg->cofactor_value = cli_parse_number(arg, &num_end);
+			if (num_end == arg || *num_end) {
+				argp_failure(state, 1, 0, "Wrong cofactor %s.", arg);
+			}
 			break;
 		case OPT_KOBLITZ:
 			cfg->koblitz = true;
 			SET(koblitz);
 			if (arg) {
-				cfg->koblitz_value = strtol(arg, NULL, 10);
+				cfg->koblitz_value = cli_parse_number(arg, &num_end);
 				SET(koblitz_value);
-				if (cfg->koblitz_value != 0 && cfg->koblitz_value != 1) {
-					argp_failure(state, 1, 0, "Wrong value for a = %li",
-					             cfg->koblitz_value);
+				if (num_end == arg || *num_end ||
+				    (cfg->koblitz_value != 0 && cfg->koblitz_value != 1)) {
+					argp_failure(state, 1, 0, "Wrong value for a = %s", arg);
 				}
 			}
 			break;
@@ -460,18 +480,16 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 			SET(metadata);
 			break;
 		case OPT_POINTS: {
-			char *num_end;
-			long amount = strtol(arg, &num_end, 10);
-			cfg->points.amount = (size_t)amount;
-			if (strstr(num_end, "random") == num_end) {
+			cfg->points.amount = cli_parse_number(arg, &num_end);
+			if (strcmp(num_end, "random") == 0) {
 				cfg->points.type = POINTS_RANDOM;
-			} else if (strstr(num_end, "prime") == num_end) {
+			} else if (strcmp(num_end, "prime") == 0) {
 				cfg->points.type = POINTS_PRIME;
-			} else if (strstr(num_end, "all") == num_end) {
+			} else if (strcmp(num_end, "all") == 0) {
 				cfg->points.type = POINTS_ALL;
-			} else if (strstr(num_end, "nonprime") == num_end) {
+			} else if (strcmp(num_end, "nonprime") == 0) {
 				cfg->points.type = POINTS_NONPRIME;
-			} else if (strstr(num_end, "none") == num_end) {
+			} else if (strcmp(num_end, "none") == 0) {
 				cfg->points.type = POINTS_NONE;
 			} else {
 				argp_failure(state, 1, 0, "Unknown point type. %s", num_end);
@@ -516,8 +534,8 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 					cfg->threads = (unsigned long)nprocs;
 				}
 			} else {
-				cfg->threads = strtoul(arg, NULL, 10);
-				if (!cfg->threads) {
+				cfg->threads = cli_parse_number(arg, &num_end);
+				if (!cfg->threads || *num_end) {
 					argp_failure(state, 1, 0,
 					             "Invalid number of threads specified.");
 				}
@@ -530,9 +548,8 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 				argp_usage(state);
 			}
 
-			char *bits_end = NULL;
-			cfg->bits = strtoul(arg, &bits_end, 10);
-			if (*bits_end != '\0') {
+			cfg->bits = cli_parse_number(arg, &num_end);
+			if (num_end == arg || *num_end != '\0') {
 				argp_failure(state, 1, 0, "Invalid bit size specified.");
 			}
 			cfg->hex_digits =
-- 
2.43.0


From ebac7ec04aa3a567476cb9bd32d9c15e3736d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:23 +0000
Subject: [PATCH 40/47] fix: do not look at released objects when freeing a
 curve

A generation that fails after some of its steps were unrolled leaves
pointers to released parts of the PARI stack in the curve, curve_free then
mistook what was there by then for a clone and crashed.
---
 src/obj/curve.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/obj/curve.c b/src/obj/curve.c
index 0409ec6..e536313 100644
--- a/src/obj/curve.c
+++ b/src/obj/curve.c
@@ -29,14 +29,22 @@ static void metadata_clone(const metadata_t *src, metadata_t *dest) {
 	if (src->conductor) dest->conductor = gclone(src->conductor);
 }
 
+/**
+ * A failed or unrolled generation leaves pointers to released parts of the
+ * stack behind, those are not to be looked at.
+ */
+static void free_clone(GEN x) {
+	if (x && !isonstack(x) && isclone(x)) {
+		gunclone(x);
+	}
+}
+
 static void metadata_free(metadata_t *meta) {
 	GEN *members[] = {&meta->j_invariant,     &meta->discriminant,
 	                  &meta->cm_discriminant, &meta->frobenius_trace,
 	                  &meta->embedding_degree, &meta->conductor};
 	for (size_t i = 0; i < sizeof(members) / sizeof(*members); ++i) {
-		if (*members[i] && isclone(*members[i])) {
-			gunclone(*members[i]);
-		}
+		free_clone(*members[i]);
 		*members[i] = NULL;
 	}
 }
@@ -84,18 +92,10 @@ void curve_free(curve_t **curve) {
 			}
 		}
 
-		if ((*curve)->field && isclone((*curve)->field)) {
-			gunclone((*curve)->field);
-		}
-		if ((*curve)->a && isclone((*curve)->a)) {
-			gunclone((*curve)->a);
-		}
-		if ((*curve)->b && isclone((*curve)->b)) {
-			gunclone((*curve)->b);
-		}
-		if ((*curve)->order && isclone((*curve)->order)) {
-			gunclone((*curve)->order);
-		}
+		free_clone((*curve)->field);
+		free_clone((*curve)->a);
+		free_clone((*curve)->b);
+		free_clone((*curve)->order);
 
 		metadata_free(&(*curve)->meta);
 
-- 
2.43.0


From 87039f166a43f1da84f290c578627016007773c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:42 +0000
Subject: [PATCH 41/47] fix: do not jump out of heap operations on a timeout

The timeout signal can arrive while PARI or the program is inside malloc or
free, jumping out of them leaves the heap and its locks half way. PARI
marks these sections and raises a pending signal when they end.
---
 src/util/timeout.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/util/timeout.c b/src/util/timeout.c
index 6fdbf16..eb3cea6 100644
--- a/src/util/timeout.c
+++ b/src/util/timeout.c
@@ -16,6 +16,13 @@ void timeout_handle(int signum, siginfo_t *siginfo, void *other) {
 	sigaddset(&mask, SIGALRM);
 	sigprocmask(SIG_UNBLOCK, &mask, NULL);
 
+	if (PARI_SIGINT_block) {
+		// In the middle of a heap operation, it is not safe to jump out of it,
+		// PARI raises the signal again when it is done.
+		PARI_SIGINT_pending = signum;
+		return;
+	}
+
 	if (timeout_in) siglongjmp(timeout_ptr, 1);
 }
 
-- 
2.43.0


From f4fb5af2838e56164e192a9792e72d55916a5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 42/47] fix: keep the counter of b valid when a timeout comes

---
 src/exhaustive/family.c | 15 +++++++++++----
 src/exhaustive/nums.c   | 11 +++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 129eb70..b9313c9 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -117,6 +117,15 @@ GENERATOR(family_gen_field) {
 static GEN b = NULL;
 static curve_t *b_curve = NULL;
 
+/**
+ * A timeout might come at any time, b always has to be valid.
+ */
+static void b_set(GEN value) {
+	GEN old = b;
+	b = gclone(value);
+	gunclone(old);
+}
+
 GENERATOR(family_gen_equation_iter) {
 	curve->a = gmodulo(gen_0, curve->field);
 
@@ -129,14 +138,12 @@ GENERATOR(family_gen_equation_iter) {
 	} else {
 		if (curve == b_curve) {
 			GEN bn = addii(b, gen_1);
-			gunclone(b);
-			b = gclone(bn);
+			b_set(bn);
 			curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
 			return 1;
 		} else {
 			// dont use b, regenerate it,
-			gunclone(b);
-			b = gclone(gen_1);
+			b_set(gen_1);
 			curve->b = gerepilecopy(ltop, gmodulo(gen_1, curve->field));
 			b_curve = curve;
 			return 1;
diff --git a/src/exhaustive/nums.c b/src/exhaustive/nums.c
index e0c865a..62ca340 100644
--- a/src/exhaustive/nums.c
+++ b/src/exhaustive/nums.c
@@ -45,8 +45,10 @@ GENERATOR(nums_gen_b) {
 	} else {
 		bn = addiu(b, 1);
 	}
-	if (b) gunclone(b);
+	// A timeout might come at any time, b always has to be valid.
+	GEN old = b;
 	b = gclone(bn);
+	if (old) gunclone(old);
 	curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
 	return 1;
 }
@@ -96,8 +98,9 @@ GENERATOR(nums_gen_gens) {
 
 
 void nums_quit(void) {
-	if (b && isclone(b)) {
-		gunclone(b);
-	}
+	GEN old = b;
 	b = NULL;
+	if (old && isclone(old)) {
+		gunclone(old);
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 4f6a4034cf9f87216e1832a15bfc16ff073f7ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:46 +0000
Subject: [PATCH 43/47] fix: do not use SEA over small fields

PARI's SEA stops the whole run with an error for some curves over fields
of 12 to 14 bits, such as p = 3467, a = 900, b = 929.
---
 src/gen/order.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index 62e9e03..6989d0a 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -91,7 +91,13 @@ GENERATOR(order_gen_smooth) {
 
 GENERATOR(order_gen_prime) {
 	pari_sp ltop = avma;
-	GEN order = ellsea(curve->curve, 1);
+	GEN order;
+	if (cfg->field == FIELD_PRIME && expi(curve->field) < 32) {
+		// SEA is for large fields, it fails for some curves over small ones.
+		order = ellff_get_card(curve->curve);
+	} else {
+		order = ellsea(curve->curve, 1);
+	}
 	if (gequal0(order) || !(isprime(order))) {
 		avma = ltop;
 		return -4;
-- 
2.43.0


From b7908da08a9501d756cdc729125401aa0e42efcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:23 +0000
Subject: [PATCH 44/47] fix: do not leave the heap and the input stream half
 way on a timeout

---
 src/io/input.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/io/input.c b/src/io/input.c
index d583d29..8788c67 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -37,6 +37,18 @@ static char *input_number(char *line, size_t len, bool *sign) {
 	return line;
 }
 
+/**
+ * @brief Read a line of input, a timeout has to wait until it is read, it
+ *        would leave the heap and the stream half way otherwise.
+ */
+static ssize_t input_line(char **line, size_t *n) {
+	ssize_t len;
+	BLOCK_SIGINT_START
+	len = getdelim(line, n, delim, in);
+	BLOCK_SIGINT_END
+	return len;
+}
+
 static GEN input_i(const char *prompt, unsigned long bits) {
 	if (prompt && in == stdin) {
 		fprintf(err, "%s ", prompt);
@@ -44,7 +56,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 	char *line = NULL;
 	size_t n = 0;
 
-	ssize_t len = getdelim(&line, &n, delim, in);
+	ssize_t len = input_line(&line, &n);
 	if (len <= 0) {
 		if (feof(in)) {
 			fprintf(err, "Couldn't read an integer. Reached EOF!\n");
@@ -53,18 +65,18 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 		} else {
 			fprintf(err, "Couldn't read an integer.\n");
 		}
-		free(line);
+		pari_free(line);
 		return gen_m2;
 	}
 	if (len == 1 && !feof(in)) {
-		free(line);
+		pari_free(line);
 		return gen_m1;
 	}
 	bool sign;
 	char *number = input_number(line, (size_t)len, &sign);
 	if (!number) {
 		fprintf(err, "Not a number.\n");
-		free(line);
+		pari_free(line);
 		return gen_m1;
 	}
 
@@ -73,7 +85,7 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 	if (sign) {
 		togglesign(in);
 	}
-	free(line);
+	pari_free(line);
 
 	// check bitsize here
 	GEN size = int2n(bits);
@@ -112,10 +124,10 @@ GEN input_string(const char *prompt) {
 	char *line = NULL;
 	size_t n = 0;
 
-	ssize_t len = getdelim(&line, &n, delim, in);
+	ssize_t len = input_line(&line, &n);
 	if (len <= 0) {
 		fprintf(err, "Couldn't read a string. Reached EOF!\n");
-		free(line);
+		pari_free(line);
 		return NULL;
 	}
 
@@ -123,7 +135,7 @@ GEN input_string(const char *prompt) {
 		line[--len] = 0;
 	}
 	GEN result = strtoGENstr(line);
-	free(line);
+	pari_free(line);
 	return result;
 }
 
-- 
2.43.0


From 61e06334a5d1364d98366fe824a65d0b5c014484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:09 +0000
Subject: [PATCH 45/47] fix: survive threads that could not be created

---
 src/invalid/invalid.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index a4e57a1..e73e67f 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -3,6 +3,7 @@
  * Copyright (C) 2017-2018 J08nY
  */
 #include "invalid.h"
+#include <string.h>
 #include "exhaustive/arg.h"
 #include "exhaustive/check.h"
 #include "exhaustive/exhaustive.h"
@@ -243,9 +244,10 @@ static size_t invalid_curves_single(const curve_t *curve, pari_ulong *primes,
 static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
                                       size_t nprimes, curve_t **curves,
                                       exhaustive_t *setup) {
-	pthread_t pthreads[cfg->threads];
-	thread_t threads[cfg->threads];
-	struct pari_thread pari_threads[cfg->threads];
+	pthread_t *pthreads = try_calloc(sizeof(pthread_t) * cfg->threads);
+	thread_t *threads = try_calloc(sizeof(thread_t) * cfg->threads);
+	struct pari_thread *pari_threads =
+	    try_calloc(sizeof(struct pari_thread) * cfg->threads);
 
 	size_t *generated = try_calloc(sizeof(size_t));
 	state_e *states = try_calloc(sizeof(state_e) * nprimes);
@@ -276,9 +278,19 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 	}
 
 	pthread_mutex_lock(&state_mutex);
-	for (size_t i = 0; i < cfg->threads; ++i) {
-		pthread_create(&pthreads[i], NULL, &invalid_thread,
-		               (void *)&threads[i]);
+	size_t nthreads = 0;
+	for (; nthreads < cfg->threads; ++nthreads) {
+		int error = pthread_create(&pthreads[nthreads], NULL, &invalid_thread,
+		                           (void *)&threads[nthreads]);
+		if (error) {
+			// make do with the threads that could be created, if any
+			fprintf(err, "Only created %zu threads: %s.\n", nthreads,
+			        strerror(error));
+			break;
+		}
+	}
+	if (nthreads == 0) {
+		exit(EXIT_FAILURE);
 	}
 
 	while (true) {
@@ -296,7 +308,7 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 	}
 	pthread_mutex_unlock(&state_mutex);
 
-	for (size_t i = 0; i < cfg->threads; ++i) {
+	for (size_t i = 0; i < nthreads; ++i) {
 		pthread_join(pthreads[i], NULL);
 	}
 
@@ -316,6 +328,9 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 	try_free(states);
 	try_free(old_states);
 	try_free(local_curves);
+	try_free(pthreads);
+	try_free(threads);
+	try_free(pari_threads);
 
 	return result;
 }
-- 
2.43.0


From c9880b519a2662956b52fec6c0cdfe7416d07d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:41 +0000
Subject: [PATCH 46/47] fix: keep the hash of a large Brainpool field off the
 stack

---
 src/exhaustive/brainpool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 700add4..538d661 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -11,6 +11,7 @@
 #include "obj/point.h"
 #include "obj/subgroup.h"
 #include "util/bits.h"
+#include "util/memory.h"
 #include "util/str.h"
 
 static seed_t *brainpool_new() {
@@ -41,7 +42,7 @@ bits_t *brainpool_hash(const bits_t *s, long w, long v) {
 	pari_sp ltop = avma;
 	unsigned char h[20];
 	bits_sha1(s, h);
-	unsigned char hashout[20 * v + 1];
+	unsigned char *hashout = try_calloc((size_t)(20 * v + 1));
 
 	GEN z = bits_to_i(s);
 	GEN m = int2n(160);
@@ -53,6 +54,7 @@ bits_t *brainpool_hash(const bits_t *s, long w, long v) {
 	bits_t *result = bits_from_raw(h, 20 * 8);
 	bits_shortenz(result, 20 * 8 - w);
 	bits_t *rest = bits_from_raw(hashout, (size_t)(20 * v * 8));
+	try_free(hashout);
 	bits_concatz(result, rest, NULL);
 	bits_free(&rest);
 	avma = ltop;
-- 
2.43.0


From f78e619b2b9b2ff411bc9e75f71d08e9a53b36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:41 +0000
Subject: [PATCH 47/47] fix: refuse a field size of zero bits

---
 src/io/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/cli.c b/src/io/cli.c
index e3e74dd..f8d1ffd 100644
--- a/src/io/cli.c
+++ b/src/io/cli.c
@@ -549,7 +549,7 @@ error_t cli_parse(int key, char *arg, struct argp_state *state) {
 			}
 
 			cfg->bits = cli_parse_number(arg, &num_end);
-			if (num_end == arg || *num_end != '\0') {
+			if (num_end == arg || *num_end != '\0' || cfg->bits == 0) {
 				argp_failure(state, 1, 0, "Invalid bit size specified.");
 			}
 			cfg->hex_digits =
-- 
2.43.0

