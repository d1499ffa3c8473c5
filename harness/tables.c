/*
 * Drives the field and Koblitz tables of ecgen (functions its unit tests use), every entry observed.
 *   tables fields LO HI   for each degree: irreducibility verdict (Rabin's test, own arithmetic) of the
 *                         polynomial of the field that field_gen_random chooses, asked for twice
 *   tables koblitz LO HI  for each degree and coefficient: the order that is looked up, if any
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "gen/field.h"
#include "math/koblitz.h"
#include "misc/config.h"
#include "util/random.h"

#define W 160
typedef uint64_t poly_t[2 * W];
static uint16_t spread[256];
static int dgr, nexp, ex[16];

static int bit(const uint64_t *a, int i) { return (a[i >> 6] >> (i & 63)) & 1; }

/* reduce a (dgr < 2*dgr-1) by x^m = sum x^e (e = the lower exponents) */
static void reduce(uint64_t *a, int top) {
	/* word-wise: the chunk of 64 bits at i..i+63, i >= m, is moved down; exponents may be close to m,
	 * so repeat until nothing is left above */
	for (int i = top; i >= dgr;) {
		int lo = i - 63;
		if (lo < dgr) lo = dgr;
		int n = i - lo + 1;
		/* only safe in one go if no exponent brings bits back into lo..i */
		uint64_t chunk = a[lo >> 6] >> (lo & 63);
		if (lo & 63) chunk |= a[(lo >> 6) + 1] << (64 - (lo & 63));
		if (n < 64) chunk &= (1ULL << n) - 1;
		if (chunk) {
			/* clear */
			a[lo >> 6] ^= chunk << (lo & 63);
			if (lo & 63) a[(lo >> 6) + 1] ^= chunk >> (64 - (lo & 63));
			for (int k = 0; k < nexp; ++k) {
				int t = lo - dgr + ex[k];
				a[t >> 6] ^= chunk << (t & 63);
				if (t & 63) a[(t >> 6) + 1] ^= chunk >> (64 - (t & 63));
			}
		}
		/* bits may have come back above: look again from the highest that is set */
		int j = i >> 6;
		uint64_t v = a[j] & (~0ULL >> (63 - (i & 63)));
		while (!v && j > (dgr >> 6)) v = a[--j];
		j = v ? 64 * j + 63 - __builtin_clzll(v) : -1;
		i = j;
	}
}

static void square(uint64_t *r, const uint64_t *a, int words) {
	poly_t t;
	memset(t, 0, sizeof t);
	for (int i = 0; i < words; ++i) {
		uint64_t lo = 0, hi = 0;
		for (int k = 0; k < 4; ++k) {
			lo |= (uint64_t)spread[(a[i] >> (8 * k)) & 255] << (16 * k);
			hi |= (uint64_t)spread[(a[i] >> (32 + 8 * k)) & 255] << (16 * k);
		}
		t[2 * i] = lo;
		t[2 * i + 1] = hi;
	}
	reduce(t, 2 * dgr - 2);
	memcpy(r, t, sizeof(uint64_t) * W);
}

static int topdeg(const uint64_t *a) {
	for (int i = W - 1; i >= 0; --i)
		if (a[i]) return 64 * i + 63 - __builtin_clzll(a[i]);
	return -1;
}

static int gcd_is_one(uint64_t *a, uint64_t *b) {
	for (;;) {
		int da = topdeg(a), db = topdeg(b);
		if (db < 0) return da == 0;
		if (da < 0) return db == 0;
		if (da < db) {
			uint64_t *t = a;
			a = b;
			b = t;
			continue;
		}
		int s = da - db, w = s >> 6, o = s & 63;
		for (int i = db >> 6; i >= 0; --i) {
			a[i + w] ^= b[i] << o;
			if (o) a[i + w + 1] ^= b[i] >> (64 - o);
		}
	}
}

static int irreducible(void) {
	static poly_t x, g, h;
	int words = dgr / 64 + 1, pr[16], np = 0;
	for (int n = dgr, p = 2; n > 1; ++p)
		if (n % p == 0) {
			pr[np++] = p;
			while (n % p == 0) n /= p;
		}
	memset(x, 0, sizeof x);
	x[0] = 2;
	if (dgr == 1) return 1;
	for (int i = 1; i <= dgr; ++i) {
		square(x, x, words);
		for (int k = 0; k < np; ++k)
			if (i == dgr / pr[k]) {
				memset(g, 0, sizeof g);
				memset(h, 0, sizeof h);
				memcpy(g, x, sizeof(uint64_t) * W);
				g[0] ^= 2;
				h[dgr >> 6] |= 1ULL << (dgr & 63);
				for (int j = 0; j < nexp; ++j) h[ex[j] >> 6] ^= 1ULL << (ex[j] & 63);
				if (!gcd_is_one(g, h)) return 0;
			}
	}
	if (x[0] != 2) return 0;
	for (int i = 1; i < W; ++i)
		if (x[i]) return 0;
	return 1;
}

int main(int argc, char **argv) {
	long lo = atol(argv[2]), hi = atol(argv[3]);
	for (int i = 0; i < 256; ++i)
		for (int k = 0; k < 8; ++k)
			if (i >> k & 1) spread[i] |= 1 << (2 * k);
	memset(cfg, 0, sizeof(config_t));
	pari_init(400000000, 10000);
	random_init();
	if (!strcmp(argv[1], "fields")) {
		for (long m = lo; m <= hi; ++m) {
			char line[2][200];
			for (int rep = 0; rep < 2; ++rep) {
				pari_sp top = avma;
				curve_t curve = {0};
				cfg->bits = m;
				cfg->field = FIELD_BINARY;
				int ret = field_gen_random(&curve, NULL, OFFSET_FIELD);
				if (ret != 1 || !curve.field || typ(curve.field) != t_FFELT) {
					printf("%ld bad %d\n", m, ret);
					goto next;
				}
				GEN pol = FF_mod(curve.field);
				GEN ch = FF_p_i(curve.field);
				dgr = lg(pol) - 3;
				nexp = 0;
				int o = snprintf(line[rep], 200, "%d p%ld:", dgr, itos(ch));
				int w = 0;
				for (long i = dgr; i >= 0; --i) {
					GEN c = gel(pol, i + 2);
					if (!gequal0(c)) {
						++w;
						if (o < 150) o += snprintf(line[rep] + o, 40, " %ld", i);
						if (i < dgr && nexp < 16) ex[nexp++] = i;
					}
				}
				avma = top;
				if (rep && strcmp(line[0], line[1])) {
					printf("%ld unstable [%s] [%s]\n", m, line[0], line[1]);
					goto next;
				}
				/* another size in between, and the generator's own randomness used */
				cfg->bits = 2 + (m * 7919) % 9990;
				field_gen_random(&curve, NULL, OFFSET_FIELD);
				genrand(NULL);
				avma = top;
			}
			printf("%ld %s %s\n", m, dgr == m && nexp < 16 ? (irreducible() ? "irr" : "red") : "deg", line[0]);
		next:;
		}
	} else {
		for (long m = lo; m <= hi; ++m)
			for (int a = 0; a <= 1; ++a) {
				pari_sp top = avma;
				GEN o = koblitz_get_order(m, a);
				char *s = o ? GENtostr(o) : NULL;
				printf("%ld %d %s\n", m, a, s ? s : "-");
				avma = top;
			}
	}
	pari_close();
	return 0;
}
