/* Draws from ecgen's random choices, one command per line: how often, and prints each value in hex. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pari/pari.h>
#include "misc/config.h"
#include "misc/types.h"
#include "gen/equation.h"
#include "gen/field.h"
#include "gen/point.h"
#include "math/poly.h"
#include "util/bits.h"
#include "util/random.h"

static void hexout(GEN x) {
	GEN v = typ(x) == t_INTMOD ? lift(x) : x;
	if (typ(v) == t_FFELT) v = field_elementi(v);
	if (typ(v) != t_INT) {
		printf(" type%ld", typ(v));
		return;
	}
	char *s = GENtostr(v);
	printf(" %s", s);
	free(s);
}

int main(void) {
	memset(cfg, 0, sizeof(config_t));
	pari_init(200000000, 200000);
	random_init();
	char op[40], s1[4000], s2[4000];
	long n, b;
	while (scanf("%39s %ld", op, &n) == 2) {
		pari_sp top = avma;
		printf("%s", op);
		if (!strcmp(op, "prime") || !strcmp(op, "int") || !strcmp(op, "field")) {
			if (scanf("%ld", &b) != 1) return 3;
			for (long i = 0; i < n; ++i) {
				pari_sp av = avma;
				if (!strcmp(op, "prime")) hexout(random_prime(b));
				else if (!strcmp(op, "int")) hexout(random_int(b));
				else {
					curve_t c;
					memset(&c, 0, sizeof c);
					cfg->field = FIELD_PRIME;
					cfg->bits = b;
					int r = field_gen_random(&c, NULL, OFFSET_FIELD);
					if (r != 1) printf(" ret%d", r);
					else hexout(c.field);
				}
				avma = av;
			}
		} else if (!strcmp(op, "range")) {
			if (scanf("%3999s %3999s", s1, s2) != 2) return 3;
			for (long i = 0; i < n; ++i) {
				pari_sp av = avma;
				hexout(random_range(strtoi(s1[0] == '-' ? s1 + 1 : s1), strtoi(s2)));
				avma = av;
			}
		} else if (!strcmp(op, "nrange")) { /* both bounds negative */
			if (scanf("%3999s %3999s", s1, s2) != 2) return 3;
			for (long i = 0; i < n; ++i) {
				pari_sp av = avma;
				hexout(random_range(negi(strtoi(s1)), strtoi(s2)));
				avma = av;
			}
		} else if (!strcmp(op, "bits")) {
			if (scanf("%ld", &b) != 1) return 3;
			for (long i = 0; i < n; ++i) {
				bits_t *r = bits_new_rand(b);
				putchar(' ');
				printf("%c%zu:", r->sign < 0 ? '-' : '+', r->bitlen);
				for (long j = 0; j < (long)(r->bitlen + 7) / 8; ++j) printf("%02x", r->bits[j]);
				bits_free(&r);
			}
		} else { /* elem a b over fp or f2m */
			char kind[8];
			if (scanf("%7s %3999s", kind, s1) != 2) return 3;
			curve_t c;
			memset(&c, 0, sizeof c);
			if (!strcmp(kind, "fp")) {
				c.field = strtoi(s1);
				cfg->field = FIELD_PRIME;
				cfg->bits = expi(c.field) + 1;
			} else {
				c.field = poly_find_gen(atol(s1));
				cfg->field = FIELD_BINARY;
				cfg->bits = atol(s1);
			}
			for (long i = 0; i < n; ++i) {
				pari_sp av = avma;
				if (!strcmp(op, "elem")) hexout(random_field_element(c.field));
				else if (!strcmp(op, "a") || !strcmp(op, "b")) {
					c.a = c.b = NULL;
					int r = op[0] == 'a' ? a_gen_random(&c, NULL, OFFSET_A) : b_gen_random(&c, NULL, OFFSET_B);
					if (r != 1) printf(" ret%d", r);
					else hexout(op[0] == 'a' ? c.a : c.b);
				}
				avma = av;
			}
		}
		putchar('\n');
		avma = top;
	}
	puts("end");
	return 0;
}
