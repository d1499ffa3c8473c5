/*
 * Drives ecgen's bit string library from a script on stdin; after every operation all live slots are
 * printed (read bit by bit), together with the value returned. The checker keeps its own model.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "misc/config.h"
#include "util/bits.h"
#include "util/random.h"

#define SLOTS 8
static bits_t *s[SLOTS];

static void put(int i, bits_t *b) {
	bits_free(&s[i]);
	s[i] = b;
}

static void dump(void) {
	for (int i = 0; i < SLOTS; ++i) {
		if (!s[i]) continue;
		printf(" %d%c", i, s[i]->sign ? '-' : '+');
		for (size_t j = 0; j < s[i]->bitlen; ++j) putchar('0' + ((s[i]->bits[j / 8] >> (7 - j % 8)) & 1));
	}
	printf("\n");
}

static void hexout(const unsigned char *p, size_t n) {
	printf(" =");
	for (size_t i = 0; i < n; ++i) printf("%02x", p[i]);
}

int main(int argc, char **argv) {
	memset(cfg, 0, sizeof(config_t));
	pari_init(64000000, 1000);
	random_init();
	char *line = NULL, *f[16];
	size_t cap = 0;
	while (getline(&line, &cap, stdin) > 0) {
		int n = 0;
		for (char *t = strtok(line, " \n"); t && n < 16; t = strtok(NULL, " \n")) f[n++] = t;
		if (!n) continue;
		pari_sp av = avma;
		const char *op = f[0];
		int d = n > 1 ? atoi(f[1]) : 0, a = n > 2 ? atoi(f[2]) : 0;
		long k = n > 3 ? atol(f[3]) : 0;
		printf("%s", op);
		if (!strcmp(op, "new")) put(d, bits_new((size_t)atol(f[2])));
		else if (!strcmp(op, "rand")) put(d, bits_new_rand((size_t)atol(f[2])));
		else if (!strcmp(op, "hex")) put(d, bits_from_hex(f[2] + 1));
		else if (!strcmp(op, "bin")) put(d, bits_from_bin(f[2] + 1));
		else if (!strcmp(op, "raw")) {
			size_t len = strlen(f[3] + 1) / 2;
			unsigned char *raw = malloc(len ? len : 1);
			for (size_t i = 0; i < len; ++i) {
				unsigned v;
				sscanf(f[3] + 1 + 2 * i, "%2x", &v);
				raw[i] = (unsigned char)v;
			}
			put(d, bits_from_raw(raw, (size_t)atol(f[2])));
			memset(raw, 0x55, len);
			free(raw);
		} else if (!strcmp(op, "int")) {
			GEN i = f[2][0] == '-' ? negi(strtoi(f[2] + 1)) : strtoi(f[2]);
			GEN c = gcopy(i);
			put(d, bits_from_i(i));
			if (!equalii(i, c)) printf(" touched");
		} else if (!strcmp(op, "intlen")) {
			GEN i = f[2][0] == '-' ? negi(strtoi(f[2] + 1)) : strtoi(f[2]);
			put(d, bits_from_i_len(i, (size_t)k));
		} else if (!strcmp(op, "vec")) {
			long len = (long)strlen(f[2] + 1);
			GEN v = cgetg(len + 1, t_VECSMALL);
			for (long i = 0; i < len; ++i) v[i + 1] = f[2][1 + i] - '0';
			put(d, bits_from_bitvec(v));
			for (long i = 0; i < len; ++i) if (v[i + 1] != f[2][1 + i] - '0') printf(" touched");
		} else if (!strcmp(op, "copy")) put(d, bits_copy(s[a]));
		else if (!strcmp(op, "not")) put(d, bits_not(s[a]));
		else if (!strcmp(op, "rot")) put(d, bits_rot(s[a]));
		else if (!strcmp(op, "shift")) put(d, bits_shift(s[a], k));
		else if (!strcmp(op, "shiftr")) put(d, bits_shiftr(s[a], k));
		else if (!strcmp(op, "shifti")) put(d, bits_shifti(s[a], k));
		else if (!strcmp(op, "lengthen")) put(d, bits_lengthen(s[a], k));
		else if (!strcmp(op, "shorten")) put(d, bits_shorten(s[a], k));
		else if (!strcmp(op, "or")) put(d, bits_or(s[a], s[atoi(f[3])]));
		else if (!strcmp(op, "and")) put(d, bits_and(s[a], s[atoi(f[3])]));
		else if (!strcmp(op, "concat")) {
			if (n == 3) put(d, bits_concat(s[a], NULL));
			else if (n == 4) put(d, bits_concat(s[a], s[atoi(f[3])], NULL));
			else if (n == 5) put(d, bits_concat(s[a], s[atoi(f[3])], s[atoi(f[4])], NULL));
			else put(d, bits_concat(s[a], s[atoi(f[3])], s[atoi(f[4])], s[atoi(f[5])], NULL));
		} else if (!strcmp(op, "concatz")) {
			if (n == 3) bits_concatz(s[d], s[a], NULL);
			else if (n == 4) bits_concatz(s[d], s[a], s[atoi(f[3])], NULL);
			else bits_concatz(s[d], s[a], s[atoi(f[3])], s[atoi(f[4])], NULL);
		} else if (!strcmp(op, "notz")) bits_notz(s[d]);
		else if (!strcmp(op, "rotz")) bits_rotz(s[d]);
		else if (!strcmp(op, "shiftz")) bits_shiftz(s[d], a);
		else if (!strcmp(op, "shiftrz")) bits_shiftrz(s[d], a);
		else if (!strcmp(op, "shiftiz")) bits_shiftiz(s[d], a);
		else if (!strcmp(op, "lengthenz")) bits_lengthenz(s[d], a);
		else if (!strcmp(op, "shortenz")) bits_shortenz(s[d], a);
		else if (!strcmp(op, "cpy")) bits_cpy(s[d], s[a]);
		else if (!strcmp(op, "free")) put(d, NULL);
		else if (!strcmp(op, "eq")) printf(" =%d", bits_eq(s[d], s[a]) ? 1 : 0);
		else if (!strcmp(op, "out")) {
			char *h = bits_to_hex(s[d]), *b = bits_to_bin(s[d]), *i = GENtostr(bits_to_i(s[d]));
			unsigned char *r = bits_to_raw(s[d]), sha[20];
			printf(" =%s =%s =%s", i, h, b);
			if (r) hexout(r, bits_to_rawlen(s[d])); else printf(" =");
			GEN v = bits_to_bitvec(s[d]);
			printf(" =%zu =", bits_to_rawlen(s[d]));
			for (long j = 1; j < lg(v); ++j) printf("%ld", v[j]);
			bits_sha1(s[d], sha);
			hexout(sha, 20);
			/* what is handed out is the caller's */
			if (r) memset(r, 0xaa, bits_to_rawlen(s[d]));
			free(h);
			free(b);
			free(r);
			pari_free(i);
		} else {
			fprintf(stderr, "unknown op %s\n", op);
			return 3;
		}
		printf(" |");
		dump();
		avma = av;
	}
	for (int i = 0; i < SLOTS; ++i) put(i, NULL);
	free(line);
	printf("end\n");
	return 0;
}
