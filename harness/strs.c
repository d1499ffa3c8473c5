/* Drives ecgen's string helpers; prints what they return. Script lines: join|concat sep n s..., joinv sep s..., hex s, cnt c s.
 * Strings are written in hexadecimal, "-" is a null pointer, "." an empty string. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "misc/config.h"
#include "util/str.h"

static char *dec(const char *t) {
	if (!strcmp(t, "-")) return NULL;
	if (!strcmp(t, ".")) return strdup("");
	size_t n = strlen(t) / 2;
	char *r = malloc(n + 1);
	for (size_t i = 0; i < n; ++i) {
		unsigned x;
		sscanf(t + 2 * i, "%2x", &x);
		r[i] = (char)x;
	}
	r[n] = 0;
	return r;
}

static void show(const char *s) {
	if (!s) {
		printf("-\n");
		return;
	}
	if (!*s) printf(".");
	for (; *s; ++s) printf("%02x", (unsigned char)*s);
	printf("\n");
}

#define A(i) (i < n ? a[i] : NULL)
#define A10(k) A(k), A(k + 1), A(k + 2), A(k + 3), A(k + 4), A(k + 5), A(k + 6), A(k + 7), A(k + 8), A(k + 9)

int main(void) {
	memset(cfg, 0, sizeof(config_t));
	pari_init(8000000, 1000);
	char *line = NULL;
	size_t cap = 0;
	while (getline(&line, &cap, stdin) > 0) {
		char *op = strtok(line, " \n");
		if (!op) continue;
		char *sep = dec(strtok(NULL, " \n"));
		size_t n = 0;
		char **a = calloc(1, sizeof *a), *t;
		while ((t = strtok(NULL, " \n"))) {
			a = realloc(a, (n + 1) * sizeof *a);
			a[n++] = dec(t);
		}
		char *r = NULL;
		if (!strcmp(op, "join")) r = str_join(sep, a, n);
		if (!strcmp(op, "concat")) r = str_concat(a, n);
		if (!strcmp(op, "joinv")) r = str_joinv(sep, A10(0), A10(10), A10(20), A10(30), A10(40), NULL);
		if (!strcmp(op, "hex")) {
			const char *h = str_is_hex(sep);
			show(h);
		} else if (!strcmp(op, "cnt")) {
			printf("%zu\n", str_cnt(a[0], *sep));
		} else {
			show(r);
		}
		free(r);
		for (size_t i = 0; i < n; ++i) free(a[i]);
		free(a);
		free(sep);
		fflush(stdout);
	}
	printf("end\n");
	pari_close();
	return 0;
}
