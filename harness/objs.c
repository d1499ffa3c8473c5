/*
 * Drives copies of curve objects and the divisor helpers.
 *   objs div          reads integers, prints the prime, nonprime and all divisors
 *   objs pool SEED N  N random operations (create, copy, clone, spoil, free) on a pool of objects, every
 *                     live object compared after each operation with what it must hold
 * Prints one line per observation; "BAD ..." for what must not be.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "gen/seed.h"
#include "math/subgroup.h"
#include "misc/config.h"
#include "obj/curve.h"
#include "obj/point.h"
#include "obj/subgroup.h"
#include "util/bits.h"
#include "util/memory.h"
#include "util/random.h"

static uint64_t st;
static uint64_t rnd(void) {
	st += 0x9e3779b97f4a7c15ULL;
	uint64_t z = st;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}
static unsigned long upto(unsigned long n) { return rnd() % n; }

/* ---- text of an object ---- */
static char *buf;
static size_t len, cap;
static void add(const char *s) {
	size_t n = strlen(s);
	if (len + n + 1 > cap) {
		cap = (len + n + 1) * 2;
		buf = realloc(buf, cap);
	}
	memcpy(buf + len, s, n + 1);
	len += n;
}
static void addg(const char *name, GEN g) {
	add(name);
	if (!g) {
		add("=none;");
		return;
	}
	char *s = GENtostr(g);
	add("=");
	add(s);
	add(";");
	pari_free(s);
}
static void t_bits(const bits_t *b) {
	char x[40];
	if (!b) {
		add("bits=none;");
		return;
	}
	snprintf(x, sizeof x, "bits%c%zu:", b->sign ? '-' : '+', b->bitlen);
	add(x);
	for (size_t i = 0; i < b->bitlen; ++i) add((b->bits[i / 8] >> (7 - i % 8)) & 1 ? "1" : "0");
	add(";");
}
static void t_seed(const seed_t *s) {
	if (!s) {
		add("seed=none;");
		return;
	}
	add("seed{");
	t_bits(s->seed);
	if (s->hash20) {
		char x[4];
		for (int i = 0; i < 20; ++i) {
			snprintf(x, sizeof x, "%02x", s->hash20[i]);
			add(x);
		}
	} else add("nohash");
	add("}");
}
static void t_point(const point_t *p) {
	if (!p) {
		add("point=none;");
		return;
	}
	add("point{");
	addg("p", p->point);
	addg("o", p->order);
	addg("c", p->cofactor);
	add("}");
}
static void t_subgroup(const subgroup_t *s) {
	char x[40];
	if (!s) {
		add("subgroup=none;");
		return;
	}
	add("subgroup{");
	t_point(s->generator);
	snprintf(x, sizeof x, "%zu%s[", s->npoints, s->points ? "" : "none");
	add(x);
	for (size_t i = 0; s->points && i < s->npoints; ++i) t_point(s->points[i]);
	add("]}");
}
static void t_curve(const curve_t *c) {
	char x[40];
	add("curve{");
	t_seed(c->seed);
	addg("field", c->field);
	addg("a", c->a);
	addg("b", c->b);
	if (c->curve) {
		GEN e = c->curve;
		addg("e1", ell_get_a1(e));
		addg("e2", ell_get_a2(e));
		addg("e4", ell_get_a4(e));
		addg("e6", ell_get_a6(e));
		addg("disc", ell_get_disc(e));
		addg("j", ell_get_j(e));
		/* the data kept along with the curve */
		addg("card", ellcard(e, NULL));
	} else add("nocurve;");
	addg("order", c->order);
	snprintf(x, sizeof x, "%zu%s[", c->ngens, c->generators ? "" : "none");
	add(x);
	for (size_t i = 0; c->generators && i < c->ngens; ++i) t_subgroup(c->generators[i]);
	add("]");
	addg("mj", c->meta.j_invariant);
	addg("md", c->meta.discriminant);
	addg("mc", c->meta.cm_discriminant);
	addg("mf", c->meta.frobenius_trace);
	addg("me", c->meta.embedding_degree);
	addg("mo", c->meta.conductor);
	add("}");
}

enum { K_CURVE, K_SUBGROUP, K_POINT, K_SEED, K_POINTS, K_SUBGROUPS };
static const char *kname[] = {"curve", "subgroup", "point", "seed", "points", "subgroups"};
typedef struct {
	int kind;
	size_t n;
	void *p;
	char *want;
	int id, spoilt, parent, on_stack;
} obj_t;

static char *text(const obj_t *o) {
	pari_sp av = avma;
	len = 0;
	add("");
	switch (o->kind) {
		case K_CURVE: t_curve(o->p); break;
		case K_SUBGROUP: t_subgroup(o->p); break;
		case K_POINT: t_point(o->p); break;
		case K_SEED: t_seed(o->p); break;
		case K_POINTS: for (size_t i = 0; i < o->n; ++i) t_point(((point_t **)o->p)[i]); break;
		case K_SUBGROUPS: for (size_t i = 0; i < o->n; ++i) t_subgroup(((subgroup_t **)o->p)[i]); break;
	}
	avma = av;
	return strdup(buf);
}

/* ---- making objects; all their values are their own ---- */
static int as_clone;
static GEN own(GEN g) { return as_clone ? gclone(g) : gcopy(g); }
static GEN big(void) {
	GEN r = utoi(rnd() | 1);
	for (unsigned long i = upto(4); i; --i) r = addii(mului(rnd() | 1, r), utoi(rnd()));
	return upto(4) ? r : negi(r);
}
static bits_t *mk_bits(void) {
	bits_t *b = bits_new(upto(6) ? upto(330) : 0);
	for (size_t i = 0; i < b->bitlen; ++i)
		if (rnd() & 1) b->bits[i / 8] |= 1 << (7 - i % 8);
	b->sign = upto(5) == 0;
	return b;
}
static seed_t *mk_seed(void) {
	seed_t *s = seed_new();
	if (upto(4)) s->seed = mk_bits();
	if (upto(2)) {
		s->hash20 = try_calloc(20);
		for (int i = 0; i < 20; ++i) s->hash20[i] = rnd();
	}
	return s;
}
static int binary;
static GEN binfield, primefield;
static GEN elem(void) {
	if (binary) {
		GEN z = ffgen(binfield, -1);
		return gadd(gpowgs(z, 1 + upto(500)), gpowgs(z, 1 + upto(100)));
	}
	return mkintmod(modii(big(), primefield), primefield);
}
static point_t *mk_point(void) {
	point_t *p = point_new();
	if (upto(8)) p->point = own(mkvec2(elem(), elem()));
	if (upto(8)) p->order = own(big());
	if (upto(2)) p->cofactor = own(big());
	return p;
}
static subgroup_t *mk_subgroup(void) {
	subgroup_t *s = subgroup_new();
	if (upto(8)) s->generator = mk_point();
	if (upto(3)) {
		s->npoints = upto(4) ? upto(6) : 0;
		s->points = points_new(s->npoints);
		for (size_t i = 0; i < s->npoints; ++i) s->points[i] = mk_point();
	}
	return s;
}
static curve_t *mk_curve(void) {
	curve_t *c = curve_new();
	binary = upto(3) == 0;
	if (upto(3)) c->seed = mk_seed();
	GEN a, b, e = NULL;
	do {
		a = elem();
		b = elem();
		GEN z = zerovec(5);
		if (binary) {
			gel(z, 1) = gen_1;
			gel(z, 2) = a;
		} else gel(z, 4) = a;
		gel(z, 5) = b;
		if (gequal0(b)) continue;
		e = ellinit(z, binary ? ffgen(binfield, -1) : primefield, -1);
	} while (!e || lg(e) == 1 || gequal0(ell_get_disc(e)));
	if (upto(8)) c->field = own(binary ? ffgen(binfield, -1) : primefield);
	if (upto(8)) c->a = own(a);
	if (upto(8)) c->b = own(b);
	if (upto(4)) {
		if (upto(2)) ellff_get_card(e);
		if (upto(3) == 0) ellff_get_gens(e);
		c->curve = as_clone ? gclone(e) : gcopy(e);
	}
	if (upto(8)) c->order = own(big());
	if (upto(4)) {
		c->ngens = upto(4);
		c->generators = subgroups_new(c->ngens);
		for (size_t i = 0; i < c->ngens; ++i) c->generators[i] = mk_subgroup();
	}
	GEN *m[] = {&c->meta.j_invariant, &c->meta.discriminant, &c->meta.cm_discriminant,
	            &c->meta.frobenius_trace, &c->meta.embedding_degree, &c->meta.conductor};
	for (int i = 0; i < 6; ++i)
		if (upto(2)) *m[i] = own(i == 0 ? elem() : big());
	return c;
}

/* ---- spoiling: overwrite everything an object owns ---- */
static void spoil_gen(GEN g) {
	if (!g) return;
	switch (typ(g)) {
		case t_INT:
			for (long i = 2; i < lgefint(g); ++i) g[i] = ~g[i] | 1 | (1UL << 63);
			break;
		case t_INTMOD: spoil_gen(gel(g, 2)); break;
		case t_FFELT: break;
		case t_VEC: case t_COL:
			for (long i = 1; i < lg(g); ++i) spoil_gen(gel(g, i));
			break;
	}
}
static void spoil_bits(bits_t *b) {
	if (!b) return;
	for (size_t i = 0; i < (b->bitlen + 7) / 8; ++i) b->bits[i] ^= 0xff;
	if (b->bitlen % 8) b->bits[b->bitlen / 8] &= 0xff << (8 - b->bitlen % 8);
	b->sign = !b->sign;
}
static void spoil_seed(seed_t *s) {
	if (!s) return;
	spoil_bits(s->seed);
	if (s->hash20) for (int i = 0; i < 20; ++i) s->hash20[i] ^= 0x5a;
}
static void spoil_point(point_t *p) {
	if (!p) return;
	spoil_gen(p->point);
	spoil_gen(p->order);
	spoil_gen(p->cofactor);
}
static void spoil_subgroup(subgroup_t *s) {
	if (!s) return;
	spoil_point(s->generator);
	for (size_t i = 0; s->points && i < s->npoints; ++i) spoil_point(s->points[i]);
	if (s->points && s->npoints) point_free(&s->points[upto(s->npoints)]);
}
static void spoil(obj_t *o) {
	curve_t *c;
	switch (o->kind) {
		case K_CURVE:
			c = o->p;
			spoil_seed(c->seed);
			/* (the field and the curve's own coefficients stay: the curve must remain one) */
			spoil_gen(c->order);
			spoil_gen(c->a);
			spoil_gen(c->b);
			for (size_t i = 0; c->generators && i < c->ngens; ++i) spoil_subgroup(c->generators[i]);
			if (c->generators && c->ngens) subgroup_free_deep(&c->generators[upto(c->ngens)]);
			spoil_gen(c->meta.j_invariant);
			spoil_gen(c->meta.discriminant);
			spoil_gen(c->meta.cm_discriminant);
			spoil_gen(c->meta.frobenius_trace);
			spoil_gen(c->meta.embedding_degree);
			spoil_gen(c->meta.conductor);
			if (c->seed && upto(3) == 0) {
				seed_free(&c->seed);
			}
			break;
		case K_SUBGROUP: spoil_subgroup(o->p); break;
		case K_POINT: spoil_point(o->p); break;
		case K_SEED: spoil_seed(o->p); break;
		case K_POINTS: for (size_t i = 0; i < o->n; ++i) spoil_point(((point_t **)o->p)[i]); break;
		case K_SUBGROUPS: for (size_t i = 0; i < o->n; ++i) spoil_subgroup(((subgroup_t **)o->p)[i]); break;
	}
	o->spoilt = 1;
}

static void release(obj_t *o) {
	switch (o->kind) {
		case K_CURVE: { curve_t *c = o->p; curve_free(&c); if (c) printf("BAD free left the curve\n"); break; }
		case K_SUBGROUP: { subgroup_t *c = o->p; subgroup_free_deep(&c); break; }
		case K_POINT: { point_t *c = o->p; point_free(&c); break; }
		case K_SEED: { seed_t *c = o->p; seed_free(&c); break; }
		case K_POINTS: { point_t **c = o->p; points_free_deep(&c, o->n); break; }
		case K_SUBGROUPS: { subgroup_t **c = o->p; subgroups_free_deep(&c, o->n); break; }
	}
	free(o->want);
	o->p = NULL;
}

static void *redo(const obj_t *o, int clone) {
	switch (o->kind) {
		case K_CURVE:
			if (upto(3) == 0) return clone ? curve_clone(o->p, curve_new()) : curve_copy(o->p, curve_new());
			return clone ? curve_new_clone(o->p) : curve_new_copy(o->p);
		case K_SUBGROUP:
			if (upto(3) == 0) return clone ? subgroup_clone(o->p, subgroup_new()) : subgroup_copy(o->p, subgroup_new());
			return clone ? subgroup_new_clone(o->p) : subgroup_new_copy(o->p);
		case K_POINT:
			if (upto(3) == 0) return clone ? point_clone(o->p, point_new()) : point_copy(o->p, point_new());
			return clone ? point_new_clone(o->p) : point_new_copy(o->p);
		case K_SEED:
			if (upto(3) == 0) return clone ? seed_clone(o->p, seed_new()) : seed_copy(o->p, seed_new());
			return clone ? seed_new_clone(o->p) : seed_new_copy(o->p);
		case K_POINTS:
			if (upto(3) == 0) return clone ? points_clone(o->p, points_new(o->n), o->n) : points_copy(o->p, points_new(o->n), o->n);
			return clone ? points_new_clone(o->p, o->n) : points_new_copy(o->p, o->n);
		default:
			if (upto(3) == 0) return clone ? subgroups_clone(o->p, subgroups_new(o->n), o->n) : subgroups_copy(o->p, subgroups_new(o->n), o->n);
			return clone ? subgroups_new_clone(o->p, o->n) : subgroups_new_copy(o->p, o->n);
	}
}

#define POOL 10
static int pool(uint64_t seed, long n) {
	static obj_t o[POOL];
	int ids = 0;
	st = seed;
	binfield = ffinit(utoi(2), 9 + upto(20), -1);
	primefield = nextprime(shifti(addiu(utoi(rnd() | (1UL << 62)), 1), -20 - (long)upto(30)));
	pari_sp av = avma;
	for (long k = 0; k < n; ++k) {
		int i = upto(POOL), j = upto(POOL);
		char what[120] = "";
		obj_t *x = &o[i], *y = &o[j];
		unsigned long r = upto(10);
		if (upto(12) == 0) {
			/* only what is not on the stack is kept, and the stack is used by others */
			for (int q = 0; q < POOL; ++q)
				if (o[q].p && o[q].on_stack) release(&o[q]);
			snprintf(what, sizeof what, "reuse the stack");
			size_t room = av - pari_mainstack->bot;
			if (room > 4000000) room = 4000000;
			avma = av;
			memset((char *)av - room, 0x5a, room);
		} else if (!x->p && (r < 5 || !y->p)) {
			memset(x, 0, sizeof *x);
			x->kind = upto(10) < 4 ? K_CURVE : (int)upto(6);
			as_clone = upto(2);
			binary = upto(2);
			x->on_stack = !as_clone;
			switch (x->kind) {
				case K_CURVE: x->p = mk_curve(); break;
				case K_SUBGROUP: x->p = mk_subgroup(); break;
				case K_POINT: x->p = mk_point(); break;
				case K_SEED: x->p = mk_seed(); break;
				case K_POINTS: {
					x->n = upto(5);
					x->p = points_new(x->n);
					for (size_t q = 0; q < x->n; ++q) ((point_t **)x->p)[q] = mk_point();
					break;
				}
				default:
					x->n = upto(4);
					x->p = subgroups_new(x->n);
					for (size_t q = 0; q < x->n; ++q) ((subgroup_t **)x->p)[q] = mk_subgroup();
			}
			x->id = ids++;
			x->parent = -1;
			x->want = text(x);
			snprintf(what, sizeof what, "create %s %s", kname[x->kind], as_clone ? "cloned" : "stack");
		} else if (!x->p) {
			/* (a spoilt object may lack members of its lists; it is not copied again) */
			if (y->spoilt) continue;
			memset(x, 0, sizeof *x);
			int clone = upto(2);
			x->kind = y->kind;
			x->n = y->n;
			x->p = redo(y, clone);
			x->id = ids++;
			x->parent = y->id;
			x->on_stack = !clone;
			x->want = strdup(y->want);
			snprintf(what, sizeof what, "%s %s of %s", clone ? "clone" : "copy", kname[x->kind], y->on_stack ? "stack" : "cloned");
			if (x->p == y->p) printf("BAD the same object was returned\n");
		} else if (r < 5 && !x->spoilt) {
			spoil(x);
			free(x->want);
			x->want = text(x);
			snprintf(what, sizeof what, "spoil %s", kname[x->kind]);
		} else if (r < 9) {
			snprintf(what, sizeof what, "free %s", kname[x->kind]);
			release(x);
		} else continue;
		printf("op %s\n", what);
		int live = 0, alive = 0;
		for (int q = 0; q < POOL; ++q) {
			if (!o[q].p) continue;
			++live;
			char *t = text(&o[q]);
			if (strcmp(t, o[q].want)) {
				size_t d = 0;
				while (t[d] == o[q].want[d]) ++d;
				d = d > 60 ? d - 60 : 0;
				printf("BAD after %s: object %d (%s, made from %d) holds ...%.150s... instead of ...%.150s...\n", what, o[q].id,
				       kname[o[q].kind], o[q].parent, t + d, o[q].want + d);
				return 1;
			}
			free(t);
			alive |= o[q].on_stack;
		}
		printf("live %d\n", live);
		fflush(stdout);
		if (!live) avma = av;
	}
	for (int q = 0; q < POOL; ++q)
		if (o[q].p) release(&o[q]);
	printf("end\n");
	return 0;
}

static void show(const char *n, GEN v) {
	printf(" %s", n);
	if (!v) return;
	if (!is_vec_t(typ(v))) {
		printf(" type%ld", typ(v));
		return;
	}
	for (long i = 1; i < lg(v); ++i) {
		char *s = GENtostr(gel(v, i));
		printf(" %s", s);
		pari_free(s);
	}
}

int main(int argc, char **argv) {
	memset(cfg, 0, sizeof(config_t));
	pari_init(2000000000, 100000);
	random_init();
	if (argc > 3 && !strcmp(argv[1], "pool")) return pool(strtoull(argv[2], NULL, 10), atol(argv[3]));
	char line[4096];
	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0;
		pari_sp av = avma;
		GEN n = strtoi(line), c = gcopy(n);
		show("P", subgroups_prime(n));
		show("N", subgroups_nonprime(n));
		show("A", subgroups_all(n));
		printf(" %s\n", equalii(n, c) ? "same" : "touched");
		fflush(stdout);
		avma = av;
	}
	printf("end\n");
	return 0;
}
