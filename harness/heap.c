/*
 * Timeouts inside the allocator (plain variant only). With VF_TMOHEAP=every:k (or a list i,j,.., or from:function:k) the signal
 * of an armed timeout arrives inside the k-th heap operation (called by the function). A jump out of an allocator leaves its state and
 * locks half way; whether this happened shows at the next heap operation of the thread: the run
 * then ends with status 94.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void __libc_free(void *);
int vf_armed(void);
void vf_fired(void);

static int on = -1;
static long every;
static unsigned long list[64];
static int nlist;
static const char *from;
static unsigned long from_seen, from_at;
unsigned long vf_heap_events;
static __thread volatile int inside;
static __thread void *volatile site;

static void setup(void) {
	on = 0;
	const char *s = getenv("VF_TMOHEAP");
	if (!s) return;
	if (!strncmp(s, "every:", 6)) {
		every = strtol(s + 6, NULL, 10);
	} else if (!strncmp(s, "from:", 5)) {
		static char name[64];
		if (sscanf(s + 5, "%63[^:]:%lu", name, &from_at) == 2) from = name;
	} else if (strcmp(s, "log")) {
		while (*s && nlist < 64) {
			char *e;
			list[nlist++] = strtoul(s, &e, 10);
			s = *e ? e + 1 : e;
		}
	}
	on = 1;
}

static void enter(void *caller) {
	if (on <= 0) {
		if (on < 0 && environ) setup();
		return;
	}
	if (inside) {
		char m[200];
		Dl_info d;
		on = 0;
		int n = snprintf(m, sizeof m, "\nVF: a timeout left a heap operation half way, called by %s\n",
		                 dladdr(site, &d) && d.dli_sname ? d.dli_sname : "?");
		if (write(2, m, n)) {
		}
		_exit(94);
	}
	inside = 1;
	site = caller;
	if (!vf_armed()) return;
	unsigned long k = __atomic_add_fetch(&vf_heap_events, 1, __ATOMIC_RELAXED);
	int fire = every && k % every == 0;
	for (int i = 0; i < nlist; ++i)
		if (list[i] == k) fire = 1;
	Dl_info d;
	if (from && dladdr(caller, &d) && d.dli_sname && !strcmp(d.dli_sname, from) && ++from_seen == from_at) fire = 1;
	if (fire) {
		vf_fired();
		pthread_kill(pthread_self(), SIGALRM);
	}
}

void *malloc(size_t n) {
	enter(__builtin_return_address(0));
	void *r = __libc_malloc(n);
	inside = 0;
	return r;
}
void *calloc(size_t a, size_t b) {
	enter(__builtin_return_address(0));
	void *r = __libc_calloc(a, b);
	inside = 0;
	return r;
}
void *realloc(void *p, size_t n) {
	enter(__builtin_return_address(0));
	void *r = __libc_realloc(p, n);
	inside = 0;
	return r;
}
void free(void *p) {
	if (!p) return;
	enter(__builtin_return_address(0));
	__libc_free(p);
	inside = 0;
}
