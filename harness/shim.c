/*
 * Observation and fault-injection shim, linked into ecgen with ld --wrap.
 *
 *  VF_SEED=n        /dev/urandom, getrandom, ... read a stream derived from n (replayable runs)
 *  VF_TMO=i,j,..    while an ecgen timeout is armed, deliver its signal at the i-th, j-th, ... hook
 *                   event counted over the run (instead of waiting for the clock); VF_TMO=every:k
 *                   delivers at every k-th; VF_TMO=log only counts
 *  VF_TMOLOG=file   where the number of hook events and of delivered timeouts is written at exit
 *  VF_RNDLOG=file   appended to: "threadnumber hash" of the large values that PARI's generator handed out
 *  VF_NORND=1       /dev/urandom cannot be opened
 *  VF_POISON=n      overwrite n bytes of the released part of the PARI stack at every hook event (poison.c)
 *  VF_DELAY=n:us    pseudo-random delays of up to us microseconds around thread synchronisation
 */
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>

extern long vf_poison_bytes;
extern unsigned long vf_poisoned;
void vf_poison(void);

#define NOSAN __attribute__((no_sanitize("thread")))

unsigned long vf_heap_events __attribute__((weak));
static int inited;
static int have_seed;
static int no_rnd;
static int rndlog = -1;
static uint64_t seed0;
static atomic_ulong stream_calls;
static long tmo_every;
static int tmo_on;
static unsigned long tmo_list[256];
static int tmo_n;
static long delay_us;
static uint64_t delay_seed;
static atomic_ulong hook_events, fired, armed_count, seed_reads;
static atomic_long last_timer_sec;

static uint64_t mix(uint64_t z) {
	z += 0x9e3779b97f4a7c15ULL;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

static void at_exit_log(void) {
	const char *f = getenv("VF_TMOLOG");
	if (f) {
		int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0) {
			char buf[200];
			int n = snprintf(buf, sizeof buf, "%lu %lu %lu %ld %lu %lu %lu\n", (unsigned long)hook_events,
			                 (unsigned long)fired, (unsigned long)armed_count,
			                 (long)last_timer_sec, (unsigned long)seed_reads, vf_poisoned, vf_heap_events);
			if (write(fd, buf, n)) {
			}
			close(fd);
		}
	}
}

__attribute__((constructor)) static void shim_init(void) {
	if (inited) return;
	inited = 1;
	/* do not outlive the check that started this run */
	const char *par = getenv("VF_PARENT");
	if (par) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != atol(par)) _exit(120);
	}
	const char *s = getenv("VF_SEED");
	if (s) {
		have_seed = 1;
		seed0 = strtoull(s, NULL, 0);
	}
	no_rnd = getenv("VF_NORND") != NULL;
	s = getenv("VF_RNDLOG");
	if (s) rndlog = open(s, O_WRONLY | O_CREAT | O_APPEND, 0644);
	s = getenv("VF_TMO");
	if (s) {
		tmo_on = 1;
		if (!strncmp(s, "every:", 6)) {
			tmo_every = strtol(s + 6, NULL, 10);
		} else if (strcmp(s, "log")) {
			while (*s && tmo_n < 256) {
				char *e;
				tmo_list[tmo_n++] = strtoul(s, &e, 10);
				s = *e ? e + 1 : e;
			}
		}
	}
	s = getenv("VF_POISON");
	if (s) vf_poison_bytes = atol(s);
	s = getenv("VF_DELAY");
	if (s) {
		char *e;
		delay_seed = strtoull(s, &e, 10);
		delay_us = *e == ':' ? strtol(e + 1, NULL, 10) : 100;
	}
	if (getenv("VF_TMOLOG")) atexit(at_exit_log);
}

/* ---- seeds ---- */
static void stream_fill(unsigned char *buf, size_t n) {
	uint64_t call = atomic_fetch_add(&stream_calls, 1);
	atomic_fetch_add(&seed_reads, 1);
	for (size_t i = 0; i < n; ++i) {
		if (i % 8 == 0) call = call;
		uint64_t v = mix(mix(seed0 ^ (call << 20)) + i / 8);
		buf[i] = (unsigned char)(v >> (8 * (i % 8)));
	}
}

static int is_random_dev(const char *p) {
	return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"));
}

static int seeded_fd(void) {
	int p[2];
	unsigned char buf[4096];
	if (pipe(p)) return -1;
	stream_fill(buf, sizeof buf);
	if (write(p[1], buf, sizeof buf) != sizeof buf) return -1;
	close(p[1]);
	return p[0];
}

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode) {
	if (no_rnd && is_random_dev(path)) {
		errno = ENOENT;
		return NULL;
	}
	if (have_seed && is_random_dev(path)) {
		int fd = seeded_fd();
		return fd < 0 ? NULL : fdopen(fd, "rb");
	}
	return __real_fopen(path, mode);
}
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }

int __wrap_open(const char *path, int flags, ...) {
	if (no_rnd && is_random_dev(path)) {
		errno = ENOENT;
		return -1;
	}
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	if (have_seed && is_random_dev(path)) return seeded_fd();
	return openat(AT_FDCWD, path, flags, mode);
}
int __wrap_open64(const char *path, int flags, ...) {
	if (no_rnd && is_random_dev(path)) {
		errno = ENOENT;
		return -1;
	}
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	if (have_seed && is_random_dev(path)) return seeded_fd();
	return openat(AT_FDCWD, path, flags, mode);
}
int __real_openat(int, const char *, int, ...);
int __wrap_openat(int d, const char *path, int flags, ...) {
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	if (have_seed && is_random_dev(path)) return seeded_fd();
	return __real_openat(d, path, flags, mode);
}
ssize_t __real_getrandom(void *, size_t, unsigned);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) {
	if (have_seed) {
		stream_fill(b, n);
		return (ssize_t)n;
	}
	return __real_getrandom(b, n, f);
}
int __real_getentropy(void *, size_t);
int __wrap_getentropy(void *b, size_t n) {
	if (have_seed) {
		stream_fill(b, n);
		return 0;
	}
	return __real_getentropy(b, n);
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
	int r = __real_clock_gettime(c, t);
	if (!r && have_seed && c == CLOCK_REALTIME) t->tv_nsec = (long)(mix(seed0 + 77) % 1000000000);
	return r;
}
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) { return __real_time(t); }

/* ---- timeouts ---- */
static __thread int armed;
static __thread timer_t armed_timer;
static __thread volatile int in_hook;

int __real_timer_create(clockid_t, struct sigevent *, timer_t *);
int __wrap_timer_create(clockid_t c, struct sigevent *s, timer_t *t) { return __real_timer_create(c, s, t); }
int __real_timer_settime(timer_t, int, const struct itimerspec *, struct itimerspec *);
int __wrap_timer_settime(timer_t t, int f, const struct itimerspec *n, struct itimerspec *o) {
	if (n->it_value.tv_sec || n->it_value.tv_nsec) {
		armed = 1;
		last_timer_sec = n->it_value.tv_sec;
		armed_count++;
		if (tmo_on) return 0; /* the shim is the clock */
	} else {
		armed = 0;
	}
	return __real_timer_settime(t, f, n, o);
}
int __real_timer_delete(timer_t);
int __wrap_timer_delete(timer_t t) {
	armed = 0;
	return __real_timer_delete(t);
}
int __real_setitimer(__itimer_which_t, const struct itimerval *, struct itimerval *);
int __wrap_setitimer(__itimer_which_t w, const struct itimerval *n, struct itimerval *o) {
	armed = n && (n->it_value.tv_sec || n->it_value.tv_usec);
	if (armed) {
		last_timer_sec = n->it_value.tv_sec;
		armed_count++;
		if (tmo_on) return 0;
	}
	return __real_setitimer(w, n, o);
}
unsigned __real_alarm(unsigned);
unsigned __wrap_alarm(unsigned s) {
	armed = s != 0;
	if (armed) {
		last_timer_sec = s;
		armed_count++;
		if (tmo_on) return 0;
	}
	return __real_alarm(s);
}

int vf_armed(void) { return tmo_on && armed; }
void vf_fired(void) {
	armed = 0;
	atomic_fetch_add(&fired, 1);
}

static void tmo_point(void) {
	vf_poison();
	if (!tmo_on || !armed) return;
	unsigned long k = atomic_fetch_add(&hook_events, 1) + 1;
	int fire = 0;
	if (tmo_every && k % tmo_every == 0) fire = 1;
	for (int i = 0; i < tmo_n; ++i)
		if (tmo_list[i] == k) fire = 1;
	if (fire) {
		armed = 0;
		atomic_fetch_add(&fired, 1);
		pthread_kill(pthread_self(), SIGALRM);
	}
}

typedef long *GEN_;
unsigned long hash_GEN(GEN_);
long gsizebyte(GEN_);
static atomic_ulong rnd_tids;
static __thread unsigned long rnd_tid;
static __thread int rnd_n;
/* the first few large values drawn by each thread */
static GEN_ drawn(GEN_ r) {
	if (rndlog < 0 || rnd_n >= 40) return r;
	int large = (unsigned long)r[0] >> 57 == 1 ? (r[1] & 0xffffffffffffffUL) > 2 && ((r[1] & 0xffffffffffffffUL) > 3 || (unsigned long)r[2] >> 60) : 1;
	if (!large) return r;
	if (!rnd_tid) rnd_tid = 1 + atomic_fetch_add(&rnd_tids, 1);
	rnd_n++;
	char b[64];
	int n = snprintf(b, sizeof b, "%lu %lu\n", rnd_tid, hash_GEN(r));
	if (write(rndlog, b, n)) {
	}
	return r;
}
#define WR1(f, A) \
	GEN_ __real_##f(A); \
	GEN_ __wrap_##f(A a) { tmo_point(); GEN_ r = drawn(__real_##f(a)); tmo_point(); return r; }
#define W1(f, A) \
	GEN_ __real_##f(A); \
	GEN_ __wrap_##f(A a) { tmo_point(); GEN_ r = __real_##f(a); tmo_point(); return r; }
#define W2(f, A, B) \
	GEN_ __real_##f(A, B); \
	GEN_ __wrap_##f(A a, B b) { tmo_point(); GEN_ r = __real_##f(a, b); tmo_point(); return r; }
#define W3(f, A, B, C) \
	GEN_ __real_##f(A, B, C); \
	GEN_ __wrap_##f(A a, B b, C c) { tmo_point(); GEN_ r = __real_##f(a, b, c); tmo_point(); return r; }
W3(ellinit, GEN_, GEN_, long)
W2(ellsea, GEN_, long)
W1(ellff_get_card, GEN_)
W1(ellff_get_gens, GEN_)
W3(ellorder, GEN_, GEN_, GEN_)
W3(ellmul, GEN_, GEN_, GEN_)
WR1(genrand, GEN_)
WR1(randomprime, GEN_)
WR1(randomi, GEN_)
W1(Z_factor, GEN_)
W1(factor, GEN_)
W3(ellordinate, GEN_, GEN_, long)
W3(polclass, GEN_, long, long)
W2(elltwist, GEN_, GEN_)
W1(gcopy, GEN_)
W2(gerepilecopy, unsigned long, GEN_)
W1(nextprime, GEN_)
W2(Fp_sqrt, GEN_, GEN_)
W1(binary_zv, GEN_)
W2(znorder, GEN_, GEN_)
W1(coredisc2, GEN_)
long __real_isprime(GEN_);
long __wrap_isprime(GEN_ a) { tmo_point(); long r = __real_isprime(a); tmo_point(); return r; }
long __real_random_bits(long);
long __wrap_random_bits(long a) { tmo_point(); return __real_random_bits(a); }
/* variadic: only a point before the call */
void __real_gerepileall(unsigned long av, int n, ...);
void __wrap_gerepileall(unsigned long av, int n, ...) {
	tmo_point();
	va_list ap;
	void *p[16];
	va_start(ap, n);
	for (int i = 0; i < n && i < 16; ++i) p[i] = va_arg(ap, void *);
	va_end(ap);
	__real_gerepileall(av, n, p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11],
	                   p[12], p[13], p[14], p[15]);
}

/* ecgen's own functions at whose call nothing released may be in use any more */
#define P1(R, f) \
	R __real_##f(void *); \
	R __wrap_##f(void *a) { vf_poison(); return __real_##f(a); }
P1(void, curve_free)
P1(void, try_free)
P1(void *, try_malloc)
P1(void *, try_calloc)
P1(void, output_o)

/* ---- schedules ---- */
static atomic_ulong sched_points;
static __thread uint64_t tid_salt;
static atomic_ulong tids;

static void jitter(int kind) {
	if (!delay_us) return;
	if (!tid_salt) tid_salt = 1 + atomic_fetch_add(&tids, 1);
	uint64_t n = atomic_fetch_add(&sched_points, 1);
	uint64_t r = mix(delay_seed ^ mix(n * 31 + kind) ^ (tid_salt << 40));
	switch (r & 7) {
		case 0:
		case 1:
			sched_yield();
			break;
		case 2:
		case 3:
			usleep((useconds_t)((r >> 8) % (uint64_t)delay_us));
			break;
		case 4: /* now and then hold a thread back for long */
			if (((r >> 4) & 15) == 0) usleep((useconds_t)delay_us * 10);
			break;
		default:
			break;
	}
}

int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	jitter(1);
	int r = __real_pthread_mutex_lock(m);
	jitter(2);
	return r;
}
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
	jitter(3);
	return __real_pthread_mutex_trylock(m);
}
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
	jitter(4);
	int r = __real_pthread_mutex_unlock(m);
	jitter(5);
	return r;
}
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	int r = __real_pthread_cond_wait(c, m);
	jitter(6);
	return r;
}
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
	return __real_pthread_cond_timedwait(c, m, t);
}
int __real_pthread_cond_signal(pthread_cond_t *);
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
	jitter(7);
	int r = __real_pthread_cond_signal(c);
	jitter(8);
	return r;
}
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
	jitter(9);
	int r = __real_pthread_cond_broadcast(c);
	jitter(10);
	return r;
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
	/* VF_NOTHREAD=k: only k threads can be created */
	static atomic_int created;
	const char *lim = getenv("VF_NOTHREAD");
	if (lim && atomic_fetch_add(&created, 1) >= atoi(lim)) return EAGAIN;
	int r = __real_pthread_create(t, a, f, x);
	jitter(11);
	return r;
}
int __real_pthread_join(pthread_t, void **);
int __wrap_pthread_join(pthread_t t, void **r) {
	jitter(12);
	return __real_pthread_join(t, r);
}
