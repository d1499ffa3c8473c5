/*
 * Released-stack poisoning. PARI never clears what lies below avma; a program that goes on using an object after
 * avma was put back above it works until something is allocated there. With VF_POISON=bytes this much
 * of the released part is overwritten at every hook event of the shim, so that such a use shows at once.
 */
#include <pari/pari.h>
#include <string.h>

unsigned long vf_poisoned;
long vf_poison_bytes;
static __thread int closed;

void __real_pari_close(void);
void __wrap_pari_close(void) {
	closed = 1;
	__real_pari_close();
}
void __real_pari_thread_close(void);
void __wrap_pari_thread_close(void) {
	closed = 1;
	__real_pari_thread_close();
}

void vf_poison(void) {
	if (!vf_poison_bytes || closed || !pari_mainstack) return;
	pari_sp bot = pari_mainstack->bot, a = avma;
	if (a <= bot || a > pari_mainstack->top) return;
	size_t n = a - bot;
	if (n > (size_t)vf_poison_bytes) n = (size_t)vf_poison_bytes;
	memset((void *)(a - n), 0xff, n);
	__atomic_fetch_add(&vf_poisoned, 1, __ATOMIC_RELAXED);
}
