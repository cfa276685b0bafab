// Injected delays: shortens the engines' polling waits and perturbs their schedules at every wait, wake-up and post.
#ifndef SCHED_H
#define SCHED_H
#include "vp.h"
static volatile int vp_jitter = 0;          // 0 none, 1 light, 2 heavy
static volatile int vp_lag_us = 0;          // extra delay of a worker after each wake-up
static volatile uint64_t vp_jit = 0x1234567;
static uint64_t vp_jr(void) { uint64_t s = __atomic_add_fetch(&vp_jit, 0x9E3779B97F4A7C15ULL, __ATOMIC_RELAXED); return vp_mix(&s); }
static void vp_nap(unsigned us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; nanosleep(&t, NULL); }
int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us) {
    if (us > 300) us = 300;
    if (vp_jitter && us > 10) us = 1 + vp_jr() % us;
    vp_nap(us);
    return 0;
}
static volatile long vp_delays;
static void vp_perturb(void) {
    if (vp_jitter == 0) return;
    uint64_t r = vp_jr();
    int k = r % 16;
    if (k < 3) { sched_yield(); }
    else if (k < 3 + vp_jitter * 2) { vp_nap((r >> 8) % (vp_jitter > 1 ? 400 : 60)); __atomic_add_fetch(&vp_delays, 1, __ATOMIC_RELAXED); }
}
int __real_sem_wait(sem_t *s);
int __wrap_sem_wait(sem_t *s) {
    int r = __real_sem_wait(s);
    if (vp_lag_us) vp_nap(vp_lag_us);
    vp_perturb();
    return r;
}
int __real_sem_post(sem_t *s);
int __wrap_sem_post(sem_t *s) { int r = __real_sem_post(s); vp_perturb(); return r; }
// FFT plans without measurement: the same on every machine
#include <fftw3.h>
fftwf_plan __real_fftwf_plan_dft_1d(int n, fftwf_complex *a, fftwf_complex *b, int sign, unsigned flags);
fftwf_plan __wrap_fftwf_plan_dft_1d(int n, fftwf_complex *a, fftwf_complex *b, int sign, unsigned flags) {
    return __real_fftwf_plan_dft_1d(n, a, b, sign, FFTW_ESTIMATE);
}
#endif
