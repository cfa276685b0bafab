// Debugging aid (VP_LEAKS=1): where the blocks come from that a case leaves behind
#ifndef VPLEAK_H
#define VPLEAK_H
#include <execinfo.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#define VPLEAK_N (1u << 18)
static struct { const volatile void *p; size_t n; void *bt[14]; int d; } *vl_tab;
static pthread_mutex_t vl_lock = PTHREAD_MUTEX_INITIALIZER;
static __thread int vl_in;
static volatile int vl_on;
static void vl_malloc(const volatile void *p, size_t n) {
    if (!vl_on || vl_in || !p) return;
    vl_in = 1;
    void *bt[14];
    int d = backtrace(bt, 14);
    pthread_mutex_lock(&vl_lock);
    for (unsigned i = (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % VPLEAK_N, k = 0; k < VPLEAK_N; k++, i = (i + 1) % VPLEAK_N)
        if (!vl_tab[i].p || vl_tab[i].p == (void *)1) { vl_tab[i].p = p; vl_tab[i].n = n; vl_tab[i].d = d; memcpy(vl_tab[i].bt, bt, sizeof(bt)); break; }
    pthread_mutex_unlock(&vl_lock);
    vl_in = 0;
}
static void vl_free(const volatile void *p) {
    if (!vl_on || vl_in || !p) return;
    pthread_mutex_lock(&vl_lock);
    for (unsigned i = (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % VPLEAK_N, k = 0; k < VPLEAK_N && vl_tab[i].p; k++, i = (i + 1) % VPLEAK_N)
        if (vl_tab[i].p == p) { vl_tab[i].p = (void *)1; break; }
    pthread_mutex_unlock(&vl_lock);
}
static void vl_start(void) {
    if (!getenv("VP_LEAKS")) return;
    void *bt[2];
    backtrace(bt, 2);
    if (!vl_tab) { vl_tab = calloc(VPLEAK_N, sizeof(*vl_tab)); __sanitizer_install_malloc_and_free_hooks(vl_malloc, vl_free); }
    memset(vl_tab, 0, VPLEAK_N * sizeof(*vl_tab));
    vl_on = 1;
}
static void vl_stop(void) {
    if (!vl_on) return;
    vl_on = 0;
    for (unsigned i = 0; i < VPLEAK_N; i++) if (vl_tab[i].p && vl_tab[i].p != (void *)1) {
        fprintf(stderr, "LEFT %zu\n", vl_tab[i].n);
        backtrace_symbols_fd(vl_tab[i].bt, vl_tab[i].d, 2);
    }
}
#endif
#endif
#ifndef VPLEAK_N
static void vl_start(void) {}
static void vl_stop(void) {}
#endif
#endif
