// Shared harness support: seeded cases, monitor verdicts, measured coverage.
//
// A harness defines  static void vp_case(uint64_t index)  and calls vp_main(argc, argv, vp_case).
// Every case derives from (seed, index) only, so `harness --seed S --first I --count 1` replays it.
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <pthread.h>
#include <semaphore.h>
#include <grp.h>
#include <RadarKit.h>

// Named semaphores get a per-process suffix, so that concurrent shards (and a crashed run's leftovers) never meet
sem_t *__real_sem_open(const char *name, int oflag, ...);
int __real_sem_unlink(const char *name);
static void vp_semname(char *b, size_t n, const char *name) { snprintf(b, n, "%s%s-%d", name[0] == '/' ? "" : "/", name, (int)getpid()); }
sem_t *__wrap_sem_open(const char *name, int oflag, ...) {
    char b[200];
    vp_semname(b, sizeof(b), name);
    va_list a;
    va_start(a, oflag);
    mode_t mode = va_arg(a, mode_t);
    unsigned value = va_arg(a, unsigned);
    va_end(a);
    if (oflag & O_CREAT) return __real_sem_open(b, oflag, mode, value);
    return __real_sem_open(b, oflag);
}
int __wrap_sem_unlink(const char *name) {
    char b[200];
    vp_semname(b, sizeof(b), name);
    return __real_sem_unlink(b);
}

static FILE *vp_out;
static int vp_progress = -1;
static uint64_t vp_seed = 1, vp_index;
static const char *vp_tier = "quick";
static const char *vp_mode = "";
static int vp_viol;
static char vp_scratch[256];
static pthread_mutex_t vp_lock = PTHREAD_MUTEX_INITIALIZER;

// ---- random numbers -------------------------------------------------------------------------------------------
static uint64_t vp_s;
static inline uint64_t vp_mix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static inline uint64_t r64(void) { return vp_mix(&vp_s); }
static inline uint32_t ri(uint32_t n) { return n ? (uint32_t)(r64() % n) : 0; }                     // [0, n)
static inline int rr(int a, int b) { return a + (int)(r64() % (uint64_t)(b - a + 1)); }             // [a, b]
static inline double ru(void) { return (double)(r64() >> 11) / 9007199254740992.0; }                // [0, 1)
static inline double rf(double a, double b) { return a + (b - a) * ru(); }
static inline int chance(double p) { return ru() < p; }
static inline double rn(void) {
    double u = ru() + 1e-18, v = ru();
    return sqrt(-2.0 * log(u)) * cos(2.0 * M_PI * v);
}

// ---- verdicts and coverage ------------------------------------------------------------------------------------
#define VIOL(key, ...) vp_report(key, __VA_ARGS__)
static void vp_report(const char *key, const char *fmt, ...) {
    char buf[1500];
    va_list a;
    va_start(a, fmt);
    vsnprintf(buf, sizeof(buf), fmt, a);
    va_end(a);
    for (char *c = buf; *c; c++) if (*c == '\n' || *c == '\t' || *c == '\r') *c = ' ';
    pthread_mutex_lock(&vp_lock);
    if (vp_viol++ < 200) {
        fprintf(vp_out, "VIOL\t%s\t%llu\t%s\n", key, (unsigned long long)vp_index, buf);
        fflush(vp_out);
    }
    pthread_mutex_unlock(&vp_lock);
}
#define VP_MAXSTAT 128
static struct { char name[64]; double v; } vp_stat[VP_MAXSTAT];
static int vp_nstat;
static void stat_add(const char *name, double v) {
    pthread_mutex_lock(&vp_lock);
    int i;
    for (i = 0; i < vp_nstat; i++) if (!strcmp(vp_stat[i].name, name)) break;
    if (i == vp_nstat && vp_nstat < VP_MAXSTAT) snprintf(vp_stat[vp_nstat++].name, 64, "%s", name);
    if (i < vp_nstat) vp_stat[i].v += v;
    pthread_mutex_unlock(&vp_lock);
}
static uint64_t *vp_hash;
static size_t vp_nhash, vp_chash;
static uint64_t vp_h(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = p;
    while (n--) { h ^= *b++; h *= 1099511628211ULL; }
    return h;
}
// Registers the signature of a non-trivial case (distinct ones are counted over the whole run)
static void distinct(uint64_t h) {
    pthread_mutex_lock(&vp_lock);
    if (vp_nhash == vp_chash) {
        vp_chash = vp_chash ? vp_chash * 2 : 1024;
        vp_hash = realloc(vp_hash, vp_chash * sizeof(uint64_t));
    }
    vp_hash[vp_nhash++] = h;
    pthread_mutex_unlock(&vp_lock);
}
#define DISTINCTF(...) do { char _b[512]; int _n = snprintf(_b, sizeof(_b), __VA_ARGS__); \
    distinct(vp_h(_b, _n < (int)sizeof(_b) ? (size_t)_n : sizeof(_b) - 1, 1469598103934665603ULL)); } while (0)
static int vp_samples;
static void sample(const char *fmt, ...) {
    if (vp_samples >= 4) return;
    char buf[900];
    va_list a;
    va_start(a, fmt);
    vsnprintf(buf, sizeof(buf), fmt, a);
    va_end(a);
    for (char *c = buf; *c; c++) if (*c == '\n' || *c == '\t' || *c == '\r') *c = ' ';
    pthread_mutex_lock(&vp_lock);
    vp_samples++;
    fprintf(vp_out, "SAMPLE\t%s\n", buf);
    fflush(vp_out);
    pthread_mutex_unlock(&vp_lock);
}
static double vp_now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
static int vp_thorough(void) { return !strcmp(vp_tier, "thorough"); }

// ---- comparisons ----------------------------------------------------------------------------------------------
static inline int close_to(double a, double b, double abs_, double rel) {
    if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
    if (isinf(a) || isinf(b)) return a == b;
    return fabs(a - b) <= abs_ + rel * fmax(fabs(a), fabs(b));
}

// ---- main -----------------------------------------------------------------------------------------------------
static int vp_main(int argc, char **argv, void (*fn)(uint64_t)) {
    uint64_t first = 0, count = 1;
    const char *out = NULL, *prog = NULL;
    for (int i = 1; i + 1 < argc; i += 2) {
        if (!strcmp(argv[i], "--seed")) vp_seed = strtoull(argv[i + 1], NULL, 10);
        else if (!strcmp(argv[i], "--first")) first = strtoull(argv[i + 1], NULL, 10);
        else if (!strcmp(argv[i], "--count")) count = strtoull(argv[i + 1], NULL, 10);
        else if (!strcmp(argv[i], "--tier")) vp_tier = argv[i + 1];
        else if (!strcmp(argv[i], "--mode")) vp_mode = argv[i + 1];
        else if (!strcmp(argv[i], "--out")) out = argv[i + 1];
        else if (!strcmp(argv[i], "--progress")) prog = argv[i + 1];
        else if (!strcmp(argv[i], "--scratch")) snprintf(vp_scratch, sizeof(vp_scratch), "%s", argv[i + 1]);
    }
    vp_out = out ? fopen(out, "a") : stdout;
    if (!vp_out) { perror("out"); return 3; }
    // The buffers of the harness are not to be counted as memory of the code under test
    static char buffers[2][4096];
    setvbuf(stdout, buffers[0], _IOFBF, sizeof(buffers[0]));
    if (vp_out != stdout) setvbuf(vp_out, buffers[1], _IOFBF, sizeof(buffers[1]));
    if (prog) vp_progress = open(prog, O_CREAT | O_WRONLY | O_TRUNC, 0600);
    signal(SIGPIPE, SIG_IGN);
    if (vp_scratch[0]) {
        // The code under test runs as an unprivileged user that owns nothing but its scratch folder
        if (geteuid() == 0) {
            if (chown(vp_scratch, 65534, 65534) || setgroups(0, NULL) || setgid(65534) || setuid(65534)) { perror("drop"); return 3; }
        }
        if (chdir(vp_scratch)) { perror("scratch"); return 3; }
    }
    RKSetWantScreenOutput(false);
    RKSetWantColor(false);
    for (uint64_t i = first; i < first + count; i++) {
        vp_index = i;
        if (vp_progress >= 0) {
            char b[32];
            int n = snprintf(b, sizeof(b), "%20llu\n", (unsigned long long)i);
            if (pwrite(vp_progress, b, n, 0) != n) return 3;
        }
        vp_s = vp_seed * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL + 12345;
        r64();
        fn(i);
        stat_add("cases", 1);
        if (vp_viol > 60) break;
    }
    for (int i = 0; i < vp_nstat; i++) fprintf(vp_out, "STAT\t%s\t%.17g\n", vp_stat[i].name, vp_stat[i].v);
    for (size_t i = 0; i < vp_nhash; i++) fprintf(vp_out, "HASH\t%016llx\n", (unsigned long long)vp_hash[i]);
    fprintf(vp_out, "DONE\n");
    fflush(vp_out);
    return 0;
}
#endif
