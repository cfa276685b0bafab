// File manager: each data folder is kept within its limit by removing the oldest files, and nothing else is touched.
// Built twice: with the capacities of a running radar, and (h_fmd.c) with DEBUG_FILE_MANAGER, which lists 100 files.
#include "vp.h"
#include <ftw.h>
#include <ctype.h>
#include <sys/wait.h>
#include <dirent.h>
#include <sys/time.h>
#ifdef DEBUG_FILE_MANAGER
#define CAPACITY 100
#else
#define CAPACITY 72000
#endif
#define MAXN 4000
typedef struct { char path[1300]; long size; long t; int kind, day, there, order; } File;     // kind 0-2 managed, 3 to be kept, 4 log to be removed, 5 folder that may or may not stay
static File *F;
static int nf;
static char base[600], root[1000];
static volatile long naps, shift_s;
static const char *sub[] = {RKDataFolderIQ, RKDataFolderMoment, RKDataFolderHealth};
static pthread_mutex_t flock_ = PTHREAD_MUTEX_INITIALIZER;

// ---- a clock that runs fast, and stand-ins that keep removals inside the folder of this case
int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us) { __sync_fetch_and_add(&naps, 1); struct timespec t = {0, us > 50000 ? 60000 : 20000}; nanosleep(&t, NULL); return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) {
    static double start;
    if (start == 0) start = vp_now();
    double x = 1700000000.0 + shift_s + (vp_now() - start) * 100.0;
    t->tv_sec = (long)x; t->tv_usec = (long)((x - floor(x)) * 1e6);
    return 0;
}
time_t __wrap_time(time_t *p) { struct timeval t; __wrap_gettimeofday(&t, NULL); if (p) *p = t.tv_sec; return t.tv_sec; }
static int inside(const char *path, const char *what) {
    size_t n = strlen(root);
    if (!strncmp(path, root, n) && path[n] == '/' && !strstr(path, "..")) return 1;
    VIOL("outside", "%s of '%s', which is not in the data folder", what, path);
    return 0;
}
int __real_remove(const char *p); int __real_unlink(const char *p); int __real_rmdir(const char *p);
int __wrap_remove(const char *p) { return inside(p, "removal") ? __real_remove(p) : -1; }
int __wrap_unlink(const char *p) { return inside(p, "removal") ? __real_unlink(p) : -1; }
int __wrap_rmdir(const char *p) { return inside(p, "removal") ? __real_rmdir(p) : -1; }
int __wrap_system(const char *c) {
    // A stand-in for the shell: runs only commands that remove one plain path of the data folder
    const char *p = strncmp(c, "rm -rf ", 7) ? NULL : c + 7;
    for (const char *q = p; q && *q; q++) if (!isalnum(*q) && !strchr("/._-", *q)) p = NULL;
    if (p == NULL || strlen(c) > 500) { VIOL("shell", "the shell is given '%s'", c); return 1; }
    if (!inside(p, "shell removal")) return 1;
    char s[1000];
    snprintf(s, sizeof(s), "%s", p);
    pid_t k = fork();
    if (k == 0) { execl("/bin/rm", "rm", "-rf", s, NULL); _exit(1); }
    int st = 1;
    waitpid(k, &st, 0);
    return st;
}
// Log files get their age from their name
static void age(const char *path, struct stat *s) { const char *a = strstr(path, "-age"); if (a && strstr(path, "/log/")) s->st_ctime = s->st_mtime = __wrap_time(NULL) - atol(a + 4); }
int __real_lstat(const char *p, struct stat *s); int __real_stat(const char *p, struct stat *s);
int __wrap_lstat(const char *p, struct stat *s) { int r = __real_lstat(p, s); if (!r) age(p, s); return r; }
int __wrap_stat(const char *p, struct stat *s) { int r = __real_stat(p, s); if (!r) age(p, s); return r; }

// ---- the model
static void mkdirs(const char *path) {
    char b[1400];
    snprintf(b, sizeof(b), "%s", path);
    for (char *c = b + 1; *c; c++) if (*c == '/') { *c = 0; mkdir(b, 0755); *c = '/'; }
}
static File *put(const char *path, long size, int kind) {
    FILE *f = NULL;
    // The manager may remove a folder that has no file yet
    for (int i = 0; i < 50 && !f; i++) { mkdirs(path); f = fopen(path, "w"); }
    if (!f) { VIOL("harness", "cannot make %s", path); return NULL; }
    static char z[8192];
    for (long n = size; n > 0; n -= 8192) fwrite(z, 1, n > 8192 ? 8192 : n, f);
    fclose(f);
    pthread_mutex_lock(&flock_);
    File *x = &F[nf];
    memset(x, 0, sizeof(*x));
    snprintf(x->path, sizeof(x->path), "%s", path);
    x->size = size; x->kind = kind; x->there = 1; x->day = -1; x->order = nf;
    if (nf < MAXN - 1) nf++;
    pthread_mutex_unlock(&flock_);
    return x;
}
static char prefix[20];
static int days0;
static long now_of[3];
static const char *SYM[] = {"Z", "V", "W", "D", "P", "R", "KDPxxxx"};
static void data_name(char *b, size_t n, int kind, long t, int sym) {
    struct tm tm;
    time_t tt = t;
    gmtime_r(&tt, &tm);
    char day[20], hms[40];
    strftime(day, 20, "%Y%m%d", &tm); strftime(hms, 40, "%Y%m%d-%H%M%S", &tm);
    if (kind == 0) snprintf(b, n, "%s/%s/%s/%s-%s.%03d.rkc", root, sub[kind], day, prefix, hms, sym * 100);
    else if (kind == 1) { if (sym == 7) snprintf(b, n, "%s/%s/%s/%s-%s-E2.5.tar.xz", root, sub[kind], day, prefix, hms); else snprintf(b, n, "%s/%s/%s/%s-%s-E2.5-%s.nc", root, sub[kind], day, prefix, hms, SYM[sym]); }
    else snprintf(b, n, "%s/%s/%s/%s-%s.json", root, sub[kind], day, prefix, hms);
}
static int maxsize, pace;
// One more time of data (and for moments, several products of the same size)
static int more(int kind, RKFileManager *m, uint64_t *rs) {
    long step = 1 + (long)(vp_mix(rs) % (vp_mix(rs) % 8 == 0 && pace > 100 ? 300000 : pace));
    now_of[kind] += step;
    int n = kind == 1 ? 1 + (int)(vp_mix(rs) % 8) : 1, added = 0;
    long size = vp_mix(rs) % 20 == 0 ? 0 : 1 + (long)(vp_mix(rs) % maxsize);
    for (int s = 0; s < n; s++) {
        char b[1300];
        data_name(b, sizeof(b), kind, now_of[kind], s);
        File *x = put(b, size, kind);
        if (!x) return added;
        x->t = now_of[kind]; x->day = (int)(now_of[kind] / 86400);
        added++;
        if (m) {
            int r = RKFileManagerAddFile(m, b, kind);
            if (r != RKResultSuccess && r != RKResultFileManagerBufferNotResuable && r != RKResultEngineNotActive && access(b, F_OK) == 0) VIOL("refused", "adding %s returned %d", b, r);
        }
    }
    return added;
}
static long limit_of[3];
static long last_removed_day[3];
// What the model says must be left: removes the oldest until the rest fits
static void model(int kind, int *exact) {
    static File *v[3][MAXN];
    int n = 0;
    long usage = 0;
    for (int i = 0; i < nf; i++) if (F[i].kind == kind && F[i].there) { v[kind][n++] = &F[i]; usage += F[i].size; }
    if (n >= CAPACITY) *exact = 0;
    if (!*exact) return;
    for (int i = 0; i < n && usage > limit_of[kind]; i++) { v[kind][i]->there = 0; usage -= v[kind][i]->size; last_removed_day[kind] = v[kind][i]->day; stat_add("files_removed", 1); }
}
static int exists(const char *p) { struct stat s; return __real_lstat(p, &s) == 0; }
static int seen_n, quiet;
static int visit(const char *p, const struct stat *s, int flag, struct FTW *w) {
    if (flag == FTW_D || flag == FTW_DP) return 0;
    for (int i = 0; i < nf; i++) if (!strcmp(F[i].path, p)) { seen_n++; return 0; }
    if (!quiet) VIOL("unknown", "%s was not there before", p);
    return 0;
}
static int bykind(const void *a, const void *b) { const File *x = a, *y = b; if (x->t != y->t) return x->t < y->t ? -1 : 1; return x->order - y->order; }
// Compares the files with the model; returns what differs
static int settled(char *why, int *exact) {
    for (int i = 0; i < nf; i++) {
        File *x = &F[i];
        if (x->kind > 4) continue;
        if (x->kind < 3 && !exact[x->kind]) continue;
        int e = exists(x->path);
        if (x->kind < 3) {
            // Files of the same time and size may go in any order
            int want = 0, have = 0, j = i;
            while (j < nf && F[j].kind == x->kind && F[j].t == x->t && F[j].size == x->size) { want += F[j].there; have += exists(F[j].path); j++; }
            if (want != have) { snprintf(why, 1400, "%d files like %s (%ld bytes) expected, %d are there", want, x->path, x->size, have); return 0; }
            for (int k = i; k < j; k++) F[k].there = exists(F[k].path);
            i = j - 1;
        } else if (e != x->there) { snprintf(why, 1400, "%s %s", x->path, e ? "is still there" : "was removed"); return 0; }
    }
    for (int k = 0; k < 3; k++) if (!exact[k]) {
        long usage = 0, big = 0;
        int oldest = 1 << 30, newest = -1, removed = 0;
        for (int i = 0; i < nf; i++) if (F[i].kind == k && F[i].there) {
            if (exists(F[i].path)) { usage += F[i].size; if (F[i].day < oldest) oldest = F[i].day; }
            else { removed++; if (F[i].size > big) big = F[i].size; if (F[i].day > newest) newest = F[i].day; }
        }
        if (usage > limit_of[k]) { snprintf(why, 1400, "%s uses %ld of %ld bytes", sub[k], usage, limit_of[k]); return 0; }
        if (removed && usage + 2 * big <= limit_of[k]) { snprintf(why, 1400, "%s uses only %ld of %ld bytes after removals of up to %ld bytes", sub[k], usage, limit_of[k], big); return -1; }
        if (removed && newest > oldest) { snprintf(why, 1400, "%s lost a file of day %d and kept one of day %d", sub[k], newest, oldest); return -1; }
    }
    return 1;
}
typedef struct { RKFileManager *m; int kind, n; uint64_t s; } Adder;
static volatile int stopping;
static void *adder(void *in) {
    Adder *a = in;
    for (int i = 0; i < a->n && !stopping; i++) {
        more(a->kind, a->m, &a->s);
        if (vp_mix(&a->s) % 4 == 0) vp_now(), usleep(100000);
        if (vp_mix(&a->s) % 32 == 0) { struct timespec t = {0, 3000000}; nanosleep(&t, NULL); }
    }
    return NULL;
}
static void clear_tree(const char *p) { pid_t k = fork(); if (k == 0) { execl("/bin/rm", "rm", "-rf", p, NULL); _exit(1); } int st; waitpid(k, &st, 0); }
static void vp_case(uint64_t index) {
    if (!F) F = calloc(MAXN, sizeof(File));
    nf = 0;
    snprintf(base, sizeof(base), "%s/c%llu", vp_scratch, (unsigned long long)index);
    const char *names[] = {"data", "my data", "a;b", "x$(touch y)z", "q'uote", "q\"uote", "back\\slash", "star*", "-rf", "d\xc3\xa9", "data/iq", "a b/c d"};
    snprintf(root, sizeof(root), "%s/%s", base, names[ri(12)]);
    if (chance(0.2)) { int n = strlen(root), to = rr(300, 640); while (n < to) n += snprintf(root + n, sizeof(root) - n, "/%.*s", rr(20, 90), "long-folder-name-long-folder-name-long-folder-name-long-folder-name-long-folder-name-long-folder-name"); }
    if (strlen(root) > 700) root[700] = 0;
    snprintf(prefix, sizeof(prefix), "%s", chance(0.3) ? "P-X-1" : chance(0.3) ? "PX10000" : chance(0.1) ? "P-2017" : "RK");
    maxsize = chance(0.3) ? 30 : 3000;
    pace = chance(0.4) ? rr(1, 30) : 4000;                 // several files within a minute, or about one per hour
    stopping = 0; shift_s = 0;
    for (int k = 0; k < 3; k++) { now_of[k] = 1400000000 + ri(1000000); last_removed_day[k] = -1; }
    char b[1400];
    // Things that must stay
    int baits = rr(3, 12);
    for (int k = 0; k < baits; k++) {
        switch (ri(9)) {
            case 0: snprintf(b, sizeof(b), "%s/my/keep%d", base, k); break;
            case 1: snprintf(b, sizeof(b), "%s/%s2/20140513/RK-20140513-000000-E1.0-Z.nc", root, sub[ri(3)]); break;
            case 2: snprintf(b, sizeof(b), "%s/%s/notes%d.txt", root, sub[ri(3)], k); break;                        // directly in a data folder
            case 3: snprintf(b, sizeof(b), "%s/%s/20140513/.hidden%d", root, sub[ri(3)], k); break;
            case 4: snprintf(b, sizeof(b), "%s/%s/20140513/deeper/RK-20140513-000000-E1.%d-Z.nc", root, sub[ri(3)], k); break;
            case 5: snprintf(b, sizeof(b), "%s/%s/20140514/a-file-whose-name-is-longer-than-any-that-radarkit-makes-%d.nc", root, sub[ri(3)], k); break;
            case 6: snprintf(b, sizeof(b), "%s/waveform/w%d.rkwav", root, k); break;
            case 7: snprintf(b, sizeof(b), "%s/log/sub/rk-%d-age99999999.log", root, k); break;
            default: snprintf(b, sizeof(b), "%s/.%s/20140513/RK-%d", root, sub[ri(3)], k); break;
        }
        put(b, rr(1, 5000), 3);
    }
    // A link inside the data to something outside
    if (chance(0.5)) {
        snprintf(b, sizeof(b), "%s/outside/target", base);
        put(b, 100, 3);
        char l[1400];
        snprintf(l, sizeof(l), "%s/%s/20120102/RK-20120102-000000-E1.0-Z.nc", root, sub[ri(3)]);
        mkdirs(l);
        if (symlink(b, l) == 0) { File *x = &F[nf++]; memset(x, 0, sizeof(*x)); snprintf(x->path, sizeof(x->path), "%s", l); x->kind = 3; x->there = 1; }
        snprintf(b, sizeof(b), "%s/outside", base);
        snprintf(l, sizeof(l), "%s/%s/20120101", root, sub[ri(3)]);
        mkdirs(l);
        if (symlink(b, l) == 0) { File *x = &F[nf++]; memset(x, 0, sizeof(*x)); snprintf(x->path, sizeof(x->path), "%s", l); x->kind = 3; x->there = 1; }
    }
    int agedays = rr(1, 40), logs = ri(12);
    for (int k = 0; k < logs; k++) {
        long a = chance(0.5) ? agedays * 86400L - 40000 - ri(40000) : agedays * 86400L + 1000 + ri(1000000);
        snprintf(b, sizeof(b), "%s/log/%s%d-age%ld.log", root, chance(0.2) ? "." : "trxd", k, a);
        File *x = put(b, 10, 3);
        if (x && a > agedays * 86400L && strstr(b, "/.") == NULL) x->kind = 4;
        if (x && x->kind == 4) stat_add("old_logs", 1);
    }
    uint64_t rs = r64();
#ifdef DEBUG_FILE_MANAGER
    int nadd = rr(0, 250), ninit = chance(0.5) ? rr(0, 30) : rr(0, 200), phases = rr(1, 3);
#else
    int nadd = rr(0, 120), ninit = rr(0, 150), phases = rr(1, 2);
#endif
    for (int k = 0; k < 3; k++) for (int i = k == 1 ? ninit / 4 : ninit; i > 0; i--) more(k, NULL, &rs);
    // The file system lists the files in no particular order
    for (int i = 0; i < nf; i++) {
        File *x = &F[ri(nf)];
        if (x->kind > 2) continue;
        char *c = strrchr(x->path, '/');
        snprintf(b, sizeof(b), "%.*s/.moved", (int)(c - x->path), x->path);
        if (rename(x->path, b) || rename(b, x->path)) VIOL("harness", "cannot move %s", x->path);
    }
    if (pace < 100) stat_add("within_a_minute", 1);
    // Empty folders
    if (chance(0.3)) { snprintf(b, sizeof(b), "%s/%s/20130101/x", root, sub[ri(3)]); mkdirs(b); }
    int everexact = 1;
    for (int ph = 0; ph < phases; ph++) {
        RKFileManager *m = RKFileManagerInit();
        static RKRadarDesc desc;
        memset(&desc, 0, sizeof(desc));
        if (chance(0.5)) { snprintf(desc.dataPath, sizeof(desc.dataPath), "%s", root); RKFileManagerSetEssentials(m, &desc); if (chance(0.5)) RKFileManagerSetPathToMonitor(m, "/nonexistent"); }
        else RKFileManagerSetPathToMonitor(m, root);
        RKFileManagerSetMaximumLogAgeInDays(m, agedays);
        long avg = maxsize / 2 + 1, total = avg * (chance(0.3) ? rr(1, 20) : chance(0.5) ? rr(20, 80) : rr(80, 400));
        int users = 0;
#ifdef DEBUG_FILE_MANAGER
        RKFileManagerSetDiskUsageLimit(m, total * 3);
        for (int k = 0; k < 3; k++) limit_of[k] = total * 3 / 3;
#else
        if (chance(0.7)) { RKFileManagerSetDiskUsageLimit(m, total * 3); users |= 8; }
        for (int k = 0; k < 3; k++) {
            limit_of[k] = (users & 8) ? total * 3 * (k == 0 ? RKFileManagerRawDataRatio : k == 1 ? RKFileManagerMomentDataRatio : RKFileManagerHealthDataRatio) / (RKFileManagerRawDataRatio + RKFileManagerMomentDataRatio + RKFileManagerHealthDataRatio) : (1L << 40) / 20;
            if (chance(0.4)) { users |= 1 << k; limit_of[k] = avg * rr(1, 100); (k == 0 ? RKFileManagerSetRawDataLimit : k == 1 ? RKFileManagerSetMomentDataLimit : RKFileManagerSetHealthDataLimit)(m, limit_of[k]); }
        }
        stat_add("user_limits", __builtin_popcount(users & 7));
#endif
        RKFileManagerSetVerbose(m, getenv("FMV") ? 3 : chance(0.2) ? 3 : 0);
        if (chance(0.1)) { if (RKFileManagerStop(m) == RKResultSuccess) VIOL("stop", "a manager that was not started could be stopped"); }
        double t0 = vp_now();
        RKFileManagerStart(m);
        pthread_t tid[3];
        Adder ad[3];
        int hasty = ph == phases - 1 && chance(0.25), adding = chance(0.8);
        for (int k = 0; k < 3 && adding; k++) { ad[k] = (Adder){m, k, k == 1 ? nadd / 4 : nadd, r64()}; pthread_create(&tid[k], NULL, adder, &ad[k]); }
        if (chance(0.5)) {
            // Reports that cannot be right
            char c[1500];
            const char *bad[] = {"x", "/x", "", "/"};
            for (int k = 0; k < 6; k++) {
                int kind = ri(3);
                switch (ri(7)) {
                    case 0: snprintf(c, sizeof(c), "%s", bad[ri(4)]); break;
                    case 1: snprintf(c, sizeof(c), "%s/%s/20140513/none-20140513-000000.nc", root, sub[kind]); break;
                    case 2: snprintf(c, sizeof(c), "%s/%s2/20140513/RK-20140513-000000-E1.0-Z.nc", root, sub[kind]); break;
                    case 3: snprintf(c, sizeof(c), "%s/%s/file", root, sub[kind]); break;
                    case 4: snprintf(c, sizeof(c), "%s/%s/20140513/%0300d", root, sub[kind], 7); break;
                    case 5: snprintf(c, sizeof(c), "%s/%s/%0200d/x", root, sub[kind], 7); break;
                    default: data_name(c, sizeof(c), (kind + 1) % 3, 1400000000, 0); break;
                }
                if (RKFileManagerAddFile(m, c, chance(0.1) ? RKFileTypeLog + ri(5) : kind) == RKResultSuccess) VIOL("accepted", "'%s' was accepted", c);
                stat_add("bad_reports", 1);
            }
        }
        int exact[3] = {1, 1, 1};
        if (hasty) { struct timespec t = {0, (long)ri(20000000)}; nanosleep(&t, NULL); }
        else {
            for (int k = 0; k < 3 && adding; k++) pthread_join(tid[k], NULL);
            // The model, from what was there when the phase began and in the order of reports
            qsort(F, nf, sizeof(File), bykind);
            for (int k = 0; k < 3; k++) {
                int n = 0;
                for (int i = 0; i < nf; i++) if (F[i].kind == k && F[i].there) n++;
                if (n >= CAPACITY - 1) { exact[k] = 0; stat_add("over_capacity", 1); } else stat_add("within_capacity", 1);
                model(k, &exact[k]);
            }
            for (int i = 0; i < nf; i++) if (F[i].kind == 4) F[i].there = 0;
            double t = vp_now();
            char why[1500] = "";
            int s = 0;
            while ((s = settled(why, exact)) != 1 && vp_now() - t < 15) { struct timespec z = {0, 2000000}; nanosleep(&z, NULL); }
            // Some more rounds, in which nothing may happen
            long n0 = naps;
            while (naps - n0 < 250 && vp_now() - t < 30) { struct timespec z = {0, 2000000}; nanosleep(&z, NULL); }
            if (s == 1) s = settled(why, exact);
            if (s != 1) VIOL("files", "%s (%s, limits %ld %ld %ld; counted %zu %zu %zu, at %d of %d)", why, exact[0] && exact[1] && exact[2] ? "all listed" : "over capacity", limit_of[0], limit_of[1], limit_of[2], m->workers[0].usage, m->workers[1].usage, m->workers[2].usage, m->workers[1].index, m->workers[1].count);
            for (int i = 0; i < nf; i++) if (F[i].kind < 3) F[i].there = exists(F[i].path);
            // Nothing new, nothing else lost
            seen_n = 0;
            nftw(base, visit, 30, FTW_PHYS);
            // Folders that were emptied are gone, except the one of the last removal
            for (int i = 0; i < nf; i++) if (F[i].kind < 3 && !F[i].there && exact[F[i].kind] && s == 1) {
                char d[1300];
                snprintf(d, sizeof(d), "%s", F[i].path);
                *strrchr(d, '/') = 0;
                DIR *h = opendir(d);
                if (!h) continue;
                int n = 0;
                struct dirent *e;
                while ((e = readdir(h))) n++;
                closedir(h);
                if (n == 2 && F[i].day != last_removed_day[F[i].kind]) { VIOL("empty-folder", "%s is empty and still there (last removal on day %ld, this is %d)", d, last_removed_day[F[i].kind], F[i].day); break; }
            }
            stat_add("states_compared", 1);
            stat_add("files_checked", seen_n);
        }
        double t1 = vp_now();
        alarm(40);
        if (chance(0.5)) RKFileManagerStop(m);
        else if (hasty) RKFileManagerStop(m);
        alarm(0);
        if (vp_now() - t1 > 20) VIOL("stop", "stopping took %.1f s", vp_now() - t1);
        stopping = 1;
        if (hasty) for (int k = 0; k < 3 && adding; k++) pthread_join(tid[k], NULL);
        if (hasty) stat_add("stopped_while_reporting", 1);
        RKFileManagerFree(m);
        stopping = 0;
        // A new manager only knows the times in the names
        DISTINCTF("%d/%d/%d/%d/%d/%d", ninit, nadd, ph, exact[0] + 2 * exact[1] + 4 * exact[2], users, hasty);
        (void)t0; (void)everexact;
    }
    stat_add("files_made", nf);
    if (index < 2) sample("data folder '%.100s', %d files, limits %ld %ld %ld, %d phases", root + strlen(base), nf, limit_of[0], limit_of[1], limit_of[2], phases);
    clear_tree(base);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
