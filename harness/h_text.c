// The log, from several threads, and the texts that values, times and paths are shown as.
#include "vp.h"
#include <ctype.h>
#include <dirent.h>
static long long clock_us;         // the time of day that the code under test is given
static int clockStep;
int __real_gettimeofday(struct timeval *t, void *z);
static int fakeTime;
int __wrap_gettimeofday(struct timeval *t, void *z) {
    if (!fakeTime) return __real_gettimeofday(t, z);
    long long v = __atomic_add_fetch(&clock_us, clockStep, __ATOMIC_SEQ_CST);
    t->tv_sec = v / 1000000;
    t->tv_usec = v % 1000000;
    return 0;
}
// ---- the log --------------------------------------------------------------------------------------------------
#define MAXT 8
#define ROOF (RKMaximumStringLength - 16)
typedef struct { char *text; int cont, len, cut; long long before, after; int seen, day; } Rec;
typedef struct { int id, n; Rec *r; uint64_t s; int longs, color, timeOnly; } Logger;
static void random_words(char *b, int n) {
    static const char *words[] = {"radar", "pulse", "ok", "OK", "Error.", "Warning.", "information", "took", "100%", "ray", "=", "...", "<x>", "\xe2\x82\xac", "broken", "INFO", "a", "12,345"};
    int k = 0;
    while (k < n) {
        const char *w = words[ri(18)];
        int l = strlen(w);
        if (k + l + 1 > n) { memset(b + k, 'q', n - k); k = n; break; }
        memcpy(b + k, w, l); k += l;
        b[k++] = ' ';
    }
    b[n] = 0;
}
static void *log_thread(void *in) {
    Logger *L = in;
    for (int i = 0; i < L->n; i++) {
        Rec *r = &L->r[i];
        char *t = r->text;
        r->before = __atomic_load_n(&clock_us, __ATOMIC_SEQ_CST);
        // the text begins with > when it continues, then T<id>.<i>|
        switch (r->cut & 7) {
            case 0: RKLog("%s", t); break;
            case 1: RKLog("%s\n", t); break;
            case 2: RKLog("T%d.%d|%s\n", L->id, i, strchr(t, '|') + 1); break;
            case 3: RKLog(">T%d.%d|%s", L->id, i, strchr(t, '|') + 1); break;
            case 4: RKLog("T%d.%d| ok %s %d\n", L->id, i, strchr(t, '|') + 1, i); break;
            case 5: RKLog("T%d.%d|Error. %s%s", L->id, i, strchr(t, '|') + 1, ""); break;
            case 6: RKLog(t); break;          // no % in it
            case 7: RKLog("T%d.%d|%6.2f%%info %s%c", L->id, i, i * 0.25, strchr(t, '|') + 1, '!'); break;
        }
        r->after = __atomic_load_n(&clock_us, __ATOMIC_SEQ_CST);
    }
    return NULL;
}
static char *read_all(const char *f, size_t *n) {
    FILE *fid = fopen(f, "r");
    *n = 0;
    if (!fid) return NULL;
    fseek(fid, 0, SEEK_END);
    *n = ftell(fid);
    rewind(fid);
    char *b = malloc(*n + 1);
    if (fread(b, 1, *n, fid) != *n) *n = 0;
    b[*n] = 0;
    fclose(fid);
    return b;
}
static size_t strip_colors(char *b, size_t n) {
    size_t j = 0;
    for (size_t i = 0; i < n;) {
        if (b[i] == '\033' && b[i + 1] == '[') { while (i < n && b[i] != 'm') i++; i++; continue; }
        b[j++] = b[i++];
    }
    b[j] = 0;
    return j;
}
// What the record adds to the log after its stamp
static int expected(Logger *L, int i, char *out, size_t size) {
    Rec *r = &L->r[i];
    const char *body = strchr(r->text, '|') + 1;
    int k = 0, form = r->cut & 7, newline = 1;
    switch (form) {
        case 0: k = snprintf(out, size, "%s", r->text); break;
        case 1: k = snprintf(out, size, "%s\n", r->text); newline = 0; break;
        case 2: k = snprintf(out, size, "T%d.%d|%s\n", L->id, i, body); newline = 0; break;
        case 3: k = snprintf(out, size, "T%d.%d|%s", L->id, i, body); break;
        case 4: k = snprintf(out, size, "T%d.%d| ok %s %d\n", L->id, i, body, i); newline = 0; break;
        case 5: k = snprintf(out, size, "T%d.%d|Error. %s", L->id, i, body); break;
        case 6: k = snprintf(out, size, "%s", r->text); newline = r->text[strlen(r->text) - 1] != '\n'; break;
        case 7: k = snprintf(out, size, "T%d.%d|%6.2f%%info %s!", L->id, i, i * 0.25, body); break;
    }
    int stamp = L->timeOnly ? 13 : 20;
    if (stamp + k >= ROOF - 1) { k = ROOF - 1 - stamp; newline = 1; stat_add("cut", 1); }
    if (newline) out[k++] = '\n';
    out[k] = 0;
    return k;
}
static void check_log(const char *name, char *b, size_t n, Logger *L, int nt, int *next, int timeOnly, int daily, const char *what) {
    size_t p = 0;
    static __thread char want[RKMaximumStringLength + 64];
    const int stamp = timeOnly ? 13 : 20;
    while (p < n) {
        if (p + stamp >= n) { VIOL("whole", "%s ends with '%.40s', which is no record", what, b + p); return; }
        char *q = b + p + stamp;
        int t, i, used = 0;
        if (sscanf(q, "T%d.%d|%n", &t, &i, &used) != 2 || used == 0 || t < 0 || t >= nt || i < 0 || i >= L[t].n) { VIOL("whole", "%s has at %zu of %zu '%.60s', which is not how a record begins", what, p, n, b + p); return; }
        if (i != next[t]) { VIOL(i < next[t] ? "twice" : "order", "%s has message %d of thread %d where %d is next", what, i, t, next[t]); return; }
        next[t]++;
        Rec *r = &L[t].r[i];
        int k = expected(&L[t], i, want, sizeof(want));
        if (p + stamp + k > n || memcmp(q, want, k)) {
            int d = 0;
            while (d < k && q[d] == want[d]) d++;
            VIOL("text", "%s: message %d of thread %d differs at %d of %d: '%.30s' for '%.30s'", what, i, t, d, k, q + d, want + d);
            return;
        }
        // the stamp
        int cont = (r->cut & 7) == 3;
        char s[40], blanks[40];
        snprintf(s, sizeof(s), "%.*s", stamp, b + p);
        memset(blanks, ' ', sizeof(blanks)); blanks[stamp] = 0;
        if (cont) { if (strcmp(s, blanks)) VIOL("stamp", "the continued message has '%s' before it", s); }
        else {
            int found = 0;
            if (!timeOnly) {
                for (long long v = r->before / 1000000; v <= (r->after) / 1000000 && !found; v++) {
                    struct tm tm; time_t tt = v; char e[40];
                    gmtime_r(&tt, &tm);
                    strftime(e, sizeof(e), "%Y/%m/%d %H:%M:%S ", &tm);
                    found = !strcmp(e, s);
                }
            } else {
                int h, m, se, ms;
                if (sscanf(s, "%2d:%2d:%2d.%3d ", &h, &m, &se, &ms) == 4 && s[12] == ' ') {
                    long long v = ((h * 60LL + m) * 60 + se) * 1000 + ms, a = (r->before / 1000) % 86400000, z = (r->after / 1000) % 86400000;
                    found = a <= z ? v >= a && v <= z : v >= a || v <= z;
                }
            }
            if (!found) VIOL("stamp", "a message made between %lld and %lld us has '%s'", r->before, r->after, s);
            if (daily) {
                int ok = 0;
                for (long long v = r->before / 86400000000LL; v <= r->after / 86400000000LL; v++) {
                    struct tm tm; time_t tt = v * 86400; char e[40];
                    gmtime_r(&tt, &tm);
                    strftime(e, sizeof(e), "-%Y%m%d.log", &tm);
                    ok |= strstr(name, e) != NULL;
                }
                if (!ok) VIOL("day", "a message made between %lld and %lld us is in %s", r->before, r->after, name);
            }
        }
        r->seen++;
        stat_add("records", 1);
        p += stamp + k;
    }
}
static int cmpname(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static int serial;
static void case_log(void) {
    char base[600], folder[900], file[1200];
    snprintf(base, sizeof(base), "%s/l%d", vp_scratch[0] ? vp_scratch : "/tmp", serial++);
    mkdir(base, 0755);
    int nt = chance(0.3) ? 1 : rr(2, 6), daily = chance(0.5), timeOnly, color = chance(0.2), where = ri(3), screen = chance(0.4);
    // the file
    memset(&rkGlobalParameters.logFolder, 0, sizeof(rkGlobalParameters.logFolder));
    rkGlobalParameters.logfile[0] = 0;
    rkGlobalParameters.dailyLog = false;
    rkGlobalParameters.logTimeOnly = false;
    rkGlobalParameters.stream = NULL;
    // no place to log to: nothing is done
    int depth = rr(0, 3), k = snprintf(folder, sizeof(folder), "%s", base);
    for (int d = 0; d < depth; d++) k += snprintf(folder + k, sizeof(folder) - k, "/%.*s", rr(1, 60), "folder_of_a_name_that_is_rather_long_for_what_it_is_0123456789");
    char *prog = chance(0.5) ? "radar" : "another-program";
    RKSetProgramName(prog);
    if (where == 2 && strlen(folder) > 250) where = 0;
    fakeTime = 1;
    clockStep = chance(0.3) ? 1 : rr(1, 3000000);
    clock_us = (1500000000LL + ri(300000000)) * 1000000LL + ri(1000000);
    if (chance(0.4)) clock_us = (clock_us / 86400000000LL + 1) * 86400000000LL - (long long)clockStep * rr(1, 200);
    if (daily) {
        RKSetUseDailyLog(true);
        if (chance(0.3)) RKSetLogfile("not-this.log");
        if (where == 2) snprintf(rkGlobalParameters.logFolder, sizeof(rkGlobalParameters.logFolder), "%s", folder);
        else {
            if (strlen(folder) > 250) folder[strlen(base)] = 0;
            char slashed[1000];
            snprintf(slashed, sizeof(slashed), "%s%s", folder, chance(0.4) ? "/" : chance(0.3) ? "///" : "");
            RKSetRootDataFolder(slashed);
            if (strcmp(rkGlobalParameters.rootDataFolder, folder)) VIOL("root", "the root data folder '%s' became '%s'", slashed, rkGlobalParameters.rootDataFolder);
        }
    } else {
        if (strlen(folder) > 250) folder[strlen(base)] = 0;
        RKSetRootDataFolder(folder);
        if (where == 0) { RKSetLogfileToDefault(); snprintf(file, sizeof(file), "%s/messages.log", folder); }
        else if (where == 1) { snprintf(file, sizeof(file), "%s/some.log", folder); RKSetLogfile(file); }
        else {
            snprintf(rkGlobalParameters.logFolder, sizeof(rkGlobalParameters.logFolder), "%s", folder);
            RKSetLogfile("other.log");
            snprintf(file, sizeof(file), "%s/other.log", folder);
        }
    }
    timeOnly = rkGlobalParameters.logTimeOnly;
    if (chance(0.1)) {
        char before[300], big[1000];
        snprintf(before, sizeof(before), "%s", rkGlobalParameters.rootDataFolder);
        int n = rr(256, 999);
        memset(big, 'b', n); big[n] = 0;
        int fd = dup(2), nul = open("/dev/null", O_WRONLY);
        fflush(stderr); dup2(nul, 2);
        if (RKSetRootDataFolder(big) == RKResultSuccess || strcmp(before, rkGlobalParameters.rootDataFolder)) VIOL("root", "a root data folder of %d letters was taken", n);
        fflush(stderr); dup2(fd, 2); close(fd); close(nul);
    }
    if (chance(0.1)) {
        char before[300];
        snprintf(before, sizeof(before), "%s", rkGlobalParameters.rootDataFolder);
        RKSetRootDataFolder("");
        if (rkGlobalParameters.rootDataFolder[0]) VIOL("root", "an empty root data folder became '%s'", rkGlobalParameters.rootDataFolder);
        RKSetRootDataFolder(before);
    }
    char *mem = NULL;
    size_t memSize = 0;
    FILE *stream = NULL;
    if (screen) { stream = open_memstream(&mem, &memSize); rkGlobalParameters.stream = stream; }
    RKSetWantColor(color);
    Logger L[MAXT];
    pthread_t tid[MAXT];
    int total = 0, next[MAXT] = {0};
    for (int t = 0; t < nt; t++) {
        L[t].id = t; L[t].n = rr(1, nt == 1 ? 60 : 40); L[t].timeOnly = timeOnly;
        L[t].r = calloc(L[t].n, sizeof(Rec));
        for (int i = 0; i < L[t].n; i++) {
            Rec *r = &L[t].r[i];
            r->cut = ri(8);
            int n = color ? rr(0, 300) : chance(0.04) ? rr(ROOF - 60, ROOF + 40) : chance(0.03) ? rr(ROOF, 9000) : chance(0.2) ? rr(0, 1500) : rr(0, 100);
            if ((r->cut & 7) == 6) n = MIN(n, 3700);
            r->text = malloc(n + 40);
            int a = sprintf(r->text, "T%d.%d|", t, i);
            random_words(r->text + a, n);
            if ((r->cut & 7) == 6) { for (char *c = r->text; *c; c++) if (*c == '%') *c = '*'; if (chance(0.5)) strcat(r->text, "\n"); }
            if (color) for (char *c = r->text; *c; c++) if (*c == '\033') *c = '_';
        }
        total += L[t].n;
    }
    for (int t = 1; t < nt; t++) pthread_create(&tid[t], NULL, log_thread, &L[t]);
    log_thread(&L[0]);
    for (int t = 1; t < nt; t++) pthread_join(tid[t], NULL);
    // too long a format is refused and nothing of it is logged
    if (chance(0.2)) {
        char *big = malloc(8000);
        memset(big, 'z', 7999); big[rr(RKMaximumStringLength - 255, 7999)] = 0;
        int fd = dup(2), nul = open("/dev/null", O_WRONLY);
        fflush(stderr); dup2(nul, 2);
        if (RKLog(big) == 0) VIOL("long", "a format of %zu was not refused", strlen(big));
        fflush(stderr); dup2(fd, 2); close(fd); close(nul);
        free(big);
    }
    rkGlobalParameters.stream = NULL;
    fakeTime = 0;
    RKSetWantColor(false);
    // what is there
    if (stream) {
        fclose(stream);
        if (color) memSize = strip_colors(mem, memSize);
        check_log("screen", mem, memSize, L, nt, next, timeOnly, 0, "the screen");
        for (int t = 0; t < nt; t++) if (next[t] != L[t].n && !vp_viol) VIOL("lost", "the screen has %d of %d messages of thread %d", next[t], L[t].n, t);
        memset(next, 0, sizeof(next));
        free(mem);
        stat_add("screens", 1);
    }
    char *names[40];
    int nf = 0;
    if (daily) {
        char dir[1200];
        if (where == 2) snprintf(dir, sizeof(dir), "%s", folder); else snprintf(dir, sizeof(dir), "%s/log", folder);
        DIR *d = opendir(dir);
        struct dirent *e;
        while (d && (e = readdir(d)) && nf < 40) {
            if (e->d_name[0] == '.') continue;
            char full[1600];
            snprintf(full, sizeof(full), "%s/%s", dir, e->d_name);
            char start[80];
            snprintf(start, sizeof(start), "%s-", prog);
            struct stat st;
            if (stat(full, &st) == 0 && S_ISDIR(st.st_mode)) continue;
            if (strncmp(e->d_name, start, strlen(start)) || strlen(e->d_name) != strlen(start) + 12) { VIOL("file", "a log is called %s", e->d_name); continue; }
            names[nf++] = strdup(full);
        }
        if (d) closedir(d); else VIOL("file", "there is no log in %s", dir);
        qsort(names, nf, sizeof(char *), cmpname);
        if (nf > 1) stat_add("over_midnight", 1);
    } else names[nf++] = strdup(file);
    int v0 = vp_viol;
    for (int i = 0; i < nf && vp_viol == v0; i++) {
        size_t n;
        char *b = read_all(names[i], &n);
        if (!b) { VIOL("file", "there is no log %s", names[i]); break; }
        if (color) n = strip_colors(b, n);
        // with several threads over midnight each file has its own part of each thread
        check_log(names[i], b, n, L, nt, next, timeOnly, daily, RKLastPartOfPath(names[i]));
        free(b);
        stat_add("logs", 1);
    }
    for (int t = 0; t < nt && vp_viol == v0; t++) if (next[t] != L[t].n) VIOL("lost", "the log has %d of %d messages of thread %d", next[t], L[t].n, t);
    for (int i = 0; i < nf; i++) { unlink(names[i]); free(names[i]); }
    for (int t = 0; t < nt; t++) { for (int i = 0; i < L[t].n; i++) free(L[t].r[i].text); free(L[t].r); }
    if (nt > 1) stat_add("together", 1);
    DISTINCTF("log %d %d %d %d %d %zu %d", nt, daily, where, color, screen, strlen(folder) - strlen(base), total);
    sample("%d messages by %d threads, %s, %s%s%s", total, nt, daily ? "one file per day" : "one file", where == 0 ? "default" : where == 1 ? "named" : "log folder", color ? ", colors" : "", screen ? ", screen" : "");
    rkGlobalParameters.logfile[0] = 0;
    rkGlobalParameters.dailyLog = false;
    rkGlobalParameters.logTimeOnly = false;
    char cmd[1000];
    snprintf(cmd, sizeof(cmd), "rm -rf '%s'", base);
    if (strstr(base, "/l") && vp_scratch[0] && system(cmd)) {}
}
// ---- values ---------------------------------------------------------------------------------------------------
static void group(char *out, const char *digits, const char *tail, int neg) {
    int n = strlen(digits), k = 0;
    if (neg) out[k++] = '-';
    for (int i = 0; i < n; i++) { out[k++] = digits[i]; if ((n - i - 1) % 3 == 0 && i != n - 1) out[k++] = ','; }
    strcpy(out + k, tail);
}
static uint64_t wild(void) { uint64_t v = r64() >> ri(64); return chance(0.2) ? (1ull << ri(64)) - ri(2) : chance(0.2) ? (uint64_t)pow(10, ri(20)) - ri(2) : v; }
static void want_u(char *o, unsigned long long v) { char d[40]; snprintf(d, sizeof(d), "%llu", v); group(o, d, "", 0); }
static void want_i(char *o, long long v) { char d[40]; snprintf(d, sizeof(d), "%lld", v); group(o, d[0] == '-' ? d + 1 : d, "", v < 0); }
static void want_f(char *o, double v) {
    char d[400];
    if (!(fabs(v) < 1.0e18)) { snprintf(o, 80, "%.3e", v); return; }
    snprintf(d, sizeof(d), "%.3f", v);
    int neg = d[0] == '-';
    char *dot = strchr(d, '.'), tail[10];
    snprintf(tail, sizeof(tail), "%s", dot);
    *dot = 0;
    group(o, d + neg, tail, neg);
}
static void want_t(char *o, struct timeval t, int f) {
    struct tm tm;
    localtime_r(&t.tv_sec, &tm);
    static const struct { int from; const char *form; } forms[] = {{1080, "%Y/%m/%d %H:%M:%S"}, {860, "%Y%m%d-%H%M%S"}, {800, "%Y%m%d"}, {80, "%H:%M:%S"}, {60, "%H%M%S"}};
    int n = 0;
    const char *form = "%Y%m%d-%H%M%S";
    for (int i = 0; i < 5; i++) if (f >= forms[i].from) { form = forms[i].form; n = f - forms[i].from; break; }
    if (n > 6) n = 6;
    int k = strftime(o, 64, form, &tm);
    if (n > 0) { char us[16]; snprintf(us, sizeof(us), ".%06d", (int)t.tv_usec); us[1 + n] = 0; strcpy(o + k, us); }
}
#define SAME(what, got, want) do { stat_add("values", 1); if (strcmp(got, want)) { VIOL("value", "%s is shown as '%.80s', for '%.80s'", what, got, want); return 1; } } while (0)
// Each text is looked at as the callers do: right away
static int one_value(uint64_t *s) {
    uint64_t saved = vp_s;
    (void)saved;
    char w[500], show[80];
    uint64_t kind = vp_mix(s) % 6, v = vp_mix(s) >> (vp_mix(s) % 64);
    double x = (double)(int64_t)vp_mix(s) * pow(10.0, -(double)(vp_mix(s) % 22));
    if (v == 0xFEEDFACECAFEBEEFull || (double)v == (double)0xFEEDFACECAFEBEEFull) v = 1;
    switch (kind) {
        case 0: want_u(w, v); snprintf(show, sizeof(show), "%llu", (unsigned long long)v); SAME(show, RKUIntegerToCommaStyleString(v), w); break;
        case 1: if (vp_mix(s) & 1) v = -v; if (v == 0xFEEDFACECAFEBEEFull) v = 1; want_i(w, (long long)v); snprintf(show, sizeof(show), "%lld", (long long)v); SAME(show, RKIntegerToCommaStyleString((long long)v), w); break;
        case 2: snprintf(w, sizeof(w), "0x%04llx", (unsigned long long)v); snprintf(show, sizeof(show), "%llu in hex", (unsigned long long)v); SAME(show, RKIntegerToHexStyleString((long long)v), w); break;
        case 3: want_f(w, x); snprintf(show, sizeof(show), "%.9g", x); SAME(show, RKFloatToCommaStyleString(x), w); break;
        case 4: {
            struct timeval t = {(time_t)(vp_mix(s) % 4000000000ull), (suseconds_t)(vp_mix(s) % 1000000)};
            static const int from[] = {0, 60, 80, 800, 860, 1080};
            int f = from[vp_mix(s) % 6] + (int)(vp_mix(s) % 8);
            if (t.tv_sec == 0xFEEDFACE) t.tv_sec = 0;
            want_t(w, t, f);
            snprintf(show, sizeof(show), "%ld.%06ld as %d", (long)t.tv_sec, (long)t.tv_usec, f);
            SAME(show, RKTimevalToString(t, f), w);
            break;
        }
        case 5: {
            char name[300];
            int n = vp_mix(s) % 12 == 0 ? (int)(vp_mix(s) % 290) : (int)(vp_mix(s) % 30);
            memset(name, 'n', n); name[n] = 0;
            char r[600];
            union { int i; long l; int8_t c; int16_t h; uint8_t uc; uint16_t uh; uint32_t ui; uint64_t ul; float f; double d; bool b; } u;
            void *p = malloc(8);           // no more than the type has
            int k = vp_mix(s) % 22;
            u.ul = vp_mix(s) >> (vp_mix(s) % 64);
            if (k == 18) u.f = (float)x;
            if (k == 19 || k == 20 || k == 21) u.d = x;
            RKValueType type = RKValueTypeNull;
            size_t size = 8;
            switch (k) {
                case 0: type = RKValueTypeInt; want_i(w, u.i); size = 4; break;
                case 1: type = RKValueTypeLong; want_i(w, u.l); break;
                case 2: type = RKValueTypeInt8; want_i(w, u.c); size = 1; break;
                case 3: type = RKValueTypeInt16; want_i(w, u.h); size = 2; break;
                case 4: type = RKValueTypeInt32; want_i(w, u.i); size = 4; break;
                case 5: type = RKValueTypeInt64; want_i(w, u.l); break;
                case 6: type = RKValueTypeUInt8; want_u(w, u.uc); size = 1; break;
                case 7: type = RKValueTypeUInt16; want_u(w, u.uh); size = 2; break;
                case 8: type = RKValueTypeUInt32; want_u(w, u.ui); size = 4; break;
                case 9: type = RKValueTypeUInt64; want_u(w, u.ul); break;
                case 10: type = RKValueTypeSize; want_u(w, u.ul); break;
                case 11: type = RKValueTypeUInt; want_u(w, u.ui); size = 4; break;
                case 12: type = RKValueTypeUInt8InHex; snprintf(w, sizeof(w), "0x%04llx", (unsigned long long)u.uc); size = 1; break;
                case 13: type = RKValueTypeUInt16InHex; snprintf(w, sizeof(w), "0x%04llx", (unsigned long long)u.uh); size = 2; break;
                case 14: type = RKValueTypeUInt32InHex; snprintf(w, sizeof(w), "0x%04llx", (unsigned long long)u.ui); size = 4; break;
                case 15: type = RKValueTypeUInt64InHex; snprintf(w, sizeof(w), "0x%04llx", (unsigned long long)u.ul); break;
                case 16: type = RKValueTypeBool; u.ul &= 1; snprintf(w, sizeof(w), "%s", u.b ? "True" : "False"); size = 1; break;
                case 17: type = RKValueTypeNull; snprintf(w, sizeof(w), "Null"); break;
                case 18: type = RKValueTypeFloat; want_f(w, u.f); size = 4; break;
                case 19: type = RKValueTypeDouble; want_f(w, u.d); break;
                case 20: type = RKValueTYpeDoubleDividedBy1M; want_f(w, 1.0e-6 * u.d); break;
                default: type = RKValueTYpeDoubleMultipliedBy1k; want_f(w, 1.0e3 * u.d); break;
            }
            free(p);
            p = malloc(size);
            memcpy(p, &u, size);
            snprintf(r, sizeof(r), "%s = %s", name, w);
            r[RKNameLength - 1] = 0;
            char got[RKNameLength];
            snprintf(got, sizeof(got), "%s", RKVariableInString(name, p, type));
            free(p);
            snprintf(show, sizeof(show), "a variable of type %d", k);
            SAME(show, got, r);
            break;
        }
    }
    return 0;
}
// The texts are in rings that hold a few: all threads are through with one before they ask for the next
static pthread_barrier_t turn;
static void *value_thread(void *in) {
    uint64_t s = *(uint64_t *)in;
    int bad = 0;
    for (int i = 0; i < 400; i++) {
        if (!bad) bad = one_value(&s);
        pthread_barrier_wait(&turn);
    }
    return NULL;
}
static void case_values(void) {
    static const char *zones[] = {"UTC", "CST6CDT", "Asia/Tokyo", "XXX-5:30"};
    setenv("TZ", zones[ri(4)], 1);
    tzset();
    uint64_t seeds[5];
    pthread_t tid[5];
    int n = chance(0.5) ? 1 : rr(2, 5);
    for (int i = 0; i < n; i++) seeds[i] = r64();
    pthread_barrier_init(&turn, NULL, n);
    for (int i = 1; i < n; i++) pthread_create(&tid[i], NULL, value_thread, &seeds[i]);
    value_thread(&seeds[0]);
    for (int i = 1; i < n; i++) pthread_join(tid[i], NULL);
    pthread_barrier_destroy(&turn);
    if (n > 1) stat_add("values_together", 1);
    DISTINCTF("v %llu", (unsigned long long)seeds[0]);
}
// ---- paths, streams, words ------------------------------------------------------------------------------------
static void random_path(char *b, int n) { int k = 0, m = rr(1, n); while (k < m) b[k++] = "ab/.-_/c Z"[ri(10)]; b[k] = 0; }
static void case_paths(void) {
    char p[1200], w[1200], *got, *q;
    for (int round = 0; round < 40; round++) {
        random_path(p, chance(0.1) ? 900 : 40);
        char *x = strdup(p);        // exactly as long as it is
        // parts
        int n = rr(1, 4), slashes = 0;
        char *c = x + strlen(x);
        while (c > x && slashes < n) if (*--c == '/') slashes++;
        if (slashes == n) c++;
        got = RKLastNPartsOfPath(x, n);
        if (got != c) VIOL("parts", "the last %d parts of '%.80s' are '%.80s'", n, x, got);
        if (n == 2 && RKLastTwoPartsOfPath(x) != c) VIOL("parts", "the last two parts of '%.80s'", x);
        got = RKLastPartOfPath(x);
        q = strrchr(x, '/');
        if (got != (q ? q + 1 : x)) VIOL("parts", "the last part of '%.80s' is '%.80s'", x, got);
        snprintf(w, sizeof(w), "%s", x);
        q = strrchr(w, '/');
        if (!q) strcpy(w, "."); else if (q == w) strcpy(w, "/"); else *q = 0;
        got = RKFolderOfFilename(x);
        if (strcmp(got, w)) VIOL("folder", "the folder of '%.80s' is '%.80s'", x, got);
        q = strrchr(x, '.');
        snprintf(w, 16, "%s", q ? q : "");
        if (strcmp(RKFileExtension(x), w)) VIOL("extension", "the extension of '%.80s' is '%.20s'", x, RKFileExtension(x));
        // a tilde is the home
        setenv("HOME", chance(0.5) ? "/home/user" : "/home/user/", 1);
        char tilde[1200];
        snprintf(tilde, sizeof(tilde), "%s%s%s", chance(0.3) ? "  " : "", chance(0.6) ? "~/" : chance(0.3) ? "~" : "", chance(0.1) ? "" : x);
        if (!strncmp(tilde + strspn(tilde, " "), "~", 1) && tilde[strspn(tilde, " ") + 1] != '/' && tilde[strspn(tilde, " ") + 1] != 0) { free(x); continue; }
        q = tilde + strspn(tilde, " ");
        if (*q == '~') snprintf(w, 1024, "/home/user/%s", q[1] ? q + 2 : ""); else snprintf(w, 1024, "%s", q);
        char *t = strdup(tilde);
        if (strcmp(RKPathStringByExpandingTilde(t), w)) VIOL("tilde", "'%.80s' expands to '%.80s'", t, RKPathStringByExpandingTilde(t));
        free(t);
        free(x);
        stat_add("paths", 1);
    }
    // the folders of a file are made, whatever is there of them
    char base[500], f[900];
    snprintf(base, sizeof(base), "%s/p%d", vp_scratch[0] ? vp_scratch : "/tmp", serial++);
    int k = snprintf(f, sizeof(f), "%s", base), depth = rr(0, 6);
    for (int i = 0; i < depth; i++) k += snprintf(f + k, sizeof(f) - k, "/%s%d", chance(0.2) ? "d d" : "d", (int)ri(3));
    snprintf(f + k, sizeof(f) - k, "/file.x");
    char *y = strdup(f);
    RKPreparePath(y);
    if (strcmp(y, f)) VIOL("prepare", "the filename was changed");
    FILE *fid = fopen(f, "w");
    if (!fid) VIOL("prepare", "no file can be made at %s", f); else fclose(fid);
    RKPreparePath(y);
    struct stat st;
    if (stat(f, &st) || !S_ISREG(st.st_mode)) VIOL("prepare", "%s is no longer a file", f);
    if (!RKFilenameExists(f)) VIOL("exists", "%s exists", f);
    strcat(f, "y");
    if (RKFilenameExists(f)) VIOL("exists", "%s does not exist", f);
    free(y);
    char cmd[700];
    snprintf(cmd, sizeof(cmd), "rm -rf '%s'", base);
    if (vp_scratch[0] && system(cmd)) {}
    DISTINCTF("p %s", p);
}
static void case_streams(void) {
    // A stream description and the stream it names
    static const struct { char c; RKStream s; int ex; } L[] = {
        {'0', RKStreamStatusPositions, 1}, {'1', RKStreamStatusPulses, 1}, {'2', RKStreamStatusRays, 1}, {'3', RKStreamStatusIngest, 1}, {'4', RKStreamStatusEngines, 1},
        {'5', RKStreamStatusBuffers, 1}, {'6', RKStreamASCIIArtZ, 1}, {'7', RKStreamASCIIArtHealth, 1}, {'8', RKStreamASCIIArtVCP, 1},
        {'!', RKStreamStatusProcessorStatus, 0}, {'h', RKStreamHealthInJSON, 0}, {'z', RKStreamDisplayZ, 0}, {'Z', RKStreamProductZ, 0}, {'v', RKStreamDisplayV, 0}, {'V', RKStreamProductV, 0},
        {'w', RKStreamDisplayW, 0}, {'W', RKStreamProductW, 0}, {'d', RKStreamDisplayD, 0}, {'D', RKStreamProductD, 0}, {'p', RKStreamDisplayP, 0}, {'P', RKStreamProductP, 0},
        {'r', RKStreamDisplayR, 0}, {'R', RKStreamProductR, 0}, {'k', RKStreamDisplayK, 0}, {'K', RKStreamProductK, 0}, {'s', RKStreamDisplaySh, 0}, {'S', RKStreamProductSh, 0},
        {'t', RKStreamDisplaySv, 0}, {'T', RKStreamProductSv, 0}, {'i', RKStreamDisplayIQ, 0}, {'I', RKStreamProductIQ, 0}, {'Y', RKStreamSweepZ, 0}, {'U', RKStreamSweepV, 0},
        {'X', RKStreamSweepW, 0}, {'C', RKStreamSweepD, 0}, {'O', RKStreamSweepP, 0}, {'Q', RKStreamSweepR, 0}, {'J', RKStreamSweepK, 0}, {'H', RKStreamSweepQ, 0}, {'A', RKStreamSweepSh, 0}, {'B', RKStreamSweepSv, 0}};
    const int nl = sizeof(L) / sizeof(L[0]);
    for (int round = 0; round < 30; round++) {
        char text[200], back[200];
        int n = rr(0, 60);
        RKStream want = RKStreamNull;
        for (int i = 0; i < n; i++) {
            if (chance(0.1)) { text[i] = " ,-?9gnm\t\x80"[ri(10)]; continue; }
            int k = ri(nl);
            text[i] = L[k].c;
            if (L[k].ex) want = (want & ~(RKStream)RKStreamStatusMask) | L[k].s; else want |= L[k].s;
        }
        text[n] = 0;
        char *t = strdup(text);
        RKStream s = RKStreamFromString(t);
        free(t);
        if (s != want) { VIOL("stream", "'%s' is the stream 0x%llx, 0x%llx expected", text, (unsigned long long)s, (unsigned long long)want); return; }
        memset(back, '~', sizeof(back));
        int k = RKStringFromStream(back, s);
        if (k != (int)strlen(back) || k > nl) VIOL("stream", "the text of the stream of '%s' has %zu letters, %d said", text, strlen(back), k);
        if (RKStreamFromString(back) != s) VIOL("stream", "'%s' was read, '%s' is the text of it", text, back);
        if (strcmp(RKStringOfStream(s), back)) VIOL("stream", "two texts for one stream");
        // the text names each once
        for (int i = 0; i < k; i++) if (strchr(back + i + 1, back[i])) VIOL("stream", "'%s' names %c twice", back, back[i]);
        stat_add("streams", 1);
    }
    // angles
    for (int i = 0; i < 200; i++) {
        float a = (float)rf(-180, 540), b = (float)rf(fmax(a - 359.9, -180), fmin(a + 359.9, 540));
        double d = fmod((double)a - b, 360.0);
        if (d < -180) d += 360; if (d >= 180) d -= 360;
        float g = RKMinDiff(a, b);
        if (fabs(remainder(g - d, 360.0)) > 1e-3 || g < -180.0f || g > 180.0f) { VIOL("angle", "from %.3f to %.3f there are %.3f, %.3f found", b, a, d, g); break; }
        if (fabs(RKUMinDiff(a, b) - fabs(g)) > 1e-5) { VIOL("angle", "the unsigned difference of %.3f and %.3f is %.3f", a, b, RKUMinDiff(a, b)); break; }
        float m = RKModulo360Diff(a, b);
        if (m < 0 || m >= 360.01f || fabs(remainder(m - d, 360.0)) > 1e-3) { VIOL("angle", "%.3f - %.3f modulo 360 is %.3f", a, b, m); break; }
    }
    DISTINCTF("s %llu", (unsigned long long)vp_s);
}
static void vp_case(uint64_t index) {
    if (!strcmp(vp_mode, "log")) { case_log(); return; }
    switch (index % 3) { case 0: case_values(); break; case 1: case_paths(); break; case 2: case_streams(); break; }
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
