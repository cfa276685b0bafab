// Health: every consolidated health holds the newest report of each active node, marked old when the node is silent, and each is logged once.
#include "vp.h"
#include <sys/time.h>
#include <dirent.h>
#include <strings.h>
#define SCALE 20.0
#define NODES RKHealthNodeCount
#define MAXPUB 2000
#define MAXKEY 400
#define MAXFILE 200
// ---- clock that runs fast, with jumps ----------------------------------------------------------------------------
static double t_start;
static volatile double t_jump;
static volatile uint64_t naps;                            // naps of the collector, its own unit of waiting
static volatile pthread_t collector;
static volatile int collecting;
static void on_collector(void);
static double vtime(void) { return 1700000000.0 + (vp_now() - t_start) * SCALE + t_jump; }
int __wrap_gettimeofday(struct timeval *t, void *z) {
    if (collecting && pthread_equal(pthread_self(), collector)) on_collector();
    double x = vtime();
    t->tv_sec = (long)x; t->tv_usec = (long)((x - floor(x)) * 1e6);
    return 0;
}
static void vsleep(double s) { double r = s / SCALE; struct timespec t = {(long)r, (long)((r - (long)r) * 1e9)}; nanosleep(&t, NULL); }
int __wrap_usleep(useconds_t us) {
    if (collecting && pthread_equal(pthread_self(), collector) && us >= 100000) __sync_fetch_and_add(&naps, 1);
    vsleep(us * 1e-6);
    return 0;
}
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x);
static RKHealthEngine *eng;
static RKHealthLogger *logger;
typedef struct { void *(*f)(void *); void *x; } Start;
static void *start_thread(void *p) {
    Start s = *(Start *)p;
    free(p);
    if (s.x == eng) { collector = pthread_self(); __sync_synchronize(); collecting = 1; }
    return s.f(s.x);
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    Start *s = malloc(sizeof(*s));
    s->f = f; s->x = x;
    return __real_pthread_create(t, a, start_thread, s);
}
int __wrap_RKLog(const char *f, ...) {
    char b[20000];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b, sizeof(b), f, a);
    va_end(a);
    return n;
}
static char added[MAXFILE][RKMaximumPathLength];
static volatile int nadded;
int __wrap_RKFileManagerAddFile(RKFileManager *e, const char *name, RKFileType type) {
    if (nadded < MAXFILE) snprintf(added[nadded++], RKMaximumPathLength, "%s", name);
    if (type != RKFileTypeHealth) VIOL("type", "%s was reported with type %d", name, type);
    return 0;
}
// ---- reports: a function of (case, node, number) -----------------------------------------------------------------
typedef struct { char key[200]; char *val; } KV;
typedef struct { int n; KV kv[MAXKEY]; char *text; } Obj;
static uint64_t case_key;
static int node_big[NODES], gps_node, gps_kind;
static double gps_heading0, gps_lat0, gps_lon0;
static int no_room;
// how the values appear in the consolidated health
enum { AS_SENT, AS_SHOWN, AS_OLD };
static __thread uint64_t hs;
static uint32_t hi(uint32_t n) { return (uint32_t)(vp_mix(&hs) % n); }
static int ap(char *b, int k, int cap, const char *f, ...) {
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b + k, cap - k, f, a);
    va_end(a);
    return k + n < cap ? k + n : cap - 1;
}
static void gps_of(int seq, double *h, double *la, double *lo, int *en) {
    uint64_t s = case_key * 31 + seq;
    uint64_t r = vp_mix(&s);
    int drift = seq / (8 + case_key % 20);                                  // moves to another place every 12 reports
    *h = fmod(gps_heading0 + (gps_kind & 1 ? drift * 3.0 : 0) + (r % 100) * 0.004 + (r >> 20) % 16 / 15 * 5.0, 360.0);
    *la = gps_lat0 + (gps_kind & 2 ? drift * 0.01 : 0) + (r >> 8) % 100 * 1e-7;
    *lo = gps_lon0 + (gps_kind & 2 ? drift * 0.01 : 0);
    *en = (gps_kind & 4) && (r >> 16) % 8 == 0 ? 2 : (gps_kind & 8) && (seq / 15) % 2 ? -1 : 0;
}
// Writes the report as the node sends it
static int make_report(char *b, int node, int seq) {
    const int cap = RKMaximumStringLength;
    hs = case_key * 1000003 + node * 7919 + seq;
    int k = 0, n = node_big[node] ? 20 + (int)hi(50) : 1 + (int)hi(8), sp = hi(3);
    const char *sep = sp == 0 ? ", " : sp == 1 ? "," : ",  ";
    const char *col = sp == 1 ? ": " : ":";
    k = ap(b, k, cap, "{\"N%d Seq\"%s{\"Value\"%s%d,%s\"Enum\"%s%d}", node, col, col, seq, sp == 2 ? " " : "", col, (int)hi(7) - 2);
    if (node == gps_node && gps_kind >= 0) {
        double h, la, lo; int en;
        gps_of(seq, &h, &la, &lo, &en);
        k = ap(b, k, cap, "%s\"GPS Heading\"%s{\"Value\"%s\"%.2f deg\",\"Enum\"%s%d}", sep, col, col, h, col, en);
        k = ap(b, k, cap, "%s\"GPS Latitude\"%s{\"Value\"%s\"%.7f\",\"Enum\"%s%d}", sep, col, col, la, col, en);
        if (sp) k = ap(b, k, cap, "%s\"GPS Longitude\"%s{\"Value\"%s%.7f,\"Enum\"%s%d}", sep, col, col, lo, col, en);
        else k = ap(b, k, cap, "%s\"GPS Longitude\"%s{\"Value\"%s\"%.7f\",\"Enum\"%s%d}", sep, col, col, lo, col, en);
    }
    for (int i = 0; i < n && k < cap - 160; i++) {
        int e = (int)hi(8) - 3, kind = hi(7);
        if (hi(20) == 0) e = 10 + hi(90);
        k = ap(b, k, cap, "%s\"N%d K%d%s\"%s", sep, node, i, i % 3 == 0 ? "" : " - Unit @ 5%", col);
        if (kind == 0) k = ap(b, k, cap, "{\"Value\"%s\"%s\",\"Enum\"%s%d}", col, hi(2) ? "True" : "FALSE", col, e);
        else if (kind == 1) k = ap(b, k, cap, "{\"Value\"%s%s,\"Enum\"%s%d}", col, hi(2) ? "true" : "false", col, e);
        else if (kind == 2) k = ap(b, k, cap, "{\"Value\"%s%.3f,\"Enum\"%s%d}", col, (int)hi(100000) / 1000.0 - 50, col, e);
        else if (kind == 3) k = ap(b, k, cap, "[%.3f,%d,%.1e]", (int)hi(1000) / 10.0, (int)hi(9) - 4, (double)hi(1000));
        else if (kind == 4) k = ap(b, k, cap, "%d", (int)hi(100000) - 50000);
        else {
            char v[100]; int m = hi(40);
            for (int j = 0; j < m; j++) v[j] = " abcdefghijklmnopqrstuvwxyz%/.-+()0123456789"[hi(45)];
            v[m] = 0;
            k = ap(b, k, cap, "{\"Value\"%s\"%s\",\"Enum\"%s%d}", col, v, col, e);
        }
    }
    k = ap(b, k, cap, "}");
    int tail = hi(4);
    for (int i = 0; i < tail; i++) k = ap(b, k, cap, "%s", i & 1 ? "\n" : " ");
    return k;
}
// ---- a strict reader of JSON -------------------------------------------------------------------------------------
static const char *js_ws(const char *p) { while (*p == ' ' || *p == '\t' || *p == '\r' || *p == '\n') p++; return p; }
static const char *js_val(const char *p, int depth);
static const char *js_str(const char *p) {
    if (*p++ != '"') return NULL;
    while (*p != '"') {
        if ((unsigned char)*p < 32) return NULL;
        if (*p == '\\') { p++; if (!*p || !strchr("\"\\/bfnrtu", *p)) return NULL; }
        p++;
    }
    return p + 1;
}
static const char *js_val(const char *p, int depth) {
    p = js_ws(p);
    if (depth > 20) return NULL;
    if (*p == '"') return js_str(p);
    if (*p == '{' || *p == '[') {
        char c = *p == '{' ? '}' : ']';
        p = js_ws(p + 1);
        if (*p == c) return p + 1;
        for (;;) {
            if (c == '}') { p = js_str(js_ws(p)); if (!p) return NULL; p = js_ws(p); if (*p++ != ':') return NULL; }
            p = js_val(p, depth + 1);
            if (!p) return NULL;
            p = js_ws(p);
            if (*p == c) return p + 1;
            if (*p++ != ',') return NULL;
        }
    }
    if (!strncmp(p, "true", 4)) return p + 4;
    if (!strncmp(p, "false", 5)) return p + 5;
    if (!strncmp(p, "null", 4)) return p + 4;
    const char *q = p;
    if (*q == '-') q++;
    if (*q < '0' || *q > '9') return NULL;
    strtod(p, (char **)&q);
    return q;
}
// Splits a JSON object into its keys and values, the latter without blanks outside strings
static void squeeze(char *d, const char *s, const char *e) {
    int in = 0;
    for (; s < e; s++) { if (*s == '"') in = !in; if (in || !strchr(" \t\r\n", *s)) *d++ = *s; }
    *d = 0;
}
static int js_object(const char *text, Obj *o) {
    o->n = 0;
    o->text = malloc(2 * strlen(text) + 100);
    char *w = o->text;
    const char *p = js_ws(text);
    if (*p++ != '{') return -1;
    for (;;) {
        p = js_ws(p);
        const char *ks = p;
        p = js_str(p);
        if (!p || o->n == MAXKEY || p - ks > 190) return -1;
        KV *kv = &o->kv[o->n];
        memcpy(kv->key, ks + 1, p - ks - 2);
        kv->key[p - ks - 2] = 0;
        p = js_ws(p);
        if (*p++ != ':') return -1;
        p = js_ws(p);
        const char *vs = p;
        p = js_val(p, 0);
        if (!p) return -1;
        kv->val = w;
        squeeze(w, vs, p);
        w += strlen(w) + 1;
        o->n++;
        p = js_ws(p);
        if (*p == '}') return *js_ws(p + 1) ? -1 : 0;
        if (*p++ != ',') return -1;
    }
}
static char *js_get(Obj *o, const char *key) { for (int i = 0; i < o->n; i++) if (!strcmp(o->kv[i].key, key)) return o->kv[i].val; return NULL; }
// A value as it is to be shown: logical values without quotes, and another enum when one is given
static void shown(char *d, const char *v, int en, int set) {
    char out[3000];
    int k = 0;
    for (const char *p = v; *p;) {
        if (!strncasecmp(p, "\"true\"", 6)) { memcpy(out + k, "true", 4); k += 4; p += 6; }
        else if (!strncasecmp(p, "\"false\"", 7)) { memcpy(out + k, "false", 5); k += 5; p += 7; }
        else if (set && !strncmp(p, "\"Enum\":", 7)) { k += sprintf(out + k, "\"Enum\":%d", en); p += 7; while (*p == '-' || (*p >= '0' && *p <= '9')) p++; }
        else out[k++] = *p++;
    }
    out[k] = 0;
    strcpy(d, out);
}
// ---- monitor on the collector ------------------------------------------------------------------------------------
typedef struct { char *text; double heading, lat, lon, t0, t1; uint64_t naps; int done[NODES]; int lap; } Pub;
static Pub *pub;
static volatile int npub;
static uint32_t hidx_seen;
static RKRadar *radar;
static volatile int issued[NODES], done_[NODES];        // newest report handed out, completed
static uint64_t *nap_of[NODES];                         // collector's naps when a report was begun
#define MAXREP 40000
static int done_now[NODES];
static double t_now;
static void on_collector(void) {
    double now = vtime();
    uint32_t h = radar->healthIndex;
    int seen = npub;
    while (hidx_seen != h && npub < MAXPUB) {
        Pub *p = &pub[npub];
        p->text = strdup(radar->healths[hidx_seen].string);
        p->heading = radar->desc.heading; p->lat = radar->desc.latitude; p->lon = radar->desc.longitude;
        p->naps = naps;
        p->t0 = t_now; p->t1 = now;
        memcpy(p->done, done_now, sizeof(done_now));
        // in terms of the logger: how far behind it is
        p->lap = npub + 1 - ((int)logger->tic - 1);
        npub++;
        hidx_seen = RKNextModuloS(hidx_seen, radar->desc.healthBufferDepth);
    }
    if (seen == npub) return;
    // What is there when a health has been published is there before the next one is collected
    for (int j = 0; j < NODES; j++) done_now[j] = done_[j];
    t_now = now;
}
// ---- nodes -------------------------------------------------------------------------------------------------------
static volatile int stop_nodes;
static int node_on[NODES], node_used[NODES];
typedef struct { int node; uint64_t s; double period, slow, silent; } Node;
static Node nodes[NODES];
static double nu(uint64_t *s) { return (double)(vp_mix(s) >> 11) / 9007199254740992.0; }
static void *node_run(void *p) {
    Node *n = p;
    int j = n->node;
    while (!stop_nodes && issued[j] < MAXREP - 2) {
        int seq = issued[j] + 1;
        nap_of[j][seq] = naps;
        RKHealth *h = RKGetVacantHealth(radar, j);
        issued[j] = seq;
        if (!h) { VIOL("vacant", "no slot for node %d", j); return NULL; }
        char b[RKMaximumStringLength + 10];
        int k = make_report(b, j, seq);
        if (nu(&n->s) < n->slow) vsleep(0.3 * nu(&n->s) + (nu(&n->s) < 0.2 ? 1.5 : 0));
        // the text arrives in two parts
        memcpy(h->string, b, k / 2);
        h->string[k / 2] = 0;
        if (nu(&n->s) < 0.2) vsleep(0.02);
        memcpy(h->string + k / 2, b + k / 2, k - k / 2 + 1);
        RKSetHealthReady(radar, h);
        __sync_synchronize();
        done_[j] = seq;
        double w = n->period * (0.5 + nu(&n->s));
        if (nu(&n->s) < n->silent) w += 2.0 + 4.0 * nu(&n->s);
        for (double t = 0; t < w && !stop_nodes; t += 0.05) vsleep(fmin(0.05, w - t));
    }
    return NULL;
}
// ---- readers -----------------------------------------------------------------------------------------------------
static uint64_t *seen_h;
static volatile int nseen;
static int pub_known(uint64_t h, uint64_t *set, int n) { for (int i = 0; i < n; i++) if (set[i] == h) return 1; return 0; }
static void *reader_run(void *p) {
    char *text = malloc(1 << 20);
    uint64_t last = 0;
    while (!stop_nodes) {
        vsleep(0.15);
        char b[RKMaximumStringLength + 1];
        RKHealth *h = RKGetLatestHealth(radar);
        if (!(h->flag & RKHealthFlagReady)) continue;
        size_t len = strnlen(h->string, RKMaximumStringLength);
        memcpy(b, h->string, len); b[len] = 0;
        uint64_t x = vp_h(b, len, 1469598103934665603ULL);
        if (x == last) continue;
        last = x;
        if (nseen < MAXPUB) seen_h[nseen++] = x;
        RKGetEnumFromLatestHealth(radar, "N0 Seq");
        RKHealthOverview(text, b, (nseen & 1 ? RKTextPreferencesShowColor : 0) | (nseen & 2 ? RKTextPreferencesDrawBackground : 0));
        stat_add("overviews", 1);
        char ck[RKMaximumStringLength], cv[RKMaximumStringLength];
        RKAnyCritical(b, false, ck, cv);
    }
    free(text);
    return NULL;
}
// ---- a case ------------------------------------------------------------------------------------------------------
static int cmp_s(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static int parse_time(const char *name, struct tm *tm) {
    const char *p = strrchr(name, '/');
    p = p ? p + 1 : name;
    p = strchr(p, '-');
    memset(tm, 0, sizeof(*tm));
    if (!p || sscanf(p + 1, "%4d%2d%2d-%2d%2d%2d.json", &tm->tm_year, &tm->tm_mon, &tm->tm_mday, &tm->tm_hour, &tm->tm_min, &tm->tm_sec) != 6) return -1;
    tm->tm_year -= 1900; tm->tm_mon -= 1;
    return 0;
}
static void check_pubs(void) {
    int last_seq[NODES] = {0}, hc = 0, lc = 0;
    double heading = NAN, lat = 0, lon = 0;
    static Obj rep, o;
    for (int i = 0; i < npub; i++) {
        Pub *p = &pub[i];
        if (strlen(p->text) >= RKMaximumStringLength) { VIOL("length", "%zu characters", strlen(p->text)); continue; }
        if (js_object(p->text, &o)) { VIOL("json", "health %d is no JSON object: %.1200s", i, p->text); free(o.text); continue; }
        int used = 0, total = 0, skipped = 0;
        char is[NODES] = {0};
        int cov = 0;
        // What the nodes sent
        int seqs[NODES], old[NODES];
        double gh = NAN, gla = NAN, glo = NAN;
        for (int j = 0; j < NODES; j++) {
            seqs[j] = -1; old[j] = 0;
            if (!node_used[j]) continue;
            char key[40];
            sprintf(key, "N%d Seq", j);
            char *v = js_get(&o, key);
            if (!v) {
                if (p->done[j] > 0) {
                    // nothing shorter could have been taken: judged below, by the room that is left
                    skipped |= 1 << j;
                }
                continue;
            }
            int seq, en;
            if (sscanf(v, "{\"Value\":%d,\"Enum\":%d}", &seq, &en) != 2) { VIOL("value", "health %d: %s is %s", i, key, v); continue; }
            seqs[j] = seq;
            if (seq < 1 || seq > issued[j]) { VIOL("unknown", "health %d has report %d of node %d, %d were sent", i, seq, j, issued[j]); seqs[j] = -1; continue; }
            if (seq < p->done[j]) VIOL("stale", "health %d has report %d of node %d, but report %d was there before it was collected", i, seq, j, p->done[j]);
            if (seq < last_seq[j]) VIOL("back", "health %d has report %d of node %d after report %d", i, seq, j, last_seq[j]);
            last_seq[j] = seq;
        }
        Obj *r = &rep;
        for (int j = 0; j < NODES; j++) {
            if (seqs[j] < 0) continue;
            char b[RKMaximumStringLength + 10];
            int k = make_report(b, j, seqs[j]);
            total += k;
            if (js_object(b, r)) { VIOL("harness", "report %s", b); free(r->text); return; }
            // Old?
            int all_same = 1, all_old = 1, any = 0;
            for (int q = 0; q < r->n; q++) {
                char *v = js_get(&o, r->kv[q].key), a[3000], c[3000];
                if (!v) { VIOL("key", "health %d misses '%s' of report %d of node %d", i, r->kv[q].key, seqs[j], j); all_same = all_old = 0; break; }
                used++;
                int gps = !strncmp(r->kv[q].key, "GPS ", 4);
                if (gps) continue;
                shown(a, r->kv[q].val, 0, 0);
                shown(c, r->kv[q].val, RKStatusEnumOld, 1);
                if (strcmp(v, a)) all_same = 0;
                if (strcmp(v, c)) all_old = 0;
                if (strcmp(a, c)) any = 1;
                if (strcmp(v, a) && strcmp(v, c)) { VIOL("value", "health %d: '%s' is %s, node %d sent %s", i, r->kv[q].key, v, j, r->kv[q].val); break; }
            }
            if (used && any && !all_same && !all_old) VIOL("mixed", "health %d has report %d of node %d partly old", i, seqs[j], j);
            if (any && !all_same && all_old) {
                old[j] = 1;
                cov++;
                stat_add("old", 1);
                if (j == RKHealthNodeRadarKit) VIOL("master", "health %d: the report of the radar itself is marked old", i);
                if (p->naps < nap_of[j][seqs[j]] + 10) VIOL("early", "health %d: report %d of node %d is marked old after %llu naps", i, seqs[j], j, (unsigned long long)(p->naps - nap_of[j][seqs[j]]));
            } else if (any && all_same) {
                stat_add("fresh", 1);
                if (seqs[j] <= p->done[j]) VIOL("unmarked", "health %d has report %d of node %d, complete before it was collected, and not marked old", i, seqs[j], j);
            }
            if (j == gps_node && gps_kind >= 0) {
                double h, la, lo; int en;
                gps_of(seqs[j], &h, &la, &lo, &en);
                if (!old[j] && en == 0) { gh = (float)(round(h * 100) / 100); gla = round(la * 1e7) / 1e7; glo = round(lo * 1e7) / 1e7; }
            }
            free(r->text);
        }
        (void)is;
        // GPS and heading
        RKInitFlag f = radar->desc.initFlags;
        int ho = isnan(gh) || (f & RKInitFlagIgnoreHeading) || (f & RKInitFlagIgnoreGPS), lo_ = isnan(gla) || (f & RKInitFlagIgnoreGPS);
        char *v = js_get(&o, "Heading Override");
        if (!!v != ho || (v && strcmp(v, "{\"Value\":true,\"Enum\":0}"))) VIOL("heading-override", "health %d: %s, expected %d", i, v ? v : "none", ho);
        v = js_get(&o, "GPS Override");
        if (!!v != lo_ || (v && strcmp(v, "{\"Value\":true,\"Enum\":0}"))) VIOL("gps-override", "health %d: %s, expected %d", i, v ? v : "none", lo_);
        used += (ho ? 2 : 0) + (lo_ ? 4 : 0) + 1;
        char want[200];
        if (isnan(heading)) { heading = pub[0].heading; lat = pub[0].lat; lon = pub[0].lon; }
        if (ho) {
            v = js_get(&o, "Sys Heading");
            sprintf(want, "{\"Value\":\"%.2f deg\",\"Enum\":0}", (float)p->heading);
            if (!v || strcmp(v, want)) VIOL("sys-heading", "health %d: %s, expected %s", i, v ? v : "none", want);
        } else {
            stat_add("gps_headings", 1);
            if (fabs(p->heading - heading) > 1e-4) {
                stat_add("heading_updates", 1);
                if (fabs(p->heading - gh) > 1e-3) VIOL("heading", "health %d: heading becomes %f, GPS says %f", i, p->heading, gh);
                if (hc < 4) VIOL("heading-early", "health %d: heading becomes %f after %d readings", i, p->heading, hc + 1);
                hc = 0;
            } else if (fabs(heading - gh) > 1.001) { if (++hc > 5) VIOL("heading-late", "health %d: heading stays %f, GPS says %f", i, heading, gh); }
            else if (fabs(heading - gh) < 0.999) hc = 0;
        }
        if (lo_) {
            v = js_get(&o, "Sys Latitude");
            sprintf(want, "{\"Value\":\"%.7f\",\"Enum\":0}", p->lat);
            if (!v || strcmp(v, want)) VIOL("sys-latitude", "health %d: %s, expected %s", i, v ? v : "none", want);
            v = js_get(&o, "Sys Longitude");
            sprintf(want, "{\"Value\":\"%.7f\",\"Enum\":0}", p->lon);
            if (!v || strcmp(v, want)) VIOL("sys-longitude", "health %d: %s, expected %s", i, v ? v : "none", want);
        } else {
            if (p->lat != lat || p->lon != lon) {
                stat_add("location_updates", 1);
                if (fabs(p->lat - gla) > 1e-9 || fabs(p->lon - glo) > 1e-9) VIOL("location", "health %d: location becomes %f %f, GPS says %f %f", i, p->lat, p->lon, gla, glo);
                if (lc < 4) VIOL("location-early", "health %d: location changes after %d readings", i, lc + 1);
                lc = 0;
            } else if (fabs(lat - gla) > 3.6e-5 || fabs(lon - glo) > 3.6e-5) { if (++lc > 5) VIOL("location-late", "health %d: latitude stays %f, GPS says %f", i, lat, gla); }
            else if (fabs(lat - gla) < 3.4e-5 && fabs(lon - glo) < 3.4e-5) lc = 0;
        }
        if ((ho && fabs(p->heading - heading) > 1e-6) || (lo_ && (p->lat != lat || p->lon != lon))) VIOL("moved", "health %d: the radar moves without a GPS reading", i);
        heading = p->heading; lat = p->lat; lon = p->lon;
        // The readings of the GPS that are not in use are marked so
        if (gps_kind >= 0 && node_used[gps_node] && seqs[gps_node] > 0) {
            double h, la, l2; int en, e2;
            gps_of(seqs[gps_node], &h, &la, &l2, &en);
            if (old[gps_node]) en = RKStatusEnumOld;
            const char *names[] = {"GPS Heading", "GPS Latitude", "GPS Longitude"};
            for (int q = 0; q < 3; q++) {
                v = js_get(&o, names[q]);
                char *e = v ? strstr(v, "\"Enum\":") : NULL;
                if (!e || sscanf(e + 7, "%d}", &e2) != 1) { VIOL("gps", "health %d: %s is %s", i, names[q], v ? v : "none"); continue; }
                int w = (q ? lo_ : ho) ? RKStatusEnumNotWired : en;
                if (e2 != w) VIOL("gps-enum", "health %d: enum of %s is %d, expected %d", i, names[q], e2, w);
            }
        }
        v = js_get(&o, "Log Time");
        long lt = v ? atol(v) : 0;
        if (!v || lt + 1 < (long)p->t0 || lt > (long)p->t1 + 1) VIOL("log-time", "health %d: %s, collected between %.0f and %.0f", i, v ? v : "none", p->t0, p->t1);
        if (strcmp(o.kv[o.n - 1].key, "Log Time")) VIOL("log-time-last", "health %d ends with '%s'", i, o.kv[o.n - 1].key);
        if (o.n != used) VIOL("extra", "health %d has %d values, %d are accounted for: %.900s", i, o.n, used, p->text);
        // Only for lack of room is a node left out
        for (int j = 0; j < NODES; j++) if (skipped & (1 << j)) {
            int longest = 0;
            for (int q = p->done[j]; q <= issued[j] && q < p->done[j] + 40; q++) { char b[RKMaximumStringLength + 10]; int k = make_report(b, j, q); if (k > longest) longest = k; }
            stat_add("left_out", 1);
            if (total + longest < RKMaximumStringLength - 700) VIOL("left-out", "health %d: node %d is left out, %d characters are in use and its longest report takes %d", i, j, total, longest);
        }
        // The collector keeps going while the radar reports
        if (i > 0 && p->naps - pub[i - 1].naps > 60 && p->done[0] - pub[i - 1].done[0] > 20) VIOL("stuck", "health %d took %llu naps", i, (unsigned long long)(p->naps - pub[i - 1].naps));
        free(o.text);
        DISTINCTF("%d.%d.%d.%d.%d.%d.%d", cov, skipped, ho, lo_, o.n / 4, gps_kind, seqs[0] > 0 ? old[1] + 2 * old[2] + 4 * old[3] : -1);
        stat_add("healths", 1);
    }
}
typedef struct { char *line; int file; } Line;
typedef struct { int tic, on; } Switch;
static Switch sw[64];
static int nsw;
static void check_log(int lapped) {
    char cmd[64], *files[MAXFILE];
    int nf = 0;
    (void)cmd;
    DIR *d = opendir("data/health"), *e;
    struct dirent *de, *df;
    while (d && (de = readdir(d))) {
        if (de->d_name[0] == '.') continue;
        char path[600];
        snprintf(path, sizeof(path), "data/health/%s", de->d_name);
        e = opendir(path);
        while (e && (df = readdir(e))) if (df->d_name[0] != '.' && nf < MAXFILE) { files[nf] = malloc(1000); snprintf(files[nf++], 1000, "%.300s/%.300s", path, df->d_name); }
        if (e) closedir(e);
    }
    if (d) closedir(d);
    qsort(files, nf, sizeof(char *), cmp_s);
    stat_add("log_files", nf);
    // Every file is reported once, when it is complete
    for (int i = 0; i < nf; i++) {
        int n = 0;
        for (int j = 0; j < nadded; j++) n += !strcmp(added[j], files[i]);
        if (n != 1) VIOL("reported", "%s was reported %d times", files[i], n);
    }
    for (int j = 0; j < nadded; j++) if (access(added[j], F_OK)) VIOL("reported-none", "%s was reported, and is not there", added[j]);
    // Their lines are the healths, in order, each at most once
    int at = 0, lines = 0;
    char *got = calloc(MAXPUB, 1), *buf = malloc(1 << 16);
    for (int i = 0; i < nf && !lapped; i++) {
        FILE *f = fopen(files[i], "r");
        struct tm tm;
        int first = 1;
        if (parse_time(files[i], &tm)) { VIOL("name", "%s", files[i]); fclose(f); continue; }
        time_t ft = timegm(&tm);
        while (fgets(buf, 1 << 16, f)) {
            buf[strcspn(buf, "\n")] = 0;
            int k = at;
            while (k < npub && strcmp(pub[k].text, buf)) k++;
            if (k == npub) { VIOL("line", "%s has a line that is no health, or out of order: %.300s", files[i], buf); break; }
            got[k] = 1;
            at = k + 1;
            lines++;
            char *v = strstr(buf, "\"Log Time\":");
            time_t lt = v ? atol(v + 11) : 0;
            if (first ? lt < ft || lt / 60 != ft / 60 : lt / 60 != ft / 60) VIOL("minute", "%s has a health of %ld", files[i], (long)lt);
            first = 0;
        }
        fclose(f);
    }
    stat_add("lines", lines);
    if (lapped) stat_add("lapped", 1);
    // What was to be recorded was, and nothing else
    for (int k = 0; k < npub - 1 && !lapped; k++) {
        int may = 1, must = 0;
        for (int q = 0; q < nsw; q++) {
            int a = sw[q].tic, b = q + 1 < nsw ? sw[q + 1].tic : (int)logger->tic;
            if (!sw[q].on && k >= a && k <= b - 2) may = 0;
            if (sw[q].on && k >= a && k <= b - 2) {
                // a minute began since
                int first = a;
                if (a <= 1 && q == 0) must = 1;
                for (int m = first + 1; m <= k; m++) { long x = atol(strstr(pub[m].text, "\"Log Time\":") + 11), y = atol(strstr(pub[m - 1].text, "\"Log Time\":") + 11); if (x / 60 != y / 60) must = 1; }
            }
        }
        if (!may && got[k]) VIOL("not-recording", "health %d was recorded while the recorder was off", k);
        if (must && !got[k]) VIOL("missed", "health %d of %d was not recorded", k, npub);
        stat_add(must ? "to_record" : !may ? "not_to_record" : "either", 1);
    }
    for (int i = 0; i < nf; i++) free(files[i]);
    free(got); free(buf);
}
static void vp_case(uint64_t index) {
    t_start = vp_now(); t_jump = rf(0, 86400 * 300);
    naps = 0; npub = 0; nadded = 0; nseen = 0; nsw = 0; stop_nodes = 0; hidx_seen = 0; collecting = 0; t_now = vtime();
    case_key = r64();
    pub = calloc(MAXPUB, sizeof(Pub));
    seen_h = calloc(MAXPUB, sizeof(uint64_t));
    memset((void *)issued, 0, sizeof(issued)); memset((void *)done_, 0, sizeof(done_)); memset(done_now, 0, sizeof(done_now));
    memset(node_used, 0, sizeof(node_used)); memset(node_big, 0, sizeof(node_big));
    radar = calloc(1, sizeof(RKRadar));
    radar->desc.healthNodeCount = NODES;
    radar->desc.healthBufferDepth = rr(25, 60);
    radar->desc.heading = gps_heading0 = (float)rf(10, 340);
    radar->desc.latitude = gps_lat0 = rf(-80, 80);
    radar->desc.longitude = gps_lon0 = rf(-170, 170);
    if (chance(0.4)) { radar->desc.latitude += rf(-0.1, 0.1); radar->desc.heading = fmodf(radar->desc.heading + rf(2, 300), 360.0f); }
    if (chance(0.15)) radar->desc.initFlags |= RKInitFlagIgnoreGPS;
    if (chance(0.15)) radar->desc.initFlags |= RKInitFlagIgnoreHeading;
    strcpy(radar->desc.dataPath, "data");
    strcpy(radar->desc.filePrefix, "VP");
    gps_kind = chance(0.25) ? -1 : (int)ri(16);
    gps_node = rr(1, 4);
    // each slot of text has its own block, so that the sanitizer sees its end
    radar->healths = calloc(radar->desc.healthBufferDepth, sizeof(RKHealth));
    radar->healthNodes = calloc(NODES, sizeof(RKNodalHealth));
    for (int j = 0; j < NODES; j++) { radar->healthNodes[j].healths = calloc(radar->desc.healthBufferDepth, sizeof(RKHealth)); nap_of[j] = calloc(MAXREP, sizeof(uint64_t)); }
    radar->state = RKRadarStateLive;
    eng = RKHealthEngineInit();
    radar->healthEngine = eng;
    logger = RKHealthLoggerInit();
    RKHealthEngineSetEssentials(eng, &radar->desc, radar->healthNodes, radar->healths, &radar->healthIndex);
    RKFileManager *fm = calloc(1, 64);
    RKHealthLoggerSetEssentials(logger, &radar->desc, fm, radar->healths, &radar->healthIndex);
    int on = chance(0.8);
    RKHealthLoggerSetRecord(logger, on);
    if (chance(0.3)) eng->verbose = logger->verbose = rr(1, 3);
    sw[nsw++] = (Switch){0, on};
    RKHealthEngineStart(eng);
    RKHealthLoggerStart(logger);
    pthread_t th[NODES], rd;
    int n = rr(2, 6), big = chance(0.3);
    no_room = 0;
    for (int j = 0; j < NODES; j++) {
        nodes[j] = (Node){.node = j, .s = r64(), .period = j == 0 ? rf(0.1, 0.8) : rf(0.05, 1.5), .slow = chance(0.5) ? 0.3 : 0, .silent = j && chance(0.6) ? 0.25 : 0};
        node_used[j] = j == 0 || j == gps_node || chance((double)n / NODES);
        node_big[j] = big && chance(0.5);
        if (node_used[j]) pthread_create(&th[j], NULL, node_run, &nodes[j]);
    }
    pthread_create(&rd, NULL, reader_run, NULL);
    double run = vp_thorough() ? rf(1.0, 6.0) : rf(1.0, 2.5), t0 = vp_now();
    while (vp_now() - t0 < run) {
        struct timespec ts = {0, 60000000};
        nanosleep(&ts, NULL);
        if (chance(0.15)) t_jump = t_jump + rf(1, 70);
        if (nsw < 60 && chance(0.12)) {
            on = !on;
            if (!on) { RKHealthLoggerSetRecord(logger, 0); sw[nsw++] = (Switch){logger->tic, 0}; }
            else { int tic = logger->tic; RKHealthLoggerSetRecord(logger, 1); sw[nsw++] = (Switch){tic, 1}; }
        }
    }
    stop_nodes = 1;
    for (int j = 0; j < NODES; j++) if (node_used[j]) pthread_join(th[j], NULL);
    pthread_join(rd, NULL);
    RKHealthEngineStop(eng);
    collecting = 0;
    on_collector();
    // The logger takes what is there
    for (int i = 0; i < 3000 && (int)logger->tic - 1 < npub; i++) vsleep(0.05);
    int lapped = 0;
    for (int i = 0; i < npub; i++) if (pub[i].lap > (int)radar->desc.healthBufferDepth - 3) lapped = 1;
    if ((int)logger->tic - 1 != npub && !lapped) VIOL("log-behind", "%d healths, %d logged", npub, (int)logger->tic - 1);
    RKHealthLoggerStop(logger);
    if (vp_thorough() || 1) check_pubs();
    check_log(lapped);
    // Readers saw whole healths only
    uint64_t *known = calloc(npub + 1, 8);
    for (int i = 0; i < npub; i++) known[i] = vp_h(pub[i].text, strlen(pub[i].text), 1469598103934665603ULL);
    for (int i = 0; i < nseen; i++) if (!pub_known(seen_h[i], known, npub)) { VIOL("torn", "a reader got a text that was no health"); break; }
    stat_add("reads", nseen);
    if (npub < (int)(run * SCALE / 4)) stat_add("few", 1);
    // Numbers out of range are refused
    if (RKGetVacantHealth(radar, RKHealthNodeInvalid) != NULL) VIOL("node", "a slot of an invalid node");
    if (index < 3) sample("%d healths in %.1f s, %d nodes, buffer of %d, %d log files, last: %.500s", npub, run * SCALE, n, radar->desc.healthBufferDepth, nadded, npub ? pub[npub - 1].text : "");
    for (int i = 0; i < npub; i++) free(pub[i].text);
    for (int j = 0; j < NODES; j++) { free(radar->healthNodes[j].healths); free(nap_of[j]); }
    free(known); free(pub); free(seen_h); free(fm);
    RKHealthLoggerFree(logger);
    RKHealthEngineFree(eng);
    free(radar->healths); free(radar->healthNodes); free(radar);
    if (system("rm -rf data")) {}
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
