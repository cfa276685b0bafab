// The command center: clients of a live radar get one answer per command, in order, and the streams they asked for: each
// packet whole, with the data the radar holds, each ray once and in order, until they leave or the center stops.
#include "vp.h"
#include <dirent.h>
#include <errno.h>
#include <poll.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>

static void nap(unsigned us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; nanosleep(&t, NULL); }
int __real_usleep(useconds_t us);
static __thread int onTime;     // the threads that serve the clients, with limits on how long they wait, run on time; all others ten times as fast
int __wrap_usleep(useconds_t us) { nap(onTime ? us : us / 10 + 1); return 0; }
static int (*centerCommand)(RKOperator *), (*centerStream)(RKOperator *);
static int timedCommand(RKOperator *o) { onTime = 1; return centerCommand(o); }
static int timedStream(RKOperator *o) { onTime = 1; return centerStream(o); }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static volatile int net_port;
int __real_bind(int fd, const struct sockaddr *a, socklen_t n);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
    struct sockaddr_in s;
    memcpy(&s, a, sizeof(s));
    s.sin_port = 0;
    s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int r = __real_bind(fd, (struct sockaddr *)&s, sizeof(s));
    socklen_t l = sizeof(s);
    getsockname(fd, (struct sockaddr *)&s, &l);
    net_port = ntohs(s.sin_port);
    return r;
}
int __real_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res);
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    struct in_addr a;
    if (node && !inet_aton(node, &a)) return EAI_NONAME;
    return __real_getaddrinfo(node, service, hints, res);
}
// A client that reads is waited for, however busy this machine is; a sluggish one is not
static volatile int sluggishPort[64];
ssize_t __real_send(int fd, const void *b, size_t n, int flags);
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags) {
    ssize_t r = __real_send(fd, b, n, flags);
    if (r >= 0 || (errno != EAGAIN && errno != EWOULDBLOCK)) return r;
    struct sockaddr_in s;
    socklen_t l = sizeof(s);
    if (getpeername(fd, (struct sockaddr *)&s, &l) == 0) {
        for (int i = 0; i < 64; i++) if (sluggishPort[i] == ntohs(s.sin_port)) { errno = EAGAIN; return -1; }
    }
    stat_add("waits", 1);
    struct pollfd p = {fd, POLLOUT, 0};
    poll(&p, 1, 500);
    return __real_send(fd, b, n, flags);
}
static int count_dir(const char *p) {
    DIR *d = opendir(p);
    int n = 0;
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static int fds(void) { return count_dir("/proc/self/fd"); }
static int tasks(void) { return count_dir("/proc/self/task"); }
#define SLOW 40.0

// ---- the radar ------------------------------------------------------------------------------------------------------
static RKRadar *R;
static double azStep;
static int gatesMax, pulseNap, posNap, polite;
typedef struct { int kind; volatile int want, running; pthread_t tid; uint64_t s, sent; } Dev;
static Dev devs[3];
static void *devloop(void *in) {
    Dev *d = in;
    uint64_t tic = 0;
    double az = (double)(vp_mix(&d->s) % 360);
    RKHealthNode n = d->kind == 2 ? RKRequestHealthNode(R) : 0;
    d->running = 1;
    while (d->want) {
        if (d->kind == 0) {
            RKPulse *p = RKGetVacantPulse(R);
            int cap = (int)p->header.capacity, g = MIN(cap, gatesMax);
            p->header.t = tic;
            p->header.gateCount = (uint32_t)g - (uint32_t)(vp_mix(&d->s) % 4 == 0 ? vp_mix(&d->s) % (unsigned)(1 + g / 8) : 0);
            p->header.gateSizeMeters = 30.0f;
            for (int c = 0; c < 2; c++) {
                RKInt16C *x = RKGetInt16CDataFromPulse(p, c);
                for (int i = 0; i < (int)p->header.gateCount; i++) { uint64_t v = vp_mix(&d->s); x[i].i = (int16_t)(v >> 4 & 0xfff) - 2048; x[i].q = (int16_t)(v >> 20 & 0xfff) - 2048; }
            }
            RKSetPulseHasData(R, p);
            if (R->positionEngine == NULL) RKSetPulseReady(R, p);
            tic += 1000;
            nap((unsigned)pulseNap);
        } else if (d->kind == 1) {
            RKPosition *p = RKGetVacantPosition(R);
            if (p) {
                p->tic = tic;
                p->azimuthDegrees = (float)az;
                p->elevationDegrees = p->sweepElevationDegrees = 3.0f;
                p->azimuthVelocityDegreesPerSecond = 20.0f;
                p->flag |= RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled | RKPositionFlagScanActive | RKPositionFlagAzimuthSweep;
                az += azStep;
                if (az >= 360.0) { az -= 360.0; p->flag |= RKPositionFlagAzimuthComplete; }
                RKSetPositionReady(R, p);
                tic += 10000;
            }
            nap((unsigned)posNap);
        } else {
            RKHealth *h = RKGetVacantHealth(R, n);
            if (h) {
                snprintf(h->string, RKMaximumStringLength - 1, "{\"Dev %d\":{\"Value\":\"%u\",\"Enum\":%d},\"GPS Latitude\":{\"Value\":\"35.18\",\"Enum\":0},\"GPS Longitude\":{\"Value\":\"-97.43\",\"Enum\":0},\"Heading\":{\"Value\":\"5.0\",\"Enum\":0}}", d->kind, (unsigned)d->sent, (int)(d->sent % 3));
                RKSetHealthReady(R, h);
            }
            nap(3000 + (unsigned)(vp_mix(&d->s) % 5000));
        }
        d->sent++;
    }
    d->running = 0;
    return NULL;
}
static void *dev_init(RKRadar *radar, void *in) {
    Dev *d = in;
    R = radar;
    d->want = 1;
    d->running = 0;
    pthread_create(&d->tid, NULL, devloop, d);
    while (!d->running) nap(100);
    return d;
}
static int dev_exec(void *in, const char *command, char *response) {
    Dev *d = in;
    if (!strcmp(command, "disconnect") && d->want) { d->want = 0; pthread_join(d->tid, NULL); }
    if (response) snprintf(response, RKMaximumStringLength, "ACK. %s" RKEOL, command);
    return RKResultSuccess;
}
static int dev_free(void *in) { return RKResultSuccess; }
static int keepProduct(RKProduct *p, const char *filename) { return RKResultSuccess; }

// ---- what a client asks for -----------------------------------------------------------------------------------------
static const struct { char c; RKStream s; } letters[] = {
    {'!', RKStreamStatusProcessorStatus}, {'h', RKStreamHealthInJSON}, {'i', RKStreamDisplayIQ},
    {'z', RKStreamDisplayZ}, {'v', RKStreamDisplayV}, {'w', RKStreamDisplayW}, {'d', RKStreamDisplayD}, {'p', RKStreamDisplayP}, {'r', RKStreamDisplayR}, {'k', RKStreamDisplayK}, {'s', RKStreamDisplaySh}, {'t', RKStreamDisplaySv},
    {'Z', RKStreamProductZ}, {'V', RKStreamProductV}, {'W', RKStreamProductW}, {'D', RKStreamProductD}, {'P', RKStreamProductP}, {'R', RKStreamProductR}, {'K', RKStreamProductK}, {'S', RKStreamProductSh}, {'T', RKStreamProductSv},
    {'Y', RKStreamSweepZ}, {'U', RKStreamSweepV}, {'X', RKStreamSweepW}, {'C', RKStreamSweepD}, {'O', RKStreamSweepP}, {'Q', RKStreamSweepR}, {'J', RKStreamSweepK}, {'H', RKStreamSweepQ}, {'A', RKStreamSweepSh}, {'B', RKStreamSweepSv},
};
#define NL ((int)(sizeof(letters) / sizeof(letters[0])))
static RKStream meaning(const char *t) {
    RKStream s = 0;
    for (; *t; t++) {
        if (*t >= '0' && *t <= '8') s = (s & ~(RKStream)0xF) | (RKStream)(*t - '0' + 1);
        for (int i = 0; i < NL; i++) if (letters[i].c == *t) s |= letters[i].s;
    }
    return s;
}
// The order in which the data of a ray are sent, and where the radar keeps them
static const struct { RKStream show, full, sweep; uint32_t u8, f32; int index; } prods[] = {
    {RKStreamDisplayZ, RKStreamProductZ, RKStreamSweepZ, RKBaseProductListUInt8Z, RKBaseProductListFloatZ, RKBaseProductIndexZ},
    {RKStreamDisplayV, RKStreamProductV, RKStreamSweepV, RKBaseProductListUInt8V, RKBaseProductListFloatV, RKBaseProductIndexV},
    {RKStreamDisplayW, RKStreamProductW, RKStreamSweepW, RKBaseProductListUInt8W, RKBaseProductListFloatW, RKBaseProductIndexW},
    {RKStreamDisplayD, RKStreamProductD, RKStreamSweepD, RKBaseProductListUInt8D, RKBaseProductListFloatD, RKBaseProductIndexD},
    {RKStreamDisplayP, RKStreamProductP, RKStreamSweepP, RKBaseProductListUInt8P, RKBaseProductListFloatP, RKBaseProductIndexP},
    {RKStreamDisplayR, RKStreamProductR, RKStreamSweepR, RKBaseProductListUInt8R, RKBaseProductListFloatR, RKBaseProductIndexR},
    {RKStreamDisplayK, RKStreamProductK, RKStreamSweepK, RKBaseProductListUInt8K, RKBaseProductListFloatK, RKBaseProductIndexK},
    {0, 0, 0, RKBaseProductListUInt8Q, RKBaseProductListFloatQ, RKBaseProductIndexQ},
    {RKStreamDisplaySh, RKStreamProductSh, RKStreamSweepSh, RKBaseProductListUInt8Sh, RKBaseProductListFloatSh, RKBaseProductIndexSh},
    {RKStreamDisplaySv, RKStreamProductSv, RKStreamSweepSv, RKBaseProductListUInt8Sv, RKBaseProductListFloatSv, RKBaseProductIndexSv},
    {0, 0, RKStreamSweepQ, RKBaseProductListUInt8Q, RKBaseProductListFloatQ, RKBaseProductIndexQ},       // last in a sweep ray
};
#define NP 11
enum { TEXT, STREAMS, DESC, BYE };
typedef struct { int kind; RKStream streams; char text[160]; char cmd[100]; } Want;
enum { PLAIN, TERMINAL, SLUGGISH, ALGORITHM, CLIENTS };
static const char *clientName[] = {"client", "terminal", "slow client", "algorithm"};
static RKCommandCenter *C;
static char radarNames[8][64];
static int radarCount;
typedef struct {
    int id, kind, fd, gone, finished, fragment, polite;
    uint64_t s;
    pthread_t tid;
    char *buf;
    size_t have, cap;
    Want want[64];
    int w0, w1;
    int outstandingS, outstandingX, outstandingA;
    RKStream streams, pending[64];
    int npending;
    double since;                                  // streams are stable since
    int scope, products, control;
    uint64_t lastRay, lastPulse, lastStatus, lastSweepRay;
    int haveRay, haveStatus, haveSweep, lastHealth;
    uint64_t pulsesSeen;
    RKSweepHeader sweep;
    uint32_t sweepRays, lastSweepCount;
    int inSweep;
    RKProductId pid[4];
    uint64_t returned;
    RKIdentifier returnedFor;
    float returnedTag;
    uint32_t returnedCount;
    uint64_t packets, rays, sweeps, texts, healths, statuses, pulses, answers, beacons, controls, raw, late;
    double lastText, lastRayT, lastHealthT, lastStatusT, lastPulseT, lastControl, started;
    char last[120];
    int bad;
    uint64_t bytes;
} Cl;
static volatile int removed, quiet, finish;
static uint64_t crnd(Cl *c) { return vp_mix(&c->s); }
static int cri(Cl *c, int n) { return (int)(crnd(c) % (unsigned)n); }
static void sendall(Cl *c, const void *data, size_t n) {
    size_t k = 0;
    double t = now();
    while (k < n && !c->gone && now() - t < SLOW) {
        size_t m = n - k;
        if (c->fragment && m > 1) m = 1 + (size_t)cri(c, (int)MIN(m, 40));
        ssize_t r = send(c->fd, (const char *)data + k, m, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (r > 0) k += (size_t)r;
        else if (errno != EAGAIN && errno != EINTR) { c->gone = 1; return; }
        if (c->fragment) nap(300);
    }
}
static Want *expect(Cl *c, int kind, const char *cmd) {
    Want *w = &c->want[c->w1++ % 64];
    memset(w, 0, sizeof(Want));
    w->kind = kind;
    snprintf(w->cmd, sizeof(w->cmd), "%s", cmd);
    return w;
}
static int stable(Cl *c) { return c->outstandingS == 0; }
static void describe(RKStream s, char *t) {
    int k = 0;
    if (s & 0xF) t[k++] = (char)('0' + (s & 0xF) - 1);
    for (int i = 0; i < NL; i++) if (s & letters[i].s) t[k++] = letters[i].c;
    t[k] = 0;
}
// All settings a packet may come from: the current ones, or those of a command on its way
static int any(Cl *c, RKStream bits) {
    if (c->streams & bits) return 1;
    for (int i = 0; i < c->npending; i++) if (c->pending[i] & bits) return 1;
    return 0;
}
static int text_may(Cl *c) { return any(c, 0xF); }
// One command line, of one or more commands
static void one_line(Cl *c) {
    char line[480] = "", cmd[120], t[60];
    int n = cri(c, 3) ? 1 : 2 + cri(c, 4), k = 0, bye = 0;
    for (int i = 0; i < n && c->w1 - c->w0 < 40; i++) {
        int kind = cri(c, 20), r;
        Want *w;
        cmd[0] = 0;
        if (removed) {
            if (kind < 3) snprintf(cmd, sizeof(cmd), "ping");
            else { snprintf(cmd, sizeof(cmd), "%s", kind < 6 ? "a me nopasswd" : kind < 8 ? "i" : kind < 12 ? "szh1" : kind < 14 ? "x" : "zz"); w = expect(c, TEXT, cmd); snprintf(w->text, sizeof(w->text), "NAK. No radar." RKEOL); }
        } else switch (kind) {
            case 0: case 1: snprintf(cmd, sizeof(cmd), "ping"); break;
            case 2: snprintf(cmd, sizeof(cmd), "a user%d nopasswd", c->id); c->control++; c->lastControl = 0; break;
            case 3: snprintf(cmd, sizeof(cmd), "i"); expect(c, DESC, cmd); break;
            case 4: case 5:
                snprintf(cmd, sizeof(cmd), "x");
                c->outstandingX++;
                w = expect(c, TEXT, cmd);
                r = c->scope = (c->scope + 1) % 3;
                snprintf(w->text, sizeof(w->text), "ACK. AScope mode to %d" RKEOL, r);
                break;
            case 6: case 7: case 8:
                snprintf(cmd, sizeof(cmd), "%c%s%d.%llu", "eEgGjJ"[cri(c, 6)], cri(c, 2) ? " " : "", c->id, (unsigned long long)(crnd(c) >> 40));
                w = expect(c, TEXT, cmd);
                snprintf(w->text, sizeof(w->text), "NAK. Unknown command '%s'." RKEOL, cmd);
                break;
            case 9: case 10:
                // through to a device
                snprintf(cmd, sizeof(cmd), "%c c%d-%llu", "tp"[cri(c, 2)], c->id, (unsigned long long)(crnd(c) >> 40));
                w = expect(c, TEXT, cmd);
                snprintf(w->text, sizeof(w->text), "ACK. %s" RKEOL, cmd + 2);
                break;
            default:
                if (c->kind == TERMINAL) {
                    snprintf(cmd, sizeof(cmd), "%s", (const char *[]){"s5", "s6", "s7", "sx", "c", "s6", "s\t"}[cri(c, 7)]);
                    break;
                }
                r = 0;
                if (cri(c, 2)) t[r++] = (char)("012348"[cri(c, 6)]);
                for (int j = cri(c, 7); j > 0; j--) t[r++] = letters[cri(c, 6) == 0 ? cri(c, 3) : 3 + cri(c, NL - 3)].c;
                if (cri(c, 4) == 0) t[r++] = 'h';
                if (cri(c, 4) == 0) t[r++] = 'i';
                if (cri(c, 4) == 0) t[r++] = '!';
                if (cri(c, 5) == 0) t[r++] = (char)("012348"[cri(c, 6)]);
                t[r] = 0;
                snprintf(cmd, sizeof(cmd), "s%s%s", cri(c, 5) ? "" : " ", t);
                w = expect(c, STREAMS, cmd);
                w->streams = meaning(t);
                c->pending[c->npending++] = w->streams;
                c->outstandingS++;
                c->lastRay = c->lastStatus = 0;
                c->haveRay = c->haveStatus = c->haveSweep = 0;
                c->lastHealth = -1;
                break;
        }
        if (cmd[0]) k += snprintf(line + k, sizeof(line) - (size_t)k, "%s%s%s", k ? ";" : "", k && cri(c, 3) == 0 ? " " : "", cmd);
    }
    (void)bye;
    if (k == 0) return;
    snprintf(c->last, sizeof(c->last), "%s", line);
    snprintf(line + k, sizeof(line) - (size_t)k, "%s", cri(c, 2) ? "\r\n" : "\n");
    sendall(c, line, strlen(line));
}

// ---- what a client gets ---------------------------------------------------------------------------------------------
#define BAD(key, ...) do { char bad_[700]; snprintf(bad_, sizeof(bad_), __VA_ARGS__); if (c->bad++ < 4) VIOL(key, "%s %d: %s (last line '%s', packet %llu)", clientName[c->kind], c->id, bad_, c->last, (unsigned long long)c->packets); } while (0)
static void got_answer(Cl *c, int desc, const char *p, size_t n) {
    c->answers++;
    if (c->kind == TERMINAL) return;
    if (c->w0 == c->w1) { BAD("answer", "an answer without a question: '%.80s'", desc ? "description" : p); return; }
    Want *w = &c->want[c->w0 % 64];
    if ((w->kind == DESC) != desc) { BAD("answer", "'%s' was answered with %s '%.80s'", w->cmd, desc ? "a description" : "text", desc ? "" : p); c->w0++; return; }
    if (desc) {
        if (n != sizeof(RKRadarDesc)) BAD("answer", "a description of %zu B, not %zu", n, sizeof(RKRadarDesc));
        else {
            RKRadarDesc d;
            memcpy(&d, p, sizeof(d));
            if (strcmp(d.name, R->desc.name) || d.pulseCapacity != R->desc.pulseCapacity || d.rayBufferDepth != R->desc.rayBufferDepth || d.initFlags != R->desc.initFlags || d.wavelength != R->desc.wavelength) BAD("answer", "the description is of another radar: '%.30s'", d.name);
        }
    } else if (w->kind == STREAMS) {
        unsigned long a = 0, s = 0;
        int i0, i1;
        if (sscanf(p, "{\"type\": \"init\", \"access\": 0x%lx, \"streams\": 0x%lx, \"indices\": [%d, %d]}", &a, &s, &i0, &i1) != 4) BAD("answer", "'%s' was answered '%.100s'", w->cmd, p);
        else if (s != w->streams) { char t[80]; describe((RKStream)s, t); BAD("streams", "'%s' became streams '%s' (0x%lx, not 0x%llx)", w->cmd, t, s, (unsigned long long)w->streams); }
        c->streams = w->streams;
        for (int i = 1; i < c->npending; i++) c->pending[i - 1] = c->pending[i];
        c->npending--;
        c->outstandingS--;
        c->since = now();
        c->lastText = c->lastRayT = c->lastHealthT = c->lastStatusT = c->lastPulseT = 0;
        c->haveRay = c->haveStatus = c->haveSweep = 0;
        c->lastHealth = -1;
    } else {
        if (strcmp(p, w->text)) BAD("answer", "'%s' was answered '%.100s', not '%.100s'", w->cmd, p, w->text);
        if (w->cmd[0] == 'x' && !removed) c->outstandingX--;
    }
    c->w0++;
}
static RKRay *ray_of(uint64_t i, Cl *c) {
    RKRay *r = RKGetRayFromBuffer(R->rays, (uint32_t)(i % R->desc.rayBufferDepth));
    if (r->header.i != i || !(r->header.s & RKRayStatusReady)) { c->late++; return NULL; }
    return r;
}
static void got_ray(Cl *c, const char *p, size_t n) {
    RKRayHeaderV1 h;
    if (n < sizeof(h)) { BAD("ray", "a ray of %zu B", n); return; }
    memcpy(&h, p, sizeof(h));
    const char *d = p + sizeof(h);
    size_t m = n - sizeof(h), k = 0;
    if (!any(c, RKStreamDisplayAll | RKStreamProductAll)) { BAD("unasked", "a ray that nobody asked for"); return; }
    c->rays++;
    c->lastRayT = now();
    int full = (h.baseProductList & RKBaseProductListFloatZVWDPRKSQ) != 0;
    if (stable(c)) {
        uint32_t list = 0;
        int f = (c->streams & RKStreamProductAll) != 0;
        for (int i = 0; i < NP; i++) if (c->streams & (f ? prods[i].full : prods[i].show)) list |= f ? prods[i].f32 : prods[i].u8;
        char t[80];
        describe(c->streams, t);
        if (h.baseProductList != list) BAD("ray", "a ray with products 0x%x, not 0x%x, for the streams '%s'", h.baseProductList, list, t);
        if (c->haveRay && h.i != c->lastRay + 1 && c->kind != SLUGGISH) BAD("sequence", "ray %llu came after ray %llu", (unsigned long long)h.i, (unsigned long long)c->lastRay);
        if (c->haveRay && h.i <= c->lastRay && c->kind != SLUGGISH) BAD("sequence", "ray %llu came after ray %llu", (unsigned long long)h.i, (unsigned long long)c->lastRay);
        c->haveRay = 1;
        c->lastRay = h.i;
    }
    int count = __builtin_popcount(h.baseProductList), each = full ? 4 : 1;
    if (m != (size_t)count * h.gateCount * (size_t)each) { BAD("ray", "%zu B with a ray of %d products and %u gates", m, count, h.gateCount); return; }
    RKRay *r = ray_of(h.i, c);
    if (r == NULL) return;
    RKRayHeader q = r->header;
    uint32_t ratio = C->users[0].rayDownSamplingRatio ? C->users[0].rayDownSamplingRatio : 1;
    ratio = (uint32_t)MAX(R->desc.pulseCapacity / R->desc.pulseToRayRatio / 500, 1);
    char why[100] = "";
    if (h.gateCount != q.gateCount / ratio) snprintf(why, sizeof(why), "%u gates, not %u", h.gateCount, q.gateCount / ratio);
    if (h.gateSizeMeters != q.gateSizeMeters * (float)ratio) snprintf(why, sizeof(why), "gates of %g m, not %g", h.gateSizeMeters, q.gateSizeMeters * (float)ratio);
    if (h.startAzimuth != q.startAzimuth || h.endAzimuth != q.endAzimuth || h.startElevation != q.startElevation || h.endElevation != q.endElevation) snprintf(why, sizeof(why), "azimuth %g to %g, not %g to %g", h.startAzimuth, h.endAzimuth, q.startAzimuth, q.endAzimuth);
    if (h.pulseCount != q.pulseCount || h.configIndex != q.configIndex || h.startTimeDouble != q.startTimeDouble || h.endTimeDouble != q.endTimeDouble || h.sweepElevation != q.sweepElevation || h.marker != q.marker) snprintf(why, sizeof(why), "another header (%d pulses, config %d, marker %x; the radar has %d, %d, %x)", h.pulseCount, h.configIndex, (unsigned)h.marker, q.pulseCount, q.configIndex, (unsigned)q.marker);
    for (int i = 0; i < NP - 1 && !why[0]; i++) {
        if (!(h.baseProductList & (full ? prods[i].f32 : prods[i].u8))) continue;
        uint8_t *u = RKGetUInt8DataFromRay(r, (RKBaseProductIndex)prods[i].index);
        float *f = RKGetFloatDataFromRay(r, (RKBaseProductIndex)prods[i].index);
        for (uint32_t g = 0; g < h.gateCount; g++) {
            if (full ? memcmp(d + k + 4 * g, &f[g * ratio], 4) : (uint8_t)d[k + g] != u[g * ratio]) {
                float x = 0;
                if (full) memcpy(&x, d + k + 4 * g, 4);
                snprintf(why, sizeof(why), "gate %u of product %d is %g, not %g", g, prods[i].index, full ? x : (double)(uint8_t)d[k + g], full ? f[g * ratio] : (double)u[g * ratio]);
                break;
            }
        }
        k += h.gateCount * (size_t)each;
    }
    if (why[0] && ray_of(h.i, c)) BAD("data", "ray %llu has %s", (unsigned long long)h.i, why);
}
static void give_products(Cl *c) {
    for (int k = 0; k < c->products; k++) {
        char text[200];
        RKNetDelimiter d;
        uint32_t count = c->sweep.rayCount * c->sweep.gateCount;
        float *x = malloc((count + 1) * sizeof(float));
        float tag = (float)(crnd(c) % 100000);
        for (uint32_t i = 0; i < count; i++) x[i] = tag + (float)i;
        int n = snprintf(text, sizeof(text), "{\"productId\": %d, \"configId\": %llu}", (int)c->pid[k], (unsigned long long)c->sweep.config.i);
        memset(&d, 0, sizeof(d));
        d.type = RKNetworkPacketTypePlainText;
        d.size = (uint32_t)n;
        sendall(c, &d, sizeof(d));
        sendall(c, text, (size_t)n);
        d.type = RKNetworkPacketTypeBytes;
        d.size = (uint32_t)(count * sizeof(float));
        sendall(c, &d, sizeof(d));
        sendall(c, x, count * sizeof(float));
        free(x);
        c->returned++;
        c->returnedTag = tag;
        c->returnedCount = count;
        c->returnedFor = c->sweep.config.i;
    }
}
static void got_sweep_header(Cl *c, const char *p, size_t n) {
    if (n != sizeof(RKSweepHeader)) { BAD("sweep", "a sweep header of %zu B", n); return; }
    if (c->inSweep) BAD("sweep", "a sweep began after %u of %u rays of another", c->sweepRays, c->sweep.rayCount);
    RKSweepHeader old = c->sweep;
    memcpy(&c->sweep, p, n);
    c->inSweep = 1;
    c->sweepRays = 0;
    if (!any(c, RKStreamSweepAll)) BAD("unasked", "a sweep that nobody asked for");
    if (strcmp(c->sweep.desc.name, R->desc.name)) BAD("sweep", "a sweep of radar '%.40s'", c->sweep.desc.name);
    if (c->sweep.rayCount == 0 || c->sweep.rayCount > RKMaximumRaysPerSweep || c->sweep.baseProductList == 0) BAD("sweep", "a sweep of %u rays, products 0x%x", c->sweep.rayCount, c->sweep.baseProductList);
    if (stable(c)) {
        uint32_t list = 0;
        for (int i = 0; i < NP; i++) if (c->streams & prods[i].sweep) list |= prods[i].f32;
        if (c->sweep.baseProductList & ~list) BAD("sweep", "a sweep with products 0x%x when 0x%x were asked for", c->sweep.baseProductList, list);
        // every base moment is there, except those that the moment method does not make
        uint32_t made = RKBaseProductListFloatZVWDPR;
        if ((list & made) & ~c->sweep.baseProductList) BAD("sweep", "a sweep with products 0x%x when 0x%x were asked for", c->sweep.baseProductList, list);
    }
    if (c->products && c->returned) {
        // what was returned for the sweep before is in its place
        for (uint32_t i = 0; i < R->sweepEngine->productBufferDepth; i++) {
            RKProduct *q = &R->sweepEngine->productBuffer[i];
            if (q->pid != c->pid[c->products - 1] || q->flag == RKProductStatusVacant) continue;
            if (q->i != c->returnedFor) BAD("return", "the product of sweep %llu is kept as that of %llu", (unsigned long long)c->returnedFor, (unsigned long long)q->i);
            for (uint32_t k = 0; k < c->returnedCount; k++) if (q->data[k] != c->returnedTag + (float)k) { BAD("return", "sample %u of %u of a returned product is %g, not %g", k, c->returnedCount, q->data[k], c->returnedTag + (float)k); break; }
            stat_add("products_kept", 1);
        }
    }
}
static void got_sweep_ray(Cl *c, const char *p, size_t n) {
    RKRayHeader h;
    if (!c->inSweep) { BAD("sweep", "a sweep ray without a sweep"); return; }
    if (n < sizeof(h)) { BAD("sweep", "a sweep ray of %zu B", n); return; }
    memcpy(&h, p, sizeof(h));
    const char *d = p + sizeof(h);
    uint32_t list = c->sweep.baseProductList, gates = c->sweep.gateCount;
    if (h.baseProductList != list || n != sizeof(h) + (size_t)__builtin_popcount(list) * gates * 4) { BAD("sweep", "a sweep ray of %zu B, products 0x%x, in a sweep with 0x%x and %u gates", n, h.baseProductList, list, gates); return; }
    if (c->sweepRays && h.i != c->lastSweepRay + 1 && c->kind != SLUGGISH) BAD("sequence", "ray %llu follows ray %llu, ray %u of %u of sweep %llu, packet %llu", (unsigned long long)h.i, (unsigned long long)c->lastSweepRay, c->sweepRays, c->sweep.rayCount, (unsigned long long)c->sweep.config.i, (unsigned long long)c->packets);
    if (!c->sweepRays && c->haveSweep && c->kind != SLUGGISH && h.i < c->lastSweepRay) BAD("sequence", "a sweep of %u rays that starts with ray %llu came after one that ended with ray %llu", c->sweep.rayCount, (unsigned long long)h.i, (unsigned long long)c->lastSweepRay);
    if (!c->sweepRays && c->haveSweep && c->kind != SLUGGISH) {
        // no sweep between this one and the one before, as the marks of the rays tell
        uint64_t is = c->lastSweepRay;
        uint32_t have = 0;
        for (uint64_t k = is; k < h.i; k++) {
            RKRay *r = ray_of(k, c);
            if (!r) break;
            uint32_t mark = r->header.marker, of = r->header.baseProductList;
            if (!ray_of(k, c)) break;
            have |= of;
            if (k == is) continue;
            // a sweep of more than 360 rays is cut to 360, it ends a little further than what was sent
            if (mark & RKMarkerSweepEnd && is == c->lastSweepRay && c->lastSweepCount == 360 && k - is < 20) { is = k; have = of; continue; }
            if (mark & RKMarkerSweepEnd && k - is < RKMaximumRaysPerSweep) {
                if (c->sweep.baseProductList & have) BAD("sequence", "a sweep starts with ray %llu, the one before ended with ray %llu, and there is one that ends with ray %llu", (unsigned long long)h.i, (unsigned long long)c->lastSweepRay, (unsigned long long)k);
                break;
            }
            if (mark & RKMarkerSweepBegin) { is = k; have = of; }
        }
        stat_add("sweeps_in_turn", 1);
    }
    c->lastSweepRay = h.i;
    RKRay *r = ray_of(h.i, c);
    char why[100] = "";
    if (r) {
        RKRayHeader q = r->header;
        if (h.gateCount != q.gateCount || h.startAzimuth != q.startAzimuth || h.endAzimuth != q.endAzimuth || h.configIndex != q.configIndex || h.pulseCount != q.pulseCount || h.startTimeDouble != q.startTimeDouble) snprintf(why, sizeof(why), "another header");
        size_t k = 0;
        uint32_t left = list;
        for (int i = 0; i < NP && !why[0]; i++) {
            if (i == 7 || !(left & prods[i].f32)) continue;
            float *f = RKGetFloatDataFromRay(r, (RKBaseProductIndex)prods[i].index);
            if (memcmp(f, d + k, gates * 4)) snprintf(why, sizeof(why), "other data of product %d", prods[i].index);
            k += gates * 4;
        }
        if (why[0] && ray_of(h.i, c)) BAD("data", "sweep ray %llu has %s", (unsigned long long)h.i, why);
    }
    if (++c->sweepRays == c->sweep.rayCount) {
        c->inSweep = 0;
        c->haveSweep = stable(c);
        c->lastSweepCount = c->sweep.rayCount;
        c->sweeps++;
        give_products(c);
    }
}
static void got_pulse(Cl *c, const char *p, size_t n) {
    RKPulseHeader h;
    if (n < sizeof(h)) { BAD("pulse", "a pulse of %zu B", n); return; }
    memcpy(&h, p, sizeof(h));
    c->pulses++;
    c->lastPulseT = now();
    if (!any(c, RKStreamDisplayIQ)) BAD("unasked", "a pulse that nobody asked for");
    if (n != sizeof(h) + 2 * h.gateCount * sizeof(RKInt16C)) { BAD("pulse", "%zu B with a pulse of %u gates", n, h.gateCount); return; }
    RKPulse *q = RKGetPulseFromBuffer(R->pulses, (uint32_t)(h.i % R->desc.pulseBufferDepth));
    if (q->header.i != h.i) { c->late++; return; }
    if (h.gateCount > q->header.gateCount) BAD("pulse", "%u samples of a pulse with %u", h.gateCount, q->header.gateCount);
    if (c->outstandingX) return;
    const RKInt16C *x = (const RKInt16C *)(p + sizeof(h));
    char why[100] = "";
    uint32_t k = (uint32_t)MAX(R->desc.pulseCapacity / 1000, 1), len = R->pulseEngine->filterAnchors[0][0].length;
    float scale = 1.0f / sqrtf((float)len);
    if (c->scope == 1 && h.gateCount != MIN(4096, q->header.downSampledGateCount / k)) snprintf(why, sizeof(why), "%u samples, not %u", h.gateCount, q->header.downSampledGateCount / k);
    for (int ch = 0; ch < 2 && !why[0]; ch++) {
        RKInt16C *y = RKGetInt16CDataFromPulse(q, ch);
        RKComplex *z = RKGetComplexDataFromPulse(q, ch);
        const RKInt16C *v = x + (uint32_t)ch * h.gateCount;
        uint32_t m = c->scope == 0 ? h.gateCount : c->scope == 1 ? h.gateCount : MIN(h.gateCount, MIN(len, 2000));
        for (uint32_t i = 0; i < m; i++) {
            RKInt16C e;
            if (c->scope == 1) { e.i = (int16_t)(scale * z[i * k].i); e.q = (int16_t)(scale * z[i * k].q); } else e = y[i];
            int near = c->scope == 1 ? abs(v[i].i - e.i) <= 1 && abs(v[i].q - e.q) <= 1 : v[i].i == e.i && v[i].q == e.q;
            if (!near) { snprintf(why, sizeof(why), "(%d, %d) at sample %u of channel %d, not (%d, %d)", v[i].i, v[i].q, i, ch, e.i, e.q); break; }
        }
    }
    if (why[0] && q->header.i == h.i) BAD("data", "pulse %llu, scope %d, has %s", (unsigned long long)h.i, c->scope, why);
}
static void got_health(Cl *c, char *p, size_t n) {
    c->healths++;
    c->lastHealthT = now();
    if (!any(c, RKStreamHealthInJSON)) BAD("unasked", "health that nobody asked for");
    if (n < 2 || memcmp(p + n - 2, RKEOL, 2) || strlen(p) != n) { BAD("health", "health text of %zu B ends in %02x %02x, with %zu B before a zero", n, n > 1 ? (uint8_t)p[n - 2] : 0, n ? (uint8_t)p[n - 1] : 0, strlen(p)); return; }
    p[n - 2] = 0;
    char *save, *t = strtok_r(p, "\n", &save);
    int depth = (int)R->desc.healthBufferDepth;
    for (; t; t = strtok_r(NULL, "\n", &save)) {
        // the same text may be there more than once: the one that continues the order, if any
        int at = -1, next = c->lastHealth >= 0 ? (c->lastHealth + 1) % depth : -1;
        if (next >= 0 && !strcmp(R->healths[next].string, t)) at = next;
        for (int i = 0; i < depth && at < 0; i++) if (!strcmp(R->healths[i].string, t)) at = i;
        if (at < 0) { BAD("health", "health that the radar does not have: '%.100s'", t); return; }
        if (next >= 0 && at != next && c->kind != SLUGGISH && stable(c)) BAD("sequence", "health %d came after health %d", at, c->lastHealth);
        c->lastHealth = stable(c) ? at : -1;
    }
}
static void got_status(Cl *c, const char *p, size_t n) {
    RKStatus s;
    c->statuses++;
    c->lastStatusT = now();
    if (n != sizeof(s)) { BAD("status", "a status of %zu B", n); return; }
    memcpy(&s, p, sizeof(s));
    if (!any(c, RKStreamStatusProcessorStatus)) BAD("unasked", "a status that nobody asked for");
    if (stable(c)) {
        if (c->haveStatus && c->kind != SLUGGISH && s.i != c->lastStatus + 1) BAD("sequence", "status %llu came after status %llu", (unsigned long long)s.i, (unsigned long long)c->lastStatus);
        c->haveStatus = 1;
        c->lastStatus = s.i;
    }
    RKStatus *q = &R->status[s.i % R->desc.statusBufferDepth];
    if (q->i != s.i) { c->late++; return; }
    if (q->flag == RKStatusFlagReady && memcmp(q, &s, sizeof(s)) && q->i == s.i) BAD("status", "status %llu is not the one of the radar", (unsigned long long)s.i);
}
static void got_controls(Cl *c, char *p, size_t n) {
    c->controls++;
    if (!c->control) BAD("unasked", "controls without authentication");
    if (strlen(p) > n) { BAD("controls", "not terminated"); return; }
    char *e = malloc(RKMaximumPacketSize / 8);
    int k = sprintf(e, "{\"Radars\": [");
    for (int i = 0; i < MIN(4, radarCount); i++) k += sprintf(e + k, "%s\"%s\"", i ? ", " : "", radarNames[i]);
    k += sprintf(e + k, "], \"Controls\": [");
    for (uint32_t i = 0; i < R->desc.controlCapacity && R->controls[i].label[0]; i++) k += sprintf(e + k, "%s{\"Label\": \"%s\", \"Command\": \"%s\"}", i ? ", " : "", R->controls[i].label, R->controls[i].command);
    sprintf(e + k, "]}" RKEOL);
    if (strcmp(p, e) && !removed && !quiet) BAD("controls", "controls '%.150s', not '%.150s'", p, e);
    free(e);
}
static void got_text(Cl *c, const char *p, size_t n) {
    c->texts++;
    c->lastText = now();
    if (!text_may(c)) BAD("unasked", "text that nobody asked for: '%.60s'", p);
    size_t m = strlen(p);
    if (m > n || n - m > 1 || m < 2 || memcmp(p + m - 2, RKEOL, 2)) BAD("text", "text of %zu B with %zu B before a zero: '%.60s'", n, m, p);
    for (size_t i = 0; i < m && i < n; i++) if ((uint8_t)p[i] < 32 && p[i] != 27 && p[i] != '\n' && p[i] != '\r' && p[i] != '\t') { BAD("text", "text with byte %02x at %zu", (uint8_t)p[i], i); break; }
}
// Takes the whole packets at the start of what has come
static int parse(Cl *c) {
    size_t at = 0;
    while (c->have - at >= sizeof(RKNetDelimiter)) {
        RKNetDelimiter d;
        memcpy(&d, c->buf + at, sizeof(d));
        int known = d.type == RKNetworkPacketTypeBeacon || d.type == RKNetworkPacketTypePlainText || d.type == RKNetworkPacketTypePulseData || d.type == RKNetworkPacketTypeHealth || d.type == RKNetworkPacketTypeControls || d.type == RKNetworkPacketTypeCommandResponse || d.type == RKNetworkPacketTypeRadarDescription || d.type == RKNetworkPacketTypeProcessorStatus || d.type == RKNetworkPacketTypeRayDisplay || d.type == RKNetworkPacketTypeSweepHeader || d.type == RKNetworkPacketTypeSweepRay;
        if (!known || d.size > RKMaximumPacketSize) {
            BAD("frame", "a packet of type %d and size %u after %llu B", d.type, d.size, (unsigned long long)c->bytes);
            return 0;
        }
        size_t need = at + sizeof(d) + d.size;
        if (need + 1 > c->cap) { c->cap = need + 65536; c->buf = realloc(c->buf, c->cap); }
        if (c->have < need) break;
        char *p = c->buf + at + sizeof(d), keep = p[d.size];
        p[d.size] = 0;
        c->packets++;
        if (c->inSweep && d.type != RKNetworkPacketTypeSweepRay && d.type != RKNetworkPacketTypeCommandResponse && d.type != RKNetworkPacketTypeRadarDescription) BAD("sweep", "a packet of type %d within a sweep", d.type);
        switch (d.type) {
            case RKNetworkPacketTypeBeacon: c->beacons++; if (d.size) BAD("frame", "a beacon of %u B", d.size); break;
            case RKNetworkPacketTypePlainText: got_text(c, p, d.size); break;
            case RKNetworkPacketTypePulseData: got_pulse(c, p, d.size); break;
            case RKNetworkPacketTypeHealth: got_health(c, p, d.size); break;
            case RKNetworkPacketTypeControls: got_controls(c, p, d.size); break;
            case RKNetworkPacketTypeCommandResponse: got_answer(c, 0, p, d.size); break;
            case RKNetworkPacketTypeRadarDescription: got_answer(c, 1, p, d.size); break;
            case RKNetworkPacketTypeProcessorStatus: got_status(c, p, d.size); break;
            case RKNetworkPacketTypeRayDisplay: got_ray(c, p, d.size); break;
            case RKNetworkPacketTypeSweepHeader: got_sweep_header(c, p, d.size); break;
            default: got_sweep_ray(c, p, d.size); break;
        }
        p[d.size] = keep;
        c->bytes += sizeof(d) + d.size;
        at = need;
    }
    memmove(c->buf, c->buf + at, c->have - at);
    c->have -= at;
    return 1;
}
static int receive(Cl *c, int ms) {
    struct pollfd q = {c->fd, POLLIN, 0};
    if (poll(&q, 1, ms) <= 0) return 1;
    if (c->cap - c->have < 65537) { c->cap = c->have + 262144; c->buf = realloc(c->buf, c->cap); }
    size_t want = c->kind == SLUGGISH ? 1 + (size_t)cri(c, 5000) : 65536;
    ssize_t n = recv(c->fd, c->buf + c->have, want, MSG_DONTWAIT);
    if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) { c->gone = 1; return 0; }
    if (n <= 0) return 1;
    c->have += (size_t)n;
    if (c->kind == TERMINAL) { c->raw += (uint64_t)n; c->have = 0; return 1; }
    if (!parse(c)) { c->gone = 2; return 0; }
    return 1;
}
static void *client(void *in) {
    Cl *c = in;
    double next = now();
    int leaving = 0;
    c->cap = 300000;
    c->buf = malloc(c->cap);
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(net_port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
    c->fd = socket(AF_INET, SOCK_STREAM, 0);
    if (c->kind == SLUGGISH) { int v = 16384; setsockopt(c->fd, SOL_SOCKET, SO_RCVBUF, &v, sizeof(v)); }
    if (connect(c->fd, (struct sockaddr *)&a, sizeof(a))) { BAD("connect", "no connection: %s", strerror(errno)); close(c->fd); free(c->buf); c->finished = 1; return NULL; }
    if (c->kind == SLUGGISH) {
        struct sockaddr_in me;
        socklen_t l = sizeof(me);
        getsockname(c->fd, (struct sockaddr *)&me, &l);
        sluggishPort[c->id & 63] = ntohs(me.sin_port);
    }
    c->started = now();
    if (c->kind == ALGORITHM) {
        char line[300];
        c->products = 0;
        int n = 1 + cri(c, 2);
        for (int i = 0; i < n; i++) {
            snprintf(line, sizeof(line), "u {\"key\": %d, \"name\": \"Algo %d\", \"symbol\": \"U%d%d\", \"b\": 0.0, \"w\": 1.0}\r\n", 10 * c->id + i, i, c->id, i);
            sendall(c, line, strlen(line));
            double t = now();
            while (!c->gone && now() - t < SLOW && c->have < sizeof(RKNetDelimiter)) {
                // the answer holds the id: read by hand
                struct pollfd q = {c->fd, POLLIN, 0};
                poll(&q, 1, 20);
                ssize_t m = recv(c->fd, c->buf + c->have, c->cap - c->have - 1, MSG_DONTWAIT);
                if (m > 0) c->have += (size_t)m;
                RKNetDelimiter d;
                while (c->have >= sizeof(d)) {
                    memcpy(&d, c->buf, sizeof(d));
                    if (c->have < sizeof(d) + d.size) { m = recv(c->fd, c->buf + c->have, c->cap - c->have - 1, MSG_DONTWAIT); if (m > 0) c->have += (size_t)m; nap(500); continue; }
                    char *p = c->buf + sizeof(d), keep = p[d.size];
                    p[d.size] = 0;
                    int answered = d.type == RKNetworkPacketTypeCommandResponse;
                    if (answered) {
                        unsigned key, pid;
                        char sym[16] = "";
                        if (sscanf(p, "ACK. {\"type\": \"productDescription\", \"key\":%u, \"symbol\":\"%15[^\"]\", \"pid\":%u}", &key, sym, &pid) != 3) BAD("product", "'%.150s' was answered '%.100s'", line, p);
                        else { c->pid[c->products++] = (RKProductId)pid; if (key != (unsigned)(10 * c->id + i) || sym[0] != 'U') BAD("product", "'%.100s' was answered '%.100s'", line, p); }
                    }
                    p[d.size] = keep;
                    c->have -= sizeof(d) + d.size;
                    memmove(c->buf, c->buf + sizeof(d) + d.size, c->have);
                    if (answered) { i += 100; break; }
                }
                if (i >= 100) break;
            }
            if (i < 100) BAD("slow", "no answer to a product description in %.0f s", now() - t);
            else i -= 100;
        }
        const char *sw = "YUXCOQJABH";
        char cmd[20];
        int k = snprintf(cmd, sizeof(cmd), "s%c", sw[cri(c, 4)]);
        if (cri(c, 2)) cmd[k++] = sw[4 + cri(c, 5)];
        cmd[k] = 0;
        Want *w = expect(c, STREAMS, cmd);
        w->streams = meaning(cmd + 1);
        c->pending[c->npending++] = w->streams;
        c->outstandingS++;
        c->lastHealth = -1;
        snprintf(line, sizeof(line), "%s\r\n", cmd);
        sendall(c, line, strlen(line));
    }
    double waiting = 0;
    while (!c->gone) {
        if (c->kind == SLUGGISH && cri(c, 30) == 0) nap((unsigned)cri(c, 150) * 1000);
        if (!receive(c, 5)) break;
        if (c->w0 != c->w1 && c->kind != TERMINAL && c->kind != SLUGGISH) {
            if (waiting == 0) waiting = now();
            if (now() - waiting > SLOW && !c->have) { BAD("slow", "no answer to '%s' in %.0f s", c->want[c->w0 % 64].cmd, SLOW); c->gone = 3; break; }
            if (c->answers != (uint64_t)c->lastPulse) { c->lastPulse = c->answers; waiting = now(); }
        } else waiting = 0;
        if (finish) break;
        if (!quiet && !leaving && c->kind != ALGORITHM && c->w1 - c->w0 < 12 && now() >= next) {
            one_line(c);
            next = now() + (cri(c, 4) ? 0.02 + 0.001 * cri(c, 60) : 0.001 * cri(c, 700));
        }
        if (c->polite == 2 && !removed && now() - c->started > 0.8) break;      // leaves in the middle
        if (c->polite == 1 && !removed && !leaving && !quiet && c->kind != ALGORITHM && c->kind != TERMINAL && now() - c->started > 1.0) {
            Want *w = expect(c, TEXT, "q");
            snprintf(w->text, sizeof(w->text), "Bye." RKEOL);
            leaving = 1;
            sendall(c, "q\r\n", 3);
        }
    }
    if (c->gone == 1 && c->kind != SLUGGISH && c->kind != TERMINAL && !finish) {
        if (leaving && c->w0 != c->w1) BAD("answer", "left with 'q' and was not answered");
        if (!leaving) BAD("closed", "the connection was closed after %.1f s", now() - c->started);
    }
    if (cri(c, 3) == 0) { struct linger l = {1, 0}; setsockopt(c->fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); }
    close(c->fd);
    free(c->buf);
    c->buf = NULL;
    c->finished = 1;
    return NULL;
}
static int idle(Cl *cl, int n) {
    for (int i = 0; i < n; i++) if (!cl[i].finished && cl[i].kind != TERMINAL && cl[i].w0 != cl[i].w1) return 0;
    return 1;
}
// What a client asked for comes, and goes on coming
static void fresh(Cl *c, double t0) {
    char t[80];
    if (c->finished || c->gone || c->kind == TERMINAL || c->kind == SLUGGISH || !stable(c)) return;
    describe(c->streams, t);
    double end = t0 + SLOW;
    for (;;) {
        const char *what = NULL;
        if (c->streams & (RKStreamDisplayAll | RKStreamProductAll) && c->lastRayT < t0) what = "ray";
        if (c->streams & RKStreamDisplayIQ && c->lastPulseT < t0) what = "pulse";
        if (c->streams & RKStreamHealthInJSON && c->lastHealthT < t0) what = "health";
        if (c->streams & RKStreamStatusProcessorStatus && c->lastStatusT < t0) what = "status";
        if (c->streams & 0xF && (c->streams & 0xF) != RKStreamASCIIArtVCP && c->lastText < t0) what = "text";
        if (!what || c->finished) break;
        if (now() > end) { BAD("silent", "no %s in %.0f s with the streams '%s'", what, now() - t0, t); break; }
        nap(5000);
    }
    stat_add("fresh", 1);
}
static int (*const methods[])(RKMomentScratch *, RKPulse **, const uint16_t) = {RKMultiLag, RKPulsePair, RKSpectralMoment};
static void one(uint64_t index) {
    int f0 = fds(), t0 = tasks(), viol0 = vp_viol;
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    int steer = chance(0.9);
    desc.initFlags = RKInitFlagAllocEverythingQuiet | RKInitFlagSignalProcessor;
    if (!steer) desc.initFlags &= ~RKInitFlagPositionSteerEngine;
    desc.pulseToRayRatio = (uint16_t)(1 << ri(2));
    desc.pulseCapacity = (uint32_t)(chance(0.3) ? rr(16, 40) * 64 : rr(2, 8) * 64) * desc.pulseToRayRatio;
    desc.configBufferDepth = (uint32_t)rr(8, 20);
    desc.healthBufferDepth = 200;
    desc.statusBufferDepth = 200;
    desc.positionBufferDepth = 200;
    desc.pulseBufferDepth = 1000;
    desc.rayBufferDepth = 1200;
    desc.healthNodeCount = RKHealthNodeCount;
    desc.controlCapacity = 10;
    desc.pulseTicsPerSecond = desc.positionTicsPerSecond = 1000000;
    desc.wavelength = 0.03f;
    desc.latitude = 35.0;
    snprintf(desc.name, sizeof(desc.name), "radar%d", (int)index);
    snprintf(desc.filePrefix, sizeof(desc.filePrefix), "RK");
    snprintf(desc.dataPath, sizeof(desc.dataPath), "%s", vp_scratch);
    R = RKInitWithDesc(desc);
    RKSetProcessingCoreCounts(R, (uint8_t)rr(1, 2), 1, (uint8_t)rr(1, 3));
    RKSetProductRecorder(R, keepProduct);
    memset(devs, 0, sizeof(devs));
    for (int i = 0; i < 3; i++) { devs[i].kind = i; devs[i].s = r64(); }
    RKSetTransceiver(R, &devs[0], dev_init, dev_exec, dev_free);
    RKSetPedestal(R, &devs[1], dev_init, dev_exec, dev_free);
    RKSetHealthRelay(R, &devs[2], dev_init, dev_exec, dev_free);
    RKWaveform *w = chance(0.3) ? RKWaveformInitAsImpulse() : RKWaveformInitAsLinearFrequencyModulation(5.0e6, 0.0, rf(2e-6, 6e-6), 2e6);
    RKSetWaveform(R, w);
    RKWaveformFree(w);
    int nc = rr(0, 6);
    for (int i = 0; i < nc; i++) { char l[40], m[40]; snprintf(l, sizeof(l), "Label %d", ri(1000)); snprintf(m, sizeof(m), "t w %d", ri(1000)); RKAddControlAsLabelAndCommand(R, l, m); }
    RKConcludeControls(R);
    RKSetMomentProcessorToPulsePair(R);
    if (chance(0.5)) RKSetMomentProcessorToMultiLag(R, (uint8_t)rr(2, 4));
    (void)methods;
    azStep = rf(0.3, 2.0);
    gatesMax = chance(0.3) ? rr(8, 60) : (int)desc.pulseCapacity - rr(0, 40);
    pulseNap = desc.pulseCapacity > 1000 ? rr(600, 1500) : rr(300, 1000);
    posNap = rr(2000, 5000);
    if (RKGoLive(R) != RKResultSuccess) { VIOL("live", "the radar did not go live"); RKFree(R); return; }
    if (C == NULL) { C = RKCommandCenterInit(); RKCommandCenterSetVerbose(C, 0); RKCommandCenterSetPort(C, 10000); centerCommand = C->server->c; centerStream = C->server->s; C->server->c = timedCommand; C->server->s = timedStream; }
    // other radars are only known by name
    static RKRadar *others[6];
    radarCount = 0;
    RKCommandCenterAddRadar(C, R);
    snprintf(radarNames[radarCount++], 64, "%s", desc.name);
    int extra = chance(0.5) ? 0 : rr(1, 5);
    for (int i = 0; i < extra; i++) {
        others[i] = calloc(1, sizeof(RKRadar));
        snprintf(others[i]->desc.name, sizeof(others[i]->desc.name), "other%d", i);
        others[i]->desc.initFlags = RKInitFlagSignalProcessor;
        RKCommandCenterAddRadar(C, others[i]);
        if (radarCount < 4) snprintf(radarNames[radarCount++], 64, "other%d", i);
    }
    if (C->radarCount != radarCount) VIOL("radars", "%d radars after %d were added", C->radarCount, 1 + extra);
    if (extra && chance(0.5)) {
        int k = rr(1, radarCount - 1), same = 1;
        RKCommandCenterRemoveRadar(C, others[k - 1]);
        for (int i = k; i < radarCount - 1; i++) memcpy(radarNames[i], radarNames[i + 1], 64);
        radarCount--;
        for (int i = 0; i < radarCount; i++) same &= i < C->radarCount && C->radars[i] && !strcmp(C->radars[i]->desc.name, radarNames[i]);
        if (!same || C->radarCount != radarCount) VIOL("radars", "%d radars after one of %d was removed, in another order", C->radarCount, radarCount + 1);
    }
    RKCommandCenterStart(C);
    for (int i = 0; i < 1000 && C->server->state != RKServerStateActive; i++) nap(5000);
    // wait until something flows
    double t1 = now();
    while (now() - t1 < SLOW && (R->rayIndex < 2u * R->momentEngine->coreCount + 4 || R->pulseEngine->tic < 20 || R->healthEngine->tic < 3)) nap(5000);
    int n = rr(1, 4);
    Cl *cl = calloc(4, sizeof(Cl));
    removed = quiet = finish = 0;
    for (int i = 0; i < n; i++) {
        cl[i].id = i;
        cl[i].kind = chance(0.6) ? PLAIN : chance(0.3) ? ALGORITHM : chance(0.4) ? TERMINAL : SLUGGISH;
        cl[i].fragment = chance(0.2);
        cl[i].polite = chance(0.25) ? 1 + (int)ri(2) : 0;
        cl[i].s = r64();
        cl[i].lastHealth = -1;
        pthread_create(&cl[i].tid, NULL, client, &cl[i]);
        if (chance(0.3)) nap((unsigned)rr(0, 100) * 1000);
    }
    double end = now() + rf(1.0, 2.5);
    while (now() < end && vp_viol == viol0) {
        nap(20000);
        if (chance(0.005)) { char l[40]; snprintf(l, sizeof(l), "New %d", ri(1000)); (void)l; }
    }
    // all quiet: the answers have come, the streams go on
    quiet = 1;
    t1 = now();
    while (!idle(cl, n) && now() - t1 < SLOW && vp_viol == viol0) nap(5000);
    for (int i = 0; i < n && vp_viol == viol0; i++) fresh(&cl[i], now());
    if (chance(0.3) && vp_viol == viol0) {
        RKCommandCenterRemoveRadar(C, R);
        for (int i = 0; i < radarCount - 1; i++) memcpy(radarNames[i], radarNames[i + 1], 64);
        radarCount--;
        nap(30000);
        for (int i = 0; i < n; i++) { cl[i].streams = cl[i].streams; }
        removed = 1;
        quiet = 0;
        nap(300000);
        quiet = 1;
        t1 = now();
        while (!idle(cl, n) && now() - t1 < SLOW && vp_viol == viol0) nap(5000);
        stat_add("radars_removed", 1);
    }
    int order = ri(2);
    if (order) finish = 1;
    if (order) for (int i = 0; i < n; i++) pthread_join(cl[i].tid, NULL);
    if (!order) finish = 2;
    t1 = now();
    if (order && chance(0.5)) {
        // those who left are forgotten
        int left = 1;
        while (left && now() - t1 < SLOW) { left = 0; for (int i = 0; i < RKServerMaximumOperators; i++) left += C->server->busy[i]; nap(2000); }
        if (left) VIOL("left", "%d clients are still there %.0f s after all have left", left, now() - t1);
        for (int i = 0; i < RKCommandCenterMaxConnections; i++) if (C->users[i].radar || C->users[i].streams) VIOL("left", "client %d has left and still has %s", i, C->users[i].radar ? "a radar" : "streams");
        for (uint32_t i = 0; i < R->sweepEngine->productBufferDepth; i++) if (R->sweepEngine->productBuffer[i].flag != RKProductStatusVacant && R->sweepEngine->productBuffer[i].desc.symbol[0] == 'U') VIOL("left", "product '%s' of a client that has left is still expected", R->sweepEngine->productBuffer[i].desc.symbol);
    }
    t1 = now();
    RKCommandCenterStop(C);
    if (now() - t1 > SLOW) VIOL("slow", "the command center took %.0f s to stop", now() - t1);
    if (!order) for (int i = 0; i < n; i++) pthread_join(cl[i].tid, NULL);
    while (C->radarCount) RKCommandCenterRemoveRadar(C, C->radars[0]);
    RKStop(R);
    RKFree(R);
    for (int i = 0; i < extra; i++) free(others[i]);
    int f1 = fds(), k = 0, t2 = tasks();
    while ((t2 = tasks()) > t0 && k++ < 400) nap(5000);
    if (t2 > t0) VIOL("threads", "%d threads before, %d after", t0, t2);
    f1 = fds();
    if (f1 > f0) VIOL("files", "%d files open before, %d after", f0, f1);
    uint64_t z[12] = {0};
    for (int i = 0; i < n; i++) {
        Cl *c = &cl[i];
        uint64_t v[] = {c->packets, c->rays, c->sweeps, c->texts, c->healths, c->statuses, c->pulses, c->answers, c->controls, c->returned, c->late, c->raw};
        for (int j = 0; j < 12; j++) z[j] += v[j];
        DISTINCTF("%d %d %d %d %llx", c->kind, n, c->polite, c->finished, (unsigned long long)c->streams);
    }
    static const char *names[] = {"packets", "rays", "sweeps", "texts", "healths", "statuses", "pulses", "answers", "controls", "returned", "late", "raw_bytes"};
    for (int j = 0; j < 12; j++) stat_add(names[j], z[j]);
    stat_add("clients", (uint64_t)n);
    if (index % 8 == 0) sample("%d clients: %llu packets, %llu rays, %llu sweeps, %llu texts, %llu pulses, %llu answers", n, (unsigned long long)z[0], (unsigned long long)z[1], (unsigned long long)z[2], (unsigned long long)z[3], (unsigned long long)z[6], (unsigned long long)z[7]);
    free(cl);
}
int main(int argc, char **argv) { return vp_main(argc, argv, one); }
