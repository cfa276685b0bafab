// The reporter of a radar against a hub of our own: each health, pulse and ray that its strides call for goes to the hub once,
// in order and as it is; each message gets its answer; each connection is introduced; and a reporter can be stopped at any time.
#include "vp.h"
#include "vpleak.h"
#include <dirent.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/socket.h>

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void nap(unsigned us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; nanosleep(&t, NULL); }
static int speed = 60;                                          // the waits between two attempts are shortened
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t) { time_t v = 1000000000 + (time_t)(now() * speed); if (t) *t = v; return v; }
int __real_usleep(useconds_t u);
int __wrap_usleep(useconds_t u) { return __real_usleep(u >= 200000 ? u / speed : u); }

enum { HEALTH, PULSE, RAY, KINDS };
static const char *kinds[] = {"health", "pulse", "ray"};
typedef struct { char *text; int len, answered; } Msg;
#define MAXMSG 400
static struct {
    RKRadar *radar;
    RKReporter *rep;
    int listener, port, nconn, plan[8], items[8], chat[8], depth[KINDS], stride[KINDS], on[KINDS];
    volatile int made[KINDS], last[KINDS], base[KINDS], conn, up, stop, closing, done, stuck;
    uint64_t seed;
    char lower[200];
    Msg msg[MAXMSG]; int nmsg, nans;
    int got, frames;
} H;

// ---- what the radar has ---------------------------------------------------------------------------------------------
static uint8_t byte_of(int kind, int n, int k) { uint64_t s = H.seed + kind * 1000003ull + n * 77ull + k / 8; return vp_mix(&s) >> (k % 8 * 8); }
static int gates_of(int kind, int n) { uint64_t s = H.seed * 3 + kind + n * 31ull; int v = vp_mix(&s) % 10; return v == 0 ? 1 + vp_mix(&s) % 8 : v < 4 ? 195 + vp_mix(&s) % 12 : 201 + vp_mix(&s) % 300; }
static void health_text(int n, char *b, size_t cap) {
    uint64_t s = H.seed * 5 + n;
    size_t len = vp_mix(&s) % 6 ? vp_mix(&s) % 300 : vp_mix(&s) % (RKMaximumStringLength - 60);
    int k = snprintf(b, cap, "{\"n\":%d, \"data\":\"", n);
    while (len-- && k < (int)cap - 4) b[k++] = ' ' + 2 + vp_mix(&s) % 90;
    snprintf(b + k, cap - k, "\"}");
}
static void make(int kind) {
    RKRadar *R = H.radar;
    int n = H.made[kind];
    if (kind == HEALTH) {
        RKHealth *h = &R->healths[n % H.depth[kind]];
        health_text(n, h->string, RKMaximumStringLength);
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
        h->flag = RKHealthFlagReady;
        H.made[kind] = n + 1;
        h = &R->healths[(n + 1) % H.depth[kind]];
        h->string[0] = 0;
        h->flag = RKHealthFlagVacant;
        R->healthIndex = (n + 1) % H.depth[kind];
    } else if (kind == PULSE) {
        RKPulse *p = RKGetVacantPulse(R);
        p->header.gateCount = gates_of(kind, n);
        for (int c = 0; c < 2; c++) {
            uint8_t *x = (uint8_t *)RKGetInt16CDataFromPulse(p, c);
            for (int k = 0; k < (int)p->header.gateCount * 4; k++) x[k] = byte_of(kind, n, c * 4000 + k);
        }
        p->header.i = n; p->header.timeDouble = n + 1;
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
        H.made[kind] = n + 1;
        RKSetPulseHasData(R, p);
    } else {
        RKGetRayFromBuffer(R->rays, RKNextNModuloS(R->rayIndex, R->desc.rayBufferDepth / 8, R->desc.rayBufferDepth))->header.s = RKRayStatusVacant;
        RKRay *r = RKGetVacantRay(R);
        r->header.gateCount = gates_of(kind, n);
        r->header.startAzimuth = n % 360; r->header.endAzimuth = (n + 1) % 360;
        r->header.startElevation = n % 91 - 1; r->header.endElevation = n % 89;
        for (int m = 0; m < RKBaseProductCount; m++) { uint8_t *z = RKGetUInt8DataFromRay(r, m); for (int k = 0; k < (int)r->header.gateCount; k++) z[k] = byte_of(kind, n, m * 1000 + k); }
        __atomic_thread_fence(__ATOMIC_SEQ_CST);
        H.made[kind] = n + 1;
        RKSetRayReady(R, r);
    }
}
static void *producer(void *in) {
    int kind = (int)(uintptr_t)in;
    uint64_t s = H.seed * 11 + kind;
    unsigned gap = 1500 + vp_mix(&s) % 6000;
    while (!H.stop) {
        int last = H.last[kind], base = H.base[kind], from = last > base ? last : base;
        if (!H.up || !H.on[kind] || H.made[kind] - from < H.depth[kind] / 3) make(kind);        // a reporter that is slow is not lapped
        nap(vp_mix(&s) % 10 ? gap : vp_mix(&s) % 2000);
    }
    return NULL;
}
static int wanted(int kind, int n) { return n % H.depth[kind] % H.stride[kind] == 0; }
static void item(int kind, int n) {
    if (!H.on[kind]) VIOL("stream", "a %s is sent though not asked for", kinds[kind]);
    if (H.last[kind] < 0) {
        if (n < H.base[kind]) VIOL("old", "%s %d is sent in a connection that began at %d", kinds[kind], n, H.base[kind]);
        if (!wanted(kind, n)) VIOL("stride", "%s %d is sent with a stride of %d", kinds[kind], n, H.stride[kind]);
    } else {
        int k = H.last[kind] + 1;
        while (!wanted(kind, k)) k++;
        if (n != k) VIOL("order", "%s %d comes after %d, instead of %d", kinds[kind], n, H.last[kind], k);
    }
    if (n >= H.made[kind]) VIOL("early", "%s %d is sent when there are %d", kinds[kind], n, H.made[kind]);
    H.last[kind] = n;
    H.got++;
    stat_add(kind == HEALTH ? "healths" : kind == PULSE ? "pulses" : "rays", 1);
}
// which one is it? the ones that it can be are few
static void judge(const uint8_t *p, size_t n) {
    int kind = p[0] == RKRadarHubTypeHealth ? HEALTH : p[0] == RKRadarHubTypeScope ? PULSE : RAY;
    int from = (H.last[kind] >= 0 ? H.last[kind] : H.base[kind]) - 2 * H.depth[kind], upto = H.made[kind];
    if (from < 0) from = 0;
    int hits = 0;
    char b[RKMaximumStringLength];
    for (int pass = 0; pass < 2 && !hits; pass++)
        for (int k = pass ? from : (H.last[kind] >= 0 ? H.last[kind] + 1 : H.base[kind]); k < upto && !hits; k++) {
            if (kind == HEALTH) {
                health_text(k, b, sizeof(b));
                hits = strlen(b) + 1 == n && !memcmp(b, p + 1, n - 1);
            } else if (kind == PULSE) {
                int c = gates_of(kind, k) < 200 ? gates_of(kind, k) : 200;
                if (n != 1 + 8 * (size_t)c) continue;
                hits = 1;
                for (int g = 0; g < c && hits; g++) for (int q = 0; q < 4 && hits; q++) {
                    int16_t v, e;
                    memcpy(&v, p + 1 + 2 * (q * c + g), 2);
                    int at = (q >= 2 ? 4000 : 0) + g * 4 + q % 2 * 2;
                    e = (int16_t)(byte_of(kind, k, at) | byte_of(kind, k, at + 1) << 8);
                    if (g == c - 1) e = q % 2 ? 1 : -1;
                    hits = v == e;
                }
                if (c == 1) hits = wanted(kind, k) ? hits : 0;      // a pulse of one gate tells nothing of itself
            } else {
                int c = gates_of(kind, k) < 200 ? gates_of(kind, k) : 200;
                RKRadarHubRayHeader h;
                if (n != sizeof(h) + c) continue;
                memcpy(&h, p, sizeof(h));
                hits = h.startElevation == k % 91 - 1 && h.endElevation == k % 89 && h.startAzimuth == k % 360 && h.endAzimuth == (k + 1) % 360;
                for (int g = 0; g < c && hits; g++) hits = p[sizeof(h) + g] == byte_of(kind, k, RKBaseProductIndexZ * 1000 + g);
            }
            if (hits) item(kind, k);
        }
    if (!hits) VIOL("content", "a %s of %zu bytes is none of %d to %d (%02x %02x %02x %02x %02x %02x)", kinds[kind], n, from, upto, p[0], p[1], p[2], p[3], p[4], p[5]);
}
// ---- the hub --------------------------------------------------------------------------------------------------------
typedef struct { uint8_t *b; size_t n, at, cap; } Buf;
static void put(Buf *o, const void *p, size_t n) {
    if (o->n + n > o->cap) { o->cap = (o->n + n) * 2 + 4096; o->b = realloc(o->b, o->cap); }
    memcpy(o->b + o->n, p, n);
    o->n += n;
}
static void frame(Buf *o, int op, const void *p, size_t n) {
    uint8_t h[10] = {0x80 | op};
    if (n < 126) { h[1] = n; put(o, h, 2); }
    else if (n < 65536) { h[1] = 126; h[2] = n >> 8; h[3] = n; put(o, h, 4); }
    else { h[1] = 127; for (int i = 0; i < 8; i++) h[2 + i] = n >> (56 - 8 * i); put(o, h, 10); }
    put(o, p, n);
}
static void say(Buf *o, uint64_t *s) {
    char b[12000];
    int n = 0;
    if (vp_mix(s) % 8 == 0) { n = snprintf(b, sizeof(b), vp_mix(s) % 2 ? "Welcome to the hub %d" : "Bye, radar %d", (int)(vp_mix(s) % 100)); frame(o, 1, b, n); stat_add("greetings", 1); return; }
    if (H.nmsg >= MAXMSG) return;
    int len = vp_mix(s) % 5 ? vp_mix(s) % 60 : vp_mix(s) % 3 ? vp_mix(s) % 4000 : 4070 + vp_mix(s) % 5000;
    while (n < len) b[n++] = vp_mix(s) % 12 ? 'a' + vp_mix(s) % 26 : "%s\\\"\x01{}% n"[vp_mix(s) % 10];
    if (n == 0) b[n++] = 'd';
    b[n] = 0;
    Msg *m = &H.msg[H.nmsg++];
    m->text = strdup(b); m->len = n; m->answered = 0;
    frame(o, 1 + vp_mix(s) % 2, b, n);
}
static void heard(const uint8_t *p, size_t n) {
    char b[9000];
    if (n == 0) { VIOL("frame", "a frame without content"); return; }
    if (H.frames == 0) {
        snprintf(b, sizeof(b), "%c{\"command\":\"radarConnect\", \"pathway\":\"%s\", \"name\":\"%s\"}", RKRadarHubTypeHandshake, H.lower, H.radar->desc.name);
        if (n != strlen(b) || memcmp(b, p, n)) VIOL("introduction", "a connection begins with '%.*s'", (int)(n < 100 ? n : 100), p);
    } else if (H.frames == 1) {
        int k = snprintf(b, sizeof(b), "%c{\"pathway\": \"%s\", \"control\": [", RKRadarHubTypeControl, H.lower), deep = 0, quoted = 0;
        if (n < (size_t)k || memcmp(b, p, k)) VIOL("introduction", "then comes '%.*s'", (int)(n < 100 ? n : 100), p);
        for (size_t i = 1; i < n; i++) {
            if (p[i] == '"') quoted = !quoted;
            else if (!quoted && (p[i] == '{' || p[i] == '[')) deep++;
            else if (!quoted && (p[i] == '}' || p[i] == ']')) { deep--; if (deep == 0 && i != n - 1) VIOL("introduction", "the control ends before its end"); }
            else if (p[i] < 32) VIOL("introduction", "the control has a character %02x", p[i]);
        }
        if (deep || quoted) VIOL("introduction", "the control is cut: '%.*s'", 60, p + (n > 60 ? n - 60 : 0));
        stat_add("introductions", 1);
    } else if (p[0] == RKRadarHubTypeResponse) {
        if (H.nans >= H.nmsg) VIOL("answer", "an answer '%.*s' to nothing", (int)(n < 60 ? n : 60), p);
        else {
            Msg *m = &H.msg[H.nans++];
            size_t most = RKMaximumStringLength - 1 - 2;
            size_t len = (size_t)m->len < most ? (size_t)m->len : most;
            if (n < 2 || !strchr("AQN", p[1]) || n != len + 2 || memcmp(p + 2, m->text, len)) VIOL("answer", "the answer to '%.40s' (%d) is '%.*s' (%zu)", m->text, m->len, (int)(n < 40 ? n : 40), p, n);
            m->answered = 1;
            stat_add("answers", 1);
        }
    } else if (p[0] == RKRadarHubTypeHealth || p[0] == RKRadarHubTypeScope || p[0] == RKRadarHubTypeRadialZ) judge(p, n);
    else VIOL("frame", "a frame of type %d", p[0]);
    H.frames++;
}
enum { CLOSE, HANG, RESET, STAY, REFUSE, ENDS };
static void serve(int fd) {
    uint64_t s = H.seed + 99 * H.conn;
    int plan = H.plan[H.conn], items = H.items[H.conn], chat = H.chat[H.conn], alive = 1, shaken = 0, sent_close = 0;
    int slow = vp_mix(&s) % 3;
    Buf in = {0}, out = {0};
    double nextSay = 0, t0 = now(), moved = t0, last_got = 0;
    H.frames = 0; H.got = 0; H.nans = H.nmsg;
    while (alive && !H.stop) {
        double t = now();
        if (shaken && chat > 0 && t >= nextSay && out.n == out.at) { chat--; int burst = 1 + vp_mix(&s) % 3; while (burst--) say(&out, &s); nextSay = t + (vp_mix(&s) % 30) * 1e-3; }
        if (H.got > last_got) { last_got = H.got; moved = t; }
        int any = H.on[0] || H.on[1] || H.on[2];
        if (H.got >= items && any) moved = t;
        if (shaken && (H.got >= items || !any) && chat == 0 && out.n == out.at && (H.nans == H.nmsg || plan != STAY) && H.frames >= 2) {
            int all = 1;
            for (int k = 0; k < KINDS; k++) if (H.on[k] && H.last[k] < 0) all = 0;
            if (all || plan == RESET) { if (plan == STAY) { H.done = 1; } else if (!sent_close) { if (plan == CLOSE) { frame(&out, 8, "\x03\xe8", 2); sent_close = 1; } else break; } }
        }
        if (shaken && !H.done && !sent_close && !H.closing && t - (moved > t0 ? moved : t0) > 25) { if (H.nans < H.nmsg || H.frames < 2 || (any && H.got < items) || t - t0 > 60) { VIOL("stuck", "%d frames, %d of %d items, %d of %d answers in connection %d after %.0f s; made %d %d %d, got %d %d %d", H.frames, H.got, items, H.nans, H.nmsg, H.conn, t - t0, H.made[0], H.made[1], H.made[2], H.last[0], H.last[1], H.last[2]); H.stuck = 1; break; } }
        fd_set r, q;
        FD_ZERO(&r); FD_ZERO(&q); FD_SET(fd, &r);
        if (out.n > out.at) FD_SET(fd, &q);
        struct timeval tv = {0, 1000};
        if (select(fd + 1, &r, &q, NULL, &tv) < 0) break;
        if (out.n > out.at && FD_ISSET(fd, &q)) {
            size_t n = out.n - out.at, most = slow == 0 ? n : slow == 1 ? 1 + vp_mix(&s) % 3000 : 1 + vp_mix(&s) % 200;
            ssize_t k = send(fd, out.b + out.at, n < most ? n : most, MSG_NOSIGNAL | MSG_DONTWAIT);
            if (k < 0 && errno != EAGAIN) break;
            if (k > 0) out.at += k;
            if (out.at == out.n) out.at = out.n = 0;
        }
        if (FD_ISSET(fd, &r)) {
            static uint8_t b[65536];
            ssize_t n = recv(fd, b, slow == 2 ? 2000 : sizeof(b), MSG_DONTWAIT);
            if (n <= 0) { if (n < 0 && errno == EAGAIN) continue; break; }
            put(&in, b, n);
        }
        if (!shaken) {
            put(&in, "", 1); in.n--;
            char *e = strstr((char *)in.b, "\r\n\r\n");
            if (!e) continue;
            char want[400];
            snprintf(want, sizeof(want), "GET /ws/radar/%s/ HTTP/1.1\r\n", H.lower);
            if (strncmp((char *)in.b, want, strlen(want))) VIOL("introduction", "the request is '%.*s'", 80, in.b);
            in.at = (uint8_t *)e + 4 - in.b;
            if (plan == REFUSE) { const char *no = "HTTP/1.1 403 Forbidden\r\n\r\n"; send(fd, no, strlen(no), MSG_NOSIGNAL); stat_add("refusals", 1); break; }
            for (int k = 0; k < KINDS; k++) { H.base[k] = H.made[k]; H.last[k] = -1; }
            H.up = 1;
            const char *yes = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: O9QKgAZPEwFaLSqyFPYMHcGBp5g=\r\n\r\n";
            put(&out, yes, strlen(yes));
            shaken = 1;
            t0 = moved = now();
        }
        while (shaken) {
            uint8_t *p = in.b + in.at;
            size_t have = in.n - in.at, head = 2;
            if (have < 2) break;
            size_t n = p[1] & 127;
            if (n == 126) { head = 4; if (have < 4) break; n = p[2] << 8 | p[3]; }
            else if (n == 127) { head = 10; if (have < 10) break; n = 0; for (int i = 0; i < 8; i++) n = n << 8 | p[2 + i]; }
            if (!(p[1] & 128) || !(p[0] & 128) || n > 2000000) { VIOL("frame", "a frame begins with %02x %02x", p[0], p[1]); alive = 0; break; }
            if (have < head + 4 + n) break;
            for (size_t i = 0; i < n; i++) p[head + 4 + i] ^= p[head + i % 4];
            int op = p[0] & 15;
            if (op == 9) frame(&out, 10, p + head + 4, n);
            else if (op == 2) heard(p + head + 4, n);
            else if (op != 10 && op != 8) { VIOL("frame", "a frame of opcode %d", op); alive = 0; break; }
            in.at += head + 4 + n;
        }
        if (in.at) { memmove(in.b, in.b + in.at, in.n - in.at); in.n -= in.at; in.at = 0; }
    }
    H.up = 0;
    if (plan == RESET) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); }
    free(in.b); free(out.b);
}
static void *hub(void *in) {
    while (!H.stop && !H.stuck) {
        fd_set r; FD_ZERO(&r); FD_SET(H.listener, &r);
        struct timeval tv = {0, 3000};
        if (select(H.listener + 1, &r, NULL, NULL, &tv) <= 0) continue;
        int fd = accept(H.listener, NULL, NULL);
        if (fd < 0) continue;
        if (H.conn > 0 && !H.closing) stat_add("reconnections", 1);
        serve(fd);
        close(fd);
        if (H.conn < H.nconn - 1) H.conn++;
    }
    return NULL;
}
// ---- a case ---------------------------------------------------------------------------------------------------------
static int count_dir(const char *p) { DIR *d = opendir(p); int n = 0; if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static void vp_case(uint64_t index) {
    static int quiet;
    if (!quiet++) { if (vp_out != stdout && !freopen("/dev/null", "w", stdout)) {} if (vp_out != stdout && !freopen("/dev/null", "w", stderr)) {} }
    memset(&H, 0, sizeof(H));
    H.seed = r64();
    H.nconn = chance(0.4) ? 1 : rr(2, 4);
    for (int i = 0; i < H.nconn; i++) { H.plan[i] = i == H.nconn - 1 ? STAY : chance(0.15) ? REFUSE : ri(STAY); H.items[i] = rr(5, 150); H.chat[i] = chance(0.3) ? 0 : ri(20); }
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    desc.initFlags = RKInitFlagAllocEverythingQuiet;
    desc.pulseToRayRatio = 1; desc.pulseCapacity = 512; desc.configBufferDepth = 8; desc.statusBufferDepth = 50;
    desc.healthBufferDepth = rr(40, 200); desc.positionBufferDepth = 50; desc.pulseBufferDepth = rr(100, 300); desc.rayBufferDepth = rr(60, 200); desc.healthNodeCount = RKHealthNodeCount;
    desc.pulseSmoothFactor = 10; desc.pulseTicsPerSecond = 1000000; desc.positionSmoothFactor = 4; desc.positionTicsPerSecond = 100;
    desc.latitude = 35; desc.longitude = -97;
    int nl = rr(1, 50);
    for (int i = 0; i < nl; i++) desc.name[i] = "ABCxyz-019_"[ri(11)];
    snprintf(H.lower, sizeof(H.lower), "%s", desc.name);
    for (int i = 0; i < nl; i++) if (H.lower[i] >= 'A' && H.lower[i] <= 'Z') H.lower[i] += 32;
    snprintf(desc.filePrefix, sizeof(desc.filePrefix), "hub");
    snprintf(desc.dataPath, sizeof(desc.dataPath), "%s/data", vp_scratch);
    RKSetWantScreenOutput(false);
    RKRadar *R = H.radar = RKInitWithDesc(desc);
    if (!R || !R->healths || !R->pulses || !R->rays) { VIOL("radar", "no radar"); return; }
    R->state |= RKRadarStateLive;
    H.depth[HEALTH] = R->desc.healthBufferDepth; H.depth[PULSE] = R->desc.pulseBufferDepth; H.depth[RAY] = R->desc.rayBufferDepth;
    for (int k = 0; k < KINDS; k++) { H.last[k] = -1; H.on[k] = chance(0.75); for (int j = ri(3) ? 0 : ri(2 * H.depth[k]); j > 0; j--) make(k); }
    H.listener = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
    socklen_t l = sizeof(a);
    if (bind(H.listener, (struct sockaddr *)&a, l) || listen(H.listener, 8) || getsockname(H.listener, (struct sockaddr *)&a, &l)) { fprintf(stderr, "no port\n"); exit(3); }
    H.port = ntohs(a.sin_port);
    int early = chance(0.2), nohost = chance(0.08);
    if (early && chance(0.2)) { close(H.listener); H.listener = socket(AF_INET, SOCK_STREAM, 0); nohost |= 2; }
    int fds0 = count_dir("/proc/self/fd"), tasks0 = count_dir("/proc/self/task");
    char address[100];
    snprintf(address, sizeof(address), chance(0.5) ? "localhost:%d" : "http://127.0.0.1:%d", H.port);
    RKReporter *e = H.rep = nohost & 1 ? RKReporterInitWithHost(chance(0.5) ? NULL : "") : RKReporterInitWithHost(address);
    if (!e) { VIOL("reporter", "no reporter"); return; }
    if (chance(0.5)) RKReporterSetVerbose(e, ri(4));
    RKReporterSetRadar(e, R);
    if (chance(0.3)) RKReporterSetVerbose(e, ri(4));
    if (chance(0.7)) { e->healthStride = rr(1, 3); e->pulseStride = rr(1, 12); e->rayStride = rr(1, 3); }
    e->streams = (H.on[HEALTH] ? RKStreamHealthInJSON : 0) | (H.on[PULSE] ? RKStreamScopeStuff : 0) | (H.on[RAY] ? RKStreamDisplayZ : 0);
    H.stride[HEALTH] = e->healthStride; H.stride[PULSE] = e->pulseStride; H.stride[RAY] = e->rayStride;
    pthread_t th, tp[KINDS];
    int rounds = chance(0.3) && !(nohost & 1) ? 2 : 1;
    for (long k = 0; k < KINDS; k++) pthread_create(&tp[k], NULL, producer, (void *)k);
    if (!nohost) pthread_create(&th, NULL, hub, NULL);
    for (int round = 0; round < rounds; round++) {
        if (round) { H.closing = 0; H.done = 0; stat_add("restarts", 1); }
        RKReporterStart(e);
        double t0 = now();
        if (nohost & 1) { if (e->state & (RKEngineStateWantActive | RKEngineStateActive)) VIOL("nohost", "a reporter without a host is in state %x", e->state); }
        else if (early || nohost) nap(ri(3) ? ri(300000) : ri(3000));
        else {
            while (!H.done && !H.stuck && now() - t0 < 100 + 60 * H.nconn) nap(2000);
            if (!H.done && !H.stuck) VIOL("stuck", "connection %d of %d after %.0f s", H.conn, H.nconn, now() - t0);
        }
        H.closing = 1;
        double t1 = now();
        RKReporterStop(e);
        if (now() - t1 > 15) VIOL("stop", "a reporter takes %.1f s to stop", now() - t1);
        if (e->state & (RKEngineStateWantActive | RKEngineStateActive)) VIOL("stop", "a stopped reporter is in state %x", e->state);
        if (chance(0.2)) RKReporterStop(e);
        stat_add("stops", 1);
    }
    RKReporterFree(e);
    nap(5000);
    H.stop = 1;
    for (long k = 0; k < KINDS; k++) pthread_join(tp[k], NULL);
    if (!nohost) pthread_join(th, NULL);
    close(H.listener);
    int fds1 = count_dir("/proc/self/fd"), tasks1 = count_dir("/proc/self/task");
    for (int i = 0; i < 200 && tasks1 > tasks0; i++) { nap(5000); tasks1 = count_dir("/proc/self/task"); }
    if (fds1 != fds0 - 1) VIOL("left", "%d descriptors instead of %d", fds1, fds0 - 1);
    if (tasks1 > tasks0) VIOL("left", "%d threads instead of %d", tasks1, tasks0);
    R->state &= ~RKRadarStateLive;
    DISTINCTF("%d %d %d %d %d %d %d %d %d", H.nconn, early, nohost, rounds, H.stride[0], H.stride[1], H.stride[2], H.on[0] + 2 * H.on[1] + 4 * H.on[2], H.nmsg / 8);
    sample("%d connections, strides %d %d %d, streams %d%d%d, made %d %d %d, %d messages%s", H.nconn, H.stride[0], H.stride[1], H.stride[2], H.on[0], H.on[1], H.on[2], H.made[0], H.made[1], H.made[2], H.nmsg, early ? ", ended early" : "");
    for (int i = 0; i < H.nmsg; i++) free(H.msg[i].text);
    RKFree(R);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
