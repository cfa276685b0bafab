// The web socket client against a server of its own: every byte, frame and call of a handler is accounted for.
#include "vp.h"
#include "vpleak.h"
#include <errno.h>
#include <dirent.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/time.h>
#include <openssl/ssl.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
// the waits between two attempts are shortened
static int speed = 60;
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t) {
    struct timespec n;
    clock_gettime(CLOCK_MONOTONIC, &n);
    time_t v = 1000000000 + (time_t)((n.tv_sec + 1e-9 * n.tv_nsec) * speed);
    if (t) *t = v;
    return v;
}
int __real_usleep(useconds_t u);
int __wrap_usleep(useconds_t u) { return __real_usleep(u >= 200000 ? u / speed : u); }

typedef struct { uint8_t *b; size_t n, at, cap; } Buf;
static void put(Buf *o, const void *p, size_t n) {
    if (o->n + n > o->cap) { o->cap = (o->n + n) * 2 + 4096; o->b = realloc(o->b, o->cap); }
    memcpy(o->b + o->n, p, n);
    o->n += n;
}
static void pad(uint8_t *b, size_t n, uint64_t s) { for (size_t i = 0; i < n; i += 8) { uint64_t v = vp_mix(&s); memcpy(b + i, &v, n - i < 8 ? n - i : 8); } }

// ---- what goes each way -------------------------------------------------------------------------
typedef struct { uint64_t s; size_t n; int op; } Msg;          // content comes from the seed
typedef struct { void *b; size_t n; int conn; uint64_t s; } Given;
enum { POLITE_CLOSE, POLITE_HANG, CUT, RESET, HUGE_FRAME, STAY, ENDS };
enum { SHAKE_OK, SHAKE_DIGEST, SHAKE_PLAIN, SHAKE_EOF, SHAKE_SILENT, SHAKE_CONNECTION, SHAKE_LONG, SHAKES };
typedef struct {
    RKWebSocket *W;
    int listener, port, nconn, plan[6], shake[6], secret;
    uint64_t seed;
    char path[120], host[100];
    volatile int stop, up, opens, closes, messages, conn, polite, busy;   // conn: the connection in progress
    volatile int attempts, done;
    Msg *sent; volatile int nsent;          // to the client, in this connection
    int bad;
    Given *given; volatile int ngiven;       // by the client
    int firstOfConn;
    volatile int received, lastReceived;     // payloads that the server has
    volatile int acceptedUpTo;
    int ping;
    volatile double opened;
    pthread_mutex_t lock;
    volatile int pongsDue, pingsSeen;
    int chat, nchat;
} World;
static World *w;
static int frames_read, pongs_checked, pings_seen, reconnections, refused_shakes, cutoff, big, together_frames;
static uint8_t *text_of(uint64_t s, size_t n) { uint8_t *b = malloc(n + 9); pad(b, n, s); return b; }

static int give(World *v, int size) {
    // a payload with its number in front, then content from its seed
    pthread_mutex_lock(&v->lock);
    int id = v->ngiven;
    if (id >= 12000) { pthread_mutex_unlock(&v->lock); return -1; }
    size_t n = size < 4 ? 4 : size;
    uint8_t *b = malloc(n + 8);
    uint64_t s = v->seed * 7919 + id;
    pad(b, n, s);
    uint32_t id32 = id;
    memcpy(b, &id32, 4);
    int r = RKWebSocketSend(v->W, b, n);
    if (r == 0) {
        v->given[id].b = b; v->given[id].n = n; v->given[id].s = s; v->given[id].conn = v->conn;
        v->ngiven++;
    } else free(b);
    pthread_mutex_unlock(&v->lock);
    return r;
}
static void onOpen(RKWebSocket *W) {
    World *v = W->parent;
    if (W != v->W || v->up) VIOL("open", "an open connection is opened again");
    v->messages = 0;
    v->opens++;
    v->conn++;
    v->up = 1;
    if (give(v, 20)) VIOL("open", "no payload is taken when a connection opens");
}
static void onClose(RKWebSocket *W) {
    World *v = W->parent;
    if (!v->up) VIOL("close", "a connection that is not open is closed (%d opened, %d closed before)", v->opens, v->closes);
    v->up = 0;
    v->closes++;
}
static void onMessage(RKWebSocket *W, void *b, size_t n) {
    World *v = W->parent;
    if (!v->up) VIOL("message", "a message of %zu bytes comes without a connection", n);
    int k = v->messages;
    // the list of what is sent is complete before its bytes are
    pthread_mutex_lock(&v->lock);
    while (k < v->nsent && v->sent[k].op != RFC6455_OPCODE_TEXT && v->sent[k].op != RFC6455_OPCODE_BINARY) k++;
    if (k >= v->nsent) { VIOL("message", "message %d of %zu bytes was not sent", k, n); pthread_mutex_unlock(&v->lock); return; }
    Msg m = v->sent[k];
    pthread_mutex_unlock(&v->lock);
    v->messages = k + 1;
    if (m.n != n) { VIOL("message", "message %d has %zu bytes, not %zu", k, n, m.n); return; }
    uint8_t *want = text_of(m.s, m.n);
    if (memcmp(b, want, n)) { size_t i = 0; while (((uint8_t *)b)[i] == want[i]) i++; VIOL("message", "message %d of %zu bytes differs at %zu", k, n, i); }
    if (((char *)b)[n]) VIOL("message", "message %d of %zu bytes is not terminated", k, n);
    free(want);
    __atomic_add_fetch(&frames_read, 1, __ATOMIC_RELAXED);
    if (v->chat && v->nchat < 40) { v->nchat++; give(v, ri(200)); }
}
// ---- the server ---------------------------------------------------------------------------------
static void frame(Buf *o, int op, const uint8_t *p, size_t n, int masked) {
    uint8_t h[14];
    int k = 0;
    h[k++] = 0x80 | op;
    int m = masked ? 0x80 : 0;
    if (n > 65535) { h[k++] = m | 127; for (int i = 7; i >= 0; i--) h[k++] = (uint64_t)n >> (8 * i); }
    else if (n > 125) { h[k++] = m | 126; h[k++] = n >> 8; h[k++] = n; }
    else h[k++] = m | n;
    uint8_t key[4] = {1, 77, 200, 3};
    if (masked) { memcpy(h + k, key, 4); k += 4; }
    put(o, h, k);
    size_t at = o->n;
    if (n) put(o, p, n);
    if (masked) for (size_t i = 0; i < n; i++) o->b[at + i] ^= key[i % 4];
}
static int tcp_write(int fd, Buf *o, size_t most) {
    size_t n = o->n - o->at;
    if (n > most) n = most;
    ssize_t r = send(fd, o->b + o->at, n, MSG_NOSIGNAL | MSG_DONTWAIT);
    if (r < 0) return errno == EAGAIN || errno == EINTR ? 0 : -1;
    o->at += r;
    if (o->at == o->n) o->at = o->n = 0;
    return 0;
}
static size_t random_size(uint64_t *s) {
    static const int edges[] = {0, 1, 2, 124, 125, 126, 127, 128, 65534, 65535, 65536, 65537};
    uint64_t v = vp_mix(s);
    switch (v % 10) {
        case 0: return edges[(v >> 8) % 12];
        case 1: return (v >> 8) % 3000;
        case 2: return (v >> 8) % 20 == 0 ? 1048576 - 16 - (v >> 16) % 20 : (v >> 8) % 100000;
        default: return (v >> 8) % 200;
    }
}
static int serve(World *v, int fd, int c) {
    uint64_t s = v->seed * 31 + c + 5;
    Buf in = {0}, out = {0};
    int shake = v->shake[c], end = v->plan[c], one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    double t0 = vp_now(), limit = t0 + 60;
    int slow = vp_mix(&s) % 3;               // 0: all at once, 1: pieces, 2: little pieces
    int phase = 0, nmsg = 0, total = 5 + vp_mix(&s) % (slow == 2 ? 20 : 60), pings = 0, pongs = 0, alive = 1, ending = 0;
    Msg ping[200];
    double next = 0;
    int expect = -1, first = -1, got = 0;
    // handshake
    while (!v->stop && vp_now() < limit) {
        fd_set r; FD_ZERO(&r); FD_SET(fd, &r);
        struct timeval tv = {0, 5000};
        if (select(fd + 1, &r, NULL, NULL, &tv) <= 0) continue;
        uint8_t b[4096];
        ssize_t n = recv(fd, b, sizeof(b), MSG_DONTWAIT);
        if (n <= 0) { alive = 0; break; }
        put(&in, b, n);
        put(&in, "", 1); in.n--;
        if (strstr((char *)in.b, "\r\n\r\n")) break;
    }
    if (!alive || v->stop) { free(in.b); return 0; }
    v->attempts++;
    char *q = (char *)in.b, wantLine[300];
    snprintf(wantLine, sizeof(wantLine), "GET %s HTTP/1.1\r\n", v->path[0] ? v->path : "/");
    if (strncmp(q, wantLine, strlen(wantLine))) VIOL("request", "the request is '%.60s', not '%.60s'", q, wantLine);
    snprintf(wantLine, sizeof(wantLine), "\r\nHost: %s\r\n", v->host);
    if (!strstr(q, wantLine)) VIOL("request", "no host %s in '%.200s'", v->host, q);
    if (!strstr(q, "\r\nUpgrade: websocket\r\n") || !strstr(q, "\r\nConnection: Upgrade\r\n") || !strstr(q, "\r\nSec-WebSocket-Version: 13\r\n") || !strstr(q, "\r\nSec-WebSocket-Key: RadarHub123456789abcde==\r\n")) VIOL("request", "the request lacks an argument: '%.300s'", q);
    if (strlen(q) != in.n) VIOL("request", "more than a request: %zu bytes", in.n);
    in.n = 0;
    // the answer
    {
        static const char *name[4][2] = {{"Sec-WebSocket-Accept", "sec-websocket-accept"}, {"Upgrade", "upgrade"}, {"Connection", "connection"}, {"Server", "X-Padding"}};
        const char *val[4] = {"O9QKgAZPEwFaLSqyFPYMHcGBp5g=", vp_mix(&s) % 2 ? "websocket" : "WebSocket", vp_mix(&s) % 2 ? "Upgrade" : "upgrade", "test"};
        char longer[3000];
        if (vp_mix(&s) % 3 == 0) { memset(longer, 'y', sizeof(longer)); longer[vp_mix(&s) % 2900] = 0; longer[2999] = 0; val[3] = longer; }
        if (shake == SHAKE_DIGEST) val[0] = "A9QKgAZPEwFaLSqyFPYMHcGBp5g=";
        if (shake == SHAKE_PLAIN) val[1] = vp_mix(&s) % 2 ? "h2c" : "";
        if (shake == SHAKE_CONNECTION) val[2] = "close";
        char longest[400];
        if (shake == SHAKE_LONG) { memset(longest, 'z', sizeof(longest)); longest[80 + vp_mix(&s) % 300] = 0; longest[399] = 0; val[vp_mix(&s) % 3] = longest; }
        int order[4] = {0, 1, 2, 3};
        for (int i = 3; i > 0; i--) { int j = vp_mix(&s) % (i + 1), t = order[i]; order[i] = order[j]; order[j] = t; }
        put(&out, "HTTP/1.1 101 Switching Protocols\r\n", 34);
        for (int i = 0; i < 4; i++) {
            const char *n = name[order[i]][vp_mix(&s) % 2];
            put(&out, n, strlen(n));
            put(&out, vp_mix(&s) % 4 ? ": " : ":", vp_mix(&s) % 4 == 9 ? 2 : 1);
            put(&out, " ", 1);
            put(&out, val[order[i]], strlen(val[order[i]]));
            put(&out, "\r\n", 2);
        }
        put(&out, "\r\n", 2);
        if (shake == SHAKE_EOF) out.n = vp_mix(&s) % (out.n - 2);
        if (shake == SHAKE_SILENT) out.n = vp_mix(&s) % 2 ? 0 : 20;
    }
    int opens = v->opens;
    if (shake == SHAKE_OK) {
        pthread_mutex_lock(&v->lock);
        v->nsent = 0;
        pthread_mutex_unlock(&v->lock);
        phase = 1;
        // frames may follow at once
        if (vp_mix(&s) % 2) { next = 0; } else next = vp_now() + 0.01;
    } else { __atomic_add_fetch(&refused_shakes, 1, __ATOMIC_RELAXED); }
    double closeAt = shake == SHAKE_SILENT ? vp_now() + 0.05 + (vp_mix(&s) % 100) * 1e-3 : 0, drained = 0;
    int early = phase && vp_mix(&s) % 2;
    if (early) phase = 2;
    double idleUntil = 0;
    while (alive && vp_now() < limit) {
        double t = vp_now();
        // what there is to say
        if ((phase == 2 || (phase == 1 && out.n == out.at)) && nmsg < total && (t >= next)) {
            phase = 2;
            int burst = 1 + vp_mix(&s) % 6;
            if (burst > 2) together_frames++;
            while (burst-- && nmsg < total) {
                uint64_t k = vp_mix(&s);
                int op = k % 5 == 0 ? RFC6455_OPCODE_PING : k % 17 == 1 ? RFC6455_OPCODE_PONG : k % 2 ? RFC6455_OPCODE_TEXT : RFC6455_OPCODE_BINARY;
                size_t n = random_size(&s);
                if (slow == 2 && n > 3000) n %= 3000;
                if (op == RFC6455_OPCODE_PING || op == RFC6455_OPCODE_PONG) n %= 126;
                if (n > 65535) __atomic_add_fetch(&big, 1, __ATOMIC_RELAXED);
                if (op == RFC6455_OPCODE_PING && pings >= 200) continue;
                Msg m = {vp_mix(&s), n, op};
                uint8_t *b = text_of(m.s, n);
                pthread_mutex_lock(&v->lock);
                v->sent[v->nsent++] = m;
                pthread_mutex_unlock(&v->lock);
                frame(&out, op, b, n, vp_mix(&s) % 20 == 0);
                free(b);
                if (op == RFC6455_OPCODE_PING) ping[pings++] = m;
                nmsg++;
            }
            next = t + (vp_mix(&s) % 4 ? 0 : (vp_mix(&s) % 20) * 1e-3);
            if (vp_mix(&s) % 30 == 0) next = t + 0.1;
        }
        // the end
        if (phase == 2 && nmsg == total && out.n == out.at && !ending) {
            if (end == CUT || end == RESET || end == HUGE_FRAME) ending = 1;
            else {
                // polite: everything that was said is heard, on both sides
                v->polite = 1;
                int heard = 1;
                pthread_mutex_lock(&v->lock);
                int k = v->messages;
                while (k < v->nsent && v->sent[k].op != RFC6455_OPCODE_TEXT && v->sent[k].op != RFC6455_OPCODE_BINARY) k++;
                if (k < v->nsent || pongs < pings) heard = 0;
                int want = v->ngiven;
                pthread_mutex_unlock(&v->lock);
                if (v->busy || expect < want) heard = 0;
                if (!drained) drained = t + 25;
                if (heard) ending = 1;
                else if (t > drained) {
                    VIOL("lost", "after 25 s the client has %d of %d frames, the server %d of %d pongs and payload %d of %d", k, v->nsent, pongs, pings, expect, want);
                    ending = 1;
                }
                if (ending && end == STAY && idleUntil == 0) { ending = 0; idleUntil = t; }
                if (end == STAY && idleUntil) { ending = 0; v->done = 1; }
            }
        }
        if (ending == 1 && out.n == out.at) {
            if (end == POLITE_CLOSE) { uint8_t code[2] = {3, 232}; int bare = vp_mix(&s) % 2; frame(&out, RFC6455_OPCODE_CLOSE, code, bare ? 0 : 2, 0); ending = 2; }
            else if (end == CUT) { Buf x = {0}; uint8_t *b = text_of(1, 300); frame(&x, RFC6455_OPCODE_BINARY, b, 300, 0); free(b); put(&out, x.b, 1 + vp_mix(&s) % 302); free(x.b); ending = 3; }
            else if (end == HUGE_FRAME) { uint8_t h[10] = {0x82, 127, 0, 0, 0, 0, 0, 16, 0, (uint8_t)(vp_mix(&s) % 3)}; if (vp_mix(&s) % 2) h[2 + vp_mix(&s) % 5] = 1 + vp_mix(&s) % 255; if (h[9] == 0 && 0) h[9] = 1; put(&out, h, 10); ending = 2; }
            else break;
        }
        if (ending == 3 && out.n == out.at) break;
        if (phase == 0 && out.n == out.at && t >= closeAt) { if (shake != SHAKE_SILENT || t >= closeAt) { __real_usleep(20000); break; } }
        fd_set r, q;
        FD_ZERO(&r); FD_ZERO(&q);
        FD_SET(fd, &r);
        if (out.n > out.at) FD_SET(fd, &q);
        struct timeval tv = {0, 2000};
        if (select(fd + 1, &r, &q, NULL, &tv) < 0) break;
        if (out.n > out.at && FD_ISSET(fd, &q)) {
            size_t most = slow == 0 ? (size_t)-1 : slow == 1 ? 1 + vp_mix(&s) % 9000 : 1 + vp_mix(&s) % 40;
            if (tcp_write(fd, &out, most) < 0) { alive = 0; break; }
            if (slow && vp_mix(&s) % 8 == 0) __real_usleep(vp_mix(&s) % 600);
        }
        if (FD_ISSET(fd, &r)) {
            uint8_t b[65536];
            ssize_t n = recv(fd, b, 1 + vp_mix(&s) % sizeof(b), MSG_DONTWAIT);
            if (n <= 0) { alive = 0; break; }
            put(&in, b, n);
        }
        // what the client says
        for (;;) {
            uint8_t *p = in.b + in.at;
            size_t have = in.n - in.at, k = 2;
            if (have < 2) break;
            uint64_t n = p[1] & 127;
            if (n == 126) { if (have < 4) break; n = p[2] << 8 | p[3]; k = 4; }
            else if (n == 127) { if (have < 10) break; n = 0; for (int i = 0; i < 8; i++) n = n << 8 | p[2 + i]; k = 10; }
            if (!(p[0] & 0x80) || (p[0] & 0x70) || !(p[1] & 0x80)) { VIOL("frame", "a frame of the client begins with %02x %02x", p[0], p[1]); alive = 0; break; }
            if ((k == 4 && n < 126) || (k == 10 && n < 65536)) VIOL("frame", "%llu bytes have a header of %zu bytes", (unsigned long long)n, k);
            if (n > 1048576) { VIOL("frame", "a frame of the client has %llu bytes", (unsigned long long)n); alive = 0; break; }
            if (have < k + 4 + n) break;
            uint8_t *key = p + k, *d = p + k + 4;
            for (size_t i = 0; i < n; i++) d[i] ^= key[i % 4];
            int op = p[0] & 15;
            if (phase == 0) VIOL("frame", "a frame is sent after a failed handshake");
            if (op == RFC6455_OPCODE_PONG) {
                if (pongs >= pings) VIOL("pong", "a pong of %llu bytes was not asked for", (unsigned long long)n);
                else {
                    uint8_t *want = text_of(ping[pongs].s, ping[pongs].n);
                    if (ping[pongs].n != n || memcmp(want, d, n)) VIOL("pong", "pong %d has %llu bytes '%.4s', not %zu", pongs, (unsigned long long)n, (char *)d, ping[pongs].n);
                    free(want);
                    pongs++;
                    __atomic_add_fetch(&pongs_checked, 1, __ATOMIC_RELAXED);
                }
            } else if (op == RFC6455_OPCODE_PING) {
                if (n > 125) VIOL("frame", "a ping of %llu bytes", (unsigned long long)n);
                pings_seen++;
                v->pingsSeen++;
            } else if (op == RFC6455_OPCODE_BINARY) {
                uint32_t id = 0;
                if (n >= 4) memcpy(&id, d, 4);
                pthread_mutex_lock(&v->lock);
                Given g = {0};
                if (n >= 4 && (int)id < v->ngiven) g = v->given[id];
                pthread_mutex_unlock(&v->lock);
                if (!g.b) { VIOL("payload", "%llu bytes were never given", (unsigned long long)n); alive = 0; break; }
                if (g.n != n || memcmp(g.b, d, n)) VIOL("payload", "payload %u has %llu bytes, not %zu, or other content", id, (unsigned long long)n, g.n);
                if (first < 0) {
                    first = id;
                    if ((int)id <= v->lastReceived) VIOL("payload", "payload %u comes again in a later connection", id);
                } else if ((int)id != expect) VIOL("payload", "payload %u comes after %d", id, expect - 1);
                expect = id + 1;
                v->lastReceived = id;
                got++;
            } else VIOL("frame", "the client sends a frame of type %d", op);
            in.at += k + 4 + n;
        }
        if (in.at == in.n) in.at = in.n = 0;
        if (v->stop && phase == 0) break;
    }
    if (vp_now() >= limit) VIOL("stuck", "a connection does not come to its end in 60 s: handshake %d, end %d, phase %d, %d of %d frames, %zu bytes left", shake, end, phase, nmsg, total, out.n - out.at);
    if (end == RESET && phase && ending) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); }
    if (shake != SHAKE_OK) {
        close(fd);
        fd = -1;
        __real_usleep(15000);
        if (v->opens != opens) VIOL("open", "a connection opens on a handshake of kind %d", shake);
    }
    if (ending && phase && end != STAY) __atomic_add_fetch(&cutoff, end >= CUT, __ATOMIC_RELAXED);
    stat_add("payloads", got);
    if (fd >= 0) close(fd);
    free(in.b); free(out.b);
    v->polite = 0;
    return phase;
}
static void *server(void *in) {
    World *v = in;
    for (int c = 0; c < v->nconn && !v->stop;) {
        fd_set r; FD_ZERO(&r); FD_SET(v->listener, &r);
        struct timeval tv = {0, 5000};
        if (select(v->listener + 1, &r, NULL, NULL, &tv) <= 0) continue;
        int fd = accept(v->listener, NULL, NULL);
        if (fd < 0) continue;
        serve(v, fd, c);
        c++;
        if (c > 1) __atomic_add_fetch(&reconnections, 1, __ATOMIC_RELAXED);
    }
    v->done = 1;
    return NULL;
}
// ---- a TLS end in front of the server --------------------------------------------------------------
typedef struct { int listener, to; volatile int stop; SSL_CTX *ctx; } Tls;
static SSL_CTX *tls_context(void) {
    static SSL_CTX *ctx;
    if (ctx) return ctx;
    EVP_PKEY *key = EVP_EC_gen("P-256");
    X509 *x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), 1);
    X509_gmtime_adj(X509_getm_notBefore(x), -86400 * 365L * 60);
    X509_gmtime_adj(X509_getm_notAfter(x), 86400 * 365L * 20);
    X509_set_pubkey(x, key);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (unsigned char *)"localhost", -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x));
    X509_sign(x, key, EVP_sha256());
    ctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate(ctx, x);
    SSL_CTX_use_PrivateKey(ctx, key);
    X509_free(x); EVP_PKEY_free(key);
    return ctx;
}
static void tls_shuttle(Tls *T, int fd) {
    struct timeval limit = {5, 0};
    setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &limit, sizeof(limit));
    setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &limit, sizeof(limit));
    SSL *ssl = SSL_new(T->ctx);
    SSL_set_fd(ssl, fd);
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(T->to), .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
    int to = socket(AF_INET, SOCK_STREAM, 0);
    if (SSL_accept(ssl) == 1 && connect(to, (struct sockaddr *)&a, sizeof(a)) == 0) {
        // neither side may hold up the other: what is read is kept until it can be written
        Buf up = {0}, down = {0};
        fcntl(fd, F_SETFL, O_NONBLOCK);
        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
        char b[16384];
        int over = 0;
        while (!T->stop) {
            fd_set r, q;
            FD_ZERO(&r); FD_ZERO(&q);
            FD_SET(fd, &r);
            if (!over) FD_SET(to, &r);
            if (down.n > down.at) FD_SET(fd, &q);
            if (up.n > up.at) FD_SET(to, &q);
            struct timeval tv = {0, SSL_pending(ssl) ? 0 : 3000};
            if (select((fd > to ? fd : to) + 1, &r, &q, NULL, &tv) < 0) break;
            if (FD_ISSET(fd, &r) || SSL_pending(ssl)) {
                int n = SSL_read(ssl, b, sizeof(b));
                if (n > 0) put(&up, b, n);
                else { int e = SSL_get_error(ssl, n); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) break; }
            }
            if (!over && FD_ISSET(to, &r)) {
                ssize_t n = recv(to, b, sizeof(b), MSG_DONTWAIT);
                if (n > 0) put(&down, b, n);
                else if (n == 0 || (errno != EAGAIN && errno != EINTR)) over = 1;
            }
            if (up.n > up.at && tcp_write(to, &up, -1) < 0) over = 1;
            if (down.n > down.at) {
                int n = SSL_write(ssl, down.b + down.at, (int)(down.n - down.at));
                if (n > 0) { down.at += n; if (down.at == down.n) down.at = down.n = 0; }
                else { int e = SSL_get_error(ssl, n); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) break; }
            }
            if (over && down.n == down.at) break;
        }
        free(up.b); free(down.b);
    }
    SSL_free(ssl);
    close(to); close(fd);
}
static void *tls_server(void *in) {
    Tls *T = in;
    while (!T->stop) {
        fd_set r; FD_ZERO(&r); FD_SET(T->listener, &r);
        struct timeval tv = {0, 5000};
        if (select(T->listener + 1, &r, NULL, NULL, &tv) <= 0) continue;
        int fd = accept(T->listener, NULL, NULL);
        if (fd >= 0) tls_shuttle(T, fd);
    }
    return NULL;
}
// ---- a case -------------------------------------------------------------------------------------
static int count_dir(const char *d) {
    DIR *dir = opendir(d);
    if (!dir) return -1;
    int n = 0;
    while (readdir(dir)) n++;
    closedir(dir);
    return n;
}
static int listen_on(int *port) {
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
    socklen_t l = sizeof(a);
    if (bind(fd, (struct sockaddr *)&a, l) || listen(fd, 8) || getsockname(fd, (struct sockaddr *)&a, &l)) { fprintf(stderr, "no port\n"); exit(3); }
    *port = ntohs(a.sin_port);
    return fd;
}
static void addresses(void) {
    // how an address is taken apart
    static const char *hosts[] = {"localhost", "radar.example.org", "127.0.0.1", "h", "a-host-name-of-some-length.and.domains.example.org"};
    for (int i = 0; i < 20; i++) {
        char a[300], path[200] = "";
        char longHost[160];
        const char *h = hosts[ri(5)];
        if (chance(0.1)) { int n = rr(70, 150); memset(longHost, 'h', n); longHost[n] = 0; h = longHost; }
        int proto = ri(3), port = chance(0.5) ? rr(1, 65535) : 0;
        if (chance(0.1)) port = 443;
        if (chance(0.1) && port) h = "";
        int n = snprintf(a, sizeof(a), "%s%s", proto == 1 ? "http://" : proto == 2 ? "https://" : "", h);
        if (port) snprintf(a + n, sizeof(a) - n, ":%d", port);
        if (chance(0.7)) { int k = chance(0.1) ? rr(70, 190) : rr(0, 40); path[0] = '/'; for (int j = 1; j < k; j++) path[j] = 'a' + ri(26); if (k) path[k] = 0; else path[0] = 0; }
        RKWebSocket *W = RKWebSocketInit(a, chance(0.9) || path[0] ? path : NULL);
        if (!W) { VIOL("address", "no web socket for '%s'", a); continue; }
        int ssl = proto == 2 || port == 443, wantPort = port ? port : ssl ? 443 : 80;
        char wantHost[80], wantPath[80];
        snprintf(wantHost, sizeof(wantHost), "%s", h[0] ? h : "localhost");
        snprintf(wantPath, sizeof(wantPath), "%s", path[0] ? path : "/");
        if (strcmp(W->host, wantHost) || strcmp(W->path, wantPath) || W->port != wantPort || W->useSSL != ssl) VIOL("address", "'%s' '%s' becomes host '%s' port %d path '%s' ssl %d", a, path, W->host, W->port, W->path, W->useSSL);
        if (chance(0.3)) { RKWebSocketSetPath(W, "/other"); if (strcmp(W->path, "/other")) VIOL("address", "the path is not set"); }
        RKWebSocketFree(W);
        stat_add("addresses", 1);
    }
    if (RKWebSocketInit(NULL, "/") || RKWebSocketInit("", "/")) VIOL("address", "a web socket without a host");
}
static void session(uint64_t index) {
    World *v = w = calloc(1, sizeof(World));
    v->seed = r64();
    int tls = index % 8 == 3;
    v->sent = calloc(4096, sizeof(Msg));
    v->given = calloc(12000, sizeof(Given));
    v->lastReceived = -1;
    pthread_mutex_init(&v->lock, NULL);
    v->nconn = chance(0.4) ? 1 : rr(2, 5);
    for (int i = 0; i < v->nconn; i++) {
        v->shake[i] = chance(0.7) ? SHAKE_OK : 1 + ri(SHAKES - 1);
        v->plan[i] = i == v->nconn - 1 ? (chance(0.7) ? STAY : ri(STAY)) : ri(STAY);
        if (tls && v->plan[i] == RESET) v->plan[i] = CUT;
    }
    if (chance(0.7)) v->shake[v->nconn - 1] = SHAKE_OK;
    int port;
    v->listener = listen_on(&v->port);
    port = v->port;
    Tls T = {0};
    pthread_t tt, ts;
    int fds0 = count_dir("/proc/self/fd");
    if (tls) {
        T.to = v->port; T.ctx = tls_context(); T.listener = listen_on(&port);
        pthread_create(&tt, NULL, tls_server, &T);
    }
    snprintf(v->host, sizeof(v->host), "%s", chance(0.5) ? "localhost" : "127.0.0.1");
    if (chance(0.8)) { int n = rr(1, 70); v->path[0] = '/'; for (int i = 1; i < n; i++) v->path[i] = "abc/de-_0"[ri(9)]; }
    char address[200];
    snprintf(address, sizeof(address), "%s%s:%d", tls ? "https://" : chance(0.5) ? "http://" : "", v->host, port);
    RKWebSocket *W = v->W = RKWebSocketInit(address, v->path);
    RKWebSocketSetParent(W, v);
    RKWebSocketSetOpenHandler(W, onOpen);
    RKWebSocketSetCloseHandler(W, onClose);
    RKWebSocketSetMessageHandler(W, onMessage);
    RKWebSocketSetVerbose(W, chance(0.3) ? rr(1, 3) : 0);
    v->ping = chance(0.4);
    if (v->ping) RKWebSocketSetPingInterval(W, 0.03f);
    v->chat = chance(0.3);
    v->busy = 1;
    pthread_create(&ts, NULL, server, v);
    int before = chance(0.3) ? rr(1, 20) : 0;
    // given before there is a connection: not delivered, but not harmful either
    RKWebSocketStart(W);
    for (int i = 0; i < before; i++) give(v, ri(100));
    double until = vp_now() + rf(0.05, 1.5);
    int stopEarly = chance(0.25), target = chance(0.2) ? 1500 : rr(5, 150), given = 0, full = 0, conn = 0;
    uint64_t s = r64();
    while (vp_now() < until || (!stopEarly && !v->done && vp_now() < until + 90)) {
        if (v->up && v->conn != conn) { conn = v->conn; given = 0; v->busy = 1; }
        if (v->up && given < target) {
            int burst = chance(0.3) ? target - given : rr(1, 10);
            while (burst-- && given < target) {
                size_t n = random_size(&s);
                if (target > 200) n %= 300;
                if (give(v, n)) { full++; break; }
                given++;
            }
        }
        if (given >= target || !v->up) v->busy = 0;
        if (stopEarly && v->done) break;
        __real_usleep(chance(0.1) ? 3000 : 200);
    }
    v->busy = 0;
    if (!stopEarly && !v->done) VIOL("stuck", "%d connections do not come to their end", v->nconn);
    // an idle connection is pinged
    if (v->ping && v->up && v->done && v->plan[v->nconn - 1] == STAY) {
        int p0 = v->pingsSeen;
        for (int k = 0; k < 3000 && v->pingsSeen == p0; k++) __real_usleep(1000);
        if (v->pingsSeen == p0) VIOL("ping", "an idle connection is not pinged");
    }
    if (!stopEarly && chance(0.2)) {
        void *b = calloc(1, 1 << 21);
        if (RKWebSocketSend(W, b, (1 << 20) + ri(1 << 20)) >= 0) VIOL("payload", "a payload that does not fit is taken");
        free(b);
        stat_add("oversize", 1);
    }
    double t0 = vp_now();
    RKWebSocketStop(W);
    double took = vp_now() - t0;
    if (took > 12.0) VIOL("stop", "the stop takes %.1f s", took);
    if (v->up || v->opens != v->closes) VIOL("close", "%d connections opened, %d closed after the stop", v->opens, v->closes);
    if (W->connected) VIOL("close", "the web socket is connected after the stop");
    v->stop = 1;
    pthread_join(ts, NULL);
    if (tls) { T.stop = 1; pthread_join(tt, NULL); close(T.listener); stat_add("tls", 1); }
    RKWebSocketFree(W);
    int fds1 = count_dir("/proc/self/fd");
    if (fds0 != fds1) VIOL("descriptors", "%d descriptors before, %d after", fds0, fds1);
    close(v->listener);
    int nrun = 0;
    for (int i = 0; i < v->ngiven; i++) { free(v->given[i].b); nrun++; }
    stat_add("given", v->ngiven); stat_add("full", full > 0); stat_add("opens", v->opens); stat_add("stopped_early", stopEarly);
    for (int i = 0; i < v->nconn; i++) DISTINCTF("%d %d %d %d %d", v->shake[i], v->plan[i], i, tls, target / 50);
    sample("%d connections to %s, %d opened, %d payloads, %s%s", v->nconn, address, v->opens, v->ngiven, tls ? "TLS " : "", stopEarly ? "stopped early" : "");
    free(v->given); free(v->sent);
    pthread_mutex_destroy(&v->lock);
    free(v);
}
static void vp_case(uint64_t index) {
    static int quiet;
    if (!quiet++) { if (vp_out != stdout && !freopen("/dev/null", "w", stdout)) {} }
    if (index % 16 == 15) { addresses(); return; }
    session(index);
    stat_add("messages", frames_read); stat_add("pongs", pongs_checked); stat_add("pings", pings_seen); stat_add("reconnections", reconnections);
    stat_add("refused_handshakes", refused_shakes); stat_add("cut_off", cutoff); stat_add("long_frames", big); stat_add("bursts", together_frames);
    frames_read = pongs_checked = pings_seen = reconnections = refused_shakes = cutoff = big = together_frames = 0;
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
