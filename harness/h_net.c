// The transport: server, client and packet writers over real loopback sockets, with fragmentation, slow readers, abrupt ends.
#include "vp.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <poll.h>
#include <dirent.h>
#include <errno.h>
#include <sched.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
size_t __sanitizer_get_current_allocated_bytes(void);
#define HAVE_BYTES 1
#endif
#endif

static volatile int nap_div = 20;
int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us) {
    us = us / nap_div + 1;
    struct timespec t = {us / 1000000, (us % 1000000) * 1000L};
    nanosleep(&t, NULL);
    return 0;
}
// A descriptor closed twice may be another thread's file by then
static volatile int bad_close, watch_close;
int __real_close(int fd);
int __wrap_close(int fd) {
    int r = __real_close(fd), e = errno;
    if (r < 0 && e == EBADF && watch_close) __atomic_add_fetch(&bad_close, 1, __ATOMIC_SEQ_CST);
    errno = e;
    return r;
}
static volatile int net_port;
int __real_bind(int fd, const struct sockaddr *a, socklen_t n);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
    struct sockaddr_in s;
    memcpy(&s, a, sizeof(s));
    s.sin_port = 0;
    s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int r = __real_bind(fd, (struct sockaddr *)&s, sizeof(s));
    socklen_t l = sizeof(s);
    getsockname(fd, (struct sockaddr *)&s, &l);
    net_port = ntohs(s.sin_port);
    return r;
}
static int count_dir(const char *p) {
    DIR *d = opendir(p);
    int n = 0;
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static int fds(void) { return count_dir("/proc/self/fd"); }
static int tasks(void) { return count_dir("/proc/self/task"); }
static void nap(unsigned us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; nanosleep(&t, NULL); }
// Thread-local random numbers (rand of the case is not thread safe)
static uint64_t tr(uint64_t *s) { return vp_mix(s); }

// ---- packet writers -----------------------------------------------------------------------------------------------
typedef struct { int fd; size_t limit; uint64_t s; int slow; uint8_t *b; size_t n; } Drain;
static void *drain(void *in) {
    Drain *d = in;
    d->n = 0;
    while (1) {
        if (d->slow) nap(tr(&d->s) % (unsigned)d->slow);
        ssize_t r = read(d->fd, d->b + d->n, d->limit - d->n > 0 ? 1 + tr(&d->s) % (d->limit - d->n) : 1);
        if (r <= 0) break;
        d->n += r;
        if (d->n >= d->limit) break;
    }
    return NULL;
}
static void case_send(void) {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return;
    int small = chance(0.6), nonblock = chance(0.7), op = chance(0.5), n = rr(1, 8);
    int sz = rr(2, 9) * 1024;
    if (small) { setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz)); setsockopt(sv[1], SOL_SOCKET, SO_RCVBUF, &sz, sizeof(sz)); }
    if (nonblock) fcntl(sv[0], F_SETFL, O_NONBLOCK);
    size_t z[8], total = 0;
    uint8_t *p[8];
    for (int i = 0; i < 8; i++) {
        z[i] = i >= n ? 0 : chance(0.2) ? (size_t)rr(1, 8) : chance(0.5) ? (size_t)rr(1, 2000) : (size_t)rr(1, small ? 60000 : 20000);
        p[i] = i < n ? malloc(z[i]) : NULL;
        for (size_t k = 0; k < z[i]; k++) p[i][k] = (uint8_t)r64();
        total += z[i];
    }
    Drain d = {sv[1], total + 16, r64(), chance(0.5) ? 0 : chance(0.5) ? 300 : 3000, malloc(total + 16), 0};
    pthread_t t;
    int broken = chance(0.08);
    if (broken) { close(sv[1]); } else pthread_create(&t, NULL, drain, &d);
    ssize_t r;
    RKOperator O;
    memset(&O, 0, sizeof(O));
    pthread_mutex_init(&O.lock, NULL);
    O.sid = sv[0];
#define A(i) p[i], (ssize_t)z[i]
#define CALL(f, x) (n == 1 ? f(x, A(0), NULL) : n == 2 ? f(x, A(0), A(1), NULL) : n == 3 ? f(x, A(0), A(1), A(2), NULL) : n == 4 ? f(x, A(0), A(1), A(2), A(3), NULL) \
    : n == 5 ? f(x, A(0), A(1), A(2), A(3), A(4), NULL) : n == 6 ? f(x, A(0), A(1), A(2), A(3), A(4), A(5), NULL) \
    : n == 7 ? f(x, A(0), A(1), A(2), A(3), A(4), A(5), A(6), NULL) : f(x, A(0), A(1), A(2), A(3), A(4), A(5), A(6), A(7), NULL))
    r = op ? CALL(RKOperatorSendPackets, &O) : CALL(RKNetworkSendPackets, sv[0]);
    if (pthread_mutex_trylock(&O.lock)) VIOL("lock", "the operator is still locked after its packets were sent");
    shutdown(sv[0], SHUT_WR);
    if (broken) {
        if (r >= 0) VIOL("closed", "%zu bytes written to a closed connection: returned %zd", total, r);
        stat_add("sends_to_closed", 1);
    } else {
        pthread_join(t, NULL);
        size_t k = 0;
        int bad = -1;
        for (int i = 0; i < n && bad < 0; i++) for (size_t j = 0; j < z[i] && k < d.n; j++, k++) if (d.b[k] != p[i][j]) { bad = i; break; }
        if (bad >= 0) VIOL("bytes", "%s of %d payloads: byte %zu, in payload %d, arrived changed (%zu of %zu bytes arrived, returned %zd)", op ? "operator" : "network", n, k, bad, d.n, total, r);
        if (r >= 0 && (d.n != total || (size_t)r != total)) VIOL("whole", "%s of %d payloads of %zu bytes: %zu arrived, returned %zd", op ? "operator" : "network", n, total, d.n, r);
        if (r < 0 && (!nonblock || (!small && total < 40000))) VIOL("refused", "%s of %d payloads of %zu bytes returned %zd with room for all of them", op ? "operator" : "network", n, total, r);
        if (r >= 0) stat_add("sends_whole", 1); else stat_add("sends_given_up", 1);
        stat_add("bytes_sent", (double)d.n);
        close(sv[1]);
    }
    close(sv[0]);
    for (int i = 0; i < n; i++) free(p[i]);
    free(d.b);
    DISTINCTF("send %d %d %d %d %d %d", op, n, nonblock, small, d.slow, (int)log2(total + 1));
}

// ---- server -------------------------------------------------------------------------------------------------------
#define MAXCON 64
#define MAXCMD 60
typedef struct {
    int used, welcomed, ended, cmds, streams, after, bye, client;
    char got[MAXCMD][64];
    uint64_t s;
    uint32_t seq;
    volatile int quit;
} Con;
static Con con[MAXCON];
static int ncon;
static int conOf[RKServerMaximumOperators];
static pthread_mutex_t clock_ = PTHREAD_MUTEX_INITIALIZER;
static int streamMax, streamKind, cmdDelay;
static uint64_t srvSeed;
static Con *conFor(RKOperator *O) {
    pthread_mutex_lock(&clock_);
    Con *c = &con[conOf[O->iid]];
    pthread_mutex_unlock(&clock_);
    return c;
}
static int hw(RKOperator *O) {
    pthread_mutex_lock(&clock_);
    int k = ncon < MAXCON ? ncon++ : MAXCON - 1;
    conOf[O->iid] = k;
    memset(&con[k], 0, sizeof(Con));
    con[k].used = con[k].welcomed = 1;
    con[k].s = srvSeed + k * 77777ULL;
    pthread_mutex_unlock(&clock_);
    char b[64];
    snprintf(b, sizeof(b), "welcome %d", k);
    RKOperatorSendDelimitedString(O, b);
    return 0;
}
static int hc(RKOperator *O) {
    Con *c = conFor(O);
    if (c->ended) c->after++;
    if (c->cmds < MAXCMD) snprintf(c->got[c->cmds], 64, "%s", O->cmd);
    c->cmds++;
    uint64_t x = srvSeed ^ (c->cmds * 1234567ULL);
    if (cmdDelay) nap(tr(&x) % (unsigned)cmdDelay);
    char b[RKMaximumCommandLength + 32];
    snprintf(b, sizeof(b), "R:%s", O->cmd);
    if (c->ended) c->after++;
    RKOperatorSendCommandResponse(O, b);
    if (!strncmp(O->cmd, "bye", 3)) { c->bye = 1; RKOperatorHangUp(O); }
    return 0;
}
static uint8_t pat(uint32_t seq, size_t k) { return (uint8_t)(seq * 31 + k * 7 + (k >> 8)); }
static int hs(RKOperator *O) {
    Con *c = conFor(O);
    if (c->ended) c->after++;
    if (c->streams >= streamMax || tr(&c->s) % 4) return 0;
    c->streams++;
    uint32_t q = c->seq++;
    if (streamKind && tr(&c->s) % 2) {
        char b[400];
        int n = snprintf(b, sizeof(b), "S %u ", q), m = (int)(tr(&c->s) % 300);
        for (int i = 0; i < m; i++) b[n++] = 'a' + (q + i) % 26;
        b[n] = 0;
        RKOperatorSendDelimitedString(O, b);
        return 0;
    }
    size_t z = 4 + (tr(&c->s) % 8 ? tr(&c->s) % 3000 : tr(&c->s) % 60000);
    uint8_t *b = malloc(z);
    memcpy(b, &q, 4);
    for (size_t i = 4; i < z; i++) b[i] = pat(q, i);
    RKNetDelimiter d;
    memset(&d, 0, sizeof(d));
    d.type = RKNetworkPacketTypePulseData;
    d.size = (uint32_t)z;
    size_t a = 4 + tr(&c->s) % (z - 3), e = a + tr(&c->s) % (z - a + 1);
    if (a == z) RKOperatorSendPackets(O, &d, sizeof(d), b, z, NULL);
    else if (e == a || e == z) RKOperatorSendPackets(O, &d, sizeof(d), b, a, b + a, z - a, NULL);
    else RKOperatorSendPackets(O, &d, sizeof(d), b, a, b + a, e - a, b + e, z - e, NULL);
    free(b);
    return 0;
}
static int ht(RKOperator *O) {
    Con *c = conFor(O);
    c->ended++;
    if (c->s % 3 == 0) nap(500);
    return 0;
}
typedef struct { int id, ncmd, end, small, pause, max; uint64_t s; int con, sent, responses, frames, busy, served; char cmd[MAXCMD][64]; volatile int fin; volatile int *stop; int closed, room; } Cli;
// end: 0 all answered then close; 1 abrupt reset; 2 bye; 3 until the server stops
static void *client(void *in) {
    Cli *c = in;
    int fd = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_port = htons(net_port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
    int z = 4096, one = 1;
    if (c->small) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &z, sizeof(z));
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    nap(tr(&c->s) % 3000);
    if (connect(fd, (struct sockaddr *)&a, sizeof(a))) { c->fin = 1; close(fd); return NULL; }
    fcntl(fd, F_SETFL, O_NONBLOCK);
    // All the lines as one text, sent in pieces of any size
    char *text = malloc(MAXCMD * 80);
    int n = 0;
    for (int i = 0; i < c->ncmd; i++) n += sprintf(text + n, "%s%s", c->cmd[i], tr(&c->s) % 2 ? "\r\n" : "\n");
    int off = 0;
    int burst = tr(&c->s) % 3;
    int stopAt = c->end == 1 ? (int)(tr(&c->s) % (n + 1)) : n;
    size_t cap = 1 << 18, len = 0;
    uint8_t *b = malloc(cap);
    double t0 = vp_now(), tl = t0, tnext = 0;
    uint32_t seqNext = 0;
    int eof = 0, sawBusy = 0;
    while (1) {
        double t = vp_now();
        int want = off < stopAt && t >= tnext;
        struct pollfd p = {fd, POLLIN | (want ? POLLOUT : 0), 0};
        poll(&p, 1, 2);
        if (want && p.revents & POLLOUT) {
            int m = burst == 0 ? stopAt - off : burst == 1 ? 1 + (int)(tr(&c->s) % 20) : 1 + (int)(tr(&c->s) % 200);
            if (m > stopAt - off) m = stopAt - off;
            ssize_t r = send(fd, text + off, m, MSG_NOSIGNAL);
            if (r > 0) off += r;
            if (burst && tr(&c->s) % 3 == 0) tnext = t + 1e-6 * (tr(&c->s) % 4000);
        }
        if (c->pause && tr(&c->s) % 8 == 0) nap(tr(&c->s) % (unsigned)c->pause);
        if (p.revents & (POLLIN | POLLHUP | POLLERR)) {
            if (len + 65536 > cap) b = realloc(b, cap *= 2);
            ssize_t r = recv(fd, b + len, 1 + tr(&c->s) % 60000, 0);
            if (r > 0) { len += r; tl = t; }
            else if (r == 0 || (errno != EAGAIN && errno != EINTR)) eof = 1;
        }
        // Frames
        size_t o = 0;
        if (len >= 11 && !c->served && !memcmp(b, "Server busy", 11)) { sawBusy = 1; }
        while (!sawBusy && len - o >= sizeof(RKNetDelimiter)) {
            RKNetDelimiter d;
            memcpy(&d, b + o, sizeof(d));
            if (d.size > 1000000 || (d.type != RKNetworkPacketTypePlainText && d.type != RKNetworkPacketTypeCommandResponse && d.type != RKNetworkPacketTypePulseData)) {
                VIOL("frame", "client %d: frame %d has type %d and size %u", c->id, c->frames, d.type, d.size);
                goto out;
            }
            if (len - o < sizeof(d) + d.size) break;
            uint8_t *q = b + o + sizeof(d);
            c->frames++;
            if (d.type == RKNetworkPacketTypePulseData) {
                uint32_t seq;
                memcpy(&seq, q, 4);
                size_t i = 4;
                while (i < d.size && q[i] == pat(seq, i)) i++;
                if (i < d.size) { VIOL("frame-data", "client %d: packet %u arrived changed at byte %zu of %u", c->id, seq, i, d.size); goto out; }
                if (seq != seqNext) { VIOL("stream-order", "client %d: packet %u arrived, %u expected", c->id, seq, seqNext); goto out; }
                seqNext = seq + 1;
            } else {
                char s[700];
                size_t m = d.size < sizeof(s) - 1 ? d.size : sizeof(s) - 1;
                memcpy(s, q, m);
                s[m] = 0;
                if (d.type == RKNetworkPacketTypeCommandResponse) {
                    if (strncmp(s, "R:", 2) || c->responses >= c->ncmd || strcmp(s + 2, c->cmd[c->responses])) {
                        VIOL("answer", "client %d: answer %d is '%.60s', command '%.60s'", c->id, c->responses, s, c->responses < c->ncmd ? c->cmd[c->responses] : "(none)");
                        goto out;
                    }
                    c->responses++;
                } else if (!strncmp(s, "welcome ", 8)) {
                    c->served = 1;
                    c->con = atoi(s + 8);
                    if (c->frames != 1) VIOL("welcome", "client %d: welcome is frame %d", c->id, c->frames);
                } else {
                    unsigned seq = 0;
                    int at = 0;
                    if (sscanf(s, "S %u %n", &seq, &at) != 1) { VIOL("text", "client %d: text '%.60s'", c->id, s); goto out; }
                    for (int i = 0; s[at + i]; i++) if (s[at + i] != 'a' + (int)((seq + i) % 26)) { VIOL("text", "client %d: text %u arrived changed: '%.60s'", c->id, seq, s); goto out; }
                    if (seq != seqNext) { VIOL("stream-order", "client %d: text %u arrived, %u expected", c->id, seq, seqNext); goto out; }
                    seqNext = seq + 1;
                }
            }
            o += sizeof(d) + d.size;
        }
        if (o) { memmove(b, b + o, len - o); len -= o; }
        if (eof) break;
        if (c->end == 1 && off >= stopAt) break;
        if (c->end == 0 && c->served && c->responses >= c->ncmd) break;
        if (off < stopAt) tl = t > tl ? t : tl;
        if (c->end == 3 && c->responses >= c->ncmd) { c->fin = 1; tl = t; if (t - t0 > 40) break; continue; }
        if (t - tl > 4 && c->responses < c->ncmd) {
            VIOL("lost", "client %d: %d of %d commands answered 4 s after the last of %d bytes was sent", c->id, c->responses, c->ncmd, off);
            break;
        }
        if (t - t0 > 25) break;
    }
    if (sawBusy) { c->busy = 1; if (!eof) { nap(100000); } }
    if (c->end == 2 && c->served && !sawBusy && !eof && c->responses >= c->ncmd) VIOL("bye", "client %d: still connected after the server hung up", c->id);
    if ((c->end == 2 || c->end == 0) && c->served && eof && c->responses < c->ncmd && !*c->stop) VIOL("cut", "client %d: disconnected after %d of %d answers", c->id, c->responses, c->ncmd);
    if (!c->served && !sawBusy && !*c->stop && c->end != 1 && c->room) VIOL("refused", "client %d: neither welcomed nor told that the server is busy", c->id);
    if (eof && len && !sawBusy && !*c->stop && !c->small) stat_add("frames_cut", 1);
out:
    if (c->end == 1) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); }
    c->sent = off;
    close(fd);
    free(b);
    free(text);
    c->fin = 1;
    return NULL;
}
static void case_srv(void) {
    int fd0 = fds(), ta0 = tasks();
    bad_close = 0;
    watch_close = 1;
#ifdef HAVE_BYTES
    size_t b0 = __sanitizer_get_current_allocated_bytes() - vp_chash * sizeof(uint64_t);
#endif
    RKServer *M = RKServerInit();
    char nm[32] = "vp";
    RKServerSetName(M, nm);
    RKServerSetPort(M, 20000);
    RKServerSetWelcomeHandler(M, hw);
    RKServerSetCommandHandler(M, hc);
    RKServerSetStreamHandler(M, hs);
    RKServerSetTerminateHandler(M, ht);
    int max = chance(0.3) ? rr(1, 3) : RKServerMaximumOperators;
    M->maxClient = max;
    ncon = 0;
    memset(con, 0, sizeof(con));
    streamMax = chance(0.2) ? 0 : rr(1, 150);
    streamKind = chance(0.6);
    cmdDelay = chance(0.4) ? 0 : chance(0.5) ? 300 : 4000;
    srvSeed = r64();
    volatile int stop = 0;
    RKServerStart(M);
    if (M->state != RKServerStateActive) { VIOL("start", "the server is not active after it was started"); return; }
    int rounds = rr(1, 3), total = 0, nbusy = 0, all = 0;
    static Cli cli[24];
    int reject = 0;
    for (int r = 0; r < rounds; r++) {
        int n = rr(1, 6), last = r == rounds - 1, until = last && chance(0.4);
        memset(cli, 0, sizeof(cli));
        pthread_t t[8];
        for (int i = 0; i < n; i++) {
            Cli *c = &cli[i];
            c->id = total + i;
            c->s = r64();
            c->ncmd = chance(0.5) ? rr(0, 6) : rr(7, 50);
            c->end = until ? (chance(0.5) ? 3 : 0) : chance(0.5) ? 0 : chance(0.5) ? 1 : 2;
            c->small = chance(0.3);
            c->pause = chance(0.3) ? 8000 : 0;
            c->con = -1;
            c->stop = &stop;
            c->room = n <= max && !r;
            if (c->end == 2 && c->ncmd == 0) c->ncmd = 1;
            for (int k = 0; k < c->ncmd; k++) {
                int m = snprintf(c->cmd[k], 64, "%s%d.%d", k == c->ncmd - 1 && c->end == 2 ? "bye" : "c", c->id, k);
                int x = rr(0, 30);
                while (x-- > 0 && m < 62) c->cmd[k][m++] = "abcXYZ0189 ;,.-_"[ri(16)];
                c->cmd[k][m] = 0;
                while (m && c->cmd[k][m - 1] == ' ') c->cmd[k][--m] = 0;
            }
            pthread_create(&t[i], NULL, client, c);
        }
        if (until) {
            double t0 = vp_now();
            while (vp_now() - t0 < 12) {
                int k = 0;
                for (int i = 0; i < n; i++) k += cli[i].fin;
                if (k == n || (chance(0.002))) break;
                nap(2000);
            }
            stop = 1;
            RKServerStop(M);
        }
        for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
        int served = 0, resets = 0;
        for (int i = 0; i < n; i++) {
            Cli *c = &cli[i];
            nbusy += c->busy;
            served += c->served;
            resets += c->end == 1;
            all += c->responses;
            if (c->busy && n <= max && !r) VIOL("busy", "client %d told busy with %d clients of %d", c->id, n, max);
            if (c->con < 0 || c->con >= MAXCON) continue;
            Con *k = &con[c->con];
            int m = k->cmds < MAXCMD ? k->cmds : MAXCMD;
            if (k->cmds > c->ncmd) VIOL("extra", "client %d sent %d commands, %d were executed", c->id, c->ncmd, k->cmds);
            // the last one of an interrupted client may be a part of a line
            for (int j = 0; j < m && j < c->ncmd; j++) if (strcmp(k->got[j], c->cmd[j]) && !(c->end == 1 && j == m - 1 && !strncmp(k->got[j], c->cmd[j], strlen(k->got[j])))) {
                VIOL("command", "client %d: command %d executed as '%s', sent '%s'", c->id, j, k->got[j], c->cmd[j]);
                break;
            }
            stat_add(c->end == 0 ? "clients_answered" : c->end == 1 ? "clients_reset" : c->end == 2 ? "clients_bye" : "clients_until_stop", 1);
            stat_add("commands_executed", k->cmds);
            stat_add("frames_read", c->frames);
            DISTINCTF("cli %d %d %d %d %d %d", c->end, c->ncmd, c->small, c->pause, cmdDelay, c->frames);
        }
        if (n > max && served == 0 && !resets && !stop) VIOL("none", "%d clients, room for %d, none served", n, max);
        total += n;
        // Places are given back
        if (!stop && r < rounds - 1) {
            double t0 = vp_now();
            int busy;
            do { busy = 0; for (int k = 0; k < RKServerMaximumOperators; k++) busy += M->busy[k]; nap(3000); } while (busy && vp_now() - t0 < 6);
            if (busy) { VIOL("place", "%d places still taken 6 s after the last client left", busy); break; }
        }
    }
    (void)reject;
    if (nbusy) stat_add("clients_busy", nbusy);
    if (!stop) RKServerStop(M);
    if (chance(0.3)) RKServerWait(M);
    RKServerFree(M);
    double t0 = vp_now();
    while (tasks() > ta0 && vp_now() - t0 < 5) nap(2000);
    int ft = tasks();
    if (ft > ta0) { VIOL("threads", "%d threads of the server still run after it was freed", ft - ta0); nap(500000); }
    if (fds() > fd0) VIOL("descriptors", "%d descriptors still open after the server was freed", fds() - fd0);
    for (int k = 0; k < ncon; k++) {
        if (con[k].ended != 1) VIOL("end", "connection %d of %d was terminated %d times", k, ncon, con[k].ended);
        if (con[k].after) VIOL("after-end", "connection %d: %d handler calls after it was terminated", k, con[k].after);
    }
    if (bad_close) VIOL("double-close", "%d descriptors closed twice", bad_close);
    watch_close = 0;
    stat_add("connections", ncon);
#ifdef HAVE_BYTES
    if (ft <= ta0) {
        size_t b1 = __sanitizer_get_current_allocated_bytes() - vp_chash * sizeof(uint64_t);
        // (threads being torn down may hold a little)
        if (b1 > b0 + 1500) VIOL("memory", "%zu bytes still allocated after the server was freed (%d connections)", b1 - b0, ncon);
    }
#endif
}

// ---- client -------------------------------------------------------------------------------------------------------
typedef struct { size_t n; uint64_t h; } Msg;
#define MAXMSG 400
static struct { Msg want[MAXMSG]; int nwant; int got, bad, greet, closed; size_t block; int format; int pings; size_t mustBe; } K;
static uint64_t hash(const void *p, size_t n) { return vp_h(p, n, 1469598103934665603ULL); }
static int kgreet(RKClient *C) { __atomic_add_fetch(&K.greet, 1, __ATOMIC_SEQ_CST); return RKResultSuccess; }
static int kexit(RKClient *C) { __atomic_add_fetch(&K.closed, 1, __ATOMIC_SEQ_CST); return RKResultSuccess; }
static volatile int recvDelay;
static int krecv(RKClient *C) {
    size_t n = K.format == RKNetworkMessageFormatConstantSize ? K.block : K.format == RKNetworkMessageFormatHeaderDefinedSize ? C->netDelimiter.size : strlen(C->userPayload);
    int i = K.got;
    if (i >= K.nwant) { K.bad++; VIOL("cli-extra", "message %d received, %d sent", i + 1, K.nwant); return 0; }
    uint64_t h = hash(C->userPayload, n);
    if (n != K.want[i].n || h != K.want[i].h) {
        // an interrupted connection: the message may be the first of the next connection
        K.bad++;
        VIOL("cli-message", "message %d of %d (format %d): %zu bytes received, %zu sent%s", i, K.nwant, K.format, n, K.want[i].n, n == K.want[i].n ? ", different" : "");
        K.got = i + 1;
        return 0;
    }
    if (K.format == RKNetworkMessageFormatHeaderDefinedSize && ((char *)C->userPayload)[n] != 0 && n) VIOL("cli-end", "message %d is not followed by a null", i);
    if (recvDelay) nap(recvDelay);
    __atomic_store_n(&K.got, i + 1, __ATOMIC_SEQ_CST);
    return 0;
}
static int sendall(int fd, const void *p, size_t n) {
    const uint8_t *b = p;
    while (n) {
        ssize_t r = send(fd, b, n, MSG_NOSIGNAL);
        if (r <= 0) return -1;
        b += r;
        n -= r;
    }
    return 0;
}
// Sends bytes in pieces of any size
static int sendcut(int fd, const void *p, size_t n, int cut) {
    const uint8_t *b = p;
    while (n) {
        size_t m = cut ? 1 + ri(cut) : n;
        if (m > n) m = n;
        if (sendall(fd, b, m)) return -1;
        b += m;
        n -= m;
        if (cut && chance(0.1)) nap(ri(2000));
    }
    return 0;
}
static void case_cli(void) {
    int fd0 = fds(), ta0 = tasks();
    bad_close = 0;
    watch_close = 1;
#ifdef HAVE_BYTES
    size_t b0 = __sanitizer_get_current_allocated_bytes() - vp_chash * sizeof(uint64_t);
#endif
    int ls = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
    bind(ls, (struct sockaddr *)&a, sizeof(a));
    listen(ls, 4);
    memset(&K, 0, sizeof(K));
    RKClientDesc desc;
    memset(&desc, 0, sizeof(desc));
    snprintf(desc.name, sizeof(desc.name), "vp");
    snprintf(desc.hostname, sizeof(desc.hostname), "127.0.0.1");
    desc.port = net_port;
    desc.type = RKNetworkSocketTypeTCP;
    desc.blocking = chance(0.5);
    desc.reconnect = true;
    desc.timeoutSeconds = chance(0.5) ? 0 : rr(2, 20);
    desc.format = K.format = ri(3);
    desc.blockLength = K.format == RKNetworkMessageFormatConstantSize ? (int)(K.block = 1 + (chance(0.5) ? ri(40) : ri(5000))) : 0;
    recvDelay = chance(0.3) ? 300 : 0;
    RKClient *C = RKClientInitWithDesc(desc);
    RKClientSetUserResource(C, NULL);
    if (chance(0.8)) RKClientSetGreetHandler(C, kgreet);
    RKClientSetReceiveHandler(C, krecv);
    if (chance(0.8)) RKClientSetCloseHandler(C, kexit);
    int greet = C->init != NULL, close_ = C->exit != NULL;
    nap_div = 40;
    int early = chance(0.15);
    RKClientStart(C, !early && chance(0.3));
    int conns = 0;
    if (early) {
        nap(ri(2) ? 0 : ri(3000));
        stat_add("clients_stopped_early", 1);
    } else {
        conns = rr(1, 3);
        for (int k = 0; k < conns; k++) {
            struct pollfd p = {ls, POLLIN, 0};
            if (poll(&p, 1, 8000) <= 0) { VIOL("cli-connect", "no connection %d within 8 s", k); break; }
            int fd = accept(ls, NULL, NULL);
            int one = 1;
            setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
            int n = rr(0, 40), cut = chance(0.3) ? 0 : chance(0.5) ? 30 : 2000;
            int base = K.nwant, ok = 1;
            for (int m = 0; m < n && K.nwant < MAXMSG && ok; m++) {
                size_t z;
                uint8_t *b;
                int c = cut;
                if (K.format == RKNetworkMessageFormatConstantSize) {
                    z = K.block;
                    b = malloc(z);
                    for (size_t i = 0; i < z; i++) b[i] = (uint8_t)r64();
                } else if (K.format == RKNetworkMessageFormatHeaderDefinedSize) {
                    z = chance(0.1) ? 0 : chance(0.6) ? ri(200) : chance(0.95) ? ri(40000) : chance(0.9) ? ri(400000) : RKMaximumPacketSize - ri(2);
                    if (z > 1000) c = c ? 3 + z / 2000 * 2 : 0;
                    b = malloc(z + 1);
                    uint64_t x = r64();
                    for (size_t i = 0; i < z; i++) b[i] = (uint8_t)(z > 50000 ? x + i * 7 + (i >> 9) : r64());
                } else {
                    z = 1 + (chance(0.7) ? ri(80) : ri(3000));
                    b = malloc(z);
                    for (size_t i = 0; i < z; i++) b[i] = ' ' + ri(90);
                    b[z - 1] = '\n';
                }
                K.want[K.nwant].n = z;
                K.want[K.nwant].h = hash(b, z);
                __atomic_add_fetch(&K.nwant, 1, __ATOMIC_SEQ_CST);
                if (K.format == RKNetworkMessageFormatHeaderDefinedSize) {
                    RKNetDelimiter d;
                    memset(&d, 0, sizeof(d));
                    d.type = RKNetworkPacketTypePlainText;
                    d.size = (uint32_t)z;
                    if (c == 0 && z < 100000) {
                        uint8_t *w = malloc(sizeof(d) + z);
                        memcpy(w, &d, sizeof(d));
                        memcpy(w + sizeof(d), b, z);
                        ok = !sendall(fd, w, sizeof(d) + z);
                        free(w);
                    } else ok = !sendcut(fd, &d, sizeof(d), c) && !sendcut(fd, b, z, c);
                    stat_add("cli_bytes", (double)z);
                } else ok = !sendcut(fd, b, z, c);
                free(b);
                if (chance(0.1)) nap(ri(5000));
            }
            if (!ok) VIOL("cli-dropped", "the client left while message %d of connection %d was sent", K.nwant - base, k);
            double t0 = vp_now();
            while (K.got < K.nwant && vp_now() - t0 < 8) nap(1000);
            if (K.got < K.nwant) VIOL("cli-lost", "format %d, connection %d: %d messages sent, %d received within 8 s", K.format, k, K.nwant, K.got);
            stat_add("cli_messages", K.nwant - base);
            // How the connection ends
            if (k < conns - 1 || chance(0.5)) {
                if (K.format == RKNetworkMessageFormatHeaderDefinedSize && chance(0.5)) {
                    // nonsense or half a message: never handed over
                    RKNetDelimiter d;
                    memset(&d, 0, sizeof(d));
                    d.type = RKNetworkPacketTypePlainText;
                    if (chance(0.5)) { d.size = RKMaximumPacketSize + 1 + ri(0x70000000); sendall(fd, &d, chance(0.8) ? sizeof(d) : ri(16)); }
                    else {
                        d.size = 100 + ri(1000);
                        char z[1200] = {1};
                        sendall(fd, &d, sizeof(d));
                        sendall(fd, z, ri(d.size));
                    }
                    stat_add("cli_damaged", 1);
                } else if (K.format == RKNetworkMessageFormatConstantSize && K.block > 1 && chance(0.5)) {
                    char z[5001] = {2};
                    sendall(fd, z, ri(K.block - 1));
                    stat_add("cli_damaged", 1);
                }
                if (chance(0.3)) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); }
                close(fd);
                stat_add("cli_reconnections", 1);
                if (k == conns - 1) nap(ri(20000));
            } else {
                RKClientStop(C);
                struct pollfd q = {fd, POLLIN, 0};
                char junk[256];
                int eof = 0;
                double t1 = vp_now();
                while (!eof && vp_now() - t1 < 3) { poll(&q, 1, 50); ssize_t r = recv(fd, junk, sizeof(junk), MSG_DONTWAIT); if (r == 0 || (r < 0 && errno != EAGAIN)) eof = 1; }
                if (!eof) VIOL("cli-open", "the connection is still open after the client was stopped");
                close(fd);
                stat_add("cli_stopped_connected", 1);
            }
        }
        if (greet && K.greet < conns) VIOL("cli-greet", "greeted %d times over %d connections", K.greet, conns);
    }
    RKClientFree(C);
    close(ls);
    if (close_ && K.closed != 1) VIOL("cli-exit", "the exit handler was called %d times", K.closed);
    double t0 = vp_now();
    while (tasks() > ta0 && vp_now() - t0 < 3) nap(2000);
    int ft = tasks();
    if (ft > ta0) { VIOL("cli-threads", "%d threads of the client still run after it was freed", ft - ta0); nap(300000); }
    if (fds() > fd0) VIOL("cli-descriptors", "%d descriptors still open after the client was freed (format %d, %d connections)", fds() - fd0, K.format, conns);
    if (bad_close) VIOL("cli-double-close", "%d descriptors closed twice", bad_close);
    watch_close = 0;
#ifdef HAVE_BYTES
    if (ft <= ta0) {
        size_t b1 = __sanitizer_get_current_allocated_bytes() - vp_chash * sizeof(uint64_t);
        if (b1 > b0 + 1500) VIOL("cli-memory", "%zu bytes still allocated after the client was freed (format %d, %d connections)", b1 - b0, K.format, conns);
    }
#endif
    DISTINCTF("client %d %d %d %d %d", K.format, (int)K.block, conns, K.nwant, early);
    nap_div = 20;
}
// What the C library allocates once and keeps is allocated before anything is counted
static int warm_reply(RKClient *C) { return 0; }
static void warm(void) {
    RKServer *M = RKServerInit();
    RKServerSetPort(M, 0);
    RKServerSetName(M, "warm");
    RKServerStart(M);
    RKClientDesc d;
    memset(&d, 0, sizeof(d));
    snprintf(d.hostname, sizeof(d.hostname), "127.0.0.1");
    d.port = net_port;
    d.type = RKNetworkSocketTypeTCP;
    d.format = RKNetworkMessageFormatNewLine;
    RKClient *C = RKClientInitWithDesc(d);
    RKClientSetReceiveHandler(C, warm_reply);
    RKClientStart(C, false);
    double t0 = vp_now();
    while (C->state != RKClientStateConnected && vp_now() - t0 < 2) nap(2000);
    RKClientFree(C);
    RKServerStop(M);
    RKServerFree(M);
    fds();
    stat_add("sends_whole", 0);
}
static void vp_case(uint64_t i) {
    static int warmed;
    if (!warmed) { warmed = 1; if (strcmp(vp_mode, "send")) warm(); }
    if (!strcmp(vp_mode, "send")) for (int k = 0; k < 20; k++) case_send();
    else if (!strcmp(vp_mode, "cli")) case_cli();
    else case_srv();
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
