// The clients of devices (pedestal, health relay, GPS) against device servers of our own: each report reaches the radar once,
// whole and in order; each command reaches the device whole and gets its own response; the life of a client leaves nothing behind.
#include "vp.h"
#include "vpleak.h"
#include <dirent.h>
#include <errno.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/socket.h>

static void nap(unsigned us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; nanosleep(&t, NULL); }
int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us) { nap(us >= 50000 ? us / 20 : us); return 0; }      // the waits between attempts and reports, not those for a response
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

enum { PEDZY, TWEETA, NAVEEN };
typedef struct { char text[600], reply[4200]; int plan, received, replied, conn, cut; } Cmd;       // plan: 0 replied, 1 silent
typedef struct { int conn, kind; RKPosition p; char *text; int event; } Rep;
typedef struct { RKScanAction a; int conn; } Act;
#define MAXREP 6000
static struct {
    int kind, listener, port, nconn, polite[8], frames[8];
    RKRadar *radar;
    RKHealthRelay dev;
    volatile int stop, conn, connected, over, closing;
    Rep *rep; volatile int nrep, got;
    Act *act; volatile int nact, gotAct;
    Cmd *cmd; volatile int ncmd;
    volatile int events, wantEvents, healths;
    char health[RKMaximumStringLength];
    pthread_mutex_t lock;
    double heading;
    int resume[8];               // the first report of a connection
    volatile int greetings, pings;
    double actRate;
    uint64_t seed;
} D;
#define LOCK pthread_mutex_lock(&D.lock)
#define UNLOCK pthread_mutex_unlock(&D.lock)

// ---- GPS sentences: what they say -----------------------------------------------------------------------------------
static struct { int valid, known[4]; double heading, lat, lon, speed; } gps;       // what a sentence of this case has told
typedef struct { int kind, ok, valid; double heading, lat, lon, kph; int noBearing; } Said;
static Said *said;

// ---- what reaches the radar -----------------------------------------------------------------------------------------
static Rep *next_report(const char *what) {
    // the reports on their way when a connection was cut may be lost, but only from its end
    if (D.got < D.nrep) return &D.rep[D.got];
    VIOL("report", "%s although none was sent (%d so far)", what, D.nrep);
    return NULL;
}
static int may_skip_to(int k) {
    for (int i = D.got; i < k; i++) if (D.polite[D.rep[i].conn]) return 0;
    return 1;
}
void __real_RKSetPositionReady(RKRadar *r, RKPosition *p);
void __wrap_RKSetPositionReady(RKRadar *r, RKPosition *p) {
    LOCK;
    Rep *e = next_report("a position is given to the radar");
    if (e) {
        int k = D.got;
        while (k < D.nrep && D.rep[k].p.tic != p->tic) k++;
        if (k == D.nrep) VIOL("report", "position %llu comes after %d of %d reports", (unsigned long long)p->tic, D.got, D.nrep);
        else {
            if (k > D.got && (!may_skip_to(k) || (k > 0 && D.rep[k - 1].conn == D.rep[k].conn))) VIOL("report", "%d positions are left out before %llu", k - D.got, (unsigned long long)p->tic);
            D.got = k + 1;
            RKPosition w = D.rep[k].p, g = *p;
            double az = fmod(w.azimuthDegrees + D.heading + 720, 360), saz = fmod(w.sweepAzimuthDegrees + D.heading + 720, 360);
            if (w.elevationDegrees < -90) w.elevationDegrees += 360;
            double da = remainder(az - g.azimuthDegrees, 360), ds = remainder(saz - g.sweepAzimuthDegrees, 360);
            if (fabs(da) > 1e-3 || fabs(ds) > 1e-3 || g.azimuthDegrees < 0 || g.azimuthDegrees > 360 || g.sweepAzimuthDegrees < 0 || g.sweepAzimuthDegrees > 360) VIOL("position", "azimuth %.4f sweep %.4f with heading %.4f becomes %.4f and %.4f", w.azimuthDegrees, w.sweepAzimuthDegrees, D.heading, g.azimuthDegrees, g.sweepAzimuthDegrees);
            g.azimuthDegrees = w.azimuthDegrees; g.sweepAzimuthDegrees = w.sweepAzimuthDegrees;
            w.flag &= 0x0FFFFFFF;
            memset(&w.time, 0, sizeof(w.time)); w.timeDouble = 0;
            if (fabs(w.elevationDegrees - g.elevationDegrees) < 1e-4) g.elevationDegrees = w.elevationDegrees;
            if (memcmp(&w, &g, offsetof(RKPosition, timeDouble) + 8)) VIOL("position", "position %llu differs from what was sent: flag %x %x, elevation %.3f %.3f", (unsigned long long)w.tic, w.flag, g.flag, w.elevationDegrees, g.elevationDegrees);
        }
    }
    if (D.closing == 2) VIOL("report", "a position is given after the device is freed");
    UNLOCK;
    __real_RKSetPositionReady(r, p);
    stat_add("positions", 1);
}
static RKScanAction ring[64];
static int ringAt;
RKScanAction *__real_RKSteerEngineGetAction(RKSteerEngine *e, RKPosition *p);
RKScanAction *__wrap_RKSteerEngineGetAction(RKSteerEngine *e, RKPosition *p) {
    LOCK;
    RKScanAction *a = &ring[ringAt];
    ringAt = (ringAt + 1) % 64;
    uint64_t s = p->tic * 977 + D.seed;
    for (size_t i = 0; i < sizeof(*a); i++) ((uint8_t *)a)[i] = vp_mix(&s);
    if ((double)(vp_mix(&s) % 1000) / 1000 > D.actRate) a->mode[0] &= ~RKPedestalInstructTypeModeMask;
    if (a->mode[0] & RKPedestalInstructTypeModeMask && D.nact < MAXREP) {
        int k = D.got;
        while (k < D.nrep && D.rep[k].p.tic != p->tic) k++;
        D.act[D.nact].a = *a; D.act[D.nact++].conn = k < D.nrep ? D.rep[k].conn : D.conn;    // the connection of its position, which may have ended by now
    }
    UNLOCK;
    return a;
}
void __real_RKPerformMasterTaskInBackground(RKRadar *r, const char *c);
void __wrap_RKPerformMasterTaskInBackground(RKRadar *r, const char *c) {
    if (strcmp(c, "b")) VIOL("event", "the button does '%s'", c);
    __atomic_add_fetch(&D.events, 1, __ATOMIC_RELAXED);
}
void __real_RKSetHealthReady(RKRadar *r, RKHealth *h);
void __wrap_RKSetHealthReady(RKRadar *r, RKHealth *h) {
    LOCK;
    if (D.closing == 2) VIOL("report", "a health is given after the device is freed");
    size_t n = strnlen(h->string, RKMaximumStringLength);
    if (n >= RKMaximumStringLength) { VIOL("health", "a health is not terminated"); n = RKMaximumStringLength - 1; }
    memcpy(D.health, h->string, n); D.health[n] = 0;
    D.healths++;
    if (D.kind == TWEETA) {
        Rep *e = next_report("a health is given to the radar");
        if (e) {
            int k = D.got;
            while (k < D.nrep && strcmp(D.rep[k].text, D.health)) k++;
            if (k == D.nrep) VIOL("health", "health '%.60s' is not '%.60s'", D.health, e->text);
            else {
                if (k > D.got && (!may_skip_to(k) || D.rep[k - 1].conn == D.rep[k].conn)) VIOL("report", "%d healths are left out", k - D.got);
                for (int i = D.got; i <= k; i++) D.wantEvents += i == k ? D.rep[i].event : 0;
                D.got = k + 1;
            }
            // the event is handled before its health is ready
            if (D.events != D.wantEvents) VIOL("event", "%d button events, %d handled, at '%.60s'", D.wantEvents, D.events, D.health);
        }
        stat_add("healths", 1);
    } else if (D.kind == NAVEEN) {
        while (D.got < D.nrep) {
            Said *q = &said[D.got++];
            if (q->ok == 0) { gps.valid = 0; gps.known[0] = 1; continue; }
            if (q->kind == 4) continue;
            if (q->kind <= 1) { gps.valid = q->valid; gps.lat = q->lat; gps.lon = q->lon; gps.known[0] = gps.known[1] = 1; }
            else if (q->kind == 2) { gps.heading = q->heading; gps.known[2] = 1; }
            else { gps.speed = q->noBearing ? 0 : q->kph; gps.known[3] = 1; }
            char v[8] = "";
            double hd = 0, la = 0, lo = 0, sp = 0;
            int e[5] = {9, 9, 9, 9, 9};
            int k = sscanf(D.health, "{\"GPS Valid\": {\"Value\":%7[a-z],\"Enum\":%d}, \"GPS Heading\": {\"Value\":%lf,\"Enum\":%d}, \"GPS Latitude\": {\"Value\":%lf,\"Enum\":%d}, \"GPS Longitude\": {\"Value\":%lf,\"Enum\":%d}, \"Ground Speed\":{\"Value\":\"%lf km/h\",\"Enum\":%d}", v, e, &hd, e + 1, &la, e + 2, &lo, e + 3, &sp, e + 4);
            int we = gps.valid ? RKStatusEnumNormal : RKStatusEnumInvalid;
            if (!gps.known[0]) { gps.valid = !strcmp(v, "true"); we = e[0]; }
            if (!gps.known[1]) { gps.lat = la; gps.lon = lo; }
            if (!gps.known[2]) gps.heading = hd;
            if (!gps.known[3]) gps.speed = sp;
            if (k != 10) VIOL("gps", "%d of 10 fields in '%.200s'", k, D.health);
            else if (strcmp(v, gps.valid ? "true" : "false") || fabs(hd - gps.heading) > 0.0501 || fabs(la - gps.lat) > 3e-7 || fabs(lo - gps.lon) > 3e-7 || fabs(sp - gps.speed) > 0.00501 || e[0] != we || e[1] != we || e[2] != we || e[3] != we || e[4] != we)
                VIOL("gps", "%s %.1f %.7f %.7f %.2f (%d) instead of %d %.3f %.8f %.8f %.4f after '%.80s'", v, hd, la, lo, sp, e[0], gps.valid, gps.heading, gps.lat, gps.lon, gps.speed, D.rep[D.got - 1].text);
            stat_add("fixes", 1);
            break;
        }
    }
    UNLOCK;
    __real_RKSetHealthReady(r, h);
}
// ---- the device -----------------------------------------------------------------------------------------------------
typedef struct { uint8_t *b; size_t n, at, cap; } Buf;
static void put(Buf *o, const void *p, size_t n) {
    if (o->n + n > o->cap) { o->cap = (o->n + n) * 2 + 4096; o->b = realloc(o->b, o->cap); }
    memcpy(o->b + o->n, p, n);
    o->n += n;
}
static void frame(Buf *o, int type, const void *p, uint32_t n) {
    RKNetDelimiter d;
    memset(&d, 0, sizeof(d));
    d.type = type; d.size = n; d.decodedSize = n;
    put(o, &d, sizeof(d));
    put(o, p, n);
}
static uint64_t tic;
static void say(Buf *o, uint64_t *s) {
    int special = vp_mix(s) % 20;
    LOCK;
    if (D.nrep >= MAXREP - 2) { UNLOCK; return; }
    if (D.kind == PEDZY) {
        if (special <= 1) frame(o, 'a', "pong\r\n", 6);
        else if (special == 2) { uint8_t b[128]; memset(b, 77, sizeof(b)); frame(o, 'p', b, vp_mix(s) % 128); stat_add("refused", 1); }
        else {
            Rep *e = &D.rep[D.nrep];
            memset(e, 0, sizeof(*e));
            e->conn = D.conn;
            for (size_t i = 0; i < sizeof(RKPosition); i++) e->p.bytes[i] = vp_mix(s);
            e->p.tic = ++tic;
            e->p.elevationDegrees = (vp_mix(s) % 20 == 0 ? -360 : 0) + (double)(vp_mix(s) % 18500) / 100 - 2;
            if (e->p.elevationDegrees > 90 && vp_mix(s) % 2) e->p.elevationDegrees -= 360;
            e->p.azimuthDegrees = vp_mix(s) % 15 == 0 ? (vp_mix(s) % 2 ? 0 : 359.99f) : (double)(vp_mix(s) % 36000) / 100;
            e->p.sweepAzimuthDegrees = (double)(vp_mix(s) % 36000) / 100;
            e->p.sweepElevationDegrees = (double)(vp_mix(s) % 9000) / 100;
            e->p.azimuthVelocityDegreesPerSecond = (double)(vp_mix(s) % 9000) / 100 - 45;
            e->p.elevationVelocityDegreesPerSecond = (double)(vp_mix(s) % 9000) / 100 - 45;
            e->p.reserved1 = e->p.reserved2 = e->p.reserved3 = e->p.reserved4 = 0;
            D.nrep++;
            frame(o, 'p', &e->p, sizeof(RKPosition));
        }
    } else if (D.kind == TWEETA) {
        if (special <= 1) frame(o, 'a', "pong\r\n", 6);
        else {
            static const char *ev[] = {"", "\"event\":\"short\", ", "\"event\": \"Short\", ", "\"event\":\"long\", ", "\"event\":\"none\", ", "'event':'short', ", "\"event\":short, ", "\"events\":\"short\", "};
            int k = vp_mix(s) % 3 ? 0 : vp_mix(s) % 8;
            char b[5000];
            int n = snprintf(b, sizeof(b), "{\"n\":%llu, %s\"data\":\"", (unsigned long long)++tic, ev[k]);
            int more = vp_mix(s) % 12 == 0 ? vp_mix(s) % 4200 : vp_mix(s) % 200;
            for (int i = 0; i < more && n < 4500; i++) b[n++] = 'a' + vp_mix(s) % 26;
            n += snprintf(b + n, sizeof(b) - n, "\"}");
            Rep *e = &D.rep[D.nrep++];
            memset(e, 0, sizeof(*e));
            e->conn = D.conn;
            e->event = k == 1 || k == 2 || k == 5 || k == 6;
            e->text = strndup(b, RKMaximumStringLength - 1);
            static const char *tail[] = {"", "\r\n", "\n", " \r\n"};
            n += snprintf(b + n, sizeof(b) - n, "%s", tail[vp_mix(s) % 4]);
            frame(o, 's', b, n + vp_mix(s) % 2);
        }
    } else {
        char b[400], la[20], lo[20];
        Rep *e = &D.rep[D.nrep];
        Said *q = &said[D.nrep++];
        memset(e, 0, sizeof(*e)); memset(q, 0, sizeof(*q));
        q->kind = vp_mix(s) % 5; q->ok = vp_mix(s) % 12 != 0; q->valid = vp_mix(s) % 5 != 0;
        int ld = vp_mix(s) % 90, od = vp_mix(s) % 180;
        int lm = vp_mix(s) % 600000, om = vp_mix(s) % 600000, south = vp_mix(s) % 2, west = vp_mix(s) % 2;
        snprintf(la, sizeof(la), "%02d%02d.%04d", ld, lm / 10000, lm % 10000);
        snprintf(lo, sizeof(lo), "%03d%02d.%04d", od, om / 10000, om % 10000);
        q->lat = (ld + lm / 600000.0) * (south ? -1 : 1); q->lon = (od + om / 600000.0) * (west ? -1 : 1);
        q->heading = (vp_mix(s) % 3600) / 10.0; q->kph = (vp_mix(s) % 12000) / 100.0;
        double knots = (vp_mix(s) % 1000) / 10.0;
        int n = 0, late = vp_mix(s) % 240000;
        if (q->kind == 0) n = snprintf(b, sizeof(b), "$GPRMC,%06d.00,%c,%s,%c,%s,%c,%.1f,%.1f,090623,,,A", late, q->valid ? 'A' : 'V', la, south ? 'S' : 'N', lo, west ? 'W' : 'E', knots, q->heading);
        else if (q->kind == 1) n = snprintf(b, sizeof(b), "$GPGGA,%06d.00,%s,%c,%s,%c,%d,%02d,1.0,357.5,M,-25.1,M,,", late, la, south ? 'S' : 'N', lo, west ? 'W' : 'E', q->valid ? 1 + (int)(vp_mix(s) % 5) : 0, (int)(vp_mix(s) % 13));
        else if (q->kind == 2) n = snprintf(b, sizeof(b), "$GPHDT,%.1f,T", q->heading);
        else if (q->kind == 3) { q->noBearing = vp_mix(s) % 4 == 0; double t = q->noBearing ? 0 : q->heading + 0.1; n = snprintf(b, sizeof(b), "$GPVTG,%.1f,T,%.1f,M,%.1f,N,%.2f,K,A", t, t ? fmod(t + 3.2, 360) + 0.1 : 0, q->kph / 1.852, q->kph); }
        else {
            static const char *other[] = {"$GPGSV,3,1,11,03,03,111,00,04,15,270,00", "$GNZDA,201530.00,04,07,2002,00,00", "$", "$GP"};
            n = snprintf(b, sizeof(b), "%s", other[vp_mix(s) % 4]);
        }
        if (q->ok && q->kind == 2 && vp_mix(s) % 10 == 0) { n += snprintf(b + n, sizeof(b) - n, ","); int k = 60 + vp_mix(s) % 150; memset(b + n, 'z', k); n += k; b[n] = 0; }   // a field that is very long
        uint8_t c = 0;
        for (int i = 1; i < n; i++) c ^= b[i];
        if (!q->ok && vp_mix(s) % 3 == 0) { if (vp_mix(s) % 2) b[n = vp_mix(s) % n] = 0; }                                       // without its end
        else if (!q->ok && vp_mix(s) % 3 == 0) { memmove(b, b + 1, n); n--; n += snprintf(b + n, sizeof(b) - n, "*%02X", c); }   // without its beginning
        else n += snprintf(b + n, sizeof(b) - n, vp_mix(s) % 4 ? "*%02X" : "*%02x", q->ok ? c : (uint8_t)(c + 1 + vp_mix(s) % 255));
        e->text = strdup(b);
        e->conn = D.conn;
        n += snprintf(b + n, sizeof(b) - n, "\r\n");
        put(o, b, n);
    }
    UNLOCK;
}
static int drained(void) {
    int r;
    LOCK;
    r = (D.kind == NAVEEN || D.got == D.nrep) && (D.kind != PEDZY || D.gotAct == D.nact);
    if (D.kind == NAVEEN) { r = 1; for (int i = D.got; i < D.nrep; i++) if (said[i].ok && said[i].kind < 4) r = 0; }
    UNLOCK;
    return r;
}
static void serve(int fd) {
    uint64_t s = D.seed + 55 * D.conn;
    int one = 1, polite = D.polite[D.conn], frames = D.frames[D.conn], alive = 1, greeted = 0, slow = vp_mix(&s) % 3, commands = 0;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    Buf in = {0}, out = {0};
    double t0 = now(), next = 0, dueAt = 0;
    int due = -1, quiet = 0;
    double since = 0;
    while (alive) {
        double t = now();
        if (D.stop) break;
        if (greeted && frames > 0 && t >= next && out.n == out.at) {
            int burst = 1 + vp_mix(&s) % 4;
            while (burst-- && frames > 0) { frames--; say(&out, &s); }
            next = t + (vp_mix(&s) % 5 ? vp_mix(&s) % 2000 * 1e-6 : vp_mix(&s) % 20 * 1e-3);
        }
        if (due >= 0 && t >= dueAt && out.n == out.at) {
            LOCK;
            Cmd *c = &D.cmd[due];
            frame(&out, 'a', c->reply, strlen(c->reply) + vp_mix(&s) % 2);
            c->replied = 1;
            UNLOCK;
            due = -1;
        }
        if (frames == 0 && out.n == out.at && due < 0) {
            // the end of a connection
            if (!polite) break;
            if (drained()) { if (!quiet) { quiet = 1; since = t; D.over = D.conn + 1; } if (D.conn < D.nconn - 1 && t - since > 0.05) break; }
            else if (t - t0 > 40 && !quiet) { VIOL("report", "%d of %d reports and %d of %d actions after %.0f s of connection %d", D.got, D.nrep, D.gotAct, D.nact, t - t0, D.conn); break; }
        }
        fd_set r, q;
        FD_ZERO(&r); FD_ZERO(&q); FD_SET(fd, &r);
        if (out.n > out.at) FD_SET(fd, &q);
        struct timeval tv = {0, 1000};
        if (select(fd + 1, &r, &q, NULL, &tv) < 0) break;
        if (out.n > out.at && FD_ISSET(fd, &q)) {
            size_t n = out.n - out.at, most = slow == 0 ? n : slow == 1 ? 1 + vp_mix(&s) % 3000 : 1 + vp_mix(&s) % 200;
            ssize_t k = send(fd, out.b + out.at, n < most ? n : most, MSG_NOSIGNAL | MSG_DONTWAIT);
            if (k < 0 && errno != EAGAIN) break;
            if (k > 0) out.at += k;
            if (out.at == out.n) out.at = out.n = 0;
            if (slow && vp_mix(&s) % 20 == 0) nap(vp_mix(&s) % 2000);
        }
        if (FD_ISSET(fd, &r)) {
            uint8_t b[4096];
            ssize_t n = recv(fd, b, sizeof(b), MSG_DONTWAIT);
            if (n <= 0) { if (n < 0 && errno == EAGAIN) continue; alive = 0; break; }
            put(&in, b, n);
        }
        for (;;) {
            uint8_t *p = in.b + in.at;
            size_t have = in.n - in.at;
            if (!have) break;
            if (!greeted) {
                if (*p != '\n') { VIOL("greeting", "a connection begins with %02x", *p); alive = 0; break; }
                greeted = 1; in.at++; D.greetings++;
                LOCK; for (int k = 0; k < D.ncmd && D.conn > 0; k++) if (!D.cmd[k].received) D.cmd[k].cut = 1; UNLOCK;       // they may have gone to the connection before
                continue;
            }
            if (*p == 0x0f) {
                if (have < 3 + sizeof(RKScanAction)) break;
                LOCK;
                while (D.gotAct < D.nact && D.act[D.gotAct].conn != D.conn) D.gotAct++;
                if (D.gotAct >= D.nact) VIOL("action", "an action that was not asked for");
                else if (memcmp(p + 1, &D.act[D.gotAct].a, sizeof(RKScanAction)) || memcmp(p + 1 + sizeof(RKScanAction), "\r\n", 2)) VIOL("action", "action %d differs from the one of the steer engine", D.gotAct);
                else D.gotAct++;
                UNLOCK;
                stat_add("actions", 1);
                in.at += 3 + sizeof(RKScanAction);
                continue;
            }
            uint8_t *e = memchr(p, '\n', have);
            if (!e) break;
            size_t n = e - p + 1;
            if (n == 6 && !memcmp(p, "ping\r\n", 6)) { D.pings++; in.at += n; continue; }
            LOCK;
            int k;
            for (k = 0; k < D.ncmd; k++) if (strlen(D.cmd[k].text) + 2 == n && !memcmp(D.cmd[k].text, p, n - 2) && p[n - 2] == '\r') break;
            if (k == D.ncmd) { VIOL("command", "the device gets %zu bytes '%.40s' that are no command", n, (char *)p); alive = 0; }
            else if (D.cmd[k].received++) VIOL("command", "'%.40s' comes again", D.cmd[k].text);
            else {
                D.cmd[k].conn = D.conn;
                if (D.cmd[k].plan == 0 && D.kind != NAVEEN) {
                    if (due >= 0) VIOL("command", "'%.40s' comes before the response to '%.40s'", D.cmd[k].text, D.cmd[due].text);
                    due = k; dueAt = t + (vp_mix(&s) % 3 ? 0 : vp_mix(&s) % 60 * 1e-3);
                }
                commands++;
            }
            UNLOCK;
            in.at += n;
            if (!alive) break;
        }
        if (in.at == in.n) in.at = in.n = 0;
    }
    LOCK;
    for (int k = 0; k < D.ncmd; k++) if (D.cmd[k].conn == D.conn || !D.cmd[k].received) D.cmd[k].cut = 1;
    UNLOCK;
    if (!polite && vp_mix(&s) % 2) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); }
    free(in.b); free(out.b);
}
static void *server(void *in) {
    while (!D.stop && D.conn < D.nconn) {
        fd_set r; FD_ZERO(&r); FD_SET(D.listener, &r);
        struct timeval tv = {0, 3000};
        if (select(D.listener + 1, &r, NULL, NULL, &tv) <= 0) continue;
        int fd = accept(D.listener, NULL, NULL);
        if (fd < 0) continue;
        serve(fd);
        close(fd);
        if (D.conn > 0) stat_add("reconnections", 1);
        D.over = D.conn + 1;
        LOCK; D.conn++; UNLOCK;
    }
    return NULL;
}
// ---- commands -------------------------------------------------------------------------------------------------------
static int (*execute)(RKPedestal, const char *, char *);
static void *commander(void *in) {
    uint64_t s = D.seed * 3 + (uintptr_t)in;
    int silent = 0, many = 3 + vp_mix(&s) % 25;
    while (!D.stop && !D.closing && many > 0) {
        nap(vp_mix(&s) % 8000);
        if (D.over >= D.nconn) many--;
        char response[RKMaximumStringLength + 8];
        memset(response, 7, sizeof(response));
        LOCK;
        if (D.ncmd >= 2000) { UNLOCK; break; }
        int id = D.ncmd++;
        Cmd *c = &D.cmd[id];
        memset(c, 0, offsetof(Cmd, plan));
        c->plan = c->received = c->replied = c->conn = c->cut = 0;
        int n = snprintf(c->text, sizeof(c->text), "c%d-%d", (int)(uintptr_t)in, id), most = vp_mix(&s) % 10 ? 40 : 1100;
        for (int k = vp_mix(&s) % most; k > 0 && n < 590; k--) c->text[n++] = ' ' + vp_mix(&s) % 90;
        c->text[n] = 0;
        n = snprintf(c->reply, sizeof(c->reply), "ACK. Response to %d. ", id);
        for (int k = vp_mix(&s) % (vp_mix(&s) % 10 ? 60 : 4000); k > 0 && n < 4080; k--) c->reply[n++] = ' ' + vp_mix(&s) % 90;
        snprintf(c->reply + n, sizeof(c->reply) - n, "\r\n");
        if ((vp_mix(&s) % 40 == 0 || D.kind == NAVEEN) && silent++ == 0) c->plan = 1;
        if (D.kind == NAVEEN && silent > 1) { D.ncmd--; UNLOCK; many--; continue; }
        UNLOCK;
        double t0 = now();
        int r = execute(D.dev, c->text, vp_mix(&s) % 8 ? response : NULL);
        double took = now() - t0;
        if (took > 12) VIOL("command", "a command takes %.1f s", took);
        LOCK;
        int heard = response[0] != 7;
        size_t len = heard ? strnlen(response, sizeof(response)) : 0;
        if (heard && len >= RKMaximumStringLength) VIOL("command", "a response of %zu bytes", len);
        else if (r == RKResultSuccess) {
            if (!c->received || !c->replied) VIOL("command", "'%.30s' has a response that was not sent", c->text);
            if (heard && strcmp(response, c->reply)) VIOL("command", "the response to '%.20s' is '%.40s'", c->text, response);
            stat_add("commands", 1);
        } else {
            if (heard && strncmp(response, "NAK", 3)) VIOL("command", "a command fails with response '%.40s'", response);
            if (r == RKResultTooBig) { if (strlen(c->text) < 500) VIOL("command", "a command of %zu characters is too long", strlen(c->text)); stat_add("too_long", 1); }
            else if (r == RKResultClientNotConnected) stat_add("not_connected", 1);
            else if (r == RKResultTimeout) {
                if (c->plan == 0 && c->replied && !c->cut) VIOL("command", "no response to '%.30s' though it was sent", c->text);
                if (c->plan == 0 && !c->received && !c->cut && strlen(c->text) < 500) VIOL("command", "'%.30s' has not reached the device", c->text);
                stat_add("timeouts", 1);
            } else VIOL("command", "a command returns %d", r);
        }
        if (r != RKResultTimeout && r != RKResultSuccess && c->received) VIOL("command", "a command that was refused (%d) is sent", r);
        UNLOCK;
        // what was sent to a connection that ended could be answered in the next: the pairs are told apart by their own texts
    }
    return NULL;
}
// ---- a case ---------------------------------------------------------------------------------------------------------
static int count_dir(const char *p) {
    DIR *d = opendir(p);
    int n = 0;
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static void vp_case(uint64_t index) {
    static int quiet;
    if (!quiet++) { if (vp_out != stdout && !freopen("/dev/null", "w", stdout)) {} if (vp_out != stdout && !freopen("/dev/null", "w", stderr)) {} }
    memset(&D, 0, sizeof(D)); memset(&gps, 0, sizeof(gps));
    D.kind = index % 5 < 3 ? PEDZY : index % 5 == 3 ? TWEETA : NAVEEN;
    D.seed = r64();
    D.rep = calloc(MAXREP, sizeof(Rep)); D.act = calloc(MAXREP, sizeof(Act)); D.cmd = calloc(2000, sizeof(Cmd)); said = calloc(MAXREP, sizeof(Said));
    pthread_mutex_init(&D.lock, NULL);
    D.actRate = chance(0.3) ? 0 : rf(0, 1);
    D.nconn = chance(0.4) ? 1 : rr(2, 4);
    for (int i = 0; i < D.nconn; i++) { D.polite[i] = D.kind == NAVEEN || i == D.nconn - 1 || chance(0.5); D.frames[i] = chance(0.1) ? rr(300, 600) : rr(3, 120); }
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    desc.initFlags = RKInitFlagAllocEverythingQuiet | RKInitFlagSignalProcessor;
    desc.pulseToRayRatio = 1; desc.pulseCapacity = 64; desc.configBufferDepth = 8; desc.statusBufferDepth = 50;
    desc.healthBufferDepth = rr(20, 200); desc.positionBufferDepth = rr(30, 300); desc.pulseBufferDepth = 100; desc.rayBufferDepth = 50; desc.healthNodeCount = RKHealthNodeCount;
    desc.pulseSmoothFactor = 10; desc.pulseTicsPerSecond = 1000000; desc.positionSmoothFactor = 4; desc.positionTicsPerSecond = 100;
    desc.latitude = 35; desc.longitude = -97;
    desc.heading = chance(0.4) ? 0 : chance(0.2) ? 360 : (float)rf(-360, 360);
    snprintf(desc.name, sizeof(desc.name), "dev");
    snprintf(desc.filePrefix, sizeof(desc.filePrefix), "dev");
    snprintf(desc.dataPath, sizeof(desc.dataPath), "%s/data", vp_scratch);
    RKSetWantScreenOutput(false);
    RKRadar *R = D.radar = RKInitWithDesc(desc);
    if (!R || !R->positions || !R->healthNodes || !R->positionEngine || !R->healthEngine || !R->steerEngine) { VIOL("radar", "no radar"); return; }
    R->state |= RKRadarStateLive;
    D.heading = R->desc.heading;
    D.listener = socket(AF_INET, SOCK_STREAM, 0);
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
    socklen_t l = sizeof(a);
    if (bind(D.listener, (struct sockaddr *)&a, l) || listen(D.listener, 8) || getsockname(D.listener, (struct sockaddr *)&a, &l)) { fprintf(stderr, "no port\n"); exit(3); }
    D.port = ntohs(a.sin_port);
    int fds0 = count_dir("/proc/self/fd"), tasks0 = count_dir("/proc/self/task");
    char address[80];
    snprintf(address, sizeof(address), "127.0.0.1:%d", D.port);
    RKPedestal (*init)(RKRadar *, void *) = D.kind == PEDZY ? RKPedestalPedzyInit : D.kind == TWEETA ? RKHealthRelayTweetaInit : RKHealthRelayNaveenInit;
    int (*release)(RKPedestal) = D.kind == PEDZY ? RKPedestalPedzyFree : D.kind == TWEETA ? RKHealthRelayTweetaFree : RKHealthRelayNaveenFree;
    execute = D.kind == PEDZY ? RKPedestalPedzyExec : D.kind == TWEETA ? RKHealthRelayTweetaExec : RKHealthRelayNaveenExec;
    if (release(NULL) == RKResultSuccess || execute(NULL, "x", NULL) == RKResultSuccess) VIOL("null", "no device is taken for one");
    R->steerEngine->vcpHandle.active = chance(0.5);
    int early = chance(0.25);
    pthread_t ts, tc[3];
    if (early && chance(0.3)) { close(D.listener); D.listener = socket(AF_INET, SOCK_STREAM, 0); D.stop = 1; D.nconn = 0; }   // there is no server
    D.dev = init(R, address);
    if (!D.dev) { VIOL("device", "no device"); return; }
    pthread_create(&ts, NULL, server, NULL);
    int nc = D.kind == NAVEEN ? ri(2) : ri(4);
    for (long i = 0; i < nc; i++) pthread_create(&tc[i], NULL, commander, (void *)i);
    double t0 = now();
    if (early) nap(ri(4) ? ri(300000) : ri(2000));
    else {
        while (D.over < D.nconn && now() - t0 < 60 + 45 * D.nconn) nap(2000);
        if (D.over < D.nconn) VIOL("stuck", "%d of %d connections after %.0f s", D.over, D.nconn, now() - t0);
        else if (D.kind == PEDZY && D.got > 0 && D.got == D.nrep) {
            // at rest, the health of the pedestal is that of its last position
            int h = D.healths;
            while (D.healths < h + 3 && now() - t0 < 150) nap(2000);
            char want[500], v[2][16], e[5];
            LOCK;
            RKPosition p = D.rep[D.got - 1].p;
            double az = fmod(p.azimuthDegrees + D.heading + 720, 360), el = p.elevationDegrees < -90 ? p.elevationDegrees + 360 : p.elevationDegrees, gaz = 999, gel = 999;
            int g[5] = {9, 9, 9, 9, 9};
            int k = sscanf(D.health, "{\"Pedestal AZ Interlock\":{\"Value\":%15[a-z],\"Enum\":%d}, \"Pedestal EL Interlock\":{\"Value\":%15[a-z],\"Enum\":%d}, \"VCP Active\":{\"Value\":%*[a-z],\"Enum\":%d}, \"Pedestal AZ\":{\"Value\":\"%lf deg\",\"Enum\":%d}, \"Pedestal EL\":{\"Value\":\"%lf deg\",\"Enum\":%d}", v[0], g, v[1], g + 1, g + 2, &gaz, g + 3, &gel, g + 4);
            int fault = p.flag & (RKPositionFlagAzimuthError | RKPositionFlagElevationError);
            (void)want; (void)e;
            int w[3] = {p.flag & RKPositionFlagAzimuthSafety ? RKStatusEnumNotOperational : RKStatusEnumNormal, p.flag & RKPositionFlagElevationSafety ? RKStatusEnumNotOperational : RKStatusEnumNormal, fault ? RKStatusEnumFault : R->steerEngine->vcpHandle.active ? RKStatusEnumActive : RKStatusEnumStandby};
            if (D.healths < h + 3) VIOL("health", "the pedestal does not tell its health");
            else if (k != 9) VIOL("health", "%d of 9 values in '%.200s'", k, D.health);
            else if (g[0] != w[0] || g[1] != w[1] || g[2] != w[2] || g[3] != 0 || g[4] != 0 || fabs(remainder(gaz - az, 360)) > 0.0061 || fabs(gel - el) > 0.0061) VIOL("health", "position %.2f %.2f flag %x, vcp %d gives '%.300s'", az, el, p.flag, R->steerEngine->vcpHandle.active, D.health);
            UNLOCK;
            stat_add("pedestal_healths", 1);
        }
        for (long i = 0; i < nc; i++) pthread_join(tc[i], NULL);
    }
    if (early) { LOCK; for (int i = 0; i < 8; i++) D.polite[i] = 0; UNLOCK; }
    D.closing = 1;
    if (early) for (long i = 0; i < nc; i++) pthread_join(tc[i], NULL);
    double t1 = now();
    if (chance(0.5)) { execute(D.dev, "disconnect", NULL); if (chance(0.3)) execute(D.dev, "disconnect", NULL); char r[RKMaximumStringLength]; if (chance(0.5) && execute(D.dev, "anything", r) != RKResultClientNotConnected) VIOL("command", "a command is taken after a disconnect"); }
    release(D.dev);
    D.closing = 2;
    double took = now() - t1;
    if (took > 15) VIOL("stop", "a device takes %.1f s to end", took);
    nap(20000);
    D.stop = 1;
    pthread_join(ts, NULL);
    close(D.listener);
    int fds1 = count_dir("/proc/self/fd"), tasks1 = count_dir("/proc/self/task");
    for (int i = 0; i < 200 && tasks1 > tasks0; i++) { nap(5000); tasks1 = count_dir("/proc/self/task"); }
    if (fds1 != fds0 - 1) VIOL("left", "%d descriptors instead of %d", fds1, fds0 - 1);
    if (tasks1 > tasks0) VIOL("left", "%d threads instead of %d", tasks1, tasks0);
    R->state &= ~RKRadarStateLive;
    DISTINCTF("%d %d %d %d %d %d", D.kind, D.nconn, early, nc, D.nrep / 20, D.nact / 20);
    stat_add("reports", D.nrep); stat_add("events", D.events); stat_add("early", early); stat_add("pings", D.pings); stat_add("greetings", D.greetings);
    sample("device %d, %d connections, %d reports, %d actions, %d commands%s", D.kind, D.nconn, D.nrep, D.nact, D.ncmd, early ? ", ended early" : "");
    for (int i = 0; i < D.nrep; i++) free(D.rep[i].text);
    free(D.rep); free(D.act); free(D.cmd); free(said);
    RKFree(R);
    pthread_mutex_destroy(&D.lock);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
