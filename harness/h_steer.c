// Volume scans: every command makes the sweeps it describes, each is executed in order and as described, by any sound pedestal.
#include "vp.h"
#include <RadarKit/RKSteerEngine.h>
static RKSteerEngine *eng;
static RKRadarDesc desc;
static RKPosition *pb;
static uint32_t pi_, ci_;
static RKConfig *cb;
// ---- a model pedestal --------------------------------------------------------------------------------------------
static double az, el, vaz, vel, taz, tel, acc, dt, t;
static int latency;
static RKScanAction q[64];
static int qn;
static double noise;
static void obey(const RKScanAction *a) {
    for (int k = 0; k < 2; k++) {
        int m = a->mode[k];
        if (!(m & RKPedestalInstructTypeModeMask)) continue;
        int isel = (m & RKPedestalInstructTypeAxisMask) == RKPedestalInstructTypeAxisElevation;
        double v = (m & RKPedestalInstructTypeModeMask) == RKPedestalInstructTypeModeSlew ? a->value[k] : 0;
        if (isel) tel = v; else taz = v;
    }
}
static double toward(double v, double to) { double s = acc * dt; return fabs(to - v) <= s ? to : v + (to > v ? s : -s); }
static void advance(void) {
    vaz = toward(vaz, taz); vel = toward(vel, tel);
    az += vaz * dt; el += vel * dt;
    if (az >= 360) az -= 360;
    if (az < 0) az += 360;
    t += dt;
}
// ---- the volumes, as the operator's manual describes them --------------------------------------------------------
typedef struct { int mode; double e0, e1, a0, a1, r; } Scan;
typedef struct { Scan s[RKMaximumScanCount]; int n; } List;
static List bat, deck, hole;
static int at, active, repeat;
static int stopping;
static void next_hitter(void) { bat = deck; deck = hole; at = 0; active = bat.n > 0; if (!active) stopping = 1; }
static void done_one(void) {
    if (++at < bat.n) return;
    at = 0;
    if (repeat) next_hitter();
    else { if (bat.n == 1 && bat.s[0].mode == RKScanModePoint) bat.n = deck.n = hole.n = 0; active = 0; }
}
static double ang(double a, double b) { double d = fmod(a - b, 360); if (d > 180) d -= 360; if (d < -180) d += 360; return fabs(d); }
static double r1(double x) { return round(x * 10) / 10; }
static char cmd[RKMaximumStringLength + 100];
static int make_pp(char *c, List *l, int n, int full) {
    int k = 0;
    double e[100], a0 = 0, r = RKDefaultScanSpeed;
    for (int i = 0; i < n; i++) { e[i] = r1(rf(0, 60)); k += sprintf(c + k, i ? ",%.1f" : " %.1f", e[i]); }
    if (full > 0) { a0 = r1(rf(0, 359)); k += sprintf(c + k, " %.1f", a0); }
    if (full > 1) { r = r1(rf(5, 45)) * (chance(0.3) ? -1 : 1); k += sprintf(c + k, " %.1f", r); }
    for (int i = 0; i < n; i++) if (l->n < RKMaximumScanCount) l->s[l->n++] = (Scan){RKScanModePPI, e[i], e[i], a0, a0, r};
    return k;
}
static int make_rr(char *c, List *l, int n, int full) {
    double e0 = r1(rf(0, 10)), e1 = r1(e0 + rf(10, 60)), r = RKDefaultScanSpeed, a[180];
    if (full && chance(0.3)) { double x = e0; e0 = e1; e1 = x; }
    int k = sprintf(c, " %.1f,%.1f", e0, e1);
    for (int i = 0; i < n; i++) { a[i] = r1(rf(0, 359)); k += sprintf(c + k, i ? ",%.1f" : " %.1f", a[i]); }
    if (full) { r = r1(rf(2, 20)); if (e1 < e0) r = -r; k += sprintf(c + k, " %.1f", r); }
    for (int i = 0; i < n; i++) if (l->n < RKMaximumScanCount) l->s[l->n++] = i % 2 ? (Scan){RKScanModeRHI, e1, e0, a[i], 0, -r} : (Scan){RKScanModeRHI, e0, e1, a[i], 0, r};
    return k;
}
static int make_vol(char *c, List *l, int n) {
    int k = 0;
    for (int i = 0; i < n; i++) {
        k += sprintf(c + k, "%s", i ? chance(0.3) ? " / " : "/" : " ");
        switch (ri(5)) {
            case 0: { double e = r1(rf(0, 60)), a = r1(rf(0, 359)), r = r1(rf(5, 45)); k += sprintf(c + k, "p %.1f %.1f %.1f", e, a, r); l->s[l->n++] = (Scan){RKScanModePPI, e, e, a, a, r}; break; }
            case 1: { double e0 = r1(rf(0, 10)), e1 = r1(e0 + rf(10, 60)), a = r1(rf(0, 359)), r = r1(rf(2, 20)); k += sprintf(c + k, "r %.1f,%.1f %.1f %.1f", e0, e1, a, r); l->s[l->n++] = (Scan){RKScanModeRHI, e0, e1, a, a, r}; break; }
            case 2: case 3: { double e = r1(rf(0, 60)), a0 = r1(rf(0, 359)), a1 = r1(fmod(a0 + rf(20, 340), 360)), r = r1(rf(5, 30)) * (chance(0.4) ? -1 : 1); k += sprintf(c + k, "s %.1f %.1f,%.1f %.1f", e, a0, a1, r); l->s[l->n++] = (Scan){RKScanModeSector, e, e, a0, a1, r}; break; }
            default: k += sprintf(c + k, chance(0.5) ? "pp" : "rr"); k += c[k - 1] == 'p' ? make_pp(c + k, l, rr(1, 3), 2) : make_rr(c + k, l, rr(1, 3), 1); break;
        }
    }
    return k;
}
// ---- a command, given to the engine and to the model -------------------------------------------------------------
static int same(float a, double b) { return fabs(a - b) <= 1e-4 * (1 + fabs(b)); }
static void same_list(const char *what, const RKScanPath *p, int n, const List *l) {
    if (n != l->n) { VIOL("plan", "%s has %d sweeps instead of %d after '%.300s'", what, n, l->n, cmd); return; }
    for (int i = 0; i < n; i++) {
        const Scan *s = &l->s[i];
        int ok = p[i].mode == s->mode && same(p[i].elevationStart, s->e0) && same(p[i].elevationEnd, s->e1) && same(p[i].azimuthStart, s->a0);
        if (s->mode == RKScanModePPI || s->mode == RKScanModeSector) ok = ok && same(p[i].azimuthEnd, s->a1) && same(p[i].azimuthSlew, s->r);
        if (s->mode == RKScanModeRHI) ok = ok && same(p[i].elevationSlew, s->r);
        if (!ok) { VIOL("plan", "%s sweep %d is mode %d EL %.1f-%.1f AZ %.1f-%.1f @ %.1f instead of mode %d EL %.1f-%.1f AZ %.1f-%.1f @ %.1f after '%.300s'", what, i, p[i].mode, p[i].elevationStart, p[i].elevationEnd, p[i].azimuthStart, p[i].azimuthEnd, p[i].azimuthSlew, s->mode, s->e0, s->e1, s->a0, s->a1, s->r, cmd); return; }
    }
}
static void check_plan(void) {
    RKScanObject *V = &eng->vcpHandle;
    same_list("the volume", V->batterScans, V->sweepCount, &bat);
    same_list("the next volume", V->onDeckScans, V->onDeckCount, &deck);
    same_list("the lineup", V->inTheHoleScans, V->inTheHoleCount, &hole);
}
static int give(int expect) {
    char *resp = malloc(RKMaximumStringLength);
    memset(resp, 'x', RKMaximumStringLength);
    int r = RKSteerEngineExecuteString(eng, cmd, resp);
    char *e = memchr(resp, 0, RKMaximumStringLength);
    if (!e) VIOL("answer", "no end of the answer to '%.300s'", cmd);
    else if (strncmp(resp, r == RKResultSuccess ? "ACK" : "NAK", 3) || e - resp < 5 || strcmp(e - strlen(RKEOL), RKEOL)) VIOL("answer", "'%.300s' gives %d and '%.200s'", cmd, r, resp);
    if (expect >= 0 && (r == RKResultSuccess) != expect) VIOL("accept", "'%.300s' gives %d", cmd, r);
    if (e && strlen(resp) > 2000) stat_add("long_answers", 1);
    free(resp);
    return r == RKResultSuccess;
}
static double changed_at;
static void command(void) {
    List l = {.n = 0};
    int k, c = ri(20);
    cmd[0] = 0;
    stat_add("commands", 1);
    if (c < 12) {
        const char *kinds[] = {"pp", "ipp", "opp", "rr", "irr", "orr", "vol", "ivol", "ovol"};
        int w = ri(9);
        k = sprintf(cmd, "%s", kinds[w]);
        int many = chance(0.05);
        if (w < 3) make_pp(cmd + k, &l, many ? rr(40, 100) : rr(1, 4), rr(0, 2));
        else if (w < 6) make_rr(cmd + k, &l, many ? rr(60, 170) : rr(1, 4), rr(0, 1));
        else make_vol(cmd + k, &l, many ? rr(20, 60) : rr(1, 5));
        if (!give(1)) return;
        if (many) stat_add("many", 1);
        repeat = 1;
        int once = w % 3 == 2, now = w % 3 == 1;
        if (now) { bat.n = deck.n = hole.n = 0; at = 0; }
        if (once) deck = l; else hole = deck = l;
        if (!active) { active = 1; changed_at = t; stopping = 0; }
        if (now || bat.n == 0) { next_hitter(); changed_at = t; stopping = 0; }
    } else if (c < 13) {
        double e = r1(rf(-2, 90)), a = r1(rf(0, 359));
        if (chance(0.2)) { e = 0; a = desc.heading; sprintf(cmd, "home"); } else sprintf(cmd, "point %.1f %.1f", e, a);
        if (!give(1)) return;
        repeat = 0;
        bat.n = deck.n = hole.n = 0;
        deck.s[deck.n++] = (Scan){RKScanModePoint, e, e, a, a, 0};
        next_hitter(); changed_at = t; stopping = 0;
    } else if (c < 15) { sprintf(cmd, chance(0.5) ? "stop" : "end"); if (give(1)) { active = 0; stopping = 1; changed_at = t; } }
    else if (c < 17) { sprintf(cmd, chance(0.3) ? "start" : chance(0.5) ? "go" : "run"); if (give(1)) { active = 1; at = 0; repeat = 1; changed_at = t; stopping = 0; } }
    else if (c < 18) { sprintf(cmd, "next"); if (give(1)) { stopping = 0; next_hitter(); changed_at = t; } }
    else if (c < 19) { sprintf(cmd, chance(0.5) ? "summ" : chance(0.5) ? "status" : "state"); give(1); }
    else {
        // something else: as far as it is refused nothing changes
        const char *bad[] = {"", " ", "pp", "vol", "vol ", "rr", "rr 10 20", "ipp x", "irr a,b 10", "ivol x 1 2 3", "ivol p 2 45 18/q 1 2 3", "vol p", "ivol s a b c", "hello", "pp ,,,", "orr 1,2", "ivol ss 1 2 3", "vol p 2 0 18/zz 1 2 3", "irr 0,30 x 10", "ipp 2,4,x 0 18"};
        if (chance(0.6)) strcpy(cmd, bad[ri(20)]);
        else { int n = chance(0.1) ? rr(200, 4000) : rr(0, 60); for (int i = 0; i < n; i++) cmd[i] = "pprvol 0123456789,./-sboix"[ri(26)]; cmd[n] = 0; if (chance(0.5) && n > 5) memcpy(cmd, chance(0.5) ? "vol p" : chance(0.5) ? "ipp 1" : "rr 0,", 5); }
        RKScanObject *was = malloc(sizeof(RKScanObject));
        *was = eng->vcpHandle;
        if (give(-1)) {
            // took it: what it means is not judged, only that it is a volume; start over
            stat_add("odd_taken", 1);
            sprintf(cmd, "ipp 5 0 20");
            if (give(1)) { repeat = 1; hole.n = 1; hole.s[0] = (Scan){RKScanModePPI, 5, 5, 0, 0, 20}; deck = hole; next_hitter(); changed_at = t; stopping = 0; }
        } else {
            stat_add("refused", 1);
            RKScanObject *V = &eng->vcpHandle;
            if (V->i != was->i || V->active != was->active || V->progress != was->progress || V->option != was->option) VIOL("refused", "'%.300s' is refused and changes the course of the volume", cmd);
        }
        free(was);
    }
    check_plan();
    if (RKSteerEngineScanSummary) {
        int tot = bat.n + deck.n + hole.n;
        DISTINCTF("c%d.%d.%d.%d.%d", c, bat.n > 9 ? 9 : bat.n, tot > 30 ? 30 : tot, active, repeat);
    }
}
// ---- execution ---------------------------------------------------------------------------------------------------
static double began;                     // when the sweep's data part began
static int mid;
static double pass, mid_az0, mid_el0, drift_az, drift_el, room;   // room: to come to a stop
static void drive(double seconds) {
    double end = t + seconds;
    RKPosition *p = &pb[0];
    while (t < end) {
        memset(p, 0, sizeof(*p));
        p->azimuthDegrees = az; p->elevationDegrees = el;
        p->azimuthVelocityDegreesPerSecond = vaz; p->elevationVelocityDegreesPerSecond = vel;
        const Scan *s = active && bat.n ? &bat.s[at] : NULL;
        int was = s ? s->mode : 0;
        RKScanAction *a = RKSteerEngineGetAction(eng, p);
        stat_add("positions", 1);
        uint32_t sb = RKPreviousModuloS(eng->statusBufferIndex, RKBufferSSlotCount);
        const char *st = eng->statusBuffer[sb];
        if (st[RKStatusStringLength - 1] || st[RKStatusStringLength - 2] != '#' || strlen(st) > RKStatusStringLength - 3) VIOL("status", "the status takes more than its slot: '%.300s'", st);
        // The action: within what a pedestal can take, at most one per axis
        int ax[2] = {0, 0};
        for (int k = 0; k < 2; k++) {
            int m = a->mode[k] & RKPedestalInstructTypeModeMask, x = a->mode[k] & RKPedestalInstructTypeAxisMask;
            if (!m) continue;
            if (k == 1 && !(a->mode[0] & RKPedestalInstructTypeModeMask)) VIOL("action", "the second instruction without the first");
            if (m != RKPedestalInstructTypeModeStandby && m != RKPedestalInstructTypeModeSlew) VIOL("action", "mode %d", a->mode[k]);
            if (x != RKPedestalInstructTypeAxisElevation && x != RKPedestalInstructTypeAxisAzimuth) VIOL("action", "axis %d", a->mode[k]);
            ax[x == RKPedestalInstructTypeAxisAzimuth]++;
            double lim = x == RKPedestalInstructTypeAxisAzimuth ? 30 : 15;
            if (s) lim = fmax(lim, fabs(s->r));
            if (m == RKPedestalInstructTypeModeSlew && !(fabs(a->value[k]) <= lim + 1e-3)) VIOL("rate", "slew at %f", a->value[k]);
            stat_add("actions", 1);
        }
        if (ax[0] > 1 || ax[1] > 1) VIOL("action", "two instructions for one axis");
        if (!s && (a->mode[0] & RKPedestalInstructTypeModeMask) == RKPedestalInstructTypeModeSlew) VIOL("idle", "the pedestal is moved without a volume");
        // The flags
        uint32_t f = p->flag;
        int comp = !!(f & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete));
        if (!s) { if (f & (RKPositionFlagVCPActive | RKPositionFlagScanActive) || comp) VIOL("flags", "%08x without a volume", f); }
        else {
            uint32_t want = was == RKScanModePPI || was == RKScanModeSector ? RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint : was == RKScanModeRHI ? RKPositionFlagAzimuthPoint | RKPositionFlagElevationSweep : RKPositionFlagAzimuthPoint | RKPositionFlagElevationPoint;
            uint32_t all = RKPositionFlagAzimuthSweep | RKPositionFlagElevationPoint | RKPositionFlagAzimuthPoint | RKPositionFlagElevationSweep;
            if ((f & all) != want || !(f & RKPositionFlagVCPActive)) VIOL("flags", "%08x for a sweep of mode %d", f, was);
            if (!same(p->sweepElevationDegrees, s->e0) || !same(p->sweepAzimuthDegrees, s->a0)) VIOL("tags", "EL %.2f AZ %.2f for sweep %d of %d: EL %.2f AZ %.2f", p->sweepElevationDegrees, p->sweepAzimuthDegrees, at, bat.n, s->e0, s->a0);
            int m = !!(f & RKPositionFlagScanActive);
            if (m && !mid) { mid_az0 = az; mid_el0 = el; drift_az = drift_el = 0; began = t; double v = was == RKScanModeRHI ? fabs(vaz) : fabs(vel); pass = 0.5 + fabs(vaz) * (latency + 2) * dt + vaz * vaz / 2 / acc; room = 0.2 + v * (latency + 2) * dt + v * v / 2 / acc; }
            if (m || comp) {
                // What is to stay, stays
                if (was == RKScanModeRHI) drift_az = fmax(drift_az, ang(az, s->a0));
                if (was == RKScanModeSector) drift_el = fmax(drift_el, ang(el, s->e0));
            }
            if (comp) {
                double tol = 0.1 + 1.5 * dt * fabs(s->r) + 0.02;
                stat_add("sweeps", 1);
                const char *nm = was == RKScanModePPI ? "PPI" : was == RKScanModeRHI ? "RHI" : was == RKScanModeSector ? "sector" : "point";
                stat_add(was == RKScanModePPI ? "ppis" : was == RKScanModeRHI ? "rhis" : was == RKScanModeSector ? "sectors" : "points", 1);
                DISTINCTF("s%d.%d.%d.%d", was, (int)(fabs(s->r) / 5), (int)(s->e0 / 5), (int)(s->a0 / 15));
                if (was == RKScanModePPI) {
                    if (ang(az, s->a1) > tol || ang(el, s->e0) > 0.35) VIOL("end", "%s EL %.2f AZ %.2f @ %.1f ends at EL %.2f AZ %.2f", nm, s->e0, s->a1, s->r, el, az);
                    if (t - changed_at > 1 + (45 + fabs(s->r)) / acc && fabs(vaz - s->r) > 0.3) VIOL("speed", "%s at %.2f instead of %.2f", nm, vaz, s->r);
                } else if (was == RKScanModeRHI) {
                    if (ang(el, s->e1) > tol || fabs(mid_el0 - s->e0) > 0.5) VIOL("end", "%s EL %.2f-%.2f AZ %.2f @ %.1f ran from EL %.2f to EL %.2f AZ %.2f", nm, s->e0, s->e1, s->a0, s->r, mid_el0, el, az);
                    if (drift_az > room) VIOL("drift", "%s at AZ %.2f strays by %.2f instead of %.2f", nm, s->a0, drift_az, room);
                    if (fabs(vel - s->r) > 0.3) VIOL("speed", "%s at %.2f instead of %.2f", nm, vel, s->r);
                } else if (was == RKScanModeSector) {
                    if (ang(az, s->a1) > tol || ang(mid_az0, s->a0) > 0.5) VIOL("end", "%s AZ %.2f-%.2f EL %.2f @ %.1f ran from AZ %.2f to AZ %.2f", nm, s->a0, s->a1, s->e0, s->r, mid_az0, az);
                    if (drift_el > room) VIOL("drift", "%s at EL %.2f strays by %.2f instead of %.2f", nm, s->e0, drift_el, room);
                    if (fabs(vaz - s->r) > 0.3) VIOL("speed", "%s at %.2f instead of %.2f", nm, vaz, s->r);
                    double arc = fmod((s->r > 0 ? s->a1 - s->a0 : s->a0 - s->a1) + 720, 360);
                    if (t - began < (arc - pass) / fabs(s->r) - 0.5) VIOL("cut", "%s of %.1f degrees at %.1f took %.2f s", nm, arc, s->r, t - began);
                } else if (ang(az, s->a0) > 0.15 || ang(el, s->e0) > 0.15) VIOL("end", "%s EL %.2f AZ %.2f ends at EL %.2f AZ %.2f", nm, s->e0, s->a0, el, az);
                int last = at == bat.n - 1;
                done_one();
                changed_at = t;
                if (last) { stat_add("volumes", 1); if (!active) stopping = 1; check_plan(); }
                mid = 0;
            } else mid = m;
            // It gets there
            double need = 60 + (was == RKScanModePPI ? 2 * 360 / fabs(s->r) : was == RKScanModePoint ? 0 : was == RKScanModeRHI ? 90 / fabs(s->r) : 360 / fabs(s->r));
            if (t - changed_at > need) { VIOL("stuck", "mode %d EL %.2f-%.2f AZ %.2f-%.2f @ %.2f is not done after %.0f s, at EL %.2f @ %.2f AZ %.2f @ %.2f", was, s->e0, s->e1, s->a0, s->a1, s->r, need, el, vel, az, vaz); changed_at = t + 1e9; }
        }
        // A stopped pedestal stands
        if (!active && stopping && t - changed_at > 5 && (fabs(vaz) > 0.25 || fabs(vel) > 0.25)) { VIOL("moves", "the pedestal moves at %.2f %.2f after the end of the volume", vel, vaz); stopping = 0; }
        q[qn++] = *a;
        while (qn > latency) { obey(&q[0]); memmove(q, q + 1, --qn * sizeof(q[0])); }
        advance();
    }
}
// ---- commands while positions come -------------------------------------------------------------------------------
#include <stdatomic.h>
static atomic_int quit;
static void *operator_(void *in) {
    unsigned r = (unsigned)(size_t)in;
    char *resp = malloc(RKMaximumStringLength), c[200];
    while (!quit) {
        r = r * 1103515245u + 12345u;
        int e = 1 + (r >> 16) % 40, m = (r >> 8) % 10;
        // every sweep at AZ 4 * EL, so that a position cannot be told half of one sweep and half of another
        if (m < 6) snprintf(c, sizeof(c), "%s p %d %d 30/p %d %d 30/s %d %d,%d 30", m < 3 ? "ivol" : m < 5 ? "vol" : "ovol", e, 4 * e, e + 1, 4 * e + 4, e + 2, 4 * e + 8, 4 * e + 60);
        else strcpy(c, m == 6 ? "next" : m == 7 ? "stop" : m == 8 ? "start" : "summ");
        int x = RKSteerEngineExecuteString(eng, c, resp);
        if (x != RKResultSuccess || strncmp(resp, "ACK", 3)) VIOL("answer", "'%s' gives %d and '%.100s'", c, x, resp);
        stat_add("conc_commands", 1);
        usleep(r % 300);
    }
    free(resp);
    return NULL;
}
static void conc(void) {
    pthread_t th[2];
    RKPosition p;
    quit = 0;
    az = el = 0; dt = 0.01; eng->vcpHandle.toc = 5;
    for (int i = 0; i < 2; i++) pthread_create(&th[i], NULL, operator_, (void *)(size_t)(ri(1 << 30)));
    for (int k = 0; k < 8000; k++) {
        memset(&p, 0, sizeof(p));
        p.azimuthDegrees = az; p.elevationDegrees = el;
        p.azimuthVelocityDegreesPerSecond = vaz; p.elevationVelocityDegreesPerSecond = vel;
        obey(RKSteerEngineGetAction(eng, &p));
        advance();
        stat_add("conc_positions", 1);
        if (p.flag & RKPositionFlagVCPActive) {
            stat_add("conc_active", 1);
            DISTINCTF("q%d.%x", (int)p.sweepElevationDegrees, p.flag);
            if (fabs(p.sweepAzimuthDegrees - 4 * p.sweepElevationDegrees) > 0.01) VIOL("torn", "EL %.1f AZ %.1f is no sweep that was asked for", p.sweepElevationDegrees, p.sweepAzimuthDegrees);
        } else if (p.flag) VIOL("flags", "%08x without a volume", p.flag);
        if (k % 50 == 0) usleep(50);
    }
    quit = 1;
    for (int i = 0; i < 2; i++) pthread_join(th[i], NULL);
    sprintf(cmd, "ipp 5,7 10 20");
    if (give(1)) { bat.n = 2; bat.s[0] = (Scan){RKScanModePPI, 5, 5, 10, 10, 20}; bat.s[1] = bat.s[0]; bat.s[1].e0 = bat.s[1].e1 = 7; hole = deck = bat; check_plan(); }
}
static void vp_case(uint64_t index) {
    static FILE *nul;
    if (!nul) { stderr = nul = fopen("/dev/null", "w"); RKSetWantScreenOutput(false); }
    memset(&desc, 0, sizeof(desc));
    desc.positionBufferDepth = rr(100, 400); desc.pulseBufferDepth = 1000;
    desc.heading = r1(rf(0, 359));
    pb = calloc(desc.positionBufferDepth, sizeof(RKPosition));
    cb = calloc(4, sizeof(RKConfig));
    pi_ = ci_ = 0;
    eng = RKSteerEngineInit();
    RKSteerEngineSetEssentials(eng, &desc, pb, &pi_, cb, &ci_);
    rkGlobalParameters.showColor = rkGlobalParameters.statusColor = chance(0.5);
    if (chance(0.2)) RKSteerEngineSetVerbose(eng, 2);
    bat.n = deck.n = hole.n = 0; at = active = 0; repeat = 1; mid = 0; stopping = 0; changed_at = 0;
    az = rf(0, 359); el = rf(0, 90); vaz = vel = taz = tel = 0; t = 0; qn = 0; noise = 0;
    dt = chance(0.5) ? 0.01 : rf(0.005, 0.02); acc = rf(15, 60); latency = rr(0, 1);
    eng->vcpHandle.toc = (int)ceil(RKPedestalActionPeriod / dt);        // the engine measures the rate of the positions
    int n = rr(1, 8);
    if (!strcmp(vp_mode, "conc")) { conc(); n = 0; }
    for (int i = 0; i < n; i++) {
        command();
        drive(chance(0.1) ? dt * rr(0, 3) : chance(0.3) ? rf(0, 20) : rf(20, 240));
    }
    if (index < 2) sample("%d commands, last '%.100s': %d sweeps, %d next, %d in the lineup, at %d", n, cmd, bat.n, deck.n, hole.n, at);
    RKSteerEngineFree(eng);
    free(pb); free(cb);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
