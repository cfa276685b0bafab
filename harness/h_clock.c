// The clock: times derived from tics whose arrival is late by a varying amount.
#include "vp.h"
static struct timeval now;
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; *t = now; return 0; }
static void set_now(double day, double x) {
    double s = floor(x);
    now.tv_sec = (time_t)(day + s);
    now.tv_usec = (suseconds_t)floor((x - s) * 1e6);
}
typedef struct {
    RKClock *c;
    double day, T, u, I, R, J, off, last, lastY, lastU, high;   // seconds of the day, tics, seconds per tic interval, tics per second, delay, offset
    int stride, size, n, kind, block, inBlock, still, gapMax, wisdom;
    double blockStart, sumSkip;
    uint64_t i;
} Sim;
enum { FIXED, UNIFORM, BURST, RARE, KINDS };
static void open_clock(Sim *s) {
    memset(s, 0, sizeof(*s));
    s->day = 86400.0 * rr(10957, 24000);
    s->T = rf(0, 86000);
    s->stride = chance(0.15) ? rr(2, 10) : chance(0.3) ? rr(800, 1200) : rr(10, 400);
    s->size = s->stride + (chance(0.3) ? 1 : chance(0.3) ? 1000 : rr(1, 300));
    s->kind = ri(KINDS);
    s->I = pow(10.0, rf(-3.7, -1.0));
    s->R = chance(0.2) ? 1.0 / s->I : pow(10.0, rf(0.5, 8.0));
    if (s->R * s->I < 1.0) s->R = 1.0 / s->I;
    while (s->R * s->I * (s->stride + 10) * 4.0 > 9e8) s->R *= 0.3;
    s->R = fmax(1.0, s->R);
    // A whole number of tics per interval, as counters do
    s->R = ceil(s->R * s->I) / s->I;
    s->J = s->kind == FIXED ? 0.0 : chance(0.5) ? s->I * rf(0.1, 3.0) : rf(1e-4, 0.1);
    s->gapMax = chance(0.6) ? 0 : rr(1, 4);
    s->block = rr(2, 20);
    s->u = floor(rf(0, 1e9));
    set_now(s->day, s->T);
    s->c = RKClockInitWithSize(s->size, s->stride);
    s->high = 1;
    if (chance(0.15)) { RKClockSetHighPrecision(s->c, false); s->high = 0; }
    if (chance(0.4)) { s->wisdom = 1; if (chance(0.5)) RKClockSetDuDx(s->c, s->R); else RKClockSetDxDu(s->c, 1.0 / s->R); }
    if (chance(0.4)) RKClockSetOffset(s->c, s->off = rf(-2.0, 2.0));
    if (chance(0.5)) RKClockSetName(s->c, "<Clock of many words, more than a name may be long, or not quite so long as that>");
    s->still = chance(0.1);
    s->last = s->T;
}
static void step(Sim *s) {
    int skip = s->gapMax && s->n > 2 ? ri(s->gapMax + 1) : 0;
    s->sumSkip += skip;
    s->T += s->I * (1 + skip);
    if (!s->still) s->u += round(s->R * s->I) * (1 + skip);
    double d = 0;
    switch (s->kind) {
        case FIXED: break;
        case UNIFORM: d = rf(0, s->J); break;
        case BURST: {      // those of a block arrive together with the last one, as far as the delay goes
            int left = s->block - 1 - (int)(s->i % s->block);
            d = fmin(s->J, left * s->I);
            break;
        }
        case RARE: d = chance(0.02) ? s->J : 0.0; break;
    }
    s->i++;
    double x = fmax(s->last, s->T + d);
    s->last = x;
    set_now(s->day, x);
    struct timeval got = {0, 0};
    int ask = chance(0.7);
    double base = s->high ? 0.0 : s->day;
    double fine = s->high ? 3e-6 : 2e-4;
    double y = RKClockGetTime(s->c, s->u, ask ? &got : NULL) - s->off - base;
    if (ask && (got.tv_sec != now.tv_sec || got.tv_usec != now.tv_usec)) VIOL("arrival", "the time of arrival given is %ld.%06ld, it was %ld.%06ld", (long)got.tv_sec, (long)got.tv_usec, (long)now.tv_sec, (long)now.tv_usec);
    s->n++;
    stat_add("times", 1);
    double J = s->J;
    if (s->n <= 2) {
        if (!(fabs(y - x) <= fine)) { VIOL("first", "time %d after the start is %.6f, it arrived at %.6f", s->n, y, x); return; }
    } else if (s->still) {
        // A reference that does not move is replaced: the times follow those of arrival
        double bound = 2.0 * J + (s->gapMax + 2) * s->I * (s->stride / 2 + 4) * (s->gapMax ? 1.0 : 0.0) + 4 * s->I + fine;
        if (!(fabs(y - s->T) <= bound)) { VIOL("still", "with a constant reference, time %d is %.6f, true %.6f (interval %.6f, delays to %.6f, stride %d)", s->n, y, s->T, s->I, J, s->stride); return; }
        stat_add("still", 1);
    } else {
        double g = 1.0 + 2.0 * s->gapMax / (double)s->stride;
        double lo = s->T - J * g - fine, hi = s->T + 2.0 * J * g + fine;
        if (!(y >= lo && y <= hi)) { VIOL("error", "time %d is %.6f, true %.6f, delays up to %.6f (stride %d of %d, interval %.6f, %g tics/s, offset %g%s)", s->n, y, s->T, J, s->stride, s->size, s->I, s->R, s->off, s->wisdom ? ", wisdom" : ""); return; }
        if (s->kind == FIXED) stat_add("exact", 1);
        if (s->n > s->stride + 3) {
            double dy = y - s->lastY, want = (s->u - s->lastU) / s->R;
            double tol = 6.0 * g * J * (1.0 + s->gapMax) / s->stride + 2 * fine / (s->stride > 20 ? 2 : 1);
            if (!(fabs(dy - want) <= tol)) { VIOL("rate", "the time moved by %.6f for tics worth %.6f s at time %d (delays up to %.6f, stride %d)", dy, want, s->n, J, s->stride); return; }
            if (want > tol) { stat_add("increments", 1); if (!(dy > 0)) { VIOL("order", "the time went from %.6f to %.6f with the tics going up", s->lastY, y); return; } }
        }
    }
    s->lastY = y;
    s->lastU = s->u;
}
static void vp_case(uint64_t index) {
    int n = chance(0.3) ? 2 : 1;        // the radar has one clock for the pulses and one for the positions
    Sim s[2];
    for (int k = 0; k < n; k++) open_clock(&s[k]);
    int total = rr(3, 4) * (s[0].size) + rr(10, 1500), resets = 0, gaps = 0;
    uint64_t v0 = vp_viol;
    for (int i = 0; i < total && vp_viol == (int)v0; i++) {
        for (int k = 0; k < n; k++) {
            step(&s[k]);
            if (chance(0.0007)) { RKClockReset(s[k].c); s[k].n = 0; s[k].i = 0; s[k].T += rf(0.1, 2.0) + s[k].J; resets++; if (chance(0.5)) s[k].u = floor(rf(0, 1e9)); if (chance(0.3) && s[k].last < 80000) s[k].T += rf(0, 200); }
            else if (chance(0.0003) && s[k].T < 80000 && !s[k].still) { s[k].T += 310.0 + s[k].J * 3 + rf(0, 1000); s[k].n = 0; s[k].i = 0; gaps++; if (chance(0.5)) s[k].u = floor(rf(0, 1e9)); }
            else if (chance(0.0005)) RKClockSetOffset(s[k].c, s[k].off = rf(-2.0, 2.0));
        }
    }
    stat_add("resets", resets); stat_add("gaps", gaps);
    for (int k = 0; k < n; k++) {
        DISTINCTF("%d %d %d %.3g %.3g", s[k].stride, s[k].size, s[k].kind, s[k].I, s[k].R);
        sample("stride %d of %d, interval %.6f s, %.4g tics/s, delays up to %.6f s (kind %d), gaps %d: %d times", s[k].stride, s[k].size, s[k].I, s[k].R, s[k].J, s[k].kind, s[k].gapMax, total);
        RKClockFree(s[k].c);
    }
    // A clock needs more room than its stride
    if (chance(0.05)) {
        int st = rr(2, 300);
        RKClock *c = RKClockInitWithSize(st - ri(2), st);
        if (c) { VIOL("size", "a clock of %d with a stride of %d was made", c->size, st); RKClockFree(c); }
        stat_add("refused", 1);
    }
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
