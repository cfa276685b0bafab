// Ring filter engine: each gate of each polarization is filtered along pulses; every pulse passes once, in order.
#include "vp.h"
#include "vpsched.h"
#include <complex.h>
#undef I

#define MAXD 200
static uint32_t cap, depth, G, region;
typedef struct { float *z[2][2]; RKPulseHeader h; int skip; uint64_t rest; } Input;
static Input in[MAXD];
static float *hx[RKMaximumIIRFilterTaps][2][2], *hy[RKMaximumIIRFilterTaps][2][2];   // last inputs and outputs

static void freq_check(void) {
    for (int t = 0; t < 4; t++) {
        RKFilterType ty[] = {RKFilterTypeElliptical1, RKFilterTypeElliptical2, RKFilterTypeElliptical3, RKFilterTypeElliptical4};
        RKIIRFilter f;
        memset(&f, 0, sizeof(f));
        RKGetFilterCoefficients(&f, ty[t]);
        double cut = 0.1 * (t + 1);
        for (int k = 0; k < 40; k++) {
            double w = k < 20 ? cut * 0.5 * k / 19 : cut + (M_PI - cut) * (k - 20) / 19;
            double complex zi = cexp(-1.0i * w), nu = 0, de = 0, q = 1;
            for (int j = 0; j < RKMaximumIIRFilterTaps; j++) { if (j < (int)f.bLength) nu += f.B[j].i * q; if (j < (int)f.aLength) de += f.A[j].i * q; q *= zi; }
            double g = 20 * log10(cabs(nu / de) + 1e-12);
            if (k < 20 ? g > -45 : fabs(g) > 1) VIOL("response", "elliptical filter %d: gain %g dB at %g rad/sample", t + 1, g, w);
            stat_add("responses_checked", 1);
        }
    }
}
static uint64_t rest_hash(RKPulse *p) {
    uint64_t h = 5;
    for (int q = 0; q < 2; q++) {
        RKIQZ Z = RKGetSplitComplexDataFromPulse(p, q);
        h = vp_h(Z.i + region, (cap - region) * sizeof(float), h);
        h = vp_h(Z.q + region, (cap - region) * sizeof(float), h);
        h = vp_h(RKGetComplexDataFromPulse(p, q), cap * sizeof(RKComplex), h);
        h = vp_h(RKGetInt16CDataFromPulse(p, q), cap * sizeof(RKInt16C), h);
    }
    return h;
}
static RKIIRFilter flt;
static int use;

static void check(RKPulse *p, uint32_t n) {
    Input *e = &in[n % depth];
    RKPulseStatus s = p->header.s;
    if (p->header.i != n) VIOL("order", "delivery %u is pulse %llu", n, (unsigned long long)p->header.i);
    int want_f = use && !e->skip, want_s = use && e->skip;
    if (!!(s & RKPulseStatusRingFiltered) != want_f || !!(s & RKPulseStatusRingSkipped) != want_s || !(s & RKPulseStatusRingInspected))
        VIOL("status", "pulse %u (filter %s, pulse %s) has status 0x%x", n, use ? "on" : "off", e->skip ? "skipped" : "compressed", s);
    RKPulseHeader h = p->header;
    h.s = e->h.s;
    if (memcmp(&h, &e->h, sizeof(h))) VIOL("header", "pulse %u: header changed", n);
    if (rest_hash(p) != e->rest) VIOL("outside", "pulse %u: data outside the filtered gates changed (region %u of %u gates)", n, region, G);
    stat_add("pulses_delivered", 1);
    if (!want_f) {
        for (int q = 0; q < 2; q++) {
            RKIQZ Z = RKGetSplitComplexDataFromPulse(p, q);
            if (memcmp(Z.i, e->z[q][0], region * 4) || memcmp(Z.q, e->z[q][1], region * 4)) VIOL("bypass", "pulse %u: an unfiltered pulse was altered", n);
        }
        return;
    }
    static double tot;
    for (int q = 0; q < 2; q++) {
        RKIQZ Z = RKGetSplitComplexDataFromPulse(p, q);
        for (int c = 0; c < 2; c++) {
            float *x = e->z[q][c], *y = c ? Z.q : Z.i;
            for (uint32_t g = 0; g < region; g++) {
                double v = 0, m = 0;
                for (uint32_t j = 0; j < flt.bLength; j++) { double u = (double)flt.B[j].i * (j ? hx[j - 1][q][c][g] : x[g]); v += u; m += fabs(u); }
                for (uint32_t j = 1; j < flt.aLength; j++) { double u = -(double)flt.A[j].i * hy[j - 1][q][c][g]; v += u; m += fabs(u); }
                if (!(fabs(y[g] - v) <= 4e-6 * m + 1e-20)) {
                    VIOL("filtered", "pulse %u pol %d %s gate %u of %u: %g expected %g (b %u a %u taps)", n, q, c ? "Q" : "I", g, region, y[g], v, flt.bLength, flt.aLength);
                    return;
                }
            }
            // Shift the history
            float *ox = hx[RKMaximumIIRFilterTaps - 1][q][c], *oy = hy[RKMaximumIIRFilterTaps - 1][q][c];
            for (int j = RKMaximumIIRFilterTaps - 1; j > 0; j--) { hx[j][q][c] = hx[j - 1][q][c]; hy[j][q][c] = hy[j - 1][q][c]; }
            hx[0][q][c] = ox; hy[0][q][c] = oy;
            memcpy(ox, x, region * 4);
            memcpy(oy, y, region * 4);
        }
    }
    stat_add("gates_compared", region * 4.0);
    stat_add("pulses_filtered", 1);
    (void)tot;
}
static void pick_filter(void) {
    memset(&flt, 0, sizeof(flt));
    if (chance(0.6)) {
        RKFilterType t[] = {RKFilterTypeElliptical1, RKFilterTypeElliptical2, RKFilterTypeElliptical3, RKFilterTypeElliptical4, RKFilterTypeImpulse, RKFilterTypeTest1};
        RKGetFilterCoefficients(&flt, t[ri(6)]);
    } else {
        flt.type = RKFilterTypeUserDefined;
        sprintf(flt.name, "random");
        flt.bLength = rr(1, RKMaximumIIRFilterTaps);
        flt.aLength = rr(1, RKMaximumIIRFilterTaps);
        for (uint32_t j = 0; j < flt.bLength; j++) flt.B[j].i = rf(-2, 2);
        flt.A[0].i = 1;
        for (uint32_t j = 1; j < flt.aLength; j++) flt.A[j].i = rf(-1, 1) * 0.9 / flt.aLength;
    }
}

static void vp_case(uint64_t index) {
    if (index % 100 == 0) freq_check();
    cap = 16 * rr(1, chance(0.5) ? 8 : 40);
    depth = rr(10, chance(0.2) ? MAXD : 60);
    G = chance(0.2) ? cap : rr(1, cap);
    int cores = rr(1, 8);
    vp_jitter = ri(3);
    vp_jit = r64();
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    desc.pulseCapacity = cap;
    desc.pulseBufferDepth = depth;
    desc.pulseToRayRatio = 1;
    desc.configBufferDepth = 4;
    RKConfig *configs = calloc(4, sizeof(RKConfig));
    uint32_t limit = chance(0.3) ? rr(1, 2 * cap) : rr(1, cap), ci = rr(0, 3), pi = 0;
    for (int i = 0; i < 4; i++) configs[i].ringFilterGateCount = i == (int)((ci + 3) % 4) ? limit : 7 * i + 1;
    region = G < limit ? G : limit;
    RKBuffer buf;
    RKPulseBufferAlloc(&buf, cap, depth);
    for (uint32_t k = 0; k < depth; k++) for (int q = 0; q < 2; q++) for (int c = 0; c < 2; c++) in[k].z[q][c] = malloc(cap * 4);
    for (int j = 0; j < RKMaximumIIRFilterTaps; j++) for (int q = 0; q < 2; q++) for (int c = 0; c < 2; c++) { hx[j][q][c] = calloc(cap, 4); hy[j][q][c] = calloc(cap, 4); }
    RKPulseRingFilterEngine *e = RKPulseRingFilterEngineInit();
    RKPulseRingFilterEngineSetVerbose(e, 0);
    RKPulseRingFilterEngineSetEssentials(e, &desc, configs, &ci, buf, &pi);
    RKPulseRingFilterEngineSetCoreCount(e, cores);
    pick_filter();
    RKPulseRingFilterEngineSetFilter(e, &flt);
    use = chance(0.9);
    if (use) RKPulseRingFilterEngineEnableFilter(e);
    RKPulseRingFilterEngineStart(e);
    double since = vp_now(), scale = pow(10, rf(-3, 5));
    uint32_t put = 0, got = 0, tagged = 0;
    int phases = rr(1, 3), dead = 0;
    for (int ph = 0; ph < phases && !dead; ph++) {
        if (ph) {                                       // everything is drained: change the filter, or turn it on or off
            if (chance(0.5)) { use = !use; if (use) RKPulseRingFilterEngineEnableFilter(e); else RKPulseRingFilterEngineDisableFilter(e); }
            else { pick_filter(); RKPulseRingFilterEngineSetFilter(e, &flt); }
        }
        uint32_t total = put + rr(2, (int)depth * 2);
        uint32_t inflight = rr(1, (int)depth - 3);
        double pskip = chance(0.5) ? 0 : 0.2;
        while (got < total) {
            if (put < total && put - got < inflight && chance(0.6)) {
                RKPulse *p = RKGetPulseFromBuffer(buf, pi);
                Input *E = &in[put % depth];
                p->header.s = RKPulseStatusVacant;
                p->header.i = put;
                p->header.gateCount = p->header.downSampledGateCount = G;
                p->header.n = r64();
                p->header.configIndex = ri(4);
                E->skip = chance(pskip);
                for (int q = 0; q < 2; q++) {
                    RKIQZ Z = RKGetSplitComplexDataFromPulse(p, q);
                    for (uint32_t g = 0; g < cap; g++) { Z.i[g] = scale * rf(-1, 1); Z.q[g] = scale * rf(-1, 1); }
                    memcpy(E->z[q][0], Z.i, cap * 4);
                    memcpy(E->z[q][1], Z.q, cap * 4);
                }
                E->h = p->header;
                E->rest = rest_hash(p);
                __sync_synchronize();
                pi = (pi + 1) % depth;
                put++;
            } else if (tagged < put && chance(0.7)) {
                RKPulse *p = RKGetPulseFromBuffer(buf, tagged % depth);
                p->header.s = RKPulseStatusHasIQData | RKPulseStatusInspected | (in[tagged % depth].skip ? RKPulseStatusSkipped : RKPulseStatusCompressed) | RKPulseStatusDownSampled;
                __sync_synchronize();
                p->header.s |= RKPulseStatusProcessed;
                tagged++;
            } else {
                RKPulse *p = RKGetPulseFromBuffer(buf, got % depth);
                if (got < put && p->header.s & RKPulseStatusRingProcessed) {
                    if (got >= tagged) VIOL("early", "pulse %u passed the ring filter before it was compressed", got);
                    __sync_synchronize();
                    check(p, got);
                    got++;
                    since = vp_now();
                } else vp_nap(30);
            }
            if (vp_now() - since > 20) { VIOL("live:stalled", "pulse %u not delivered within 20 s (%u fed)", got, put); dead = 1; break; }
        }
    }
    // No pulse is marked that was not fed
    for (uint32_t k = put; k < depth; k++) if (RKGetPulseFromBuffer(buf, k)->header.s) VIOL("phantom", "slot %u was never fed but has status 0x%x", k, RKGetPulseFromBuffer(buf, k)->header.s);
    RKPulseRingFilterEngineStop(e);
    RKPulseRingFilterEngineFree(e);
    DISTINCTF("%u/%u/%u/%d/%u/%u", cap, G / 8, region / 8, cores, flt.bLength, flt.aLength);
    stat_add("delays_injected", vp_delays); vp_delays = 0;
    if (index < 2) sample("capacity %u, depth %u, %d cores, region %u of %u gates: %u pulses filtered in order", cap, depth, cores, region, G, got);
    for (uint32_t k = 0; k < depth; k++) for (int q = 0; q < 2; q++) for (int c = 0; c < 2; c++) free(in[k].z[q][c]);
    for (int j = 0; j < RKMaximumIIRFilterTaps; j++) for (int q = 0; q < 2; q++) for (int c = 0; c < 2; c++) { free(hx[j][q][c]); free(hy[j][q][c]); }
    RKPulseBufferFree(buf);
    free(configs);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
