// Pulse compression engine: in-order, exactly-once delivery of correctly compressed and down-sampled pulses.
#include "vp.h"
#include "vpsched.h"

#define MAXDEPTH 256
typedef struct { RKPulseHeader h; uint64_t crc; RKInt16C *x[2]; RKComplex *c[2]; int wave; } Input;
static Input in[MAXDEPTH];
static RKFFTModule *ffts[8];
static uint32_t caps[8] = {64, 128, 208, 512, 1024, 1408, 2048, 512};
static RKFFTModule *fft_of(int i) {
    if (!ffts[i]) ffts[i] = RKFFTModuleInit(caps[i], 0);
    return ffts[i];
}
static uint32_t cap, G, depth, ratio;
static int single, cplx, ncheck;

static RKWaveform *make_wave(void) {
    int groups = cplx ? rr(1, 4) : (chance(0.3) ? rr(1, RKMaximumWaveformCount) : rr(1, 4));
    uint32_t d = rr(1, (int)(G / 4 < 200 ? G / 4 : 200));
    RKWaveform *w = RKWaveformInitWithCountAndDepth(groups, d);
    w->type = RKWaveformTypeIsComplex;
    w->fs = 1e6;
    for (int k = 0; k < groups; k++) {
        for (uint32_t i = 0; i < d; i++) { w->samples[k][i].i = rf(-1, 1); w->samples[k][i].q = rf(-1, 1); }
        int nf = cplx ? 1 : rr(1, 3);
        w->filterCounts[k] = nf;
        for (int j = 0; j < nf; j++) {
            RKFilterAnchor *a = &w->filterAnchors[k][j];
            a->name = j;
            a->origin = ri(d);
            a->length = rr(1, d - a->origin);
            if (chance(0.2)) { a->origin = 0; a->length = d; }
            a->inputOrigin = chance(0.3) ? 0 : ri(G);
            a->outputOrigin = chance(0.3) ? 0 : ri(G);
            a->maxDataLength = chance(0.3) ? cap : rr(1, G);
            a->subCarrierFrequency = rf(-1, 1);
            a->fullScale = 1;
        }
    }
    return w;
}
static uint64_t int_crc(RKPulse *p) {
    return vp_h(RKGetInt16CDataFromPulse(p, 1), cap * sizeof(RKInt16C), vp_h(RKGetInt16CDataFromPulse(p, 0), cap * sizeof(RKInt16C), 7));
}
static RKWaveform *waves[8];

static void check(RKPulse *p, uint32_t n, int overload) {
    Input *e = &in[n % depth];
    RKPulseHeader *h = &p->header, *o = &e->h;
    if (h->i != n) { VIOL("order", "delivery %u is pulse %llu", n, (unsigned long long)h->i); return; }
    RKPulseStatus want = RKPulseStatusHasIQData | RKPulseStatusInspected | RKPulseStatusDownSampled | RKPulseStatusProcessed;
    if ((h->s & want) != want) VIOL("status", "pulse %u delivered with status 0x%x", n, h->s);
    int comp = !!(h->s & RKPulseStatusCompressed), skip = !!(h->s & RKPulseStatusSkipped);
    if (comp == skip) VIOL("status", "pulse %u has status 0x%x: neither or both of compressed and skipped", n, h->s);
    if (skip && !overload) VIOL("skipped", "pulse %u was skipped although no more than half of the buffer was in flight", n);
    if (h->n != o->n || h->t != o->t || h->marker != o->marker || h->time.tv_sec != o->time.tv_sec || h->time.tv_usec != o->time.tv_usec || h->timeDouble != o->timeDouble ||
        memcmp(&h->rawAzimuth, &o->rawAzimuth, 4) || memcmp(&h->rawElevation, &o->rawElevation, 4) || h->configIndex != o->configIndex || h->configSubIndex != o->configSubIndex ||
        h->gateSizeMeters != o->gateSizeMeters || h->compressorDataType != o->compressorDataType || h->capacity != cap)
        VIOL("header", "pulse %u: header fields of the producer changed", n);
    if (int_crc(p) != e->crc) VIOL("raw-changed", "pulse %u: raw samples changed", n);
    stat_add("pulses_delivered", 1);
    if (skip) { stat_add("pulses_skipped", 1); return; }
    RKWaveform *w = waves[e->wave];
    uint32_t gid = n % w->count, L = 0;
    int nf = w->filterCounts[gid];
    for (int j = 0; j < nf; j++) L += w->filterAnchors[gid][j].length;
    uint32_t fin = o->gateCount + 1 - L, ds = (fin + ratio - 1) / ratio;
    if (h->pulseWidthSampleCount != L) VIOL("pulse-width", "pulse %u: pulse width %u expected %u", n, h->pulseWidthSampleCount, L);
    if (h->gateCount != fin) VIOL("gate-count", "pulse %u: %u gates expected %u", n, h->gateCount, fin);
    if (h->downSampledGateCount != ds) VIOL("gate-count", "pulse %u: %u down-sampled gates expected %u", n, h->downSampledGateCount, ds);
    static double er[2048], ei[2048], tol[2048];
    static char ok[2048];
    for (int q = 0; q < (single ? 1 : 2); q++) {
        memset(ok, 0, sizeof(ok));
        double xs = 0;
        for (uint32_t i = 0; i < o->gateCount; i++) {
            double a = cplx ? e->c[q][i].i : e->x[q][i].i, b = cplx ? e->c[q][i].q : e->x[q][i].q;
            xs += a * a + b * b;
        }
        for (int j = 0; j < nf; j++) {
            RKFilterAnchor *a = &w->filterAnchors[gid][j];
            RKComplex *f = w->samples[gid] + a->origin;
            double fs = 0;
            for (uint32_t k = 0; k < a->length; k++) fs += f[k].i * f[k].i + f[k].q * f[k].q;
            for (uint32_t m = 0; m < a->maxDataLength && a->outputOrigin + m < o->gateCount; m++) {
                uint32_t g = a->outputOrigin + m;
                ok[g] = 0;
                if (m + a->inputOrigin + a->length > o->gateCount || g % ratio) continue;
                double sr = 0, si = 0;
                for (uint32_t k = 0; k < a->length; k++) {
                    uint32_t u = m + k + a->inputOrigin;
                    double xr = cplx ? e->c[q][u].i : e->x[q][u].i, xi = cplx ? e->c[q][u].q : e->x[q][u].q;
                    sr += xr * f[k].i + xi * f[k].q;
                    si += xi * f[k].i - xr * f[k].q;
                }
                er[g] = sr; ei[g] = si; ok[g] = 1;
                tol[g] = 4e-6 * sqrt(xs * fs) + 1e-6;
            }
        }
        RKComplex *Y = RKGetComplexDataFromPulse(p, q);
        RKIQZ Z = RKGetSplitComplexDataFromPulse(p, q);
        long c = 0;
        for (uint32_t i = 0; i < ds; i++) {
            uint32_t g = i * ratio;
            if (g >= fin || !ok[g]) continue;
            c++;
            if (!(fabs(Y[i].i - er[g]) <= tol[g] && fabs(Y[i].q - ei[g]) <= tol[g])) {
                VIOL("compressed", "pulse %u group %u pol %d gate %u (x%u, %d filters): %g %+gi expected %g %+gi (tolerance %g)", n, gid, q, i, ratio, nf, Y[i].i, Y[i].q, er[g], ei[g], tol[g]);
                break;
            }
            if (Z.i[i] != Y[i].i || Z.q[i] != Y[i].q) { VIOL("split", "pulse %u pol %d gate %u: split and interleaved samples differ", n, q, i); break; }
        }
        stat_add("gates_compared", c);
    }
    stat_add("pulses_compressed", 1);
    ncheck++;
}

static void vp_case(uint64_t index) {
    static int once;
    if (!once++) RKSetRootDataFolder(vp_scratch);
    int ic = ri(vp_thorough() ? 8 : 6);
    cap = caps[ic];
    depth = chance(0.2) ? rr(9, 24) : rr(16, vp_thorough() ? 200 : 100);
    ratio = chance(0.4) ? 1 : rr(2, 7);
    cplx = chance(0.25);
    single = chance(0.2);
    int cores = rr(1, 8), overload = chance(0.2), nwave = overload ? 1 : rr(1, 3);
    if (overload && depth < 48) depth = 48 + ri(70);
    vp_jitter = ri(3);
    vp_jit = r64();
    vp_lag_us = overload ? rr(100, 800) : 0;
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    desc.pulseCapacity = cap;
    desc.pulseBufferDepth = depth;
    desc.pulseToRayRatio = ratio;
    desc.configBufferDepth = 4;
    RKConfig *configs = calloc(4, sizeof(RKConfig));
    uint32_t ci = 1, pi = 0;
    RKBuffer buf;
    RKPulseBufferAlloc(&buf, cap, depth);
    // Stale contents of the buffer must not matter
    for (uint32_t k = 0; k < depth; k++) {
        RKPulse *p = RKGetPulseFromBuffer(buf, k);
        memset(p->data, chance(0.5) ? 0x7F : 0, 2 * cap * (sizeof(RKInt16C) + 4 * sizeof(RKFloat)));
        for (int q = 0; q < 2; q++) { in[k].x[q] = malloc(cap * sizeof(RKInt16C)); in[k].c[q] = malloc(cap * sizeof(RKComplex)); }
    }
    RKPulseEngine *e = RKPulseEngineInit();
    RKPulseEngineSetVerbose(e, 0);
    RKPulseEngineSetEssentials(e, &desc, fft_of(ic), configs, &ci, buf, &pi);
    RKPulseEngineSetCoreCount(e, cores);

    G = rr(8, cap);
    if (chance(0.2)) G = cap;
    uint32_t Gmin = G;
    for (int i = 0; i < nwave; i++) waves[i] = make_wave();
    // All groups must leave at least one gate
    for (int i = 0; i < nwave; i++) for (int k = 0; k < waves[i]->count; k++) {
        uint32_t L = 0;
        for (int j = 0; j < waves[i]->filterCounts[k]; j++) L += waves[i]->filterAnchors[k][j].length;
        if (L > Gmin) waves[i]->filterCounts[k] = 1;
    }
    if (RKPulseEngineSetFilterByWaveform(e, waves[0]) != RKResultSuccess) VIOL("set-filter", "a filter inside the capacity was refused");
    RKPulseEngineStart(e);
    uint32_t put = 0, got = 0;
    double base = rf(0, 1e9);
    double amp = chance(0.2) ? 32767 : pow(10, rf(0, 4.5));
    int dead = 0;
    for (int wv = 0; wv < nwave && !dead; wv++) {
        uint32_t total = put + (overload ? depth * 3 : rr(5, (int)depth * 2));
        uint32_t inflight = overload ? depth - depth / 8 - 1 : (depth / 2 > 0 ? rr(1, depth / 2) : 1);
        if (wv) {
            if (RKPulseEngineSetFilterByWaveform(e, waves[wv]) != RKResultSuccess) VIOL("set-filter", "a filter inside the capacity was refused");
        }
        double since = vp_now();
        while (got < total) {
            int act = put < total && put - got < inflight && (overload || chance(0.6));
            if (act) {
                RKPulse *p = RKPulseEngineGetVacantPulse(e, 0);
                Input *I = &in[put % depth];
                RKPulseHeader *h = &p->header;
                if (h->i != put) VIOL("identity", "vacant pulse %u has identity %llu", put, (unsigned long long)h->i);
                if (h->s != RKPulseStatusVacant) VIOL("identity", "vacant pulse %u has status 0x%x", put, h->s);
                h->n = r64(); h->t = r64(); h->marker = ri(65536); h->time.tv_sec = ri(1u << 31); h->time.tv_usec = ri(1000000); h->timeDouble = base + put * 1e-3;
                uint32_t raw = ri(~0u); memcpy(&h->rawAzimuth, &raw, 4); raw = ri(~0u); memcpy(&h->rawElevation, &raw, 4);
                h->configIndex = ri(4); h->configSubIndex = ri(9); h->gateSizeMeters = rf(1, 100);
                h->compressorDataType = (cplx ? RKCompressorOptionRKComplex : 0) | (single ? RKCompressorOptionSingleChannel : 0);
                h->gateCount = G;
                h->downSampledGateCount = ri(G);
                h->pulseWidthSampleCount = ri(G);
                for (int q = 0; q < 2; q++) {
                    RKInt16C *x = RKGetInt16CDataFromPulse(p, q);
                    RKComplex *c = RKGetComplexDataFromPulse(p, q);
                    for (uint32_t i = 0; i < G; i++) {
                        x[i].i = (int16_t)rf(-amp, amp); x[i].q = (int16_t)rf(-amp, amp);
                        if (cplx) { c[i].i = rf(-amp, amp); c[i].q = rf(-amp, amp); }
                    }
                    memcpy(I->x[q], x, G * sizeof(RKInt16C));
                    if (cplx) memcpy(I->c[q], c, G * sizeof(RKComplex));
                }
                I->h = *h;
                I->crc = int_crc(p);
                I->wave = wv;
                __sync_synchronize();
                h->s |= RKPulseStatusHasIQData;
                put++;
            } else {
                RKPulse *p = RKPulseEngineGetProcessedPulse(e, overload || put == got ? 0 : chance(0.3));
                if (p) { check(p, got, overload); got++; since = vp_now(); }
                else vp_nap(20);
            }
            if (vp_now() - since > 20) { VIOL("live:stalled", "pulse %u not delivered within 20 s (%u fed)", got, put); dead = 1; break; }
        }
        if (vp_viol > 20) break;
    }
    vp_lag_us = 0;
    RKPulseEngineStop(e);
    RKPulseEngineFree(e);
    DISTINCTF("%u/%u/%u/%d/%d/%d/%d", cap, depth / 16, ratio, cores, cplx, single, overload);
    stat_add("delays_injected", vp_delays); vp_delays = 0;
    stat_add("filter_changes", nwave - 1);
    if (index < 2) sample("capacity %u, depth %u, %d cores, ratio %u, %d waveforms of %d groups: %u pulses in order", cap, depth, cores, ratio, nwave, waves[0]->count, got);
    for (int i = 0; i < nwave; i++) RKWaveformFree(waves[i]);
    for (uint32_t k = 0; k < depth; k++) for (int q = 0; q < 2; q++) { free(in[k].x[q]); free(in[k].c[q]); }
    RKPulseBufferFree(buf);
    free(configs);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
