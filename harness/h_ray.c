// Moment engine: pulses are grouped into rays by antenna position; every ray comes out once, in order, with the header
// of its pulses and the products the selected estimators give for exactly those pulses.
#include "vp.h"
#include "vpsched.h"

#define MAXP 9000
#define MAXR 8000
typedef struct { uint32_t origin, n; } Want;
static Want want[MAXR];                      // rays of the model
static uint32_t nwant;
static uint32_t dropped[MAXR], ndropped;     // pulses no ray takes
static RKFFTModule *fft;
static RKRadarDesc desc;
static RKConfig *configs;
static RKBuffer pulses, rays, ref_rays;
static uint32_t pd, rd, cap, rcap, cd;
static RKPulseHeader hist[MAXP];
static uint64_t crcs[MAXP];
static uint8_t used[MAXP];                   // pulse of this slot is in a delivered ray
static RKMomentScratch *sp;
static RKMomentEngine *E;
static int (*processor)(RKMomentScratch *, RKPulse **, const uint16_t);
static int lag_choice;
static long nproc, nskip;

static uint64_t data_crc(RKPulse *p) {
    uint64_t h = 5;
    for (int q = 0; q < 2; q++) {
        RKIQZ z = RKGetSplitComplexDataFromPulse(p, q);
        h = vp_h(z.i, p->header.downSampledGateCount * sizeof(RKFloat), h);
        h = vp_h(z.q, p->header.downSampledGateCount * sizeof(RKFloat), h);
    }
    return h;
}
static double minor(double a, double b) { double d = fabs(fmod(a - b, 360.0)); return d > 180 ? 360 - d : d; }

static void check(RKRay *ray, uint32_t n) {
    Want *w = &want[n];
    RKRayHeader *h = &ray->header;
    uint32_t is = w->origin % pd, ie = (w->origin + w->n - 1) % pd;
    RKPulseHeader *S = &hist[is], *P = &hist[ie];
    RKConfig *c = &configs[P->configIndex];
    RKMarker m = 0;
    static RKPulse *pl[2048];
    for (uint32_t k = 0; k < w->n; k++) {
        uint32_t j = (w->origin + k) % pd;
        m |= hist[j].marker;
        pl[k] = RKGetPulseFromBuffer(pulses, j);
        if (!(pl[k]->header.s & RKPulseStatusUsedForMoments)) VIOL("release", "ray %u is ready but pulse %u of it was not released", n, w->origin + k);
        used[j] = 1;
    }
    if (h->i != n) VIOL("order", "delivery %u is ray %llu", n, (unsigned long long)h->i);
    if (h->startTime.tv_sec != S->time.tv_sec || h->startTime.tv_usec != S->time.tv_usec || h->startTimeDouble != S->timeDouble || h->endTimeDouble != P->timeDouble ||
        h->endTime.tv_sec != P->time.tv_sec || h->endTime.tv_usec != P->time.tv_usec ||
        h->startAzimuth != S->azimuthDegrees || h->endAzimuth != P->azimuthDegrees || h->startElevation != S->elevationDegrees || h->endElevation != P->elevationDegrees)
        VIOL("bounds", "ray %u: AZ %g-%g EL %g-%g, expected AZ %g-%g EL %g-%g (pulses %u + %u)", n, h->startAzimuth, h->endAzimuth, h->startElevation, h->endElevation,
             S->azimuthDegrees, P->azimuthDegrees, S->elevationDegrees, P->elevationDegrees, w->origin, w->n);
    if (h->marker != m) VIOL("marker", "ray %u: marker 0x%x expected 0x%x (pulses %u + %u)", n, h->marker, m, w->origin, w->n);
    if (h->pulseCount != w->n) VIOL("pulse-count", "ray %u: %u pulses expected %u", n, h->pulseCount, w->n);
    if (h->configIndex != P->configIndex || h->sweepElevation != c->sweepElevation || h->sweepAzimuth != c->sweepAzimuth)
        VIOL("config", "ray %u: configuration %u EL %g AZ %g, expected %u EL %g AZ %g", n, h->configIndex, h->sweepElevation, h->sweepAzimuth, P->configIndex, c->sweepElevation, c->sweepAzimuth);
    if (h->gateCount != P->downSampledGateCount || !close_to(h->gateSizeMeters, (double)P->gateSizeMeters * desc.pulseToRayRatio, 0, 1e-6))
        VIOL("gates", "ray %u: %u gates of %g m, expected %u of %g", n, h->gateCount, h->gateSizeMeters, P->downSampledGateCount, P->gateSizeMeters * desc.pulseToRayRatio);
    if (h->capacity != rcap) VIOL("gates", "ray %u: capacity %u", n, h->capacity);
    double daz = minor(S->azimuthDegrees, P->azimuthDegrees), del = minor(S->elevationDegrees, P->elevationDegrees);
    int proc = w->n > 3 && daz < 3 && del < 3 && S->s & RKPulseStatusCompressed && S->downSampledGateCount == P->downSampledGateCount;
    if (fabs(daz - 3) < 1e-3 || fabs(del - 3) < 1e-3) proc = !!(h->s & RKRayStatusProcessed);
    RKRayStatus st = RKRayStatusReady | (proc ? RKRayStatusProcessed : RKRayStatusSkipped);
    if ((h->s & (RKRayStatusReady | RKRayStatusProcessed | RKRayStatusSkipped | RKRayStatusProcessing)) != st)
        VIOL("status", "ray %u: status 0x%x expected 0x%x (%u pulses, %.2f deg az, %.2f deg el)", n, h->s, st, w->n, daz, del);
    stat_add("rays_checked", 1);
    if (!proc) {
        nskip++;
        for (int p = 0; p < RKBaseProductCount; p++) {
            RKFloat *x = RKGetFloatDataFromRay(ray, p);
            for (uint32_t g = 0; g < h->gateCount; g++) if (!isnan(x[g])) { VIOL("skipped-data", "skipped ray %u: product %d gate %u has a value %g", n, p, g, x[g]); return; }
        }
        return;
    }
    nproc++;
    // The reference: same estimators on the same pulses, scratch derived from the definitions
    RKRay *r = RKGetRayFromBuffer(ref_rays, 0);
    if (chance(0.05)) { RKMomentScratchFree(sp); RKMomentScratchAlloc(&sp, rcap, 0, "vp"); sp->fftModule = fft; sp->userLagChoice = lag_choice; }
    sp->config = c;
    sp->gateCount = P->downSampledGateCount;
    sp->gateSizeMeters = P->gateSizeMeters * desc.pulseToRayRatio;
    sp->samplingAdjustment = 10.0 * log10((double)P->gateSizeMeters / 150.0) + 60.0;
    sp->velocityFactor = desc.wavelength / c->prt[0] / (4 * M_PI);
    sp->widthFactor = desc.wavelength / c->prt[0] / (2 * sqrt(2) * M_PI);
    sp->KDPFactor = 1.0 / (P->gateSizeMeters * desc.pulseToRayRatio);
    RKCalibratorSimple(NULL, sp);
    prepareScratch(sp);
    if (E->noiseEstimator(sp, pl, w->n) != RKResultSuccess) { sp->noise[0] = c->noise[0]; sp->noise[1] = c->noise[1]; }
    processor(sp, pl, w->n);
    r->header.s = RKRayStatusProcessing;
    makeRayFromScratch(sp, r);
    if (h->baseProductList != r->header.baseProductList) VIOL("product-list", "ray %u: products 0x%x expected 0x%x", n, h->baseProductList, r->header.baseProductList);
    long cmp = 0, fin = 0;
    for (int p = 0; p < RKBaseProductCount; p++) {
        RKFloat *a = RKGetFloatDataFromRay(ray, p), *b = RKGetFloatDataFromRay(r, p);
        for (uint32_t g = 0; g < h->gateCount; g++) {
            if (isnan(a[g]) && isnan(b[g])) continue;
            fin++;
            if (!close_to(a[g], b[g], 2e-4, 2e-4)) {
                VIOL("data", "ray %u (pulses %u + %u): product %d gate %u is %g expected %g", n, w->origin, w->n, p, g, a[g], b[g]);
                p = 99;
                break;
            }
            cmp++;
        }
    }
    stat_add("values_compared", cmp);
    stat_add("values_finite", fin);
}

static void vp_case(uint64_t index) {
    if (!fft) { RKSetRootDataFolder(vp_scratch); fft = RKFFTModuleInit(2048, 0); }
    int big = chance(0.04);                 // rays as long as a ray may be
    cap = 0;
    memset(&desc, 0, sizeof(desc));
    desc.pulseToRayRatio = chance(0.5) ? 1 : rr(2, 4);
    rcap = 16 * rr(1, big ? 1 : 4);
    cap = rcap * desc.pulseToRayRatio;
    int cores = big ? 1 : rr(1, 7);
    pd = big ? MAXP : rr(12 * (cores + 2), 500);
    uint32_t longest = big ? 5000 : pd * 6 / 10 / (cores + 2);
    rd = rr(10, 80);
    cd = chance(0.3) ? rr(2, 4) : rr(3, 12);
    if (rd < 2u * cores + 2) rd = 2 * cores + 2;
    if (rd < 16) rd = 16;
    desc.pulseCapacity = cap; desc.pulseBufferDepth = pd; desc.rayBufferDepth = rd; desc.configBufferDepth = cd; desc.wavelength = rf(0.02, 0.12);
    vp_jitter = big ? 0 : ri(3);
    vp_jit = r64();
    RKWaveform *w = RKWaveformInitWithCountAndDepth(1, 8);
    w->filterCounts[0] = rr(1, 3);
    for (int k = 0; k < w->filterCounts[0]; k++) {
        RKFilterAnchor *a = &w->filterAnchors[0][k];
        a->outputOrigin = k * rcap / w->filterCounts[0];
        a->maxDataLength = (k + 1) * rcap / w->filterCounts[0] - a->outputOrigin;
        a->sensitivityGain = rf(0, 30);
    }
    RKConfigBufferAlloc(&configs, cd);
    uint32_t ci = 0, pi = 0, rayi = 0;
    RKPulseBufferAlloc(&pulses, cap, pd);
    RKRayBufferAlloc(&rays, rcap, rd);
    RKRayBufferAlloc(&ref_rays, rcap, 1);
    RKMomentScratchAlloc(&sp, rcap, 0, "vp");
    sp->fftModule = fft;
    E = RKMomentEngineInit();
    RKMomentEngineSetVerbose(E, 0);
    RKMomentEngineSetEssentials(E, &desc, fft, configs, &ci, pulses, &pi, rays, &rayi);
    RKMomentEngineSetCoreCount(E, cores);
    int meth = ri(6);
    lag_choice = 3;
    if (meth == 0) { RKMomentEngineSetMomentProcessorToPulsePair(E); processor = RKPulsePair; }
    else if (meth == 1) { RKMomentEngineSetMomentProcessorToPulsePairHop(E); processor = RKPulsePairHop; }
    else if (meth == 2) { RKMomentEngineSetMomentPRocessorToPulsePairATSR(E); processor = RKPulsePairATSR; }
    else if (meth == 3 && !big) { RKMomentEngineSetMomentProcessorToSpectral(E); processor = RKSpectralMoment; }
    else {
        lag_choice = rr(2, 4);
        (lag_choice == 2 ? RKMomentEngineSetMomentProcessorToMultiLag2 : lag_choice == 3 ? RKMomentEngineSetMomentProcessorToMultiLag3 : RKMomentEngineSetMomentProcessorToMultiLag4)(E);
        processor = RKMultiLag;
    }
    sp->userLagChoice = lag_choice;
    if (chance(0.3)) RKMomentEngineSetNoiseEstimator(E, RKRayNoiseEstimator);
    int excl = chance(0.4);
    RKMomentEngineSetExcludeBoundaryPulses(E, excl);
    int mode = ri(2);                       // how rays are taken
    RKMomentEngineStart(E);

    uint32_t total = big ? 4300 : pd * rr(1, 6) + rr(10, 300);
    if (total > 3500 && !big) total = 3500;
    uint32_t rtotal = 0, put = 0, got = 0, left = 0, phase = 0, gates = 1, open = 0, count = 0, cfgno = 0;
    int64_t bin = -1;
    nwant = ndropped = 0;
    memset(used, 0, sizeof(used));
    double az = 0, el = 0, vaz = 0, vel = 0, t = rf(0, 1e9);
    float gsize = 15, amp = 100;
    RKMarker type = 0;
    double since = vp_now();
    float wp = rf(-3, 3);
    int stuck = 0;
    while (1) {
        // Oldest pulse still needed: the origin of the first ray not yet delivered
        // The grouping has certainly passed the last delivered ray; everything since may still be looked at
        uint32_t oldest = got ? want[got - 1].origin + want[got - 1].n - 1 : 0;
        if (got && want[got - 1].origin < oldest) oldest = want[got - 1].origin;
        // A worker may still be finishing its part of a delivered ray; it is not late before its next ray is due
        uint32_t late = nwant == 0 ? 0 : want[got > (uint32_t)cores ? got - cores : 0].origin;
        if (late > oldest) late = oldest;
        int room = put - late < pd * 7 / 10;
        int outs = nwant - got;
        if (put < total && room && outs < (int)rd / 2 && !chance(0.25)) {
            RKMarker mk = 0;
            int newcfg = 0;
            if (left == 0) {
                // A new sweep, a gap or a scan without markers
                phase = ri(5);
                left = big ? total : phase == 0 ? (uint32_t)rr(1, 6) : (uint32_t)rr(1, pd);
                int k = big ? 1 : ri(4);
                type = k == 0 ? 0 : k == 1 ? RKMarkerScanTypePPI : k == 2 ? RKMarkerScanTypeRHI : RKMarkerScanTytpePoint;
                double per = chance(0.2) ? rf(2, 6) : 1.0 / rr(1, pd / 8 < 60 ? pd / 8 : 60);          // degrees per pulse
                if (big) per = 0;
                vaz = (k == 1 ? per : k == 2 ? 0 : chance(0.5) ? per : 0) * (chance(0.5) ? 1 : -1);
                vel = (k == 2 ? per : k == 1 ? 0 : chance(0.5) ? per * 0.3 : 0) * (chance(0.5) ? 1 : -1);
                if (chance(0.6)) { az = rf(0, 360); el = rf(-3, 90); }
                // A slot may be reused only when no pulse of an undelivered ray refers to it
                uint32_t slot = (ci + 1) % cd;
                int busy = 0;
                for (uint32_t q = oldest; q < put; q++) if (hist[q % pd].configIndex == slot) { busy = 1; break; }
                if (!busy) newcfg = 1;
                else { if (phase != 0) phase = 4; type = configs[ci].startMarker & RKMarkerScanTypeMask; }
                if (newcfg) {
                    if (phase < 4 || put == 0) mk |= RKMarkerSweepBegin;
                    gates = rr(1, rcap);
                    if (gates < 3) gates = rr(3, rcap);
                    gsize = 15 * rr(1, 8);
                    amp = pow(10, rf(0, 3));
                } else if (phase < 3) mk |= RKMarkerSweepBegin;
            }
            left--;
            if (left == 0 && phase && !chance(0.2)) mk |= RKMarkerSweepEnd;
            if (mk & RKMarkerSweepEnd && mk & RKMarkerSweepBegin) mk &= ~RKMarkerSweepBegin;
            // No ray may take more than its share of the buffer
            if (count + 1 >= longest) { mk |= RKMarkerSweepEnd; mk &= ~RKMarkerSweepBegin; }
            if (put - oldest > pd / 4) mk &= ~RKMarkerSweepBegin;
            if (newcfg) {
                ci = (ci + 1) % cd;
                RKConfig *c = &configs[ci];
                c->i = 2000 + ++cfgno;
                c->waveform = w; c->waveformDecimate = w;
                c->startMarker = type | (mk & RKMarkerSweepBegin);
                c->prt[0] = rf(2e-4, 2e-3); c->prt[1] = c->prt[0];
                c->sweepElevation = rf(0, 90); c->sweepAzimuth = rf(0, 360);
                c->SNRThreshold = rf(-20, 5); c->SQIThreshold = rf(-0.1, 0.3);
                c->systemDCal = rf(-2, 2); c->systemPCal = rf(-3, 3);
                for (int p = 0; p < 2; p++) { c->noise[p] = rf(0.1, 10); c->systemZCal[p] = rf(-50, 50); }
                for (int k = 0; k < 3; k++) { c->DCal[k] = rf(-1, 1); c->PCal[k] = rf(-1, 1); for (int p = 0; p < 2; p++) c->ZCal[k][p] = rf(-9, 9); }
            }
            az += vaz; el += vel;
            az = fmod(az + 720, 360);
            if (el > 170) el = 0;
            if (el < -10) el = 30;
            RKPulse *p = RKGetPulseFromBuffer(pulses, pi);
            RKPulseHeader *h = &p->header;
            h->s = RKPulseStatusHasIQData;
            h->i = put; h->configIndex = ci; h->marker = mk | type | (mk & RKMarkerSweepEnd ? 0 : RKMarkerSweepMiddle);
            h->azimuthDegrees = (float)az < 360.0f ? (float)az : 0; h->elevationDegrees = el;
            h->gateCount = gates * desc.pulseToRayRatio; h->downSampledGateCount = gates; h->gateSizeMeters = gsize; h->pulseWidthSampleCount = 1;
            t += rf(1e-4, 1e-2);
            h->timeDouble = t; h->time.tv_sec = (long)t; h->time.tv_usec = ri(1000000);
            int preset = chance(0.02);
            h->positionIndex = preset ? ri(1000) : (uint32_t)-1;
            double wa_ = wp * put;
            for (int q = 0; q < 2; q++) {
                RKIQZ z = RKGetSplitComplexDataFromPulse(p, q);
                RKComplex *x = RKGetComplexDataFromPulse(p, q);
                float s = sin(wa_), co = cos(wa_);
                for (uint32_t g = 0; g < rcap; g++) {
                    uint64_t r = r64();
                    x[g].i = z.i[g] = amp * (co + (int16_t)r * 1e-5f * (1 + g % 3));
                    x[g].q = z.q[g] = amp * (s + (int16_t)(r >> 16) * 1e-5f * (1 + g % 3));
                }
            }
            RKPulseStatus fin = RKPulseStatusHasIQData | RKPulseStatusInspected | RKPulseStatusDownSampled | RKPulseStatusProcessed | RKPulseStatusRingInspected | RKPulseStatusRingProcessed | RKPulseStatusHasPosition |
                                (chance(0.01) ? RKPulseStatusSkipped : RKPulseStatusCompressed);
            hist[put % pd] = *h;
            hist[put % pd].s = fin;
            crcs[put % pd] = data_crc(p);
            used[put % pd] = 0;
            // The model of the grouping
            int64_t b = preset ? (int64_t)h->positionIndex : (configs[ci].startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI ? (int64_t)floorf(h->azimuthDegrees) :
                        (configs[ci].startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI ? (int64_t)floorf(h->elevationDegrees) :
                        (int64_t)floorf(h->elevationDegrees) * 360 + (int64_t)floorf(h->azimuthDegrees);
            if (mk & RKMarkerSweepBegin) {
                for (uint32_t q = open; q < put; q++) if (ndropped < MAXR) dropped[ndropped++] = q;
                open = put; count = 0; bin = b;
            }
            // The shared pulse counts: never more than the maximum per ray
            if (b != bin || count == RKMaximumPulsesPerRay - 1 || mk & RKMarkerSweepEnd) {
                bin = b;
                uint32_t len = count;
                if (excl && count > 1 && !(mk & RKMarkerSweepEnd)) len--;
                if (len > 0 && nwant < MAXR) {
                    want[nwant].origin = open; want[nwant].n = len + 1; nwant++;
                    open = put; count = 0;
                }
            }
            count++;
            __sync_synchronize();
            pi = (pi + 1) % pd;
            if (chance(0.3)) vp_perturb();
            h->s = fin;
            put++;
            if (got == nwant) since = vp_now();
        } else {
            RKRay *ray = NULL;
            while (rtotal % rd != rayi) rtotal++;
            // A ray taken frees the slot an eighth of the buffer behind, which the ray index must have passed
            if (mode == 0) { if ((int)(got - rtotal) < (int)(rd / 8)) ray = RKMomentEngineGetProcessedRay(E, false); }
            else if (rayi != got % rd) { __sync_synchronize(); ray = RKGetRayFromBuffer(rays, got % rd); }
            if (ray) {
                __sync_synchronize();
                if (got >= nwant) {
                    // Ready before its last pulse was fed?
                    VIOL("order", "ray %u was made (pulses %u + %u) after %u pulses, when only %u rays are complete", got, ray->header.pulseCount, 0, put, nwant);
                    stuck = 1;
                    break;
                }
                check(ray, got);
                got++;
                since = vp_now();
                if (vp_viol > 20) break;
            } else {
                if (put == total && got == nwant) break;
                if (put < total && room && outs < (int)rd / 2) continue;
                vp_nap(20);
            }
        }
        if (vp_now() - since > 20) { VIOL("live:stalled", "ray %u not made within 20 s (%u pulses fed, %u rays expected)", got, put, nwant); stuck = 1; break; }
    }
    // Pulses that no ray takes are released too; pulses that still wait for their ray are not
    if (!stuck && vp_viol == 0) {
        double t0 = vp_now();
        while (vp_now() - t0 < 20) {
            int miss = 0;
            for (uint32_t k = 0; k < ndropped; k++) if (put - dropped[k] <= pd && !(((RKPulse *)RKGetPulseFromBuffer(pulses, dropped[k] % pd))->header.s & RKPulseStatusUsedForMoments)) miss = 1;
            if (!miss && rayi == nwant % rd) break;
            vp_nap(1000);
        }
        for (uint32_t k = 0; k < ndropped; k++) if (put - dropped[k] <= pd && !(((RKPulse *)RKGetPulseFromBuffer(pulses, dropped[k] % pd))->header.s & RKPulseStatusUsedForMoments)) {
            VIOL("live:release", "pulse %u belongs to no ray and was never released", dropped[k]);
            break;
        }
        if (rayi != nwant % rd) VIOL("live:ray-index", "ray index %u after %u rays (buffer of %u)", rayi, nwant, rd);
        for (uint32_t q = put > pd ? put - pd : 0; q < put; q++) {
            RKPulse *p = RKGetPulseFromBuffer(pulses, q % pd);
            if (q > open && p->header.s & RKPulseStatusUsedForMoments) { VIOL("release", "pulse %u was released before its ray was made", q); break; }
            RKPulseHeader *o = &hist[q % pd], *h = &p->header;
            if (h->i != o->i || h->marker != o->marker || h->azimuthDegrees != o->azimuthDegrees || h->elevationDegrees != o->elevationDegrees || h->timeDouble != o->timeDouble || h->configIndex != o->configIndex ||
                h->gateCount != o->gateCount || h->downSampledGateCount != o->downSampledGateCount || h->gateSizeMeters != o->gateSizeMeters || (h->s & ~RKPulseStatusUsedForMoments) != o->s)
                { VIOL("pulse-changed", "pulse %u: header changed", q); break; }
            if (data_crc(p) != crcs[q % pd]) { VIOL("pulse-changed", "pulse %u: samples changed", q); break; }
        }
    }
    RKMomentEngineStop(E);
    RKMomentEngineFree(E);
    stat_add("rays_processed", nproc); stat_add("rays_skipped", nskip); stat_add("pulses_dropped", ndropped); stat_add("configurations", cfgno); stat_add("delays_injected", vp_delays);
    nproc = nskip = vp_delays = 0;
    DISTINCTF("%u/%u/%u/%u/%d/%d/%d/%d", rcap, pd / 40, rd / 8, desc.pulseToRayRatio, cores, meth, excl, mode);
    if (index < 2) sample("%u pulses in %u rays (%u cores, method %d, boundary pulses %s), buffers %u/%u/%u", put, got, cores, meth, excl ? "excluded" : "shared", pd, rd, cd);
    RKPulseBufferFree(pulses);
    RKRayBufferFree(rays);
    RKRayBufferFree(ref_rays);
    RKMomentScratchFree(sp);
    RKConfigBufferFree(configs);
    RKWaveformFree(w);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
