// Position engine: every pulse gets the interpolated position and the marker of its time, in order, exactly once.
#include "vp.h"
#include "vpsched.h"

#define MAXP 260
static RKPosition want_pos[100000];
typedef struct { RKPulseHeader h; uint64_t crc; } Input;
static Input in[MAXP];
static uint32_t pd, qd, cd, npos;            // depths of pulses, positions and configurations
static RKConfig *configs;

static double circ(double a, double b) { double d = fmod(a - b, 360.0); if (d > 180) d -= 360; if (d < -180) d += 360; return fabs(d); }

// The model: j is the first position later than the pulse
static uint32_t mj;
static RKMarker last = RKMarkerSweepEnd;
static uint32_t mgates, mcfg;
static RKConfig mconf;                      // the newest configuration

static void advance(void) { mcfg = (mcfg + 1) % cd; mconf.i++; }
static RKConfig mhist[16];
static void keep(void) { mhist[(mcfg + cd - 1) % cd] = mconf; }
static void same_config(uint32_t n, uint32_t slot) {
    RKConfig *c = &configs[slot], mconf = mhist[slot];
    if (c->i != mconf.i || c->sweepElevation != mconf.sweepElevation || c->sweepAzimuth != mconf.sweepAzimuth || c->pulseGateCount != mconf.pulseGateCount ||
        c->pulseGateSize != mconf.pulseGateSize || c->startMarker != mconf.startMarker || c->SNRThreshold != mconf.SNRThreshold || c->noise[0] != mconf.noise[0] || strcmp(c->waveformName, mconf.waveformName))
        VIOL("config", "pulse %u: configuration %llu EL %g AZ %g gates %u size %g marker %x, expected %llu EL %g AZ %g gates %u size %g marker %x", n,
             (unsigned long long)c->i, c->sweepElevation, c->sweepAzimuth, c->pulseGateCount, c->pulseGateSize, c->startMarker,
             (unsigned long long)mconf.i, mconf.sweepElevation, mconf.sweepAzimuth, mconf.pulseGateCount, mconf.pulseGateSize, mconf.startMarker);
}
static uint64_t crc(RKPulse *p) { return vp_h(p->data, 2 * p->header.capacity * (sizeof(RKInt16C) + 4 * sizeof(RKFloat)), 3); }

static void check(RKPulse *p, uint32_t n) {
    Input *e = &in[n % pd];
    RKPulseHeader *h = &p->header, *o = &e->h;
    int steps = 0, ended = 0;
    uint32_t j0 = mj;
    while (want_pos[mj].timeDouble <= o->timeDouble) { mj++; steps++; }
    for (uint32_t k = j0; k < mj; k++) ended |= !!(want_pos[k].flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete));
    RKPosition *a = &want_pos[mj - 1], *b = &want_pos[mj];
    double al = (o->timeDouble - a->timeDouble) / (b->timeDouble - a->timeDouble);
    double daz = fmod(b->azimuthDegrees - a->azimuthDegrees + 540.0, 360.0) - 180.0, del = b->elevationDegrees - a->elevationDegrees;
    double az = a->azimuthDegrees + al * daz, el = a->elevationDegrees + al * del;
    if (circ(h->azimuthDegrees, az) > 2e-3 || h->azimuthDegrees < 0 || h->azimuthDegrees > 360)
        VIOL("azimuth", "pulse %u: azimuth %g expected %g (between %g and %g at %g)", n, h->azimuthDegrees, az, a->azimuthDegrees, b->azimuthDegrees, al);
    if (fabs(h->elevationDegrees - el) > 2e-3) VIOL("elevation", "pulse %u: elevation %g expected %g", n, h->elevationDegrees, el);
    if (h->azimuthVelocityDegreesPerSecond != a->azimuthVelocityDegreesPerSecond || h->elevationVelocityDegreesPerSecond != a->elevationVelocityDegreesPerSecond ||
        memcmp(&h->rawAzimuth, &a->rawAzimuth, 4) || memcmp(&h->rawElevation, &a->rawElevation, 4))
        VIOL("raw", "pulse %u: velocity or raw reading is not that of the position before the pulse", n);
    // Marker
    RKMarker m = 0;
    if (a->flag & RKPositionFlagScanActive) m |= RKMarkerSweepMiddle;
    int ep = !!(a->flag & RKPositionFlagElevationPoint), as = !!(a->flag & RKPositionFlagAzimuthSweep), ap = !!(a->flag & RKPositionFlagAzimuthPoint), es = !!(a->flag & RKPositionFlagElevationSweep);
    m |= ep && as ? RKMarkerScanTypePPI : ap && es ? RKMarkerScanTypeRHI : ap && ep ? RKMarkerScanTytpePoint : 0;
    int end = 0, begin = 0;
    if (steps == 1 && a->flag & (RKPositionFlagAzimuthComplete | RKPositionFlagElevationComplete)) end = 1;
    if (steps > 1 && ended && !(last & RKMarkerSweepEnd)) end = 1;
    if (last & RKMarkerSweepMiddle && !(m & RKMarkerSweepMiddle)) end = 1;
    if (m & RKMarkerSweepMiddle && (!(last & RKMarkerSweepMiddle) || last & RKMarkerSweepEnd)) begin = 1;
    if (end) m |= RKMarkerSweepEnd;
    if (begin) m |= RKMarkerSweepBegin;
    if (h->marker != m) VIOL("marker", "pulse %u: marker 0x%x expected 0x%x (previous 0x%x, position flag 0x%x, %d positions since)", n, h->marker, m, last, a->flag, steps);
    if (begin) stat_add("sweep_begins", 1);
    if (end) stat_add("sweep_ends", 1);
    if (begin || (m & RKMarkerScanTypeMask) != (last & RKMarkerScanTypeMask)) {
        advance();
        mconf.sweepElevation = b->sweepElevationDegrees; mconf.sweepAzimuth = b->sweepAzimuthDegrees; mconf.pulseGateSize = o->gateSizeMeters; mconf.pulseGateCount = o->gateCount; mconf.startMarker = m;
        keep();
        stat_add("configurations", 1);
    }
    if (mgates != o->gateCount) { mgates = o->gateCount; advance(); mconf.pulseGateCount = mgates; keep(); stat_add("configurations", 1); }
    last = m;
    if (h->configIndex != (mcfg + cd - 1) % cd) VIOL("config-index", "pulse %u: configuration index %u expected %u", n, h->configIndex, (mcfg + cd - 1) % cd);
    if (h->i != n || h->n != o->n || h->t != o->t || h->gateCount != o->gateCount || h->downSampledGateCount != o->downSampledGateCount || h->pulseWidthSampleCount != o->pulseWidthSampleCount ||
        h->timeDouble != o->timeDouble || h->gateSizeMeters != o->gateSizeMeters || h->compressorDataType != o->compressorDataType || h->configSubIndex != o->configSubIndex ||
        h->s != (o->s | RKPulseStatusRingProcessed | RKPulseStatusHasPosition))
        VIOL("header", "pulse %u: a field other than the position changed (status 0x%x)", n, h->s);
    if (crc(p) != e->crc) VIOL("data", "pulse %u: data changed", n);
    stat_add("pulses_tagged", 1);
}
static void put_pos(RKPosition *buf, uint32_t *pi, uint32_t n) {
    RKPosition *p = &buf[*pi];
    p->flag = RKPositionFlagVacant;
    RKPositionFlag f = want_pos[n].flag;
    RKPosition t = want_pos[n];
    t.flag = RKPositionFlagVacant;
    *p = t;
    __sync_synchronize();
    *pi = (*pi + 1) % qd;
    vp_perturb();
    p->flag = f | RKPositionFlagReady;
}

static void vp_case(uint64_t index) {
    pd = rr(10, chance(0.3) ? MAXP : 40);
    qd = rr(10, chance(0.3) ? 300 : 40);
    cd = rr(3, 12);
    uint32_t cap = 16 * rr(1, 4);
    vp_jitter = ri(3);
    vp_jit = r64();
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    desc.pulseCapacity = cap; desc.pulseBufferDepth = pd; desc.positionBufferDepth = qd; desc.configBufferDepth = cd; desc.pulseToRayRatio = 1;
    static RKWaveform w;
    memset(&w, 0, sizeof(w));
    w.count = 1;
    RKConfigBufferAlloc(&configs, cd);
    uint32_t ci = ri(cd), pi = 0, qi = 0;
    // The newest configuration is the one before the index; identities grow by one
    for (uint32_t k = 0; k < cd; k++) {
        RKConfig *c = &configs[(ci + k) % cd];
        c->i = 1000 + k; c->waveform = &w; c->SNRThreshold = (float)k; c->noise[0] = rf(0, 1); c->sweepElevation = rf(0, 90); c->sweepAzimuth = rf(0, 360); c->pulseGateCount = k; snprintf(c->waveformName, sizeof(c->waveformName), "w%u", k);
    }
    mcfg = ci;
    mconf = configs[(ci + cd - 1) % cd];
    memcpy(mhist, configs, cd * sizeof(RKConfig));
    RKPosition *pos = calloc(qd, sizeof(RKPosition));
    RKBuffer buf;
    RKPulseBufferAlloc(&buf, cap, pd);

    // A pedestal at work: sweeps of either kind, points, gaps
    npos = rr(20, 1200);
    double t = rf(1e8, 2e9), dt = rf(0.001, 0.1), az = rf(0, 360), el = rf(-5, 90), vaz = 0, vel = 0;
    int left = 0;
    RKPositionFlag mode = 0;
    float sel = 0, saz = 0;
    for (uint32_t n = 0; n < npos; n++) {
        RKPosition *p = &want_pos[n];
        memset(p, 0, sizeof(*p));
        if (left-- <= 0) {
            left = rr(1, chance(0.4) ? 6 : 60);
            int k = ri(5);
            mode = k == 0 ? 0 : k == 1 ? RKPositionFlagElevationPoint | RKPositionFlagAzimuthSweep : k == 2 ? RKPositionFlagAzimuthPoint | RKPositionFlagElevationSweep :
                   k == 3 ? RKPositionFlagAzimuthPoint | RKPositionFlagElevationPoint : (RKPositionFlag)(r64() & RKPositionFlagScanModeMask);
            if (k && chance(0.8)) mode |= RKPositionFlagScanActive;
            vaz = mode & RKPositionFlagAzimuthSweep ? rf(-3, 3) : 0;
            vel = mode & RKPositionFlagElevationSweep ? rf(-1, 1) : 0;
            sel = rf(0, 90); saz = rf(0, 360);
        }
        p->i = n;
        p->tic = r64();
        p->flag = mode | (r64() & (RKPositionFlagAzimuthEnabled | RKPositionFlagAzimuthSafety | RKPositionFlagElevationEnabled | RKPositionFlagElevationError | RKPositionFlagVCPActive));
        if (left == 0 && chance(0.7)) p->flag |= chance(0.5) ? RKPositionFlagAzimuthComplete : RKPositionFlagElevationComplete;
        az = fmod(az + vaz + 720, 360);
        el += vel;
        if (el > 180) el = 180;
        if (el < -20) el = -20;
        p->azimuthDegrees = (float)az; p->elevationDegrees = (float)el;
        if (p->azimuthDegrees >= 360) p->azimuthDegrees = 0;
        p->azimuthVelocityDegreesPerSecond = vaz; p->elevationVelocityDegreesPerSecond = vel;
        uint32_t r = ri(~0u); memcpy(&p->rawAzimuth, &r, 4); r = ri(~0u); memcpy(&p->rawElevation, &r, 4);
        p->sweepElevationDegrees = sel; p->sweepAzimuthDegrees = saz;
        t += dt * (chance(0.1) ? rf(0.1, 3) : 1);
        p->timeDouble = t;
    }
    mj = 0;
    last = RKMarkerSweepEnd;
    mgates = rr(1, cap);
    ((RKPulse *)buf)->header.gateCount = mgates;
    RKPositionEngine *e = RKPositionEngineInit();
    RKPositionEngineSetVerbose(e, 0);
    RKPositionEngineSetEssentials(e, &desc, pos, &qi, configs, &ci, buf, &pi);
    RKPositionEngineStart(e);
    double pt = want_pos[0].timeDouble + (chance(0.5) ? 0 : rf(0, 1) * dt), rate = pow(10, rf(-1.3, 0.8));    // positions per pulse
    uint32_t put = 0, ring = 0, got = 0, qput = 0, gates = mgates, lastq = 0;
    double since = vp_now();
    int done = 0, pauses = 0;
    uint32_t scan = 0;                          // first position later than the newest pulse
    while (1) {
        int act = ri(4);
        if (act == 0 && qput < npos && qput - (mj ? mj - 1 : 0) < qd - 2) { put_pos(pos, &qi, qput); qput++; lastq = qput; }
        else if (act == 1 && !done && put - got < pd - 3) {
            while (scan < npos && want_pos[scan].timeDouble <= pt) scan++;
            if (scan >= npos) { done = 1; continue; }
            RKPulse *p = RKGetPulseFromBuffer(buf, pi);
            Input *E = &in[put % pd];
            RKPulseHeader *h = &p->header;
            h->s = RKPulseStatusVacant;
            h->i = put; h->n = r64(); h->t = r64();
            if (put && chance(0.01)) gates = rr(1, cap);
            h->gateCount = gates; h->downSampledGateCount = ri(cap); h->pulseWidthSampleCount = ri(cap);
            h->timeDouble = pt; h->gateSizeMeters = 15 * rr(1, 9); h->compressorDataType = ri(4); h->configSubIndex = ri(9); h->configIndex = 777; h->marker = r64();
            h->azimuthDegrees = -1; h->elevationDegrees = -99;
            for (uint32_t k = 0; k < cap; k++) p->data[k] = r64();
            h->s = RKPulseStatusHasIQData | RKPulseStatusProcessed;
            E->h = *h;
            E->crc = crc(p);
            __sync_synchronize();
            pi = (pi + 1) % pd;
            put++;
            // The next pulse: sometimes exactly at a position's time, never more positions later than the position buffer holds
            double step = dt * rate * rf(0.2, 1.8);
            double room = want_pos[scan + (qd < pd ? qd : pd) / 2 < npos ? scan + (qd < pd ? qd : pd) / 2 : npos - 1].timeDouble;
            pt = pt + step < room ? pt + step : room;
            if (chance(0.05) && scan < npos) pt = want_pos[scan].timeDouble;
        } else if (act == 2 && ring < put) {
            RKPulse *p = RKGetPulseFromBuffer(buf, ring % pd);
            if (p->header.s & RKPulseStatusHasPosition) VIOL("early", "pulse %u was tagged before the ring filter released it", ring);
            p->header.s |= RKPulseStatusRingProcessed;
            ring++;
        } else {
            RKPulse *p = RKGetPulseFromBuffer(buf, got % pd);
            if (got < put && p->header.s & RKPulseStatusHasPosition) {
                if (got >= ring) VIOL("early", "pulse %u was tagged before the ring filter released it", got);
                if (qput == 0 || want_pos[lastq - 1].timeDouble <= p->header.timeDouble) VIOL("early", "pulse %u was tagged before a later position was known", got);
                __sync_synchronize();
                check(p, got);
                got++;
                since = vp_now();
                if (vp_viol > 20) break;
            } else {
                if (done && got == put) break;
                // Not ready because something is missing: time does not count
                if (got >= ring || qput < npos) { if (chance(0.02)) since = vp_now(); }
                vp_nap(20);
                pauses++;
            }
        }
        if (vp_now() - since > 20 && ring > got) { VIOL("live:stalled", "pulse %u not tagged within 20 s (%u fed, %u of %u positions)", got, put, qput, npos); break; }
    }
    RKPositionEngineStop(e);
    RKPositionEngineFree(e);
    if (vp_viol == 0) for (uint32_t k = 0; k < cd; k++) same_config(got, k);
    if (ci != mcfg) VIOL("config-index", "%u configurations were made, expected %u", ci, mcfg);
    DISTINCTF("%u/%u/%u/%u/%d", pd, qd, cd, npos / 50, (int)(10 * log10(rate)));
    stat_add("delays_injected", vp_delays); vp_delays = 0;
    if (index < 2) sample("%u pulses tagged from %u positions, %.2f positions per pulse, buffers %u/%u/%u", got, qput, rate, pd, qd, cd);
    RKPulseBufferFree(buf);
    free(pos);
    RKConfigBufferFree(configs);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
