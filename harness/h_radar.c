// The life of a whole radar: built from a description, wired to a transceiver, pedestal, health relay and user devices,
// taken live, reconfigured while pulses flow, stopped, started again and freed. What was started once is stopped once and
// freed once; nothing outlives the radar; nothing freed is used.
#include "vp.h"
#include "vpleak.h"
#include <dirent.h>
#include <errno.h>
#include <sched.h>
#include <netdb.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
size_t __sanitizer_get_current_allocated_bytes(void);
#define HAVE_BYTES 1
#endif
#endif

static volatile int nap_div = 10;
int __real_usleep(useconds_t us);
int __wrap_usleep(useconds_t us) {
    us = us / nap_div + 1;
    struct timespec t = {us / 1000000, (us % 1000000) * 1000L};
    nanosleep(&t, NULL);
    return 0;
}
// Old resources are kept for some seconds: in some cases these pass faster
static volatile int fast = 1;
int __real_clock_gettime(clockid_t id, struct timespec *t);
int __wrap_clock_gettime(clockid_t id, struct timespec *t) {
    int r = __real_clock_gettime(id, t);
    if (r == 0 && id == CLOCK_MONOTONIC && fast > 1) { long long ns = (t->tv_sec % 1000000 * 1000000000LL + t->tv_nsec) * fast; t->tv_sec = ns / 1000000000LL; t->tv_nsec = ns % 1000000000LL; }
    return r;
}
static double now(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
// No name service here: the host monitor is told at once that a name is not known
int __real_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res);
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    struct in_addr a;
    if (node && !inet_aton(node, &a)) return EAI_NONAME;
    return __real_getaddrinfo(node, service, hints, res);
}
struct hostent *__real_gethostbyname(const char *name);
struct hostent *__wrap_gethostbyname(const char *name) {
    struct in_addr a;
    if (!inet_aton(name, &a)) return NULL;
    return __real_gethostbyname(name);
}
static int count_dir(const char *p) {
    DIR *d = opendir(p);
    int n = 0;
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static int fds(void) { return count_dir("/proc/self/fd"); }
static int tasks(void) { return count_dir("/proc/self/task"); }
static void nap(unsigned us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000L}; nanosleep(&t, NULL); }
static uint64_t tr(uint64_t *s) { return vp_mix(s); }
#define SLOW 40.0

// ---- devices ------------------------------------------------------------------------------------------------------
enum { TRX, PED, HLT, USR };
static const char *kindName[] = {"transceiver", "pedestal", "health relay", "user device"};
typedef struct { int kind, state, disconnects, frees, node; } Rec;     // state: 1 live, 2 disconnected, 3 freed
typedef struct {
    int rec, kind, node;
    uint32_t magic;
    RKRadar *radar;
    pthread_t tid;
    volatile int want, running;
    uint64_t s;
    volatile uint64_t sent;
} Dev;
typedef struct { int kind, node, fail; uint64_t s; } Wish;             // what an init routine is asked to do
static Rec rec[128];
static int nrec;
static pthread_mutex_t rlock = PTHREAD_MUTEX_INITIALIZER;
static volatile int attempts[4 + RKHealthNodeCount];
static volatile double azStep, prt;
static volatile int gatesMax, badInit;
static volatile int pulseNap, posNap;

static void *txloop(void *in) {
    Dev *d = in;
    RKRadar *R = d->radar;
    uint64_t tic = 0;
    d->running = 1;
    while (d->want) {
        RKPulse *p = RKGetVacantPulse(R);
        int cap = (int)p->header.capacity;
        int g = MIN(cap, gatesMax);
        p->header.t = tic;
        p->header.gateCount = g - (int)(tr(&d->s) % (unsigned)(1 + g / 8));
        p->header.gateSizeMeters = 30.0f;
        for (int c = 0; c < 2; c++) {
            RKInt16C *x = RKGetInt16CDataFromPulse(p, c);
            for (int i = 0; i < (int)p->header.gateCount; i++) { uint64_t v = tr(&d->s); x[i].i = (int16_t)(v >> 4 & 0xfff) - 2048; x[i].q = (int16_t)(v >> 20 & 0xfff) - 2048; }
        }
        RKSetPulseHasData(R, p);
        if (R->positionEngine == NULL) RKSetPulseReady(R, p);
        d->sent++;
        tic += 1000;
        nap(pulseNap);
    }
    d->running = 0;
    return NULL;
}
static void *pedloop(void *in) {
    Dev *d = in;
    RKRadar *R = d->radar;
    uint64_t tic = 0;
    double az = (double)(tr(&d->s) % 360);
    d->running = 1;
    while (d->want) {
        RKPosition *p = RKGetVacantPosition(R);
        if (p) {
            p->tic = tic;
            p->azimuthDegrees = (float)az;
            p->elevationDegrees = 3.0f;
            p->sweepElevationDegrees = 3.0f;
            p->azimuthVelocityDegreesPerSecond = 20.0f;
            p->flag |= RKPositionFlagAzimuthEnabled | RKPositionFlagElevationEnabled | RKPositionFlagScanActive | RKPositionFlagAzimuthSweep;
            if (R->steerEngine && tr(&d->s) % 4 == 0) { RKSteerEngineGetAction(R->steerEngine, p); p->flag |= RKPositionFlagScanActive | RKPositionFlagAzimuthSweep; }
            az += azStep;
            if (az >= 360.0) { az -= 360.0; p->flag |= RKPositionFlagAzimuthComplete; }
            RKSetPositionReady(R, p);
            d->sent++;
            tic += 10000;
        }
        nap(posNap);
    }
    d->running = 0;
    return NULL;
}
static void *hltloop(void *in) {
    Dev *d = in;
    RKRadar *R = d->radar;
    RKHealthNode n = d->kind == USR ? (RKHealthNode)d->node : RKRequestHealthNode(R);
    d->running = 1;
    while (d->want) {
        if (R->healthNodes && (int)n < (int)R->desc.healthNodeCount && (int)n >= 0) {
            RKHealth *h = RKGetVacantHealth(R, n);
            if (h) {
                snprintf(h->string, RKMaximumStringLength - 1, "{\"Dev %d\":{\"Value\":\"%u\",\"Enum\":0},\"GPS Latitude\":{\"Value\":\"35.18\",\"Enum\":0},\"GPS Longitude\":{\"Value\":\"-97.43\",\"Enum\":0},\"Heading\":{\"Value\":\"5.0\",\"Enum\":0}}", d->node, (unsigned)d->sent);
                RKSetHealthReady(R, h);
                d->sent++;
            }
        }
        nap(3000 + tr(&d->s) % 5000);
    }
    d->running = 0;
    return NULL;
}
static Dev *curTx, *curPed;
static void *dev_init(RKRadar *R, void *in) {
    Wish *w = in;
    __atomic_add_fetch(&attempts[w->kind == USR ? 4 + w->node : w->kind], 1, __ATOMIC_SEQ_CST);
    if (w->fail) return NULL;
    Dev *d = calloc(1, sizeof(Dev));
    d->magic = 0xD00D;
    d->radar = R;
    d->kind = w->kind;
    d->node = w->node;
    d->s = w->s;
    pthread_mutex_lock(&rlock);
    d->rec = nrec++;
    memset(&rec[d->rec], 0, sizeof(Rec));
    rec[d->rec].kind = w->kind;
    rec[d->rec].node = w->node;
    rec[d->rec].state = 1;
    pthread_mutex_unlock(&rlock);
    d->want = 1;
    if (w->kind == TRX) curTx = d;
    if (w->kind == PED) curPed = d;
    pthread_create(&d->tid, NULL, w->kind == TRX ? txloop : w->kind == PED ? pedloop : hltloop, d);
    while (!d->running) nap(100);
    return d;
}
static int dev_exec(void *in, const char *command, char *response) {
    Dev *d = in;
    Rec *r = &rec[d->rec];
    if (d->magic != 0xD00D) { VIOL("exec", "a command went to something that is not a device"); return RKResultFailedToExecuteCommand; }
    if (r->state == 3) VIOL("exec", "'%s' sent to a %s after it was freed", command, kindName[d->kind]);
    if (!strcmp(command, "disconnect")) {
        pthread_mutex_lock(&rlock);
        r->disconnects++;
        int first = r->state == 1;
        if (first) r->state = 2;
        pthread_mutex_unlock(&rlock);
        if (first) { d->want = 0; pthread_join(d->tid, NULL); }
    }
    if (response) snprintf(response, RKMaximumPacketSize / 16, "ACK. %s." RKEOL, command);
    return RKResultSuccess;
}
static int dev_free(void *in) {
    Dev *d = in;
    Rec *r = &rec[d->rec];
    pthread_mutex_lock(&rlock);
    r->frees++;
    int again = r->state == 3, live = r->state == 1;
    r->state = 3;
    pthread_mutex_unlock(&rlock);
    if (again) { VIOL("free", "a %s was freed twice", kindName[d->kind]); return RKResultSuccess; }
    if (live) { VIOL("free", "a %s was freed before it was disconnected", kindName[d->kind]); d->want = 0; pthread_join(d->tid, NULL); }
    d->magic = 0;
    if (curTx == d) curTx = NULL;
    if (curPed == d) curPed = NULL;
    free(d);
    return RKResultSuccess;
}

// ---- user module --------------------------------------------------------------------------------------------------
typedef struct { uint32_t magic; int id; volatile uint64_t used; } Mod;
static volatile int modMade, modFreed;
static volatile uint64_t modUsed;
static void *mod_init(RKWaveform *w) {
    Mod *m = calloc(1, sizeof(Mod));
    m->magic = 0xCAFE;
    m->id = __atomic_fetch_add(&modMade, 1, __ATOMIC_SEQ_CST);
    return m;
}
static void mod_free(void *in) {
    Mod *m = in;
    if (m->magic != 0xCAFE) VIOL("module", "a user module was freed twice");
    m->magic = 0;
    __atomic_add_fetch(&modFreed, 1, __ATOMIC_SEQ_CST);
    free(m);
}
static void mod_use(void *in) {
    Mod *m = in;
    if (m == NULL) return;
    for (int k = 0; k < 2; k++) {
        if (m->magic != 0xCAFE) VIOL("module", "a user module was called after it was freed");
        m->used++;
        if (k == 0 && m->used % 16 == 0) nap(200);
    }
    __atomic_add_fetch(&modUsed, 1, __ATOMIC_SEQ_CST);
}
static void mod_compress(void *in, RKCompressionScratch *s) { mod_use(in); RKBuiltInCompressor(in, s); }
static void mod_calibrate(void *in, RKMomentScratch *s) { mod_use(in); RKCalibratorSimple(in, s); }

// ---- life ---------------------------------------------------------------------------------------------------------
static char home[128];
static RKWaveform *someWaveform(void) {
    double fs = 5.0e6;
    switch (ri(5)) {
        case 0: return RKWaveformInitAsImpulse();
        case 1: return RKWaveformInitAsSingleTone(fs, rf(-1e6, 1e6), rf(1e-6, 5e-6));
        case 2: return RKWaveformInitAsLinearFrequencyModulation(fs, 0.0, rf(2e-6, 10e-6), rf(0.5e6, 4e6));
        case 3: return RKWaveformInitAsFrequencyHops(fs, 0.0, rf(1e-6, 3e-6), 2e6, rr(2, 5));
        default: return RKWaveformInitAsTimeFrequencyMultiplexing(fs, 0.0, rf(0.5e6, 2e6), rf(5e-6, 12e-6));
    }
}
static int userModuleOn;
static volatile int products;
// The files themselves are for other checks
static int keepProduct(RKProduct *p, const char *filename) { __atomic_add_fetch(&products, 1, __ATOMIC_SEQ_CST); return RKResultSuccess; }
// one change of setting, by the public interface
static void tweak(RKRadar *R, int live, char *what, size_t n) {
    int dsp = R->pulseEngine != NULL, k = ri(live ? 24 : 17);
    RKWaveformCalibration c;
    RKControl q;
    RKWaveform *w;
    char f[256];
    snprintf(what, n, "%d", k);
    switch (k) {
        case 0: RKSetWaveformToImpulse(R); stat_add("waveforms", dsp); break;
        case 1: case 2: w = someWaveform(); RKSetWaveform(R, w); RKWaveformFree(w); stat_add("waveforms", dsp); break;
        case 3: if (R->waveform) { RKSetWaveform(R, R->waveform); stat_add("waveforms", dsp); } break;
        case 4:
            snprintf(f, sizeof(f), "%s/w%d.rkwav", home, ri(3));
            w = someWaveform();
            RKWaveformWriteFile(w, f);
            RKWaveformFree(w);
            RKSetWaveformByFilename(R, f);
            stat_add("waveforms", dsp);
            break;
        case 5: RKSetPRF(R, (uint32_t)rr(300, 3000)); break;
        case 6: if (dsp) RKSetPulseRingFilterByType(R, (RKFilterType)ri(RKFilterTypeCount), ri(3) ? (uint32_t)rr(1, 300) : 0); break;
        case 7: if (dsp) RKSetMomentProcessorToMultiLag(R, (uint8_t)rr(2, 4)); break;
        case 8: RKSetMomentProcessorToPulsePair(R); break;
        case 9: RKSetMomentProcessorToPulsePairHop(R); break;
        case 10: RKSetMomentProcessorToSpectralMoment(R); break;
        case 11: RKSetSNRThreshold(R, (RKFloat)rf(-10.0, 10.0)); break;
        case 12: RKSetRecordingLevel(R, rr(0, 3)); break;
        case 13: RKSetDataUsageLimit(R, (size_t)rr(1, 100) << 20); break;
        case 14:
            memset(&c, 0, sizeof(c));
            if (chance(0.3)) RKClearWaveformCalibrations(R);
            snprintf(c.name, sizeof(c.name), "%s", chance(0.5) && R->waveform ? R->waveform->name : "none");
            c.count = (uint8_t)rr(1, 2);
            for (int i = 0; i < 4; i++) { c.ZCal[i][0] = (RKFloat)rf(-50, 0); }
            RKAddWaveformCalibration(R, &c);
            RKConcludeWaveformCalibrations(R);
            break;
        case 15:
            memset(&q, 0, sizeof(q));
            if (chance(0.3)) RKClearControls(R);
            snprintf(q.label, sizeof(q.label), "c%d", ri(100));
            snprintf(q.command, sizeof(q.command), "t w %d", ri(100));
            RKAddControl(R, &q);
            RKAddControlAsLabelAndCommand(R, "label", "p pp 3 5 10");
            RKConcludeControls(R);
            break;
        case 16: {
            uint8_t a[256];
            memset(a, 0, sizeof(a));
            for (int i = 0; i < 5; i++) a["01abmprsxyz"[ri(11)]] = 0;
            RKSetVerbosityUsingArray(R, a);
            break;
        }
        case 17: case 18: if (dsp) { RKMeasureNoise(R); stat_add("noise_measured", 1); } break;
        case 19: if (dsp && R->positionEngine) { RKSoftRestart(R); stat_add("soft_restarts", 1); } break;
        case 20: RKPerformMasterTaskInBackground(R, chance(0.5) ? "background task" : "x"); break;
        case 21: if (R->pulseClock && R->positionClock) RKResetClocks(R); break;
        case 22: {
            char *text = malloc(RKMaximumPacketSize);
            RKBufferOverview(text, R, (RKTextPreferences)(chance(0.5) ? RKTextPreferencesWindowSize120x40 : RKTextPreferencesWindowSize120x80));
            free(text);
            break;
        }
        default:
            if (R->configs) RKGetLatestConfig(R);
            if (R->healths && R->healthEngine) RKGetLatestHealth(R);
            if (R->positions && R->positionEngine) { RKGetLatestPosition(R); RKGetPositionUpdateRate(R); }
            if (R->pulses) RKGetLatestPulse(R);
            if (R->rays) { uint32_t i; RKGetLatestRay(R); RKGetLatestRayIndex(R, &i); }
            break;
    }
}
static int wishes;
static Wish wish[4 + RKHealthNodeCount];

static void case_life(uint64_t index) {
    nrec = 0;
    modMade = modFreed = 0;
    modUsed = 0;
    curTx = curPed = NULL;
    memset((void *)attempts, 0, sizeof(attempts));
    snprintf(home, sizeof(home), "%s/r%d", vp_scratch, (int)(index % 4));
    mkdir(home, 0700);
    int f0 = fds(), t0 = tasks();
#ifdef HAVE_BYTES
    size_t a0 = __sanitizer_get_current_allocated_bytes() - vp_chash * sizeof(uint64_t);
#endif
    vl_start();
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    int kind = chance(0.8) ? 0 : 1 + 2 * ri(2);  // not as a relay: going live then waits for the server by design
    desc.initFlags = kind == 0 ? (chance(0.8) ? RKInitFlagAllocEverything : RKInitFlagAllocEverythingQuiet) | RKInitFlagSignalProcessor
        : kind == 1 ? RKInitFlagIQPlayback
        : RKInitFlagAllocEverythingQuiet & ~RKInitFlagPositionSteerEngine;
    if (chance(0.15)) desc.initFlags |= RKInitFlagVeryVerbose;
    if (chance(0.1)) desc.initFlags |= RKInitFlagManuallyAssignCPU;
    desc.pulseToRayRatio = (uint16_t)(1 << ri(3));
    desc.pulseCapacity = (uint32_t)(64 * rr(1, 8) * desc.pulseToRayRatio);
    desc.configBufferDepth = chance(0.3) ? 0 : (uint32_t)rr(5, 12);
    desc.healthBufferDepth = (uint32_t)rr(6, 40);
    desc.statusBufferDepth = chance(0.3) ? 0 : (uint32_t)rr(4, 30);
    desc.positionBufferDepth = (uint32_t)rr(100, 400);
    desc.pulseBufferDepth = (uint32_t)rr(400, 900);
    desc.rayBufferDepth = (uint32_t)rr(60, 400);
    desc.healthNodeCount = chance(0.3) ? 0 : RKHealthNodeCount;
    desc.controlCapacity = chance(0.5) ? 0 : (uint32_t)rr(1, 12);
    desc.waveformCalibrationCapacity = chance(0.5) ? 0 : (uint32_t)rr(1, 6);
    desc.pulseTicsPerSecond = 1000000;
    desc.positionTicsPerSecond = 1000000;
    desc.wavelength = 0.03f;
    desc.latitude = 35.0;
    desc.longitude = -97.0;
    snprintf(desc.name, sizeof(desc.name), "radar%d", (int)index);
    snprintf(desc.filePrefix, sizeof(desc.filePrefix), "RK");
    snprintf(desc.dataPath, sizeof(desc.dataPath), "%s", home);
    char trace[400] = "", w[32];
    size_t tn = 0;
#define TRACE(...) do { if (tn < sizeof(trace) - 40) tn += (size_t)snprintf(trace + tn, sizeof(trace) - tn, __VA_ARGS__); } while (0)
    TRACE("%x", (unsigned)desc.initFlags);
    RKRadar *R = RKInitWithDesc(desc);
    int dsp = R->pulseEngine != NULL;
    if (dsp) RKSetProcessingCoreCounts(R, (uint8_t)rr(1, 3), (uint8_t)rr(1, 2), (uint8_t)rr(1, 3));
    if (chance(0.3)) { char path[64]; snprintf(path, sizeof(path), "%s", home); RKSetDataPath(R, path); if (strcmp(R->desc.dataPath, home)) VIOL("path", "data path is '%s' after it was set to '%s'", R->desc.dataPath, home); }
    userModuleOn = dsp && chance(0.4);
    if (userModuleOn) RKSetUserModule(R, mod_init, mod_free, mod_compress, mod_calibrate);
    RKSetProductRecorder(R, keepProduct);
    if (chance(0.3)) RKHostMonitorAddHost(R->hostMonitor, "127.0.0.1");
    for (int i = rr(0, 4); i > 0; i--) { tweak(R, 0, w, sizeof(w)); TRACE(" %s", w); }
    // devices
    int hasTx = chance(0.85), hasPed = R->positionEngine != NULL ? chance(0.85) : chance(0.15), hasHlt = chance(0.6), users = chance(0.4) ? rr(1, 3) : 0, broken = chance(0.15) ? rr(0, 3) : -1, incomplete = chance(0.3);
    if (!dsp) hasTx = hasPed = hasHlt = users = 0;
    wishes = 0;
    int emu = dsp && R->positionEngine && chance(0.1);
    char emuOpt[40];
    snprintf(emuOpt, sizeof(emuOpt), "f %d g %d", rr(500, 2000), rr(10, 60));
    Wish *wt = &wish[0], *wp = &wish[1], *wh = &wish[2];
    *wt = (Wish){TRX, 0, hasTx && broken == 0, r64()};
    *wp = (Wish){PED, 0, hasPed && broken == 1, r64()};
    *wh = (Wish){HLT, 0, hasHlt && broken == 2, r64()};
    int expectFail = 0;
#define EXEC(k) (wish[k].fail && incomplete ? NULL : dev_exec)
    if (emu) {
        RKSetTransceiver(R, emuOpt, RKTestTransceiverInit, RKTestTransceiverExec, RKTestTransceiverFree);
        RKSetPedestal(R, NULL, RKTestPedestalInit, RKTestPedestalExec, RKTestPedestalFree);
        RKSetHealthRelay(R, NULL, RKTestHealthRelayInit, RKTestHealthRelayExec, RKTestHealthRelayFree);
        users = 0;
        stat_add("emulated", 1);
    } else {
        if (hasTx) RKSetTransceiver(R, wt, dev_init, EXEC(0), dev_free);
        if (hasPed) RKSetPedestal(R, wp, dev_init, EXEC(1), dev_free);
        if (hasHlt) RKSetHealthRelay(R, wh, dev_init, EXEC(2), dev_free);
        for (int i = 0; i < 3; i++) expectFail |= wish[i].fail;
        for (int i = 0; i < users; i++) {
            int node = RKHealthNodeUser1 + i;
            wish[3 + i] = (Wish){USR, node, broken == 3 && i == users - 1, r64()};
            expectFail |= wish[3 + i].fail;
            RKSeUserDevice(R, (RKHealthNode)node, &wish[3 + i], dev_init, EXEC(3 + i), dev_free);
        }
    }
    azStep = rf(0.5, 2.0);
    gatesMax = rr(20, 300);
    pulseNap = rr(100, 800);
    posNap = rr(1000, 4000);
    fast = chance(0.15) ? 8 : 1;
    int lives = chance(0.08) ? 0 : chance(0.25) ? 2 : 1;
    TRACE(" | t%d p%d h%d u%d b%d%s e%d m%d", hasTx, hasPed, hasHlt, users, broken, incomplete ? "i" : "", emu, userModuleOn);
    double t1;
    for (int life = 0; life < lives; life++) {
        TRACE(" | live");
        t1 = now();
        // A whole number of turns of the configuration buffer
        if (!emu && life == 0 && R->pulseEngine && chance(0.3)) { do RKSetPRF(R, (uint32_t)rr(300, 3000)); while (R->configIndex); }
        uint64_t c0 = RKGetLatestConfig(R)->i;
        RKFloat prt0 = RKGetLatestConfig(R)->prt[0];
        int r = RKGoLive(R);
        if (!emu && c0 >= 1000 && c0 < 1u << 30 && r == RKResultSuccess) {
            RKFloat prt1 = RKGetLatestConfig(R)->prt[0];
            if (prt0 != prt1) VIOL("settings", "the pulse repetition time was set to %g s, and became %g s when the radar went live (%s)", prt0, prt1, trace);
            else stat_add("settings_kept", 1);
        }
        if (now() - t1 > SLOW) VIOL("slow", "going live took %.0f s (%s)", now() - t1, trace);
        if ((r != RKResultSuccess) != expectFail) VIOL("result", "going live returned %d with %s device (%s)", r, expectFail ? "a failing" : "no failing", trace);
        if (r != RKResultSuccess) { stat_add("failed_starts", 1); break; }
        stat_add("lives", 1);
        // some time on air with changes
        int moves = fast > 1 ? rr(12, 24) : rr(0, 6);
        uint64_t s0 = curTx ? curTx->sent : 0;
        for (int i = 0; i < moves; i++) {
            nap(rr(2, fast > 1 ? 120 : 25) * 1000);
            tweak(R, 1, w, sizeof(w));
            TRACE(" %s", w);
        }
        // pulses come through once all is quiet
        if (dsp && curTx && !emu && (curPed || !R->positionEngine)) {
            RKPulse *p;
            double t2 = now();
            uint32_t n0 = 0, last = ~0u;
            while (now() - t2 < SLOW) {
                uint32_t n = R->momentEngine->tic;
                (void)n;
                p = RKGetLatestPulse(R);
                // a pulse through the chain
                uint32_t i, ok = 0;
                for (i = 0; i < R->desc.pulseBufferDepth; i++) {
                    RKPulse *q = RKGetPulseFromBuffer(R->pulses, i);
                    if ((q->header.s & (RKPulseStatusProcessed | RKPulseStatusReadyForMomentEngine)) == (RKPulseStatusProcessed | RKPulseStatusReadyForMomentEngine)) ok++;
                }
                if (ok) { n0 = ok; break; }
                last = ok;
                nap(5000);
            }
            if (n0 == 0) VIOL("stall", "no pulse was processed in %.0f s on air: %llu pulses and %llu positions handed in (%s)", SLOW, (unsigned long long)(curTx->sent - s0), (unsigned long long)(curPed ? curPed->sent : 0), trace);
            else stat_add("on_air_checked", 1);
            (void)last;
        }
        stat_add("rays", R->rays ? (double)R->rayIndex : 0);
        if (chance(0.75) || life + 1 < lives) {
            t1 = now();
            r = RKStop(R);
            TRACE(" | stop");
            if (r != RKResultSuccess) VIOL("result", "stopping returned %d (%s)", r, trace);
            if (now() - t1 > SLOW) VIOL("slow", "stopping took %.0f s (%s)", now() - t1, trace);
            for (int i = 0; i < 40 && tasks() > t0; i++) nap(5000);
            int n = tasks() - t0;
            if (n) VIOL("threads", "%d threads run after the radar was stopped (%s)", n, trace);
            for (int i = 0; i < nrec; i++) if (rec[i].state == 1) VIOL("hooks", "a %s was not disconnected by stopping (%s)", kindName[rec[i].kind], trace);
            if (R->active || (R->state & RKRadarStateLive)) VIOL("state", "a stopped radar counts as %s (%s)", R->active ? "active" : "live", trace);
            stat_add("stops", 1);
            if (chance(0.2)) { RKStop(R); TRACE(" stop"); }
        }
    }
    t1 = now();
    RKFree(R);
    TRACE(" | free");
    if (now() - t1 > SLOW) VIOL("slow", "freeing took %.0f s (%s)", now() - t1, trace);
    for (int i = 0; i < 40 && tasks() > t0; i++) nap(5000);
    int n = tasks() - t0;
    if (n) VIOL("threads", "%d threads outlive the radar (%s)", n, trace);
    for (int i = 0; i < nrec; i++) {
        if (rec[i].disconnects != 1) VIOL("hooks", "a %s was disconnected %d times (%s)", kindName[rec[i].kind], rec[i].disconnects, trace);
        if (rec[i].frees != 1) VIOL("hooks", "a %s was freed %d times (%s)", kindName[rec[i].kind], rec[i].frees, trace);
    }
    stat_add("devices", nrec);
    if (modMade != modFreed) VIOL("module", "%d user modules were made and %d freed (%s)", modMade, modFreed, trace);
    stat_add("modules", modMade);
    stat_add("module_calls", (double)modUsed);
    n = fds() - f0;
    if (n) VIOL("descriptors", "%d descriptors more than before the radar (%s)", n, trace);
#ifdef HAVE_BYTES
    size_t a1 = __sanitizer_get_current_allocated_bytes() - vp_chash * sizeof(uint64_t);
    vl_stop();
    if (a1 > a0) VIOL("memory", "%zu bytes of the radar stay allocated (%s)", a1 - a0, trace);
#endif
    DISTINCTF("%s", trace);
    if (index % 16 == 0) sample("%s: %d devices, %d modules, %llu module calls", trace, nrec, modMade, (unsigned long long)modUsed);
}
static void *idle(void *in) { nap(30000); return NULL; }
static void warm(void) {
    uint64_t s = vp_s;
    RKFFTModule *m;
    mkdir("warm", 0700);
    RKSetRootDataFolder("warm");
    m = RKFFTModuleInit(4096, 0);
    RKFFTModuleFree(m);
    char b[RKMaximumStringLength];
    snprintf(b, sizeof(b), "%s %s", RKIntegerToCommaStyleString(1), RKFloatToCommaStyleString(1.0f));
    time_t t = time(NULL);
    struct tm x;
    localtime_r(&t, &x);
    RKLog("warm\n");
    pthread_t th[24];
    for (int i = 0; i < 24; i++) pthread_create(&th[i], NULL, idle, NULL);
    for (int i = 0; i < 24; i++) pthread_join(th[i], NULL);
    sem_close(sem_open("warm", O_CREAT, 0600, 0));
    sem_unlink("warm");
    getprotobyname("ICMP");
    gethostbyname("127.0.0.1");
    vp_s = s;
}
static void one(uint64_t index) {
    static int warmed;
    if (!warmed) { warmed = 1; warm(); }
    case_life(index);
}
int main(int argc, char **argv) { return vp_main(argc, argv, one); }
