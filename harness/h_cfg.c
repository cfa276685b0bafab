// Configuration changes: each is one copy of the latest configuration with the named values changed, in one order for all.
#include "vp.h"
#define MAXOPS 1500
#define SLOTS 120
static volatile int jitter;
static volatile uint64_t jit = 99;
int __real_RKLog(const char *f, ...);
// The log is written while the change is being made: a place to let others run
int __wrap_RKLog(const char *f, ...) {
    char b[8000];
    va_list a;
    va_start(a, f);
    int n = vsnprintf(b, sizeof(b), f, a);
    va_end(a);
    if (jitter) { uint64_t s = __sync_add_and_fetch(&jit, 0x9E3779B97F4A7C15ULL); uint64_t r = vp_mix(&s); if (r % 8 == 0) sched_yield(); else if (r % 8 == 1) { struct timespec t = {0, (r >> 8) % 60000}; nanosleep(&t, NULL); } }
    return n;
}
int __wrap_printf(const char *f, ...) { return 0; }
typedef struct { int n; uint64_t slot[SLOTS]; int thread, seq; int nk; struct { int key; double d[2]; void *p; uint32_t u; } k[12]; char *str[12]; } Op;
static Op *ops;
static int nops;
static RKWaveform *wav[6];
static RKWaveformCalibration cal[6];
static void pd(Op *o, double v) { memcpy(&o->slot[o->n++], &v, 8); }
static void pu(Op *o, uint64_t v) { o->slot[o->n++] = v; }
static int keys_used[64];
static void make_op(Op *o, int id, int thread, int seq, int small) {
    memset(o, 0, sizeof(*o));
    o->thread = thread; o->seq = seq;
    int nk = small ? rr(0, 2) : rr(0, 11);
    for (int i = 0; i <= nk; i++) {
        int key = i == nk ? RKConfigKeyUserResource : rr(1, RKConfigKeyCount + 1);
        if (key == RKConfigKeyUserResource && i != nk) key = RKConfigKeyPRT;
        o->k[i].key = key;
        o->nk++;
        keys_used[key]++;
        pu(o, key);
        double a = (float)rf(-100, 100), b = (float)rf(-100, 100);
        switch (key) {
            case RKConfigKeySweepElevation: case RKConfigKeySweepAzimuth: case RKConfigKeyPRT: case RKConfigKeyPulseGateSize: case RKConfigKeySystemDCal: case RKConfigKeySystemPCal:
            case RKConfigKeyPulseWidth: case RKConfigKeySNRThreshold: case RKConfigKeySQIThreshold:
                o->k[i].d[0] = a; pd(o, a); break;
            case RKConfigKeyPRF: o->k[i].d[0] = a = rr(1, 8000); pd(o, a); break;
            case RKConfigKeyDualPRF: o->k[i].d[0] = a = rr(1, 8000); o->k[i].d[1] = b = rr(1, 8000); pd(o, a); pd(o, b); break;
            case RKConfigKeySystemNoise: case RKConfigKeySystemZCal: o->k[i].d[0] = a; o->k[i].d[1] = b; pd(o, a); pd(o, b); break;
            case RKConfigKeyPositionMarker: case RKConfigKeyPulseGateCount: case RKConfigKeyRingFilterGateCount: case RKConfigKeyTransitionGateCount:
                o->k[i].u = (uint32_t)r64(); pu(o, o->k[i].u | (key & 1 ? 0xdead000000000000ull : 0)); break;
            case RKConfigKeyWaveform: case RKConfigKeyWaveformDecimate: { int w = ri(8); o->k[i].p = w < 6 ? wav[w] : NULL; pu(o, (uint64_t)o->k[i].p); } break;
            case RKConfigKeyWaveformCalibration: { int w = ri(8); o->k[i].p = w < 6 ? &cal[w] : NULL; pu(o, (uint64_t)o->k[i].p); } break;
            case RKConfigKeyVCPDefinition: case RKConfigKeyWaveformName: {
                if (key == RKConfigKeyVCPDefinition && chance(0.1)) { pu(o, 0); break; }
                int n = chance(0.1) ? rr(400, 5000) : chance(0.3) ? rr(0, 600) : rr(0, 40);
                char *s = malloc(n + 1);
                for (int j = 0; j < n; j++) s[j] = chance(0.05) ? '%' : 'a' + ri(26);
                s[n] = 0;
                o->k[i].p = s; o->str[i] = s;
                pu(o, (uint64_t)s);
                break;
            }
            case RKConfigKeyUserResource: o->k[i].p = (void *)(uintptr_t)(id + 1); pu(o, id + 1); break;
            default: break;
        }
    }
    pu(o, 0);
}
static void apply(RKConfig *c, const Op *o) {
    for (int i = 0; i < o->nk; i++) {
        double a = o->k[i].d[0], b = o->k[i].d[1];
        void *p = o->k[i].p;
        RKWaveform *w = p;
        RKWaveformCalibration *q = p;
        switch (o->k[i].key) {
            case RKConfigKeySweepElevation: c->sweepElevation = a; break;
            case RKConfigKeySweepAzimuth: c->sweepAzimuth = a; break;
            case RKConfigKeyPositionMarker: c->startMarker = o->k[i].u; break;
            case RKConfigKeyPRT: c->prt[0] = a; break;
            case RKConfigKeyPRF: c->prt[0] = 1.0 / a; break;
            case RKConfigKeyDualPRF: c->prt[0] = 1.0 / a; c->prt[1] = 1.0 / b; break;
            case RKConfigKeyPulseGateCount: c->pulseGateCount = o->k[i].u; break;
            case RKConfigKeyPulseGateSize: c->pulseGateSize = a; break;
            case RKConfigKeyPulseWidth: for (int j = 0; j < RKMaximumFilterCount; j++) c->pw[j] = a; break;
            case RKConfigKeyWaveform: if (w && w->filterCounts[0]) { c->waveform = w; snprintf(c->waveformName, RKNameLength, "%s", w->name); } break;
            case RKConfigKeyWaveformDecimate: if (w && w->filterCounts[0]) c->waveformDecimate = w; break;
            case RKConfigKeyWaveformName: snprintf(c->waveformName, RKNameLength, "%s", (char *)p); break;
            case RKConfigKeySystemNoise: c->noise[0] = a; c->noise[1] = b; break;
            case RKConfigKeySystemZCal: c->systemZCal[0] = a; c->systemZCal[1] = b; break;
            case RKConfigKeySystemDCal: c->systemDCal = a; break;
            case RKConfigKeySystemPCal: c->systemPCal = a; break;
            case RKConfigKeyWaveformCalibration: {
                int n = q ? q->count : c->waveform ? c->waveform->filterCounts[0] : RKMaximumFilterCount;
                for (int j = 0; j < n && j < RKMaximumFilterCount; j++) {
                    c->ZCal[j][0] = q ? q->ZCal[j][0] : 0; c->ZCal[j][1] = q ? q->ZCal[j][1] : 0;
                    c->DCal[j] = q ? q->DCal[j] : 0; c->PCal[j] = q ? q->PCal[j] : 0;
                }
                break;
            }
            case RKConfigKeySNRThreshold: c->SNRThreshold = a; break;
            case RKConfigKeySQIThreshold: c->SQIThreshold = a; break;
            case RKConfigKeyVCPDefinition: if (p) snprintf(c->vcpDefinition, RKMaximumCommandLength - 8 + 1, "%s", (char *)p); break;
            case RKConfigKeyRingFilterGateCount: c->ringFilterGateCount = o->k[i].u; break;
            case RKConfigKeyTransitionGateCount: c->transitionGateCount = o->k[i].u; break;
            case RKConfigKeyUserResource: c->userResource = p; break;
        }
    }
}
static const char *differs(const RKConfig *x, const RKConfig *y) {
#define D(f) if (memcmp(&x->f, &y->f, sizeof(x->f))) return #f
    D(i); D(sweepElevation); D(sweepAzimuth); D(startMarker); D(prt); D(pw); D(pulseGateCount); D(pulseGateSize); D(transitionGateCount); D(ringFilterGateCount); D(waveformId); D(noise);
    D(systemZCal); D(systemDCal); D(systemPCal); D(ZCal); D(DCal); D(PCal); D(SNRThreshold); D(SQIThreshold); D(waveform); D(waveformDecimate); D(userResource); D(userIntegerParameters); D(userFloatParameters);
    if (strnlen(x->waveformName, RKNameLength) == RKNameLength) return "end of waveformName";
    if (strnlen(x->vcpDefinition, RKMaximumCommandLength) == RKMaximumCommandLength) return "end of vcpDefinition";
    if (strcmp(x->waveformName, y->waveformName)) return "waveformName";
    if (strcmp(x->vcpDefinition, y->vcpDefinition)) return "vcpDefinition";
    return NULL;
}
static RKConfig *configs;
static uint32_t cindex, depth;
static void run_op(Op *o) {
    va_list a;
    static uint64_t regs[22];
    a[0].gp_offset = 48; a[0].fp_offset = 176; a[0].overflow_arg_area = o->slot; a[0].reg_save_area = regs;
    RKConfigAdvance(configs, &cindex, depth, a);
}
typedef struct { int id; } Arg;
static void *changer(void *in) { int t = *(int *)in; for (int i = 0; i < nops; i++) if (ops[i].thread == t) run_op(&ops[i]); return NULL; }
static volatile int done;
typedef struct { RKConfig c; uint32_t at; } Seen;
static Seen *seen;
static volatile int nseen;
static RKRadar *radar;
static void *reader(void *in) {
    while (!done) {
        uint32_t k = RKPreviousModuloS(*(volatile uint32_t *)&cindex, depth);
        if (nseen < 4000) { seen[nseen].at = k; memcpy(&seen[nseen].c, &configs[k], sizeof(RKConfig)); nseen++; }
        struct timespec t = {0, 15000};
        nanosleep(&t, NULL);
    }
    return NULL;
}
static int check_chain(const RKConfig *start, int first) {
    // Consecutive pairs of what is retained
    int n = nops - first;
    for (int k = 0; k < n; k++) {
        uint32_t at = (cindex + depth - n + k) % depth;
        RKConfig want = k == 0 ? *start : configs[(at + depth - 1) % depth];
        uint64_t id = want.i + 1;
        uintptr_t op = (uintptr_t)configs[at].userResource;
        if (op < 1 || op > (uintptr_t)nops) { VIOL("lost", "configuration %u of change %d holds the resource of none (%lu)", at, first + k, (unsigned long)op); return 0; }
        apply(&want, &ops[op - 1]);
        want.i = id;
        const char *d = differs(&configs[at], &want);
        if (d) { VIOL("chain", "configuration %u (change %d, of thread %d): %s is not that of the one before with the change (id %llu, expected %llu)", at, first + k, ops[op - 1].thread, d, (unsigned long long)configs[at].i, (unsigned long long)id); return 0; }
        ops[op - 1].n = -1 - k;
        stat_add("changes_checked", 1);
    }
    return n;
}
static void vp_case(uint64_t index) {
    if (!ops) { ops = calloc(MAXOPS, sizeof(Op)); seen = calloc(4001, sizeof(Seen)); radar = calloc(1, sizeof(RKRadar)); }
    for (int k = 0; k < 6; k++) {
        wav[k] = calloc(1, sizeof(RKWaveform));
        wav[k]->count = rr(1, RKMaximumWaveformCount); wav[k]->depth = 10;
        for (int j = 0; j < wav[k]->count; j++) wav[k]->filterCounts[j] = k == 5 ? 0 : rr(1, RKMaximumFilterCount);
        int n = chance(0.2) ? RKNameLength - 1 : rr(0, 40);
        for (int j = 0; j < n; j++) wav[k]->name[j] = 'a' + ri(26);
        cal[k].uid = k; cal[k].count = chance(0.1) ? 255 : rr(0, RKMaximumFilterCount);
        for (int j = 0; j < RKMaximumFilterCount; j++) { cal[k].ZCal[j][0] = rn() * 50; cal[k].ZCal[j][1] = chance(0.1) ? 0 : rf(-1, 1e4); cal[k].DCal[j] = rn() * 1e3; cal[k].PCal[j] = rn(); }
    }
    int nt = chance(0.4) ? 1 : rr(2, 5);
    int wrap = chance(0.4);
    nops = rr(1, chance(0.3) ? 600 : 80);
    depth = wrap ? rr(2, 30) : nops + rr(1, 20);
    RKConfigBufferAlloc(&configs, depth);
    for (uint32_t k = 0; k < depth; k++) configs[k].i = -(uint64_t)depth + k + 1000;
    cindex = 0;
    radar->configs = configs; radar->configIndex = 0; radar->desc.configBufferDepth = depth;
    int seqs[8] = {0};
    for (int i = 0; i < nops; i++) { int t = ri(nt); make_op(&ops[i], i, t, seqs[t]++, chance(0.3)); }
    RKConfig start = configs[depth - 1];
    if (chance(0.3)) { va_list ignore = {0}; RKConfigAdvance(NULL, NULL, 0, ignore); stat_add("after_radar_free", 1); }
    jitter = chance(0.8);
    done = 0; nseen = 0;
    pthread_t tid[5], rt;
    int id[5];
    int withreader = !wrap && chance(0.7);
    if (withreader) pthread_create(&rt, NULL, reader, NULL);
    alarm(60);
    if (nt == 1) { id[0] = 0; changer(&id[0]); }
    else {
        for (int t = 0; t < nt; t++) { id[t] = t; pthread_create(&tid[t], NULL, changer, &id[t]); }
        for (int t = 0; t < nt; t++) pthread_join(tid[t], NULL);
    }
    alarm(0);
    done = 1;
    if (withreader) pthread_join(rt, NULL);
    if (cindex != nops % depth) VIOL("index", "after %d changes in a buffer of %u the index is %u", nops, depth, cindex);
    int first = nops < (int)depth ? 0 : nops - (int)depth + 1;
    RKConfig base = first ? configs[(cindex + depth - (nops - first) - 1 + depth) % depth] : start;
    if (check_chain(&base, first)) {
        // Every change once, and in the order of its thread
        int last[8], once = 1;
        for (int t = 0; t < 8; t++) last[t] = -1;
        for (int i = 0; i < nops && first == 0; i++) {
            int at = -1 - ops[i].n;
            if (ops[i].n >= 0) { VIOL("missing", "change %d of thread %d made no configuration", ops[i].seq, ops[i].thread); once = 0; break; }
            if (at <= last[ops[i].thread]) { VIOL("order", "change %d of thread %d came before its predecessor", ops[i].seq, ops[i].thread); break; }
            last[ops[i].thread] = at;
        }
        if (once && first == 0 && nt > 1) stat_add("all_threads_accounted", 1);
        for (int k = 0; k < nseen && first == 0; k++) {
            const RKConfig *c = &seen[k].c;
            if (c->i + 1 == 1000) continue;                     // before the first change
            const char *d = differs(c, &configs[seen[k].at]);
            if (d) { VIOL("reader", "the latest configuration was read with another %s (id %llu)", d, (unsigned long long)c->i); break; }
            stat_add("reads_checked", 1);
        }
    }
    for (int k = 0; k < 10; k++) {
        uint32_t at = ri(depth);
        if (RKConfigWithId(configs, depth, configs[at].i) != &configs[at]) { VIOL("id", "the configuration of id %llu is not found", (unsigned long long)configs[at].i); break; }
    }
    if (RKConfigWithId(configs, depth, 5)) VIOL("id", "found a configuration of an id that there is not");
    // Through the radar
    radar->configIndex = cindex;
    for (int k = 0; k < 6; k++) {
        RKConfig want = *RKGetLatestConfig(radar);
        want.i++;
        uint32_t p = rr(1, 10000);
        float t = rf(-20, 20), u = rf(0, 1);
        switch (ri(4)) {
            case 0: RKSetPRF(radar, p); want.prt[0] = 1.0 / p; break;
            case 1: RKSetSNRThreshold(radar, t); want.SNRThreshold = t; break;
            case 2: RKAddConfig(radar, RKConfigKeySystemNoise, t, u, RKConfigKeyPulseGateCount, p, RKConfigKeySweepElevation, (double)u, RKConfigKeyNull); want.noise[0] = t; want.noise[1] = u; want.pulseGateCount = p; want.sweepElevation = u; break;
            default: RKConfigAdvanceEllipsis(configs, &radar->configIndex, depth, RKConfigKeyRingFilterGateCount, p, RKConfigKeySystemZCal, (double)t, (double)u, RKConfigKeyUserResource, radar, RKConfigKeyWaveformName, "x%sy", RKConfigKeySQIThreshold, (double)u, RKConfigKeyNull);
                want.ringFilterGateCount = p; want.systemZCal[0] = t; want.systemZCal[1] = u; want.userResource = radar; want.SQIThreshold = u; strcpy(want.waveformName, "x%sy"); break;
        }
        const char *d = differs(RKGetLatestConfig(radar), &want);
        if (d) { VIOL("setter", "%s is not as set through the radar", d); break; }
        stat_add("setters_checked", 1);
    }
    stat_add("changes_made", nops);
    if (wrap) stat_add("wrapped", 1);
    DISTINCTF("%d/%d/%u/%d/%d", nt, nops, depth, withreader, jitter);
    if (index < 2) sample("%d changes by %d thread(s) in a buffer of %u", nops, nt, depth);
    for (int i = 0; i < nops; i++) for (int k = 0; k < 12; k++) free(ops[i].str[k]);
    for (int k = 0; k < 6; k++) free(wav[k]);
    RKConfigBufferFree(configs);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
