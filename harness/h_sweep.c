// Sweep engine: the rays of a sweep become the products of that sweep, each delivered to the recorder once, in order.
#include "vp.h"
#include "vpsched.h"
#include <dirent.h>

static const char *SYM[] = {"Z", "V", "W", "D", "P", "R", "K", "Sh", "Sv", "Q", "Lh", "Lv", "Rxh", "Rxv", "Pxh", "Pxv"};
static const char *NAME[] = {"Intensity", "Radial_Velocity", "Width", "Differential_Reflectivity", "PhiDP", "RhoHV", "KDP", "Signal_Power_H", "Signal_Power_V", "SQI", "Linear_Depolarization_Ratio_H", "Linear_Depolarization_Ratio_V",
    "Co-cross_Correlation_Coefficient_H", "Co-cross_Correlation_Coefficient_V", "Co-cross_Differential_Phase_H", "Co-cross_Differential_Phase_V"};
#define MAXRAY 40000
#define MAXEXP 20000
typedef struct { uint32_t gates, cfg, list; RKMarker marker; time_t t0, t1; float gs, az0, az1, el0, el1; } Ray;
static Ray R[MAXRAY];                   // rays of the model by absolute number
typedef struct { uint32_t first, n, sweep, slot; int user, kind, fail; char file[700], stem[600]; } Exp;
static Exp ex[MAXEXP];
static volatile uint32_t nex, pos, nadd, nsweep;
static char added[MAXEXP][700];
static uint64_t salt;
static RKRadarDesc desc;
static RKConfig cfgs[10], cfg_of[400];  // configurations of the sweeps by sweep number
static RKBuffer rays;
static uint32_t rayIndex;
static RKSweepEngine *E;
static int slow, small;
static struct { int used, kind, pid; char symbol[20]; RKBaseProductList list; } slots[RKMaximumProductBufferDepth];

// A smaller product buffer to begin with: it has to grow with the sweeps
size_t __real_RKProductBufferAlloc(RKProduct **b, const uint32_t depth, const uint32_t n, const uint32_t g);
size_t __wrap_RKProductBufferAlloc(RKProduct **b, const uint32_t depth, const uint32_t n, const uint32_t g) { return __real_RKProductBufferAlloc(b, depth, n, small ? 4 : g); }
int __wrap_RKFileManagerAddFile(RKFileManager *m, const char *file, RKFileType type) {
    if (type != RKFileTypeMoment) VIOL("file-type", "%s reported as type %d", file, type);
    if (nadd < MAXEXP) snprintf(added[nadd], 700, "%s", file);
    nadd++;
    return 0;
}
static float val(uint32_t ray, int p, uint32_t g) {
    uint64_t s = salt + ray * 1000003ULL + p * 7919 + g * 31;
    uint64_t h = vp_mix(&s);
    if (h % 23 == 0) return NAN;
    return (float)((double)(h >> 40) / 1000.0 - 5000.0);
}
static int recorder(RKProduct *p, const char *file) {
    uint32_t k = pos;
    if (slow) vp_nap(vp_jr() % (slow * 300));
    if (k >= nex) { VIOL("extra", "recorded %s after all expected products", file); return 0; }
    Exp *e = &ex[k];
    pos = k + 1;
    if (strcmp(file, e->file)) { VIOL("order", "recording %u is %s expected %s", k, file, e->file); return 0; }
    if (strcmp(p->header.suggestedFilename, file)) VIOL("name", "suggested file name %s of %s", p->header.suggestedFilename, file);
    if (p->pid != (RKProductId)(42 + e->slot)) VIOL("pid", "product id %u expected %u", p->pid, 42 + e->slot);
    char dir[800];
    snprintf(dir, sizeof(dir), "%s", file);
    *strrchr(dir, '/') = 0;
    if (access(dir, W_OK)) VIOL("folder", "the folder of %s does not exist", file);
    // A file for the script to find
    if (E->hasFileHandlingScript) { FILE *f = fopen(file, "w"); if (f) fclose(f); }
    stat_add("recordings", 1);
    if (e->user) { if (p->data[0] != 1234.5f + e->slot) VIOL("user", "user product holds %g", p->data[0]); stat_add("user_products", 1); return e->fail; }
    RKConfig *c = &cfg_of[e->sweep];
    RKProductHeader *h = &p->header;
    if (strcmp(p->desc.symbol, SYM[e->kind]) || strcmp(p->desc.name, NAME[e->kind])) VIOL("desc", "%s has product %s (%s)", file, p->desc.name, p->desc.symbol);
    if (h->rayCount != e->n || h->gateCount != R[e->first].gates || h->gateSizeMeters != R[e->first].gs) { VIOL("dim", "%s: %u x %u gates of %g m, expected %u x %u of %g", file, h->rayCount, h->gateCount, h->gateSizeMeters, e->n, R[e->first].gates, R[e->first].gs); return e->fail; }
    if (h->startTime != R[e->first].t0 || h->endTime != R[e->first + e->n - 1].t1) VIOL("time", "%s: time %ld - %ld, expected %ld - %ld", file, h->startTime, h->endTime, R[e->first].t0, R[e->first + e->n - 1].t1);
    int ppi = (c->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI, rhi = (c->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI;
    if (h->isPPI != ppi || h->isRHI != rhi) VIOL("type", "%s: PPI %d RHI %d, expected %d %d", file, h->isPPI, h->isRHI, ppi, rhi);
    if (p->i != c->i || h->sweepElevation != c->sweepElevation || h->sweepAzimuth != c->sweepAzimuth || h->noise[0] != c->noise[0] || h->noise[1] != c->noise[1] || h->systemZCal[0] != c->systemZCal[0] || h->systemZCal[1] != c->systemZCal[1] ||
        h->systemDCal != c->systemDCal || h->systemPCal != c->systemPCal || h->SNRThreshold != c->SNRThreshold || h->SQIThreshold != c->SQIThreshold || memcmp(h->prt, c->prt, sizeof(h->prt)) || memcmp(h->pw, c->pw, sizeof(h->pw)) ||
        memcmp(h->ZCal, c->ZCal, sizeof(h->ZCal)) || memcmp(h->DCal, c->DCal, sizeof(h->DCal)) || memcmp(h->PCal, c->PCal, sizeof(h->PCal)) || strcmp(h->waveformName, c->waveformName) || strcmp(h->vcpDefinition, c->vcpDefinition))
        VIOL("config", "%s does not have the configuration of its sweep", file);
    if (strcmp(h->radarName, desc.name) || h->latitude != desc.latitude || h->longitude != desc.longitude || h->heading != desc.heading || h->radarHeight != desc.radarHeight || h->wavelength != desc.wavelength) VIOL("radar", "%s does not have the description of the radar", file);
    for (uint32_t i = 0; i < e->n; i++) {
        Ray *r = &R[e->first + i];
        if (p->startAzimuth[i] != r->az0 || p->endAzimuth[i] != r->az1 || p->startElevation[i] != r->el0 || p->endElevation[i] != r->el1) { VIOL("angle", "%s: ray %u at AZ %g-%g EL %g-%g expected %g-%g %g-%g", file, i, p->startAzimuth[i], p->endAzimuth[i], p->startElevation[i], p->endElevation[i], r->az0, r->az1, r->el0, r->el1); break; }
        uint32_t g, G = h->gateCount;
        for (g = 0; g < G; g++) {
            float x = p->data[(size_t)i * G + g], y = g < r->gates ? val(e->first + i, e->kind, g) : NAN;
            if (!(isnan(y) ? isnan(x) : x == y)) { VIOL("data", "%s: ray %u gate %u is %g expected %g", file, i, g, x, y); break; }
        }
        if (g < G) break;
    }
    stat_add("values_compared", (double)e->n * h->gateCount);
    return e->fail;
}

static uint32_t D, cap, abs_i, is_;         // depth, gates, rays made, first ray of the sweep being gathered
static void expect(uint32_t first, uint32_t n, int rec, int failures) {
    // 361 to 379 rays are cut down to one turn
    uint32_t k = 0, c = R[first + 1].cfg;
    RKMarker S = R[first].marker, T = R[first + 1].marker, X = R[first + n - 1].marker;
    RKBaseProductList list = 0;
    for (uint32_t i = 0; i < n; i++) list |= R[first + i].list;
    if (n > 360 && n < 380) {
        if (T & RKMarkerSweepBegin) { k = 1; n = 360; }
        else if (n > 361) { k = X & RKMarkerSweepEnd ? n - 361 : n - 360; n = 360; }
        else if (S & RKMarkerSweepBegin) n = 360;
        stat_add("sweeps_trimmed", 1);
    }
    uint32_t mid = 0;
    for (uint32_t i = 0; i < n; i++) mid += R[first + k + i].marker & RKMarkerSweepMiddle;
    if (mid < 0.8 * n || n < 3) rec = 0;
    RKConfig *cf = &cfgs[c];
    cfg_of[nsweep] = *cf;
    stat_add("sweeps", 1);
    if (!rec) stat_add("sweeps_not_recorded", 1);
    char stem[600], date[20], tm_[20];
    struct tm tm;
    gmtime_r(&R[first + k].t0, &tm);
    strftime(date, 20, "%Y%m%d", &tm);
    strftime(tm_, 20, "%Y%m%d-%H%M%S", &tm);
    int o = snprintf(stem, sizeof(stem), "%s%smoment/%s/%s-%s", desc.dataPath, desc.dataPath[0] ? "/" : "", date, desc.filePrefix, tm_);
    if ((cf->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI) snprintf(stem + o, sizeof(stem) - o, "-E%.1f", cf->sweepElevation);
    else if ((cf->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI) snprintf(stem + o, sizeof(stem) - o, "-A%.1f", cf->sweepAzimuth);
    else snprintf(stem + o, sizeof(stem) - o, "-N%03u", n);
    uint32_t q = nex;
    for (int s = 0; rec && s < RKMaximumProductBufferDepth; s++) if (slots[s].used && slots[s].list & list) {
        Exp *e = &ex[q++];
        *e = (Exp){first + k, n, nsweep, s, slots[s].kind < 0, slots[s].kind, failures && chance(0.2) ? 1 : 0};
        snprintf(e->file, sizeof(e->file), "%s-%s.nc", stem, slots[s].symbol);
        snprintf(e->stem, sizeof(e->stem), "%s", stem);
    }
    nsweep++;
    __sync_synchronize();
    nex = q;
    DISTINCTF("%u/%x/%d/%d/%d", n, list >> 16, rec, slow, D / 50);
}
static int wait_until(int what, double limit) {     // 0 all expected recordings made and idle, 1 room in the buffer
    double t = vp_now();
    while (vp_now() - t < limit) {
        if (what == 0 && pos >= nex && E->business == 0) return 1;
        if (what == 1 && (rayIndex + D - E->processedRayIndex) % D <= (uint32_t)abs((int)(D / 6 < 20 ? D / 6 : 20))) return 1;
        if (what == 2 && (rayIndex + D - E->processedRayIndex) % D <= 1) return 1;
        vp_nap(200);
    }
    return 0;
}
static int put(RKMarker marker, uint32_t gates, uint32_t cfg, uint32_t list, int quick, int rec, int failures) {
    if (!quick || abs_i % 4 == 0) if (!wait_until(1, 20)) { VIOL("stall", "ray %u of %u is never processed", abs_i, D); return 0; }
    Ray *r = &R[abs_i];
    static time_t t;
    if (abs_i == 0) t = 1000000000 + ri(700000000);
    if (chance(0.2)) t += ri(100);
    *r = (Ray){gates, cfg, list, marker, t, t + ri(3), 0, rf(0, 360), rf(0, 360), rf(0, 90), rf(0, 90)};
    r->gs = 30 + 15 * (cfg % 3);
    RKRay *ray = RKGetRayFromBuffer(rays, abs_i % D);
    ray->header.s = RKRayStatusVacant;
    ray->header.i += D;
    ray->header.marker = marker; ray->header.gateCount = gates; ray->header.configIndex = cfg; ray->header.baseProductList = list; ray->header.gateSizeMeters = r->gs;
    ray->header.startTime.tv_sec = r->t0; ray->header.endTime.tv_sec = r->t1; ray->header.startTimeDouble = r->t0; ray->header.endTimeDouble = r->t1;
    ray->header.startAzimuth = r->az0; ray->header.endAzimuth = r->az1; ray->header.startElevation = r->el0; ray->header.endElevation = r->el1;
    for (int p = 0; p < 16; p++) { float *x = RKGetFloatDataFromRay(ray, p); for (uint32_t g = 0; g < gates; g++) x[g] = val(abs_i, p, g); }
    if (marker & RKMarkerSweepEnd) { if (is_ != abs_i) expect(is_, abs_i - is_ + 1, rec, failures); is_ = abs_i; }
    else if (marker & RKMarkerSweepBegin) is_ = abs_i;
    __sync_synchronize();
    ray->header.s = RKRayStatusReady;
    abs_i++;
    rayIndex = abs_i % D;
    return 1;
}
static void describe(int kind, const char *symbol, RKBaseProductList list, uint32_t index) {
    int s;
    RKProductDesc d;
    memset(&d, 0, sizeof(d));
    snprintf(d.symbol, sizeof(d.symbol), "%s", symbol); snprintf(d.name, sizeof(d.name), "User_%s", symbol);
    d.baseProductList = list;
    for (s = 0; s < RKMaximumProductBufferDepth && slots[s].used; s++);
    RKProductId id = RKSweepEngineDescribeProduct(E, d);
    if (s == RKMaximumProductBufferDepth) { if (id) VIOL("describe", "product %u described when all are in use", id); return; }
    if (id != (RKProductId)(42 + s)) VIOL("describe", "product id %u expected %d", id, 42 + s);
    slots[s].used = 1; slots[s].kind = -1; slots[s].list = list; slots[s].pid = id;
    snprintf(slots[s].symbol, 20, "%s", symbol);
    E->productBuffer[s].data[0] = 1234.5f + s;
    E->productBuffer[s].header.rayCount = E->productBuffer[s].header.gateCount = 1;
}
static void vp_case(uint64_t index) {
    static int once;
    if (!once++) RKSetRootDataFolder(vp_scratch);
    vp_jitter = ri(3); vp_jit = r64(); salt = r64();
    slow = chance(0.5) ? ri(6) : 0;
    memset(&desc, 0, sizeof(desc)); memset(slots, 0, sizeof(slots)); memset(cfgs, 0, sizeof(cfgs));
    int lng = chance(0.1) ? 2 : chance(0.25);
    uint32_t longest = lng == 2 ? 1495 : lng ? 385 : (uint32_t)rr(4, 80), junk = rr(0, 6);
    D = 2 * (longest + junk) + 30 + ri(longest * 4);
    cap = 16 * (lng ? 1 : rr(1, 6));
    desc.rayBufferDepth = D; desc.wavelength = rf(0.01, 0.2); desc.latitude = rf(-90, 90); desc.longitude = rf(-180, 180); desc.heading = rf(0, 360); desc.radarHeight = rf(0, 3000);
    snprintf(desc.name, sizeof(desc.name), "radar-%u", ri(1000));
    snprintf(desc.filePrefix, sizeof(desc.filePrefix), "%.*s", (int)rr(1, RKMaximumPrefixLength - 1), "PXPXPXPXPXPXPXPXPXPXPXPX");
    snprintf(desc.dataPath, sizeof(desc.dataPath), "%s/c%llu", vp_scratch, (unsigned long long)index);
    RKRayBufferAlloc(&rays, cap, D);
    rayIndex = abs_i = is_ = nex = pos = nadd = nsweep = 0;
    int script = chance(0.15), props = 0;
    small = chance(0.9);
    E = RKSweepEngineInit();
    uint32_t ci = 0;
    RKSweepEngineSetEssentials(E, &desc, chance(0.5) ? (RKFileManager *)&desc : NULL, cfgs, &ci, rays, &rayIndex);
    RKSweepEngineSetProductRecorder(E, recorder);
    if (chance(0.3)) E->baseProductList = (r64() & 0xFFFF) << 16;
    char log[400] = "", sh[400];
    if (script) {
        snprintf(sh, sizeof(sh), "%s/h%llu.sh", vp_scratch, (unsigned long long)index); snprintf(log, sizeof(log), "%s/h%llu.log", vp_scratch, (unsigned long long)index);
        FILE *f = fopen(sh, "w");
        fprintf(f, "#!/bin/sh\necho \"$@\" >> %s\nf=\"$1\"; d=\"${f%%-*}\"; echo x > \"$d.tgz\"; echo x > \"$d.zip\"; echo x > \"$d.txz\"; echo x > \"$d.tar.xz\"\n", log);
        fclose(f);
        chmod(sh, 0755);
        int k = ri(5);
        props = k == 0 ? 0 : RKScriptPropertyProduceArchive | (k == 1 ? RKScriptPropertyProduceTgz : k == 2 ? RKScriptPropertyProduceTxz : k == 3 ? RKScriptPropertyProduceTarXz : RKScriptPropertyProduceZip);
        if (chance(0.5)) props |= RKScriptPropertyRemoveNCFiles;
        RKSweepEngineSetFilesHandlingScript(E, sh, props);
    }
    int rec = chance(0.85), failures = chance(0.2), before = chance(0.3) ? rr(1, 4) : 0;
    RKSweepEngineSetRecord(E, rec);
    char sym[10];
    for (int i = 0; i < before; i++) { snprintf(sym, 10, "Y%d", i); describe(-1, sym, RKBaseProductListFloatZ << ri(4), index); }
    for (int p = 0; p < 16; p++) if (E->baseProductList & (RKBaseProductListFloatZ << p)) {
        int s;
        for (s = 0; s < RKMaximumProductBufferDepth && slots[s].used; s++);
        if (s == RKMaximumProductBufferDepth) break;
        slots[s].used = 1; slots[s].kind = p; slots[s].list = RKBaseProductListFloatZ << p; slots[s].pid = 42 + s;
        strcpy(slots[s].symbol, SYM[p]);
    }
    if (RKSweepEngineStart(E) != RKResultSuccess) VIOL("start", "the engine does not start");
    if (chance(0.2)) for (int i = 0; i < rr(1, 5); i++) { snprintf(sym, 10, "U%d", i); describe(-1, sym, RKBaseProductListFloatZ << ri(4), index); }
    if (chance(0.2)) { int i = 0; do { snprintf(sym, 10, "X%d", i); describe(-1, sym, 0, index); } while (++i < 22); }
    int n = lng == 2 ? rr(2, 5) : lng ? rr(2, 8) : rr(3, 30), quick = chance(0.5), ok = 1, both = 0, flushes = 0;
    uint32_t list = (r64() & 0xFFFF) << 16;
    if (chance(0.5)) list = 0xFFFFu << 16;
    // The end: what is still to come when the engine stops may be left out
    int cut = chance(0.2);
    for (int s = 0; s < n && ok; s++) {
        if (!both && (chance(0.15) || s == 0)) {            // a quiet moment
            if (!wait_until(2, 20) || !wait_until(0, 20)) { VIOL("stall", "%u of %u recordings made, %u sweeps busy", pos, nex, E->business); ok = 0; break; }
            if (chance(0.3)) RKSweepEngineSetRecord(E, rec = !rec);
            if (chance(0.3)) {
                int k = ri(RKMaximumProductBufferDepth);
                if (slots[k].used && slots[k].kind < 0) {
                    if (RKSweepEngineUndescribeProduct(E, slots[k].pid)) VIOL("describe", "product %d is not known", slots[k].pid);
                    slots[k].used = 0;
                } else if (!slots[k].used && RKSweepEngineUndescribeProduct(E, 42 + k) == 0) VIOL("describe", "product %d was removed though unknown", 42 + k);
            }
            if (chance(0.2)) { snprintf(sym, 10, "W%d", s); describe(-1, sym, RKBaseProductListFloatZ << ri(4), index); }
        }
        uint32_t c = s % 10;
        RKConfig *cf = &cfgs[c];
        cf->i = 100 + s; cf->sweepElevation = rf(-2, 90); cf->sweepAzimuth = rf(0, 359.9); cf->noise[0] = rf(0, 10); cf->noise[1] = rf(0, 10); cf->systemZCal[0] = rn(); cf->systemZCal[1] = rn(); cf->systemDCal = rn(); cf->systemPCal = rn(); cf->SNRThreshold = rn(); cf->SQIThreshold = ru();
        for (int i = 0; i < RKMaximumFilterCount; i++) { cf->pw[i] = rf(1e-6, 1e-4); cf->prt[i] = rf(1e-4, 1e-2); cf->ZCal[i][0] = rn(); cf->ZCal[i][1] = rn(); cf->DCal[i] = rn(); cf->PCal[i] = rn(); }
        snprintf(cf->waveformName, sizeof(cf->waveformName), "wave%u", ri(100000)); snprintf(cf->vcpDefinition, sizeof(cf->vcpDefinition), "vcp %u %u %u", ri(100000), ri(100000), ri(10000));
        RKMarker type = chance(0.45) ? RKMarkerScanTypePPI : chance(0.6) ? RKMarkerScanTypeRHI : RKMarkerScanTytpePoint;
        cf->startMarker = type | RKMarkerSweepBegin | RKMarkerVolumeBegin;
        uint32_t gates = rr(1, cap), len = lng == 2 ? (uint32_t)rr(300, longest) : lng ? (uint32_t)(chance(0.7) ? rr(355, 382) : rr(2, 385)) : (uint32_t)rr(2, longest);
        if (chance(0.3)) list = (r64() & 0xFFFF) << 16;
        if (chance(0.02)) list = 0;
        int uneven = chance(0.1), middle = chance(0.85) ? 1000 : rr(0, 1000), prev = s && chance(0.2);
        if (!both) for (int k = junk ? ri(junk + 1) : 0; k > 0 && ok; k--) ok = put(type, gates, c, list, quick, rec, failures);
        int flush = len > 3 && chance(0.08);
        uint32_t k0 = both ? 1 : 0;
        both = 0;
        for (uint32_t k = k0; k < len && ok; k++) {
            RKMarker m = type;
            if (k == 0) m |= RKMarkerSweepBegin;
            if (k == len - 1 && !flush) m |= RKMarkerSweepEnd;
            if ((int)ri(1000) < middle) m |= RKMarkerSweepMiddle;
            both = k == len - 1 && !flush && s < n - 1 && chance(0.1);
            if (both) m |= RKMarkerSweepBegin;
            ok = put(m, uneven ? (uint32_t)rr(1, cap) : gates, k == 0 && prev ? (c + 9) % 10 : c, list, quick, rec, failures);
        }
        if (flush && ok) {
            if (!wait_until(2, 20)) { VIOL("stall", "ray %u is never processed", abs_i); ok = 0; break; }
            uint32_t last = abs_i - 1;
            R[last].marker |= RKMarkerSweepEnd;
            expect(is_, last - is_ + 1, rec, failures);
            is_ = last;
            RKSweepEngineFlush(E);
            if (!wait_until(0, 20)) { VIOL("flush", "a flushed sweep of %u rays is not recorded", len); ok = 0; }
            flushes++;
            stat_add("flushes", 1);
        }
    }
    if (ok && !cut && !both && (!wait_until(2, 20) || !wait_until(0, 20))) { VIOL("stall", "%u of %u recordings made at the end, %u sweeps busy", pos, nex, E->business); ok = 0; }
    double t = vp_now();
    if (RKSweepEngineStop(E) != RKResultSuccess) VIOL("stop", "stopping failed");
    if (vp_now() - t > 20) VIOL("stop", "stopping took %.1f s", vp_now() - t);
    uint32_t got = pos;
    vp_nap(2000);
    if (pos != got) VIOL("after-stop", "products are recorded after the engine stopped");
    if (cut) stat_add("stopped_busy", 1);
    // The last recordings of a busy engine come in whole sweeps
    if (pos < nex && pos && ex[pos].sweep == ex[pos - 1].sweep) VIOL("partial", "the last sweep was recorded in part");
    // Reports to the file manager, and the files given to the script
    if (ok) {
        uint32_t a = 0;
        FILE *f = script ? fopen(log, "r") : NULL;
        char line[24000];
        for (uint32_t k = 0; k < got; ) {
            uint32_t s = ex[k].sweep;
            char wantl[24000] = "";
            int o = 0;
            char *stem = ex[k].stem;
            for (; k < got && ex[k].sweep == s; k++) {
                o += snprintf(wantl + o, sizeof(wantl) - o, "%s%s", o ? " " : "", ex[k].file);
                if (E->fileManager && !ex[k].fail && !(props & RKScriptPropertyRemoveNCFiles)) {
                    if (a >= nadd || strcmp(added[a], ex[k].file)) { VIOL("report", "report %u to the file manager is %s expected %s", a, a < nadd ? added[a] : "none", ex[k].file); k = got; break; }
                    a++;
                }
            }
            if (f) {
                if (!fgets(line, sizeof(line), f)) { VIOL("script", "the script was not called for %s", wantl); break; }
                line[strcspn(line, "\n")] = 0;
                if (strcmp(line, wantl)) VIOL("script", "the script was called with %s expected %s", line, wantl);
                stat_add("scripts_called", 1);
                if (E->fileManager && props & RKScriptPropertyProduceArchive) {
                    char arc[800];
                    snprintf(arc, sizeof(arc), "%s.%s", stem, props & RKScriptPropertyProduceTarXz ? "tar.xz" : props & RKScriptPropertyProduceTgz ? "tgz" : props & RKScriptPropertyProduceTxz ? "txz" : "zip");
                    if (a >= nadd || strcmp(added[a], arc)) { VIOL("report", "report %u to the file manager is %s expected the archive %s", a, a < nadd ? added[a] : "none", arc); break; }
                    a++;
                    stat_add("archives_reported", 1);
                }
            }
        }
        if (a != nadd) VIOL("report", "%u reports to the file manager, expected %u", nadd, a);
        stat_add("files_reported", nadd);
        if (f) { if (fgets(line, sizeof(line), f)) VIOL("script", "the script was called once more with %s", line); fclose(f); }
    }
    RKSweepEngineFree(E);
    RKRayBufferFree(rays);
    stat_add("rays", abs_i);
    if (index < 2) sample("%u rays, %u sweeps, %u recordings, buffer of %u rays", abs_i, nsweep, got, D);
    char cmd[600];
    snprintf(cmd, sizeof(cmd), "rm -rf '%s'", desc.dataPath);
    if (system(cmd)) {}
    if (script) { unlink(sh); unlink(log); }
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
