// Raw data recorder: every pulse is in exactly one file while recording is on, and the files read back as they were.
#include "vp.h"
#include "vpsched.h"
#include <errno.h>

#define MAXP 6000
#define MAXF 3000
typedef struct { RKPulseHeader h; uint64_t crc; uint8_t on; uint8_t file0; } Pulse;     // on: 0 not recorded, 1 recorded, 2 either
static Pulse P[MAXP];
static RKRadarDesc desc;
static RKConfig cfgs[10], used_cfg[MAXP];
static RKWaveform *wave[10];
static uint16_t cfg_no[MAXP];            // configuration count of a pulse
static int wave_of[MAXP];
static RKBuffer pulses;
static uint32_t pulseIndex, D, cap, made;
static RKRawDataRecorder *E;
static char files[MAXF][700];
static volatile int nfiles, fault_at, faults, opened;
static int type_of_run;

int __wrap_RKFileManagerAddFile(RKFileManager *m, const char *file, RKFileType type) {
    if (type != RKFileTypeIQ) VIOL("file-type", "%s reported as type %d", file, type);
    if (nfiles < MAXF) snprintf(files[nfiles], 700, "%s", file);
    nfiles++;
    return 0;
}
static uint8_t failed[MAXF + 1];         // segments that a fault hit: 1 while writing, 2 while opening
int __real_open(const char *path, int flags, ...);
int __wrap_open(const char *path, int flags, ...) {
    va_list a;
    va_start(a, flags);
    int mode = (flags & O_CREAT) ? va_arg(a, int) : 0;
    va_end(a);
    const char *ext = strrchr(path, '.');
    if (ext && !strncmp(ext, ".rk", 3) && (flags & O_CREAT)) {
        if (opened < MAXF) opened++;
        if (fault_at < 0 && ++fault_at == 0) { faults++; failed[opened - 1] = 2; errno = EMFILE; return -1; }
    }
    return __real_open(path, flags, mode);
}
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    vp_perturb();
    if (fault_at > 0 && --fault_at == 0) {
        faults++;
        if (opened) failed[opened - 1] = 1;
        int k = vp_jr() % 2;
        if (k == 0 || n < 2) { errno = ENOSPC; return -1; }
        return __real_write(fd, b, n / 2);
    }
    return __real_write(fd, b, n);
}
static uint64_t crc(const RKPulse *p, int type) {
    uint64_t h = 1;
    for (int c = 0; c < 2; c++) {
        if (type == RKRawDataTypeFromTransceiver) h = vp_h(RKGetInt16CDataFromPulse((RKPulse *)p, c), p->header.gateCount * sizeof(RKInt16C), h);
        else h = vp_h(RKGetComplexDataFromPulse((RKPulse *)p, c), p->header.downSampledGateCount * sizeof(RKComplex), h);
    }
    return h;
}
static int same(const RKPulseHeader *a, const RKPulseHeader *b) {
    return a->i == b->i && a->n == b->n && a->t == b->t && a->gateCount == b->gateCount && a->downSampledGateCount == b->downSampledGateCount && a->marker == b->marker && a->pulseWidthSampleCount == b->pulseWidthSampleCount &&
        a->time.tv_sec == b->time.tv_sec && a->time.tv_usec == b->time.tv_usec && a->timeDouble == b->timeDouble && !memcmp(&a->rawAzimuth, &b->rawAzimuth, sizeof(a->rawAzimuth)) && !memcmp(&a->rawElevation, &b->rawElevation, sizeof(a->rawElevation)) &&
        a->gateSizeMeters == b->gateSizeMeters && a->elevationDegrees == b->elevationDegrees && a->azimuthDegrees == b->azimuthDegrees && a->elevationVelocityDegreesPerSecond == b->elevationVelocityDegreesPerSecond && a->azimuthVelocityDegreesPerSecond == b->azimuthVelocityDegreesPerSecond;
}
static uint8_t seen[MAXP];
static long last_seen;
static int got_file(const char *file, uint32_t limit, RKPulse *scratch) {
    FILE *f = fopen(file, "rb");
    if (!f) { VIOL("missing", "the reported file %s cannot be opened", file); return 0; }
    // By the layout
    RKFileHeader h;
    RKWaveFileGlobalHeader w;
    uint32_t n = 0, first = 0;
    int ok = fread(&h, sizeof(h), 1, f) == 1 && fread(&w, sizeof(w), 1, f) == 1;
    if (!ok) { VIOL("file", "%s is shorter than its header", file); fclose(f); return 0; }
    if (strcmp(h.preface, "RadarKit/IQ") || h.version != RKRawDataVersion || memcmp(&h.desc, &desc, sizeof(desc))) VIOL("header", "%s: preface '%s' version %d", file, h.preface, h.version);
    const char *ext = strrchr(file, '.');
    int type = h.dataType;
    if (strcmp(ext, type == RKRawDataTypeFromTransceiver ? ".rkr" : ".rkc")) VIOL("header", "%s holds data of type %d", file, type);
    RKWaveform *wf = NULL;
    long wpos = ftell(f);
    // The waveform of the first pulse: known after reading it
    for (int k = 0; k < (int)w.count; k++) fseek(f, w.filterCounts[k] * sizeof(RKFilterAnchor) + w.depth * (sizeof(RKComplex) + sizeof(RKInt16C)), SEEK_CUR);
    long start = ftell(f);
    RKPulseHeader ph;
    while (fread(&ph, 1, sizeof(ph), f) == sizeof(ph)) {
        uint32_t i = ph.i;
        if (i >= made) { VIOL("pulse", "%s: pulse %u of the file is %u, made were %u", file, n, i, made); break; }
        if (!same(&ph, &P[i].h)) { VIOL("pulse", "%s: header of pulse %u differs", file, i); break; }
        if (n == 0) first = i;
        else if (i != first + n) { VIOL("order", "%s: pulse %u follows %u", file, i, first + n - 1); break; }
        if (seen[i]++) VIOL("twice", "pulse %u is recorded twice, now in %s", i, file);
        if ((long)i <= last_seen) VIOL("order", "pulse %u in %s comes after %ld", i, file, last_seen);
        last_seen = i;
        if (cfg_no[i] != cfg_no[first]) VIOL("config", "%s holds pulses %u and %u of different configurations", file, first, i);
        uint64_t c = 1;
        size_t bytes = type == RKRawDataTypeFromTransceiver ? ph.gateCount * sizeof(RKInt16C) : ph.downSampledGateCount * sizeof(RKComplex);
        static char buf[65536];
        for (int q = 0; q < 2; q++) { if (fread(buf, 1, bytes, f) != bytes) { VIOL("short", "%s ends within pulse %u", file, i); bytes = 0; } c = vp_h(buf, bytes, c); }
        if (type == type_of_run && bytes && c != P[i].crc) VIOL("data", "%s: data of pulse %u differ", file, i);
        n++;
    }
    long end = ftell(f);
    fseek(f, 0, SEEK_END);
    if (ftell(f) != end) VIOL("tail", "%s has %ld bytes after its last pulse", file, ftell(f) - end);
    if (n > limit) VIOL("limit", "%s holds %u pulses, the limit is %u", file, n, limit);
    if (n == 0) { VIOL("empty", "%s holds no pulse", file); fclose(f); return 0; }
    RKConfig *c = &used_cfg[cfg_no[first]], fc = h.config;
    fc.waveform = c->waveform;
    if (memcmp(&fc, c, sizeof(RKConfig))) VIOL("config", "%s does not hold the configuration of pulse %u", file, first);
    wf = wave[wave_of[cfg_no[first]]];
    fseek(f, wpos, SEEK_SET);
    if (strcmp(w.name, wf->name) || w.count != wf->count || w.depth != wf->depth || w.fc != wf->fc || w.fs != wf->fs || w.type != wf->type) VIOL("waveform", "%s: waveform '%s' expected '%s'", file, w.name, wf->name);
    else for (int k = 0; k < wf->count; k++) {
        static char b[65536];
        if (w.filterCounts[k] != wf->filterCounts[k]) { VIOL("waveform", "%s: %d filters expected %d", file, w.filterCounts[k], wf->filterCounts[k]); break; }
        size_t a = wf->filterCounts[k] * sizeof(RKFilterAnchor), s = wf->depth * sizeof(RKComplex), t = wf->depth * sizeof(RKInt16C);
        if (fread(b, 1, a, f) != a || memcmp(b, wf->filterAnchors[k], a) || fread(b, 1, s, f) != s || memcmp(b, wf->samples[k], s) || fread(b, 1, t, f) != t || memcmp(b, wf->iSamples[k], t)) { VIOL("waveform", "%s: filters or samples of group %d differ", file, k); break; }
    }
    // The name
    char name[700], day[20], tm_[20];
    struct tm tm;
    time_t t = P[first].h.time.tv_sec;
    gmtime_r(&t, &tm);
    strftime(day, 20, "%Y%m%d", &tm); strftime(tm_, 20, "%Y%m%d-%H%M%S", &tm);
    snprintf(name, sizeof(name), "%s%siq/%s/%s-%s.%03d%s", desc.dataPath, desc.dataPath[0] ? "/" : "", day, desc.filePrefix, tm_, (int)(P[first].h.time.tv_usec / 1000), ext);
    if (strcmp(name, file)) VIOL("name", "%s expected %s", file, name);
    // With the reader of the library
    rewind(f);
    RKFileHeader *fh = RKFileHeaderRead(f);
    if (!fh) VIOL("read", "%s: the header cannot be read", file);
    else {
        if (memcmp(&fh->desc, &desc, sizeof(desc)) || fh->dataType != type || fh->version != RKRawDataVersion || fh->config.i != c->i) VIOL("read", "%s: header read differs", file);
        RKWaveform *x = fh->config.waveform;
        if (strcmp(x->name, wf->name) || x->count != wf->count || x->depth != wf->depth || memcmp(x->samples[wf->count - 1], wf->samples[wf->count - 1], wf->depth * sizeof(RKComplex))) VIOL("read", "%s: waveform read differs", file);
        if (ftell(f) != start) VIOL("read", "%s: pulses begin at %ld, reading at %ld", file, start, ftell(f));
        uint32_t k = 0;
        int r;
        while ((r = RKReadPulseFromFileReference(scratch, fh, f)) == RKResultSuccess) {
            if (k >= n) { VIOL("read", "%s: more than %u pulses read", file, n); break; }
            RKPulseHeader want = P[first + k].h;
            if (type == RKRawDataTypeFromTransceiver) want.downSampledGateCount = 0;
            if (!same(&scratch->header, &want) || scratch->header.capacity != cap) { VIOL("read", "%s: pulse %u read differs", file, first + k); break; }
            if (type == type_of_run && crc(scratch, type) != P[first + k].crc) { VIOL("read", "%s: data of pulse %u read differ", file, first + k); break; }
            if (type != RKRawDataTypeFromTransceiver) for (int q = 0; q < 2; q++) {
                RKComplex *a = RKGetComplexDataFromPulse(scratch, q);
                RKIQZ z = RKGetSplitComplexDataFromPulse(scratch, q);
                for (uint32_t g = 0; g < scratch->header.downSampledGateCount; g++) if (z.i[g] != a[g].i || z.q[g] != a[g].q) { VIOL("read", "%s: split data of pulse %u differ", file, first + k); q = 2; break; }
            }
            k++;
        }
        if (k != n) VIOL("read", "%s: %u pulses read of %u, result %d", file, k, n, r);
        RKFileHeaderFree(fh);
        stat_add("pulses_read", k);
    }
    // Damaged: cut short and with absurd gate counts
    if (chance(0.3)) {
        char dm[800];
        snprintf(dm, sizeof(dm), "%s.damaged", file);
        size_t len = end, cut = chance(0.5) ? start + ri(len - start + 1) : ri(len + 1);
        int odd = 0;
        char *all = malloc(len);
        rewind(f);
        if (fread(all, 1, len, f) != len) VIOL("harness", "reading");
        if (chance(0.5)) { RKPulseHeader *q = (RKPulseHeader *)(all + start); q->gateCount = chance(0.5) ? ~0u : cap + ri(1000); q->downSampledGateCount = chance(0.5) ? ~0u : cap + ri(1000); cut = len; }
        if (chance(0.3)) {
            RKFileHeaderV1 *o = (RKFileHeaderV1 *)all;
            ((RKFileHeader *)all)->version = rr(0, 7);
            if (chance(0.7)) {
                // A header of version 5
                o->buildNo = 5; o->desc = desc;
                memset(&o->config, 0, sizeof(o->config));
                o->config.filterCount = chance(0.8) ? rr(1, 8) : ri(256);
                for (int q = 0; q < 8; q++) { o->config.filterAnchors[q].length = chance(0.9) ? ri(50) : r64(); o->config.filterAnchors[q].origin = chance(0.9) ? ri(20) : r64(); o->config.PCal[q] = ri(100); o->config.ZCal[q][1] = ri(100); }
                o->config.pw[1] = ru(); o->config.prt[1] = ru(); o->config.pulseGateSize = rf(1, 100); o->config.SQIThreshold = ru(); o->dataType = ri(4);
                memset(o->config.waveform, 'w', chance(0.5) ? ri(120) : sizeof(o->config.waveform));
                odd = 5;
                if (chance(0.5)) cut = len;
            } else odd = 1;
        }
        if (chance(0.4)) { odd |= 2; int q = rr(1, 3); while (q--) { size_t at = chance(0.5) ? ri(start) : sizeof(RKFileHeader) + ri(start - sizeof(RKFileHeader)); all[at] = r64(); } }
        static RKFileHeaderV1 old;
        memcpy(&old, all, sizeof(old));
        FILE *g = fopen(dm, "w+b");
        fwrite(all, 1, cut, g);
        rewind(g);
        fh = RKFileHeaderRead(g);
        if (fh && odd == 5) {
            RKConfig *o = &fh->config;
            char nm[200];
            memset(nm, 'w', 200);
            strcpy(nm + strnlen(old.config.waveform, sizeof(RKName) - 5), "-syn");
            if (o->pw[1] != old.config.pw[1] || o->prt[1] != old.config.prt[1] || o->PCal[7] != old.config.PCal[7] || o->ZCal[7][1] != old.config.ZCal[7][1] || o->SQIThreshold != old.config.SQIThreshold || o->pulseGateSize != old.config.pulseGateSize || strcmp(o->waveformName, nm) || o->vcpDefinition[0])
                VIOL("read-5", "the configuration of a version 5 header is not read as it is: pulse width %g of %g, threshold %g of %g, waveform %s", o->pw[1], old.config.pw[1], o->SQIThreshold, old.config.SQIThreshold, o->waveformName);
            stat_add("old_headers_read", 1);
        }
        if (fh) {
            uint32_t k = 0;
            while (k <= n + 5 && RKReadPulseFromFileReference(scratch, fh, g) == RKResultSuccess) k++;
            if (!odd && k > n) VIOL("read", "%u pulses read of a damaged file of %u", k, n);
            if (scratch->header.capacity != cap) VIOL("read", "the capacity of the pulse became %u", scratch->header.capacity);
            scratch->header.capacity = cap;
            RKFileHeaderFree(fh);
            stat_add("damaged_read", 1);
        } else stat_add("damaged_refused", 1);
        RKReadPulseFromFileReference(NULL, NULL, NULL);
        fclose(g);
        unlink(dm);
        free(all);
    }
    RKReadPulseFromFileReference(NULL, NULL, NULL);
    fclose(f);
    stat_add("files_read", 1);
    stat_add("pulses_found", n);
    return n;
}
static long consumed(void) { return (long)E->tic - 1; }
// The other engines finish a pulse some time after it was made
static uint32_t released;
static void release_to(uint32_t end) {
    for (; released < end; released++) {
        RKPulse *p = RKGetPulseFromBuffer(pulses, released % D);
        if (vp_jr() % 5 == 0) vp_perturb();
        uint32_t s = p->header.s;
        RKPulseHeader h = P[released].h;
        h.s = s;
        p->header = h;
        __sync_synchronize();
        __sync_fetch_and_or(&p->header.s, RKPulseStatusUsedForMoments);
    }
}
static int wait_idle(void) {
    release_to(made);
    double t = vp_now();
    while (vp_now() - t < 20) { if (consumed() >= (long)made) return 1; vp_nap(100); }
    VIOL("stall", "%ld of %u pulses taken", consumed(), made);
    return 0;
}
static void vp_case(uint64_t index) {
    static int once;
    if (!once++) RKSetRootDataFolder(vp_scratch);
    vp_jitter = ri(3); vp_jit = r64();
    int async = index % 3 == 1, faulty = index % 7 == 5;
    memset(&desc, 0, sizeof(desc)); memset(cfgs, 0, sizeof(cfgs)); memset(seen, 0, sizeof(seen));
    D = rr(20, 300); cap = 16 * rr(1, 20);
    desc.pulseBufferDepth = D; desc.pulseCapacity = cap; desc.pulseToRayRatio = rr(1, 4); desc.wavelength = 0.03; desc.latitude = rf(-90, 90);
    snprintf(desc.name, sizeof(desc.name), "radar-%u", ri(1000));
    snprintf(desc.filePrefix, sizeof(desc.filePrefix), "%.*s", (int)rr(1, RKMaximumPrefixLength - 1), "PXPXPXPXPX");
    snprintf(desc.dataPath, sizeof(desc.dataPath), "%s/c%llu", vp_scratch, (unsigned long long)index);
    for (int k = 0; k < 10; k++) {
        int c = rr(1, 3);
        wave[k] = RKWaveformInitWithCountAndDepth(c, rr(2, 60));
        snprintf(wave[k]->name, sizeof(RKName), "w%u", ri(100000));
        wave[k]->fs = rf(1e6, 1e8); wave[k]->fc = rf(0, 1e6);
        for (int g = 0; g < c; g++) {
            wave[k]->filterCounts[g] = rr(1, 3);
            for (int q = 0; q < (int)wave[k]->filterCounts[g]; q++) { RKFilterAnchor *a = &wave[k]->filterAnchors[g][q]; a->length = rr(1, wave[k]->depth); a->origin = 0; a->maxDataLength = rr(1, 1000); a->filterGain = rn(); a->sensitivityGain = rn(); a->lowerBoundFrequency = -1e6; a->upperBoundFrequency = 1e6; }
            for (int q = 0; q < wave[k]->depth; q++) { wave[k]->samples[g][q].i = rn(); wave[k]->samples[g][q].q = rn(); wave[k]->iSamples[g][q].i = ri(1000); wave[k]->iSamples[g][q].q = ri(1000); }
        }
    }
    RKPulseBufferAlloc(&pulses, cap, D);
    RKBuffer sb;
    RKPulseBufferAlloc(&sb, cap, 1);
    RKPulse *scratch = RKGetPulseFromBuffer(sb, 0);
    cap = scratch->header.capacity;
    pulseIndex = made = released = nfiles = faults = fault_at = opened = 0;
    memset(failed, 0, sizeof(failed));
    last_seen = -1;
    E = RKRawDataRecorderInit();
    uint32_t ci = 0, limit = chance(0.4) ? (uint32_t)rr(1, 100) : chance(0.5) ? 100000 : (uint32_t)rr(50, 500);
    RKRawDataRecorderSetEssentials(E, &desc, (RKFileManager *)&desc, cfgs, &ci, pulses, &pulseIndex);
    RKRawDataRecorderSetCacheSize(E, chance(0.3) ? (uint32_t)rr(1, 500) : chance(0.5) ? (uint32_t)rr(500, 20000) : 1024 * 1024);
    RKRawDataRecorderSetMaximumRecordDepth(E, limit);
    type_of_run = chance(0.5) ? RKRawDataTypeFromTransceiver : RKRawDataTypeAfterMatchedFilter;
    RKRawDataRecorderSetRawDataType(E, type_of_run);
    int on = chance(0.5);
    RKRawDataRecorderSetRecord(E, on);
    // The model of files for changes made while the recorder is idle
    static uint32_t wantfirst[MAXF], wantn[MAXF];
    int nwant = 0, open_ = 0, prevcfg = -1, prevon = on;
    uint32_t run = 0;
    uint64_t cid = 995 + ri(20);
    int cn = -1;
    RKRawDataRecorderStart(E);
    int total = rr(10, chance(0.1) ? 3000 : 600);
    struct timeval now = {1200000000 + ri(500000000), ri(1000000)};
    int ok = 1, toggles = 0;
    for (int k = 0; k < total && ok; k++) {
        // Within the depth of the buffer
        double t0 = vp_now();
        if (made - released > D / 4) release_to(made);
        if (made - consumed() > D * 2 / 3) release_to(made);
        while (made - consumed() > D * 2 / 3 && vp_now() - t0 < 20) vp_nap(50);
        if (made - consumed() > D * 2 / 3) { VIOL("stall", "%ld of %u pulses taken", consumed(), made); ok = 0; break; }
        if (chance(async ? 0.02 : 0.01)) {
            if (!async) { if (!wait_idle()) { ok = 0; break; } on = !on; RKRawDataRecorderSetRecord(E, on); }
            else {
                uint32_t from = consumed() > 0 ? consumed() - 1 : 0;
                RKRawDataRecorderSetRecord(E, !on);
                for (uint32_t i = from; i < made; i++) if (P[i].on != !on) P[i].on = 2;
                on = !on;
            }
            toggles++;
        }
        if (cn < 0 || chance(0.01)) {
            // A new configuration; its slot is only reused after the old pulses are gone
            if (!wait_idle()) { ok = 0; break; }
            cn++;
            RKConfig *c = &cfgs[cn % 10];
            memset(c, 0, sizeof(*c));
            c->i = cid++; c->sweepElevation = rf(0, 90); c->sweepAzimuth = rf(0, 360); c->prt[0] = rf(1e-4, 1e-2); c->pw[0] = rf(1e-7, 1e-4); c->noise[0] = ru(); c->waveform = wave[wave_of[cn] = ri(10)];
            snprintf(c->waveformName, sizeof(c->waveformName), "%s", c->waveform->name);
            used_cfg[cn] = *c;
        }
        RKPulse *p = RKGetVacantPulseFromBuffer(pulses, &ci, D);
        if (p != RKGetPulseFromBuffer(pulses, made % D)) VIOL("harness", "slot");
        p->header.i = made; p->header.n = r64(); p->header.t = r64(); p->header.gateCount = chance(0.1) ? 0 : rr(1, cap); p->header.downSampledGateCount = p->header.gateCount / desc.pulseToRayRatio; p->header.marker = ri(128); p->header.pulseWidthSampleCount = ri(100);
        int us = 1000 + ri(3000); now.tv_usec += us; if (now.tv_usec > 999999) { now.tv_usec -= 1000000; now.tv_sec++; }
        p->header.time = now; p->header.timeDouble = now.tv_sec + 1e-6 * now.tv_usec; p->header.configIndex = cn % 10; p->header.gateSizeMeters = rf(1, 300); p->header.elevationDegrees = rf(0, 90); p->header.azimuthDegrees = rf(0, 360); p->header.elevationVelocityDegreesPerSecond = rn(); p->header.azimuthVelocityDegreesPerSecond = rn();
        for (int c = 0; c < 2; c++) {
            RKInt16C *x = RKGetInt16CDataFromPulse(p, c); RKComplex *y = RKGetComplexDataFromPulse(p, c);
            for (uint32_t g = 0; g < p->header.gateCount; g++) { uint64_t r = r64(); x[g].i = r; x[g].q = r >> 16; y[g].i = (float)(int16_t)(r >> 32); y[g].q = (float)(int16_t)(r >> 48); }
        }
        P[made].h = p->header; P[made].crc = crc(p, type_of_run); P[made].on = on; cfg_no[made] = cn;
        int rec = cfgs[cn % 10].i > 1003;
        if (!rec) P[made].on = 0;
        if (prevcfg != cn || run >= limit || prevon != on) {
            open_ = on && rec; run = 0;
            if (open_ && nwant < MAXF) { wantfirst[nwant] = made; wantn[nwant++] = 0; }
        }
        if (open_) wantn[nwant - 1]++;
        run++; prevcfg = cn; prevon = on;
        if (faulty && !fault_at && !faults && chance(0.02)) fault_at = chance(0.3) ? -1 : 1 + (int)ri(3);
        if (chance(0.2)) vp_perturb();
        if (p->header.s != RKPulseStatusVacant) VIOL("under-way", "pulse %u is changed to 0x%x while it is being made", made, p->header.s);
        made++;
        if (chance(0.9)) {
            p->header.azimuthDegrees = -1; memset(&p->header.rawAzimuth, 0, sizeof(p->header.rawAzimuth)); p->header.marker = RKMarkerNull; p->header.configIndex = ri(10); p->header.elevationVelocityDegreesPerSecond = 0;
            stat_add("finished_late", 1);
        }
        pulseIndex = made % D;
        __sync_fetch_and_or(&p->header.s, chance(0.5) ? RKPulseStatusHasIQData : RKPulseStatusHasIQData | RKPulseStatusProcessed | RKPulseStatusReadyForMomentEngine);
        if (chance(0.3)) vp_perturb();
        release_to(chance(0.5) ? made : made > 3 ? made - ri(4) : made);
    }
    int early = chance(0.2);
    uint32_t certain = made;
    if (ok && !early) wait_idle();
    else { release_to(made); certain = consumed() > 0 ? consumed() - 1 : 0; }
    double t = vp_now();
    RKRawDataRecorderStop(E);
    if (vp_now() - t > 20) VIOL("stop", "stopping took %.1f s", vp_now() - t);
    uint32_t found = 0;
    if (ok) {
        // The files that are expected: all segments but those that could not be opened
        int seg = 0, hit = 0;
        for (int k = 0; k < nfiles && k < MAXF; k++, seg++) {
            while (seg < MAXF && failed[seg] == 2) { if (!async && seg < nwant) for (uint32_t i = 0; i < wantn[seg]; i++) P[wantfirst[seg] + i].on = 2; seg++; hit++; }
            if (failed[seg]) { hit++; if (!async && seg < nwant) for (uint32_t i = 0; i < wantn[seg]; i++) P[wantfirst[seg] + i].on = 2; continue; }
            uint32_t n = got_file(files[k], limit, scratch);
            found += n;
            if (!async && n) {
                if (seg >= nwant || (n != wantn[seg] && !(early && k == nfiles - 1)) || !seen[wantfirst[seg]]) VIOL("files", "file %d has %u pulses, expected %u from %u", k, n, seg < nwant ? wantn[seg] : 0, seg < nwant ? wantfirst[seg] : 0);
            }
        }
        for (; seg < MAXF && failed[seg] == 2; seg++) { hit++; if (!async && seg < nwant) for (uint32_t i = 0; i < wantn[seg]; i++) P[wantfirst[seg] + i].on = 2; }
        if (!async && seg != nwant && !early) VIOL("files", "%d files expected %d", seg, nwant);
        for (uint32_t i = 0; i < certain; i++) {
            if (P[i].on == 1 && !seen[i] && !(faults && async)) { VIOL("lost", "pulse %u of %u is in none of %d files", i, made, nfiles); break; }
            if (P[i].on == 0 && seen[i]) { VIOL("unwanted", "pulse %u is in a file though recording was off", i); break; }
        }
        stat_add("runs_compared", 1);
        if (faults) stat_add("write_faults", faults);
        if (hit != faults) VIOL("harness", "%d segments hit by %d faults", hit, faults);
    }
    stat_add("pulses", made); stat_add("toggles", toggles); stat_add("files", nfiles);
    if (early) stat_add("stopped_busy", 1);
    DISTINCTF("%u/%u/%d/%d/%u/%d/%d", D, cap, type_of_run, async, limit, nfiles, early);
    if (index < 2) sample("%u pulses, %d files holding %u pulses, cache %u bytes, %d changes", made, nfiles, found, E->cacheSize, toggles);
    RKRawDataRecorderFree(E);
    free(pulses); free(sb);
    for (int k = 0; k < 10; k++) RKWaveformFree(wave[k]);
    char cmd[600];
    snprintf(cmd, sizeof(cmd), "rm -rf '%s'", desc.dataPath);
    if (system(cmd)) {}
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
