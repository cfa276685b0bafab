// Product files: what is written is what a NetCDF reader finds and what the readers of RadarKit return; odd files are read within bounds
#include "vp.h"
#include <netcdf.h>

static const char *SYM[] = {"Z", "V", "W", "D", "P", "R", "K", "Sh", "Sv", "Q", "Lh", "Lv", "Rxh", "Rxv", "Pxh", "Pxv"};
static const char *NAME[] = {"Intensity", "Radial_Velocity", "Width", "Differential_Reflectivity", "PhiDP", "RhoHV", "KDP"};
static const char *TXT = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
static int fixed_dims;
static uint32_t fixed_rays, fixed_gates;

static void text(char *d, int max, int min) {
    int n = chance(0.1) ? max : chance(0.1) ? min : rr(min, max < 24 ? max : 24);
    for (int i = 0; i < n; i++) d[i] = TXT[ri(i ? 63 : 52)];
    d[n] = 0;
}
static float val(void) {
    int k = ri(40);
    if (k == 0) return NAN;
    if (k == 1) return chance(0.5) ? INFINITY : -INFINITY;
    if (k == 2) return W2_MISSING_DATA;
    if (k == 3) return W2_RANGE_FOLDED;
    if (k == 4) return 0;
    return (float)rf(-200, 200);
}
typedef struct { RKProductDesc desc; RKProductHeader h; float *sa, *ea, *se, *ee, *data; } Rec;
static void rec_free(Rec *r) { free(r->sa); free(r->ea); free(r->se); free(r->ee); free(r->data); memset(r, 0, sizeof(*r)); }
static float *dupf(const float *x, size_t n) { float *y = malloc(n * 4 + 4); memcpy(y, x, n * 4); return y; }

static RKProduct *make(void) {
    RKProduct *p;
    uint32_t rays = fixed_dims ? fixed_rays : chance(0.05) ? RKMaximumRaysPerSweep : chance(0.1) ? 1 : (uint32_t)rr(1, 400), gates = fixed_dims ? fixed_gates : chance(0.1) ? 1 : (uint32_t)rr(1, rays > 500 ? 40 : 120);
    RKProductBufferAlloc(&p, 1, rays, gates);
    text(p->desc.name, RKNameLength - 1, 1); text(p->desc.unit, RKNameLength - 1, 1); text(p->desc.colormap, RKNameLength - 1, 1);
    RKProductHeader *h = &p->header;
    text(h->radarName, RKNameLength - 1, 1); text(h->waveformName, RKNameLength - 1, 1); text(h->vcpDefinition, RKMaximumCommandLength - 1, 1);
    h->latitude = rf(-90, 90); h->longitude = rf(-180, 180); h->heading = rf(0, 360); h->radarHeight = rf(-100, 4000); h->wavelength = rf(0.002, 1);
    h->sweepElevation = rf(-5, 95); h->sweepAzimuth = rf(0, 360); h->gateSizeMeters = rf(0.1, 1000);
    h->startTime = 1 + (time_t)(ru() * 2147483646.0); h->endTime = h->startTime + 20;
    int k = ri(3);
    h->isPPI = k == 0; h->isRHI = k == 1;
    for (int i = 0; i < RKMaximumFilterCount; i++) { h->prt[i] = 1.0f / rr(1, 20000); h->pw[i] = rf(1e-8, 2e-4); h->DCal[i] = rn(); h->PCal[i] = rn(); for (int j = 0; j < 2; j++) h->ZCal[i][j] = 50 * rn(); }
    if (chance(0.3)) h->prt[0] = rf(5e-5, 1e-2);
    for (int j = 0; j < 2; j++) { h->noise[j] = rf(0, 1e4); h->systemZCal[j] = 50 * rn(); }
    h->systemDCal = rn(); h->systemPCal = rn(); h->SNRThreshold = rn() * 5; h->SQIThreshold = ru();
    for (uint32_t i = 0; i < rays; i++) { p->startAzimuth[i] = rf(0, 360); p->endAzimuth[i] = fmodf(p->startAzimuth[i] + rf(-2, 2) + 360, 360); p->startElevation[i] = rf(-5, 95); p->endElevation[i] = p->startElevation[i] + rf(-2, 2); }
    for (size_t i = 0; i < (size_t)rays * gates; i++) p->data[i] = val();
    return p;
}
static Rec snap(const RKProduct *p) {
    uint32_t n = p->header.rayCount;
    Rec r = {p->desc, p->header, dupf(p->startAzimuth, n), dupf(p->endAzimuth, n), dupf(p->startElevation, n), dupf(p->endElevation, n), dupf(p->data, (size_t)n * p->header.gateCount)};
    return r;
}
static double minimal(double m, double s) { double d = fabs(m - s); return d > 180 ? 360 - d : d; }

// An independent look at the file
static void inspect(const char *file, const Rec *r) {
    int nc, id, dims[2];
    char b[2048];
    size_t n;
    if (nc_open(file, NC_NOWRITE, &nc)) { VIOL("file", "%s is not a NetCDF file", file); return; }
    const char *dim = r->h.isPPI ? "Azimuth" : r->h.isRHI ? "Elevation" : "Beam";
    if (nc_inq_dimid(nc, dim, &dims[0]) || nc_inq_dimlen(nc, dims[0], &n) || n != r->h.rayCount) VIOL("file-dim", "dimension %s of %u rays", dim, r->h.rayCount);
    if (nc_inq_dimid(nc, "Gate", &dims[1]) || nc_inq_dimlen(nc, dims[1], &n) || n != r->h.gateCount) VIOL("file-dim", "dimension Gate of %u gates", r->h.gateCount);
#define TEXT(att, v) do { if (nc_inq_attlen(nc, NC_GLOBAL, att, &n) || n >= sizeof(b)) VIOL("file-text", "no attribute %s", att); else { nc_get_att_text(nc, NC_GLOBAL, att, b); b[n] = 0; if (strcmp(b, v)) VIOL("file-text", "%s is '%s' expected '%s'", att, b, v); } } while (0)
    TEXT("TypeName", r->desc.name); TEXT("DataType", "RadialSet"); TEXT("ScanType", r->h.isPPI ? "PPI" : r->h.isRHI ? "RHI" : "Unknown");
    TEXT("Unit-value", r->desc.unit); TEXT("ColorMap-value", r->desc.colormap); TEXT("radarName-value", r->h.radarName); TEXT("Waveform", r->h.waveformName);
    TEXT("RadarKit-VCP-Definition", r->h.vcpDefinition); TEXT("PulseWidth-unit", "MicroSeconds"); TEXT("PRF-unit", "Hertz"); TEXT("MaximumRange-unit", "KiloMeters");
#define NUM(att, v, rel) do { double x; if (nc_get_att_double(nc, NC_GLOBAL, att, &x) || !close_to(x, v, 0, rel)) VIOL("file-number", "%s is %.9g expected %.9g", att, x, (double)(v)); } while (0)
    NUM("Latitude", r->h.latitude, 1e-6); NUM("LatitudeDouble", r->h.latitude, 0); NUM("Longitude", r->h.longitude, 1e-6); NUM("LongitudeDouble", r->h.longitude, 0);
    NUM("Heading", r->h.heading, 0); NUM("Height", r->h.radarHeight, 0); NUM("Time", r->h.startTime, 0); NUM("FractionalTime", 0, 0); NUM("Wavelength-value", r->h.wavelength, 0);
    NUM("Nyquist_Vel-value", 0.25 * r->h.wavelength / r->h.prt[0], 1e-6); NUM("GateSize", r->h.gateSizeMeters, 0); NUM("RangeToFirstGate", 0, 0);
    NUM("Elevation", r->h.isPPI ? r->h.sweepElevation : W2_MISSING_DATA, 0); NUM("Azimuth", r->h.isRHI ? r->h.sweepAzimuth : W2_MISSING_DATA, 0);
    NUM("MissingData", W2_MISSING_DATA, 0); NUM("RangeFolded", W2_RANGE_FOLDED, 0); NUM("PulseWidth-value", 1e6 * r->h.pw[0], 1e-6); NUM("MaximumRange-value", 1e-3 * r->h.gateSizeMeters * r->h.gateCount, 1e-6);
    double prf, want = 1.0 / r->h.prt[0];
    if (nc_get_att_double(nc, NC_GLOBAL, "PRF-value", &prf) || fabs(prf - want) > 0.501 + 1e-6 * want) VIOL("file-number", "PRF %.9g of a PRT of %.9g s", prf, r->h.prt[0]);
    NUM("NoiseH-ADU", r->h.noise[0], 0); NUM("NoiseV-ADU", r->h.noise[1], 0); NUM("SystemZCalH-dB", r->h.systemZCal[0], 0); NUM("SystemZCalV-dB", r->h.systemZCal[1], 0);
    NUM("SystemDCal-dB", r->h.systemDCal, 0); NUM("SystemPCal-Radians", r->h.systemPCal, 0);
    NUM("ZCalH1-dB", r->h.ZCal[0][0], 0); NUM("ZCalV1-dB", r->h.ZCal[0][1], 0); NUM("ZCalH2-dB", r->h.ZCal[1][0], 0); NUM("ZCalV2-dB", r->h.ZCal[1][1], 0);
    NUM("DCal1-dB", r->h.DCal[0], 0); NUM("DCal2-dB", r->h.DCal[1], 0); NUM("PCal1-Radians", r->h.PCal[0], 0); NUM("PCal2-Radians", r->h.PCal[1], 0);
    NUM("SNRThreshold-dB", r->h.SNRThreshold, 0); NUM("SQIThreshold-dB", r->h.SQIThreshold, 0);
    // The arrays
    uint32_t R = r->h.rayCount, G = r->h.gateCount;
    float *x = malloc((size_t)R * G * 4 + R * 4);
    int rank = 0, vd[8] = {-1, -1};
#define ARR(name, k) (nc_inq_varid(nc, name, &id) || nc_inq_varndims(nc, id, &rank) || rank != k || nc_inq_vardimid(nc, id, vd) || vd[0] != dims[0] || (k == 2 && vd[1] != dims[1]) || nc_get_var_float(nc, id, x))
    if (ARR("Azimuth", 1)) VIOL("file-array", "no array Azimuth"); else if (memcmp(x, r->sa, R * 4)) VIOL("file-array", "Azimuth differs");
    if (ARR("Elevation", 1)) VIOL("file-array", "no array Elevation"); else if (memcmp(x, r->se, R * 4)) VIOL("file-array", "Elevation differs");
    if (ARR("GateWidth", 1)) VIOL("file-array", "no array GateWidth"); else for (uint32_t i = 0; i < R; i++) if (x[i] != r->h.gateSizeMeters) { VIOL("file-array", "GateWidth %u is %g", i, x[i]); break; }
    if (ARR("Beamwidth", 1)) VIOL("file-array", "no array Beamwidth");
    else for (uint32_t i = 0; i < R; i++) {
        double w = r->h.isPPI ? minimal(r->ea[i], r->sa[i]) : r->h.isRHI ? fabs(r->ee[i] - r->se[i]) : 0;
        if (!close_to(x[i], w, 1e-4, 1e-5)) { VIOL("file-array", "Beamwidth %u is %g expected %g", i, x[i], w); break; }
    }
    if (ARR(r->desc.name, 2)) VIOL("file-array", "no array %s", r->desc.name);
    else for (size_t i = 0; i < (size_t)R * G; i++) {
        float w = isfinite(r->data[i]) ? r->data[i] : (float)W2_MISSING_DATA;
        if (x[i] != w) { VIOL("file-data", "ray %zu gate %zu is %g expected %g", i / G, i % G, x[i], w); break; }
    }
    free(x);
    nc_close(nc);
    stat_add("files_inspected", 1);
}
static float seen(float v) { return !isfinite(v) || v == (float)W2_MISSING_DATA || v == (float)W2_RANGE_FOLDED ? NAN : v; }
static void compare(const RKProduct *q, const Rec *r, const char *symbol, const char *how) {
    const RKProductHeader *a = &q->header, *b = &r->h;
    if (a->rayCount != b->rayCount || a->gateCount != b->gateCount) { VIOL("read-dim", "%s: %u x %u read of %u x %u", how, a->rayCount, a->gateCount, b->rayCount, b->gateCount); return; }
#define S(f, v) if (strcmp(f, v)) VIOL("read-text", "%s: " #f " is '%s' expected '%s'", how, f, v)
    S(q->desc.name, r->desc.name); S(q->desc.unit, r->desc.unit); S(q->desc.colormap, r->desc.colormap); S(q->desc.symbol, symbol);
    S(a->radarName, b->radarName); S(a->waveformName, b->waveformName); S(a->vcpDefinition, b->vcpDefinition);
#define N(f, v) if (!((f) == (v))) VIOL("read-number", "%s: " #f " is %.9g expected %.9g", how, (double)(f), (double)(v))
    N(a->latitude, b->latitude); N(a->longitude, b->longitude); N(a->heading, b->heading); N(a->radarHeight, b->radarHeight); N(a->wavelength, b->wavelength);
    N(a->gateSizeMeters, b->gateSizeMeters); N(a->startTime, b->startTime); N(a->isPPI, b->isPPI); N(a->isRHI, b->isRHI);
    if (b->isPPI) N(a->sweepElevation, b->sweepElevation);
    if (b->isRHI) N(a->sweepAzimuth, b->sweepAzimuth);
    for (int i = 0; i < 2; i++) { N(a->noise[i], b->noise[i]); N(a->systemZCal[i], b->systemZCal[i]); N(a->DCal[i], b->DCal[i]); N(a->PCal[i], b->PCal[i]); N(a->ZCal[i][0], b->ZCal[i][0]); N(a->ZCal[i][1], b->ZCal[i][1]); }
    N(a->systemDCal, b->systemDCal); N(a->systemPCal, b->systemPCal); N(a->SNRThreshold, b->SNRThreshold); N(a->SQIThreshold, b->SQIThreshold);
    if (!close_to(a->pw[0], b->pw[0], 0, 1e-6)) VIOL("read-number", "%s: pulse width %g expected %g", how, a->pw[0], b->pw[0]);
    if (!close_to(1.0 / a->prt[0], 1.0 / b->prt[0], 0.51, 1e-5)) VIOL("read-number", "%s: PRT %g expected %g", how, a->prt[0], b->prt[0]);
    uint32_t R = b->rayCount;
    if (memcmp(q->startAzimuth, r->sa, R * 4)) VIOL("read-array", "%s: azimuths differ", how);
    if (memcmp(q->startElevation, r->se, R * 4)) VIOL("read-array", "%s: elevations differ", how);
    for (size_t i = 0; i < (size_t)R * b->gateCount; i++) {
        float w = seen(r->data[i]);
        if (!(isnan(w) ? isnan(q->data[i]) : q->data[i] == w)) { VIOL("read-data", "%s: ray %zu gate %zu is %g expected %g", how, i / b->gateCount, i % b->gateCount, q->data[i], w); break; }
    }
    stat_add("values_compared", (double)R * b->gateCount);
}

static void trip(uint64_t index) {
    RKProduct *p = make();
    char file[600], stem[300];
    const char *sym = SYM[ri(16)];
    snprintf(stem, sizeof(stem), "%s/d%d/PX-20260101-%06u-E%d.%d", vp_scratch, (int)ri(3), ri(1000000), (int)ri(90), (int)ri(10));
    snprintf(file, sizeof(file), "%s-%s.nc", stem, sym);
    RKPreparePath(file);
    int bad = ri(12), r;
    Rec rec;
    if (bad < 5) {
        int want = 0;
        if (bad == 0) { p->desc.name[0] = 0; want = RKResultProductDescriptionNotSet; }
        if (bad == 1) { p->header.rayCount = 0; want = RKResultProductDimensionsNotSet; }
        if (bad == 2) { p->header.gateCount = 0; want = RKResultProductDimensionsNotSet; }
        if (bad == 3) { p->header.startTime = 0; want = RKResultProductStartTimeNotSet; }
        if (bad == 4) { p->header.gateSizeMeters = 0; want = RKResultProductGateSizeNotSet; }
        r = RKProductFileWriterNC(p, file);
        if (r != want) VIOL("refuse", "an incomplete product (%d) is answered with %d expected %d", bad, r, want);
        if (access(file, F_OK) == 0) VIOL("refuse", "an incomplete product (%d) leaves a file", bad);
        stat_add("incomplete_refused", 1);
        RKProductBufferFree(p, 1);
        return;
    }
    rec = snap(p);
    r = RKProductFileWriterNC(p, file);
    if (r != RKResultSuccess) VIOL("write", "writing returned %d", r);
    for (size_t i = 0; i < (size_t)rec.h.rayCount * rec.h.gateCount; i++) if (isfinite(rec.data[i]) ? p->data[i] != rec.data[i] : isfinite(p->data[i]) && p->data[i] != (float)W2_MISSING_DATA) { VIOL("write-changed", "writing changes value %zu from %g to %g", i, rec.data[i], p->data[i]); break; }
    inspect(file, &rec);
    uint32_t R = 0, G = 0;
    RKProductDimensionsFromFile(file, &R, &G);
    if (R != rec.h.rayCount || G != rec.h.gateCount) VIOL("read-dim", "dimensions %u x %u of %u x %u", R, G, rec.h.rayCount, rec.h.gateCount);
    RKProduct *q = RKProductFileReaderNC(file, false);
    if (!q) VIOL("read", "reading returned nothing");
    else { compare(q, &rec, sym, "reader"); RKProductBufferFree(q, 1); }
    // Written again over itself with something else
    if (chance(0.3)) {
        RKProductBufferFree(p, 1);
        rec_free(&rec);
        p = make();
        rec = snap(p);
        RKProductFileWriterNC(p, file);
        inspect(file, &rec);
        stat_add("overwritten", 1);
    }
    unlink(file);
    DISTINCTF("%u/%u/%d%d/%s", rec.h.rayCount / 8, rec.h.gateCount / 8, rec.h.isPPI, rec.h.isRHI, sym);
    if (index < 2) sample("%u x %u product '%s' (%s) written, inspected and read", rec.h.rayCount, rec.h.gateCount, rec.desc.name, sym);
    rec_free(&rec);
    RKProductBufferFree(p, 1);
}

// The files of one sweep, read as a sweep and as a collection
static void together(uint64_t index) {
    Rec rec[16];
    int have[16] = {0}, count = 0;
    char stem[300], file[600];
    snprintf(stem, sizeof(stem), "%s/s%llu/PX-20260101-%06u-%s%d.%d", vp_scratch, (unsigned long long)index, ri(1000000), chance(0.5) ? "E" : "A", (int)ri(90), (int)ri(10));
    fixed_dims = 1; fixed_rays = rr(1, 200); fixed_gates = rr(1, 200);
    RKProduct *p = make();
    RKProductHeader h = p->header;
    RKProductBufferFree(p, 1);
    int all = chance(0.3);
    for (int k = 0; k < (all ? 16 : 9); k++) have[k] = all ? chance(0.9) : chance(0.7);
    if (!all && chance(0.2)) memset(have, 0, sizeof(have));
    have[ri(7)] = 1;
    int order[16];
    for (int k = 0; k < 16; k++) order[k] = k;
    for (int k = 15; k; k--) { int j = ri(k + 1), t = order[k]; order[k] = order[j]; order[j] = t; }
    for (int i = 0; i < 16; i++) {
        int k = order[i];
        if (!have[k]) continue;
        p = make();
        p->header = h;
        if (k < 7) strcpy(p->desc.name, NAME[k]);
        rec[k] = snap(p);
        snprintf(file, sizeof(file), "%s-%s.nc", stem, SYM[k]);
        RKPreparePath(file);
        if (RKProductFileWriterNC(p, file)) VIOL("write", "writing failed");
        RKProductBufferFree(p, 1);
        count++;
    }
    fixed_dims = 0;
    if (chance(0.5)) {      // neighbours: another sweep, another kind of file
        snprintf(file, sizeof(file), "%s/s%llu/PX-20260101-9999999-E1.0-Z.nc", vp_scratch, (unsigned long long)index);
        FILE *f = fopen(file, "w"); if (f) fclose(f);
        snprintf(file, sizeof(file), "%s-Z.txt", stem);
        f = fopen(file, "w"); if (f) fclose(f);
    }
    int first;
    do first = ri(16); while (!have[first]);
    snprintf(file, sizeof(file), "%s-%s.nc", stem, SYM[first]);
    // A sweep has the seven base moments
    RKSweep *s = RKSweepFileRead(file);
    if (!s) VIOL("sweep", "no sweep read from %s", file);
    else {
        RKBaseProductList want = 0;
        for (int k = 0; k < 7; k++) if (have[k]) want |= RKBaseProductListFloatZ << k;
        if (s->header.baseProductList != want) VIOL("sweep", "sweep has products 0x%x expected 0x%x", s->header.baseProductList, want);
        if (s->header.rayCount != h.rayCount || s->header.gateCount != h.gateCount) VIOL("sweep", "sweep of %u x %u expected %u x %u", s->header.rayCount, s->header.gateCount, h.rayCount, h.gateCount);
        else {
            int k0 = 0;
            while (!have[k0]) k0++;
            if (strcmp(s->header.desc.name, h.radarName)) VIOL("sweep", "radar name '%s' expected '%s'", s->header.desc.name, h.radarName);
            if (s->header.desc.latitude != h.latitude || s->header.desc.longitude != h.longitude || s->header.desc.heading != h.heading || s->header.desc.radarHeight != h.radarHeight) VIOL("sweep", "position of the radar differs");
            if (s->header.gateSizeMeters != h.gateSizeMeters) VIOL("sweep", "gate size %g expected %g", s->header.gateSizeMeters, h.gateSizeMeters);
            if (h.isPPI && s->header.config.sweepElevation != h.sweepElevation) VIOL("sweep", "sweep elevation %g expected %g", s->header.config.sweepElevation, h.sweepElevation);
            if (h.isRHI && s->header.config.sweepAzimuth != h.sweepAzimuth) VIOL("sweep", "sweep azimuth %g expected %g", s->header.config.sweepAzimuth, h.sweepAzimuth);
            RKMarker mk = h.isPPI ? RKMarkerScanTypePPI : h.isRHI ? RKMarkerScanTypeRHI : 0;
            if ((s->header.config.startMarker & RKMarkerScanTypeMask) != mk) VIOL("sweep", "scan type 0x%x expected 0x%x", s->header.config.startMarker & RKMarkerScanTypeMask, mk);
            for (uint32_t j = 0; j < h.rayCount; j++) {
                RKRay *ray = s->rays[j];
                if (ray != RKGetRayFromBuffer(s->rayBuffer, j)) { VIOL("sweep", "ray %u is not in the buffer of the sweep", j); break; }
                if (ray->header.startAzimuth != rec[k0].sa[j] || ray->header.startElevation != rec[k0].se[j] || ray->header.gateCount != h.gateCount || ray->header.gateSizeMeters != h.gateSizeMeters || !(ray->header.s & RKRayStatusReady)) { VIOL("sweep", "header of ray %u differs", j); break; }
                int bad = 0;
                for (int k = 0; k < 7 && !bad; k++) if (have[k]) {
                    float *x = RKGetFloatDataFromRay(ray, k);
                    for (uint32_t g = 0; g < h.gateCount; g++) {
                        float w = seen(rec[k].data[j * h.gateCount + g]);
                        if (!(isnan(w) ? isnan(x[g]) : x[g] == w)) { VIOL("sweep-data", "%s of ray %u gate %u is %g expected %g", SYM[k], j, g, x[g], w); bad = 1; break; }
                    }
                }
                if (bad) break;
            }
        }
        RKSweepFree(s);
        stat_add("sweeps_read", 1);
    }
    RKProductCollection *c = RKProductCollectionInitWithFilename(file);
    if (!c) VIOL("collection", "no collection read from %s", file);
    else {
        if ((int)c->count != count) VIOL("collection", "%u products of %d files", c->count, count);
        int got[16] = {0};
        for (uint32_t i = 0; i < c->count; i++) {
            int k;
            for (k = 0; k < 16; k++) if (!strcmp(SYM[k], c->products[i].desc.symbol)) break;
            if (k == 16 || !have[k] || got[k]++) { VIOL("collection", "product %u has symbol '%s'", i, c->products[i].desc.symbol); continue; }
            compare(&c->products[i], &rec[k], SYM[k], "collection");
        }
        for (int k = 0; k < 7 && have[k] && k < (int)c->count; k++) if (strcmp(c->products[k].desc.symbol, SYM[k])) VIOL("collection", "product %d is '%s' expected '%s'", k, c->products[k].desc.symbol, SYM[k]);
        RKProductCollectionFree(c);
        stat_add("collections_read", 1);
    }
    DISTINCTF("t%u/%u/%d/%d", h.rayCount / 8, h.gateCount / 8, count, first);
    for (int k = 0; k < 16; k++) if (have[k]) { rec_free(&rec[k]); snprintf(file, sizeof(file), "%s-%s.nc", stem, SYM[k]); unlink(file); }
}

// Files of another making: other ranks, types, lengths, dimensions, missing or damaged parts
static void odd(uint64_t index) {
    char file[600];
    snprintf(file, sizeof(file), "%s/PX-20260101-000000-E1.0-%s.nc", vp_scratch, SYM[ri(7)]);
    int nc, dims[6], nd = 0, id;
    if (nc_create(file, NC_CLOBBER, &nc)) { VIOL("harness", "cannot create"); return; }
    size_t rays = chance(0.1) ? RKMaximumRaysPerSweep + ri(600) : chance(0.05) ? 0 : rr(1, 300), gates = chance(0.03) ? RKMaximumGateCount + ri(1000) : chance(0.05) ? 0 : rr(1, 300);
    if (gates > 1000) rays = rr(1, 3);
    const char *RD[] = {"Azimuth", "azimuth", "Elevation", "elevation", "Beam", "beam", "Ray"}, *GD[] = {"Gate", "gate", "Range"};
    nc_def_dim(nc, RD[ri(chance(0.1) ? 7 : 6)], rays, &dims[nd++]);
    nc_def_dim(nc, GD[ri(chance(0.1) ? 3 : 2)], gates, &dims[nd++]);
    nc_def_dim(nc, "x", rr(1, 4), &dims[nd++]);
    nc_def_dim(nc, "y", rr(1, gates > 1000 ? 10 : 700), &dims[nd++]);
    const char *TA[] = {"TypeName", "Unit-value", "ColorMap-value", "ScanType", "radarName-value", "Waveform", "RadarKit-VCP-Definition", "PulseWidth-unit"};
    const char *NA[] = {"LatitudeDouble", "Latitude", "LongitudeDouble", "Longitude", "Heading", "Height", "Elevation", "Azimuth", "GateSize", "Time", "Wavelength-value", "PRF-value", "Nyquist_Vel-value", "PulseWidth-value", "NoiseH-ADU", "NoiseV-ADU",
        "SystemZCalH-dB", "SystemZCalV-dB", "SystemDCal-dB", "SystemPCal-Radians", "ZCalH1-dB", "ZCalH2-dB", "ZCalV1-dB", "ZCalV2-dB", "DCal1-dB", "DCal2-dB", "PCal1-Radians", "PCal2-Radians", "SNRThreshold-dB", "SQIThreshold-dB"};
    static char big[8192];
    double v[64];
    for (int i = 0; i < 64; i++) v[i] = rf(-1000, 1000);
    char tname[NC_MAX_NAME + 1] = "";
    int oddities = 0;
    for (int i = 0; i < 8; i++) {
        int k = ri(10);
        if (k == 0) { oddities++; continue; }
        if (k == 1) { nc_put_att_double(nc, NC_GLOBAL, TA[i], NC_DOUBLE, rr(1, 64), v); oddities++; continue; }
        size_t n = k < 4 ? (size_t)rr(0, 6000) : (size_t)rr(1, 20);
        if (n > 500) oddities++;
        for (size_t j = 0; j < n; j++) big[j] = TXT[ri(j ? 63 : 52)];
        if (i == 3 && k > 4) { n = 3; memcpy(big, chance(0.5) ? "PPI" : "RHI", 3); }
        if (i == 0 && k > 4 ) { int m = ri(7); n = strlen(NAME[m]); memcpy(big, NAME[m], n); }
        if (i == 7 && k > 4) { n = 12; memcpy(big, "Microseconds", 12); }
        nc_put_att_text(nc, NC_GLOBAL, TA[i], n, big);
        if (i == 0) snprintf(tname, n + 1 < sizeof(tname) ? n + 1 : sizeof(tname), "%s", big);
    }
    for (size_t i = 0; i < sizeof(NA) / sizeof(*NA); i++) {
        int k = ri(12);
        if (k == 0) { oddities++; continue; }
        if (k == 1) { nc_put_att_text(nc, NC_GLOBAL, NA[i], 5, "12.50"); oddities++; continue; }
        size_t n = k == 2 ? (size_t)rr(2, 64) : 1;
        if (n > 1) oddities++;
        double vv = i == 11 ? chance(0.2) ? 0 : rr(1, 5000) : v[i % 64];
        double tmp[64];
        memcpy(tmp, v, sizeof(v));
        tmp[0] = i == 8 && chance(0.3) ? 0 : vv;
        nc_put_att_double(nc, NC_GLOBAL, NA[i], k < 5 ? NC_DOUBLE : k < 7 ? NC_INT : NC_FLOAT, n, tmp);
    }
    const char *VA[] = {"Elevation", "elevation", "Azimuth", "azimuth", "GateWidth", "gatewidth", "BeamWidth", "beamwidth"};
    char names[24][NC_MAX_NAME + 1];
    int ids[24], nv = 0;
    for (int i = 0; i < 8; i++) if (chance(0.6)) strcpy(names[nv++], VA[i]);
    for (int i = 0; i < 7; i++) if (chance(0.6)) strcpy(names[nv++], NAME[i]);
    if (tname[0] && chance(0.5)) { int dup = 0; for (int i = 0; i < nv; i++) dup |= !strcmp(names[i], tname); if (!dup) strcpy(names[nv++], tname); }
    for (int i = 0; i < nv; i++) {
        int twod = i >= nv - 8 || chance(0.1), k = ri(6), vd[6], rank = twod ? 2 : 1;
        vd[0] = dims[0]; vd[1] = dims[1];
        if (k == 0) { rank = ri(5); for (int j = 0; j < rank; j++) vd[j] = dims[ri(4)]; }
        else if (k == 1) for (int j = 0; j < rank; j++) vd[j] = dims[ri(4)];
        size_t tot = 1, l;
        for (int j = 0; j < rank; j++) { nc_inq_dimlen(nc, vd[j], &l); tot *= l ? l : 1; }
        if (tot > 3000000) rank = 0;
        if (k < 2) oddities++;
        if (nc_def_var(nc, names[i], chance(0.1) ? NC_CHAR : chance(0.2) ? NC_DOUBLE : chance(0.1) ? NC_SHORT : NC_FLOAT, rank, vd, &ids[i])) { nv = i; break; }
    }
    nc_enddef(nc);
    nc_close(nc);
    if (chance(0.3)) {
        struct stat st;
        stat(file, &st);
        if (truncate(file, chance(0.2) ? (off_t)ri(64) : (off_t)ri(st.st_size + 1))) VIOL("harness", "truncate");
        oddities++;
    }
    (void)id;
    RKProduct *p = RKProductFileReaderNC(file, false);
    if (p) {
        if (p->header.rayCount > RKMaximumRaysPerSweep || p->header.gateCount > RKMaximumGateCount) VIOL("odd", "%u x %u product read", p->header.rayCount, p->header.gateCount);
        size_t z = 0;
        for (size_t i = 0; i < (size_t)p->header.rayCount * p->header.gateCount; i++) z += p->data[i] == p->data[i];
        for (size_t i = 0; i < p->header.rayCount; i++) z += p->startAzimuth[i] == p->startAzimuth[i] && p->startElevation[i] == p->startElevation[i];
        if (memchr(p->desc.name, 0, RKNameLength) == NULL || memchr(p->desc.unit, 0, RKNameLength) == NULL || memchr(p->header.radarName, 0, RKNameLength) == NULL || memchr(p->header.vcpDefinition, 0, RKMaximumCommandLength) == NULL) VIOL("odd", "a text without an end");
        RKProductBufferFree(p, 1);
        stat_add("odd_products", 1);
    }
    RKSweep *s = RKSweepFileRead(file);
    if (s) {
        float sum = 0;
        for (uint32_t j = 0; j < s->header.rayCount; j++) for (int k = 0; k < 7; k++) if (s->header.baseProductList & (RKBaseProductListFloatZ << k)) { float *x = RKGetFloatDataFromRay(s->rays[j], k); for (uint32_t g = 0; g < s->header.gateCount; g++) sum += x[g]; }
        volatile float sink = sum; (void)sink;
        RKSweepFree(s);
        stat_add("odd_sweeps", 1);
    }
    stat_add("oddities", oddities);
    DISTINCTF("o%zu/%zu/%d/%d/%d", rays, gates, nv, p != NULL, s != NULL);
    unlink(file);
}
static void vp_case(uint64_t index) {
    static int once;
    if (!once++) RKSetRootDataFolder(vp_scratch);
    static int lowest = -1;
    if (!strcmp(vp_mode, "odd")) odd(index);
    else if (index % 4 == 3) together(index);
    else trip(index);
    // No file is left open
    int fd = open("/dev/null", O_RDONLY);
    if (lowest >= 0 && fd > lowest) VIOL("open-files", "the lowest free descriptor went from %d to %d", lowest, fd);
    lowest = fd;
    close(fd);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
