// The rings of pulses and rays, the scratch spaces of the processors and the command queue.
#include "vp.h"
#include <malloc.h>
#define NAREA (2 + 2 + 4 + RKMomentCount + 2 * RKBaseProductCount)
typedef struct { char *p; size_t n; uint64_t tag; const char *what; int slot; } Area;
static Area *areas;
static int nareas;
static void add(void *p, size_t n, const char *what, int slot) {
    areas[nareas].p = p; areas[nareas].n = n; areas[nareas].what = what; areas[nareas].slot = slot; areas[nareas].tag = r64();
    nareas++;
}
static int by_address(const void *a, const void *b) {
    const Area *x = a, *y = b;
    return x->p < y->p ? -1 : x->p > y->p;
}
static void fill(const Area *a) {
    uint64_t s = a->tag;
    for (size_t i = 0; i < a->n; i += 8) { uint64_t v = vp_mix(&s); memcpy(a->p + i, &v, a->n - i < 8 ? a->n - i : 8); }
}
static int intact(const Area *a, size_t *at) {
    uint64_t s = a->tag;
    for (size_t i = 0; i < a->n; i += 8) { uint64_t v = vp_mix(&s); if (memcmp(a->p + i, &v, a->n - i < 8 ? a->n - i : 8)) { *at = i; return 0; } }
    return 1;
}
// Areas are disjoint, inside the block, aligned where they are for vectors, and hold what is written to them
static void check_areas(const char *kind, char *mem, size_t bytes, int align, uint32_t capacity, uint32_t count) {
    for (int i = 0; i < nareas; i++) {
        if (areas[i].p < mem || areas[i].p + areas[i].n > mem + bytes) {
            VIOL("area", "%s capacity %u count %u: %s of slot %d at %ld, %zu bytes, is outside of the %zu bytes", kind, capacity, count, areas[i].what, areas[i].slot, (long)(areas[i].p - mem), areas[i].n, bytes);
            return;
        }
        if ((uintptr_t)areas[i].p % align) VIOL("align", "%s capacity %u: %s of slot %d is at %p", kind, capacity, areas[i].what, areas[i].slot, areas[i].p);
    }
    qsort(areas, nareas, sizeof(Area), by_address);
    for (int i = 0; i + 1 < nareas; i++) if (areas[i].p + areas[i].n > areas[i + 1].p) {
        VIOL("overlap", "%s capacity %u count %u: %s of slot %d overlaps %s of slot %d", kind, capacity, count, areas[i].what, areas[i].slot, areas[i + 1].what, areas[i + 1].slot);
        return;
    }
    // written in random order, all are intact afterwards
    for (int i = nareas - 1; i > 0; i--) { int j = ri(i + 1); Area t = areas[i]; areas[i] = areas[j]; areas[j] = t; }
    for (int i = 0; i < nareas; i++) fill(&areas[i]);
    for (int i = 0; i < nareas; i++) {
        size_t at;
        if (!intact(&areas[i], &at)) { VIOL("intact", "%s capacity %u count %u: %s of slot %d changed at byte %zu", kind, capacity, count, areas[i].what, areas[i].slot, at); return; }
    }
    stat_add("areas", nareas);
}
static int all_zero(const void *p, size_t n) { const char *c = p; while (n--) if (*c++) return 0; return 1; }
static void *noWrite(size_t n) { char *b = malloc(n); memset(b, 0x5a, n); return b; }

static void pulses(void) {
    const uint32_t mult = RKMemoryAlignSize / sizeof(RKFloat);
    const uint32_t capacity = mult * (chance(0.2) ? 1 : chance(0.5) ? rr(1, 12) : rr(1, 200));
    const uint32_t count = chance(0.2) ? rr(1, 3) : rr(2, capacity > 500 ? 12 : 40);
    RKBuffer mem = NULL;
    if (chance(0.3)) {
        // a capacity that cannot be aligned is refused
        uint32_t odd = capacity + rr(1, mult - 1);
        if (RKPulseBufferAlloc(&mem, odd, count) != 0) VIOL("refuse", "pulse buffer of capacity %u is made", odd);
        if (mem) { VIOL("refuse", "pulse buffer of capacity %u is set", odd); RKPulseBufferFree(mem); }
        if (RKRayBufferAlloc(&mem, odd, count) != 0) VIOL("refuse", "ray buffer of capacity %u is made", odd);
        if (mem) { VIOL("refuse", "ray buffer of capacity %u is set", odd); RKRayBufferFree(mem); }
        mem = NULL;
        stat_add("refused", 1);
    }
    size_t bytes = RKPulseBufferAlloc(&mem, capacity, count);
    if (!mem || !bytes) { VIOL("alloc", "pulse buffer of capacity %u count %u is not made", capacity, count); return; }
    if (bytes % count || (uintptr_t)mem % RKMemoryAlignSize) VIOL("alloc", "pulse buffer of %u slots has %zu bytes at %p", count, bytes, mem);
    areas = calloc((size_t)count * 10, sizeof(Area));
    nareas = 0;
    for (uint32_t k = 0; k < count; k++) {
        RKPulse *p = RKGetPulseFromBuffer(mem, k);
        if (p->header.capacity != capacity) VIOL("capacity", "pulse %u has capacity %u, not %u", k, p->header.capacity, capacity);
        if (p->header.i != (uint64_t)k - count) VIOL("identity", "new pulse %u of %u has i %lld", k, count, (long long)p->header.i);
        if (p->header.s != RKPulseStatusVacant) VIOL("status", "new pulse %u has status %x", k, p->header.s);
        if ((uintptr_t)p->data % RKMemoryAlignSize) VIOL("align", "data of pulse %u at %p", k, p->data);
        add(p, sizeof(p->headerBytes), "header", k);
        for (int c = 0; c < 2; c++) {
            add(RKGetInt16CDataFromPulse(p, c), capacity * sizeof(RKInt16C), c ? "X1" : "X0", k);
            add(RKGetComplexDataFromPulse(p, c), capacity * sizeof(RKComplex), c ? "Y1" : "Y0", k);
            RKIQZ z = RKGetSplitComplexDataFromPulse(p, c);
            add(z.i, capacity * sizeof(RKFloat), c ? "Z1.i" : "Z0.i", k);
            add(z.q, capacity * sizeof(RKFloat), c ? "Z1.q" : "Z0.q", k);
            if (!all_zero(RKGetInt16CDataFromPulse(p, c), capacity * sizeof(RKInt16C)) || !all_zero(RKGetComplexDataFromPulse(p, c), capacity * sizeof(RKComplex)) || !all_zero(z.i, capacity * 4) || !all_zero(z.q, capacity * 4))
                VIOL("fresh", "channel %d of new pulse %u of %u, capacity %u, is not all zero", c, k, count, capacity);
        }
    }
    // headers are looked up while areas are filled: keep them out of the filling
    Area *all = areas;
    int n = nareas, m = 0;
    Area *headers = calloc(count, sizeof(Area)), *data = calloc(n, sizeof(Area));
    for (int i = 0, h = 0; i < n; i++) { if (!strcmp(all[i].what, "header")) headers[h++] = all[i]; else data[m++] = all[i]; }
    {
        Area *both = calloc(n, sizeof(Area));
        memcpy(both, all, n * sizeof(Area));
        qsort(both, n, sizeof(Area), by_address);
        for (int i = 0; i + 1 < n; i++) if (both[i].p + both[i].n > both[i + 1].p) { VIOL("overlap", "pulse buffer capacity %u count %u: %s of slot %d overlaps %s of slot %d", capacity, count, both[i].what, both[i].slot, both[i + 1].what, both[i + 1].slot); break; }
        free(both);
    }
    char *before = malloc(bytes);
    memcpy(before, mem, bytes);
    areas = data; nareas = m;
    check_areas("pulse buffer", mem, bytes, sizeof(RKFloat) * 4, capacity, count);
    for (uint32_t k = 0; k < count; k++) if (memcmp(headers[k].p, before + (headers[k].p - (char *)mem), headers[k].n)) VIOL("header", "the header of pulse %d changed with the data", headers[k].slot);
    free(before);
    // the ring: vacant slots in turn, identities go on, everything else of the slot is left
    uint32_t index = ri(count), at = index;
    uint64_t *id = calloc(count, sizeof(uint64_t));
    for (uint32_t k = 0; k < count; k++) id[k] = RKGetPulseFromBuffer(mem, k)->header.i;
    int turns = rr(1, 3 * count);
    for (int i = 0; i < turns; i++) {
        RKPulse *want = RKGetPulseFromBuffer(mem, at);
        want->header.s = RKPulseStatusReadyForMomentEngine;
        want->header.timeDouble = 1e9 + i;
        want->header.time.tv_sec = 1000 + i;
        want->header.time.tv_usec = 1 + i;
        want->header.positionIndex = i;
        RKPulseHeader kept = want->header;
        RKPulse *p = RKGetVacantPulseFromBuffer(mem, &index, count);
        if (p != want) { VIOL("turn", "vacant pulse of turn %d of %u slots is slot %ld, not %u", i, count, (long)(((char *)p - (char *)mem) / (bytes / count)), at); break; }
        if (p->header.s != RKPulseStatusVacant || p->header.timeDouble != 0 || p->header.time.tv_sec || p->header.time.tv_usec || p->header.positionIndex != (uint32_t)-1) VIOL("vacant", "vacant pulse has status %x time %f %ld.%06ld position %u", p->header.s, p->header.timeDouble, (long)p->header.time.tv_sec, (long)p->header.time.tv_usec, p->header.positionIndex);
        id[at] += count;
        if (p->header.i != id[at]) VIOL("identity", "pulse of turn %d has i %lld, not %lld", i, (long long)p->header.i, (long long)id[at]);
        if (p->header.i != (uint64_t)(p->header.i % count == at % count ? p->header.i : 0) && p->header.i < (1ULL << 60)) VIOL("identity", "pulse i %llu is in slot %u of %u", (unsigned long long)p->header.i, at, count);
        kept.s = p->header.s; kept.timeDouble = p->header.timeDouble; kept.time = p->header.time; kept.positionIndex = p->header.positionIndex; kept.i = p->header.i;
        if (memcmp(&kept, &p->header, sizeof(kept))) VIOL("vacant", "another field of the header of a vacant pulse changed");
        at = (at + 1) % count;
        if (index != at) { VIOL("turn", "the next slot after turn %d is %u, not %u of %u", i, index, at, count); break; }
        stat_add("turns", 1);
    }
    for (int i = 0; i < nareas; i++) { size_t w; if (!intact(&areas[i], &w)) { VIOL("intact", "%s of pulse %d changed while slots were taken", areas[i].what, areas[i].slot); break; } }
    // the split form is the complex form of all gates of the pulse and of no others
    {
        uint32_t k = ri(count);
        RKPulse *p = RKGetPulseFromBuffer(mem, k);
        uint32_t gates = chance(0.2) ? capacity : chance(0.1) ? 0 : rr(1, capacity);
        p->header.gateCount = gates;
        RKPulseDuplicateSplitComplex(p);
        for (int c = 0; c < 2; c++) {
            RKComplex *x = RKGetComplexDataFromPulse(p, c);
            RKIQZ z = RKGetSplitComplexDataFromPulse(p, c);
            for (uint32_t g = 0; g < gates; g++) if (memcmp(&z.i[g], &x[g].i, 4) || memcmp(&z.q[g], &x[g].q, 4)) { VIOL("split", "gate %u of %u, channel %d, is %f%+fj, not %f%+fj", g, gates, c, z.i[g], z.q[g], x[g].i, x[g].q); break; }
            stat_add("split", gates);
        }
        for (int i = 0; i < nareas; i++) if (areas[i].what[0] != 'Z' || areas[i].slot != (int)k) { size_t w; if (!intact(&areas[i], &w)) { VIOL("split", "%s of pulse %d changed when pulse %u was split", areas[i].what, areas[i].slot, k); break; } }
        for (int i = 0; i < nareas; i++) if (areas[i].what[0] == 'Z' && areas[i].slot == (int)k) {
            // behind the gates nothing changes
            uint64_t s = areas[i].tag;
            for (size_t b = 0; b < areas[i].n; b += 8) { uint64_t v = vp_mix(&s); for (int e = 0; e < 8; e++) if (b + e >= 4 * (size_t)gates && b + e < areas[i].n && areas[i].p[b + e] != ((char *)&v)[e]) { VIOL("split", "%s is changed behind its %u gates", areas[i].what, gates); b = areas[i].n; break; } }
        }
    }
    // a copy of the compressed samples of consecutive pulses, also past the end of the ring
    {
        uint32_t start = ri(count), ncopy = rr(1, count), gates = chance(0.2) ? capacity : rr(1, capacity);
        for (uint32_t k = 0; k < count; k++) RKGetPulseFromBuffer(mem, k)->header.downSampledGateCount = gates;
        RKComplex *copy = RKPulseBufferAllocCopyFromBuffer(mem, start, ncopy, count);
        if (!copy) VIOL("copy", "no copy");
        else {
            if (malloc_usable_size(copy) < (size_t)ncopy * 2 * gates * sizeof(RKComplex)) VIOL("copy", "a copy of %u pulses with %u gates has room for %zu bytes", ncopy, gates, malloc_usable_size(copy));
            else for (uint32_t k = 0; k < ncopy; k++) for (int c = 0; c < 2; c++) {
                RKComplex *x = RKGetComplexDataFromPulse(RKGetPulseFromBuffer(mem, (start + k) % count), c);
                if (memcmp(copy + (2 * (size_t)k + c) * gates, x, gates * sizeof(RKComplex))) { VIOL("copy", "pulse %u of a copy of %u from slot %u of %u, channel %d, %u gates, differs", k, ncopy, start, count, c, gates); k = ncopy; break; }
            }
            free(copy);
            stat_add("copies", 1);
            if (start + ncopy > count) stat_add("copies_around", 1);
        }
    }
    // cleared pulses are as new ones, others untouched
    uint32_t cleared = chance(0.6) ? count : rr(0, count);
    for (int i = 0; i < nareas; i++) fill(&areas[i]);
    for (uint32_t k = 0; k < count; k++) RKGetPulseFromBuffer(mem, k)->header.s = RKPulseStatusReadyForMomentEngine;
    RKClearPulseBuffer(mem, cleared);
    for (int i = 0; i < nareas; i++) {
        size_t w;
        if (areas[i].slot < (int)cleared) { if (!all_zero(areas[i].p, areas[i].n)) { VIOL("clear", "%s of pulse %d, capacity %u, is not cleared", areas[i].what, areas[i].slot, capacity); break; } }
        else if (!intact(&areas[i], &w)) { VIOL("clear", "%s of pulse %d is cleared with the first %u", areas[i].what, areas[i].slot, cleared); break; }
    }
    for (uint32_t k = 0; k < cleared; k++) {
        RKPulse *p = RKGetPulseFromBuffer(mem, k);
        if (p->header.s != RKPulseStatusVacant || p->header.i != (uint64_t)k - cleared || p->header.gateCount || p->header.capacity != capacity) VIOL("clear", "cleared pulse %u of %u has status %x, i %lld, %u gates, capacity %u", k, cleared, p->header.s, (long long)p->header.i, p->header.gateCount, p->header.capacity);
    }
    stat_add("cleared", cleared);
    DISTINCTF("pulse %u %u %u", capacity, count, cleared);
    sample("pulse ring of %u slots of %u gates: %d areas, %d turns", count, capacity, m, turns);
    free(id); free(headers); free(data); free(all);
    RKPulseBufferFree(mem);
}
static void rays(void) {
    const uint32_t mult = RKMemoryAlignSize / sizeof(RKFloat);
    const uint32_t capacity = mult * (chance(0.2) ? 1 : rr(1, 60));
    const uint32_t count = chance(0.2) ? rr(1, 3) : rr(2, 20);
    RKBuffer mem = NULL;
    size_t bytes = RKRayBufferAlloc(&mem, capacity, count);
    if (!mem || !bytes) { VIOL("alloc", "ray buffer of capacity %u count %u is not made", capacity, count); return; }
    if (bytes % count || (uintptr_t)mem % RKMemoryAlignSize) VIOL("alloc", "ray buffer of %u slots has %zu bytes at %p", count, bytes, mem);
    areas = calloc((size_t)count * (RKMomentCount + 2 * RKBaseProductCount + 1), sizeof(Area));
    nareas = 0;
    static const char *what[] = {"moment", "byte product", "float product"};
    for (uint32_t k = 0; k < count; k++) {
        RKRay *r = RKGetRayFromBuffer(mem, k);
        if (r->header.capacity != capacity) VIOL("capacity", "ray %u has capacity %u, not %u", k, r->header.capacity, capacity);
        if (r->header.i != (uint64_t)k - count) VIOL("identity", "new ray %u of %u has i %lld", k, count, (long long)r->header.i);
        if (r->header.s != RKRayStatusVacant) VIOL("status", "new ray %u has status %x", k, r->header.s);
        for (int j = 0; j < RKMomentCount; j++) add(RKGetInt16DataFromRay(r, j), capacity * sizeof(int16_t), what[0], k);
        for (int j = 0; j < RKBaseProductCount; j++) { add(RKGetUInt8DataFromRay(r, j), capacity, what[1], k); add(RKGetFloatDataFromRay(r, j), capacity * sizeof(float), what[2], k); }
    }
    for (int i = 0; i < nareas; i++) if (!all_zero(areas[i].p, areas[i].n)) { VIOL("fresh", "%s of new ray %d is not all zero", areas[i].what, areas[i].slot); break; }
    {
        int n = nareas;
        Area *both = calloc(n + count, sizeof(Area));
        memcpy(both, areas, n * sizeof(Area));
        for (uint32_t k = 0; k < count; k++) { RKRay *r = RKGetRayFromBuffer(mem, k); both[n].p = (char *)r; both[n].n = sizeof(r->headerBytes); both[n].what = "header"; both[n++].slot = k; }
        qsort(both, n, sizeof(Area), by_address);
        for (int i = 0; i + 1 < n; i++) if (both[i].p + both[i].n > both[i + 1].p) { VIOL("overlap", "ray buffer capacity %u count %u: %s of slot %d overlaps %s of slot %d", capacity, count, both[i].what, both[i].slot, both[i + 1].what, both[i + 1].slot); break; }
        free(both);
    }
    RKRayHeader *heads = calloc(count, sizeof(RKRayHeader));
    for (uint32_t k = 0; k < count; k++) heads[k] = RKGetRayFromBuffer(mem, k)->header;
    check_areas("ray buffer", mem, bytes, sizeof(RKFloat), capacity, count);
    for (uint32_t k = 0; k < count; k++) if (memcmp(&heads[k], &RKGetRayFromBuffer(mem, k)->header, sizeof(RKRayHeader))) VIOL("header", "the header of ray %u changed with the data", k);
    uint32_t index = ri(count), at = index;
    int turns = rr(1, 3 * count);
    for (int i = 0; i < turns; i++) {
        RKRay *want = RKGetRayFromBuffer(mem, at);
        want->header.s = RKRayStatusReady;
        want->header.startTime.tv_sec = want->header.endTime.tv_sec = 100 + i;
        want->header.startTime.tv_usec = want->header.endTime.tv_usec = 1 + i;
        RKRayHeader kept = want->header;
        RKRay *r = RKGetVacantRayFromBuffer(mem, &index, count);
        if (r != want) { VIOL("turn", "vacant ray of turn %d is not slot %u of %u", i, at, count); break; }
        if (r->header.s != RKRayStatusVacant || r->header.startTime.tv_sec || r->header.startTime.tv_usec || r->header.endTime.tv_sec || r->header.endTime.tv_usec) VIOL("vacant", "vacant ray has status %x and times", r->header.s);
        heads[at].i += count;
        if (r->header.i != heads[at].i) VIOL("identity", "ray of turn %d has i %lld, not %lld", i, (long long)r->header.i, (long long)heads[at].i);
        kept.s = r->header.s; kept.startTime = r->header.startTime; kept.endTime = r->header.endTime; kept.i = r->header.i;
        if (memcmp(&kept, &r->header, sizeof(kept))) VIOL("vacant", "another field of the header of a vacant ray changed");
        at = (at + 1) % count;
        if (index != at) { VIOL("turn", "the next ray slot after turn %d is %u, not %u of %u", i, index, at, count); break; }
        stat_add("turns", 1);
    }
    for (int i = 0; i < nareas; i++) { size_t w; if (!intact(&areas[i], &w)) { VIOL("intact", "%s of ray %d changed while slots were taken", areas[i].what, areas[i].slot); break; } }
    uint32_t cleared = chance(0.6) ? count : rr(0, count);
    for (uint32_t k = 0; k < count; k++) RKGetRayFromBuffer(mem, k)->header.s = RKRayStatusReady;
    RKClearRayBuffer(mem, cleared);
    for (int i = 0; i < nareas; i++) {
        size_t w;
        if (areas[i].slot < (int)cleared) { if (!all_zero(areas[i].p, areas[i].n)) { VIOL("clear", "%s of ray %d, capacity %u, is not cleared", areas[i].what, areas[i].slot, capacity); break; } }
        else if (!intact(&areas[i], &w)) { VIOL("clear", "%s of ray %d is cleared with the first %u", areas[i].what, areas[i].slot, cleared); break; }
    }
    for (uint32_t k = 0; k < cleared; k++) {
        RKRay *r = RKGetRayFromBuffer(mem, k);
        if (r->header.s != RKRayStatusVacant || r->header.i != (uint64_t)k - cleared || r->header.gateCount || r->header.capacity != capacity) VIOL("clear", "cleared ray %u of %u has status %x, i %lld, %u gates, capacity %u", k, cleared, r->header.s, (long long)r->header.i, r->header.gateCount, r->header.capacity);
    }
    stat_add("cleared", cleared);
    DISTINCTF("ray %u %u %u", capacity, count, cleared);
    free(areas); free(heads);
    RKRayBufferFree(mem);
}
// ---- scratch spaces -----------------------------------------------------------------------------
static void scratch_add(void *p, size_t n, const char *what) {
    if (!p) { VIOL("scratch", "%s is not there", what); return; }
    if (malloc_usable_size(p) < n) VIOL("scratch", "%s has room for %zu bytes, not %zu", what, malloc_usable_size(p), n);
    if ((uintptr_t)p % RKMemoryAlignSize) VIOL("align", "%s at %p", what, p);
    for (int i = 0; i < nareas; i++) if (areas[i].p == p) VIOL("overlap", "%s and %s are the same", what, areas[i].what);
    add(p, n, what, 0);
}
static void scratches(void) {
    const uint32_t mult = RKMemoryAlignSize / sizeof(RKFloat);
    uint32_t capacity = mult * (chance(0.3) ? 1 : chance(0.8) ? rr(1, 8) : rr(1, 400));
    struct mallinfo2 unused = mallinfo2();
    (void)unused;
    areas = calloc(2000 , sizeof(Area));
    if (chance(0.3)) {
        RKCompressionScratch *s = NULL; RKMomentScratch *m = NULL;
        uint32_t odd = chance(0.2) ? 0 : capacity + rr(1, mult - 1);
        if (RKCompressionScratchAlloc(&s, odd, 0, "odd") != 0 || s) VIOL("refuse", "compression scratch of capacity %u is made", odd);
        if (RKMomentScratchAlloc(&m, odd, 0, "odd") != 0 || m) VIOL("refuse", "moment scratch of capacity %u is made", odd);
        stat_add("refused", 1);
    }
    const size_t f = capacity * sizeof(RKFloat);
    {
        RKCompressionScratch *s = NULL;
        size_t bytes = RKCompressionScratchAlloc(&s, capacity, ri(2), chance(0.5) ? "compressor" : NULL);
        if (!s || !bytes) { VIOL("alloc", "compression scratch of capacity %u is not made", capacity); free(areas); return; }
        size_t n = 1;
        while (n < capacity) n *= 2;
        nareas = 0;
        size_t sum = sizeof(*s);
        scratch_add(s->inBuffer, n * sizeof(fftwf_complex), "inBuffer"); scratch_add(s->outBuffer, n * sizeof(fftwf_complex), "outBuffer");
        scratch_add(s->zi, n * sizeof(RKFloat), "zi"); scratch_add(s->zo, n * sizeof(RKFloat), "zo");
        scratch_add(s->user1, f, "user1"); scratch_add(s->user2, f, "user2"); scratch_add(s->user3, f, "user3"); scratch_add(s->user4, f, "user4");
        scratch_add(s->userComplex1, 2 * f, "userComplex1"); scratch_add(s->userComplex2, 2 * f, "userComplex2"); scratch_add(s->userComplex3, 2 * f, "userComplex3"); scratch_add(s->userComplex4, 2 * f, "userComplex4");
        for (int i = 0; i < nareas; i++) { fill(&areas[i]); sum += areas[i].n; }
        for (int i = 0; i < nareas; i++) { size_t w; if (!intact(&areas[i], &w)) VIOL("intact", "%s of a compression scratch", areas[i].what); }
        if (bytes != sum) VIOL("bytes", "compression scratch of capacity %u tells %zu bytes, it has %zu", capacity, bytes, sum);
        if (s->capacity != capacity || !s->name[0]) VIOL("scratch", "compression scratch has capacity %u, not %u, name '%s'", s->capacity, capacity, s->name);
        stat_add("scratch_areas", nareas);
        RKCompressionScratchFree(s);
    }
    if (capacity > 64) capacity = mult * rr(1, 4);
    {
        const size_t f = capacity * sizeof(RKFloat);
        RKMomentScratch *s = NULL;
        size_t bytes = RKMomentScratchAlloc(&s, capacity, ri(2), chance(0.5) ? "moment" : NULL);
        if (!s || !bytes) { VIOL("alloc", "moment scratch of capacity %u is not made", capacity); free(areas); return; }
        size_t n = 1;
        while (n < RKMaximumPulsesPerRay) n *= 2;
        nareas = 0;
        size_t sum = sizeof(*s);
#define A(X) scratch_add(s->X, f, #X)
        for (int k = 0; k < 2; k++) {
            A(mX[k].i); A(mX[k].q); A(vX[k].i); A(vX[k].q); A(S[k]); A(Z[k]); A(V[k]); A(W[k]); A(Q[k]); A(L[k]); A(RhoXP[k]); A(PhiXP[k]); A(SNR[k]); A(S2Z[k]);
            for (int j = 0; j < RKMaximumLagCount; j++) { A(R[k][j].i); A(R[k][j].q); A(aR[k][j]); A(RX[k][j].i); A(RX[k][j].q); A(aRX[k][j]); }
            for (int j = 0; j < 2 * RKMaximumLagCount - 1; j++) { A(CX[k][j].i); A(CX[k][j].q); A(aCX[k][j]); }
        }
        for (int j = 0; j < 2 * RKMaximumLagCount - 1; j++) { A(C[j].i); A(C[j].q); A(aC[j]); }
        A(sC.i); A(sC.q); A(ts.i); A(ts.q); A(ZDR); A(PhiDP); A(RhoHV); A(KDP); A(user1); A(user2); A(user3); A(user4); A(dcal); A(pcal); A(gC);
        if (!all_zero(s->dcal, f) || !all_zero(s->pcal, f) || !all_zero(s->S2Z[0], f) || !all_zero(s->S2Z[1], f)) VIOL("fresh", "the calibrations of a new moment scratch are not zero");
        scratch_add(s->mask, capacity, "mask");
        for (uint32_t j = 0; j < capacity; j++) {
            scratch_add(s->inBuffer[j], n * sizeof(fftwf_complex), "inBuffer"); scratch_add(s->outBuffer[j], n * sizeof(fftwf_complex), "outBuffer");
            scratch_add(s->fC[j], n * sizeof(fftwf_complex), "fC"); scratch_add(s->fS[0][j], n * sizeof(fftwf_complex), "fS[0]"); scratch_add(s->fS[1][j], n * sizeof(fftwf_complex), "fS[1]");
            sum += 5 * sizeof(fftwf_complex *);
        }
        for (int i = 0; i < nareas; i++) { fill(&areas[i]); sum += areas[i].n; }
        for (int i = 0; i < nareas; i++) { size_t w; if (!intact(&areas[i], &w)) VIOL("intact", "%s of a moment scratch", areas[i].what); }
        if (bytes != sum) VIOL("bytes", "moment scratch of capacity %u tells %zu bytes, it has %zu", capacity, bytes, sum);
        if (s->capacity != capacity || !s->name[0]) VIOL("scratch", "moment scratch has capacity %u, not %u, name '%s'", s->capacity, capacity, s->name);
        stat_add("scratch_areas", nareas);
        RKMomentScratchFree(s);
    }
    free(areas);
    DISTINCTF("scratch %u", capacity);
}
// ---- small helpers on indices and arrays ----------------------------------------------------------
static void helpers(void) {
    for (int r = 0; r < 40; r++) {
        int S = chance(0.3) ? rr(1, 4) : rr(1, 70000), i = chance(0.3) ? S - 1 : ri(S), N = ri(S + 1);
        uint32_t uS = S, ui = i, uN = N;
        int64_t want[4] = {(i + 1) % S, (i + S - 1) % S, (i + N) % S, ((int64_t)i - N + S) % S};
        int64_t got[4] = {RKNextModuloS(i, S), RKPreviousModuloS(i, S), N < S ? RKNextNModuloS(i, N, S) : want[2], N < S ? RKPreviousNModuloS(i, N, S) : want[3]};
        int64_t gou[4] = {RKNextModuloS(ui, uS), RKPreviousModuloS(ui, uS), N < S ? RKNextNModuloS(ui, uN, uS) : want[2], N < S ? RKPreviousNModuloS(ui, uN, uS) : want[3]};
        for (int k = 0; k < 4; k++) if (got[k] != want[k] || gou[k] != want[k]) VIOL("modulo", "operation %d of %d by %d in %d is %lld and %lld, not %lld", k, i, N, S, (long long)got[k], (long long)gou[k], (long long)want[k]);
        stat_add("indices", 4);
    }
    int n = rr(1, 300), origin = rr(0, n);
    float *b[3];
    for (int k = 0; k < 3; k++) { b[k] = noWrite((n + 8) * 4); for (int i = 0; i < n + 8; i++) b[k][i] = 1 + i; }
    int what = ri(4);
    RKIQZ z = {b[1], b[2]};
    switch (what) {
        case 0: RKZeroOutFloat(b[0], n); break;
        case 1: RKZeroOutIQZ(&z, n); break;
        case 2: RKZeroTailFloat(b[0], n, origin); break;
        case 3: RKZeroTailIQZ(&z, n, origin); break;
    }
    for (int k = 0; k < 3; k++) for (int i = 0; i < n + 8; i++) {
        int touched = (what % 2 ? k > 0 : k == 0) && i < n && (what < 2 || i >= origin);
        if (b[k][i] != (touched ? 0 : 1 + i)) { VIOL("zero", "operation %d on %d from %d: element %d of array %d is %f", what, n, origin, i, k, b[k][i]); break; }
    }
    for (int k = 0; k < 3; k++) free(b[k]);
}
// ---- the command queue ----------------------------------------------------------------------------
typedef struct { RKCommandQueue *q; uint64_t s; int n, pace, id; volatile int done; int refused; } Side;
static int pausing(uint64_t *s, int pace) {
    uint64_t v = vp_mix(s);
    if (pace == 1 && v % 16 == 0) usleep(v / 16 % 300);
    if (pace == 2 && v % 200 == 0) usleep(2000 + v / 200 % 4000);
    return 0;
}
static void command_text(char *c, uint64_t base, int i) {
    uint64_t s = base + 977 * (uint64_t)i;
    int n = snprintf(c, sizeof(RKCommand), "t %d ", i);
    int len = vp_mix(&s) % 8 == 0 ? sizeof(RKCommand) - 1 : n + vp_mix(&s) % 60;
    while (n < len) c[n++] = 'a' + vp_mix(&s) % 26;
    c[n] = 0;
}
static void *pusher(void *in) {
    Side *S = in;
    RKCommand c;
    uint64_t s = S->s;
    for (int i = 0; i < S->n; i++) {
        memset(c, 0, sizeof(c));
        command_text(c, S->s, i);
        int tries = 0;
        while (RKCommandQueuePush(S->q, &c) != RKResultSuccess) { S->refused++; usleep(50); if (++tries > 200000) { VIOL("queue", "command %d is refused for ever", i); return NULL; } }
        memset(c, 'x', sizeof(c));        // the queue has a copy of its own
        pausing(&s, S->pace);
    }
    S->done = 1;
    return NULL;
}
static void queue_case(void) {
    int depth = chance(0.3) ? rr(2, 4) : rr(2, 40), nonblocking = chance(0.6);
    RKCommandQueue *q = RKCommandQueueInit(depth, nonblocking);
    Side P = {q, r64(), chance(0.3) ? rr(0, 2 * depth) : rr(50, 400), ri(3), 0, 0, 0};
    uint64_t s = r64();
    int pace = ri(3), alone = chance(0.4);
    pthread_t t;
    if (alone && P.n > 300) P.n = 300;
    RKCommand want;
    int got = 0;
    if (!alone) {
        pthread_create(&t, NULL, pusher, &P);
        double until = vp_now() + 30;
        while (got < P.n && vp_now() < until) {
            RKCommand *c = RKCommandQueuePop(q);
            if (!c) { if (!nonblocking) VIOL("queue", "a blocking queue gives nothing"); usleep(ri(4) ? 20 : 400); continue; }
            command_text(want, P.s, got);
            if (strcmp(*c, want)) { VIOL("queue", "command %d of a queue of %d is '%.40s', not '%.40s'", got, depth, *c, want); break; }
            pausing(&s, pace);
            if (strcmp(*c, want)) { VIOL("queue", "command %d of a queue of %d is overwritten by '%.40s' before the next is taken", got, depth, *c); break; }
            got++;
        }
        if (got < P.n) {
            VIOL("queue", "%d of %d commands arrived through a queue of %d", got, P.n, depth);
            for (int k = 0; k < 100 && !P.done; k++) { if (q->count) RKCommandQueuePop(q); usleep(1000); }
            if (!P.done) exit(0);
        }
        pthread_join(t, NULL);
        stat_add("queued", got);
        stat_add("full", P.refused);
    } else {
        // one thread: bursts of pushes and pops against a model
        char (*model)[sizeof(RKCommand)] = calloc(depth + 1, sizeof(RKCommand));
        int held = 0, pushed = 0;
        for (int i = 0; i < P.n * 3; i++) {
            if (chance(0.5)) {
                RKCommand c;
                memset(c, 0, sizeof(c));
                command_text(c, P.s, pushed);
                if (!nonblocking && held >= depth - 1) continue;
                int r = RKCommandQueuePush(q, &c);
                if (r == RKResultSuccess) {
                    if (held >= depth) { VIOL("queue", "a queue of %d takes %d commands", depth, held + 1); break; }
                    strcpy(model[held++], c);
                    pushed++;
                } else {
                    if (held < depth - 1) { VIOL("queue", "a queue of %d with %d commands refuses one", depth, held); break; }
                    stat_add("full", 1);
                }
            } else if (held || nonblocking) {
                RKCommand *c = RKCommandQueuePop(q);
                if (!held) { if (c) { VIOL("queue", "an empty queue gives '%.40s'", *c); break; } stat_add("empty", 1); continue; }
                if (!c) { VIOL("queue", "a queue with %d commands gives none", held); break; }
                if (strcmp(*c, model[0])) { VIOL("queue", "a queue of %d gives '%.40s', not '%.40s'", depth, *c, model[0]); break; }
                memmove(model[0], model[1], (depth) * sizeof(RKCommand));
                held--; got++;
            }
            if (q->count != held || q->tic != (uint32_t)pushed || q->toc != (uint32_t)got) { VIOL("queue", "count %d tic %u toc %u, not %d %d %d", q->count, q->tic, q->toc, held, pushed, got); break; }
        }
        free(model);
        stat_add("queued", got);
    }
    RKCommandQueueFree(q);
    DISTINCTF("queue %d %d %d %d %d %d", depth, nonblocking, P.n, P.pace, pace, alone);
}
static void vp_case(uint64_t index) {
    if (!strcmp(vp_mode, "queue")) { queue_case(); return; }
    switch (index % 4) {
        case 0: case 1: pulses(); break;
        case 2: rays(); break;
        case 3: if (index % 16 == 3) scratches(); else helpers(); break;
    }
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
