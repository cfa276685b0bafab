// Waveform synthesis, manipulation and files against double-precision models.
#include "vp.h"

typedef double complex_t[2];
static double amp = RKWaveformDigitalAmplitude;

static void energy_check(RKWaveform *w, const char *what) {
    for (int k = 0; k < w->count; k++) for (int j = 0; j < w->filterCounts[k]; j++) {
        RKFilterAnchor *a = &w->filterAnchors[k][j];
        double e = 0, pk = 0;
        for (uint32_t i = 0; i < a->length; i++) {
            RKComplex *c = &w->samples[k][a->origin + i];
            double p = (double)c->i * c->i + (w->type & RKWaveformTypeIsComplex ? (double)c->q * c->q : 0);
            e += p;
            pk = fmax(pk, p);
        }
        double g = w->type & RKWaveformTypeIsComplex ? e : 2 * e;
        if (!close_to(a->filterGain, 10 * log10(g), 2e-3, 1e-4)) VIOL("filter-gain", "%s: group %d filter %d filterGain %g, samples give %g dB", what, k, j, a->filterGain, 10 * log10(g));
        stat_add("filters_checked", 1);
    }
}
static void gains_check(RKWaveform *w, const char *what) {
    for (int k = 0; k < w->count; k++) for (int j = 0; j < w->filterCounts[k]; j++) {
        RKFilterAnchor *a = &w->filterAnchors[k][j];
        double e = 0, pk = 0;
        int cx = !!(w->type & RKWaveformTypeIsComplex);
        for (uint32_t i = 0; i < a->length; i++) {
            RKComplex *c = &w->samples[k][a->origin + i];
            double p = (double)c->i * c->i + (cx ? (double)c->q * c->q : 0);
            e += p;
            pk = fmax(pk, p);
        }
        if (!cx) e *= 2;
        double s = 10 * log10(e / (pk * 1e-6 * w->fs));
        if (!close_to(a->sensitivityGain, s, 2e-3, 1e-4)) VIOL("sensitivity-gain", "%s: group %d filter %d sensitivity %g expected %g", what, k, j, a->sensitivityGain, s);
        if (!close_to(a->fullScale, amp / sqrt(pk), 0, 1e-4)) VIOL("full-scale", "%s: group %d filter %d full scale %g expected %g", what, k, j, a->fullScale, amp / sqrt(pk));
    }
}
static void unity(RKWaveform *w, const char *what) {
    for (int k = 0; k < w->count; k++) for (int j = 0; j < w->filterCounts[k]; j++) {
        RKFilterAnchor *a = &w->filterAnchors[k][j];
        double e = 0;
        for (uint32_t i = 0; i < a->length; i++) {
            RKComplex *c = &w->samples[k][a->origin + i];
            e += (double)c->i * c->i + (w->type & RKWaveformTypeIsComplex ? (double)c->q * c->q : 0);
        }
        if (!close_to(e, 1, 1e-3, 0)) VIOL("noise-gain", "%s: group %d filter %d has noise gain %g", what, k, j, e);
    }
}
// Every filter lies inside the stored samples
static void inside(RKWaveform *w, const char *what) {
    for (int k = 0; k < w->count; k++) for (int j = 0; j < w->filterCounts[k]; j++) {
        RKFilterAnchor *a = &w->filterAnchors[k][j];
        if ((uint64_t)a->origin + a->length > w->depth) VIOL("filter-outside", "%s: group %d filter %d spans [%u, +%u) of %u samples", what, k, j, a->origin, a->length, w->depth);
    }
}
static void follow(RKWaveform *w, int k, double omega, double kappa, const char *what) {
    double mid = w->depth / 2, theta = omega * mid + 0.5 * kappa * mid * mid, u = 1 / sqrt((double)w->depth);
    for (uint32_t i = 0; i < w->depth; i++) {
        double b = omega * i + 0.5 * kappa * i * (double)i - theta, tol = 2e-5 + 3e-7 * fabs(b);
        RKComplex *x = &w->samples[k][i];
        if (fabs(x->i / u - cos(b)) > tol || fabs(x->q / u - sin(b)) > tol) {
            VIOL("samples", "%s: group %d sample %u of %u is (%g, %g), expected (%g, %g)", what, k, i, w->depth, x->i, x->q, u * cos(b), u * sin(b));
            return;
        }
        RKInt16C *y = &w->iSamples[k][i];
        if (fabs(y->i - amp * cos(b)) > 1 + amp * tol || fabs(y->q - amp * sin(b)) > 1 + amp * tol) {
            VIOL("int-samples", "%s: group %d transmit sample %u is (%d, %d), expected (%g, %g)", what, k, i, y->i, y->q, amp * cos(b), amp * sin(b));
            return;
        }
    }
    stat_add("samples_checked", w->depth);
}
static void single_filters(RKWaveform *w, const char *what) {
    for (int k = 0; k < w->count; k++) {
        RKFilterAnchor *a = w->filterAnchors[k];
        if (w->filterCounts[k] != 1 || a->origin || a->length != w->depth || a->inputOrigin || a->outputOrigin || a->maxDataLength == 0 || a->maxDataLength > RKMaximumGateCount)
            VIOL("anchor", "%s: group %d count %d origin %u length %u in %u out %u max %u depth %u", what, k, w->filterCounts[k], a->origin, a->length, a->inputOrigin, a->outputOrigin, a->maxDataLength, w->depth);
    }
}
static RKWaveform *synth(int kind, double *fsp) {
    double fs = chance(0.3) ? rf(0.5e6, 2e6) : rf(2e6, 160e6);
    int n = chance(0.2) ? rr(1, 8) : chance(0.3) ? 1 << rr(2, 10) : rr(2, 3000);
    double pw = n / fs, bw = rf(0.02, 0.9) * fs, fc = chance(0.3) ? 0 : rf(-0.45, 0.45) * fs;
    char what[100];
    RKWaveform *w = NULL;
    *fsp = fs;
    switch (kind) {
        case 0:
            w = RKWaveformInitAsSingleTone(fs, fc, pw);
            snprintf(what, 100, "tone fs %g fc %g n %d", fs, fc, n);
            follow(w, 0, 2 * M_PI * fc / fs, 0, what);
            break;
        case 1:
            w = RKWaveformInitAsLinearFrequencyModulation(fs, fc, pw, bw);
            snprintf(what, 100, "chirp fs %g fc %g bw %g n %d", fs, fc, bw, n);
            follow(w, 0, 2 * M_PI * fc / fs, 2 * M_PI * bw / (n / fs) / (fs * fs), what);
            break;
        case 2:
        case 3: {
            int hops = rr(1, 11), seen[32] = {0};
            n = n > 800 ? 800 : n;
            pw = n / fs;
            if (hops == 1) bw = 0;
            w = kind == 2 ? RKWaveformInitAsFrequencyHops(fs, fc, pw, bw, hops) : RKWaveformInitAsFrequencyHoppingChirp(fs, fc, bw, pw, hops);
            snprintf(what, 100, "%s fs %g fc %g bw %g hops %d n %d", kind == 2 ? "hops" : "hopping chirp", fs, fc, bw, hops, n);
            if (w->count != (hops == 1 ? 1 : 2 * hops)) VIOL("hop-count", "%s: %d groups", what, w->count);
            for (int k = 0; k < w->count; k++) {
                int j = w->filterAnchors[k][0].name;
                if (j < 0 || j >= hops) { VIOL("hop-name", "%s: group %d is hop %d", what, k, j); continue; }
                if (k % 2 && j != (int)w->filterAnchors[k - 1][0].name) VIOL("hop-pair", "%s: groups %d and %d use hops %d and %d", what, k - 1, k, w->filterAnchors[k - 1][0].name, j);
                seen[j]++;
                if (kind == 2) {
                    double f = hops == 1 ? fc : fc - 0.5 * bw + j * bw / (hops - 1);
                    follow(w, k, 2 * M_PI * f / fs, 0, what);
                } else {
                    double sub = bw / hops, fl = ((j - hops / 2) - 0.5) * sub + fc;
                    follow(w, k, 2 * M_PI * fl / fs, 2 * M_PI * sub / (n / fs) / (fs * fs), what);
                    if (!close_to(w->filterAnchors[k][0].lowerBoundFrequency, fl, 1, 1e-5) || !close_to(w->filterAnchors[k][0].upperBoundFrequency, fl + sub, 1, 1e-5)) VIOL("hop-band", "%s: group %d band", what, k);
                }
            }
            for (int j = 0; j < hops; j++) if (seen[j] != (hops == 1 ? 1 : 2)) VIOL("hop-coverage", "%s: hop %d is used by %d groups", what, j, seen[j]);
            DISTINCTF("hop %d %d", kind, hops);
            break;
        }
        case 4: {
            int count = rr(1, 22);
            n = n > 500 ? 500 : n;
            RKComplex *arr[22];
            for (int k = 0; k < count; k++) {
                arr[k] = malloc(n * sizeof(RKComplex));
                for (int i = 0; i < n; i++) arr[k][i] = (RKComplex){rf(-3e4, 3e4), rf(-3e4, 3e4)};
            }
            w = RKWaveformInitFromSampleArrays((const RKComplex **)arr, count, n, "given");
            snprintf(what, 100, "given samples, count %d n %d", count, n);
            if (w->count != count || w->depth != (uint32_t)n) VIOL("given-shape", "%s: got %d x %u", what, w->count, w->depth);
            for (int k = 0; k < count; k++) {
                for (int i = 0; i < n; i++)
                    if (memcmp(&w->samples[k][i], &arr[k][i], sizeof(RKComplex)) || w->iSamples[k][i].i != (int16_t)arr[k][i].i || w->iSamples[k][i].q != (int16_t)arr[k][i].q) { VIOL("given-samples", "%s: group %d sample %d", what, k, i); break; }
                free(arr[k]);
            }
            w->fs = fs;      // as a user sets it
            for (int k = 0; k < count; k++) for (int i = 0; i < 1; i++) w->filterAnchors[k][0].sensitivityGain -= 10 * log10(fs);
            single_filters(w, what);
            inside(w, what);
            energy_check(w, what);
            gains_check(w, what);
            RKWaveformNormalizeNoiseGain(w);
            unity(w, what);
            gains_check(w, what);
            return w;
        }
    }
    if (kind < 4 && w->depth != (uint32_t)round(pw * fs)) VIOL("depth", "%s: depth %u", what, w->depth);
    if (w->fs != fs || w->fc != fc || !(w->type & RKWaveformTypeIsComplex)) VIOL("meta", "%s: fs %g fc %g type %x", what, w->fs, w->fc, w->type);
    single_filters(w, what);
    inside(w, what);
    unity(w, what);
    energy_check(w, what);
    gains_check(w, what);
    DISTINCTF("syn %d %d", kind, n < 9 ? n : 10 + (int)log2(n));
    return w;
}
static RKWaveform *snap(RKWaveform *w) {   // independent copy made without the code under test
    RKWaveform *c = malloc(sizeof(*c));
    *c = *w;
    for (int k = 0; k < w->count; k++) {
        c->samples[k] = malloc(w->depth * sizeof(RKComplex));
        c->iSamples[k] = malloc(w->depth * sizeof(RKInt16C));
        memcpy(c->samples[k], w->samples[k], w->depth * sizeof(RKComplex));
        memcpy(c->iSamples[k], w->iSamples[k], w->depth * sizeof(RKInt16C));
    }
    return c;
}
static void drop(RKWaveform *c) {
    for (int k = 0; k < c->count; k++) { free(c->samples[k]); free(c->iSamples[k]); }
    free(c);
}
static int same(RKWaveform *a, RKWaveform *b, const char *what, int gains) {
    if (a->count != b->count || a->depth != b->depth || a->type != b->type || a->fc != b->fc || a->fs != b->fs || strcmp(a->name, b->name)) {
        VIOL("copy-meta", "%s: count %d/%d depth %u/%u type %x/%x fc %g/%g fs %g/%g name '%s'/'%s'", what, a->count, b->count, a->depth, b->depth, a->type, b->type, a->fc, b->fc, a->fs, b->fs, a->name, b->name);
        return 0;
    }
    for (int k = 0; k < a->count; k++) {
        if (a->filterCounts[k] != b->filterCounts[k]) { VIOL("copy-filters", "%s: group %d", what, k); return 0; }
        for (int j = 0; j < a->filterCounts[k]; j++) {
            RKFilterAnchor *p = &a->filterAnchors[k][j], *q = &b->filterAnchors[k][j];
            if (p->name != q->name || p->origin != q->origin || p->length != q->length || p->inputOrigin != q->inputOrigin || p->outputOrigin != q->outputOrigin
                || (gains && p->maxDataLength != q->maxDataLength) || (!gains && j && p->maxDataLength != q->maxDataLength) || p->subCarrierFrequency != q->subCarrierFrequency || p->lowerBoundFrequency != q->lowerBoundFrequency || p->upperBoundFrequency != q->upperBoundFrequency
                || !close_to(p->filterGain, q->filterGain, 1e-3, 1e-3) || !close_to(p->sensitivityGain, q->sensitivityGain, 1e-3, 1e-3) || !close_to(p->fullScale, q->fullScale, 0, 1e-3)) {
                VIOL("copy-anchor", "%s: group %d filter %d differs", what, k, j);
                return 0;
            }
        }
        if (memcmp(a->samples[k], b->samples[k], a->depth * sizeof(RKComplex))) { VIOL("copy-samples", "%s: group %d", what, k); return 0; }
        if (memcmp(a->iSamples[k], b->iSamples[k], a->depth * sizeof(RKInt16C))) { VIOL("copy-int-samples", "%s: group %d", what, k); return 0; }
    }
    return 1;
}
static RKWaveform *append_two(void) {
    double fs = rf(2e6, 100e6);
    int n1 = rr(1, 800), n2 = rr(1, 300), tr = rr(0, 60);
    RKWaveform *a = RKWaveformInitAsLinearFrequencyModulation(fs, rf(-0.2, 0.2) * fs, n1 / fs, 0.3 * fs), *b = RKWaveformInitAsSingleTone(fs, rf(-0.4, 0.4) * fs, n2 / fs);
    RKWaveform *sa = snap(a);
    char what[100];
    snprintf(what, 100, "append %d + %d, transition %d", n1, n2, tr);
    if (chance(0.1)) {
        b->fs *= 2;
        if (RKWaveformAppendWaveform(a, b, tr) == RKResultSuccess) VIOL("append-fs", "%s: accepted different sampling rates", what);
        same(sa, a, "refused append", 1);
        b->fs = fs;
    }
    if (RKWaveformAppendWaveform(a, b, tr) != RKResultSuccess) VIOL("append-refused", "%s", what);
    if (a->depth != (uint32_t)(n1 + n2) || a->filterCounts[0] != 2) VIOL("append-shape", "%s: depth %u filters %d", what, a->depth, a->filterCounts[0]);
    else {
        if (memcmp(a->samples[0], sa->samples[0], n1 * sizeof(RKComplex)) || memcmp(a->samples[0] + n1, b->samples[0], n2 * sizeof(RKComplex))
            || memcmp(a->iSamples[0], sa->iSamples[0], n1 * sizeof(RKInt16C)) || memcmp(a->iSamples[0] + n1, b->iSamples[0], n2 * sizeof(RKInt16C))) VIOL("append-samples", "%s", what);
        RKFilterAnchor *p = &a->filterAnchors[0][0], *q = &a->filterAnchors[0][1];
        if (p->origin || (int)p->length != n1 || (int)p->inputOrigin != n1 + tr || (int)p->outputOrigin != n1 + tr) VIOL("append-first", "%s", what);
        if ((int)q->origin != n1 || (int)q->length != n2 || (int)q->inputOrigin != n1 || q->outputOrigin || (int)q->maxDataLength != n1 + tr) VIOL("append-second", "%s", what);
        if (RKWaveformAppendWaveform(a, b, tr) == RKResultSuccess) VIOL("append-third", "%s: accepted a third part", what);
        inside(a, what);
        energy_check(a, what);
        gains_check(a, what);
        unity(a, what);
    }
    drop(sa);
    RKWaveformFree(b);
    stat_add("appended", 1);
    return a;
}
static void manipulate(RKWaveform *w, const char *base) {
    char what[160];
    int op = ri(6);
    RKWaveform *s = snap(w);
    RKWaveform *c = RKWaveformCopy(w);
    snprintf(what, sizeof(what), "%s op %d (count %d depth %u)", base, op, w->count, w->depth);
    same(s, c, what, 1);
    int changed = 1;
    switch (op) {
        case 0:
            RKWaveformConjugate(c);
            for (int k = 0; k < c->count; k++) for (uint32_t i = 0; i < c->depth; i++)
                if (c->samples[k][i].i != s->samples[k][i].i || c->samples[k][i].q != -s->samples[k][i].q || c->iSamples[k][i].i != s->iSamples[k][i].i || c->iSamples[k][i].q != -s->iSamples[k][i].q) { VIOL("conjugate", "%s: group %d sample %u", what, k, i); k = 99; break; }
            break;
        case 1:
        case 2: {
            int st = rr(1, 25);
            uint32_t d = (s->depth + st - 1) / st;
            double g = sqrt(st), e = 0;
            if (s->depth > 1 && s->depth % st) {
                for (uint32_t i = 0; i < s->depth; i += st) e += s->samples[0][i].i * (double)s->samples[0][i].i + s->samples[0][i].q * (double)s->samples[0][i].q;
                g = 1 / sqrt(e);
            }
            RKWaveformDecimate(c, st);
            snprintf(what, sizeof(what), "%s decimated by %d (count %d depth %u)", base, st, w->count, w->depth);
            if (c->depth != d || !close_to(c->fs, s->fs / st, 0, 1e-9)) { VIOL("decimate-shape", "%s: depth %u fs %g", what, c->depth, c->fs); break; }
            for (int k = 0; k < c->count; k++) {
                for (uint32_t i = 0; i < d; i++) {
                    RKComplex *x = &c->samples[k][i], *y = &s->samples[k][i * st];
                    if (!close_to(x->i, g * y->i, 1e-6, 1e-4) || !close_to(x->q, g * y->q, 1e-6, 1e-4) || memcmp(&c->iSamples[k][i], &s->iSamples[k][i * st], sizeof(RKInt16C))) { VIOL("decimate-samples", "%s: group %d sample %u (%g, %g) expected (%g, %g)", what, k, i, x->i, x->q, g * y->i, g * y->q); k = 99; break; }
                }
                if (k >= c->count) break;
                for (int j = 0; j < c->filterCounts[k]; j++) {
                    RKFilterAnchor *p = &c->filterAnchors[k][j], *q = &s->filterAnchors[k][j];
                    uint32_t len = q->length / st;
                    if (len < 1) len = 1;
                    if (p->name != q->name || p->origin != q->origin / st || p->length != len || p->inputOrigin != (q->inputOrigin + st - 1) / st || p->outputOrigin != (q->outputOrigin + st - 1) / st
                        || p->maxDataLength != (q->maxDataLength + st - 1) / st || !close_to(p->subCarrierFrequency, st * q->subCarrierFrequency, 1e-5, 1e-5)) VIOL("decimate-anchor", "%s: group %d filter %d", what, k, j);
                }
            }
            inside(c, what);
            energy_check(c, what);
            changed = st > 1;
            stat_add("decimated", 1);
            DISTINCTF("dec %d %d", st, (int)(s->depth % st));
            break;
        }
        case 3: {
            int real = chance(0.4) && (s->depth & (s->depth - 1)) == 0 && s->depth >= 4 && s->depth <= 256;
            double om = 2 * M_PI * s->fc / s->fs;
            if (real) {
                c->type &= ~RKWaveformTypeIsComplex;
                for (int k = 0; k < c->count; k++) for (uint32_t i = 0; i < c->depth; i++) c->samples[k][i].q = 0;
                for (int k = 0; k < c->count; k++) for (uint32_t i = 0; i < c->depth; i++) c->iSamples[k][i].q = 0;
            }
            RKWaveformDownConvert(c);
            if (c->fc != 0 || !(c->type & RKWaveformTypeIsComplex)) VIOL("downconvert-meta", "%s: fc %g type %x", what, c->fc, c->type);
            uint32_t n = c->depth;
            for (int k = 0; k < c->count; k++) {
                complex_t *z = calloc(n, sizeof(complex_t));
                if (real) {
                    complex_t *F = calloc(n, sizeof(complex_t));
                    for (uint32_t m = 0; m <= n / 2; m++) for (uint32_t i = 0; i < n; i++) {
                        double p = -2 * M_PI * (double)((uint64_t)m * i % n) / n, sc = (m == 0 || m == n / 2 ? 1.0 : 2.0) / n;
                        F[m][0] += sc * s->samples[k][i].i * cos(p);
                        F[m][1] += sc * s->samples[k][i].i * sin(p);
                    }
                    for (uint32_t i = 0; i < n; i++) for (uint32_t m = 0; m <= n / 2; m++) {
                        double p = 2 * M_PI * (double)((uint64_t)m * i % n) / n;
                        z[i][0] += F[m][0] * cos(p) - F[m][1] * sin(p);
                        z[i][1] += F[m][0] * sin(p) + F[m][1] * cos(p);
                    }
                    free(F);
                } else for (uint32_t i = 0; i < n; i++) { z[i][0] = s->samples[k][i].i; z[i][1] = s->samples[k][i].q; }
                double pk = 0, sc = 0;
                for (uint32_t i = 0; i < n; i++) { pk = fmax(pk, hypot(z[i][0], z[i][1])); }
                for (uint32_t i = 0; i < n; i++) {
                    double cc = cos(om * i), ss = -sin(om * i), a = z[i][0] * cc - z[i][1] * ss, b = z[i][0] * ss + z[i][1] * cc, tol = pk * (1e-4 + 1e-6 * fabs(om) * i);
                    if (fabs(c->samples[k][i].i - a) > tol || fabs(c->samples[k][i].q - b) > tol) { VIOL("downconvert-samples", "%s real %d: group %d sample %u (%g, %g) expected (%g, %g)", what, real, k, i, c->samples[k][i].i, c->samples[k][i].q, a, b); k = 98; break; }
                }
                if (k < c->count && !real) for (int j = 0; j < c->filterCounts[k]; j++) {
                    RKFilterAnchor *f = &c->filterAnchors[k][j];
                    double fp = 0;
                    for (uint32_t i = 0; i < f->length; i++) fp = fmax(fp, hypot(c->samples[k][f->origin + i].i, c->samples[k][f->origin + i].q));
                    sc = amp / fp;
                    for (uint32_t i = 0; i < f->length; i++) {
                        RKComplex *x = &c->samples[k][f->origin + i];
                        RKInt16C *y = &c->iSamples[k][f->origin + i];
                        if (fabs(y->i - sc * x->i) > 1.5 + 0.012 * fabs(sc * x->i) || fabs(y->q - sc * x->q) > 1.5 + 0.012 * fabs(sc * x->q)) { VIOL("downconvert-int", "%s real %d: group %d sample %u transmit (%d, %d), expected (%g, %g)", what, real, k, i, y->i, y->q, sc * x->i, sc * x->q); break; }
                    }
                }
                free(z);
                if (k >= c->count) break;
            }
            stat_add("downconverted", 1);
            DISTINCTF("ddc %d %d", real, c->count);
            break;
        }
        case 4: {
            // windows: the shape multiplies every group; constant-envelope waveforms keep unit noise gain
            RKWindowType ty[] = {RKWindowTypeHann, RKWindowTypeHamming, RKWindowTypeKaiser, RKWindowTypeTrapezoid, RKWindowTypeTukey, RKWindowTypeBoxCar};
            int t = ri(6);
            uint32_t n = c->depth;
            if (n < 4) { changed = 0; break; }
            double par = t == 2 ? rf(0.1, 8) : rf(0.05, 0.6), e = 0;
            RKFloat *v = malloc(n * sizeof(RKFloat));
            if (t >= 2 && t <= 4) { RKWaveformApplyWindow(c, ty[t], par); RKWindowMake(v, ty[t], n, par, 0.0); }
            else { RKWaveformApplyWindow(c, ty[t]); RKWindowMake(v, ty[t], n, 0.0); }
            for (uint32_t i = 0; i < n; i++) e += v[i] * (double)v[i];
            e = sqrt(n / e);
            for (int k = 0; k < c->count; k++) for (uint32_t i = 0; i < n; i++) {
                double a = s->samples[k][i].i * v[i] * e, b = s->samples[k][i].q * v[i] * e;
                if (!close_to(c->samples[k][i].i, a, 1e-6, 1e-4) || !close_to(c->samples[k][i].q, b, 1e-6, 1e-4) || fabs(c->iSamples[k][i].i - s->iSamples[k][i].i * (double)v[i]) > 1.1 || fabs(c->iSamples[k][i].q - s->iSamples[k][i].q * (double)v[i]) > 1.1) {
                    VIOL("window", "%s window %d: group %d sample %u (%g, %g) expected (%g, %g)", what, t, k, i, c->samples[k][i].i, c->samples[k][i].q, a, b); k = 99; break; }
            }
            free(v);
            stat_add("windowed", 1);
            DISTINCTF("win %d", t);
            break;
        }
        default:
            RKWaveformNormalizeNoiseGain(c);
            unity(c, what);
            energy_check(c, what);
            gains_check(c, what);
            changed = 0;
            break;
    }
    // the copy is independent: the original is as it was
    same(s, w, "original after its copy changed", 1);
    if (changed) stat_add("copies_changed", 1);
    RKWaveformFree(c);
    drop(s);
}

// ---- files ----------------------------------------------------------------------------------------------------
static void use(RKWaveform *w) {   // reads everything the engines would read
    volatile double s = 0;
    for (int k = 0; k < w->count; k++) for (int j = 0; j < w->filterCounts[k]; j++) {
        RKFilterAnchor *a = &w->filterAnchors[k][j];
        for (uint32_t i = 0; i < a->length; i++) s += w->samples[k][a->origin + i].i + w->iSamples[k][a->origin + i].q;
    }
    RKWaveform *d = RKWaveformCopy(w);
    RKWaveformDecimate(d, rr(1, 6));
    RKWaveformFree(d);
}
static void file_case(void) {
    double fs;
    char path[300], dir[60];
    int nest = ri(3);
    RKWaveform *w = chance(0.3) ? append_two() : synth(ri(5), &fs);
    snprintf(dir, 60, nest == 0 ? "" : nest == 1 ? "a/" : "waves/set%d/", ri(3));
    snprintf(path, 300, "%sw%d.rkwav", dir, ri(5));
    if (chance(0.5)) snprintf(w->name, RKNameLength, "%s", chance(0.5) ? "" : "some name");
    int noname = w->name[0] == 0;
    if (noname && chance(0.3)) {
        char l[201];
        memset(l, 'n', 200);
        l[200] = 0;
        snprintf(path, 300, "%s%s.rkwav", dir, l);
    }
    RKWaveform *s = snap(w);
    if (RKWaveformWriteFile(w, path) != RKResultSuccess) { VIOL("write", "cannot write %s", path); drop(s); RKWaveformFree(w); return; }
    if (noname) {
        const char *b = strrchr(path, '/');
        snprintf(s->name, RKNameLength, "%s", b ? b + 1 : path);
    }
    same(s, w, "waveform after it was written", 1);
    RKWaveform *r = RKWaveformInitFromFile(path);
    if (!r) VIOL("read-back", "%s cannot be read back", path);
    else {
        if (same(s, r, "waveform read back", 0)) for (int k = 0; k < r->count; k++) if (r->filterAnchors[k][0].maxDataLength != RKMaximumGateCount) VIOL("read-max", "group %d maximum %u", k, r->filterAnchors[k][0].maxDataLength);
        RKWaveformFree(r);
        stat_add("round_trips", 1);
    }
    // Damage the file
    struct stat st;
    stat(path, &st);
    size_t n = st.st_size;
    uint8_t *b = malloc(n + 64), *o = malloc(n + 64);
    FILE *f = fopen(path, "r");
    if (fread(o, 1, n, f) != n) VIOL("io", "short read");
    fclose(f);
    for (int t = 0; t < 12; t++) {
        memcpy(b, o, n);
        size_t m = n;
        int how = ri(6), must_fail = 0;
        RKWaveFileGlobalHeader *h = (void *)b;
        RKFilterAnchor *a = (void *)(b + sizeof(RKWaveFileGlobalHeader));
        switch (how) {
            case 0: m = ri(n); must_fail = 1; break;
            case 1: h->count = chance(0.3) ? 0 : rr(0, 255); break;
            case 2: h->depth = chance(0.5) ? (uint32_t)r64() : h->depth + rr(-3, 3); break;
            case 3: h->filterCounts[ri(h->count)] = rr(0, 255); break;
            case 4: {
                uint32_t v = chance(0.5) ? (uint32_t)r64() : chance(0.5) ? ri(2 * h->depth + 2) : (uint32_t)-rr(1, 100);
                (&a->origin)[ri(5)] = v;
                must_fail = (uint64_t)a->origin + a->length > h->depth;
                break;
            }
            default: for (int i = rr(1, 8); i > 0; i--) b[ri(chance(0.7) ? 1000 < n ? 1000 : n : n)] = ri(256); break;
        }
        if (chance(0.1)) { m = 0; must_fail = 1; }
        f = fopen("bad.rkwav", "w");
        fwrite(b, 1, m, f);
        fclose(f);
        int viaref = chance(0.5);
        if (viaref) {
            f = fopen("bad.rkwav", "r");
            r = RKWaveformReadFromReference(f);
            if (fcntl(fileno(f), F_GETFD) < 0) VIOL("file-closed", "the caller's file is closed");
            else fclose(f);
        } else r = RKWaveformInitFromFile("bad.rkwav");
        if (r) {
            if (must_fail) VIOL("accepted", "damage %d (size %zu of %zu) is accepted", how, m, n);
            if (r->count < 1 || r->count > RKMaximumWaveformCount || r->depth < 1) VIOL("shape", "accepted count %d depth %u", r->count, r->depth);
            inside(r, "accepted file");
            use(r);
            RKWaveformFree(r);
            stat_add("damaged_accepted", 1);
        } else stat_add("damaged_refused", 1);
        DISTINCTF("dmg %d %d %d", how, r != NULL, viaref);
    }
    if (RKWaveformInitFromFile("no/such.rkwav")) VIOL("missing", "a missing file is accepted");
    free(b);
    free(o);
    unlink(path);
    drop(s);
    RKWaveformFree(w);
}

static void vp_case(uint64_t idx) {
    double fs;
    if (!strcmp(vp_mode, "file")) { file_case(); return; }
    if (chance(0.15)) {
        RKWaveform *w = append_two();
        manipulate(w, "two-part");
        RKWaveformFree(w);
        return;
    }
    int kind = ri(5);
    RKWaveform *w = synth(kind, &fs);
    if (idx < 2) sample("kind %d: %d x %u samples, fs %g", kind, w->count, w->depth, w->fs);
    char base[20];
    snprintf(base, 20, "kind %d", kind);
    for (int i = 0; i < 3; i++) manipulate(w, base);
    RKWaveformFree(w);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
