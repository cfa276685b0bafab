// Moment processors, calibration and censoring against a double-precision reference computed from
// the same pulses. Modes: pp hop atsr ml sp (processors), ray (makeRayFromScratch), cal, noise.
#include "vp.h"
#include <complex.h>

typedef double complex cx;
#define MG 272
#define MP 2000
static RKMomentScratch *sp;
static RKBuffer pb;
static RKBuffer rb;
static RKConfig *cfg;
static RKFFTModule *fft;
static RKPulse **pl;
static int G, N, cap, par;
static cx (*X)[2][MG];          // [pulse][pol][gate]

static void setup(int capacity, int pulses) {
    if (!sp || sp->capacity != capacity) {
        if (sp) RKMomentScratchFree(sp);
        if (!RKMomentScratchAlloc(&sp, capacity, 0, "vp")) { fprintf(stderr, "scratch"); exit(3); }
    }
    cap = capacity;
    if (!cfg) cfg = calloc(1, sizeof(RKConfig));
    sp->config = cfg;
    if (!fft) {
        RKSetRootFolder(vp_scratch);
        fft = RKFFTModuleInit(2048, 0);
    }
    sp->fftModule = fft;
    RKPulseBufferAlloc(&pb, capacity, pulses);
    RKRayBufferAlloc(&rb, capacity, 2);
    pl = malloc(pulses * sizeof(RKPulse *));
    for (int i = 0; i < pulses; i++) pl[i] = RKGetPulseFromBuffer(pb, i);
    X = malloc(sizeof(*X) * pulses);
}
static void teardown(void) { RKPulseBufferFree(pb); RKRayBufferFree(rb); free(pl); free(X); }

static double noise[2], va, wa, S2Z[2][MG], dcal[MG], pcal[MG];
// A signal with a Gaussian spectrum-like evolution: coherent part, correlated noise, white noise, all per gate
static void fill(int first_i) {
    double amp = pow(10, rf(0, 3.5));
    int kind = ri(5);
    for (int g = 0; g < cap; g++) {
        double a = amp * pow(10, rf(-1.5, 0.5)), w = rf(-M_PI, M_PI), ph = rf(-M_PI, M_PI), wn = a * (kind == 0 ? 0 : kind == 1 ? 0.02 : pow(10, rf(-2, 0.5)));
        double rho = kind == 3 ? 0.6 : 0.97, zdr = pow(10, rf(-0.5, 0.5));
        cx ar = rn() + I * rn();
        double phi = rf(0.5, 0.99);
        for (int n = 0; n < N; n++) {
            ar = phi * ar + sqrt(1 - phi * phi) * (rn() + I * rn());
            cx s = a * (kind == 4 ? ar : 1.0) * cexp(I * w * n);
            cx h = s + wn * (rn() + I * rn()) * 0.7;
            cx v = zdr * (rho * s * cexp(-I * ph) + sqrt(1 - rho * rho) * a * (rn() + I * rn()) * 0.7) + wn * (rn() + I * rn()) * 0.7;
            X[n][0][g] = (float)creal(h) + I * (float)cimag(h);
            X[n][1][g] = (float)creal(v) + I * (float)cimag(v);
        }
    }
    for (int n = 0; n < N; n++) {
        RKPulse *q = pl[n];
        q->header.i = first_i + n;
        q->header.gateCount = q->header.downSampledGateCount = G;
        for (int p = 0; p < 2; p++) {
            RKComplex *x = RKGetComplexDataFromPulse(q, p);
            RKIQZ z = RKGetSplitComplexDataFromPulse(q, p);
            for (int g = 0; g < cap; g++) {
                x[g].i = z.i[g] = creal(X[n][p][g]);
                x[g].q = z.q[g] = cimag(X[n][p][g]);
            }
        }
    }
    for (int p = 0; p < 2; p++) noise[p] = sp->noise[p] = (float)pow(10, rf(-3, 2));
    sp->velocityFactor = va = (float)rf(0.5, 20);
    sp->widthFactor = wa = (float)rf(0.5, 20);
    sp->KDPFactor = 0.01f;
    sp->gateSizeMeters = 60.0f;
    sp->gateCount = G;
    for (int g = 0; g < cap; g++) {
        for (int p = 0; p < 2; p++) S2Z[p][g] = sp->S2Z[p][g] = (float)rf(-60, 60);
        dcal[g] = sp->dcal[g] = (float)rf(-3, 3);
        pcal[g] = sp->pcal[g] = (float)rf(-3, 3);
    }
}

#define E0 3e-5
static void cmp(const char *what, int g, double got, double want, double tol) {
    char k[40];
    snprintf(k, sizeof(k), "%s-%s", vp_mode, what);
    stat_add("products_compared", 1);
    if (!(fabs(got - want) <= tol)) VIOL(k, "gate %d of %d, %d pulses, first index parity %d: %s = %.7g, the pulses give %.7g (tolerance %.2g)", g, G, N, par, what, got, want, tol);
}
static double mod(double d, double m) { d = fmod(d, m); if (d > m / 2) d -= m; if (d < -m / 2) d += m; return d; }
static void cmpa(const char *what, int g, double got, double want, double tol, double period) {
    if (!isfinite(got)) { cmp(what, g, got, want, tol); return; }
    cmp(what, g, mod(got - want, period), 0, tol);
}

typedef struct { double r0, s; cx r1; double r0n; } P1;

// Checks the products of lag-0/lag-1 processors
static void zvw(int g, int p, double r0, cx r1, double vscale) {
    double n = fmax(1e-7, noise[p]), s = fmax(0, r0 - n), a1 = cabs(r1), e = E0 * r0;
    cmp("S", g, sp->S[p][g], s, e);
    cmp("SNR", g, sp->SNR[p][g], s / n, e / n + 1e-5 * s / n);
    cmp("SQI", g, sp->Q[p][g], a1 / r0, 3 * E0);
    if (s > 1e-3 * r0) cmp("Z", g, sp->Z[p][g], 10 * log10(s) + S2Z[p][g], 4.4 * e / s + 2e-5 * (fabs(S2Z[p][g]) + 100));
    if (a1 > 1e-3 * r0) {
        cmpa("V", g, sp->V[p][g], vscale * va * carg(r1), vscale * va * (e / a1 + 1e-5), 2 * M_PI * vscale * va);
        cmp("W2", g, pow(sp->W[p][g] / (vscale * wa), 2), log(fmax(1, s / a1)), e / fmax(s, 1e-3 * a1) * (s > a1 * 0.5) + 1.5 * e / a1 + 1e-5 * log(fmax(1, s / a1)));
        stat_add("velocities", 1);
    }
}
static double Zerr(int p, double r0) { double s = r0 - noise[p]; return s > 1e-3 * r0 ? 4.4 * E0 * r0 / s + 3e-3 : -1; }
static int zdrok(double r0h, double r0v) { return r0h - noise[0] > 1e-3 * r0h && r0v - noise[1] > 1e-3 * r0v; }
static void zdr(int g, double r0h, double r0v) {
    if (!zdrok(r0h, r0v)) return;
    double sh = r0h - noise[0], sv = r0v - noise[1];
    cmp("ZDR", g, sp->ZDR[g], 10 * log10(sh / sv) + S2Z[0][g] - S2Z[1][g] + dcal[g], 4.4 * E0 * (r0h / sh + r0v / sv) + 1e-4);
}
static void phidp(int g, cx c, double cal, double mag, int wrapped) {
    if (cabs(c) < 1e-3 * mag) return;
    cmpa("PhiDP", g, sp->PhiDP[g], carg(c) + cal, E0 * mag / cabs(c) + 1e-5, 2 * M_PI);
    if (wrapped && !(fabs(sp->PhiDP[g]) < M_PI + 1e-4)) VIOL("phidp-range", "gate %d: PhiDP %.6g is not within a half turn", g, sp->PhiDP[g]);
}
static cx mean2(int pa, int pb_, int off, int g, int from, int step) {     // mean X_pa[n] conj X_pb[n-off]
    cx s = 0; int c = 0;
    for (int n = from; n < N; n += step) if (n - off >= 0 && n - off < N) { s += X[n][pa][g] * conj(X[n - off][pb_][g]); c++; }
    return s / c;
}

static void t_pp(void) {
    if (RKPulsePair(sp, pl, N) != N) VIOL("pp-return", "did not process every pulse");
    for (int g = 0; g < G; g++) {
        double r0[2];
        for (int p = 0; p < 2; p++) {
            r0[p] = creal(mean2(p, p, 0, g, 0, 1));
            zvw(g, p, r0[p], mean2(p, p, 1, g, 1, 1), 1);
            cmp("R2", g, sp->aR[p][2][g], cabs(mean2(p, p, 2, g, 2, 1)), 3 * E0 * r0[p]);
        }
        cx c = mean2(0, 1, 0, g, 0, 1);
        double m = sqrt(r0[0] * r0[1]);
        zdr(g, r0[0], r0[1]);
        phidp(g, c, pcal[g], m, 1);
        if (zdrok(r0[0], r0[1])) {
            double w = cabs(c) / m * sqrt((1 + noise[0] / (r0[0] - noise[0])) * (1 + noise[1] / (r0[1] - noise[1])));
            cmp("RhoHV", g, sp->RhoHV[g], w, w * (2e-3 + E0 * r0[0] / (r0[0] - noise[0]) + E0 * r0[1] / (r0[1] - noise[1])) + 1e-4);
        }
    }
}
static void t_hop(void) {
    RKPulsePairHop(sp, pl, N);
    for (int g = 0; g < G; g++) {
        double r0[2];
        for (int p = 0; p < 2; p++) {
            r0[p] = creal(mean2(p, p, 0, g, par, 2));
            zvw(g, p, r0[p], mean2(p, p, 1, g, par + 1, 2), 1);
        }
        cx c = mean2(0, 1, 0, g, par, 2);
        double m = sqrt(r0[0] * r0[1]);
        zdr(g, r0[0], r0[1]);
        phidp(g, c, pcal[g], m, 1);
        if (zdrok(r0[0], r0[1])) {
            double w = cabs(c) / m * sqrt((1 + noise[0] / (r0[0] - noise[0])) * (1 + noise[1] / (r0[1] - noise[1])));
            cmp("RhoHV", g, sp->RhoHV[g], w, w * (2e-3 + E0 * r0[0] / (r0[0] - noise[0]) + E0 * r0[1] / (r0[1] - noise[1])) + 1e-4);
        }
    }
}
static void t_atsr(void) {
    RKPulsePairATSR(sp, pl, N);
    int ev = par, od = 1 - par;
    for (int g = 0; g < G; g++) {
        double hc = creal(mean2(0, 0, 0, g, ev, 2)), vx = creal(mean2(1, 1, 0, g, ev, 2)), vc = creal(mean2(1, 1, 0, g, od, 2)), hx = creal(mean2(0, 0, 0, g, od, 2));
        double m = sqrt(hc * vc);
        zvw(g, 0, hc, mean2(0, 0, 2, g, ev + 2, 2), 0.5);
        zvw(g, 1, vc, mean2(1, 1, 2, g, od + 2, 2), 0.5);
        zdr(g, hc, vc);
        if (zdrok(hc, vc)) {
            cmp("LDRh", g, sp->L[0][g], 10 * log10(vx / (hc - noise[0])), 4.4 * E0 * (1 + hc / (hc - noise[0])) + 1e-3);
            cmp("LDRv", g, sp->L[1][g], 10 * log10(hx / (vc - noise[1])), 4.4 * E0 * (1 + vc / (vc - noise[1])) + 1e-3);
        }
        cx x0 = mean2(0, 1, 0, g, ev, 2), x1 = mean2(1, 0, 0, g, od, 2);
        cmp("RhoXPh", g, sp->RhoXP[0][g], cabs(x0) / sqrt(hc * vx), 2e-3);
        cmp("RhoXPv", g, sp->RhoXP[1][g], cabs(x1) / sqrt(hx * vc), 2e-3);
        if (cabs(x0) > 1e-3 * sqrt(hc * vx)) cmpa("PhiXPh", g, sp->PhiXP[0][g], carg(x0), E0 * sqrt(hc * vx) / cabs(x0) + 1e-5, 2 * M_PI);
        if (cabs(x1) > 1e-3 * sqrt(hx * vc)) cmpa("PhiXPv", g, sp->PhiXP[1][g], carg(x1), E0 * sqrt(hx * vc) / cabs(x1) + 1e-5, 2 * M_PI);
        cx ca = 0, cb = 0; int na = 0, nb = 0;
        for (int n = ev; n < N; n += 2) {
            if (n + 1 < N) { ca += X[n][0][g] * conj(X[n + 1][1][g]); na++; }
            if (n - 1 >= 0) { cb += X[n - 1][1][g] * conj(X[n][0][g]); nb++; }
        }
        ca /= na; cb /= nb;
        double w = 0.5 * (cabs(ca) + cabs(cb)) / m;
        cmp("RhoHV", g, sp->RhoHV[g], w, w * 2e-3 + 1e-4);
        if (cabs(ca) > 0.01 * m && cabs(cb) > 0.01 * m) {
            cmpa("PhiDP", g, sp->PhiDP[g], 0.5 * carg(ca * conj(cb)) + pcal[g], 0.5 * E0 * m * (1 / cabs(ca) + 1 / cabs(cb)) + 1e-5, M_PI);
            double d = carg(ca * conj(cb));
            if (fabs(fabs(d) - M_PI) > 0.01) cmpa("PhiDP", g, sp->PhiDP[g], 0.5 * d + pcal[g], 0.5 * E0 * m * (1 / cabs(ca) + 1 / cabs(cb)) + 1e-5, 2 * M_PI);
        }
    }
}
static void t_ml(void) {
    int uc = sp->userLagChoice = ri(5), L = uc == 0 ? 5 : uc + 1, ch;
    if (L > N) L = N;
    ch = uc < L - 1 ? uc : L - 1;
    RKMultiLag(sp, pl, N);
    double NN = L - 1;
    for (int g = 0; g < G; g++) {
        double a[2][5] = {{0}}, S[2];
        cx r[2][5];
        int ok = 1;
        for (int p = 0; p < 2; p++) for (int k = 0; k < L; k++) { r[p][k] = mean2(p, p, k, g, k, 1); a[p][k] = cabs(r[p][k]); if (a[p][k] < 0.02 * a[p][0]) ok = 0; }
        double m = sqrt(a[0][0] * a[1][0]), lg = 0;
        for (int k = -(L - 1); k <= L - 1; k++) {
            cx c = k >= 0 ? mean2(0, 1, k, g, k, 1) : mean2(0, 1, k, g, 0, 1);
            if (cabs(c) < 0.02 * m) ok = 0;
            lg += (3 * NN * NN + 3 * NN - 1 - 5.0 * k * k) * log(cabs(c));
        }
        double gC = exp(lg * 3 / ((2 * NN - 1) * (2 * NN + 1) * (2 * NN + 3)));
        if (!ok) { stat_add("gates_ill_conditioned", 1); continue; }
        double T = E0 * 50;          // each lag is at least 2% of the power
        for (int p = 0; p < 2; p++) {
            double s, num, den, wsc;
            double *q = a[p];
            if (ch <= 1) { s = q[0] - noise[p]; num = log(s); den = log(q[1]); wsc = 1; if (s < 0.01 * q[0]) { ok = 0; continue; } }
            else if (ch == 2) { s = pow(q[1], 4. / 3) / pow(q[2], 1. / 3); num = log(q[1]); den = log(q[2]); wsc = 1 / sqrt(3); }
            else if (ch == 3) { s = pow(q[1], 6. / 7) * pow(q[2], 3. / 7) / pow(q[3], 2. / 7); num = 11 * log(q[1]) + 2 * log(q[2]); den = 13 * log(q[3]); wsc = 1 / (7 * sqrt(2)); }
            else { s = pow(q[1], 54. / 86) * pow(q[2], 39. / 86) * pow(q[3], 14. / 86) / pow(q[4], 21. / 86); num = 13 * log(q[1]) + 7 * log(q[2]); den = 3 * log(q[3]) + 17 * log(q[4]); wsc = 1 / sqrt(258); }
            S[p] = s;
            double t = ch <= 1 ? E0 * q[0] / s : T;
            cmp("S", g, sp->S[p][g], s, s * 3 * t);
            cmp("SNR", g, sp->SNR[p][g], s / noise[p], s / noise[p] * 3 * t);
            cmp("SQI", g, sp->Q[p][g], q[1] / fmax(1e-6, q[0]), 1e-4);
            cmp("Z", g, sp->Z[p][g], 10 * log10(s) + S2Z[p][g], 4.4 * 3 * t + 1e-3);
            cmpa("V", g, sp->V[p][g], va * carg(r[p][1]), va * (E0 * 50 + 1e-5), 2 * M_PI * va);
            cmp("W2", g, pow(sp->W[p][g] / (wa * wsc), 2), fmax(0, num - den), ch <= 1 ? 1.5 * t + 1e-3 : 26 * T + 1e-4 * fabs(num));
        }
        if (!ok) continue;
        cmp("ZDR", g, sp->ZDR[g], 10 * log10(S[0] / S[1]) + dcal[g], ch <= 1 ? 4.4 * E0 * (a[0][0] / S[0] + a[1][0] / S[1]) + 1e-4 : 4.4 * 6 * T);
        double w = ch <= 1 ? gC / m : gC / sqrt(S[0] * S[1]);
        // the exponents of the correlation fit amplify rounding by at most about 3 N per lag
        cmp("RhoHV", g, sp->RhoHV[g], w, w * (6 * T + 1e-3));
        phidp(g, mean2(0, 1, 0, g, 0, 1), pcal[g], m, 1);
        stat_add("velocities", 1);
    }
}
static void t_sp(void) {
    int order = (int)ceilf(log2f(N * 1.2f));
    if (order > 11) order = 11;
    int nf = 1 << order;
    prepareScratch(sp);
    if (RKSpectralMoment(sp, pl, N) != N) VIOL("sp-return", "did not process every pulse");
    if (sp->fftOrder != order) VIOL("sp-order", "%d pulses: transform order %d, expected %d", N, sp->fftOrder, order);
    static cx tw[2048];
    for (int k = 0; k < nf; k++) tw[k] = cexp(-2 * M_PI * I * k / nf);
    for (int g = 0; g < G; g++) {
        double r0[2];
        for (int p = 0; p < 2; p++) {
            r0[p] = creal(mean2(p, p, 0, g, 0, 1));
            double s = r0[p] - noise[p];
            cmp("S", g, sp->S[p][g], s, E0 * r0[p] + E0 * noise[p]);
            cmp("SNR", g, sp->SNR[p][g], s / noise[p], E0 * r0[p] / noise[p] + 1e-4);
            cmp("SQI", g, sp->Q[p][g], fmin(1, s / noise[p]), E0 * r0[p] / noise[p] + 1e-4);
            if (s > 1e-3 * r0[p]) cmp("Z", g, sp->Z[p][g], 10 * log10(s) + S2Z[p][g], 4.4 * E0 * r0[p] / s + 5e-3);
            if (g < 6 && nf <= 256) {
                cx m = 0; double A = 0;
                for (int k = 0; k < nf; k++) {
                    cx f = 0;
                    for (int n = 0; n < N; n++) f += X[n][p][g] * tw[(k * n) % nf];
                    A += cabs(f);
                    m += cabs(f) * conj(tw[k]);
                }
                if (cabs(m) > 1e-2 * A) { cmpa("V", g, sp->V[p][g], va * carg(m), va * (1e-4 * A / cabs(m) + 1e-5), 2 * M_PI * va); stat_add("velocities", 1); }
            }
        }
        cx c = mean2(0, 1, 0, g, 0, 1);
        double m = sqrt(r0[0] * r0[1]);
        if (zdrok(r0[0], r0[1])) cmp("ZDR", g, sp->ZDR[g], 10 * log10((r0[0] - noise[0]) / (r0[1] - noise[1])) + dcal[g], 4.4 * E0 * (r0[0] / (r0[0] - noise[0]) + r0[1] / (r0[1] - noise[1])) + 1e-4);
        cmp("RhoHV", g, sp->RhoHV[g], cabs(c) / m, 1e-3);
        phidp(g, c, pcal[g], m, 0);
    }
}

// ---- censoring ---------------------------------------------------------------------------------------------------
static void t_ray(void) {
    RKRay *ray = RKGetRayFromBuffer(rb, 0);
    int which = ri(3);
    prepareScratch(sp);
    if (which == 0) RKPulsePair(sp, pl, N); else if (which == 1) RKPulsePairATSR(sp, pl, N); else { sp->userLagChoice = ri(5); RKMultiLag(sp, pl, N); }
    // ATSR is the only one that fills these
    if (which != 1) for (int p = 0; p < 2; p++) for (int g = 0; g < cap; g++) { sp->L[p][g] = rf(-40, 20); sp->RhoXP[p][g] = rf(0, 1.1); sp->PhiXP[p][g] = rf(-4, 4); }
    for (int g = 0; g < G; g++) sp->KDP[g] = rf(-1, 1);
    if (chance(0.3)) for (int g = 0; g < G; g++) { sp->RhoHV[g] = rf(0, 1.2); sp->PhiDP[g] = rf(-3.3, 3.3); sp->ZDR[g] = rf(-12, 18); sp->Z[0][g] = rf(-50, 110); sp->V[0][g] = rf(-40, 40); sp->W[0][g] = rf(-1, 15); }
    cfg->SNRThreshold = rf(-20, 40);
    cfg->SQIThreshold = chance(0.3) ? 0 : rf(0, 1);
    if (which == 2 && chance(0.3)) sp->S[0][ri(G)] = NAN;
    struct { float S[2], Z[2], V[2], W[2], Q[2], L[2], RX[2], PX[2], D, P, K, R; } o[MG];
    for (int g = 0; g < G; g++) {
        for (int p = 0; p < 2; p++) { o[g].S[p] = sp->S[p][g]; o[g].Z[p] = sp->Z[p][g]; o[g].V[p] = sp->V[p][g]; o[g].W[p] = sp->W[p][g]; o[g].Q[p] = sp->Q[p][g]; o[g].L[p] = sp->L[p][g]; o[g].RX[p] = sp->RhoXP[p][g]; o[g].PX[p] = sp->PhiXP[p][g]; }
        o[g].D = sp->ZDR[g]; o[g].P = sp->PhiDP[g]; o[g].K = sp->KDP[g]; o[g].R = sp->RhoHV[g];
    }
    int r = makeRayFromScratch(sp, ray);
    if (r != G || ray->header.gateCount != G) VIOL("ray-gates", "%d gates in, ray has %d (returned %d)", G, ray->header.gateCount, r);
#define FD(idx) RKGetFloatDataFromRay(ray, RKBaseProductIndex##idx)
    double th = pow(10, 0.1 * cfg->SNRThreshold), tq = cfg->SQIThreshold;
    // 0 censored, 1 kept, 2 within rounding of a threshold
    int keep[MG][2];
    for (int g = 0; g < G; g++) for (int p = 0; p < 2; p++) {
        double snr = (double)o[g].S[p] / sp->noise[p];
        keep[g][p] = snr > th && o[g].Q[p] > tq;
        if (fabs(snr - th) < 1e-5 * th || fabs(o[g].Q[p] - tq) < 1e-6) keep[g][p] = 2;
    }
    int fin[MG][2];
    for (int g = 0; g < G; g++) for (int p = 0; p < 2; p++) {
        fin[g][p] = keep[g][p];
        if (g + 1 < G && fin[g][p]) { if (keep[g + 1][p] == 0) fin[g][p] = 0; else if (keep[g + 1][p] == 2) fin[g][p] = 2; }
    }
#define SAME(x, y) ((isnan(x) && isnan(y)) || (x) == (y))
    for (int g = 0; g < G; g++) {
        float f1[] = {FD(Z)[g], FD(V)[g], FD(W)[g], FD(Zv)[g], FD(Vv)[g], FD(Wv)[g]}, s1[] = {o[g].Z[0], o[g].V[0], o[g].W[0], o[g].Z[1], o[g].V[1], o[g].W[1]};
        float f2[] = {FD(D)[g], FD(P)[g], FD(K)[g], FD(R)[g], FD(Lh)[g], FD(Lv)[g], FD(RXh)[g], FD(RXv)[g], FD(PXh)[g], FD(PXv)[g]};
        float s2[] = {o[g].D, o[g].P, o[g].K, o[g].R, o[g].L[0], o[g].L[1], o[g].RX[0], o[g].RX[1], o[g].PX[0], o[g].PX[1]};
        int k1 = fin[g][0], k2 = fin[g][0] == 0 || fin[g][1] == 0 ? 0 : fin[g][0] == 1 && fin[g][1] == 1 ? 1 : 2;
        stat_add(k1 == 1 ? "gates_kept" : "gates_censored", 1);
        for (int j = 0; j < 6; j++) if ((k1 == 1 && !SAME(f1[j], s1[j])) || (k1 == 0 && !isnan(f1[j])) || (k1 == 2 && !isnan(f1[j]) && f1[j] != s1[j]))
            VIOL("ray-censor", "gate %d of %d: product %d is %.6g, estimate %.6g, expected %s (SNR %.5g threshold %.5g, SQI %.4g threshold %.4g)", g, G, j, f1[j], s1[j], k1 ? "kept" : "censored", o[g].S[0] / sp->noise[0], th, o[g].Q[0], tq);
        for (int j = 0; j < 10; j++) if ((k2 == 1 && !SAME(f2[j], s2[j])) || (k2 == 0 && !isnan(f2[j])) || (k2 == 2 && !isnan(f2[j]) && f2[j] != s2[j]))
            VIOL("ray-censor-dual", "gate %d of %d: dual-polarisation product %d is %.6g, estimate %.6g, expected %s", g, G, j, f2[j], s2[j], k2 ? "kept" : "censored");
        for (int p = 0; p < 2; p++) {
            float s = p ? FD(Sv)[g] : FD(Sh)[g];
            if (o[g].S[p] > 0 && !(fabs(s - (10 * log10(o[g].S[p]) - 80)) < 1e-3)) VIOL("ray-signal", "gate %d: signal %.6g from power %.6g", g, s, o[g].S[p]);
        }
        if (FD(Q)[g] != o[g].Q[0] && !isnan(o[g].Q[0])) VIOL("ray-sqi", "gate %d: SQI %.6g from %.6g", g, FD(Q)[g], o[g].Q[0]);
    }
}

// ---- calibration ------------------------------------------------------------------------------------------------
static void t_cal(void) {
    RKWaveform wf;
    memset(&wf, 0, sizeof(wf));
    wf.count = rr(1, 3);
    int F = wf.filterCounts[0] = rr(1, 4), at = 0, order[4] = {0, 1, 2, 3};
    for (int j = 1; j < wf.count; j++) wf.filterCounts[j] = 1;
    for (int j = F - 1; j > 0; j--) { int k = ri(j + 1), t = order[j]; order[j] = order[k]; order[k] = t; }
    RKFilterAnchor *an = wf.filterAnchors[0];
    int owner[MG];
    for (int g = 0; g < cap; g++) owner[g] = -1;
    for (int q = 0; q < F; q++) {
        int k = order[q], len = q == F - 1 ? (chance(0.5) ? RKMaximumGateCount : rr(0, cap)) : rr(0, cap / F);
        an[k].outputOrigin = at;
        an[k].inputOrigin = ri(cap);
        an[k].maxDataLength = len;
        an[k].sensitivityGain = rf(-5, 30);
        for (int g = at; g < at + len && g < G; g++) owner[g] = k;
        at += len;
    }
    cfg->waveformDecimate = &wf;
    cfg->systemDCal = rf(-2, 2);
    cfg->systemPCal = rf(-3, 3);
    for (int p = 0; p < 2; p++) cfg->systemZCal[p] = rf(-60, 60);
    for (int k = 0; k < F; k++) { cfg->DCal[k] = rf(-2, 2); cfg->PCal[k] = rf(-3, 3); for (int p = 0; p < 2; p++) cfg->ZCal[k][p] = rf(-10, 10); }
    sp->gateSizeMeters = rf(7.5, 500);
    sp->samplingAdjustment = rf(40, 70);
    float before[2][MG], bd[MG], bp[MG];
    for (int g = 0; g < cap; g++) { for (int p = 0; p < 2; p++) before[p][g] = sp->S2Z[p][g]; bd[g] = sp->dcal[g]; bp[g] = sp->pcal[g]; }
    RKCalibratorSimple(NULL, sp);
    for (int g = 0; g < cap; g++) {
        int k = owner[g];
        if (k < 0) {
            if (sp->S2Z[0][g] != before[0][g] || sp->S2Z[1][g] != before[1][g] || sp->dcal[g] != bd[g] || sp->pcal[g] != bp[g]) VIOL("cal-outside", "gate %d of %d belongs to no filter but its calibration changed", g, G);
            continue;
        }
        stat_add("gates_calibrated", 1);
        for (int p = 0; p < 2; p++) if (g) {
            double w = 20 * log10(g * (double)sp->gateSizeMeters) + cfg->systemZCal[p] + cfg->ZCal[k][p] - an[k].sensitivityGain - sp->samplingAdjustment;
            if (!(fabs(sp->S2Z[p][g] - w) < 1e-3)) VIOL("cal-z", "gate %d of %d, filter %d of %d, pol %d: %.6g dB, expected %.6g", g, G, k, F, p, sp->S2Z[p][g], w);
        }
        if (!(fabs(sp->dcal[g] - (cfg->systemDCal + cfg->DCal[k])) < 1e-4)) VIOL("cal-d", "gate %d, filter %d of %d: %.6g, expected %.6g", g, k, F, sp->dcal[g], cfg->systemDCal + cfg->DCal[k]);
        if (!(fabs(mod(sp->pcal[g] - (cfg->systemPCal + cfg->PCal[k]), 2 * M_PI)) < 1e-4) || fabs(sp->pcal[g]) > M_PI + 1e-4) VIOL("cal-p", "gate %d, filter %d of %d: %.6g, expected %.6g", g, k, F, sp->pcal[g], cfg->systemPCal + cfg->PCal[k]);
    }
    cfg->waveformDecimate = NULL;
}

// ---- noise floor ------------------------------------------------------------------------------------------------
static void t_noise(void) {
    double pw[2] = {pow(10, rf(-2, 4)), pow(10, rf(-2, 4))};
    int echo0 = ri(G), echoN = chance(0.5) ? 0 : ri(G / 3 + 1);
    double ea = pow(10, rf(0.5, 2));
    int wide = chance(0.2);
    for (int n = 0; n < N; n++) for (int p = 0; p < 2; p++) {
        RKIQZ z = RKGetSplitComplexDataFromPulse(pl[n], p);
        for (int g = 0; g < cap; g++) {
            double a = sqrt(pw[p] / 2);
            double e = g >= echo0 && g < echo0 + echoN ? a * ea : 0;
            z.i[g] = a * rn() + e * cos(0.3 * n);
            z.q[g] = a * rn() + e * sin(0.3 * n);
            if (wide) { z.i[g] *= g + 1; z.q[g] *= g + 1; }
        }
        pl[n]->header.pulseWidthSampleCount = ri(20);
        pl[n]->header.gateCount = pl[n]->header.downSampledGateCount = G;
    }
    cfg->noise[0] = 7.5f;
    cfg->noise[1] = 9.25f;
    sp->gateSizeMeters = chance(0.5) ? rf(100, 1000) : rf(30, 2000);
    sp->gateCount = G;
    sp->noise[0] = sp->noise[1] = -1;
    int r = RKRayNoiseEstimator(sp, pl, N);
    if (r == RKResultSuccess) {
        stat_add("noise_estimates", 1);
        for (int p = 0; p < 2; p++) {
            double d = 10 * log10(sp->noise[p] / pw[p]);
            if (!(sp->noise[p] > 0)) VIOL("noise-positive", "estimate %.6g, pol %d, %d gates %d pulses", sp->noise[p], p, G, N);
            else if (!wide && !(fabs(d) < 1.5)) VIOL("noise-value", "pol %d: estimate %.6g, white noise of power %.6g (%.2f dB off; %d gates, %d pulses, echo %d)", p, sp->noise[p], pw[p], d, G, N, echoN);
        }
    } else {
        stat_add("noise_fallbacks", 1);
        if (sp->noise[0] != 7.5f || sp->noise[1] != 9.25f) VIOL("noise-fallback", "estimation failed but the noise floor is %.6g %.6g instead of the configured one", sp->noise[0], sp->noise[1]);
    }
}

static void vp_case(uint64_t index) {
    int big = !strcmp(vp_mode, "noise"), k;
    static int c0;
    if (!c0 || index % 16 == 0) c0 = 16 * rr(1, big ? 17 : 6);
    if (big && c0 < 128) c0 = 16 * rr(8, 17);
    // the capacity follows from the index, so that a replay of one case uses the same
    uint64_t keep = vp_s;
    vp_s = vp_seed * 77 + index / 16;
    c0 = 16 * rr(big ? 4 : 1, big ? 17 : 6);
    vp_s = keep;
    int c = c0;
    N = chance(0.85) ? rr(4, 40) : chance(0.9) ? rr(41, 200) : rr(500, 2000);
    if (N > 200) { G = rr(1, 8); } else G = chance(0.2) ? c : rr(1, c);
    if (big) { G = chance(0.2) ? c : rr(24, c); if (N > 200) N = 200; }
    if (!strcmp(vp_mode, "ml") && chance(0.05)) N = 3;
    setup(c, N);
    // Residue of an earlier, different ray
    for (int p = 0; p < 2; p++) {
        for (k = 0; k < RKMaximumLagCount; k++) for (int g = 0; g < cap; g++) sp->R[p][k].i[g] = sp->R[p][k].q[g] = sp->aR[p][k][g] = sp->RX[p][k].i[g] = sp->RX[p][k].q[g] = 1e4f;
        for (int g = 0; g < cap; g++) sp->mX[p].i[g] = sp->mX[p].q[g] = sp->Z[p][g] = sp->V[p][g] = sp->W[p][g] = sp->S[p][g] = sp->Q[p][g] = 77;
        for (k = 0; k < 2 * RKMaximumLagCount - 1; k++) for (int g = 0; g < cap; g++) sp->CX[p][k].i[g] = sp->CX[p][k].q[g] = sp->C[k].i[g] = sp->C[k].q[g] = 1e4f;
    }
    for (int g = 0; g < cap; g++) sp->gC[g] = sp->ZDR[g] = sp->PhiDP[g] = sp->RhoHV[g] = 99;
    par = ri(2);
    fill(rr(0, 1000) * 2 + par);
    if (!strcmp(vp_mode, "pp")) t_pp();
    else if (!strcmp(vp_mode, "hop")) { t_hop(); }
    else if (!strcmp(vp_mode, "atsr")) { if (N < 6) N = N; t_atsr(); }
    else if (!strcmp(vp_mode, "ml")) t_ml();
    else if (!strcmp(vp_mode, "sp")) t_sp();
    else if (!strcmp(vp_mode, "ray")) t_ray();
    else if (!strcmp(vp_mode, "cal")) t_cal();
    else t_noise();
    DISTINCTF("%s %d %d %d %d %d", vp_mode, G, cap, N, par, sp->userLagChoice);
    if (index % 500 == 1) sample("%s: %d gates (capacity %d), %d pulses, first index parity %d, noise %.3g %.3g", vp_mode, G, cap, N, par, noise[0], noise[1]);
    teardown();
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
