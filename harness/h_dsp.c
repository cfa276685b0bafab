// Windows, ramps, angle arithmetic, analytic signals, approximations, float formats against their definitions.
#include "vp.h"
#include <complex.h>
typedef double complex cx;

static double i0(double x) { double s = 1, t = 1; for (int k = 1; k < 400; k++) { t *= (x / 2 / k) * (x / 2 / k); s += t; if (t < s * 1e-17) break; } return s; }
static void eq(const char *k, double a, double b, double tol, const char *what, int n, int i, double par) {
    stat_add("values_compared", 1);
    if (!(fabs(a - b) <= tol)) VIOL(k, "%s length %d parameter %.6g: element %d is %.8g, definition gives %.8g", what, n, par, i, a, b);
}
static void t_window(void) {
    int n = chance(0.5) ? rr(2, 40) : rr(2, 3000), type = ri(6);
    double par = 0, bl = chance(0.4) ? 0 : rf(0, 1);
    float *b = malloc(n * sizeof(float));
    if (type == RKWindowTypeKaiser) par = rf(0, 15);
    else if (type == RKWindowTypeTukey) par = rf(-0.2, 1.2);
    else if (type == RKWindowTypeTrapezoid) par = rf(-1, 1);
    if (type == RKWindowTypeKaiser || type == RKWindowTypeTukey || type == RKWindowTypeTrapezoid) RKWindowMake(b, type, n, par, bl);
    else RKWindowMake(b, type, n, bl);
    for (int i = 0; i < n; i++) {
        double x = (double)i / (n - 1), w = 1;
        switch (type) {
            case RKWindowTypeHann: w = 0.5 * (1 - cos(2 * M_PI * (i + 1) / (n + 1))); break;
            case RKWindowTypeHamming: w = 0.54 - 0.46 * cos(2 * M_PI * x); break;
            case RKWindowTypeKaiser: w = i0(par * sqrt(fmax(0, 1 - (2 * x - 1) * (2 * x - 1)))) / i0(par); break;
            case RKWindowTypeTrapezoid: w = par < 0 ? 1 + (fabs(par) - 1) * x : par + (1 - par) * x; break;
            case RKWindowTypeTukey:
                if (par <= 0) w = 1;
                else if (par >= 1) w = 0.5 * (1 - cos(2 * M_PI * (i + 1) / (n + 1)));
                else { double d = fmin(x, 1 - x); w = d < par / 2 ? 0.5 * (1 - cos(2 * M_PI * d / par)) : 1; }
                break;
        }
        eq("window", b[i], (1 - bl) * w + bl, 2e-6, "window", n, i, par);
    }
    DISTINCTF("w %d %d %.3f", type, n, par);
    free(b);
}
static void t_ramp(void) {
    int n = chance(0.5) ? rr(2, 40) : rr(2, 3000), type = ri(5);
    double par = rf(0, 1);
    float *b = malloc(n * sizeof(float));
    RKRampMake(b, type, n, par);
    for (int i = 0; i < n; i++) {
        double x = (double)i / (n - 1);
        double w = type == RKRampTypeOnes ? 1 : type == RKRampTypeStep ? (i >= par * n) : type == RKRampTypeLinear ? x : type == RKRampTypeRaisedCosine ? 0.5 * (1 - cos(M_PI * x)) : 0;
        eq("ramp", b[i], w, 2e-6, "ramp", n, i, par);
    }
    DISTINCTF("r %d %d %.3f", type, n, par);
    free(b);
}
static double wrap(double d) { d = fmod(d, 360); if (d > 180) d -= 360; if (d < -180) d += 360; return d; }
static void t_angle(void) {
    for (int k = 0; k < 200; k++) {
        int q = chance(0.3);
        float a = q ? rr(0, 8) * 45 : rf(0, 360), b = q ? rr(0, 8) * 45 : chance(0.5) ? fmod(a + rf(-10, 10) + 360, 360) : rf(0, 360), al = chance(0.2) ? ri(2) : rf(0, 1);
        double d = (double)a - b;
        float s = RKGetSignedMinorSectorInDegrees(a, b), m = RKGetMinorSectorInDegrees(a, b), r = RKInterpolatePositiveAngles(a, b, al);
        stat_add("values_compared", 4);
        if (fabs(s) > 180 || fabs(wrap(s - d)) > 1e-4) VIOL("angle-sector", "sector from %.6g to %.6g: %.6g", b, a, s);
        if (m != fabsf(s)) VIOL("angle-minor", "unsigned sector of %.6g and %.6g: %.6g, signed %.6g", a, b, m, s);
        double path = RKGetSignedMinorSectorInDegrees(b, a);
        if (!(r >= 0 && r <= 360) || fabs(wrap(r - (a + al * path))) > 1e-4) VIOL("angle-azimuth", "%.3g of the way from %.6g to %.6g: %.6g", al, a, b, r);
        float e1 = rf(-10, 190), e2 = e1 + rf(-5, 5), e = RKInterpolateAngles(e1, e2, al);
        if (fabs(e - (e1 + (double)al * (e2 - e1))) > 2e-4) VIOL("angle-elevation", "%.3g of the way from %.6g to %.6g: %.6g", al, e1, e2, e);
        DISTINCTF("a %.2f %.2f", a, b);
    }
}
static void t_hilbert(void) {
    int n = rr(2, 300), nf = 1;
    while (nf < n) nf *= 2;
    float *x = malloc(n * 4);
    RKComplex *y = malloc(n * sizeof(RKComplex));
    double p = 0;
    for (int i = 0; i < n; i++) { x[i] = rn(); p += x[i] * x[i]; }
    p = sqrt(p) + 1;
    RKHilbertTransform(x, y, n);
    cx *F = malloc(nf * sizeof(cx)), *tw = malloc(nf * sizeof(cx));
    for (int k = 0; k < nf; k++) tw[k] = cexp(-2 * M_PI * I * k / nf);
    for (int k = 0; k < nf; k++) { F[k] = 0; for (int i = 0; i < n; i++) F[k] += x[i] * tw[(k * i) % nf]; F[k] *= k == 0 || k == nf / 2 ? 1 : k < nf / 2 ? 2 : 0; }
    for (int i = 0; i < n; i++) {
        cx s = 0;
        for (int k = 0; k < nf; k++) s += F[k] * conj(tw[(k * i) % nf]);
        s /= nf;
        eq("hilbert", y[i].i, creal(s), 1e-5 * p, "analytic signal (real)", n, i, 0);
        eq("hilbert", y[i].q, cimag(s), 1e-5 * p, "analytic signal (imaginary)", n, i, 0);
    }
    DISTINCTF("h %d", n);
    free(x); free(y); free(F); free(tw);
}
static int gcd(int a, int b) { return b ? gcd(b, a % b) : a; }
static void t_misc(void) {
    for (int k = 0; k < 100; k++) {
        float x = rf(-M_PI, M_PI), s, c;
        RKFastSineCosine(x, &s, &c);
        eq("sincos", s, sin(x), 2e-3, "fast sine", 0, 0, x);
        eq("sincos", c, cos(x), 2e-3, "fast cosine", 0, 0, x);
        RKFasterSineCosine(x, &s, &c);
        eq("sincos", s, sin(x), 0.06, "faster sine", 0, 0, x);
        eq("sincos", c, cos(x), 0.06, "faster cosine", 0, 0, x);
        union { _Float16 f; RKWordFloat16 w; } h;
        union { uint16_t u; _Float16 f; } hu = {.u = r64()};
        if (((hu.u >> 10) & 31) == 0) hu.u &= 0x8000;
        if (((hu.u >> 10) & 31) != 31) {
            h.f = hu.f;
            RKWordFloat32 o = RKHalf2Single(h.w);
            float of; memcpy(&of, &o, 4);
            eq("half", of, (float)hu.f, 0, "half to single", hu.u, 0, 0);
        }
        union { uint32_t u; float f; RKWordFloat32 w; } u = {.u = r64()};
        int e = (u.u >> 23) & 255;
        if (e == 0) u.u &= 0x80000000u;
        if (e != 255) {
            RKWordFloat64 o = RKSingle2Double(u.w);
            double d; memcpy(&d, &o, 8);
            stat_add("values_compared", 1);
            if (d != (double)u.f) VIOL("single", "single %.9g widened to %.17g", u.f, d);
        }
        DISTINCTF("f %x %x", hu.u, u.u);
    }
    int n = rr(2, 30), s = RKBestStrideOfHops(n, false);
    if (s < 1 || (s >= n) || gcd(s, n) != 1) VIOL("stride", "%d hops: stride %d does not visit every hop", n, s);
    // noise of one pulse: mean power away from both ends
    RKBuffer b;
    int cap = 64, G = rr(3, 64), o = ri((G - 1) / 2 + 1);
    if (G <= 2 * o) return;
    RKPulseBufferAlloc(&b, cap, 1);
    RKPulse *q = RKGetPulseFromBuffer(b, 0);
    q->header.gateCount = G + ri(cap - G + 1);      // what is left after down sampling is what counts
    q->header.downSampledGateCount = G;
    q->header.s = RKPulseStatusCompressed;
    double w[2] = {0};
    for (int p = 0; p < 2; p++) {
        RKComplex *z = RKGetComplexDataFromPulse(q, p);
        for (int g = 0; g < cap; g++) { z[g].i = 100 * rn(); z[g].q = 100 * rn(); if (g >= o && g < G - o) w[p] += (double)z[g].i * z[g].i + (double)z[g].q * z[g].q; }
    }
    RKFloat noise[2];
    if (RKMeasureNoiseFromPulse(noise, q, o) != RKResultSuccess) VIOL("pulse-noise", "%d gates, margin %d: refused", G, o);
    else for (int p = 0; p < 2; p++) eq("pulse-noise", noise[p], w[p] / (G - 2 * o), 1e-4 * w[p], "noise of a pulse", G, p, o);
    RKPulseBufferFree(b);
}
static void vp_case(uint64_t index) {
    switch (index % 6) { case 0: case 1: t_window(); break; case 2: t_ramp(); break; case 3: t_angle(); break; case 4: t_hilbert(); break; default: t_misc(); }
    if (index % 700 == 3) sample("case kind %d", (int)(index % 6));
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
