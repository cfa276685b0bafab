// Vectorised kernels against element-wise double arithmetic. Arrays end exactly at the vector boundary that the
// documented padding guarantees, so the address sanitizer sees any access past it.
#include "vp.h"

#define V (sizeof(RKVec))
static void *arr(int n, size_t el) {
    size_t b = ((size_t)n * el + V - 1) / V * V;
    void *p = NULL;
    if (posix_memalign(&p, V, b ? b : V)) abort();
    memset(p, 0, b ? b : V);
    return p;
}
static int N;
static float *F(void) {
    float *x = arr(N, 4);
    double s = pow(10, rf(-3, 4));
    int kind = ri(4);
    for (int i = 0; i < N; i++) x[i] = kind == 0 ? rr(-32768, 32767) : kind == 1 ? rf(-1, 1) : s * rn();
    if (N && chance(0.2)) x[ri(N)] = 0;
    return x;
}
static RKIQZ Z(void) { RKIQZ z = {F(), F()}; return z; }
static void zfree(RKIQZ z) { free(z.i); free(z.q); }
static RKComplex *Y(void) {
    RKComplex *y = arr(N, 8);
    float *a = F(), *b = F();
    for (int i = 0; i < N; i++) { y[i].i = a[i]; y[i].q = b[i]; }
    free(a); free(b);
    return y;
}
static void eq(const char *what, int k, double got, double want, double mag) {
    stat_add("elements_compared", 1);
    if (!(fabs(got - want) <= 4e-7 * 4 * mag + 1e-30)) VIOL(what, "n %d element %d: got %.9g, element-wise arithmetic gives %.9g", N, k, got, want);
}
#define DUP(x, sz) memcpy(arr(N, sz), x, (size_t)N * sz)
static RKIQZ zdup(RKIQZ z) { RKIQZ r = {DUP(z.i, 4), DUP(z.q, 4)}; return r; }
static void same(const char *what, const void *a, const void *b, size_t n) { if (memcmp(a, b, n)) VIOL(what, "n %d: an input operand was modified", N); }

static void vp_case(uint64_t index) {
    N = index < 80 ? (int)index + 1 : chance(0.8) ? rr(1, 200) : rr(200, 5000);
    if (index == 0) N = 0 + 1;
    RKIQZ a = Z(), b = Z(), d = Z(), a0 = zdup(a), b0 = zdup(b), d0 = zdup(d);
    float *x = F(), *y = F(), *w = arr(N, 4);
    float f = rf(-3, 3);
    int c = ri(2), k, op = index % 27;
#define A a0.i[k], a0.q[k]
    double ai, aq, bi, bq, di, dq, s, m;
#define EACH for (k = 0; k < N; k++) if (ai = a0.i[k], aq = a0.q[k], bi = b0.i[k], bq = b0.q[k], di = d0.i[k], dq = d0.q[k], m = (fabs(ai) + fabs(aq)) * (fabs(bi) + fabs(bq)), s = c ? -1 : 1, 1)
    float *x0 = DUP(x, 4), *y0 = DUP(y, 4);
    switch (op) {
        case 0: RKSIMD_mul(x, y, w, N); EACH eq("mul", k, w[k], (double)x[k] * y[k], fabs((double)x[k] * y[k])); break;
        case 1: RKSIMD_zcpy(&a, &d, N); EACH { eq("zcpy", k, d.i[k], ai, 0); eq("zcpy", k, d.q[k], aq, 0); } break;
        case 2: RKSIMD_zadd(&a, &b, &d, N); EACH { eq("zadd", k, d.i[k], ai + bi, fabs(ai) + fabs(bi)); eq("zadd", k, d.q[k], aq + bq, fabs(aq) + fabs(bq)); } break;
        case 3: RKSIMD_zsub(&a, &b, &d, N); EACH { eq("zsub", k, d.i[k], ai - bi, fabs(ai) + fabs(bi)); eq("zsub", k, d.q[k], aq - bq, fabs(aq) + fabs(bq)); } break;
        case 4: case 5: RKSIMD_zmul(&a, &b, &d, N, c); EACH { eq("zmul", k, d.i[k], ai * bi - s * aq * bq, m); eq("zmul", k, d.q[k], aq * bi + s * ai * bq, m); } break;
        case 6: RKSIMD_zsmul(&a, &d, N, c); EACH { m = ai * ai + aq * aq; eq("zsmul", k, d.i[k], ai * ai - s * aq * aq, m); eq("zsmul", k, d.q[k], aq * ai + s * ai * aq, m); } break;
        case 7: RKSIMD_izadd(&a, &d, N); EACH { eq("izadd", k, d.i[k], ai + di, fabs(ai) + fabs(di)); eq("izadd", k, d.q[k], aq + dq, fabs(aq) + fabs(dq)); } break;
        case 8: RKSIMD_izsub(&a, &d, N); EACH { eq("izsub", k, d.i[k], di - ai, fabs(ai) + fabs(di)); eq("izsub", k, d.q[k], dq - aq, fabs(aq) + fabs(dq)); } break;
        case 9: case 10: RKSIMD_izmul(&a, &d, N, c); EACH { m = (fabs(ai) + fabs(aq)) * (fabs(di) + fabs(dq)); eq("izmul", k, d.i[k], di * ai - s * dq * aq, m); eq("izmul", k, d.q[k], dq * ai + s * di * aq, m); } break;
        case 11: case 12: RKSIMD_zcma(&a, &b, &d, N, c); EACH { m += fabs(di) + fabs(dq); eq("zcma", k, d.i[k], di + ai * bi - s * aq * bq, m); eq("zcma", k, d.q[k], dq + aq * bi + s * ai * bq, m); } break;
        case 13: RKSIMD_szcma(x, &b, &d, N); EACH { eq("szcma", k, d.i[k], di + x[k] * bi, fabs(di) + fabs(x[k] * bi)); eq("szcma", k, d.q[k], dq + x[k] * bq, fabs(dq) + fabs(x[k] * bq)); } break;
        case 14: RKSIMD_csz(f, &a, &d, N); EACH { eq("csz", k, d.i[k], di + f * ai, fabs(di) + fabs(f * ai)); eq("csz", k, d.q[k], dq + f * aq, fabs(dq) + fabs(f * aq)); } break;
        case 15: RKSIMD_zscl(&a, f, &d, N); EACH { eq("zscl", k, d.i[k], f * ai, fabs(f * ai)); eq("zscl", k, d.q[k], f * aq, fabs(f * aq)); } break;
        case 16: RKSIMD_izscl(&d, f, N); EACH { eq("izscl", k, d.i[k], f * di, fabs(f * di)); eq("izscl", k, d.q[k], f * dq, fabs(f * dq)); } break;
        case 17: RKSIMD_zabs(&a, w, N); EACH eq("zabs", k, w[k], hypot(ai, aq), hypot(ai, aq)); break;
        case 18: RKSIMD_ssadd(x, f, w, N); EACH eq("ssadd", k, w[k], (double)x[k] + f, fabs(x[k]) + fabs(f)); break;
        case 19: RKSIMD_subc(x, f, w, N); EACH eq("subc", k, w[k], (double)x[k] - f, fabs(x[k]) + fabs(f)); break;
        case 20: case 21: case 22: {
            RKComplex *p = Y(), *q = Y(), *p0 = DUP(p, 8), *q0 = DUP(q, 8);
            int how = ri(5);
            if (how == 0) RKSIMD_iymul(p, q, N), c = 0;
            else if (how == 1) RKSIMD_iymulc(p, q, N), c = 1;
            else if (how == 2) RKSIMD_iymul_reg(p, q, N), c = 0;
            else RKSIMD_iymul2(p, q, N, c);
            s = c ? -1 : 1;       // conjugates the destination operand
            for (k = 0; k < N; k++) {
                double si = p0[k].i, sq = p0[k].q, ti = q0[k].i, tq = s * q0[k].q;
                m = (fabs(si) + fabs(sq)) * (fabs(ti) + fabs(tq));
                eq(how == 2 ? "iymul_reg" : c ? "iymulc" : "iymul", k, q[k].i, si * ti - sq * tq, m);
                eq(how == 2 ? "iymul_reg" : c ? "iymulc" : "iymul", k, q[k].q, si * tq + sq * ti, m);
            }
            same("operand", p, p0, (size_t)N * 8);
            free(p); free(q); free(p0); free(q0);
            break;
        }
        case 23: {
            RKComplex *p = Y(), *p0 = DUP(p, 8);
            if (c) RKSIMD_iyconj(p, N); else RKSIMD_iyscl(p, f, N);
            for (k = 0; k < N; k++) {
                eq(c ? "iyconj" : "iyscl", k, p[k].i, c ? p0[k].i : f * p0[k].i, c ? 0 : fabs(f * p0[k].i));
                eq(c ? "iyconj" : "iyscl", k, p[k].q, c ? -p0[k].q : f * p0[k].q, c ? 0 : fabs(f * p0[k].q));
            }
            free(p); free(p0);
            break;
        }
        case 24: {
            RKComplex *p = Y();
            RKInt16C *h = arr(N, 4);
            for (k = 0; k < N; k++) h[k].i = r64(), h[k].q = r64();
            RKSIMD_IQZ2Complex(&a, p, N); EACH { eq("iqz2complex", k, p[k].i, ai, 0); eq("iqz2complex", k, p[k].q, aq, 0); }
            free(p); p = Y();
            RKSIMD_Complex2IQZ(p, &d, N); EACH { eq("complex2iqz", k, d.i[k], p[k].i, 0); eq("complex2iqz", k, d.q[k], p[k].q, 0); }
            RKSIMD_Int2Complex(h, p, N); EACH { eq("int2complex", k, p[k].i, h[k].i, 0); eq("int2complex", k, p[k].q, h[k].q, 0); }
            free(p); free(h);
            break;
        }
        case 25: {
            // The padding is zero here
            RKComplex *p = Y();
            double t = 0, tm = 0, ci = 0, cq = 0, cm = 0;
            for (k = 0; k < N; k++) { t += x[k]; tm += fabs(x[k]); ci += p[k].i; cq += p[k].q; cm += fabs(p[k].i) + fabs(p[k].q); }
            eq("sum", 0, RKSIMD_sum(x, N), t, tm * (1 + N / 64.0));
            RKComplex r = RKSIMD_ysum(p, N);
            eq("ysum", 0, r.i, ci, cm * (1 + N / 64.0));
            eq("ysum", 1, r.q, cq, cm * (1 + N / 64.0));
            free(p);
            break;
        }
        case 26: {
            float u = rf(0.01, 1);
            for (k = 0; k < N; k++) x[k] = x0[k] = fabs(x[k]) + 1e-3f, y[k] = y0[k] = fabs(y[k]) + 1e-3f;
            for (k = N; k % (V / 4); k++) x[k] = y[k] = 1;
            RKSIMD_izrmrm(&d, w, x, y, u, N);
            EACH {
                eq("izrmrm-scale", k, d.i[k], di * u, fabs(di * u)); eq("izrmrm-scale", k, d.q[k], dq * u, fabs(dq * u));
                double want = u * hypot(di, dq) / sqrt((double)x[k] * y[k]);
                eq("izrmrm", k, w[k], want, want * 500);      // approximate reciprocal
            }
            break;
        }
    }
    same("operand", a.i, a0.i, 4 * (size_t)N); same("operand", a.q, a0.q, 4 * (size_t)N);
    same("operand", b.i, b0.i, 4 * (size_t)N); same("operand", b.q, b0.q, 4 * (size_t)N);
    same("operand", x, x0, 4 * (size_t)N); same("operand", y, y0, 4 * (size_t)N);
    DISTINCTF("%d %d %d", op, N, c);
    if (index % 911 == 3) sample("operation %d on %d elements, conjugate %d, first operand (%g, %g)", op, N, c, a0.i[0], a0.q[0]);
    zfree(a); zfree(b); zfree(d); zfree(a0); zfree(b0); zfree(d0); free(x); free(y); free(w); free(x0); free(y0);
}
int main(int argc, char **argv) { return vp_main(argc, argv, vp_case); }
