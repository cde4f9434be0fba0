/* Feasibility of A x + b >= 0, x >= 0 over the rationals: the simplex method with Bland's rule on
   integer rows that share a denominator each.  Exact; gives up (2) when a number leaves 128 bits. */
#include <stdlib.h>
#include <string.h>
typedef __int128 I;
typedef unsigned __int128 U;

static I gcd(I a, I b) {
    U x = a < 0 ? -(U)a : (U)a, y = b < 0 ? -(U)b : (U)b;
    while (y) {
        if (!(x >> 64) && !(y >> 64)) {
            unsigned long p = (unsigned long)x, q = (unsigned long)y;
            while (q) { unsigned long t = p % q; p = q; q = t; }
            return (I)p;
        }
        U t = x % y; x = y; y = t;
    }
    return (I)x;
}

/* m rows, n variables.  coef: m*n; bhi/blo: constants.  On 1 (feasible): num/den (hi, lo) per variable. */
int lp_feasible(int m, int n, const long *coef, const long *bhi, const unsigned long *blo,
                long *numhi, unsigned long *numlo, long *denhi, unsigned long *denlo) {
    int st = 2;
    /* columns 0..n-1: the variables at 0, n: constant, n+1: denominator */
    I *a = malloc((size_t)m * (n + 2) * sizeof(I));
    int *basis = malloc(sizeof(int) * (m + n + 1)), *nb = basis + m;
    if (!a || !basis) goto out;
#define R(i) (a + (size_t)(i) * (n + 2))
    for (int i = 0; i < m; i++) {
        for (int k = 0; k < n; k++) R(i)[k] = coef[(size_t)i * n + k];
        R(i)[n] = ((I)bhi[i] << 64) | (I)blo[i];
        R(i)[n + 1] = 1;
        basis[i] = n + i;
    }
    for (int k = 0; k < n; k++) nb[k] = k;
    for (int it = 0; it < 5000; it++) {
        int r = -1, j = -1;
        for (int i = 0; i < m; i++)
            if (R(i)[n] < 0 && (r < 0 || basis[i] < basis[r])) r = i;
        if (r < 0) {
            for (int k = 0; k < n; k++) { numhi[k] = 0; numlo[k] = 0; denhi[k] = 0; denlo[k] = 1; }
            for (int i = 0; i < m; i++)
                if (basis[i] < n) {
                    int k = basis[i];
                    numhi[k] = (long)(R(i)[n] >> 64); numlo[k] = (unsigned long)R(i)[n];
                    denhi[k] = (long)(R(i)[n + 1] >> 64); denlo[k] = (unsigned long)R(i)[n + 1];
                }
            st = 1;
            goto out;
        }
        I *x = R(r);
        for (int k = 0; k < n; k++) if (x[k] > 0 && (j < 0 || nb[k] < nb[j])) j = k;
        if (j < 0) { st = 0; goto out; }
        /* d*x_out = b + sum row_k x_k   =>   p*x_j = d*x_out - b - sum_{k!=j} row_k x_k */
        I p = x[j], d = x[n + 1];
        for (int k = 0; k <= n; k++) x[k] = -x[k];
        x[j] = d;
        x[n + 1] = p;
        int t = basis[r]; basis[r] = nb[j]; nb[j] = t;
        I g = p;
        for (int k = 0; k <= n && g != 1; k++) if (x[k]) g = gcd(g, x[k]);
        if (g > 1) for (int k = 0; k <= n + 1; k++) x[k] /= g;
        p = x[n + 1];
        for (int i = 0; i < m; i++) {
            if (i == r) continue;
            I *y = R(i);
            I f = y[j];
            if (!f) continue;
            y[j] = 0;
            /* d*x_i = .. + f*x_j;  p*x_j = x..   =>   d*p*x_i = p*(..) + f*(x..) */
            I h = p == 1 ? 1 : gcd(f, p), fp = f / h, pp = p / h;
            I nd;
            if (__builtin_mul_overflow(y[n + 1], pp, &nd)) goto out;
            g = nd;
            for (int k = 0; k <= n; k++) {
                I u, v, s;
                if (!x[k]) {
                    if (!y[k]) continue;
                    if (pp == 1) s = y[k];
                    else if (__builtin_mul_overflow(y[k], pp, &s)) goto out;
                } else if (__builtin_mul_overflow(y[k], pp, &u) || __builtin_mul_overflow(x[k], fp, &v) || __builtin_add_overflow(u, v, &s)) goto out;
                y[k] = s;
                if (g != 1 && s) g = gcd(g, s);
            }
            y[n + 1] = nd;
            if (g > 1) for (int k = 0; k <= n + 1; k++) y[k] /= g;
        }
    }
    st = 3;
out:
    free(a);
    free(basis);
    return st;
}
