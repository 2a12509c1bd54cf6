/* Exact decision of emptiness of a rational polyhedron { x : A x + c >= 0 (or == 0) }.
   General simplex in dictionary form, exact integers (128 bit, overflow detected). */
#include <stdlib.h>
#include <string.h>
typedef __int128 I;
static I gcd(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
/* coef: m rows of (n+1) pairs (hi, lo) ; last column is the constant. eq[i]!=0: equality.
   returns 1 empty, 0 not empty, -1 overflow / gave up */
int lp_empty(int m, int n, const long long *coef, const int *eq, int maxit) {
  int N = n + 1, i, j, it, res = -1;
  I *a = malloc(sizeof(I) * (size_t)m * (N + 1)); /* row i: den*basic = sum a[j] nb_j + a[n]; a[N] = den */
  int *basic = malloc(sizeof(int) * m), *nb = malloc(sizeof(int) * (n ? n : 1));
#define A(i,j) a[(size_t)(i) * (N + 1) + (j)]
  for (i = 0; i < m; i++) {
    for (j = 0; j < N; j++) {
      long long hi = coef[((size_t)i * N + j) * 2]; unsigned long long lo = (unsigned long long)coef[((size_t)i * N + j) * 2 + 1];
      A(i, j) = (I)(((unsigned __int128)(unsigned long long)hi << 64) | lo);
    }
    A(i, N) = 1; basic[i] = n + i;
  }
  for (j = 0; j < n; j++) nb[j] = j;
  /* variables 0..n-1 free; n+i slack of row i: >= 0 or == 0 */
  for (it = 0; it < maxit; it++) {
    int r = -1, s = -1;
    for (i = 0; i < m; i++) {
      if (basic[i] < n) continue;
      I c = A(i, n);
      if (c < 0 || (c > 0 && eq[basic[i] - n])) if (r < 0 || basic[i] < basic[r]) r = i;
    }
    if (r < 0) { res = 0; break; }
    int neg = A(r, n) < 0;
    for (j = 0; j < n; j++) {
      I v = A(r, j); if (!v) continue;
      int ok;
      if (nb[j] < n) ok = 1;
      else if (eq[nb[j] - n]) ok = 0;
      else ok = neg ? v > 0 : v < 0;
      if (ok && (s < 0 || nb[j] < nb[s])) s = j;
    }
    if (s < 0) { res = 1; break; }
    /* pivot r,s : den*b = ... + p*x + ...  =>  p*x = den*b - ... */
    I p = A(r, s), d = A(r, N);
    for (j = 0; j < N; j++) if (j != s) A(r, j) = -A(r, j);
    A(r, s) = d; A(r, N) = p;
    if (p < 0) for (j = 0; j <= N; j++) A(r, j) = -A(r, j);
    int t = basic[r]; basic[r] = nb[s]; nb[s] = t;
    I den = A(r, N);
    for (i = 0; i < m; i++) {
      if (i == r) continue;
      I f = A(i, s);
      if (!f) continue;
      I g = gcd(f, den), fd = den / g, ff = f / g;
      for (j = 0; j <= N; j++) {
        I x, y;
        if (j == N) { if (__builtin_mul_overflow(A(i, j), fd, &x)) goto done; A(i, j) = x; continue; }
        if (j == s) { if (__builtin_mul_overflow(ff, A(r, j), &y)) goto done; A(i, j) = y; continue; }
        if (__builtin_mul_overflow(A(i, j), fd, &x)) goto done;
        if (A(r, j)) { if (__builtin_mul_overflow(ff, A(r, j), &y)) goto done; if (__builtin_add_overflow(x, y, &x)) goto done; }
        A(i, j) = x;
      }
      I gg = 0;
      for (j = 0; j <= N && gg != 1; j++) gg = gcd(gg, A(i, j));
      if (gg > 1) for (j = 0; j <= N; j++) A(i, j) /= gg;
    }
    I gg = 0;
    for (j = 0; j <= N && gg != 1; j++) gg = gcd(gg, A(r, j));
    if (gg > 1) for (j = 0; j <= N; j++) A(r, j) /= gg;
  }
done:
  free(a); free(basic); free(nb);
  return res;
}
