/* Calls msolve's library functions on a system read from a file and writes what they return in the
 * format the program writes its answers in.
 *
 *   FUNC p n ng k mon_order elim hts threads pairs reset la reduce param gen prec isgb
 *   names
 *   per polynomial: its length, then per term: numerator denominator exponents
 *
 * FUNC: f4, qq, nf, julia; the last k polynomials are the ones to be reduced (nf). */
#include "msolve/libmsolve.c"

static int32_t n, ng, k, p;
static char **names;

static void poly(int32_t len, const int32_t *exp, const void *cf, int64_t off)
{
    for (int32_t j = 0; j < len; ++j) {
        if (j && (p || mpz_sgn(((mpz_t *)cf)[off + j]) >= 0)) printf("+");
        if (p) printf("%d", ((const int32_t *)cf)[off + j]);
        else { mpz_out_str(stdout, 10, ((mpz_t *)cf)[off + j]); }
        for (int32_t v = 0; v < n; ++v)
            if (exp[(off + j) * n + v]) printf("*%s^%d", names[v], exp[(off + j) * n + v]);
    }
}

static void polys(int32_t ld, const int32_t *len, const int32_t *exp, const void *cf, int64_t terms)
{
    int64_t off = 0;
    printf("[");
    for (int32_t i = 0; i < ld; ++i) {
        if (i) printf(",\n");
        poly(len[i], exp, cf, off);
        off += len[i];
    }
    printf("]:\n");
    if (off != terms) { printf("terms %ld of %ld\n", (long)off, (long)terms); }
}

static void upoly(int32_t len, mpz_t *cf)
{
    printf("[%d, [", len - 1);
    for (int32_t i = 0; i < len; ++i) {
        if (i) printf(", ");
        mpz_out_str(stdout, 10, cf[i]);
    }
    printf("]]");
}

static int64_t number(FILE *f)
{
    long x;
    if (fscanf(f, "%ld", &x) != 1) exit(90);
    return x;
}

int main(int argc, char **argv)
{
    FILE *f = fopen(argv[1], "r");
    char fn[20], *line = malloc(1 << 20);
    if (!f || fscanf(f, "%19s", fn) != 1) exit(90);
    p = number(f); n = number(f); ng = number(f); k = number(f);
    int32_t mo = number(f), elim = number(f), hts = number(f), th = number(f), pairs = number(f), reset = number(f), la = number(f),
        red = number(f), par = number(f), gh = number(f), prec = number(f), isgb = number(f);
    names = malloc(n * sizeof(char *));
    for (int32_t i = 0; i < n; ++i) {
        if (fscanf(f, "%1000s", line) != 1) exit(90);
        names[i] = strdup(line);
    }
    int32_t *lens = malloc(ng * sizeof(int32_t)), *exps = NULL, *cf = NULL;
    mpz_t **qf = NULL;
    int64_t t = 0, split = 0;
    for (int32_t i = 0; i < ng; ++i) {
        if (i == ng - k) split = t;
        lens[i] = number(f);
        exps = realloc(exps, (t + lens[i]) * n * sizeof(int32_t));
        cf = realloc(cf, (t + lens[i]) * sizeof(int32_t));
        qf = realloc(qf, 2 * (t + lens[i]) * sizeof(mpz_t *));
        for (int32_t j = 0; j < lens[i]; ++j, ++t) {
            for (int s = 0; s < 2; ++s) {
                qf[2*t+s] = malloc(sizeof(mpz_t));
                mpz_init(*qf[2*t+s]);
                if (mpz_inp_str(*qf[2*t+s], f, 10) == 0) exit(90);
            }
            cf[t] = (int32_t)mpz_get_si(*qf[2*t]);
            for (int32_t v = 0; v < n; ++v) exps[t*n+v] = (int32_t)number(f);
        }
    }
    fclose(f);
    void *cfs = p ? (void *)cf : (void *)qf;

    int32_t bld = 0, *blen = NULL, *bexp = NULL;
    void *bcf = NULL;
    if (!strcmp(fn, "f4")) {
        int64_t terms = export_f4(&malloc, &bld, &blen, &bexp, &bcf, lens, exps, cfs, p, mo, elim, n, ng, hts, th, pairs, reset, la,
                red, 0, 0);
        polys(bld, blen, bexp, bcf, terms);
    } else if (!strcmp(fn, "qq")) {
        int64_t terms = export_groebner_qq(&malloc, &bld, &blen, &bexp, &bcf, lens, exps, cfs, p, mo, elim, n, ng, hts, th, pairs, reset,
                la, red, 0, 0, 0);
        polys(bld, blen, bexp, bcf, terms);
    } else if (!strcmp(fn, "nf")) {
        int64_t terms = export_nf(&malloc, &bld, &blen, &bexp, &bcf, k, lens + (ng - k), exps + split * n, cf + split, ng - k, lens, exps,
                cf, p, mo, elim, n, isgb, th, 0);
        polys(bld, blen, bexp, bcf, terms);
    } else if (!strcmp(fn, "julia")) {
        int32_t ld, nv = 0, dim, dq, *rl = NULL, nreal = 0, *sd = NULL;
        char **vn = NULL;
        void *lf = NULL, *rc = NULL, *sn = NULL;
        msolve_julia(&malloc, &ld, &nv, &dim, &dq, &rl, &vn, &lf, &rc, &nreal, &sn, &sd, lens, exps, cfs, names, "/dev/null", p, mo,
                elim, n, ng, hts, th, pairs, reset, la, 0, 0, par, gh, prec, 0);
        if (ld == -1) { fprintf(stderr, "Computation failed\n"); exit(1); }
        if (dim > 0) { printf("[1, %d, -1, []]:\n", n); return 0; }
        if (dim == 0 && dq == 0) { printf("[-1]:\n"); return 0; }
        printf("[0");
        if (par) {
            int64_t o = 0;
            mpz_t *c = (mpz_t *)rc;
            printf(", [0, %d, %d, [", nv, dq);
            for (int32_t i = 0; i < nv; ++i) printf("%s'%s'", i ? ", " : "", vn[i]);
            printf("], [");
            for (int32_t i = 0; i < nv; ++i) {
                if (i) printf(", ");
                if (lf) mpz_out_str(stdout, 10, ((mpz_t *)lf)[i]); else printf("%d", i == nv - 1);
            }
            printf("], [1, [");
            upoly(rl[0], c); o = rl[0];
            printf(", ");
            upoly(rl[1], c + o); o += rl[1];
            printf(", [");
            for (int32_t i = 2; i < ld; ++i) {
                printf("%s[", i > 2 ? ", " : "");
                upoly(rl[i] - 1, c + o);
                printf(", ");
                mpz_out_str(stdout, 10, c[o + rl[i] - 1]);
                printf("]");
                o += rl[i];
            }
            printf("]]]]");
        }
        if (par < 2) {
            mpz_t *s = (mpz_t *)sn;
            int64_t o = 0;
            printf(", [1, [");
            for (int32_t i = 0; i < nreal; ++i) {
                printf("%s[", i ? ", " : "");
                for (int32_t j = 0; j < n; ++j) {
                    printf("%s[", j ? ", " : "");
                    for (int u = 0; u < 2; ++u, ++o) {
                        if (u) printf(", ");
                        mpz_t x;
                        mpz_init_set(x, s[o]);
                        if (sd[o] < 0) mpz_mul_2exp(x, x, -sd[o]);
                        mpz_out_str(stdout, 10, x);
                        if (sd[o] > 0) printf(" / 2^%d", sd[o]);
                    }
                    printf("]");
                }
                printf("]");
            }
            printf("]]");
        }
        printf("]:\n");
    } else exit(90);
    return 0;
}
