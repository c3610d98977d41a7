/* Evaluates all truth functions on given truth values. */
#include "vlog.h"
#include "Truth.h"
typedef Truth (*Fun)(Truth, Truth);
static const struct { const char *name; Fun f; } FUNS[] = {
#define F(x) { #x, Truth_##x }
    F(Revision), F(Deduction), F(Induction), F(Intersection), F(GoalDeduction), F(Abduction), F(Exemplification), F(Comparison), F(Analogy), F(Resemblance),
    F(StructuralDeduction), F(StructuralDeductionNegated), F(StructuralIntersection), F(Union), F(Difference), F(Conversion), F(Negation),
    F(DecomposePNN), F(DecomposeNPP), F(DecomposePNP), F(DecomposePPP), F(DecomposeNNN), F(AnonymousAnalogy), F(FrequencyGreater), F(FrequencyEqual)
};
#define U 100000000.0
static long fx(double x) { return x != x ? 2000000000L : x > 20 ? 2000000000L : x < -20 ? -2000000000L : lround(x*U); }
static int sgn(double a, double b) { return a > b ? 1 : a < b ? -1 : a == b ? 0 : 9; }
/* value, whether it is a truth value at all, comparison of its confidence with those of the arguments and of its frequency with theirs */
static void res(const char *name, Truth r, Truth v, Truth w)
{
    bool in = r.frequency >= 0 && r.frequency <= 1 && r.confidence >= 0 && r.confidence <= MAX_CONFIDENCE;
    double lo = MIN(v.frequency, w.frequency), hi = MAX(v.frequency, w.frequency);
    printf("%s\"%s\":{\"f\":%ld,\"c\":%ld,\"in\":%s,\"c1\":%d,\"c2\":%d,\"lo\":%d,\"hi\":%d}", name[0] == 'R' && name[2] == 'v' ? "" : ",", name, fx(r.frequency), fx(r.confidence), in ? "true" : "false",
        sgn(r.confidence, v.confidence), sgn(r.confidence, w.confidence), sgn(r.frequency + 1e-12, lo), sgn(r.frequency - 1e-12, hi));
}
int main(void)
{
    long f1, c1, f2, c2, t0, t1;
    while(scanf("%ld %ld %ld %ld %ld %ld", &f1, &c1, &f2, &c2, &t0, &t1) == 6)
    {
        Truth v = { f1/U, c1/U }, w = { f2/U, c2/U };
        printf("{\"v\":{\"f\":%ld,\"c\":%ld},\"w\":{\"f\":%ld,\"c\":%ld},\"t0\":%ld,\"t1\":%ld,\"r\":{", f1, c1, f2, c2, t0, t1);
        for(size_t i = 0; i < sizeof FUNS / sizeof *FUNS; i++) res(FUNS[i].name, FUNS[i].f(v, w), v, w);
        res("Eternalize", Truth_Eternalize(v), v, w);
        res("Projection", Truth_Projection(v, t0, t1), v, w);
        Truth vw = Truth_Revision(v, w), wv = Truth_Revision(w, v);
        printf("},\"sym\":%s,\"keep\":%s,\"equal\":%s,\"exp\":%ld,\"inv\":%ld,\"w2c\":%ld,\"exps\":%d}\n", Truth_Equal(&vw, &wv) ? "true" : "false",
            Truth_Projection(v, t0, t1).frequency == v.frequency && Truth_Eternalize(v).frequency == v.frequency ? "true" : "false", Truth_Equal(&v, &w) ? "true" : "false",
            fx(Truth_Expectation(v)), fx(Truth_w2c(Truth_c2w(v.confidence))), fx(Truth_w2c(v.confidence)), sgn(Truth_Expectation(v), 0.5));
    }
    return 0;
}
