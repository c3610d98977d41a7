/* Replays scripts on the real matching and term functions and logs every result. */
#include "vlog.h"
#include "Variable.h"
static void jMap(Substitution *s)
{
    fputc('[', vout);
    for(int i=1, n=0; i<=27; i++) if(s->map[i].atoms[0])
    { fprintf(vout, "%s{\"v\":", n++ ? "," : ""); jAtom(i); fputs(",\"t\":", vout); jTerm(&s->map[i]); fputc('}', vout); }
    fputc(']', vout);
}
static const char *p;
static Term term(void) { Term t = {0}; if(!rTerm(&p, &t, 0)) { fprintf(stderr, "bad term: %s\n", p); exit(9); } return t; }
static void applied(const char *name, Term t, Substitution *s)
{
    bool ok = false;
    Term r = Variable_ApplySubstitute(t, *s, &ok);
    fprintf(vout, ",\"%s\":{\"ok\":%s,\"t\":", name, ok ? "true" : "false");
    if(ok) jTerm(&r); else fputs("[\"-\"]", vout);
    fputs("}", vout);
}
int main(void)
{
    static char line[8192];
    vout = stdout;
    NAR_INIT();
    while(fgets(line, sizeof line, stdin))
    {
        char op[32]; int n; double f, c; p = line;
        if(sscanf(p, "%31s%n", op, &n) != 1) continue;
        p += n;
        if(!strcmp(op, "num"))   /* num atom measurement value */
        {
            char a[64], m[64]; double v; if(sscanf(p, "%63s %63s %lf", a, m, &v) != 3) return 3;
            Narsese_setAtomValue(Narsese_AtomicTermIndex(a), v, m);
            fprintf(vout, "{\"op\":\"num\",\"a\":\"%s\",\"m\":\"%s\",\"v\":%d}\n", a, m, L8(v/10));
        }
        else if(!strcmp(op, "dist")) { if(sscanf(p, "%lf", &f) != 1) return 3; Variable_similarity_distance = f; fprintf(vout, "{\"op\":\"dist\",\"v\":%d}\n", L8(f/10)); }
        else if(!strcmp(op, "unify"))   /* unify mode f c pattern term third: mode a(ll) or q(uery variables only) */
        {
            char mode[8]; if(sscanf(p, "%7s %lf %lf%n", mode, &f, &c, &n) != 3) return 3;
            p += n; Term g = term(), s = term(), x = term(), g0 = g, s0 = s;
            Truth tv = { .frequency = f, .confidence = c };
            Substitution u = mode[0] == 'q' ? Variable_Unify2(tv, &g, &s, true) : mode[0] == 'u' ? Variable_Unify(&g, &s) : Variable_UnifyWithAnalogy(tv, &g, &s);
            fprintf(vout, "{\"op\":\"unify\",\"q\":%s,\"f\":%d,\"c\":%d,\"g\":", mode[0] == 'q' ? "true" : "false", L8(f), mode[0] == 'u' ? 0 : L8(c)); jTerm(&g0);
            fputs(",\"s\":", vout); jTerm(&s0); fputs(",\"x\":", vout); jTerm(&x);
            fprintf(vout, ",\"ok\":%s,\"same\":%s,\"tf\":%d,\"tc\":%d,\"map\":", u.success ? "true" : "false", Term_Equal(&g, &g0) && Term_Equal(&s, &s0) ? "true" : "false", L8(u.truth.frequency), L8(u.truth.confidence));
            if(u.success) { jMap(&u); applied("ag", g0, &u); applied("ax", x, &u); } else fputs("[],\"ag\":{},\"ax\":{}", vout);
            fputs("}\n", vout);
        }
        else if(!strcmp(op, "terms"))   /* terms i a b: comparison, parts, replacement */
        {
            int i; if(sscanf(p, "%d%n", &i, &n) != 1) return 3;
            p += n; Term a = term(), b = term(), a0 = a, b0 = b;
            fputs("{\"op\":\"terms\",\"a\":", vout); jTerm(&a0); fputs(",\"b\":", vout); jTerm(&b0);
            Term part = Term_ExtractSubterm(&a, i);
            fprintf(vout, ",\"i\":%d,\"equal\":%s,\"hash\":%s,\"cx\":%d,\"part\":", i, Term_Equal(&a, &b) ? "true" : "false", Term_Hash(&a) == Term_Hash(&b) ? "true" : "false", Term_Complexity(&a)); jTerm(&part);
            Term o = a; bool ok = Term_OverrideSubterm(&o, i, &b);
            bool fresh = Term_Hash(&o) == Globals_Hash((HASH_TYPE*) o.atoms, TERM_ATOMS_SIZE / HASH_TYPE_SIZE);
            fprintf(vout, ",\"fresh\":%s,\"rep\":{\"ok\":%s,\"t\":", fresh ? "true" : "false", ok ? "true" : "false");
            if(ok) jTerm(&o); else fputs("[\"-\"]", vout);
            fputs("},\"has\":[", vout);
            for(int k=0; k<COMPOUND_TERM_SIZE_MAX; k++) if(b.atoms[k]) fprintf(vout, "%s%d", k ? "," : "", Term_HasAtom(&a, b.atoms[k]) ? 1 : 0);
            fprintf(vout, "],\"vars\":[%d,%d,%d,%d]}\n", Variable_hasVariable(&a, true, false, false), Variable_hasVariable(&a, false, true, false), Variable_hasVariable(&a, false, false, true), Variable_hasVariable(&a, true, true, true));
        }
        else return 4;
    }
    return 0;
}
