/* Applies the real inference rules to given premises and logs every event offered to memory. */
#undef _POSIX_C_SOURCE
#define _POSIX_C_SOURCE 200809L
#include "vlog.h"
#include "RuleTable.h"
#include "Cycle.h"
#include <unistd.h>
void Cycle_SpecialInferences(Term term1, Term term2, Truth truth1, Truth truth2, long conclusionOccurrence, double occurrenceTimeOffset, Stamp conclusionStamp,
                             long currentTime, double parentPriority, double conceptPriority, bool doublePremise, Concept *validation_concept, long validation_cid);
static bool hearing, first; static int got, depth;
int Verif_Enter(const char *kind, const void *a, const void *b, const void *c, long x, double y)
{
    bool event = !strcmp(kind, "AddEvent");
    if(event && ++depth == 1 && hearing)   /* (what it is merged with in memory follows from the conclusion) */
    {
        if(got++) fputc(',', vout);
        fputs("{\"e\":", vout); jEvent((const Event*) a); fprintf(vout, ",\"derived\":%s,\"pr\":%d}", x == 2 ? "true" : "false", L8(y));
        if(first) hearing = false;
    }
    return event;
}
void Verif_Leave(int *frame) { depth -= *frame; }
void Verif_Point(const char *kind, const void *a, const void *b, const void *c, long x, double y) {}
static const char *p;
static Term term(void) { Term t = {0}; if(!rTerm(&p, &t, 0)) { fprintf(stderr, "bad term: %s\n", p); exit(9); } return t; }
static long num(void) { char *q; long v = strtol(p, &q, 10); p = q; return v; }
#define U 100000000.0
int main(void)
{
    static char line[8192]; int done = 0;
    vout = fdopen(dup(1), "w");
    if(!freopen("/dev/null", "w", stdout)) return 3;
    NAR_INIT();
    while(fgets(line, sizeof line, stdin))
    {
        char op[32]; int n; p = line;
        if(sscanf(p, "%31s%n", op, &n) != 1) continue;
        p += n;
        if(!strcmp(op, "input"))   /* input f c term | text */
        {
            Truth v; v.frequency = num()/U; v.confidence = num()/U;
            Term t = term();
            char *text = strchr(p, '|') + 2; text[strcspn(text, "\n")] = 0;
            fprintf(vout, "{\"op\":\"input\",\"t\":"); jTerm(&t); fprintf(vout, ",\"f\":%d,\"c\":%d,\"got\":[", L8(v.frequency), L8(v.confidence));
            NAR_INIT();
            char s[9000]; snprintf(s, sizeof s, "%s. {%.8f %.8f}", text, v.frequency, v.confidence);
            got = 0; hearing = first = true;
            NAR_AddInputNarsese(s);
            hearing = first = false;
            fputs("]}\n", vout);
            NAR_INIT();
            continue;
        }
        /* two|one|dead now o dt p1 p2 f1 c1 f2 c2 stamp1 stamp2 term1 [term2] */
        bool two = strcmp(op, "one"), dead = !strcmp(op, "dead");
        long now = num(), o = num(), dt = num(); double p1 = num()/1e6, p2 = num()/1e6;
        Truth v, w; v.frequency = num()/U; v.confidence = num()/U; w.frequency = num()/U; w.confidence = num()/U;
        Stamp s = {0}, z = {0}; s.evidentialBase[0] = num(); z.evidentialBase[0] = num();
        Term t = term(), u = two ? term() : (Term) {0};
        Stamp both = two ? Stamp_make(&s, &z) : s;
        Concept c = {0}; c.id = 7;
        fprintf(vout, "{\"op\":\"%s\",\"now\":%ld,\"o\":%ld,\"dt\":%d,\"pr\":%d,\"t\":", op, now, o, LI(dt), L8(p1*p2)); jTerm(&t);
        fputs(",\"u\":", vout); if(two) jTerm(&u); else fputs("[\"-\"]", vout);
        fprintf(vout, ",\"v\":{\"f\":%d,\"c\":%d},\"w\":{\"f\":%d,\"c\":%d},\"st\":", L8(v.frequency), L8(v.confidence), L8(w.frequency), L8(w.confidence)); jStamp(&both);
        fputs(",\"got\":[", vout);
        got = 0; hearing = true;
        RuleTable_Apply(t, u, v, w, o, dt/1000.0, both, now, p1, p2, two, two ? &c : NULL, dead ? 8 : 7);
        if(two)
        {
            Cycle_SpecialInferences(t, u, v, w, o, dt/1000.0, both, now, p1, p2, true, &c, dead ? 8 : 7);
            Cycle_SpecialInferences(u, t, w, v, o, dt/1000.0, both, now, p1, p2, true, &c, dead ? 8 : 7);
        }
        hearing = false;
        fputs("]}\n", vout);
        if(++done % 64 == 0) NAR_INIT();
    }
    fclose(vout);
    return 0;
}
