#include "vlog.h"
FILE *vout;
/* low mantissa bits: tells values apart that are equal in units of 1e-8 */
static int LX(double x) { long v; memcpy(&v, &x, sizeof(v)); return (int) (v & 0x3fffffff); }
void jAtom(Atom a)
{
    fputc('"', vout);
    for(const char *s = a ? Narsese_atomNames[a-1] : "-"; *s; s++)
    {
        if(*s == '"' || *s == '\\') fputc('\\', vout);
        if((unsigned char) *s < 32) fprintf(vout, "\\u%04x", *s); else fputc(*s, vout);
    }
    fputc('"', vout);
}
void jTermAt(const Term *t, int i)
{
    fputc('[', vout);
    jAtom(t->atoms[i]);
    int l = 2*i+1, r = 2*i+2;
    if(l < COMPOUND_TERM_SIZE_MAX && t->atoms[l])
    {
        fputc(',', vout); jTermAt(t, l);
        if(r < COMPOUND_TERM_SIZE_MAX && t->atoms[r]) { fputc(',', vout); jTermAt(t, r); }
    }
    else if(r < COMPOUND_TERM_SIZE_MAX && t->atoms[r]) { fputs(",[\"-\"],", vout); jTermAt(t, r); }
    fputc(']', vout);
}
void jTerm(const Term *t) { jTermAt(t, 0); }
void jStamp(const Stamp *s)
{
    fputc('[', vout);
    for(int i=0; i<STAMP_SIZE && s->evidentialBase[i] != STAMP_FREE; i++) fprintf(vout, "%s%d", i ? "," : "", LI(s->evidentialBase[i]));
    fputc(']', vout);
}
void jEvent(const Event *e)
{
    if(e->type == EVENT_TYPE_DELETED) { fputs("{\"t\":[\"-\"],\"ty\":\"-\",\"f\":0,\"c\":0,\"st\":[],\"o\":0,\"ct\":0,\"dt\":0,\"cx\":0}", vout); return; }
    fputs("{\"t\":", vout); jTerm(&e->term);
    fprintf(vout, ",\"ty\":\"%s\",\"f\":%d,\"c\":%d,\"st\":", e->type == EVENT_TYPE_BELIEF ? "b" : e->type == EVENT_TYPE_GOAL ? "g" : "?", L8(e->truth.frequency), L8(e->truth.confidence));
    jStamp(&e->stamp);
    fprintf(vout, ",\"o\":%d,\"ct\":%d,\"dt\":%d,\"cx\":%d}", LI(e->occurrenceTime), LI(e->creationTime), L3(e->occurrenceTimeOffset), LX(e->truth.confidence));
}
void jImp(const Implication *imp)
{
    fputs("{\"t\":", vout); jTerm(&imp->term);
    fprintf(vout, ",\"f\":%d,\"c\":%d,\"st\":", L8(imp->truth.frequency), L8(imp->truth.confidence));
    jStamp(&imp->stamp);
    Concept *s = imp->sourceConcept;
    fprintf(vout, ",\"dt\":%d,\"ct\":%d,\"src\":%d,\"cell\":%d,\"cx\":%d}", L3(imp->occurrenceTimeOffset), LI(imp->creationTime), LI(imp->sourceConceptId), s ? (int) LI(s->id) : -1, LX(imp->truth.confidence));
}
bool rTerm(const char **s, Term *t, int i)
{
    char tok[64]; int n;
    if(i >= COMPOUND_TERM_SIZE_MAX || sscanf(*s, "%63s%n", tok, &n) != 1) return false;
    *s += n;
    if(strcmp(tok, "(")) { t->atoms[i] = Narsese_AtomicTermIndex(tok); t->hashed = false; return true; }
    if(sscanf(*s, "%63s%n", tok, &n) != 1) return false;
    *s += n;
    t->atoms[i] = Narsese_AtomicTermIndex(tok); t->hashed = false;
    for(int c=1; c<=2; c++)
    {
        if(sscanf(*s, "%63s%n", tok, &n) != 1) return false;
        if(!strcmp(tok, ")")) { *s += n; return true; }
        if(!rTerm(s, t, 2*i+c)) return false;
    }
    if(sscanf(*s, "%63s%n", tok, &n) != 1 || strcmp(tok, ")")) return false;
    *s += n;
    return true;
}
