/* Drives the whole reasoner with a script of shell lines and records its behaviour:
   one line per entry ("b"), exit ("e") of a hooked critical section or hook point ("p"), each with the changes of
   the memory since the previous recorded line of the innermost recorded section (argv: comma lists of kinds and changes). */
#undef _POSIX_C_SOURCE
#define _POSIX_C_SOURCE 200809L
#include "vlog.h"
#include <ctype.h>
extern long currentTime;
static const char *kinds = "", *parts = "";
static bool has(const char *list, const char *w)
{
    if(!strcmp(list, "*")) return true;
    size_t n = strlen(w);
    for(const char *p = list; (p = strstr(p, w)) != NULL; p += n)
        if((p == list || p[-1] == ',') && (p[n] == 0 || p[n] == ',')) return true;
    return false;
}
static bool wSlot, wLink, wCon, wQueue, wRing, wUse, wView, wDet, wSet, wOut, wAsk;
static bool on = false;

/* ------------------------------------------------------------------ shadow memory */
static Concept shadow[CONCEPTS_MAX];
static bool live[CONCEPTS_MAX];
static double sprio[CONCEPTS_MAX]; /* usefulness rank of the concept in the queue */
static int sorder[CONCEPTS_MAX];
typedef struct { int n; Item items[CYCLING_GOAL_EVENTS_MAX + CYCLING_BELIEF_EVENTS_MAX]; Event ev[CYCLING_GOAL_EVENTS_MAX + CYCLING_BELIEF_EVENTS_MAX]; } SQ;
static SQ sq[CYCLING_GOAL_EVENTS_LAYERS+1];
static OccurrenceTimeIndex sring; static long sringid[OCCURRENCE_TIME_INDEX_SIZE];
extern Concept concept_storage[CONCEPTS_MAX];

static int cell(Concept *c) { return (int) (c - concept_storage); }
static bool evEq(Event *a, Event *b)
{
    if(a->type != b->type) return false;
    if(a->type == EVENT_TYPE_DELETED) return true;
    return a->truth.frequency == b->truth.frequency && a->truth.confidence == b->truth.confidence && !memcmp(&a->stamp, &b->stamp, sizeof(Stamp)) &&
           a->occurrenceTime == b->occurrenceTime && a->creationTime == b->creationTime && !memcmp(a->term.atoms, b->term.atoms, sizeof(a->term.atoms));
}
static bool impEq(Implication *a, Implication *b)
{
    return a->truth.frequency == b->truth.frequency && a->truth.confidence == b->truth.confidence && !memcmp(&a->stamp, &b->stamp, sizeof(Stamp)) &&
           a->occurrenceTimeOffset == b->occurrenceTimeOffset && a->sourceConcept == b->sourceConcept && a->sourceConceptId == b->sourceConceptId &&
           !memcmp(a->term.atoms, b->term.atoms, sizeof(a->term.atoms));
}
static bool tabEq(Table *a, Table *b)
{
    if(a->itemsAmount != b->itemsAmount) return false;
    for(int i=0; i<a->itemsAmount; i++) if(!impEq(&a->array[i], &b->array[i])) return false;
    return true;
}
static int nch;
static void ch(void) { if(nch++) fputc(',', vout); }
static void jTable(Table *t)
{
    fputc('[', vout);
    for(int i=0; i<t->itemsAmount && i<TABLE_SIZE; i++) { if(i) fputc(',', vout); jImp(&t->array[i]); }
    fputc(']', vout);
}
static void jQueue(PriorityQueue *q)
{
    fputc('[', vout);
    for(int i=0; i<q->itemsAmount; i++)
    {
        fputs(i ? ",{\"e\":" : "{\"e\":", vout); jEvent(q->items[i].address); fprintf(vout, ",\"p\":%d}", L8(q->items[i].priority));
    }
    fputc(']', vout);
}
static void slot(Concept *c, const char *name, Event *now, Event *was)
{
    if(evEq(now, was)) return;
    ch(); fprintf(vout, "{\"k\":\"slot\",\"id\":%d,\"s\":\"%s\",\"e\":", LI(c->id), name); jEvent(now); fputc('}', vout);
    *was = *now;
}
static void table(Concept *c, int op, Table *now, Table *was)
{
    if(tabEq(now, was)) return;
    ch(); fprintf(vout, "{\"k\":\"link\",\"id\":%d,\"op\":%d,\"tab\":", LI(c->id), op); jTable(now); fputc('}', vout);
    *was = *now;
}
static bool empty(Concept *c)
{
    for(int op=0; op<=OPERATIONS_MAX; op++) if(c->precondition_beliefs[op].itemsAmount) return false;
    return !c->implication_links.itemsAmount && !c->priority && c->belief.type == EVENT_TYPE_DELETED && c->belief_spike.type == EVENT_TYPE_DELETED &&
           c->predicted_belief.type == EVENT_TYPE_DELETED && c->goal_spike.type == EVENT_TYPE_DELETED;
}
static char *lastView = NULL, *lastSet = NULL;
static void settings(void);
static void view(void)
{
    FILE *out = vout; char *text = NULL; size_t len = 0;
    vout = open_memstream(&text, &len);
    /* lookup by term of every concept in memory, and the atom index */
    fputs(",\"find\":[", vout);
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address;
        Term t = c->term;
        Concept *f = Memory_FindConceptByTerm(&t);
        fprintf(vout, "%s[%d,%d]", i ? "," : "", LI(c->id), f ? LI(f->id) : -1);
    }
    fputs("],\"idx\":[", vout);
    int n = 0;
    for(int a=1; a<ATOMS_MAX; a++)
    {
        if(!invertedAtomIndex[a]) continue;
        fputs(n++ ? ",[" : "[", vout); jAtom(a); fputs(",[", vout);
        int m = 0;
        for(ConceptChainElement *e = InvertedAtomIndex_GetConceptChain(a); e && m < 100000; e = e->next)
            fprintf(vout, "%s%d", m++ ? "," : "", e->c ? LI(e->c->id) : -1);
        fputs("]]", vout);
    }
    fprintf(vout, "],\"free\":%d", LI(conceptChainElementStack.stackpointer));
    fclose(vout); vout = out;
    if(!lastView || strcmp(lastView, text)) { fputs(text, vout); free(lastView); lastView = text; } else free(text);
}
static void changes(void)
{
    static bool seen[CONCEPTS_MAX];
    nch = 0;
    fputs(",\"ch\":[", vout);
    memset(seen, 0, sizeof(seen));
    for(int i=0; i<concepts.itemsAmount; i++) seen[cell(concepts.items[i].address)] = true;
    for(int k=0; k<CONCEPTS_MAX; k++)
    {
        if(live[k] && (!seen[k] || shadow[k].id != concept_storage[k].id))
        {
            if(wCon)
            {
                Concept *f = Memory_FindConceptByTerm(&shadow[k].term);
                ch(); fprintf(vout, "{\"k\":\"con-\",\"id\":%d,\"f\":%d}", LI(shadow[k].id), f ? LI(f->id) : -1);
            }
            live[k] = false;
        }
    }
    for(int i=0; i<concepts.itemsAmount; i++)
    {
        Concept *c = concepts.items[i].address; int k = cell(c);
        if(!live[k])
        {
            live[k] = true;
            shadow[k] = (Concept) {0};
            shadow[k].id = c->id; shadow[k].term = c->term; shadow[k].usage = (Usage) {-1,-1}; sprio[k] = -1;
            if(wCon) { ch(); fprintf(vout, "{\"k\":\"con+\",\"id\":%d,\"cell\":%d,\"t\":", LI(c->id), k); jTerm(&c->term); fprintf(vout, ",\"empty\":%s}", empty(c) ? "true" : "false"); }
        }
        Concept *s = &shadow[k];
        if(wSlot)
        {
            slot(c, "b", &c->belief, &s->belief); slot(c, "s", &c->belief_spike, &s->belief_spike);
            slot(c, "p", &c->predicted_belief, &s->predicted_belief); slot(c, "g", &c->goal_spike, &s->goal_spike);
        }
        if(wLink)
        {
            for(int op=0; op<=OPERATIONS_MAX; op++) table(c, op, &c->precondition_beliefs[op], &s->precondition_beliefs[op]);
            table(c, -1, &c->implication_links, &s->implication_links);
        }
        if(wUse && (c->usage.useCount != s->usage.useCount || c->usage.lastUsed != s->usage.lastUsed || sprio[k] != concepts.items[i].priority || c->priority != s->priority))
        {
            ch(); fprintf(vout, "{\"k\":\"use\",\"id\":%d,\"n\":%d,\"l\":%d,\"u\":%d,\"p\":%d}", LI(c->id), LI(c->usage.useCount), LI(c->usage.lastUsed), L8(concepts.items[i].priority), L8(c->priority));
            s->usage = c->usage; sprio[k] = concepts.items[i].priority; s->priority = c->priority;
        }
        if(wDet && c->lastSelectionTime != s->lastSelectionTime)
        {
            ch(); fprintf(vout, "{\"k\":\"sel\",\"id\":%d,\"l\":%d}", LI(c->id), LI(c->lastSelectionTime)); s->lastSelectionTime = c->lastSelectionTime;
        }
    }
    if(wQueue)
    {
        for(int l=-1; l<CYCLING_GOAL_EVENTS_LAYERS; l++)
        {
            PriorityQueue *q = l < 0 ? &cycling_belief_events : &cycling_goal_events[l];
            SQ *s = &sq[l+1];
            bool same = s->n == q->itemsAmount;
            for(int i=0; same && i<q->itemsAmount; i++) same = s->items[i].priority == q->items[i].priority && s->items[i].address == q->items[i].address && evEq(&s->ev[i], q->items[i].address);
            if(same) continue;
            ch(); fprintf(vout, "{\"k\":\"q\",\"l\":%d,\"items\":", l); jQueue(q); fputc('}', vout);
            s->n = q->itemsAmount;
            for(int i=0; i<s->n; i++) { s->items[i] = q->items[i]; s->ev[i] = *(Event*) q->items[i].address; }
        }
    }
    if(wRing)
    {
        bool same = sring.itemsAmount == occurrenceTimeIndex.itemsAmount && sring.currentIndex == occurrenceTimeIndex.currentIndex;
        for(int i=0; i<occurrenceTimeIndex.itemsAmount && i<OCCURRENCE_TIME_INDEX_SIZE; i++)
        {
            Concept *c = occurrenceTimeIndex.array[i];
            long id = c ? c->id : -1;
            if(sringid[i] != id) { same = false; sringid[i] = id; }
        }
        if(!same)
        {
            ch(); fputs("{\"k\":\"ring\",\"ids\":[", vout);
            for(int i=0; i<occurrenceTimeIndex.itemsAmount; i++)
            {
                Concept *c = OccurrenceTimeIndex_GetKthNewestElement(&occurrenceTimeIndex, i);
                fprintf(vout, "%s%d", i ? "," : "", c ? LI(c->id) : -1);
            }
            fputs("]}", vout);
            sring = occurrenceTimeIndex;
        }
    }
    fputc(']', vout);
    if(wView) view();
    if(wSet) settings();
}
static void forgetShadow(void)
{
    memset(live, 0, sizeof(live)); memset(sq, 0, sizeof(sq)); memset(&sring, 0, sizeof(sring)); memset(sringid, -1, sizeof(sringid)); free(lastView); lastView = NULL; free(lastSet); lastSet = NULL;
}

/* ------------------------------------------------------------------ settings */
extern double QUESTION_PRIMING; extern Stamp importstamp;
static void jText(const char *s)
{
    fputc('"', vout);
    for(; *s; s++)
    {
        if(*s == '"' || *s == '\\') fputc('\\', vout);
        if((unsigned char) *s < 32 || (unsigned char) *s > 126) fprintf(vout, "\\u%04x", (unsigned char) *s); else fputc(*s, vout);
    }
    fputc('"', vout);
}
static void settings(void)
{
    FILE *out = vout; char *text = NULL; size_t len = 0;
    vout = open_memstream(&text, &len);
    fprintf(vout, ",\"set\":{\"volume\":%d,\"restricted\":%s,\"anticipation\":%d,\"decision\":%d,\"similarity\":%d,\"babbling\":%d,\"babblers\":%d,\"priming\":%d",
        L8(PRINT_EVENTS_PRIORITY_THRESHOLD), RESTRICTED_CONCEPT_CREATION ? "true" : "false", L8(ANTICIPATION_CONFIDENCE), L8(DECISION_THRESHOLD), L8(Variable_similarity_distance),
        L8(MOTOR_BABBLING_CHANCE), BABBLING_OPS, L8(QUESTION_PRIMING));
    fprintf(vout, ",\"other\":[%d,%d,%d,%d,%d,%d]", PRINT_DERIVATIONS, PRINT_INPUT, L8(CONDITION_THRESHOLD), L8(ANTICIPATION_THRESHOLD), L8(TRUTH_EVIDENTIAL_HORIZON), L8(TRUTH_PROJECTION_DECAY));
    fputs(",\"import\":", vout); jStamp(&importstamp);
    fputs(",\"ops\":[", vout);
    for(int o=0; o<OPERATIONS_MAX; o++)
    {
        fputs(o ? ",{\"t\":" : "{\"t\":", vout); jTerm(&operations[o].term); fputs(",\"args\":[", vout);
        for(int k=0; k<OPERATIONS_BABBLE_ARGS_MAX; k++) { if(k) fputc(',', vout); jTerm(&operations[o].arguments[k]); }
        fprintf(vout, "],\"stdin\":%s}", operations[o].stdinOutput ? "true" : "false");
    }
    fputs("],\"values\":[", vout);
    int n = 0;
    for(int a=0; a<ATOMS_MAX; a++)
    {
        if(!Narsese_atomHasValue[a]) continue;
        if(n++) fputc(',', vout);
        fputc('[', vout); jAtom(a+1); fprintf(vout, ",%d,", L8(Narsese_atomValues[a])); jText(Narsese_atomMeasurementNames[a]); fputc(']', vout);
    }
    fputs("]}", vout);
    fclose(vout); vout = out;
    if(!lastSet || strcmp(lastSet, text)) { fputs(text, vout); free(lastSet); lastSet = text; } else free(text);
}
/* what was printed: each line as text in which every number is replaced by #, and the numbers */
static void printed(const char *p)
{
    fputs(",\"out\":[", vout);
    for(int n=0; *p; n++)
    {
        const char *end = strchr(p, '\n');
        size_t len = end ? (size_t) (end - p) : strlen(p);
        char *text = malloc(len + 1); size_t m = 0;
        char *nums = NULL; size_t nl = 0; FILE *f = open_memstream(&nums, &nl); int k = 0;
        for(size_t i=0; i<len; )
        {
            bool start = i == 0 || strchr(" =[,({\t", p[i-1]);
            size_t j = i; if(p[j] == '-') j++;
            bool decimal = false;
            size_t d = j;
            while(j < len && (isdigit((unsigned char) p[j]) || (p[j] == '.' && !decimal && j > d && j + 1 < len && isdigit((unsigned char) p[j+1])))) { if(p[j] == '.') decimal = true; j++; }
            if(start && j > d && (j == len || strchr(" ,]\t)}", p[j])))
            {
                if(decimal) { double v = strtod(p + i, NULL); fprintf(f, "%s%d", k++ ? "," : "", v > 21 || v < -21 ? 2100000000 : L8(v)); }
                else { long v = strtol(p + i, NULL, 10); fprintf(f, "%s%d", k++ ? "," : "", LI(v)); }
                text[m++] = '#'; i = j;
            }
            else text[m++] = p[i++];
        }
        text[m] = 0; fclose(f);
        fputs(n ? ",{\"s\":" : "{\"s\":", vout); jText(text); fprintf(vout, ",\"v\":[%s]}", nums);
        free(text); free(nums);
        p += len + (end ? 1 : 0);
    }
    fputc(']', vout);
}

/* ------------------------------------------------------------------ frames */
static struct { int id; const char *kind; } stack[4096];
static int depth = 0, frames = 0;
static void head(const char *ph, const char *kind, int id)
{
    fprintf(vout, "{\"k\":\"%s\",\"ph\":\"%s\",\"id\":%d,\"d\":%d,\"now\":%d,\"base\":%d", kind, ph, id, depth, LI(currentTime), LI(base));
}
/* the question on a line, if there is one */
static void question(const char *line)
{
    char copy[NARSESE_LEN_MAX+1]; double thr;
    if(!strncmp(line, "*query ", 7)) { if(sscanf(line + 7, "%lf %2000[^\n]", &thr, copy) != 2) return; }
    else { if(line[0] == '*' || !strncmp(line, "//", 2)) return; strncpy(copy, line, NARSESE_LEN_MAX); copy[NARSESE_LEN_MAX] = 0; }
    int n = strlen(copy); while(n && isspace((unsigned char) copy[n-1])) copy[--n] = 0;
    if(!n || (copy[n-1] != '?' && !strstr(copy, "? "))) return;
    Term t; Truth tv; char mark; int tense; double dt;
    Narsese_Sentence(copy, &t, &mark, &tense, &tv, &dt);
    if(mark != '?') return;
    fputs(",\"q\":", vout); jTerm(&t); fprintf(vout, ",\"tense\":%d", tense);
}
static void decision(const Decision *d)
{
    fprintf(vout, ",\"run\":%s,\"op\":%d,\"desire\":%d,\"args\":", d->execute ? "true" : "false", d->operationID[0], L8(d->desire)); jTerm(&d->arguments[0]);
    fputs(",\"imp\":", vout); jImp(&d->usedContingency); fputs(",\"spec\":", vout); jImp(&d->specific_implication);
    fputs(",\"missing\":", vout); jImp(&d->missing_specific_implication);
}
static void args(const char *kind, const void *a, const void *b, const void *c, long x, double y)
{
    #define IS(s) !strcmp(kind, s)
    if(IS("AddEvent") || IS("NewBelief") || IS("Sensorimotor") || IS("Single") || IS("GoalSequence"))
    {
        fputs(",\"e\":", vout); jEvent(a); fprintf(vout, ",\"x\":%ld,\"pr\":%d", x, L8(y));
        if(IS("AddEvent")) fprintf(vout, ",\"zero\":%s,\"in\":%s,\"rev\":%s,\"layer\":%ld", y <= 0 ? "true" : "false", x & 4 ? "true" : "false", x & 1 ? "true" : "false", x >> 3);
        if(IS("NewBelief")) fprintf(vout, ",\"in\":%s", x ? "true" : "false");
    }
    else if(IS("Line"))
    {
        fputs(",\"line\":", vout); jText(a); if(wAsk) question(a);
        int i, j; char copy[NARSESE_LEN_MAX+1];
        if(wSet && sscanf(a, "*setoparg %d %d %2000[^\n]", &i, &j, copy) == 3) { Term t = Narsese_Term(copy); fputs(",\"arg\":", vout); jTerm(&t); }
    }
    else if(IS("Conceptualize")) { fputs(",\"t\":", vout); jTerm(a); fprintf(vout, ",\"x\":%ld", x); }
    else if(IS("Table")) 
    {
        fputs(",\"imp\":", vout); jImp(b);
        int owner = -1, op = -2;
        for(int i=0; i<concepts.itemsAmount; i++)
        {
            Concept *k = concepts.items[i].address;
            if(a == (const void*) &k->implication_links) { owner = LI(k->id); op = -1; }
            for(int o=0; o<=OPERATIONS_MAX; o++) if(a == (const void*) &k->precondition_beliefs[o]) { owner = LI(k->id); op = o; }
        }
        /* the operation of the table, and whether the operation that ends the antecedent is registered */
        Term left = Term_ExtractSubterm(&((Implication*) b)->term, 1);
        Term last = Term_ExtractSubterm(&left, 2);
        bool known = !Narsese_copulaEquals(left.atoms[0], SEQUENCE) || !Narsese_isOperation(&last) || Memory_getOperationID(&last);
        fprintf(vout, ",\"owner\":%d,\"op\":%d,\"known\":%s,\"opname\":", owner, op, known ? "true" : "false");
        if(op > 0) jAtom(operations[op-1].term.atoms[0]); else fputs("\"\"", vout);
    }
    else if(IS("Input")) { fputs(",\"t\":", vout); jTerm(a); const Truth *t = b; fprintf(vout, ",\"f\":%d,\"c\":%d,\"goal\":%s,\"eternal\":%s,\"dt\":%d", L8(t->frequency), L8(t->confidence), (x>>1) == EVENT_TYPE_GOAL ? "true" : "false", x & 1 ? "true" : "false", L3(y)); }
    else if(IS("Activate")) { fprintf(vout, ",\"c\":%d,\"e\":", LI(((Concept*) a)->id)); jEvent(b); }
    else if(IS("Suggest")) { fprintf(vout, ",\"c\":%d,\"e\":", LI(((Concept*) a)->id)); jEvent(b); }
    else if(IS("Pop"))
    {
        int l = -2;
        if(a == (const void*) &cycling_belief_events) l = -1;
        for(int i=0; i<CYCLING_GOAL_EVENTS_LAYERS; i++) if(a == (const void*) &cycling_goal_events[i]) l = i;
        fprintf(vout, ",\"l\":%d,\"n\":%ld", l, x);
    }
    else if(IS("Reinforce")) { fputs(",\"a\":", vout); jEvent(a); fputs(",\"b\":", vout); jEvent(b); }
    else if(IS("Pair")) { fputs(",\"a\":", vout); jEvent(a); fputs(",\"b\":", vout); jEvent(b); fprintf(vout, ",\"c\":%d", LI(((Concept*) c)->id)); }
    else if(IS("Anticipate")) { fputs(",\"t\":", vout); jTerm(a); fprintf(vout, ",\"op\":%ld,\"decl\":%s,\"opname\":", x / 2, x & 1 ? "true" : "false"); if(x / 2 > 0) jAtom(operations[x/2-1].term.atoms[0]); else fputs("\"-\"", vout); }
    else if(IS("Subgoal") || IS("Predict") || IS("Outcome") || IS("Consider"))
    {
        fputs(",\"e\":", vout); jEvent(a); fputs(",\"imp\":", vout); jImp(b); fprintf(vout, ",\"c\":%d,\"x\":%ld,\"pr\":%d", LI(((Concept*) c)->id), x, L8(y));
    }
    else if(IS("NegativeConfirmation")) { fputs(",\"e\":", vout); jEvent(a); fputs(",\"imp\":", vout); jImp(b); fprintf(vout, ",\"c\":%d,\"op\":%ld", LI(((Concept*) c)->id), x); }
    else if(IS("Execute")) decision(a);
    else if(IS("Suggested"))
    {
        fprintf(vout, ",\"c\":%d,\"x\":%ld,\"chance\":%d,\"babblers\":%d,\"threshold\":%d,\"babble\":{\"k\":1", LI(((Concept*) c)->id), x, L8(MOTOR_BABBLING_CHANCE), BABBLING_OPS, L8(DECISION_THRESHOLD)); decision(a);
        fputs("},\"best\":{\"k\":2", vout); decision(b);
        fputs("},\"ops\":[", vout);
        for(int o=0; o<OPERATIONS_MAX && operations[o].term.atoms[0]; o++)
        {
            fprintf(vout, "%s{\"t\":", o ? "," : ""); jTerm(&operations[o].term); fputs(",\"args\":[", vout);
            for(int k=0; k<OPERATIONS_BABBLE_ARGS_MAX && operations[o].arguments[k].atoms[0]; k++) { if(k) fputc(',', vout); jTerm(&operations[o].arguments[k]); }
            fputs("]}", vout);
        }
        fputc(']', vout);
    }
    else fprintf(vout, ",\"x\":%ld", x);
}
static void selected(const char *kind, int pops)
{
    /* the events taken for processing */
    if(!strcmp(kind, "Pop"))
    {
        fputs(",\"beliefs\":[", vout);
        for(int i=0; i<beliefsSelectedCnt; i++) { fputs(i ? ",{\"e\":" : "{\"e\":", vout); jEvent(&selectedBeliefs[i]); fprintf(vout, ",\"p\":%d}", L8(selectedBeliefsPriority[i])); }
        fputs("],\"goals\":[", vout);
        for(int i=0; i<goalsSelectedCnt; i++) { fputs(i ? ",{\"e\":" : "{\"e\":", vout); jEvent(&selectedGoals[i]); fprintf(vout, ",\"p\":%d}", L8(selectedGoalsPriority[i])); }
        fputc(']', vout);
    }
}
int Verif_Enter(const char *kind, const void *a, const void *b, const void *c, long x, double y)
{
    if(!on || !has(kinds, kind)) return -1;
    int id = ++frames;
    head("b", kind, id); args(kind, a, b, c, x, y); changes(); fputs("}\n", vout);
    stack[depth].id = id; stack[depth++].kind = kind;
    return id;
}
void Verif_Leave(int *frame)
{
    if(*frame < 0 || !on) return;
    depth--;
    head("e", stack[depth].kind, *frame); selected(stack[depth].kind, 0); changes(); fputs("}\n", vout);
}
void Verif_Point(const char *kind, const void *a, const void *b, const void *c, long x, double y)
{
    if(!on || !has(kinds, kind)) return;
    head("p", kind, ++frames); args(kind, a, b, c, x, y); changes(); fputs("}\n", vout);
}
/* ------------------------------------------------------------------ operations */
static bool failing[10];
static Feedback exec(int slot, Term args)
{
    if(on)
    {
        head("p", "Call", ++frames);
        fprintf(vout, ",\"op\":%d,\"failed\":%s,\"name\":", slot+1, failing[slot] ? "true" : "false"); jTerm(&operations[slot].term); fputs(",\"args\":", vout); jTerm(&args); changes(); fputs("}\n", vout);
    }
    return (Feedback) { .failed = failing[slot] };
}
#define OP(i) static Feedback op##i(Term args) { return exec(i, args); }
OP(0) OP(1) OP(2) OP(3) OP(4) OP(5) OP(6) OP(7) OP(8) OP(9)
static Action actions[10] = { op0, op1, op2, op3, op4, op5, op6, op7, op8, op9 };
static void bindOps(void) { for(int i=0; i<OPERATIONS_MAX && i<10; i++) if(operations[i].term.atoms[0]) operations[i].action = actions[i]; }

int main(int argc, char **argv)
{
    kinds = argc > 1 ? argv[1] : "*"; parts = argc > 2 ? argv[2] : "*";
    wSlot = has(parts, "slot"); wLink = has(parts, "link"); wCon = has(parts, "con"); wQueue = has(parts, "q"); wRing = has(parts, "ring"); wUse = has(parts, "use"); wView = has(parts, "view"); wDet = has(parts, "sel"); wSet = has(parts, "set"); wOut = has(parts, "out"); wAsk = has(parts, "ask");
    vout = fdopen(3, "w");
    if(!vout) return 3;
    static char buf[1<<16]; setvbuf(vout, buf, _IOFBF, sizeof(buf));
    static char line[NARSESE_LEN_MAX];
    mysrand(42);
    Shell_NARInit(); bindOps();
    memset(sringid, -1, sizeof(sringid));
    on = true;
    while(fgets(line, sizeof(line), stdin))
    {
        int n = strlen(line); if(n && line[n-1] == '\n') line[n-1] = 0;
        if(line[0] == '!')
        {
            int a; double y;
            if(sscanf(line, "!fail %d", &a) == 1) { if(a < 10) failing[a] = !failing[a]; }
            else if(sscanf(line, "!seed %d", &a) == 1) mysrand(a);
            else if(sscanf(line, "!babble %lf", &y) == 1) MOTOR_BABBLING_CHANCE = y;
            else if(!strcmp(line, "!reset"))
            {
                forgetShadow(); on = false; Shell_NARInit(); bindOps(); on = true;
                if(has(kinds, "Reset")) { head("p", "Reset", ++frames); changes(); fputs("}\n", vout); }
            }
            continue;
        }
        int id = -1, r;
        char *text = NULL; size_t len = 0;
        if(has(kinds, "Line")) id = Verif_Enter("Line", line, NULL, NULL, 0, 0);
        FILE *term = stdout;
        if(wOut) stdout = open_memstream(&text, &len);
        r = Shell_ProcessInput(line);
        if(wOut) { fclose(stdout); stdout = term; }
        if(id >= 0)
        {
            depth--;
            head("e", "Line", id); fprintf(vout, ",\"r\":%d", r);
            if(wOut) printed(text);
            if(wOut && !strncmp(line, "//", 2)) { fputs(",\"raw\":", vout); jText(text); }
            changes(); fputs("}\n", vout);
        }
        free(text);
        if(r == SHELL_RESET) { forgetShadow(); on = false; Shell_NARInit(); bindOps(); on = true; if(has(kinds, "Reset")) { head("p", "Reset", ++frames); changes(); fputs("}\n", vout); } }
        bindOps();
    }
    fflush(vout);
    return 0;
}
