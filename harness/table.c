/* Replays scripts on the real Table and logs the table after every call. */
#include "vlog.h"
static Table tab; static Concept src[8];
static void out(const char *op)
{
    printf(",\"tab\":["); fflush(stdout);
    for(int i=0; i<tab.itemsAmount && i<TABLE_SIZE; i++) { if(i) fputc(',', vout); jImp(&tab.array[i]); }
    fprintf(vout, "],\"n\":%d}\n", tab.itemsAmount);
}
int main(void)
{
    vout = stdout;
    char op[32], a[64]; double f, c, dt; int st[3], ct, s;
    NAR_INIT();
    for(int i=0; i<8; i++) src[i].id = i;
    while(scanf("%31s", op) == 1)
    {
        if(!strcmp(op, "init")) { tab = (Table) {0}; printf("{\"op\":\"init\",\"cap\":%d", TABLE_SIZE); out(op); }
        else if(!strcmp(op, "rem")) { int k; if(scanf("%d", &k) != 1) return 3; Table_Remove(&tab, k); printf("{\"op\":\"rem\",\"k\":%d", k+1); out(op); }
        else if(!strcmp(op, "add"))
        {
            if(scanf("%63s %lf %lf %lf %d %d %d %d %d", a, &f, &c, &dt, &st[0], &st[1], &st[2], &ct, &s) != 9) return 3;
            char text[100]; snprintf(text, sizeof text, "<%s =/> g>", a);
            Implication imp = { .term = Narsese_Term(text), .truth = { .frequency = f, .confidence = c }, .occurrenceTimeOffset = dt, .creationTime = ct, .sourceConcept = &src[s], .sourceConceptId = s };
            for(int i=0; i<3; i++) imp.stamp.evidentialBase[i] = st[i];
            printf("{\"op\":\"add\",\"imp\":"); jImp(&imp);
            Implication *r = Table_AddAndRevise(&tab, &imp);
            printf(",\"ret\":%d", r ? (int) (r - tab.array) + 1 : 0); out(op);
        }
        else return 4;
    }
    return 0;
}
