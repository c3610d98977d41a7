/* Replays scripts on the real HashTable, Stack and OccurrenceTimeIndex and logs results and the whole content. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "Memory.h"
#include "HashTable.h"
#include "OccurrenceTimeIndex.h"
#define MAXN 600
extern Concept concept_storage[CONCEPTS_MAX];
static int keys[MAXN], keycopies[MAXN], values[MAXN];
static VMItem storage[MAXN]; static VMItem *ptrs[MAXN]; static VMItem *HT[MAXN]; static HashTable ht;
static int cap, buckets, mode;
static OccurrenceTimeIndex ring;
static Stack st; static void *sitems[MAXN]; static int scells[MAXN]; static int scap;
static bool eq(void *a, void *b) { return *(int*) a == *(int*) b; }
static HASH_TYPE hash(void *k)
{
    long x = *(int*) k;
    switch(mode) { case 0: return x; case 1: return 7; case 2: return x/3; case 3: return (x*2654435761L) & 0x7fffffffffffffffL; default: return 0x7ffffffffffffff0L + (x & 7); }
}
static void table(void)
{
    printf(",\"chains\":[");
    for(int b=0; b<buckets; b++)
    {
        printf("%s[", b ? "," : "");
        int n = 0;
        for(VMItem *i = HT[b]; i && n < 2*MAXN; i = i->next, n++) printf("%s{\"k\":%d,\"v\":%d,\"c\":%d}", n ? "," : "", *(int*) i->key, (int) ((int*) i->value - values), (int) (i - storage));
        printf("]");
    }
    printf("],\"free\":[");
    for(int i=0; i<ht.VMStack.stackpointer; i++) printf("%s%d", i ? "," : "", (int) ((VMItem*) ht.VMStack.items[i] - storage));
    printf("],\"longest\":%d}\n", HashTable_MaximumChainLength(&ht));
}
static void stack(void)
{
    printf(",\"items\":[");
    for(int i=0; i<st.stackpointer; i++) printf("%s%d", i ? "," : "", (int) ((int*) st.items[i] - scells));
    printf("],\"empty\":%s}\n", Stack_IsEmpty(&st) ? "true" : "false");
}
static void rings(void)
{
    printf(",\"ids\":[");
    for(int i=0; i<ring.itemsAmount; i++) { Concept *c = OccurrenceTimeIndex_GetKthNewestElement(&ring, i); printf("%s%d", i ? "," : "", c ? (int) (c - concept_storage) : -1); }
    puts("]}");
}
int main(void)
{
    char op[32]; int a, b;
    for(int i=0; i<MAXN; i++) keys[i] = keycopies[i] = i;
    while(scanf("%31s", op) == 1)
    {
        if(!strcmp(op, "init")) { if(scanf("%d %d %d", &buckets, &cap, &mode) != 3) return 3; HashTable_INIT(&ht, storage, ptrs, HT, buckets, cap, eq, hash); printf("{\"op\":\"init\",\"b\":%d,\"n\":%d", buckets, cap); table(); }
        else if(!strcmp(op, "set")) { if(scanf("%d %d", &a, &b) != 2) return 3; HashTable_Set(&ht, &keys[a], &values[b]); printf("{\"op\":\"set\",\"k\":%d,\"v\":%d", a, b); table(); }
        else if(!strcmp(op, "get")) { if(scanf("%d", &a) != 1) return 3; int *r = HashTable_Get(&ht, &keycopies[a]); printf("{\"op\":\"get\",\"k\":%d,\"v\":%d", a, r ? (int) (r - values) : -1); table(); }
        else if(!strcmp(op, "del")) { if(scanf("%d", &a) != 1) return 3; HashTable_Delete(&ht, &keycopies[a]); printf("{\"op\":\"del\",\"k\":%d", a); table(); }
        else if(!strcmp(op, "ringinit")) { ring = (OccurrenceTimeIndex) {0}; Concept *c = OccurrenceTimeIndex_GetKthNewestElement(&ring, 0); printf("{\"op\":\"ringinit\",\"cap\":%d,\"none\":%s", OCCURRENCE_TIME_INDEX_SIZE, c ? "false" : "true"); rings(); }
        else if(!strcmp(op, "ringadd")) { if(scanf("%d", &a) != 1) return 3; OccurrenceTimeIndex_Add(&concept_storage[a], &ring); printf("{\"op\":\"ringadd\",\"v\":%d", a); rings(); }
        else if(!strcmp(op, "stackinit")) { if(scanf("%d", &scap) != 1) return 3; Stack_INIT(&st, sitems, scap); printf("{\"op\":\"stackinit\",\"cap\":%d", scap); stack(); }
        else if(!strcmp(op, "push")) { if(scanf("%d", &a) != 1) return 3; Stack_Push(&st, &scells[a]); printf("{\"op\":\"push\",\"v\":%d", a); stack(); }
        else if(!strcmp(op, "pop")) { int *r = Stack_Pop(&st); printf("{\"op\":\"pop\",\"v\":%d", (int) (r - scells)); stack(); }
        else return 4;
    }
    return 0;
}
