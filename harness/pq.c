/* Replays priority queue scripts on the real PriorityQueue and logs every call's result and the queue content. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "PriorityQueue.h"
#define MAXCAP 512
#define LP(p) ((int) ((p)*1000.0 + 0.5)) /* scripts give priorities in thousandths */
static int cells[MAXCAP];
static Item items[MAXCAP];
static PriorityQueue q;
static int cellOf(void *p) { return p ? (int) ((int*) p - cells) : -1; }
static void content(void)
{
    printf(",\"n\":%d,\"addr\":[", q.itemsAmount);
    for(int i=0; i<q.maxElements; i++) printf("%s%d", i ? "," : "", cellOf(q.items[i].address));
    printf("],\"pri\":[");
    for(int i=0; i<q.itemsAmount; i++) printf("%s%d", i ? "," : "", LP(q.items[i].priority));
    puts("]}");
}
int main(void)
{
    char op[32]; int a, b;
    while(scanf("%31s", op) == 1)
    {
        if(!strcmp(op, "init"))
        {
            if(scanf("%d", &a) != 1 || a > MAXCAP) return 3;
            PriorityQueue_INIT(&q, items, a);
            for(int i=0; i<a; i++) items[i] = (Item) { .address = &cells[i] };
            printf("{\"op\":\"init\",\"cap\":%d", a); content();
        }
        else if(!strcmp(op, "push"))
        {
            if(scanf("%d", &a) != 1) return 3;
            PriorityQueue_Push_Feedback f = PriorityQueue_Push(&q, a/1000.0);
            printf("{\"op\":\"push\",\"p\":%d,\"added\":%s,\"evicted\":%s,\"cell\":%d,\"cellp\":%d,\"ev\":%d,\"evp\":%d", a, f.added ? "true" : "false", f.evicted ? "true" : "false",
                   f.added ? cellOf(f.addedItem.address) : -1, f.added ? LP(f.addedItem.priority) : -1, f.evicted ? cellOf(f.evictedItem.address) : -1, f.evicted ? LP(f.evictedItem.priority) : -1);
            content();
        }
        else if(!strcmp(op, "popmax") || !strcmp(op, "popmin"))
        {
            void *addr = NULL; double p = -1;
            bool ok = !strcmp(op, "popmax") ? PriorityQueue_PopMax(&q, &addr, &p) : PriorityQueue_PopMin(&q, &addr, &p);
            printf("{\"op\":\"%s\",\"ok\":%s,\"cell\":%d,\"p\":%d", op, ok ? "true" : "false", ok ? cellOf(addr) : -1, ok ? LP(p) : -1);
            content();
        }
        else if(!strcmp(op, "set")) /* set the priority of the i-th of the items in place; to be followed by rebuild */
        {
            if(scanf("%d %d", &a, &b) != 2) return 3;
            if(q.itemsAmount == 0) continue;
            a %= q.itemsAmount;
            q.items[a].priority = b/1000.0;
            printf("{\"op\":\"set\",\"cell\":%d,\"p\":%d", cellOf(q.items[a].address), b); content();
        }
        else if(!strcmp(op, "rebuild"))
        {
            PriorityQueue_Rebuild(&q);
            printf("{\"op\":\"rebuild\""); content();
        }
        else return 3;
    }
    return 0;
}
