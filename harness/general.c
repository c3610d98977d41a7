/* Replays scripts on the real generalization functions and logs every result. */
#include "vlog.h"
#include "Variable.h"
static const char *p;
static Term term(void) { Term t = {0}; if(!rTerm(&p, &t, 0)) { fprintf(stderr, "bad term: %s\n", p); exit(9); } return t; }
int main(void)
{
    static char line[8192];
    vout = stdout;
    NAR_INIT();
    while(fgets(line, sizeof line, stdin))
    {
        char op[32]; int n, ext, side; p = line;
        if(sscanf(p, "%31s %d %d%n", op, &ext, &side, &n) != 3) continue;
        p += n;
        Term t = term(), t0 = t, g;
        bool ok = false;
        if(!strcmp(op, "imp"))   /* imp ext side implication; side 3: the function without the parameter */
            g = side == 3 ? Variable_IntroduceImplicationVariables(t, &ok, ext) : Variable_IntroduceImplicationVariables2(t, &ok, ext, side);
        else if(!strcmp(op, "conj")) g = Variable_IntroduceConjunctionVariables(t, &ok, ext);
        else return 4;
        fprintf(vout, "{\"op\":\"%s\",\"ext\":%s,\"side\":%d,\"t\":", op, ext ? "true" : "false", side % 3); jTerm(&t0);
        fprintf(vout, ",\"ok\":%s,\"g\":", ok ? "true" : "false"); if(ok) jTerm(&g); else fputs("[\"-\"]", vout);
        fprintf(vout, ",\"fresh\":%s}\n", Term_Hash(&g) == Globals_Hash((HASH_TYPE*) g.atoms, TERM_ATOMS_SIZE / HASH_TYPE_SIZE) ? "true" : "false");
    }
    return 0;
}
