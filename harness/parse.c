/* Parses and prints texts with the real parser and printer. */
#define _GNU_SOURCE
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include "vlog.h"
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=77"; }
static void jText(const char *s)
{
    putc('"', vout);
    for(; *s; s++) { if(*s == '"' || *s == '\\') putc('\\', vout); putc(*s, vout); }
    putc('"', vout);
}
static void about(Term *t)
{
    char *text = NULL; size_t len = 0;
    fputs(",\"t\":", vout); jTerm(t);
    FILE *term = stdout; stdout = open_memstream(&text, &len);
    Narsese_PrintTerm(t);
    fclose(stdout); stdout = term;
    fputs(",\"shown\":", vout); jText(text);
    Term back = Narsese_Term(text);
    fputs(",\"back\":", vout); jTerm(&back); fputs("}\n", vout);
    free(text);
}
int main(void)
{
    static char line[NARSESE_LEN_MAX+10];
    vout = stdout;
    FILE *keep = fdopen(dup(1), "w"); vout = keep;
    Shell_NARInit();
    while(fgets(line, sizeof(line), stdin))
    {
        int n = strlen(line); if(n && line[n-1] == '\n') line[n-1] = 0;
        char *s = line + 2;
        if(line[0] == 'I') { NAR_INIT(); continue; }
        if(line[0] == 'A') { Narsese_AtomicTerm(s); continue; }     /* other atoms known before */
        if(line[0] == 'T') { fputs("{\"op\":\"t\",\"text\":", vout); jText(s); Term t = Narsese_Term(s); about(&t); }
        if(line[0] == 'S')
        {
            Term t; Truth tv; char mark; int tense; double dt;
            fputs("{\"op\":\"s\",\"text\":", vout); jText(s);
            Narsese_Sentence(s, &t, &mark, &tense, &tv, &dt);
            fprintf(vout, ",\"mark\":\"%c\",\"tense\":%d,\"f\":%d,\"c\":%d,\"dt\":%d", mark, tense, L8(tv.frequency), L8(tv.confidence), L3(dt));
            about(&t);
        }
        if(line[0] == 'E')
        {
            char *o = strchr(s, '\t'); *o++ = 0;
            Term a = Narsese_Term(s), b = Narsese_Term(o);
            bool h = Term_Hash(&a) == Term_Hash(&b), ab = Term_Equal(&a, &b), ba = Term_Equal(&b, &a);
            fputs("{\"op\":\"e\",\"a\":", vout); jText(s); fputs(",\"b\":", vout); jText(o);
            fprintf(vout, ",\"eq\":%s,\"hash\":%s}\n", ab == ba ? (ab ? "true" : "false") : "\"both\"", h ? "true" : "false");
        }
        if(line[0] == 'H')   /* a different term of the same hash: the hash of one piece more depends only on (hash so far) ^ piece */
        {
            int places = sizeof(Atom), pieces = sizeof(Atom) * COMPOUND_TERM_SIZE_MAX / sizeof(HASH_TYPE), at = atoi(s) % (pieces-1);
            Term a = Narsese_Term(strchr(s, '\t') + 1), b = {0};
            memcpy(b.atoms, a.atoms, sizeof(a.atoms));
            HASH_TYPE *pa = (HASH_TYPE*) a.atoms, *pb = (HASH_TYPE*) b.atoms;
            b.atoms[at * (sizeof(HASH_TYPE)/places)] ^= 1 + atoi(s) % 7;
            pb[at+1] = pa[at+1] ^ Globals_Hash(pa, at+1) ^ Globals_Hash(pb, at+1);
            if(memcmp(a.atoms, b.atoms, sizeof(a.atoms)) && Globals_Hash(pa, pieces) == Globals_Hash(pb, pieces))
            {
                Term c = {0}; memcpy(c.atoms, a.atoms, sizeof(a.atoms));
                fprintf(vout, "{\"op\":\"h\",\"eq\":[%d,%d],\"same\":[%d,%d]}\n", Term_Equal(&a, &b), Term_Equal(&b, &a), Term_Equal(&a, &c), Term_Equal(&c, &a));
            }
        }
        if(line[0] == 'X')
        {
            fflush(vout); fflush(stdout);
            int io[2]; if(pipe(io)) return 3;
            pid_t p = fork();
            if(!p) { dup2(io[1], 1); dup2(io[1], 2); alarm(20); Narsese_Term(s); _exit(0); }
            close(io[1]); int told = 0, n; char buf[512]; while((n = read(io[0], buf, sizeof(buf))) > 0) told += n;
            close(io[0]);
            int st = 0; waitpid(p, &st, 0);
            fputs("{\"op\":\"x\",\"text\":", vout); jText(s); fprintf(vout, ",\"told\":%s,\"code\":%d}\n", told ? "true" : "false", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
        }
    }
    fflush(vout);
    return 0;
}
