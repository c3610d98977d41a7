/* The UDP server under a scheduler that runs one thread at a time and chooses the next at each call to the operating
   system, and around each use of the reasoner; with simulated threads' blocking, datagrams and sleep. Recorded: every
   such call. Locks, conditions, semaphores and joins are simulated (--wrap), so that a blocked or endless server is
   noticed and not waited for. */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <time.h>
#include <unistd.h>
#include "vlog.h"
#include "UDPNAR.h"
#define TH 16
#define DG 200
extern pthread_mutex_t nar_mutex;
extern int __real_pthread_create(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
extern int __real_pthread_mutex_lock(pthread_mutex_t*), __real_pthread_mutex_unlock(pthread_mutex_t*);
extern int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*), __real_pthread_cond_broadcast(pthread_cond_t*);
extern void __real_NAR_Cycles(int), __real_Shell_NARInit(void), __real_NAR_AddInputNarsese(char*), __real_Stats_Print(long);
extern int __real_Shell_ProcessInput(char*), __real_shutdown(int, int), __real_close(int);

/* ---- scheduler */
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t turn[TH];
static int n = 0, cur = 0, live[TH], ended[TH], prio[TH], inuse[TH];
static long steps = 0, policy = 0, stalled = -1, stalledtill = 0;
static __thread int me = 0;
static bool (*waits[TH])(void *); static void *waitarg[TH];
static unsigned long long rs = 88172645463325252ULL;
static unsigned rnd(unsigned k) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned) ((rs >> 11) % k); }
static void finish(const char *how) { fprintf(vout, "{\"k\":\"%s\"}\n", how); fflush(vout); _exit(0); }
static bool can(int i) { return live[i] && !ended[i] && (!waits[i] || waits[i](waitarg[i])); }
/* gives the turn to a thread that can go on */
static void schedule(void)
{
    if(++steps > 60000) finish("endless");
    int c[TH], k = 0;
    for(int i=0; i<n; i++) if(can(i) && (i != stalled || steps > stalledtill)) c[k++] = i;
    if(k == 0) for(int i=0; i<n; i++) if(can(i)) c[k++] = i;
    if(k == 0) finish("stuck");
    int best = c[rnd(k)];
    if(policy == 1) { for(int i=0; i<k; i++) if(prio[c[i]] > prio[best]) best = c[i]; if(rnd(12) == 0) prio[best] = -(int) steps; if(rnd(25) == 0) best = c[rnd(k)]; } /* by priorities that change now and then */
    if(policy == 2) { for(int i=0; i<k; i++) if(c[i] == cur && rnd(8)) best = cur; }                          /* few preemptions */
    if(policy >= 3 && stalled < 0 && n > 1 && rnd(30) == 0) { stalled = rnd(n); stalledtill = steps + 20 + rnd(300); } /* one is held up for long */
    if(stalled >= 0 && steps > stalledtill + 50) stalled = -1;
    cur = best;
    __real_pthread_cond_broadcast(&turn[cur]);
}
static void pause2(bool (*w)(void*), void *a)
{
    waits[me] = w; waitarg[me] = a;
    schedule();
    while(cur != me) __real_pthread_cond_wait(&turn[me], &big);
    waits[me] = NULL;
}
static void point(void) { pause2(NULL, NULL); }
struct start { int id; void *(*f)(void*); void *a; };
static void *body(void *x)
{
    struct start *s = x; me = s->id;
    __real_pthread_mutex_lock(&big);
    while(cur != me) __real_pthread_cond_wait(&turn[me], &big);
    fprintf(vout, "{\"k\":\"begin\",\"th\":%d}\n", me);
    void *r = s->f(s->a);
    fprintf(vout, "{\"k\":\"end\",\"th\":%d}\n", me);
    ended[me] = 1;
    schedule();
    __real_pthread_mutex_unlock(&big);
    return r;
}
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void*), void *a)
{
    struct start *s = malloc(sizeof(*s)); s->id = n; s->f = f; s->a = a;
    if(n >= TH) finish("threads");
    fprintf(vout, "{\"k\":\"create\",\"th\":%d}\n", n);
    live[n] = 1; prio[n] = rnd(1000); n++;
    pthread_t real;
    __real_pthread_create(&real, NULL, body, s);
    pthread_detach(real);
    *t = (pthread_t) (s->id + 1);
    point();
    return 0;
}
int __wrap_pthread_detach(pthread_t t) { return 0; }
static bool gone(void *x) { return ended[(long) x]; }
int __wrap_pthread_join(pthread_t t, void **r) { pause2(gone, (void*) ((long) t - 1)); return 0; }
int __wrap_pthread_cancel(pthread_t t) { finish("cancel"); return 0; }

/* ---- locks, conditions, semaphores */
static struct { void *m; int by; } locks[32]; static int nl = 0;
static int lockof(void *m) { for(int i=0; i<nl; i++) if(locks[i].m == m) return i; locks[nl].m = m; locks[nl].by = -1; return nl++; }
static bool unlocked(void *x) { return locks[(long) x].by < 0; }
static void acquire(void *m) { long i = lockof(m); pause2(unlocked, (void*) i); locks[i].by = me; if(m == &nar_mutex) fprintf(vout, "{\"k\":\"lock\",\"th\":%d}\n", me); }
static void release(void *m) { if(m == &nar_mutex) fprintf(vout, "{\"k\":\"unlock\",\"th\":%d}\n", me); locks[lockof(m)].by = -1; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { acquire(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { point(); long i = lockof(m); if(locks[i].by >= 0) return EBUSY; acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { release(m); point(); return 0; }
static struct { void *c; int told; } woken[TH];
static bool told(void *x) { return woken[(long) x].told || rnd(40) == 0; }   /* conditions also wake up for no reason */
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    woken[me].c = c; woken[me].told = 0; release(m);
    pause2(told, (void*) (long) me); woken[me].c = NULL;
    acquire(m); return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return __wrap_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { int k = rnd(TH); for(int i=0; i<TH; i++) { int j = (i+k) % TH; if(woken[j].c == c && !woken[j].told) { woken[j].told = 1; break; } } point(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { for(int i=0; i<TH; i++) if(woken[i].c == c) woken[i].told = 1; point(); return 0; }
static struct { void *s; int v; } sems[16]; static int ns = 0;
static int semof(void *s) { for(int i=0; i<ns; i++) if(sems[i].s == s) return i; sems[ns].s = s; sems[ns].v = 0; return ns++; }
static bool positive(void *x) { return sems[(long) x].v > 0; }
int __wrap_sem_init(sem_t *s, int p, unsigned v) { sems[semof(s)].v = v; return 0; }
int __wrap_sem_wait(sem_t *s) { long i = semof(s); pause2(positive, (void*) i); sems[i].v--; return 0; }
int __wrap_sem_post(sem_t *s) { sems[semof(s)].v++; point(); return 0; }
int __wrap_sched_yield(void) { point(); return 0; }

/* ---- sleep */
static int slept(const struct timespec *t)
{
    bool ok = t->tv_nsec >= 0 && t->tv_nsec <= 999999999 && t->tv_sec >= 0;
    fprintf(vout, "{\"k\":\"pause\",\"th\":%d,\"s\":%ld,\"n\":%ld}\n", me, ok ? (long) t->tv_sec : 0, ok ? (long) t->tv_nsec : 0);
    point();
    return ok ? 0 : EINVAL;
}
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { int e = slept(t); if(e) { errno = e; return -1; } return 0; }
int __wrap_clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) { return slept(t); }
int __wrap_usleep(useconds_t u) { struct timespec t = { u / 1000000, (u % 1000000) * 1000L }; slept(&t); return 0; }

/* ---- the network */
static struct { int open, shut, port; unsigned ip; } sock[8]; static int nsock = 0;
static struct { int len, port; unsigned ip; char *data; } dg[DG]; static int ndg = 0;
int __wrap_socket(int d, int t, int p) { sock[nsock].open = 1; return 1000 + nsock++; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l)
{
    const struct sockaddr_in *in = (const void*) a;
    sock[fd-1000].ip = in->sin_addr.s_addr; sock[fd-1000].port = ntohs(in->sin_port);
    return 0;
}
static int next(int s) { for(int i=0; i<ndg; i++) if(dg[i].data && dg[i].port == sock[s].port && (dg[i].ip == sock[s].ip || sock[s].ip == htonl(INADDR_ANY))) return i; return -1; }
static int receiving[TH];
static bool readable(void *x) { long s = (long) x; return sock[s].shut || next(s) >= 0; }
static void text(const char *s, int len)
{
    putc('"', vout);
    for(int i=0; i<len && s[i]; i++) { if(s[i] == '"' || s[i] == '\\') putc('\\', vout); if((unsigned char) s[i] < 32 || (unsigned char) s[i] > 126) fputs("<?>", vout); else putc(s[i], vout); }
    putc('"', vout);
}
ssize_t __wrap_recvfrom(int fd, void *buf, size_t size, int flags, struct sockaddr *a, socklen_t *al)
{
    int s = fd - 1000;
    if(s < 0 || s >= nsock || !sock[s].open) { point(); errno = EBADF; return -1; }
    if(flags & MSG_DONTWAIT) { point(); if(!readable((void*)(long) s)) { errno = EAGAIN; return -1; } }
    receiving[me] = 1; pause2(readable, (void*) (long) s); receiving[me] = 0;
    int i = next(s);
    if(i < 0) return 0;      /* shut down */
    int len = dg[i].len < (int) size ? dg[i].len : (int) size;
    memcpy(buf, dg[i].data, len);
    fprintf(vout, "{\"k\":\"take\",\"th\":%d,\"text\":", me); text(dg[i].data, dg[i].len); fputs("}\n", vout);
    free(dg[i].data); dg[i].data = NULL;
    return flags & MSG_TRUNC ? dg[i].len : len;
}
ssize_t __wrap_recv(int fd, void *b, size_t l, int f) { return __wrap_recvfrom(fd, b, l, f, NULL, NULL); }
ssize_t __wrap_sendto(int fd, const void *b, size_t len, int f, const struct sockaddr *a, socklen_t l)
{
    const struct sockaddr_in *in = (const void*) a;
    if(ntohs(in->sin_port) < 50000) { point(); return len; }     /* metrics */
    if(ndg >= DG) finish("datagrams");
    dg[ndg].len = len; dg[ndg].data = malloc(len + 1); memcpy(dg[ndg].data, b, len); dg[ndg].data[len] = 0;
    dg[ndg].ip = in->sin_addr.s_addr; dg[ndg].port = ntohs(in->sin_port); ndg++;
    point();
    return len;
}
int __wrap_shutdown(int fd, int how) { if(fd >= 1000) { sock[fd-1000].shut = 1; point(); errno = ENOTCONN; return -1; } return __real_shutdown(fd, how); }
int __wrap_close(int fd) { if(fd >= 1000) { sock[fd-1000].open = 0; point(); return 0; } return __real_close(fd); }  /* does not wake up who is receiving */

/* ---- uses of the reasoner */
static void use(const char *what, const char *s, long x)
{
    if(inuse[me]++) return;
    fprintf(vout, "{\"k\":\"use\",\"th\":%d,\"what\":\"%s\",\"x\":%ld,\"text\":", me, what, x); text(s, 4000); fputs("}\n", vout);
    point();
}
static void used(int r)
{
    if(--inuse[me]) return;
    point();
    fprintf(vout, "{\"k\":\"used\",\"th\":%d,\"r\":%d}\n", me, r);
}
void __wrap_NAR_Cycles(int k) { use("cycles", "", k); __real_NAR_Cycles(k); used(0); }
void __wrap_Shell_NARInit(void) { use("init", "", 0); __real_Shell_NARInit(); used(0); }
int __wrap_Shell_ProcessInput(char *s) { use("text", s, 0); int r = __real_Shell_ProcessInput(s); used(r); return r; }
void __wrap_NAR_AddInputNarsese(char *s) { use("input", s, 0); __real_NAR_AddInputNarsese(s); used(0); }
void __wrap_Stats_Print(long t) { use("stats", "", 0); inuse[me]--; }

/* ---- the program */
static char *script[DG]; static int nscript = 0;
static int nclients = 0, port = 50111, stopping = 0, settle = 0, chatty = 0;
static char ip[] = "127.0.0.1";
static void *network(void *x)
{
    int out = UDP_INIT_Sender();
    for(int i=0; i<nscript; i++)
    {
        for(int k=rnd(chatty); k>0; k--) point();
        char *s = script[i];     /* terminated? to this port? text */
        int term = s[0] == '1', here = s[1] == '1';
        if(here) { fputs("{\"k\":\"send\",\"text\":", vout); text(s+3, 4000); fputs("}\n", vout); }
        UDP_SendData(out, ip, here ? port : port + 1 + i, s+3, strlen(s+3) + term);
    }
    return NULL;
}
static void *client(void *x)
{
    for(int k=1+rnd(4); k>0; k--)
    {
        for(int j=rnd(20); j>0; j--) point();
        pthread_mutex_lock(&nar_mutex);
        if(rnd(2)) NAR_AddInputNarsese("<client --> here>. :|:"); else NAR_Cycles(1+rnd(3));
        pthread_mutex_unlock(&nar_mutex);
    }
    return NULL;
}
static int __attribute__((noinline)) clobber(int v) { volatile long junk[4000]; for(int i=0; i<4000; i++) junk[i] = v + i % 7; return (int) junk[rnd(4000)]; }
static bool idle(void *x) { for(int i=0; i<n; i++) if(receiving[i] && waits[i] == readable && !readable(waitarg[i])) return ended[(long) x]; return false; }
int main(void)
{
    static char line[5000];
    long timestep = 0;
    vout = fdopen(dup(1), "w");
    if(!freopen("/dev/null", "w", stdout)) return 3;
    while(fgets(line, sizeof(line), stdin))
    {
        line[strcspn(line, "\n")] = 0;
        long v = strchr(line, ' ') ? atol(strchr(line, ' ')) : 0;
        if(line[0] == 'S') rs ^= (unsigned long long) v * 0x9E3779B97F4A7C15ULL, rnd(2), rnd(2);
        if(line[0] == 'T') timestep = v;
        if(line[0] == 'C') nclients = v;
        if(line[0] == 'P') policy = v;
        if(line[0] == 'E') settle = v;
        if(line[0] == 'G') chatty = v;
        if(line[0] == 'D') script[nscript++] = strdup(line + 2);
    }
    for(int i=0; i<TH; i++) pthread_cond_init(&turn[i], NULL);
    __real_pthread_mutex_lock(&big);
    live[0] = 1; n = 1; cur = 0; prio[0] = rnd(1000);
    fprintf(vout, "{\"k\":\"run\",\"s\":%ld,\"n\":%ld}\n", timestep / 1000000000L, timestep % 1000000000L);
    pthread_t net, cl[4];
    UDPNAR_Start(ip, port, timestep);
    fputs("{\"k\":\"started\"}\n", vout);
    clobber((int) rnd(1000));
    for(int k=rnd(30); k>0; k--) { point(); clobber(1); }
    int first = n;
    __wrap_pthread_create(&net, NULL, network, NULL);
    for(int i=0; i<nclients; i++) __wrap_pthread_create(&cl[i], NULL, client, NULL);
    if(settle) { pause2(idle, (void*) (long) first); fputs("{\"k\":\"settled\"}\n", vout); }
    else for(int k=rnd(400); k>0; k--) point();
    fputs("{\"k\":\"stop\"}\n", vout);
    UDPNAR_Stop();
    fputs("{\"k\":\"stopped\"}\n", vout);
    for(int k=0; k<60; k++) point();
    finish("over");
}
