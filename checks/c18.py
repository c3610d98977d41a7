"""C18 The UDP server: ServerModel exhaustively; Server.tla on runs of the real server under a scheduler that decides every interleaving."""
from ona import *
import collections

WRAP = ["pthread_create", "pthread_detach", "pthread_join", "pthread_cancel", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
        "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_signal", "pthread_cond_broadcast", "sem_init", "sem_wait", "sem_post", "sched_yield",
        "nanosleep", "clock_nanosleep", "usleep", "socket", "bind", "recvfrom", "recv", "sendto", "shutdown", "close",
        "NAR_Cycles", "Shell_NARInit", "Shell_ProcessInput", "NAR_AddInputNarsese", "Stats_Print"]
TEXTS = ["a. :|:", "<a --> b>.", "<b --> c>. {0.5 0.9}", "*reset", "*reset", "3", "", "quit", "// a comment", "//" + "x" * 200, "<a --> ?1>?", "*volume=0", "*concepts",
         "<({SELF} * b) --> ^left>. :|:", "g! :|:", "*motorbabbling=false"]


def program(r):
    out = ["S %d" % r.randint(1, 10 ** 9), "T %d" % r.choice([0, 1, 1000, 10000000, 10000000, 999999999, 1000000000, 1500000001, 3000000000]),
           "C %d" % r.choice([0, 0, 1, 2, 3]), "P %d" % r.randint(0, 4), "E %d" % (r.random() < .5), "G %d" % r.choice([1, 10, 40, 200])]
    for _ in range(r.choice([0, 1, 2, 4, 8, 15])):
        t = r.choice(TEXTS) if r.random() < .93 else "//" + "y" * r.choice([2145, 2144, 1500, 1023, 1022])
        out.append("D %d%d %s" % (r.random() < .6, r.random() < .93, t))
    return "\n".join(out) + "\n"


def served(exe, s):
    rc, o, e = run([exe], stdin=s, timeout=60)
    if rc != 0:
        return "exit %s: %s" % (rc, (o + e)[-800:])
    return [x for x in o.split("\n") if x.startswith("{")]


def server():
    return build("server", ["server.c", "vlog.c", "stub.c"], config=CONFIGS["tiny"], ldflags=["-Wl," + ",".join("--wrap=" + w for w in WRAP)])


def main():
    chk = Check("C18")
    r = tlc("ServerModel", workers=JOBS)
    if r.violated:
        raise CheckError("design model violated:\n" + r.error_text())
    chk.model(r, "ServerModel: every interleaving of the server's threads, a client, three datagrams, stop at any time")
    exe = server()
    sc = [program(rng("c18", k)) for k in range(20000 if THOROUGH else 1500)]
    chk.sample(sc[0])
    validate_scripts(chk, "ServerTrace", lambda s: served(exe, s), sc, batch=JOBS if not THOROUGH else 40)
    chk.finish()
