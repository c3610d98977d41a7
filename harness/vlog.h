/* JSON projection of the system's data structures, shared by the harnesses. */
#ifndef VLOG_H
#define VLOG_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "NAR.h"
#include "Shell.h"
#include "Narsese.h"
#include "Inference.h"
extern FILE *vout;
/* reals are logged in units of 1e-8 (TLC integers have 32 bits) */
static inline int L8(double x) { double v = x*1e8; return v > 2e9 ? 2000000000 : v < -2e9 ? -2000000000 : (int) lround(v); }
static inline int L3(double x) { double v = x*1e3; return v > 2e9 ? 2000000000 : v < -2e9 ? -2000000000 : (int) lround(v); }
static inline int LI(long x) { return x > 2000000000 ? 2000000000 : x < -2000000000 ? -2000000000 : (int) x; }
void jAtom(Atom a);
void jTermAt(const Term *t, int i);
void jTerm(const Term *t);             /* ["a"], ["op", l] or ["op", l, r]; ["-"] for no term */
bool rTerm(const char **s, Term *t, int i);  /* reads ( op l r ) or an atom, blank separated */
void jStamp(const Stamp *s);
void jEvent(const Event *e);           /* {"t":..,"ty":"b"|"g"|"-","f":,"c":,"st":[],"o":,"ct":} */
void jImp(const Implication *imp);
#endif
