/* Intrinsics of the abstract interpreter.  The harnesses are never executed:
 * they state, for the analysis, what the environment may do. */
#ifndef AI_H
#define AI_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
int ai_int(int lo, int hi);
long ai_long(long lo, long hi);
int ai_step(int lo, int hi, int step);
unsigned ai_uint(void);
unsigned ai_bits(int n);            /* any value of n bits, whose bits are followed */
bool ai_bool(void);
bool ai_history(void);            /* header of a loop analysed to a fixpoint */
float ai_float(float lo, float hi);
float ai_anyfloat(void);          /* any value, infinities and NaN included */
void *ai_object(long size);       /* uninitialised storage */
void *ai_bytes(long size);        /* storage with arbitrary defined content */
void ai_readonly(const void *);
void ai_writable(void *);
void ai_freeze(const void *);
void ai_unfreeze(const void *);
void ai_keep(const void *);        /* ditto, in the integers of this object */
void ai_counters(bool);            /* counters stepped by one do not overflow */
void ai_unroll(int n);             /* widen the loops after n iterations */
void ai_forkload(int n);           /* cases on the booleans and integers loaded that have at most n values */
void ai_rel(const void *);
void ai_any(void *, long n);
void ai_undef(void *, long n);
void ai_partition(int);           /* keep apart states that differ in a constant (1),
                                   * or in the origin of a value (2) */
void ai_assert(bool cond, const char *msg);
void ai_reach(const char *msg);
void ai_assume(bool cond);
void ai_defined(const void *, long n, const char *msg);
void ai_noptr(const void *, long n, const char *msg);   /* holds no pointer */
int ai_split(int v);                     /* a case for each value, when few */
int ai_splitall(int v);
void ai_splitobj(const void *, int n);  /* split on the integers with at most n values */
void ai_merge(void);
void ai_dump(int v);
void ai_dumpf(float v);
void ai_dumpmem(const void *, long n);
#endif
