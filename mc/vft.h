/* Controlled execution of the implementation by several threads: its objects
 * are compiled with -fsanitize=thread, and this is what they are linked with
 * instead of the sanitizer's own runtime.  One thread runs at a time; at every
 * scheduling point a function chooses the next one.  Every memory access is
 * checked against happens-before order (vector clocks; mutexes, rwlocks,
 * atomics, thread start and end). */
#ifndef VFT_H
#define VFT_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define VFT_MAX 4                       /* threads, without the main one */
enum { VFT_ACQUIRE = 1, VFT_RELEASE = 2, VFT_ALLOC = 4, VFT_ATOMIC = 8, VFT_RELAXED = 16 /* read-modify-write that orders nothing */ };
extern int vft_points;                  /* kinds of scheduling points */
extern int (*vft_choose)(int cur, int cur_enabled, const int *enabled, int n); /* index into enabled */
extern char vft_error[600];             /* race, deadlock, misuse of a lock, access to freed memory */
extern long vft_accesses, vft_sync;
void vft_reset(void);                   /* forget every allocation */
/* runs fn(0), .., fn(n-1) in threads of their own; 0 when all of them ended */
int vft_run(int n, void (*fn)(int));
#ifdef __cplusplus
}
#endif
#endif
