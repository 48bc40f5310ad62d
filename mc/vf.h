/* Interposed libc functions of the objects under test (linked by symbol
 * redefinition): heap accounting, allocation-failure injection, lock
 * accounting and exit interception. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
extern int64_t vf_live;          /* live allocations */
extern int64_t vf_live_re;       /* live compiled regexes */
extern int64_t vf_allocs;        /* allocations attempted so far */
extern int64_t vf_fail_at;       /* fail the allocation with this number (1-based), 0 = never */
extern int64_t vf_failed;        /* failures injected */
extern int64_t vf_locks_held;
extern int vf_track;             /* record call sites of live blocks */
void vf_reset(void);
void vf_dump_live(char *buf, size_t n);   /* describe live blocks (call sites) */
extern void (*vf_on_exit)(int code);
extern void (*vf_on_fail)(void);         /* called when an allocation is made to fail */
#ifdef __cplusplus
}
#endif
#endif
