#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <regex.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include "vf.h"
#include "vft.h"
int64_t vf_live, vf_live_re, vf_allocs, vf_fail_at, vf_failed, vf_locks_held;
int vf_track; void (*vf_on_exit)(int); void (*vf_on_fail)(void);
int vft_points = VFT_ACQUIRE; int (*vft_choose)(int, int, const int *, int);
char vft_error[600]; long vft_accesses, vft_sync;
#define NT (VFT_MAX + 1)                /* thread 0 is the main one */
/* What is known of a byte: who wrote it last and who read it since.  Bytes come
 * in chunks; a chunk whose bytes all have the same history keeps it once. */
typedef struct { uint16_t w, r[NT]; uint8_t wt, freed; } sh;
#define CH 64
typedef struct { sh u; uint8_t split, dirty; } chunk;
#define ARENA ((size_t)512 << 20)
extern char __data_start, _end;
static char *arena, *gbase; static size_t top, gsize; static sh *shadow, *gshadow; static chunk *chunks, *gchunks;
static chunk *dirty[1 << 14]; static int ndirty;
static __thread int self; static int tracking, stuck;
static uint16_t VC[NT][NT];
static void err(const char *f, ...) { if (vft_error[0]) return; va_list ap; va_start(ap, f); vsnprintf(vft_error, sizeof vft_error, f, ap); va_end(ap); }
/* ---- memory */
static void *map(size_t n) { void *p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(97); } return p; }
void vft_reset(void)
{
	if (!arena) {
		arena = map(ARENA); shadow = map(ARENA * sizeof(sh)); chunks = map(ARENA / CH * sizeof(chunk));
		gbase = (char *)((uintptr_t)&__data_start & ~(uintptr_t)(CH - 1)); gsize = (size_t)(&_end - gbase) + CH;
		gshadow = map(gsize * sizeof(sh)); gchunks = map(gsize / CH * sizeof(chunk) + sizeof(chunk));
	}
	top = CH; vf_live = vf_live_re = vf_allocs = vf_locks_held = 0; vft_error[0] = 0; vft_accesses = 0; stuck = 0;
	while (ndirty) memset(dirty[--ndirty], 0, sizeof(chunk));
}
static void point(int kind);
static const char *where(void *p, char *b)
{
	char *a = p;
	if (a >= arena && a < arena + top) sprintf(b, "heap memory");
	else sprintf(b, "a static variable");
	return b;
}
static int touch(sh *s, void *p, int write)
{
	char b[64]; uint16_t now = VC[self][self];
	/* again by the same thread in the same epoch: whatever came between was checked when it came */
	if (write ? s->w == now && s->wt == self : s->r[self] == now) return 0;
	if (s->freed) { err("thread %d %s memory that was freed", self, write ? "writes" : "reads"); return 1; }
	if (s->w && s->wt != self && s->w > VC[self][s->wt]) { err("data race: thread %d %s %s that thread %d wrote, with nothing ordering the two", self, write ? "writes" : "reads", where(p, b), s->wt); return 1; }
	if (write) {
		for (int t = 1; t < NT; t++) if (t != self && s->r[t] > VC[self][t]) { err("data race: thread %d writes %s that thread %d read, with nothing ordering the two", self, where(p, b), t); return 1; }
		memset(s->r, 0, sizeof s->r); /* those reads come before this write: what conflicts with them conflicts with it */
		s->w = now; s->wt = (uint8_t)self;
	} else s->r[self] = now;
	return 0;
}
static void access_(void *p, size_t n, int write)
{
	sh *s0; chunk *c0; size_t at;
	if (!tracking || !self || !n) return;
	char *a = p; int global = 0;
	if (a >= arena && a < arena + ARENA) s0 = shadow, c0 = chunks, at = (size_t)(a - arena);
	else if (a >= &__data_start && a + n <= &_end) s0 = gshadow, c0 = gchunks, at = (size_t)(a - gbase), global = 1;
	else return;
	vft_accesses++;
	while (n) {
		chunk *c = c0 + at / CH; size_t o = at % CH, k = CH - o < n ? CH - o : n;
		if (global && !c->dirty) { if (ndirty == 1 << 14) { fprintf(stderr, "too many static variables\n"); _exit(97); } c->dirty = 1; dirty[ndirty++] = c; }
		sh *s = s0 + (at - o);
		if (k == CH && !c->split) { if (touch(&c->u, a, write)) return; }
		else {
			if (!c->split) {
				uint16_t now = VC[self][self]; sh *u = &c->u;
				if (write ? u->w == now && u->wt == self : u->r[self] == now) goto next;
				for (int i = 0; i < CH; i++) s[i] = *u;
				c->split = 1;
			}
			for (size_t i = o; i < o + k; i++) if (touch(s + i, a, write)) return;
			if (k == CH && write) { c->u = s[0]; c->split = 0; }
		}
next:		at += k; a += k; n -= k;
	}
}
static size_t blk(void *p) { return ((size_t *)p)[-2]; }
static void *get(size_t n)
{
	size_t need = (n + CH + CH - 1 + (n ? 0 : 1)) / CH * CH;
	if (top + need > ARENA) { fprintf(stderr, "arena exhausted\n"); _exit(97); }
	char *p = arena + top + CH; ((size_t *)p)[-2] = n; ((size_t *)p)[-1] = 0;
	memset(chunks + top / CH, 0, need / CH * sizeof(chunk)); top += need;
	vf_live++; vf_allocs++;
	return p;
}
static int mine(void *p) { return (char *)p >= arena && (char *)p < arena + ARENA; }
void *vf_malloc(size_t n) { point(VFT_ALLOC); char *p = get(n); memset(p, 0xa5, n); return p; }
void *vf_calloc(size_t a, size_t b) { point(VFT_ALLOC); size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; char *p = get(n); memset(p, 0, n); return p; }
void vf_free(void *p)
{
	if (!p) return;
	if (!mine(p)) { free(p); return; }
	point(VFT_ALLOC);
	if (((size_t *)p)[-1]) { err("memory is freed twice"); return; }
	((size_t *)p)[-1] = 1;
	size_t n = blk(p), whole = (n + CH - 1) / CH; chunk *c = chunks + ((char *)p - arena) / CH;
	access_(p, n ? whole * CH : 1, 1);
	for (size_t i = 0; i < whole + !n; i++) { memset(&c[i], 0, sizeof *c); c[i].u.freed = 1; }
	memset(p, 0xdd, blk(p));
	vf_live--;
}
void *vf_realloc(void *q, size_t n)
{
	if (!q) return vf_malloc(n);
	char *p = vf_malloc(n); size_t o = blk(q);
	access_(q, o, 0); memcpy(p, q, o < n ? o : n); vf_free(q);
	return p;
}
void *vf_reallocarray(void *q, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; return vf_realloc(q, n); }
char *vf_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); access_((void *)s, n, 0); char *p = vf_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char *vf_strdup(const char *s) { return vf_strndup(s, (size_t)-1 >> 1); }
int vf_vasprintf(char **o, const char *f, va_list ap) { char *t; int r = vasprintf(&t, f, ap); if (r < 0) return r; *o = vf_malloc((size_t)r + 1); memcpy(*o, t, (size_t)r + 1); free(t); return r; }
int vf_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vasprintf(o, f, ap); va_end(ap); return r; }
int vf_regcomp(regex_t *r, const char *e, int f) { access_(r, sizeof *r, 1); int rc = regcomp(r, e, f); if (!rc) __atomic_add_fetch(&vf_live_re, 1, __ATOMIC_SEQ_CST); return rc; }
void vf_regfree(regex_t *r) { access_(r, sizeof *r, 1); __atomic_sub_fetch(&vf_live_re, 1, __ATOMIC_SEQ_CST); regfree(r); }
void vf_exit(int c) { fflush(NULL); fprintf(stderr, "IMPL-EXIT: the implementation called exit(%d)\n", c); _exit(99); }
void vf_abort(void) { fprintf(stderr, "IMPL-EXIT: the implementation called abort()\n"); _exit(99); }
/* library functions that touch memory */
void *vf_memcpy(void *d, const void *s, size_t n) { access_((void *)s, n, 0); access_(d, n, 1); return memcpy(d, s, n); }
void *vf_memmove(void *d, const void *s, size_t n) { access_((void *)s, n, 0); access_(d, n, 1); return memmove(d, s, n); }
void *vf_memset(void *d, int c, size_t n) { access_(d, n, 1); return memset(d, c, n); }
int vf_memcmp(const void *a, const void *b, size_t n) { access_((void *)a, n, 0); access_((void *)b, n, 0); return memcmp(a, b, n); }
size_t vf_strlen(const char *s) { size_t n = strlen(s); access_((void *)s, n + 1, 0); return n; }
static size_t span(const char *s, size_t m) { size_t n = strnlen(s, m); return n < m ? n + 1 : n; }
size_t vf_strnlen(const char *s, size_t m) { access_((void *)s, span(s, m), 0); return strnlen(s, m); }
int vf_strncmp(const char *a, const char *b, size_t n) { size_t k = 0; while (k < n && a[k] == b[k] && a[k]) k++; if (k < n) k++; access_((void *)a, k, 0); access_((void *)b, k, 0); return strncmp(a, b, n); }
int vf_strcmp(const char *a, const char *b) { return vf_strncmp(a, b, (size_t)-1 >> 1); }
char *vf_strncpy(char *d, const char *s, size_t n) { access_((void *)s, span(s, n), 0); access_(d, n, 1); return strncpy(d, s, n); }
char *vf_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; access_((void *)s, n, 0); access_(d, n, 1); return strcpy(d, s); }
void *vf_memccpy(void *d, const void *s, int c, size_t n) { char *e = memccpy(d, s, c, n); size_t k = e ? (size_t)(e - (char *)d) : n; access_((void *)s, k, 0); access_(d, k, 1); return e; }
/* library functions that keep something of their own: calls must be ordered */
static char hidden[16];
#define HIDDEN(i) do { access_(&hidden[i], 1, 1); } while (0)
struct tm *vf_localtime(const time_t *t) { HIDDEN(0); return localtime(t); }
struct tm *vf_gmtime(const time_t *t) { HIDDEN(0); return gmtime(t); }
char *vf_ctime(const time_t *t) { HIDDEN(1); return ctime(t); }
char *vf_asctime(const struct tm *t) { HIDDEN(1); return asctime(t); }
char *vf_strtok(char *s, const char *d) { HIDDEN(2); return strtok(s, d); }
char *vf_setlocale(int c, const char *l);
/* ---- synchronisation objects */
#define NOBJ 256
static struct { void *p; uint16_t vc[NT]; } obj[NOBJ]; static int nobj;
static uint16_t *ovc(void *p) { for (int i = 0; i < nobj; i++) if (obj[i].p == p) return obj[i].vc; if (nobj == NOBJ) nobj = 0; memset(&obj[nobj], 0, sizeof obj[0]); obj[nobj].p = p; return obj[nobj++].vc; }
static void acq(void *p) { vft_sync++; uint16_t *o = ovc(p); for (int t = 0; t < NT; t++) if (o[t] > VC[self][t]) VC[self][t] = o[t]; }
static void rel(void *p) { vft_sync++; uint16_t *o = ovc(p); for (int t = 0; t < NT; t++) if (VC[self][t] > o[t]) o[t] = VC[self][t]; VC[self][self]++; }
/* ---- the scheduler */
enum { IDLE, READY, WAITING, DONE };
static int st[NT], nthreads; static void *waits[NT]; static int nheld[NT]; static sem_t sem[NT], all_done;
static int yielding, stay;
static int next_thread(void)
{
	int en[NT], n = 0, cur = self, first = st[cur] == READY && !yielding && stay < 20000;
	if (first) en[n++] = cur;
	for (int t = 1; t <= nthreads; t++) if (t != cur && st[t] == READY) en[n++] = t;
	yielding = 0;
	if (!n) { stay = 0; return st[cur] == READY ? cur : 0; }
	int c = n == 1 ? 0 : vft_choose(cur, first, en, n);
	stay = en[c] == cur ? stay + 1 : 0;
	return en[c];
}
static void give(int t) { if (t == self) return; int me = self; sem_post(&sem[t]); while (sem_wait(&sem[me])) ; }
static void point(int kind) { if (!tracking || !self || !(vft_points & kind)) return; int t = next_thread(); give(t); }
static void block(void *m)
{
	st[self] = WAITING; waits[self] = m;
	int t = next_thread();
	if (!t) { char b[200] = ""; for (int i = 1; i <= nthreads; i++) if (st[i] == WAITING) sprintf(b + strlen(b), " %d", i); err("deadlock: the threads%s wait for locks that nobody will release", b); stuck = 1; sem_post(&all_done); for (;;) pause(); }
	give(t);
}
static void wake(void *m) { for (int t = 1; t <= nthreads; t++) if (st[t] == WAITING && waits[t] == m) st[t] = READY; }
#define ON (tracking && self)
static int take(void *m, int (*try_)(void *), int wait)
{
	if (!ON) { int rc = try_(m); if (rc == EBUSY && wait) { fprintf(stderr, "IMPL-DEADLOCK: the only thread locks a mutex that is held\n"); _exit(98); } return rc; }
	point(VFT_ACQUIRE);
	for (;;) { int rc = try_(m); if (!rc) { acq(m); nheld[self]++; vf_locks_held++; return 0; } if (rc == EBUSY && !wait) { yielding = 1; give(next_thread()); } if (rc != EBUSY || !wait) return rc; block(m); }
}
static int drop(void *m, int (*un)(void *))
{
	if (!ON) return un(m);
	if (nheld[self] <= 0) { err("thread %d releases a lock it does not hold", self); return EPERM; }
	rel(m); int rc = un(m); nheld[self]--; vf_locks_held--; wake(m); point(VFT_RELEASE); return rc;
}
int vf_mutex_lock(pthread_mutex_t *m) { return take(m, (int (*)(void *))pthread_mutex_trylock, 1); }
int vf_mutex_trylock(pthread_mutex_t *m) { return take(m, (int (*)(void *))pthread_mutex_trylock, 0); }
int vf_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { (void)t; return take(m, (int (*)(void *))pthread_mutex_trylock, 1); }
int vf_mutex_unlock(pthread_mutex_t *m) { return drop(m, (int (*)(void *))pthread_mutex_unlock); }
int vf_rwlock_rdlock(pthread_rwlock_t *m) { return take(m, (int (*)(void *))pthread_rwlock_tryrdlock, 1); }
int vf_rwlock_wrlock(pthread_rwlock_t *m) { return take(m, (int (*)(void *))pthread_rwlock_trywrlock, 1); }
int vf_rwlock_tryrdlock(pthread_rwlock_t *m) { return take(m, (int (*)(void *))pthread_rwlock_tryrdlock, 0); }
int vf_rwlock_trywrlock(pthread_rwlock_t *m) { return take(m, (int (*)(void *))pthread_rwlock_trywrlock, 0); }
int vf_rwlock_unlock(pthread_rwlock_t *m) { return drop(m, (int (*)(void *))pthread_rwlock_unlock); }
int vf_spin_lock(pthread_spinlock_t *m) { return take((void *)m, (int (*)(void *))pthread_spin_trylock, 1); }
int vf_spin_trylock(pthread_spinlock_t *m) { return take((void *)m, (int (*)(void *))pthread_spin_trylock, 0); }
int vf_spin_unlock(pthread_spinlock_t *m) { return drop((void *)m, (int (*)(void *))pthread_spin_unlock); }
int vf_sched_yield(void) { if (ON) { yielding = 1; give(next_thread()); } return 0; }
int vf_usleep(unsigned u) { (void)u; return vf_sched_yield(); }
int vf_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; return vf_sched_yield(); }
int vf_once(pthread_once_t *o, void (*f)(void)) { if (!ON) { if (!*(int *)o) { *(int *)o = 2; f(); } return 0; } acq(o); if (!*(int *)o) { *(int *)o = 2; f(); } rel(o); return 0; }
int vf_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!ON) return pthread_cond_wait(c, m); int pt = vft_points; vft_points = 0; drop(m, (int (*)(void *))pthread_mutex_unlock); vft_points = pt; block(c); acq(c); return take(m, (int (*)(void *))pthread_mutex_trylock, 1); }
int vf_cond_signal(pthread_cond_t *c) { if (!ON) return pthread_cond_signal(c); rel(c); wake(c); return 0; }
int vf_cond_broadcast(pthread_cond_t *c) { return vf_cond_signal(c); }
static void (*body)(int);
static void *entry(void *a)
{
	self = (int)(intptr_t)a;
	while (sem_wait(&sem[self])) ;
	body(self - 1);
	if (nheld[self]) err("thread %d ends with a lock held", self);
	st[self] = DONE;
	int t = next_thread();
	if (t) { sem_post(&sem[t]); return NULL; }
	for (int i = 1; i <= nthreads; i++) if (st[i] != DONE && !vft_error[0]) { err("deadlock: thread %d waits for a lock that nobody will release", i); stuck = 1; }
	for (int i = 1; i <= nthreads; i++) if (st[i] != DONE) stuck = 1;
	sem_post(&all_done);
	return NULL;
}
int vft_run(int n, void (*fn)(int))
{
	pthread_t th[NT]; nthreads = n; body = fn; nobj = 0; memset(VC, 0, sizeof VC); memset(nheld, 0, sizeof nheld); memset(waits, 0, sizeof waits);
	for (int t = 0; t < NT; t++) { VC[t][t] = 1; sem_init(&sem[t], 0, 0); st[t] = t && t <= n ? READY : IDLE; }
	sem_init(&all_done, 0, 0); tracking = 1; self = 0;
	static pthread_attr_t at; static int have; if (!have) { pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); have = 1; }
	for (int t = 1; t <= n; t++) if (pthread_create(&th[t], &at, entry, (void *)(intptr_t)t)) { perror("pthread_create"); _exit(97); }
	int f = next_thread(); sem_post(&sem[f]);
	while (sem_wait(&all_done)) ;
	tracking = 0;
	if (stuck) return 1; /* the threads stay where they are; the process is of no further use */
	for (int t = 1; t <= n; t++) pthread_join(th[t], NULL);
	return 0;
}
/* ---- what -fsanitize=thread calls */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { access_(p, n, 0); } void __tsan_write##n(void *p) { access_(p, n, 1); } \
 void __tsan_volatile_read##n(void *p) { access_(p, n, 0); } void __tsan_volatile_write##n(void *p) { access_(p, n, 1); } \
 void __tsan_unaligned_read##n(void *p) { access_(p, n, 0); } void __tsan_unaligned_write##n(void *p) { access_(p, n, 1); } \
 void __tsan_unaligned_volatile_read##n(void *p) { access_(p, n, 0); } void __tsan_unaligned_volatile_write##n(void *p) { access_(p, n, 1); } \
 void __tsan_read_write##n(void *p) { access_(p, n, 0); access_(p, n, 1); } void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 0); access_(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, 1); }
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p, 8, 1); }
void __tsan_vptr_read(void **p) { access_(p, 8, 0); }
/* Atomics synchronise and are scheduling points; they do not race with one another.
 * A relaxed read-modify-write (a counter) orders nothing, unless there are fences. */
static int fences;
#define AT(bits, T) \
static void rmw##bits(volatile T *p, int o) { if (ON) { point(o ? VFT_ATOMIC : VFT_RELAXED); if (o || fences) { acq((void *)p); rel((void *)p); } } } \
static void pre##bits(volatile T *p) { if (ON) { point(VFT_ATOMIC); acq((void *)p); rel((void *)p); } } \
T __tsan_atomic##bits##_load(const volatile T *p, int o) { (void)o; pre##bits((volatile T *)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##bits##_store(volatile T *p, T v, int o) { (void)o; pre##bits(p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_exchange(volatile T *p, T v, int o) { (void)o; pre##bits(p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int o) { rmw##bits(p, o); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int o) { rmw##bits(p, o); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int o) { rmw##bits(p, o); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int o) { rmw##bits(p, o); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int o) { rmw##bits(p, o); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { (void)o; (void)f; pre##bits(p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { (void)o; (void)f; pre##bits(p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { (void)o; (void)f; pre##bits(p); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; fences = 1; }
void __tsan_atomic_signal_fence(int o) { (void)o; }
