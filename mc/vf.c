#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include <unistd.h>
#include <pthread.h>
#include <regex.h>
#include <errno.h>
#include "vf.h"
int64_t vf_live, vf_live_re, vf_allocs, vf_fail_at, vf_failed, vf_locks_held;
int vf_track;
void (*vf_on_exit)(int);
void (*vf_on_fail)(void);
#define TAB 65536
static struct { void *p; void *site; size_t n; } tab[TAB];
static int tab_used;
static void rec_add(void *p, size_t n, void *site)
{
	if (!vf_track || !p) return;
	size_t h = ((uintptr_t)p >> 4) * 2654435761u % TAB;
	if (tab_used > TAB / 2) return;
	while (tab[h].p && tab[h].p != (void *)-1) h = (h + 1) % TAB;
	if (!tab[h].p) tab_used++;
	tab[h].p = p; tab[h].site = site; tab[h].n = n;
}
static void rec_del(void *p)
{
	if (!vf_track || !p) return;
	size_t h = ((uintptr_t)p >> 4) * 2654435761u % TAB;
	for (int i = 0; tab[h].p && i < TAB; i++, h = (h + 1) % TAB)
		if (tab[h].p == p) { tab[h].p = (void *)-1; return; }
}
void vf_reset(void)
{
	vf_live = vf_live_re = vf_allocs = vf_fail_at = vf_failed = vf_locks_held = 0;
	if (tab_used) { memset(tab, 0, sizeof tab); tab_used = 0; }
}
void vf_dump_live(char *buf, size_t n)
{
	size_t o = 0; int c = 0;
	buf[0] = 0;
	for (int i = 0; i < TAB && o + 80 < n && c < 8; i++)
		if (tab[i].p && tab[i].p != (void *)-1) {
			o += snprintf(buf + o, n - o, " [%zu bytes from %p]", tab[i].n, tab[i].site);
			c++;
		}
}
static int should_fail(void)
{
	vf_allocs++;
	if (vf_fail_at && vf_allocs == vf_fail_at) { vf_failed++; if (vf_on_fail) vf_on_fail(); return 1; }
	return 0;
}
void *vf_malloc(size_t n)
{
	if (should_fail()) return NULL;
	void *p = malloc(n);
	if (p) { vf_live++; rec_add(p, n, __builtin_return_address(0)); }
	return p;
}
void *vf_calloc(size_t a, size_t b)
{
	if (should_fail()) return NULL;
	void *p = calloc(a, b);
	if (p) { vf_live++; rec_add(p, a * b, __builtin_return_address(0)); }
	return p;
}
void *vf_realloc(void *q, size_t n)
{
	if (should_fail()) return NULL;
	void *p = realloc(q, n);
	if (p && !q) vf_live++;
	if (p) { rec_del(q); rec_add(p, n, __builtin_return_address(0)); }
	return p;
}
void *vf_reallocarray(void *q, size_t a, size_t b)
{
	size_t n;
	if (__builtin_mul_overflow(a, b, &n)) return NULL;
	return vf_realloc(q, n);
}
char *vf_strdup(const char *s)
{
	if (should_fail()) return NULL;
	char *p = strdup(s);
	if (p) { vf_live++; rec_add(p, strlen(s) + 1, __builtin_return_address(0)); }
	return p;
}
char *vf_strndup(const char *s, size_t n)
{
	if (should_fail()) return NULL;
	char *p = strndup(s, n);
	if (p) { vf_live++; rec_add(p, n, __builtin_return_address(0)); }
	return p;
}
int vf_vasprintf(char **o, const char *f, va_list ap)
{
	if (should_fail()) { *o = NULL; return -1; }
	int r = vasprintf(o, f, ap);
	if (r >= 0) { vf_live++; rec_add(*o, r, __builtin_return_address(0)); }
	return r;
}
int vf_asprintf(char **o, const char *f, ...)
{
	va_list ap; va_start(ap, f);
	int r = vf_vasprintf(o, f, ap);
	va_end(ap);
	return r;
}
void vf_free(void *p)
{
	if (p) { vf_live--; rec_del(p); }
	free(p);
}
/* Compiling the same few expressions over and over is most of the cost of a
 * statement: compiled ones are kept and handed out again. */
#ifndef VF_THREADS
static struct { const char *e; int f; regex_t r; } re_cache[64];
#endif
int vf_regcomp(regex_t *r, const char *e, int f)
{
	if (should_fail()) return REG_ESPACE;
#ifndef VF_THREADS
	int i;
	for (i = 0; i < 64 && re_cache[i].e; i++)
		if (re_cache[i].f == f && !strcmp(re_cache[i].e, e)) { *r = re_cache[i].r; vf_live_re++; return 0; }
	int rc = regcomp(r, e, f);
	if (!rc && i < 64) { re_cache[i].e = strdup(e); re_cache[i].f = f; re_cache[i].r = *r; }
#else
	int rc = regcomp(r, e, f);
#endif
	if (!rc) vf_live_re++;
	return rc;
}
void vf_regfree(regex_t *r)
{
	vf_live_re--;
#ifndef VF_THREADS
	for (int i = 0; i < 64 && re_cache[i].e; i++)
		if (re_cache[i].r.buffer == r->buffer) { memset(r, 0, sizeof *r); return; }
#endif
	regfree(r);
}
void vf_exit(int code)
{
	fflush(NULL);
	if (vf_on_exit) vf_on_exit(code);
	fprintf(stderr, "IMPL-EXIT: the implementation called exit(%d)\n", code);
	fflush(NULL);
	_exit(99);
}
void vf_abort(void)
{
	fprintf(stderr, "IMPL-EXIT: the implementation called abort()\n");
	fflush(NULL);
	_exit(99);
}
#ifndef VF_THREADS
int vf_mutex_lock(pthread_mutex_t *m)
{
	int rc = pthread_mutex_trylock(m);
	if (rc == EBUSY) {
		fprintf(stderr, "IMPL-DEADLOCK: the only thread locks a mutex that is held\n");
		fflush(NULL);
		_exit(98);
	}
	if (!rc) vf_locks_held++;
	return rc;
}
int vf_mutex_trylock(pthread_mutex_t *m)
{
	int rc = pthread_mutex_trylock(m);
	if (!rc) vf_locks_held++;
	return rc;
}
int vf_mutex_unlock(pthread_mutex_t *m)
{
	if (vf_locks_held <= 0) {
		fprintf(stderr, "IMPL-LOCK: a mutex that is not held is unlocked\n");
		fflush(NULL);
		_exit(98);
	}
	int rc = pthread_mutex_unlock(m);
	if (!rc) vf_locks_held--;
	return rc;
}
#endif
