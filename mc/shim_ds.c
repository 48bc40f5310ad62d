#include <datastructure/btree.h>
#include <datastructure/hashtable.h>
#include <datastructure/vector.h>
#include <datastructure/queue.h>
#include <datastructure/stack.h>
#include <datastructure/linkedlist.h>
#include <lib/bit.h>
#include "shim_ds.h"
extern void *vf_malloc(size_t); extern void vf_free(void *);
void *bt_init(int d, int (*cmp)(void *, void *)) { return btree_init(d, cmp); }
void *bt_init_ul(int d) { return btree_init(d, btree_cmp_ul); }
void bt_destroy(void *t) { struct btree_head *h = t; btree_destroy(&h); }
int bt_insert(void *t, void *k, void *v) { return btree_insert(t, k, v); }
int bt_remove(void *t, void *k) { return btree_remove(t, k); }
int bt_update(void *t, void *k, void *v) { return btree_update(t, k, v); }
void *bt_lookup(void *t, void *k) { return btree_lookup(t, k); }
static void walk(struct btree_node *n, int level, bt_cb cb, void *arg)
{
	cb(arg, level, n->is_leaf, n->key_count, n);
	if (!n->is_leaf)
		for (int i = 0; i <= n->key_count; i++) walk(&n->children[i], level + 1, cb, arg);
}
void bt_walk(void *t, bt_cb cb, void *arg) { struct btree_head *h = t; if (h->root) walk(h->root, 0, cb, arg); }
void *bt_node_key(void *n, int i) { return ((struct btree_node *)n)->keys[i].key; }
void *bt_node_val(void *n, int i) { return ((struct btree_node *)n)->keys[i].value; }

static bool bytecmp(const void *a, size_t al, const void *b, size_t bl) { return al == bl && !memcmp(a, b, al); }
static size_t h1(const void *k, size_t l) { (void)k; (void)l; return 5; }
static size_t h2(const void *k, size_t l) { (void)k; return l; }
static size_t h3(const void *k, size_t l) { (void)l; return (size_t)((const unsigned char *)k)[0] * 16; }
/* an equality of the caller's own: the first byte, letter case aside */
static int fold(const void *k) { int c = *(const unsigned char *)k; return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool foldcmp(const void *a, size_t al, const void *b, size_t bl) { (void)al; (void)bl; return fold(a) == fold(b); }
static size_t h4(const void *k, size_t l) { (void)l; return (size_t)fold(k) * 16; }
void *ht_new(void) { return calloc(1, sizeof(struct hashtable)); }
void ht_delete(void *h) { free(h); }
int ht_init_str(void *h) { return hashtable_init(h, hashtable_str_compare, hashtable_str_hash); }
int ht_init_mode(void *h, int m)
{
	if (m == 0) return ht_init_str(h);
	if (m == 4) return hashtable_init(h, foldcmp, h4);
	return hashtable_init(h, bytecmp, m == 1 ? h1 : m == 2 ? h2 : h3);
}
void ht_free(void *h) { hashtable_free(h); }
int ht_put(void *h, const void *k, size_t kl, const void *v, size_t vl) { return hashtable_put(h, k, kl, v, vl); }
void *ht_get(void *h, const void *k, size_t kl, size_t *vl)
{
	struct hashtable_value *v = hashtable_get(h, k, kl);
	if (!v) return NULL;
	*vl = v->len;
	return v->content;
}
int ht_remove(void *h, const void *k, size_t kl)
{
	struct hashtable_entry *e = hashtable_remove(h, k, kl);
	if (!e) return 0;
	hashtable_free_entry(e);
	return 1;
}
int ht_remove_check(void *h, const void *k, size_t kl, const void *v, size_t vl)
{
	struct hashtable_entry *e = hashtable_remove(h, k, kl);
	if (!e) return 0;
	int ok = e->key.len == kl && !memcmp(e->key.content, k, kl) && e->value.len == vl && !memcmp(e->value.content, v, vl);
	hashtable_free_entry(e);
	return ok ? 1 : 2;
}
struct eacharg { ht_cb cb; void *arg; };
static void each(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{ struct eacharg *a = arg; (void)h; a->cb(k, kl, v, vl, a->arg); }
void ht_each(void *h, ht_cb cb, void *arg) { struct eacharg a = { cb, arg }; hashtable_foreach(h, each, &a); }
static void drain(struct hashtable *h, const void *k, size_t kl, const void *v, size_t vl, void *arg)
{ (void)v; (void)vl; (void)arg; struct hashtable_entry *e = hashtable_remove(h, k, kl); if (e) hashtable_free_entry(e); }
void ht_drain(void *h) { hashtable_foreach(h, drain, NULL); }
size_t ht_count(void *h) { return ((struct hashtable *)h)->count; }
size_t ht_capacity(void *h) { return ((struct hashtable *)h)->capacity; }

void *vc_new(void) { return calloc(1, sizeof(struct vector)); }
void vc_delete(void *v) { free(v); }
int vc_init(void *v) { return vector_init(v); }
void vc_free(void *v) { vector_free(v); }
void vc_clear(void *v) { vector_clear(v); }
int vc_push(void *v, const void *d, size_t n) { return vector_push(v, (void *)d, n); }
size_t vc_len(void *v) { return ((struct vector *)v)->len; }
size_t vc_cap(void *v) { return ((struct vector *)v)->capacity; }
const char *vc_data(void *v) { return ((struct vector *)v)->data; }
void *qu_new(void) { return calloc(1, sizeof(struct queue)); }
void qu_delete(void *q) { free(q); }
int qu_init(void *q) { return queue_init(q); }
void qu_free(void *q) { queue_free(q); }
int qu_empty(void *q) { return queue_empty(q); }
int qu_offer(void *q, const void *d, size_t n) { return queue_offer(q, (void *)d, n); }
void *qu_poll(void *q) { return queue_poll(q); }
void *qu_peek(void *q) { return queue_peek(q); }
void *qu_peek_pos(void *q, size_t p) { return queue_peek_pos(q, p); }
size_t qu_length(void *q) { return queue_length(q); }
void *sk_new(void) { return calloc(1, sizeof(struct stack)); }
void sk_delete(void *s) { free(s); }
int sk_init(void *s) { return stack_init(s); }
void sk_free(void *s) { stack_free(s); }
int sk_empty(void *s) { return stack_empty(s); }
int sk_push(void *s, const void *d, size_t n) { return stack_push(s, (void *)d, n); }
int sk_unsafe_push(void *s, void *d) { return stack_unsafe_push(s, d); }
void *sk_pop(void *s) { return stack_pop(s); }
void *sk_peek(void *s) { return stack_peek(s); }
void *sk_peek_pos(void *s, int p) { return stack_peek_pos(s, p); }
void vf_release(void *p) { vf_free(p); }
void *vf_alloc(size_t n) { return vf_malloc(n); }
void *li_new(void) { return calloc(1, sizeof(struct list_head)); }
void li_delete(void *e) { free(e); }
void li_init(void *h) { list_head_init(h); }
void li_add(void *e, void *h) { list_add(e, h); }
void li_del(void *e) { list_del(e); }
size_t li_length(void *h) { return list_length(h); }
int li_is_empty(void *h) { struct list_head *x = h; return list_is_empty(x); }
void *li_next(void *e) { return ((struct list_head *)e)->next; }
void *li_prev(void *e) { return ((struct list_head *)e)->prev; }
size_t li_size(void) { return sizeof(struct list_head); }
int b_test(void *f, size_t n, size_t len) { return bit_test(f, n, len); }
void b_set(void *f, size_t n, size_t len) { bit_set(f, n, len); }
void b_clear(void *f, size_t n, size_t len) { bit_clear(f, n, len); }
void b_toggle(void *f, size_t n, size_t len) { bit_toggle(f, n, len); }
