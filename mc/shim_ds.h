/* C interface to the data structures and to the row storage. */
#ifndef SHIM_DS_H
#define SHIM_DS_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* B-tree over uint64_t keys and values owned by the caller */
void *bt_init(int min_degree, int (*cmp)(void *, void *));
void *bt_init_ul(int min_degree);
void bt_destroy(void *t);
int bt_insert(void *t, void *k, void *v);
int bt_remove(void *t, void *k);
int bt_update(void *t, void *k, void *v);
void *bt_lookup(void *t, void *k);
/* depth-first walk; cb(level, is_leaf, nkeys, keys...) */
typedef void (*bt_cb)(void *arg, int level, int is_leaf, int nkeys, void *node);
void bt_walk(void *t, bt_cb cb, void *arg);
void *bt_node_key(void *node, int i);
void *bt_node_val(void *node, int i);
/* hash table */
typedef int (*ht_cmp)(const void *, size_t, const void *, size_t);
void *ht_new(void); /* storage only */
void ht_delete(void *h);
int ht_init_str(void *h);
int ht_init_mode(void *h, int mode); /* 0 real string hash, 1 constant hash, 2 length hash, 3 first byte * 16; bytewise comparison in 1..3 */
void ht_free(void *h);
int ht_put(void *h, const void *k, size_t kl, const void *v, size_t vl);
void *ht_get(void *h, const void *k, size_t kl, size_t *vl);
int ht_remove(void *h, const void *k, size_t kl); /* frees the entry; 1 removed */
int ht_remove_check(void *h, const void *k, size_t kl, const void *v, size_t vl); /* as above; 2 when the returned entry differs */
typedef void (*ht_cb)(const void *k, size_t kl, const void *v, size_t vl, void *arg);
void ht_each(void *h, ht_cb cb, void *arg);
void ht_drain(void *h); /* removes every entry from inside the iteration, as database_close does */
size_t ht_count(void *h);
size_t ht_capacity(void *h);
/* vector, queue, stack, list */
void *vc_new(void); void vc_delete(void *);
int vc_init(void *); void vc_free(void *); void vc_clear(void *);
int vc_push(void *, const void *, size_t); size_t vc_len(void *); const char *vc_data(void *); size_t vc_cap(void *);
void *qu_new(void); void qu_delete(void *);
int qu_init(void *); void qu_free(void *); int qu_empty(void *); int qu_offer(void *, const void *, size_t);
void *qu_poll(void *); void *qu_peek(void *); void *qu_peek_pos(void *, size_t); size_t qu_length(void *);
void *sk_new(void); void sk_delete(void *);
int sk_init(void *); void sk_free(void *); int sk_empty(void *); int sk_push(void *, const void *, size_t); int sk_unsafe_push(void *, void *);
void *sk_pop(void *); void *sk_peek(void *); void *sk_peek_pos(void *, int);
void vf_release(void *p); /* free() as the implementation sees it */
void *vf_alloc(size_t n);
void *li_new(void); void li_delete(void *); /* a list head or an element */
void li_init(void *); void li_add(void *e, void *h); void li_del(void *e); size_t li_length(void *h); int li_is_empty(void *h);
void *li_next(void *); void *li_prev(void *); size_t li_size(void);
/* bits */
int b_test(void *f, size_t n, size_t len); void b_set(void *f, size_t n, size_t len); void b_clear(void *f, size_t n, size_t len); void b_toggle(void *f, size_t n, size_t len);
#ifdef __cplusplus
}
#endif
#endif
